from specs.c14 import *
from toonvc.terms import ite

from toonvc.norm import Norm
from toonvc.exe import Ptr, DOUBLE
from toonvc.terms import iadd

def same(ex, x, y):
    d = sub(x, y)
    return ex.simp('is_zero', d) is True if isinstance(d, Term) else d == 0
def cells(ex, st, p, n): return [ex.load(st, Ptr(p.r, iadd(p.o, 8 * i)), DOUBLE) for i in range(n)]
def put(ex, st, p, xs):
    for i, x in enumerate(xs): ex.store(st, Ptr(p.r, iadd(p.o, 8 * i)), DOUBLE, x)
def ln_contract(*cases):
    """SO3<double>::ln, as C14 establishes it: the rotation vector w of the rotation matrix R, for the rotations of angle in (0,pi) listed"""
    def h(ex, st, args, i, name):
        m = cells(ex, st, args[1], 9)
        for R, w in cases:
            if all(same(ex, x, y) for x, y in zip(m, flat(R))):
                put(ex, st, args[0], w); return [(st, None)]
        return NotImplemented
    return (r'TooN::SO3<double>::ln\(\) const', h)
def ge_contract(*xs):
    """gaussian_elimination(A, b), as C09 establishes it: the solution x of A x = b, for a nonsingular A; xs is a vector that satisfies the equations"""
    def h(ex, st, args, i, name):
        A, b = cells(ex, st, args[1], 9), cells(ex, st, args[2], 3)
        for x in xs:
            if all(same(ex, dotp(A[3 * k:3 * k + 3], x), b[k]) for k in range(3)):
                put(ex, st, args[0], x); return [(st, None)]
        return NotImplemented
    return (r'TooN::gaussian_elimination<3, double>', h)

def build(S):
    S.chunk = 4
    S.include('TooN/se3.h', 'TooN/sim3.h')
    KA = lambda t: dict(kind='static', group=None, opts=dict(RS, angles=[t]), nodiv=True)
    I4 = [[Fraction(int(i == j)) for j in range(4)] for i in range(4)]
    R1, R2 = rot('r', 3), rot('q', 3)
    t1, w1, s1, k1 = [rvar('t_%d' % i) for i in range(3)], [rvar('w_%d' % i) for i in range(3)], rvar('s'), rvar('k')
    hout = lambda T, x, sim, ty='double': 'for(int i_=0;i_<3;i_++){for(int j_=0;j_<3;j_++) %s[i_*4+j_]=%s%s.get_rotation().get_matrix()[i_][j_]; %s[i_*4+3]=%s.get_translation()[i_]; %s[12+i_]=0;} %s[15]=1;' % (x, ('%s.get_scale()*' % T) if sim else '', T, x, T, x, x)
    absle_ = absle
    for sim in (0, 1):
        cls, nm = ('SIM3<>', 'sim3') if sim else ('SE3<>', 'se3')
        tn = cls[:-2]
        d = 7 if sim else 6
        mk = lambda T, r, t, s, ty='double': fixrot('R' + T, r, ty) + '%s<%s> %s(R%s,wrapVector<3>((%s*)%s)%s);' % (tn, ty, T, T, ty, t, ',' + s if sim else '')
        mk1, mk2 = mk('T', 'mr', 't', 's'), mk('U', 'nr', 'w', 'k')
        PT = lambda ty='double': [In('mr', 9, ty, init=flat(R1)), In('t', 3, ty)] + ([Real('s', ty)] if sim else [])
        PU = lambda ty='double': [In('nr', 9, ty, init=flat(R2)), In('w', 3, ty)] + ([Real('k', ty)] if sim else [])
        P1, P2 = PT(), PU()
        H1, H2 = homog(hsc(s1, R1) if sim else R1, t1), homog(hsc(k1, R2) if sim else R2, w1)
        nz1 = (lambda c: [rlt(Z, s1)]) if sim else None
        nz = (lambda c: [rlt(Z, s1), rlt(Z, k1)]) if sim else None
        rigid(S, 3, cls, nm, mk1, P1, H1)
        S.h(nm + '_get', P1 + [Out('x', 16), Out('y', 16), Out('h', 1)], mk1 + hout('T', 'x', sim) + '%s V; %s h[0]=%s;' % (cls, hout('V', 'y', sim), 'T.get_scale()' if sim else '0'), lambda c, H1=H1, sim=sim: (eqm(c, 'parts', c.o('x'), H1), eqm(c, 'default', c.o('y'), I4), c.eq('scale', c.o('h')[0], s1 if sim else Z)), what='%s constructors and accessors' % cls, **KW)
        S.h(nm + '_set', P1 + P2 + [Out('x', 16)], mk1 + mk2 + 'U.get_rotation()=T.get_rotation(); U.get_translation()=T.get_translation(); %s' % ('U.get_scale()=T.get_scale();' if sim else '') + hout('U', 'x', sim), lambda c, H1=H1: eqm(c, 'parts', c.o('x'), H1), what='%s write access to the parts' % cls, **KW)
        S.h(nm + '_mul', P1 + P2 + [Out('x', 16)], mk1 + mk2 + 'auto V=T*U; ' + hout('V', 'x', sim), lambda c, H1=H1, H2=H2: eqm(c, 'product', c.o('x'), mmul(H1, H2)), pre=nz, what='%s product' % cls, **KW)
        S.h(nm + '_muleq', P1 + P2 + [Out('x', 16)], mk1 + mk2 + '%s& R_=(T*=U); R_.get_translation()[0]+=0; ' % cls + hout('T', 'x', sim), lambda c, H1=H1, H2=H2: eqm(c, 'product', c.o('x'), mmul(H1, H2)), pre=nz, what='%s *=' % cls, **KW)
        S.h(nm + '_leq', P1 + P2 + [Out('x', 16)], mk1 + mk2 + '%s& R_=T.left_multiply_by(U); (void)R_; ' % cls + hout('T', 'x', sim), lambda c, H1=H1, H2=H2: eqm(c, 'product', c.o('x'), mmul(H2, H1)), pre=nz, what='%s::left_multiply_by' % cls, **KW)
        for op, oc in (('*=', 'T*=T;'), ('left', 'T.left_multiply_by(T);')):
            S.h('%s_self_%s' % (nm, 'l' if op == 'left' else 'r'), P1 + [Out('x', 16)], mk1 + oc + hout('T', 'x', sim), lambda c, H1=H1: eqm(c, 'square', c.o('x'), mmul(H1, H1)), pre=nz1, what='%s %s itself' % (cls, op), **KW)
        S.h(nm + '_inv', P1 + [Out('x', 16), Out('y', 16), Out('z', 16)], mk1 + 'auto I=T.inverse(); auto L=I*T; auto R=T*I; ' + hout('I', 'x', sim) + hout('L', 'y', sim) + hout('R', 'z', sim), lambda c, H1=H1: (eqm(c, 'T^-1 as a matrix, times T', flat(mmul(mats4(c, 'x'), H1)), I4), eqm(c, 'T^-1 T', c.o('y'), I4), eqm(c, 'T T^-1', c.o('z'), I4)), pre=nz1, what='%s::inverse' % cls, **KW)
        S.h(nm + '_assoc', P1 + P2 + [In('p', 3), Out('x', 3), Out('y', 3)], mk1 + mk2 + 'wrapVector<3>(x)=(T*U)*wrapVector<3>((double*)p); wrapVector<3>(y)=T*(U*wrapVector<3>((double*)p));', lambda c: [c.eq('(T U) p == T (U p)[%d]' % i, c.o('x')[i], c.o('y')[i]) for i in range(3)], pre=nz, what='%s: action of a product' % cls, **KW)
        for ta, tb in (('float', 'double'), ('double', 'float'), ('float', 'float')):
            to = 'double' if 'double' in (ta, tb) else 'float'
            S.h('%s_mixed_%s%s' % (nm, ta[0], tb[0]), PT(ta) + PU(tb) + [Out('x', 16, to)], mk('T', 'mr', 't', 's', ta) + mk('U', 'nr', 'w', 'k', tb) + '%s<%s> V=T*U; ' % (tn, to) + hout('V', 'x', sim), lambda c, H1=H1, H2=H2: eqm(c, 'product', c.o('x'), mmul(H1, H2)), pre=nz, what='%s<%s> * %s<%s>' % (tn, ta, tn, tb), f32='exact', **KW)
        if not sim:
            S.h('so3_se3', [In('nr', 9, init=flat(R2))] + P1 + [Out('x', 16)], mk1 + fixrot('Q', 'nr') + 'auto V=Q*T; ' + hout('V', 'x', 0), lambda c, H1=H1: eqm(c, 'rotation times transform', c.o('x'), mmul(homog(R2, [Z] * 3), H1)), what='SO3 * SE3', **KW)
            S.h('se3_idt', [In('t', 3), Out('x', 16)], 'SE3<> T(Identity,wrapVector<3>((double*)t)); ' + hout('T', 'x', 0), lambda c: eqm(c, 'translation', c.o('x'), homog(I3, t1)), what='SE3(Identity, t)', **KW)
            S.h('se3_muleq_f', PT() + PU('float') + [Out('x', 16)], mk1 + mk('U', 'nr', 'w', 'k', 'float') + 'T*=U; ' + hout('T', 'x', 0), lambda c, H1=H1, H2=H2: eqm(c, 'product', c.o('x'), mmul(H1, H2)), what='SE3<double> *= SE3<float>', f32='exact', **KW)
        else:
            S.h('sim3_se3', P1 + P2[:2] + [Out('x', 16)], mk1 + fixrot('Q', 'nr') + 'SE3<> U(Q,wrapVector<3>((double*)w)); auto V=T*U; ' + hout('V', 'x', 1), lambda c, H1=H1: eqm(c, 'product', c.o('x'), mmul(H1, homog(R2, w1))), pre=nz1, what='SIM3 * SE3', **KW)
            S.h('sim3_reset', P1 + [Out('x', 16)], mk1 + 'T=Identity; ' + hout('T', 'x', 1), lambda c: eqm(c, 'identity', c.o('x'), I4), what='SIM3 = Identity', **KW)
        # Lie algebra
        v = [rvar('v_%d' % i) for i in range(d)]
        def gens(vec, sim=sim):
            M = hat(vec[3:6])
            if sim: M = madd(M, hsc(vec[6], I3))
            return [M[i] + [vec[i]] for i in range(3)] + [[Z] * 4]
        unit = lambda i, d=d: [Fraction(int(i == j)) for j in range(d)]
        S.h(nm + '_gen', [In('f', 4), Out('x', 16 * d), Out('y', 4 * d)], ''.join('wrapMatrix<4,4>(x+%d)=%s::generator(%d); wrapVector<4>(y+%d)=%s::generator_field(%d,Vector<4>(wrapVector<4>((double*)f)));' % (16 * i, cls, i, 4 * i, cls, i) for i in range(d)),
            lambda c, d=d, gens=gens, unit=unit: [(eqm(c, 'generator %d' % i, c.o('x')[16 * i:16 * i + 16], gens(unit(i))), [c.eq('generator field %d[%d]' % (i, j), c.o('y')[4 * i + j], dotp(gens(unit(i))[j], [c.a('f')[k] for k in range(4)])) for j in range(4)]) for i in range(d)], what='%s generators and generator fields' % cls, **KW)
        def padj(c, gens=gens, v=v, H1=H1, d=d):
            L, Rr = mmul(gens([c.o('x')[i] for i in range(d)]), H1), mmul(H1, gens(v))
            for i in range(4):
                for j in range(4): c.eq('adjoint(v)^ T == T v^ [%d,%d]' % (i, j), L[i][j], Rr[i][j])
        for kind in 'sd':
            vcx = 'wrapVector<%d>((double*)v)' % d if kind == 's' else 'wrapVector((double*)v,%d)' % d
            S.h('%s_adj_%s' % (nm, kind), P1 + [In('v', d), Out('x', d)], mk1 + 'wrapVector<%d>(x)=T.adjoint(%s);' % (d, vcx), padj, pre=nz1, what='%s::adjoint: the generator combination of adjoint(v) is T v^ T^-1 (%s)' % (cls, kind), **KW)
            vfx = vcx.replace('*)v', '*)f')
            S.h('%s_tia_%s' % (nm, kind), P1 + [In('v', d), In('f', d), Out('x', 1)], mk1 + 'x[0]=T.trinvadjoint(%s)*T.adjoint(%s);' % (vfx, vcx), lambda c, d=d: c.eq('trinvadjoint(f) . adjoint(v) == f . v', c.o('x')[0], dotp([c.a('f')[i] for i in range(d)], [c.a('v')[i] for i in range(d)])), pre=nz1, what='%s: trinvadjoint is dual to adjoint (%s)' % (cls, kind), **KW)
        for fn in ('adjoint', 'trinvadjoint'):
            for kind in ('s', 'd'):
                Mx = 'Matrix<%d,%d,double,RefR> M((double*)z);' % (d, d) if kind == 's' else 'Matrix<Dynamic,Dynamic,double,RefC> M((double*)z,%d,%d);' % (d, d)
                def pm(c, d=d, kind=kind):
                    M = [[c.a('z')[i * d + j] if kind == 's' else c.a('z')[j * d + i] for j in range(d)] for i in range(d)]
                    J = [[c.o('y')[j * d + i] for j in range(d)] for i in range(d)]    # column j is the image of the unit vector j
                    W = mmul(mmul(J, M), tr(J))
                    eqm(c, 'J M J^T', c.o('x'), W)
                S.h('%s_%sm_%s' % (nm, fn[:3], kind), P1 + [In('z', d * d), Out('x', d * d), Out('y', d * d)], mk1 + Mx + 'wrapMatrix<%d,%d>(x)=T.%s(M); for(int i=0;i<%d;i++){Vector<%d> e=Zeros; e[i]=1; wrapVector<%d>(y+i*%d)=T.%s(e);}' % (d, d, fn, d, d, d, d, fn), pm, pre=nz1, what='%s::%s of a matrix: J M J^T (%s)' % (cls, fn, kind), **KW)
        # exponential
        E6 = Fraction(1, 10**6)
        ww, tt = v[3:6], v[:3]
        q = sq3(ww)
        th = tsqrt(q)
        def expm(A, B, c0, c1, c2, scale=ONE, w=ww, t=tt):
            cr = cross(w, t)
            V = [add(mul(c0, t[i]), add(mul(c1, cr[i]), mul(c2, cross(w, cr)[i]))) for i in range(3)]
            return homog(hsc(scale, rodrigues(w, A, B)), V)
        vc = 'wrapVector<%d>((double*)v)' % d
        if not sim:
            A, B = div(tsin(th), th), div(sub(ONE, tcos(th)), q)
            want = expm(A, B, ONE, B, div(sub(ONE, A), q))
            pre_e = lambda c, q=q: [lnot(rlt(q, E6))]
        else:
            sg = v[6]
            es, ss, cc = texp(sg), tsin(th), tcos(th)
            D = add(mul(sg, sg), q)
            i0 = div(sub(es, ONE), sg)                                          # int exp(s x)
            ic = div(sub(mul(es, add(mul(sg, cc), mul(th, ss))), sg), D)         # int exp(s x) cos(t x)
            is_ = div(add(mul(es, sub(mul(sg, ss), mul(th, cc))), th), D)        # int exp(s x) sin(t x)
            want = expm(div(ss, th), div(sub(ONE, cc), q), i0, div(is_, th), div(sub(i0, ic), q), es)
            pre_e = lambda c, q=q, sg=sg: [lnot(rlt(q, E6)), lnot(land(rlt(sg, E6), rlt(neg(sg), E6)))]
        for en, ec in (('exp', '%s T=%s::exp(%s);' % (cls, cls, vc)), ('ctor', '%s T(%s);' % (cls, vc)), ('expd', '%s T=%s::exp(wrapVector((double*)v,%d));' % (cls, cls, d))):
            S.h('%s_%s' % (nm, en), [In('v', d), Out('x', 16)], ec + hout('T', 'x', sim), lambda c, want=want: eqm(c, 'exponential', c.o('x'), want), pre=pre_e, what='%s exponential away from the series expansions (%s): matrix exponential of the generator combination' % (cls, en), **KW)
        for ty in ('double', 'float'):
            S.h('%s_expf_%s' % (nm, ty), [In('v', d, 'float'), Out('x', 16, ty)], '%s<%s> T=%s<%s>::exp(Vector<%d,float,Reference>((float*)v));' % (tn, ty, tn, ty, d) + hout('T', 'x', sim), lambda c, want=want: eqm(c, 'exponential', c.o('x'), want), pre=pre_e, what='%s<%s> exponential of a float vector' % (tn, ty), f32='exact', **KW)
        for rn, rp in (('', pre_e),) + ((('_mid', lambda c, q=q: [rlt(q, E6), lnot(rlt(q, E8))]),) if not sim else ()):
            S.h('%s_expadj%s' % (nm, rn), P1 + [In('v', d), Out('x', 16), Out('y', 16)], mk1 + '%s L=%s::exp(T.adjoint(%s)); auto R=T*%s::exp(%s)*T.inverse(); ' % (cls, cls, vc, cls, vc) + hout('L', 'x', sim) + hout('R', 'y', sim), lambda c: [c.eq('exp(adjoint(v)) == T exp(v) T^-1 [%d]' % i, c.o('x')[i], c.o('y')[i]) for i in range(16)], pre=lambda c, rp=rp, nz1=nz1: rp(c) + (nz1(c) if nz1 else []), what='%s: exp(adjoint(v)) == T exp(v) T^-1%s' % (cls, rn), **KW)

    # ---- SE3 below 1e-3 rad: the rotation of the input frame, then one axis at a time
    v = [rvar('v_%d' % i) for i in range(6)]
    q = sq3(v[3:6])
    h4 = lambda T, x: hout(T, x, 0)
    S.h('se3_expadj_small', [In('mr', 9, init=flat(R1)), In('v', 6), Out('x', 16), Out('y', 16)], fixrot('Q', 'mr') + 'SE3<> T(Q,makeVector(0.,0.,0.)); SE3<> L=SE3<>::exp(T.adjoint(wrapVector<6>((double*)v))); auto R=T*SE3<>::exp(wrapVector<6>((double*)v))*T.inverse();' + h4('L', 'x') + h4('R', 'y'), lambda c: [c.eq('exp(adjoint(v)) == T exp(v) T^-1 [%d]' % i, c.o('x')[i], c.o('y')[i]) for i in range(16)], pre=lambda c: [rlt(q, E8)], what='SE3: exp(adjoint(v)) == T exp(v) T^-1, T a rotation, less than 1e-4 rad', **KW)
    t_ = rvar('t'); q_ = mul(t_, t_)
    B_, C_ = rvar('cosc'), rvar('sincc')     # (1-cos t)/t^2, (t-sin t)/t^3
    encl = [rle(sub(Fraction(1, 2), div(q_, Fraction(24))), B_), rle(B_, add(sub(Fraction(1, 2), div(q_, Fraction(24))), div(mul(q_, q_), Fraction(720)))),
            rle(sub(Fraction(1, 6), div(q_, Fraction(120))), C_), rle(C_, add(sub(Fraction(1, 6), div(q_, Fraction(120))), div(mul(q_, q_), Fraction(5040))))]
    box = [absle(x, ONE) for x in v[:3]]
    for rn, lo, hi, tol in (('small', None, E8, E8), ('mid', E8, E6, Fraction(1, 10**13))):
        for k in range(3):
            i, j = (k + 1) % 3, (k + 2) % 3
            wk = [t_ if a == k else Z for a in range(3)]
            def near(c, i=i, j=j, k=k, tol=tol):
                x = [c.o('x')[a] for a in range(3)]
                c.eq('along the axis', x[k], v[k])
                c.hold('translation[%d] within %g' % (i, tol), absle(sub(x[i], sub(mul(sub(ONE, mul(q_, C_)), v[i]), mul(mul(B_, t_), v[j]))), tol))
                c.hold('translation[%d] within %g' % (j, tol), absle(sub(x[j], add(mul(sub(ONE, mul(q_, C_)), v[j]), mul(mul(B_, t_), v[i]))), tol))
                c.all_eq('rotation is that of SO3::exp', [c.o('y')[a] for a in range(9)], [c.o('z')[a] for a in range(9)])
            S.h('se3_exp_%s_%d' % (rn, k), [In('v', 6, init=v[:3] + wk), Out('x', 3), Out('y', 9), Out('z', 9)], 'SE3<> T=SE3<>::exp(wrapVector<6>((double*)v)); wrapVector<3>(x)=T.get_translation(); wrapMatrix<3,3>(y)=T.get_rotation().get_matrix(); wrapMatrix<3,3>(z)=SO3<>::exp(wrapVector<3>((double*)v+3)).get_matrix();', near,
                pre=lambda c, lo=lo, hi=hi: encl + box + [rlt(q_, hi)] + ([lnot(rlt(q_, lo))] if lo else []), what='SE3::exp %s about axis %d: within %g of the exponential for a unit translation' % ('below 1e-4 rad' if rn == 'small' else 'between 1e-4 and 1e-3 rad', k, tol), native=False, **KW)
    # ---- logarithms
    u = rvar('u')
    th2, th4 = mul(TWO, uf('atan', u)), mul(Fraction(4), uf('atan', u))
    rng4 = [rlt(Z, u), rlt(u, ONE), lnot(rlt(mul(th2, th2), E6))]
    for k in range(2):
        n = axis2('n', k)
        w4 = [mul(th4, x) for x in n]
        cc, ss = trigmul(4, u)
        Rn = madd(I3, hsc(ss, hat(n)), hsc(sub(ONE, cc), mmul(hat(n), hat(n))))
        S.h('se3_ln_%d' % k, [In('v', 6, init=v[:3] + w4), Out('x', 6)], 'wrapVector<6>(x)=SE3<>::exp(wrapVector<6>((double*)v)).ln();', lambda c, w4=w4: [c.eq('ln(exp(v))[%d]' % i, c.o('x')[i], (v[:3] + w4)[i]) for i in range(6)], pre=lambda c: rng4, what='SE3: ln(exp(v)) == v for angles of 2e-3 to pi (axis parametrisation %d)' % k, kind='static', group=None, nodiv=True, opts=dict(RS, angles=[th4], contracts=[ln_contract((Rn, w4))]))
    # small rotations: the logarithm solves the translation equation of the exponential
    (cth, sth), h_ = trigmul(2, rvar('g')), tsin(mul(Fraction(1, 2), t_))
    nrm, F3 = Norm(), Fraction(3)      # sin(t/2)/t is above 1/3
    hq = div(mul(t_, t_), Fraction(4))
    hencl = [rle(mul(div(t_, TWO), sub(ONE, div(hq, Fraction(6)))), h_), rle(h_, mul(div(t_, TWO), add(sub(ONE, div(hq, Fraction(6))), div(mul(hq, hq), Fraction(120)))))]
    for rn, lo, hi in (('a', None, Fraction(1, 10**5)), ('b', Fraction(1, 10**5), Fraction(1, 5000))):
        tol = Fraction(1, 10**10)
        for k in range(3):
            i, j = (k + 1) % 3, (k + 2) % 3
            wk = [t_ if a == k else Z for a in range(3)]
            R = [[Z] * 3 for _ in range(3)]
            R[k][k] = ONE; R[i][i] = R[j][j] = cth; R[i][j] = neg(sth); R[j][i] = sth
            def near(c, i=i, j=j, k=k, tol=tol, wk=wk):
                X = [[c.o('x')[6 * b + a] for a in range(6)] for b in range(4)]
                c.all_eq('rotation vector', X[0][3:], wk)
                for a in range(3): c.eq('linear in the translation[%d]' % a, X[0][a], dotp(v[:3], [X[b + 1][a] for b in range(3)]))
                V = sub(ONE, mul(q_, C_))
                for b in range(3):
                    x = X[b + 1]; e = [Fraction(int(a == b)) for a in range(3)]
                    c.hold('along the axis, unit vector %d, within %g' % (b, tol), absle(sub(x[k], e[k]), tol))
                    c.hold('translation equation[%d] of unit vector %d within %g' % (i, b, tol), absle(nrm.ratsimp(mul(div(h_, t_), sub(e[i], sub(mul(V, x[i]), mul(mul(B_, t_), x[j]))))), div(tol, F3)))
                    c.hold('translation equation[%d] of unit vector %d within %g' % (j, b, tol), absle(nrm.ratsimp(mul(div(h_, t_), sub(e[j], add(mul(V, x[j]), mul(mul(B_, t_), x[i]))))), div(tol, F3)))
            S.h('se3_ln_small%s_%d' % (rn, k), [In('mr', 9, init=flat(R)), In('v', 3), Out('x', 24)], fixrot('Q', 'mr') + 'wrapVector<6>(x)=SE3<>(Q,wrapVector<3>((double*)v)).ln(); ' + ''.join('wrapVector<6>(x+%d)=SE3<>(Q,makeVector(%s)).ln();' % (6 * b + 6, ','.join('1.' if a == b else '0.' for a in range(3))) for b in range(3)), near,
                pre=lambda c, lo=lo, hi=hi: encl + hencl + box + [rlt(t_, hi), rle(lo, t_) if lo else rlt(Z, t_)], what='SE3::ln of a rotation of at most %g rad about axis %d: within %g for a unit translation' % (hi, k, tol), native=False, kind='static', group=None, nodiv=True, opts=dict(RS, contracts=[ln_contract((R, wk))]))
    # ---- SIM3: the series of the exponential; its translation against the coefficients, its rotation against SO3::exp
    v7 = [rvar('v_%d' % i) for i in range(7)]
    ww, sg = v7[3:6], v7[6]
    q = sq3(ww); th = tsqrt(q)
    F = Fraction
    def q2(x): return div(mul(x, x), TWO)
    def co_s(s, t):         # exp(s x) to second order in s
        ss, cc = tsin(t), tcos(t)
        S0, S1, S2 = div(sub(ONE, cc), t), div(sub(ss, mul(t, cc)), mul(t, t)), None
        C0, C1 = div(ss, t), sub(div(ss, t), div(sub(ONE, cc), mul(t, t)))
        C2 = sub(div(ss, t), mul(TWO, div(S1, t))); S2 = sub(mul(TWO, div(C1, t)), div(cc, t))
        f = lambda a, b, c: add(a, add(mul(s, b), mul(q2(s), c)))
        i0 = add(ONE, add(div(s, TWO), div(mul(s, s), F(6))))
        return i0, div(f(S0, S1, S2), t), div(sub(i0, f(C0, C1, C2)), mul(t, t))
    def co_t(s, t):         # sin(t x)/t and (1-cos(t x))/t^2 to second order in t
        es = texp(s)
        I = [div(sub(es, ONE), s)]
        for k in range(1, 5): I.append(div(sub(es, mul(F(k), I[-1])), s))
        t2_ = mul(t, t)
        return I[0], sub(I[1], mul(div(t2_, F(6)), I[3])), sub(div(I[2], TWO), mul(div(t2_, F(24)), I[4]))
    def co_st(s, t):
        s2, t2_ = mul(s, s), mul(t, t)
        return add(ONE, add(div(s, TWO), div(s2, F(6)))), add(F(1, 2), add(div(s, F(3)), sub(div(s2, F(8)), div(t2_, F(24))))), add(F(1, 6), add(div(s, F(8)), sub(div(s2, F(20)), div(t2_, F(120)))))
    nears = [rlt(sg, E6), rlt(neg(sg), E6)]
    fars = [lnot(land(rlt(sg, E6), rlt(neg(sg), E6)))]
    E12 = Fraction(1, 10**12)
    for rn, f, pr in (('s', co_s, nears + [lnot(rlt(q, E12))]), ('t', co_t, fars + [rlt(q, E12)]), ('st', co_st, nears + [rlt(q, E12)])):
        def pn(c, f=f):
            c0, c1, c2 = f(sg, th)
            cr = cross(ww, v7[:3])
            for i in range(3): c.eq('translation, second order[%d]' % i, c.o('x')[i], add(mul(c0, v7[i]), add(mul(c1, cr[i]), mul(c2, cross(ww, cr)[i]))))
            c.eq('scale', c.o('k')[0], texp(sg))
            c.all_eq('rotation is that of SO3::exp', [c.o('y')[a] for a in range(9)], [c.o('z')[a] for a in range(9)])
        S.h('sim3_exp_near_' + rn, [In('v', 7), Out('x', 3), Out('k', 1), Out('y', 9), Out('z', 9)], 'SIM3<> T=SIM3<>::exp(wrapVector<7>((double*)v)); wrapVector<3>(x)=T.get_translation(); k[0]=T.get_scale(); wrapMatrix<3,3>(y)=T.get_rotation().get_matrix(); wrapMatrix<3,3>(z)=SO3<>::exp(wrapVector<3>((double*)v+3)).get_matrix();', pn, pre=lambda c, pr=pr: pr, what='SIM3::exp with a small %s: second order expansion of the exponential' % {'s': 'log scale', 't': 'angle', 'st': 'log scale and angle'}[rn], **KW)
    # logarithm: the translation solves the equation the exponential poses
    for k in range(2):
        n = axis2('n', k)
        cc, ss = trigmul(2, u)
        Rn = madd(I3, hsc(ss, hat(n)), hsc(sub(ONE, cc), mmul(hat(n), hat(n))))
        w2 = [mul(th2, x) for x in n]
        KC = dict(kind='static', group=None, nodiv=True, opts=dict(RS, angles=[th2], contracts=[ln_contract((Rn, w2)), ge_contract(v7[:3])]))
        tr_ = 'Vector<3> c_=Internal::compute_rodrigues_coefficients_sim3<double>(v[6],norm(wrapVector<3>((double*)v+3))); Vector<3> w_=wrapVector<3>((double*)v+3),r_=wrapVector<3>((double*)v); Vector<3> t_=c_[0]*r_+c_[1]*(w_^r_)+c_[2]*(w_^(w_^r_)); '
        S.h('sim3_ln_%d' % k, [In('mr', 9, init=flat(Rn)), In('v', 7, init=v7[:3] + w2 + [sg]), Out('x', 7)], tr_ + fixrot('Q', 'mr') + 'SIM3<> T(Q,t_,std::exp(v[6])); wrapVector<7>(x)=T.ln();', lambda c, w2=w2: [c.eq('ln[%d]' % i, c.o('x')[i], (v7[:3] + w2 + [sg])[i]) for i in range(7)], pre=lambda c: [rlt(Z, u)], what='SIM3::ln of every transform with a rotation angle in (0,pi) (axis parametrisation %d)' % k, native=False, **KC)
    S.h('sim3_ln_id', [In('v', 4), Out('x', 7)], 'SIM3<> T(SO3<>(),Internal::compute_rodrigues_coefficients_sim3<double>(v[3],0.)[0]*wrapVector<3>((double*)v),std::exp(v[3])); wrapVector<7>(x)=T.ln();', lambda c: [c.eq('ln[%d]' % i, c.o('x')[i], (v7[:3] + [Z] * 3 + [v7[3]])[i]) for i in range(7)], what='SIM3::ln of every transform without rotation', kind='static', group=None, nodiv=True, opts=dict(RS, contracts=[ge_contract(v7[:3])]))

def mats4(c, k): return [[c.o(k)[i * 4 + j] for j in range(4)] for i in range(4)]
