from specs.c13 import *
from specs.c12 import rot

def cross(a, b): return [sub(mul(a[(i + 1) % 3], b[(i + 2) % 3]), mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]
def hat(w): return [[Z, neg(w[2]), w[1]], [w[2], Z, neg(w[0])], [neg(w[1]), w[0], Z]]
def madd(*Ms): 
    out = Ms[0]
    for M in Ms[1:]: out = [[add(x, y) for x, y in zip(r, q)] for r, q in zip(out, M)]
    return out
I3 = [[Fraction(int(i == j)) for j in range(3)] for i in range(3)]
def rodrigues(w, A, B): return madd(I3, hsc(A, hat(w)), hsc(B, mmul(hat(w), hat(w))))
def sq3(w): return dotp(w, w)
def sinc(w): t = tsqrt(sq3(w)); return div(tsin(t), t)
def cosc(w): t = tsqrt(sq3(w)); return div(sub(ONE, tcos(t)), mul(t, t))
from toonvc.terms import sqrt as tsqrt, rat
def axis(nm='n'):
    """a unit vector depending rationally on two parameters (every direction but one)"""
    a, b = rvar(nm + 'a'), rvar(nm + 'b')
    d = add(ONE, add(mul(a, a), mul(b, b)))
    return [div(mul(TWO, a), d), div(mul(TWO, b), d), div(sub(ONE, add(mul(a, a), mul(b, b))), d)]
def axis2(nm, k):
    n = axis(nm)
    return n[k:] + n[:k]
E6, E8 = Fraction(1, 10**6), Fraction(1, 10**8)
absle = lambda x, t: land(rle(x, t), rle(neg(x), t))
def mats(c, k, n): return [[c.o(k)[i * n + j] for j in range(n)] for i in range(n)]
def mkrot(x, p, ty='double'): return 'SO3<%s> %s(Matrix<3,3,%s>(Matrix<3,3,%s,RefR>((%s*)%s)));' % (ty, x, ty, ty, ty, p)
def fixrot(x, p, ty='double'): return 'SO3<%s> %s{Matrix<3,3,%s,RefR>((%s*)%s)};' % (ty, x, ty, ty, p)

def build(S):
    S.chunk = 6
    S.include('TooN/so3.h')
    KA = lambda t: dict(kind='static', group=None, opts=dict(RS, angles=[t]), nodiv=True)
    KA_ = dict(KW, opts=dict(RS, assert_ok=True))
    R1, R2 = rot('r', 3), rot('q', 3)
    pR = In('p', 9, init=flat(R1)); pQ = In('q', 9, init=flat(R2))
    ob = lambda T, x, ty='double': 'Matrix<3,3,%s,RefR> r%s(%s); r%s=%s.get_matrix();' % (ty, x, x, x, T)
    T1, T2 = fixrot('T', 'p'), fixrot('U', 'q')
    # construction
    for ty in ('double', 'float'):
        S.h('so3_id_' + ty, [Out('x', 9, ty)], 'SO3<%s> T; ' % ty + ob('T', 'x', ty), lambda c: eqm(c, 'identity', c.o('x'), I3), what='SO3<%s>()' % ty, f32='exact', **KW)
    L = [[rvar('l00'), Z, Z], [rvar('l10'), rvar('l11'), Z], [rvar('l20'), rvar('l21'), rvar('l22')]]
    pos = [rlt(Z, L[i][i]) for i in range(3)]
    for nm, code in (('ctor', 'SO3<> T(m);'), ('assign', 'SO3<> T; T=m;'), ('dyn', 'Matrix<> md(m); SO3<> T(md);'), ('col', 'Matrix<3,3,double,ColMajor> mc(m); SO3<> T; T=mc;'), ('self', 'SO3<> T(m); T.coerce();')):
        S.h('so3_coerce_' + nm, [In('p', 9, init=flat(mmul(L, R1))), Out('x', 9)], 'Matrix<3,3,double,RefR> m((double*)p); %s ' % code + ob('T', 'x'), lambda c: eqm(c, 'rotation factor of M = L R', c.o('x'), R1), pre=lambda c: pos, what='SO3 from a matrix of positive determinant (%s): the rotation R of M = L R, L lower triangular with positive diagonal' % nm, **KW)
    S.h('so3_coerce_neg', [In('p', 9, init=flat(mmul(L, [[neg(x) for x in r] for r in R1])))], 'SO3<> T(wrapMatrix<3,3>((double*)p));', lambda c: None, pre=lambda c: pos, abort=lambda c: True, what='SO3 from a matrix of negative determinant: the assertion fails', **KA_)
    # product, inverse
    for ta, tb in (('double', 'double'), ('float', 'double'), ('double', 'float'), ('float', 'float')):
        to = 'double' if 'double' in (ta, tb) else 'float'
        P = [In('p', 9, ta, init=flat(R1)), In('q', 9, tb, init=flat(R2)), Out('x', 9, to)]
        S.h('so3_mul_%s%s' % (ta[0], tb[0]), P + [Out('y', 9, to)], fixrot('T', 'p', ta) + fixrot('U', 'q', tb) + 'SO3<%s> V=T*U; SO3<%s> W(T,U);' % (to, to) + ob('V', 'x', to) + ob('W', 'y', to), lambda c: (eqm(c, 'product', c.o('x'), mmul(R1, R2)), eqm(c, 'product constructor', c.o('y'), mmul(R1, R2))), what='SO3<%s> * SO3<%s>' % (ta, tb), f32='exact', **KW)
        if ta == to: S.h('so3_muleq_%s%s' % (ta[0], tb[0]), P, fixrot('T', 'p', ta) + fixrot('U', 'q', tb) + 'SO3<%s>& r=(T*=U); (void)r; ' % ta + ob('T', 'x', to), lambda c: eqm(c, 'product', c.o('x'), mmul(R1, R2)), what='SO3<%s> *= SO3<%s>' % (ta, tb), f32='exact', **KW)
    S.h('so3_self', [pR, Out('x', 9)], T1 + 'T*=T; ' + ob('T', 'x'), lambda c: eqm(c, 'square', c.o('x'), mmul(R1, R1)), what='SO3 *= itself', **KW)
    S.h('so3_inv', [pR, Out('x', 9), Out('y', 9), Out('z', 9)], T1 + 'SO3<> I=T.inverse(); ' + ob('I', 'x') + ob('(I*T)', 'y') + ob('(T*I)', 'z'), lambda c: (eqm(c, 'inverse', c.o('x'), tr(R1)), eqm(c, 'T^-1 T', c.o('y'), I3), eqm(c, 'T T^-1', c.o('z'), I3)), what='SO3::inverse', **KW)
    # action
    for kind in 'osdc':
        vc, ad, tot = vk(3, kind, 'f')
        S.h('so3_v_' + kind, [pR, In('f', tot), Out('x', 3), Out('y', 3), Out('z', 3)], T1 + '%s wrapVector<3>(x)=T*v; wrapVector<3>(y)=v*T; wrapVector<3>(z)=T.adjoint(v);' % vc if kind != 'X' else '', lambda c, ad=ad: (lambda v: [(c.eq('T v[%d]' % i, c.o('x')[i], dotp(R1[i], v)), c.eq('v T[%d]' % i, c.o('y')[i], dotp(tr(R1)[i], v)), c.eq('adjoint[%d]' % i, c.o('z')[i], dotp(R1[i], v))) for i in range(3)])([c.a('f')[ad(i)] for i in range(3)]), what='SO3 times vector, vector times SO3, adjoint (%s)' % kind, **KW)
    for kind in ('o', 's', 'sc', 'd', 'dc', 'hr'):
        for q in (1, 3):
            mc, ad = rect(3, q, kind, 'f'); mc2, ad2 = rect(q, 3, kind, 'g', 'm2')
            S.h('so3_m%d_%s' % (q, kind), [pR, In('f', 3 * q), In('g', 3 * q), Out('x', 3 * q), Out('y', 3 * q)], T1 + '%s %s Matrix<3,%d,double,RefR> rx(x); rx=T*m; Matrix<%d,3,double,RefR> ry(y); ry=m2*T;' % (mc, mc2, q, q),
                lambda c, q=q, ad=ad, ad2=ad2: (eqm(c, 'T M', c.o('x'), mmul(R1, [[c.a('f')[ad(i, j)] for j in range(q)] for i in range(3)])), eqm(c, 'M T', c.o('y'), mmul([[c.a('g')[ad2(i, j)] for j in range(3)] for i in range(q)], R1))), what='SO3 times 3x%d matrix and %dx3 matrix times SO3 (%s)' % (q, q, kind), **KW)
    # generators
    S.h('so3_gen', [In('f', 3), Out('x', 27), Out('y', 9)], ''.join('wrapMatrix<3,3>(x+%d)=SO3<>::generator(%d); wrapVector<3>(y+%d)=SO3<>::generator_field(%d,wrapVector<3>((double*)f));' % (9 * i, i, 3 * i, i) for i in range(3)).replace('(double*)f', '(double*)f'), lambda c: [(eqm(c, 'generator %d' % i, c.o('x')[9 * i:9 * i + 9], hat(I3[i])), [c.eq('generator field %d[%d]' % (i, j), c.o('y')[3 * i + j], cross(I3[i], [c.a('f')[k] for k in range(3)])[j]) for j in range(3)]) for i in range(3)], what='SO3 generators and generator fields', **KW)
    # exponential
    w = [rvar('f_%d' % i) for i in range(3)]
    q = sq3(w)
    S.h('so3_rodrigues', [In('f', 3), Real('a'), Real('b'), Out('x', 9)], 'Matrix<3> M; rodrigues_so3_exp(wrapVector<3>((double*)f),a,b,M); wrapMatrix<3,3>(x)=M;', lambda c: eqm(c, 'I + A [w] + B [w]^2', c.o('x'), rodrigues(w, rvar('a'), rvar('b'))), what='rodrigues_so3_exp', **KW)
    big = [lnot(rlt(q, E6))]
    for nm, code in (('exp', 'SO3<> T=SO3<>::exp(wrapVector<3>((double*)f));'), ('ctor', 'SO3<> T(wrapVector<3>((double*)f));'), ('expd', 'SO3<> T=SO3<>::exp(wrapVector((double*)f,3));')):
        S.h('so3_' + nm, [In('f', 3), Out('x', 9)], code + ob('T', 'x'), lambda c: (eqm(c, 'exponential', c.o('x'), rodrigues(w, sinc(w), cosc(w))), orthonormal(c, 'rows', mats(c, 'x', 3))), pre=lambda c: big, what='SO3 exponential (%s): I + sin t/t [w] + (1-cos t)/t^2 [w]^2, a rotation' % nm, **KW)
    for ty in ('double', 'float'):
        S.h('so3_expf_' + ty, [In('f', 3, 'float'), Out('x', 9, ty)], 'SO3<%s> T=SO3<%s>::exp(Vector<3,float,Reference>((float*)f));' % (ty, ty) + ob('T', 'x', ty), lambda c: eqm(c, 'exponential', c.o('x'), rodrigues(w, sinc(w), cosc(w))), pre=lambda c: big, what='SO3<%s> exponential of a float vector' % ty, f32='exact', **KW)
    t_ = rvar('t'); sc_, cc_ = rvar('sinc'), rvar('cosc'); q_ = mul(t_, t_)
    # sinc and cosc of t, by the alternating series (Leibniz bounds)
    encl = [rle(sub(add(sub(ONE, div(q_, Fraction(6))), div(mul(q_, q_), Fraction(120))), div(mul(mul(q_, q_), q_), Fraction(5040))), sc_), rle(sc_, add(sub(ONE, div(q_, Fraction(6))), div(mul(q_, q_), Fraction(120)))),
            rle(sub(Fraction(1, 2), div(q_, Fraction(24))), cc_), rle(cc_, add(sub(Fraction(1, 2), div(q_, Fraction(24))), div(mul(q_, q_), Fraction(720))))]
    reg = dict(small=(None, E8, Fraction(1, 10**16)), mid=(E8, E6, Fraction(1, 10**18)))
    rng = lambda q, nm: [rlt(q, reg[nm][1])] + ([lnot(rlt(q, reg[nm][0]))] if reg[nm][0] else [])
    for nm in reg:
        tol = reg[nm][2]
        for k in range(3):
            wk = [t_ if i == k else Z for i in range(3)]
            def near(c, k=k, tol=tol):
                X = mats(c, 'x', 3); i, j = (k + 1) % 3, (k + 2) % 3
                s, co = mul(t_, sc_), sub(ONE, mul(q_, cc_))
                for lab, x, y in (('cos', X[i][i], co), ('cos', X[j][j], co), ('sin', X[j][i], s), ('-sin', X[i][j], neg(s))): c.hold('%s within %g' % (lab, tol), absle(sub(x, y), tol))
                c.all_eq('axis', [X[k][i], X[k][j], X[i][k], X[j][k], X[k][k]], [Z] * 4 + [ONE])
            S.h('so3_exp_%s_%d' % (nm, k), [In('f', 3, init=wk), Out('x', 9)], 'SO3<> T=SO3<>::exp(wrapVector<3>((double*)f));' + ob('T', 'x'), near, pre=lambda c, nm=nm: encl + rng(q_, nm), what='SO3::exp of %s about axis %d: within %g of the rotation' % ('less than 1e-4 rad' if nm == 'small' else '1e-4 to 1e-3 rad', k, tol), native=False, **KW)
    u = rvar('u')
    th2 = mul(TWO, uf('atan', u))
    upos = [rlt(Z, u)]
    for k in range(2): # together every axis
        n = axis2('n', k)
        wv = [mul(th2, x) for x in n]
        bg = upos + [lnot(rlt(mul(th2, th2), E6))]
        f = In('f', 3, init=wv)
        S.h('so3_ln_%d' % k, [f, Out('x', 3)], 'wrapVector<3>(x)=SO3<>::exp(wrapVector<3>((double*)f)).ln();', lambda c, wv=wv: [c.eq('ln(exp(w))[%d]' % i, c.o('x')[i], wv[i]) for i in range(3)], pre=lambda c, bg=bg: bg, what='SO3: ln(exp(w)) == w for angles below pi (axis parametrisation %d)' % k, **KA(th2))
        cc, ss = trigmul(2, u)
        Rn = madd(I3, hsc(ss, hat(n)), hsc(sub(ONE, cc), mmul(hat(n), hat(n))))
        S.h('so3_lnm_%d' % k, [In('f', 9, init=flat(Rn)), Out('x', 3)], fixrot('T', 'f') + 'wrapVector<3>(x)=T.ln();', lambda c, wv=wv: [c.eq('ln[%d]' % i, c.o('x')[i], wv[i]) for i in range(3)], pre=lambda c: upos, what='SO3::ln of every rotation matrix of angle in (0,pi) (axis parametrisation %d)' % k, **KA(th2))
    # half turns and the identity
    for k in range(2):
        n = axis2('n', k)
        Rn = madd(I3, hsc(TWO, mmul(hat(n), hat(n))))
        def ph(c, n=n):
            x = [c.o('x')[i] for i in range(3)]
            pi = rat(math.pi)
            for i in range(3):
                for j in range(i + 1): c.eq('ln ln^T == pi^2 n n^T [%d,%d]' % (i, j), mul(x[i], x[j]), mul(mul(pi, pi), mul(n[i], n[j])))
        S.h('so3_ln_pi_%d' % k, [In('f', 9, init=flat(Rn)), Out('x', 3)], fixrot('T', 'f') + 'wrapVector<3>(x)=T.ln();', ph, what='SO3::ln of every half turn: pi times the axis, either sense (axis parametrisation %d)' % k, **KW)
    S.h('so3_ln_id', [Out('x', 3)], 'wrapVector<3>(x)=SO3<>().ln();', lambda c: c.all_eq('zero', [c.o('x')[i] for i in range(3)], [Z] * 3), what='SO3::ln of the identity', **KW)
    # exp(adjoint(v)) == R exp(v) R^-1 ; one-parameter subgroups
    for rn, rp in (('', big), ('_small', rng(q, 'small')), ('_mid', rng(q, 'mid'))): S.h('so3_expadj' + rn, [pR, In('f', 3), Out('x', 9), Out('y', 9)], T1 + 'SO3<> A=SO3<>::exp(T.adjoint(wrapVector<3>((double*)f))); SO3<> B=T*SO3<>::exp(wrapVector<3>((double*)f))*T.inverse();' + ob('A', 'x') + ob('B', 'y'), lambda c: [c.eq('exp(adjoint(v)) == T exp(v) T^-1 [%d]' % i, c.o('x')[i], c.o('y')[i]) for i in range(9)], pre=lambda c, rp=rp: rp, what='SO3: exp(adjoint(v)) == T exp(v) T^-1 (every axis from one)' + rn, **KW)
    th4 = mul(Fraction(4), uf('atan', u))
    n = axis('n')
    S.h('so3_double', [In('f', 3, init=[mul(th2, x) for x in n]), In('g', 3, init=[mul(th4, x) for x in n]), Out('x', 9), Out('y', 9)], 'SO3<> A=SO3<>::exp(wrapVector<3>((double*)f)); A=A*A; SO3<> B=SO3<>::exp(wrapVector<3>((double*)g));' + ob('A', 'x') + ob('B', 'y'), lambda c: [c.eq('exp(w) exp(w) == exp(2w) [%d]' % i, c.o('x')[i], c.o('y')[i]) for i in range(9)], pre=lambda c: [rlt(Z, u), lnot(rlt(mul(th2, th2), E6))], what='SO3: exp(w) exp(w) == exp(2w)', **KW)
    # rotation taking one vector to the direction of another
    a3, b3 = [rvar('f_%d' % i) for i in range(3)], [rvar('g_%d' % i) for i in range(3)]
    nn = cross(a3, b3)
    la, lb = tsqrt(sq3(a3)), tsqrt(sq3(b3))
    def pab(c):
        X = mats(c, 'x', 3)
        for i in range(3):
            c.eq('R a / |a| == b / |b| [%d]' % i, mul(lb, dotp(X[i], a3)), mul(la, b3[i]))
            c.eq('R (a ^ b) == a ^ b [%d]' % i, dotp(X[i], nn), nn[i])
    for nm, x, y in (('s', 'wrapVector<3>((double*)f)', 'wrapVector<3>((double*)g)'), ('o', 'Vector<3>(wrapVector<3>((double*)f))', 'Vector<3>(wrapVector<3>((double*)g))')):
        S.h('so3_ab_' + nm, [In('f', 3), In('g', 3), Out('x', 9)], 'SO3<> T(%s,%s);' % (x, y) + ob('T', 'x'), pab, pre=lambda c: [lnot(req(sq3(nn), Z))], what='SO3(a,b): takes a to the direction of b, fixes a^b (%s)' % nm, **KW)
    lam = rvar('lam')
    # the same on vectors of rational length: the whole matrix is a rotation
    Q = rot('r', 3); cc, ss = trigmul(2, u)
    la_, lb_ = rvar('la'), rvar('lb')
    av = [mul(la_, x) for x in Q[0]]
    bv = [mul(lb_, add(mul(cc, Q[0][i]), mul(ss, Q[1][i]))) for i in range(3)]
    Rab = madd(I3, hsc(ss, hat(Q[2])), hsc(sub(ONE, cc), mmul(hat(Q[2]), hat(Q[2]))))
    S.h('so3_ab_rot', [In('f', 3, init=av), In('g', 3, init=bv), Out('x', 9)], 'SO3<> T(wrapVector<3>((double*)f),wrapVector<3>((double*)g));' + ob('T', 'x'), lambda c: eqm(c, 'rotation about a^b by the angle between a and b', c.o('x'), Rab), pre=lambda c: [rlt(Z, u), rlt(Z, la_), rlt(Z, lb_)], what='SO3(a,b): the rotation about a^b by the angle between them', **KW)
    S.h('so3_ab_par', [In('f', 3), In('g', 3, init=[mul(lam, x) for x in a3]), Out('x', 9)], 'SO3<> T(wrapVector<3>((double*)f),wrapVector<3>((double*)g));' + ob('T', 'x'), lambda c: eqm(c, 'identity', c.o('x'), I3), pre=lambda c: [lnot(req(lam, Z)), lnot(req(sq3(a3), Z))], abort=lambda c: rlt(lam, Z), what='SO3(a,b) of parallel vectors: identity, abort when they are opposite', **KA_)
