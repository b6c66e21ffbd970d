import itertools
from specs.lin import *
from specs.c12 import dotp, tr, mmul, flat, place, orthonormal, rect
from toonvc.terms import rvar, uf, trigmul, exp as texp, sin as tsin, cos as tcos
Z, ONE, TWO = Fraction(0), Fraction(1), Fraction(2)
RS = dict(lazyreal=True, forksel=True, ratsimp=True)
KW = dict(kind='static', group=None, opts=RS, nodiv=True)
def rotm(a): return [[tcos(a), neg(tsin(a))], [tsin(a), tcos(a)]]
def vk(n, kind, p='p', nm='v', ty='double'):
    """a vector operand of n elements: declaration, address of element i, cells of the array"""
    if kind == 'o': return 'Vector<%d,%s> %s(Vector<%d,%s,Reference>((%s*)%s));' % (n, ty, nm, n, ty, ty, p), (lambda i: i), n
    if kind == 's': return 'Vector<%d,%s,Reference> %s((%s*)%s);' % (n, ty, nm, ty, p), (lambda i: i), n
    if kind == 'd': return 'Vector<Dynamic,%s,Reference> %s((%s*)%s,%d);' % (ty, nm, ty, p, n), (lambda i: i), n
    if kind == 'c': return 'Matrix<%d,2,%s,RefR> m%s((%s*)%s); auto %s=m%s.T()[1];' % (n, ty, nm, ty, p, nm, nm), (lambda i: 2 * i + 1), 2 * n
def homog(R, t):
    n = len(R)
    return [list(R[i]) + [t[i]] for i in range(n)] + [[Z] * n + [ONE]]
def hsc(s, R): return [[mul(s, x) for x in r] for r in R]
def eqm(c, nm, got, want):
    """got: row-major cells"""
    m, n = len(want), len(want[0])
    for i in range(m):
        for j in range(n): c.eq('%s[%d,%d]' % (nm, i, j), got[i * n + j], want[i][j])

def rigid(S, D, cls, nm, make, pars, H, dyn=True):
    """action of a transform T (declared by make, with homogeneous matrix H) on points and matrices"""
    n = D + 1
    full = H
    R = [r[:D] for r in H[:D]]
    t = [r[D] for r in H[:D]]
    for kind in 'osdc':
        for N in ((D, n) if kind not in 'dc' else (n,)):      # a run-time sized vector is homogeneous
            vc, ad, tot = vk(N, kind)
            P = pars + [In('p', tot), Out('x', N)]
            def post(c, N=N, ad=ad):
                v = [c.a('p')[ad(i)] for i in range(N)]
                w = [add(dotp(R[i], v), t[i]) for i in range(D)] if N == D else [dotp(full[i], v) for i in range(n)]
                for i in range(N): c.eq('transformed[%d]' % i, c.o('x')[i], w[i])
            if not (kind == 'c' and N == D): S.h('%s_v%d%s' % (nm, N, kind), P, '%s %s wrapVector<%d>(x)=T*v;' % (make, vc, N), post, what='%s * Vector<%d> (%s)' % (cls, N, kind), **KW)
        vc, ad, tot = vk(n, kind)
        def postl(c, ad=ad):
            v = [c.a('p')[ad(i)] for i in range(n)]
            for i in range(n): c.eq('row vector times transform[%d]' % i, c.o('x')[i], dotp(v, [full[k][i] for k in range(n)]))
        S.h('%s_lv%s' % (nm, kind), pars + [In('p', tot), Out('x', n)], '%s %s wrapVector<%d>(x)=v*T;' % (make, vc, n), postl, what='Vector<%d> * %s (%s)' % (n, cls, kind), **KW)
    for kind in ('o', 's', 'sc', 'd', 'dc', 'hr'):
        for q in (1, 2, 3, 4):
            if q != 2 and kind not in 'od': continue
            mc, ad = rect(n, q, kind)
            def pm(c, q=q, ad=ad): eqm(c, 'transform times matrix', c.o('x'), mmul(full, [[c.a('p')[ad(i, j)] for j in range(q)] for i in range(n)]))
            S.h('%s_m%d%s' % (nm, q, kind), pars + [In('p', n * q), Out('x', n * q)], '%s %s Matrix<%d,%d,double,RefR> rx(x); rx=T*m;' % (make, mc, n, q), pm, what='%s * Matrix<%d,%d> (%s)' % (cls, n, q, kind), **KW)
            mc, ad = rect(q, n, kind)
            def pl(c, q=q, ad=ad): eqm(c, 'matrix times transform', c.o('x'), mmul([[c.a('p')[ad(i, j)] for j in range(n)] for i in range(q)], full))
            S.h('%s_lm%d%s' % (nm, q, kind), pars + [In('p', n * q), Out('x', n * q)], '%s %s Matrix<%d,%d,double,RefR> rx(x); rx=m*T;' % (make, mc, q, n), pl, what='Matrix<%d,%d> * %s (%s)' % (q, n, cls, kind), **KW)

def build(S):
    S.chunk = 6
    S.include('TooN/so2.h', 'TooN/se2.h', 'TooN/sim2.h')
    a, b = Real('a'), Real('b')
    A, B = rvar('a'), rvar('b')
    ob = lambda T, x: 'Matrix<2,2,double,RefR> r%s(%s); r%s=%s.get_matrix();' % (x, x, x, T)
    # ---------------- SO2
    for ty in ('double', 'float'):
        f = {} if ty == 'double' else dict(f32='exact')
        for nm, ex in (('exp', 'SO2<%s>::exp(a)' % ty), ('ctor', 'SO2<%s>(a)' % ty)):
            S.h('so2_%s_%s' % (nm, ty), [Real('a', ty), Out('x', 4, ty)], 'SO2<%s> T=%s; Matrix<2,2,%s,RefR> rx(x); rx=T.get_matrix();' % (ty, ex, ty), lambda c: eqm(c, 'rotation by the angle', c.o('x'), rotm(c.reals['a'])), what=ex, **KW, **f)
        S.h('so2_id_%s' % ty, [Out('x', 4, ty), Out('y', 4, ty), Out('z', 4, ty)], 'SO2<%s> T; SO2<%s> U(Identity); Matrix<2,2,%s,RefR> rx(x),ry(y),rz(z); rx=T.get_matrix(); ry=U.get_matrix(); rz=SO2<%s>::generator();' % (ty, ty, ty, ty), lambda c: (eqm(c, 'default', c.o('x'), [[ONE, Z], [Z, ONE]]), eqm(c, 'from Identity', c.o('y'), [[ONE, Z], [Z, ONE]]), eqm(c, 'generator', c.o('z'), [[Z, -ONE], [ONE, Z]])), what='SO2<%s>(), SO2(Identity), generator' % ty, **KW, **f)
    for ta, tb in (('double', 'double'), ('float', 'double'), ('double', 'float'), ('float', 'float')):
        to = 'double' if 'double' in (ta, tb) else 'float'
        P = [Real('a', ta), Real('b', tb), Out('x', 4, to), Out('y', 4, to)]
        S.h('so2_mul_%s%s' % (ta[0], tb[0]), P, 'SO2<%s> T(a); SO2<%s> U(b); SO2<%s> V=T*U; Matrix<2,2,%s,RefR> rx(x),ry(y); rx=V.get_matrix(); SO2<%s> W(T,U); ry=W.get_matrix();' % (ta, tb, to, to, to),
            lambda c: (lambda w: (eqm(c, 'product', c.o('x'), w), eqm(c, 'product constructor', c.o('y'), w)))(mmul(rotm(c.reals['a']), rotm(c.reals['b']))), what='SO2<%s> * SO2<%s>' % (ta, tb), f32='exact', **KW)
        if ta == 'double': S.h('so2_muleq_%s' % tb[0], P[:3], 'SO2<%s> T(a); SO2<%s> U(b); SO2<%s>& r=(T*=U); (void)r; Matrix<2,2,%s,RefR> rx(x); rx=T.get_matrix();' % (ta, tb, ta, to), lambda c: eqm(c, 'product', c.o('x'), mmul(rotm(c.reals['a']), rotm(c.reals['b']))), what='SO2<%s> *= SO2<%s>' % (ta, tb), f32='exact', **KW)
    S.h('so2_self', [a, Out('x', 4)], 'SO2<> T(a); T*=T; ' + ob('T', 'x'), lambda c: eqm(c, 'square', c.o('x'), mmul(rotm(A), rotm(A))), what='SO2 *= itself', **KW)
    S.h('so2_inv', [a, Out('x', 4), Out('y', 4), Out('z', 4)], 'SO2<> T(a); SO2<> I=T.inverse(); ' + ob('I', 'x') + ob('(T*I)', 'y') + ob('(I*T)', 'z'),
        lambda c: (eqm(c, 'inverse', c.o('x'), tr(rotm(A))), eqm(c, 'T T^-1', c.o('y'), [[ONE, Z], [Z, ONE]]), eqm(c, 'T^-1 T', c.o('z'), [[ONE, Z], [Z, ONE]])), what='SO2::inverse', **KW)
    # coercion of a general matrix with positive determinant; a rotation is left alone
    for nm, code in (('ctor', 'SO2<> T{Matrix<2>(m)};'), ('assign', 'SO2<> T; T=m;'), ('assignd', 'Matrix<> md(m); SO2<> T; T=md;'), ('twice', 'SO2<> T; T=m; T.coerce();')):
        def pc(c):
            m = [c.a('p')[i] for i in range(4)]
            o = [c.o('x')[i] for i in range(4)]
            orthonormal(c, 'rows', [o[:2], o[2:]])
            c.eq('determinant', sub(mul(o[0], o[3]), mul(o[1], o[2])), ONE)
            c.eq('first row keeps its direction', mul(o[0], m[1]), mul(o[1], m[0]))
            c.hold('first row keeps its sense', rle(Z, add(mul(o[0], m[0]), mul(o[1], m[1]))))
        det = lambda c: [rlt(Z, sub(mul(c.a('p')[0], c.a('p')[3]), mul(c.a('p')[1], c.a('p')[2]))), lnot(req(add(mul(c.a('p')[0], c.a('p')[0]), mul(c.a('p')[1], c.a('p')[1])), Z))]
        S.h('so2_coerce_' + nm, [In('p', 4), Out('x', 4)], 'Matrix<2,2,double,RefR> m((double*)p); %s ' % code + ob('T', 'x'), pc, pre=det, what='SO2 from a matrix of positive determinant (%s): a rotation' % nm, **KW)
        S.h('so2_fix_' + nm, [a, Out('x', 4)], 'Matrix<2> m=SO2<>(a).get_matrix(); %s ' % code + ob('T', 'x'), lambda c: eqm(c, 'rotation kept', c.o('x'), rotm(A)), what='SO2 from a rotation matrix (%s): unchanged' % nm, **KW)
    u = rvar('u')
    th2, th4 = mul(TWO, uf('atan', u)), mul(Fraction(4), uf('atan', u))
    AN = lambda t: dict(RS, angles=[t])
    KA = lambda t: dict(kind='static', group=None, opts=AN(t), nodiv=True)
    S.h('so2_ln', [In('p', 1, init=[th2]), Out('x', 1)], 'x[0]=SO2<>(p[0]).ln();', lambda c: c.eq('ln(exp(angle))', c.o('x')[0], th2), what='SO2::ln of every rotation: the angle in (-pi,pi)', **KA(th2))
    S.h('so2_lnexp', [In('p', 1, init=[th2]), Out('x', 4)], 'SO2<> T(p[0]); SO2<> U=SO2<>::exp(T.ln()); ' + ob('U', 'x'), lambda c: eqm(c, 'exp(ln(T))', c.o('x'), [[trigmul(2, u)[0], neg(trigmul(2, u)[1])], [trigmul(2, u)[1], trigmul(2, u)[0]]]), what='SO2: exp(ln(T)) == T', **KA(th2))
    for kind in 'osdc':
        vc, ad, tot = vk(2, kind)
        S.h('so2_v_' + kind, [a, In('p', tot), Out('x', 2), Out('y', 2)], 'SO2<> T(a); %s wrapVector<2>(x)=T*v; wrapVector<2>(y)=v*T;' % vc, lambda c, ad=ad: (lambda v: [(c.eq('T v[%d]' % i, c.o('x')[i], dotp(rotm(A)[i], v)), c.eq('v T[%d]' % i, c.o('y')[i], dotp(tr(rotm(A))[i], v))) for i in (0, 1)])([c.a('p')[ad(i)] for i in (0, 1)]), what='SO2 times vector, vector times SO2 (%s)' % kind, **KW)
    for kind in ('o', 's', 'sc', 'd', 'dc', 'hr'):
        for q in (1, 3):
            mc, ad = rect(2, q, kind); mc2, ad2 = rect(q, 2, kind, 'p2', 'm2')
            S.h('so2_m%d_%s' % (q, kind), [a, In('p', 2 * q), In('p2', 2 * q), Out('x', 2 * q), Out('y', 2 * q)], 'SO2<> T(a); %s %s Matrix<2,%d,double,RefR> rx(x); rx=T*m; Matrix<%d,2,double,RefR> ry(y); ry=m2*T;' % (mc, mc2, q, q),
                lambda c, q=q, ad=ad, ad2=ad2: (eqm(c, 'T M', c.o('x'), mmul(rotm(A), [[c.a('p')[ad(i, j)] for j in range(q)] for i in (0, 1)])), eqm(c, 'M T', c.o('y'), mmul([[c.a('p2')[ad2(i, j)] for j in (0, 1)] for i in range(q)], rotm(A)))), what='SO2 times 2x%d matrix and %dx2 matrix times SO2 (%s)' % (q, q, kind), **KW)
    # ---------------- SE2 and SIM2: group structure and action
    t2, w2, s1, r1 = [rvar('t_%d' % i) for i in (0, 1)], [rvar('w_%d' % i) for i in (0, 1)], rvar('s'), rvar('r')
    hout = lambda T, x, sim: 'wrapMatrix<3,3>(%s).slice<0,0,2,2>()=%s%s.get_rotation().get_matrix(); for(int i_=0;i_<2;i_++) %s[i_*3+2]=%s.get_translation()[i_]; %s[6]=%s[7]=0; %s[8]=1;' % (x, ('%s.get_scale()*' % T) if sim else '', T, x, T, x, x, x)
    for sim in (0, 1):
        cls, nm = ('SIM2<>', 'sim2') if sim else ('SE2<>', 'se2')
        mk1 = '%s T(SO2<>(a),wrapVector<2>((double*)t)%s);' % (cls, ',s' if sim else '')
        mk2 = '%s U(SO2<>(b),wrapVector<2>((double*)w)%s);' % (cls, ',r' if sim else '')
        P1 = [a, In('t', 2)] + ([Real('s')] if sim else [])
        P2 = [b, In('w', 2)] + ([Real('r')] if sim else [])
        nz = (lambda c: [rlt(Z, s1), rlt(Z, r1)]) if sim else None
        nz1 = (lambda c: [rlt(Z, s1)]) if sim else None
        H1, H2 = homog(hsc(s1, rotm(A)) if sim else rotm(A), t2), homog(hsc(r1, rotm(B)) if sim else rotm(B), w2)
        I3 = [[Fraction(int(i == j)) for j in range(3)] for i in range(3)]
        rigid(S, 2, cls, nm, mk1, P1, H1)
        S.h(nm + '_get', P1 + [Out('x', 9), Out('y', 9), Out('k', 1)], mk1 + hout('T', 'x', sim) + '%s V; %s k[0]=%s;' % (cls, hout('V', 'y', sim), 'T.get_scale()' if sim else '0'), lambda c, H1=H1, sim=sim: (eqm(c, 'parts', c.o('x'), H1), eqm(c, 'default', c.o('y'), I3), c.eq('scale', c.o('k')[0], s1 if sim else Z)), what='%s constructors and accessors' % cls, **KW)
        S.h(nm + '_mul', P1 + P2 + [Out('x', 9)], mk1 + mk2 + 'auto V=T*U; ' + hout('V', 'x', sim), lambda c, H1=H1, H2=H2: eqm(c, 'product', c.o('x'), mmul(H1, H2)), pre=nz, what='%s product' % cls, **KW)
        S.h(nm + '_muleq', P1 + P2 + [Out('x', 9)], mk1 + mk2 + '%s& R_=(T*=U); (void)R_; ' % cls + hout('T', 'x', sim), lambda c, H1=H1, H2=H2: eqm(c, 'product', c.o('x'), mmul(H1, H2)), pre=nz, what='%s *=' % cls, **KW)
        S.h(nm + '_self', P1 + [Out('x', 9)], mk1 + 'T*=T; ' + hout('T', 'x', sim), lambda c, H1=H1: eqm(c, 'square', c.o('x'), mmul(H1, H1)), pre=nz1, what='%s *= itself' % cls, **KW)
        S.h(nm + '_inv', P1 + [Out('x', 9), Out('y', 9), Out('z', 9)], mk1 + 'auto I=T.inverse(); auto L=I*T; auto R=T*I; ' + hout('I', 'x', sim) + hout('L', 'y', sim) + hout('R', 'z', sim), lambda c, H1=H1: (eqm(c, 'T^-1 as a matrix, times T', flat(mmul([[c.o('x')[i * 3 + j] for j in range(3)] for i in range(3)], H1)), I3), eqm(c, 'T^-1 T', c.o('y'), I3), eqm(c, 'T T^-1', c.o('z'), I3)), pre=nz1, what='%s::inverse' % cls, **KW)
        S.h(nm + '_assoc', P1 + P2 + [In('p', 2), Out('x', 2), Out('y', 2)], mk1 + mk2 + 'wrapVector<2>(x)=(T*U)*wrapVector<2>((double*)p); wrapVector<2>(y)=T*(U*wrapVector<2>((double*)p));', lambda c: [c.eq('(T U) p == T (U p)[%d]' % i, c.o('x')[i], c.o('y')[i]) for i in (0, 1)], pre=nz, what='%s: action of a product' % cls, **KW)
        for ta, tb in (('float', 'double'), ('double', 'float')):
            mm = lambda T, ty, x, t, s: '%s<%s> %s(SO2<%s>(%s),wrapVector<2>((%s*)%s)%s);' % (cls[:-2], ty, T, ty, x, ty, t, ',' + s if sim else '')
            PP = [Real('a', ta), In('t', 2, ta)] + ([Real('s', ta)] if sim else []) + [Real('b', tb), In('w', 2, tb)] + ([Real('r', tb)] if sim else [])
            S.h(nm + '_mixed_' + ta[0], PP + [Out('x', 9)], mm('T', ta, 'a', 't', 's') + mm('U', tb, 'b', 'w', 'r') + '%s V=T*U; ' % cls + hout('V', 'x', sim), lambda c, H1=H1, H2=H2: eqm(c, 'product', c.o('x'), mmul(H1, H2)), pre=nz, what='%s<%s> * %s<%s>' % (cls[:-2], ta, cls[:-2], tb), f32='exact', **KW)
        if not sim:
            S.h('so2_se2', [b] + P1 + [Out('x', 9)], mk1 + 'auto V=SO2<>(b)*T; ' + hout('V', 'x', 0), lambda c, H1=H1: eqm(c, 'rotation times transform', c.o('x'), mmul(homog(rotm(B), [Z, Z]), H1)), what='SO2 * SE2', **KW)
        # Lie algebra
        d = 4 if sim else 3
        v = [rvar('v_%d' % i) for i in range(d)]
        gens = lambda vec, sim=sim: [[vec[3] if sim else Z, neg(vec[2]), vec[0]], [vec[2], vec[3] if sim else Z, vec[1]], [Z, Z, Z]]
        S.h(nm + '_gen', [Out('x', 9 * d)], ''.join('wrapMatrix<3,3>(x+%d)=%s::generator(%d);' % (9 * i, cls, i) for i in range(d)), lambda c, d=d, gens=gens: [eqm(c, 'generator %d' % i, c.o('x')[9 * i:9 * i + 9], gens([Fraction(int(i == j)) for j in range(d)])) for i in range(d)], what='%s generators' % cls, **KW)
        def padj(c, gens=gens, v=v, H1=H1, d=d, sim=sim):
            av = [c.o('x')[i] for i in range(d)]
            L = mmul(gens(av), H1)
            Rr = mmul(H1, gens(v))
            for i in range(2):
                for j in range(3): c.eq('adjoint(v)^ T == T v^ [%d,%d]' % (i, j), L[i][j], Rr[i][j])
        S.h(nm + '_adj', P1 + [In('v', d), Out('x', d)], mk1 + 'wrapVector<%d>(x)=T.adjoint(wrapVector<%d>((double*)v));' % (d, d), padj, pre=nz1, what='%s::adjoint: the generator combination of adjoint(v) is T v^ T^-1' % cls, **KW)
        S.h(nm + '_adjm', P1 + [In('q', d * d), In('f', d), Out('x', d * d), Out('y', d)], mk1 + 'Matrix<%d,%d,double,RefR> M((double*)q); wrapMatrix<%d,%d>(x)=T.adjoint(M); Vector<%d> g=T.adjoint(wrapVector<%d>((double*)f)); Matrix<%d> J; for(int i=0;i<%d;i++){Vector<%d> e=Zeros; e[i]=1; J.T()[i]=T.adjoint(e);} Matrix<%d> P_=J*M*J.T(); for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) x[i*%d+j]-=P_[i][j]; wrapVector<%d>(y)=g-J*wrapVector<%d>((double*)f);' % (d, d, d, d, d, d, d, d, d, d, d, d, d, d, d),
            lambda c, d=d: ([c.eq('adjoint(M) - Ad M Ad^T[%d]' % i, c.o('x')[i], Z) for i in range(d * d)], [c.eq('adjoint is linear[%d]' % i, c.o('y')[i], Z) for i in range(d)]), pre=nz1, what='%s::adjoint of a matrix: Ad M Ad^T' % cls, **KW)
        # exponential
        E6 = Fraction(1, 10**6)
        vc = 'wrapVector<%d>((double*)v)' % d
        def big(q): return [lnot(rlt(q, E6))]
        th = v[2]
        if not sim:
            sc = lambda t: (div(tsin(t), t), div(sub(ONE, tcos(t)), mul(t, t)))
            def texpt(vec):
                p, q = sc(vec[2]); t = vec[2]
                return homog(rotm(t), [sub(mul(p, vec[0]), mul(mul(q, t), vec[1])), add(mul(p, vec[1]), mul(mul(q, t), vec[0]))])
            pre_e = lambda c: big(mul(th, th))
        else:
            sg = v[3]
            def ints(s, t):
                es, ss, cc = texp(s), tsin(t), tcos(t)
                D = add(mul(s, s), mul(t, t))
                return div(sub(mul(es, add(mul(s, cc), mul(t, ss))), s), D), div(add(mul(es, sub(mul(s, ss), mul(t, cc))), t), D)
            def texpt(vec):
                p, q = ints(vec[3], vec[2])
                return homog(hsc(texp(vec[3]), rotm(vec[2])), [sub(mul(p, vec[0]), mul(q, vec[1])), add(mul(p, vec[1]), mul(q, vec[0]))])
            far = lambda x: [lnot(land(rlt(x, E6), rlt(neg(x), E6)))]
            near = lambda x: [rlt(x, E6), rlt(neg(x), E6)]
            pre_e = lambda c: far(th) + far(sg) + [lnot(req(add(mul(th, th), mul(sg, sg)), Z))]
        for en, ec in (('exp', '%s T=%s::exp(%s);' % (cls, cls, vc)), ('ctor', '%s T(%s);' % (cls, vc)), ('expd', '%s T=%s::exp(wrapVector((double*)v,%d));' % (cls, cls, d))):
            S.h('%s_%s' % (nm, en), [In('v', d), Out('x', 9)], ec + hout('T', 'x', sim), lambda c, texpt=texpt, v=v: eqm(c, 'exponential', c.o('x'), texpt(v)), pre=pre_e, what='%s exponential away from the series expansions (%s): matrix exponential of the generator combination' % (cls, en), **KW)
        tf = 'float'
        S.h(nm + '_expf', [In('v', d, 'float'), Out('x', 9)], '%s T=%s::exp(Vector<%d,float,Reference>((float*)v));' % (cls, cls, d) + hout('T', 'x', sim), lambda c, texpt=texpt, v=v: eqm(c, 'exponential', c.o('x'), texpt(v)), pre=pre_e, what='%s exponential of a float vector' % cls, f32='exact', **KW)
        # exp(adjoint(v)) == T exp(v) T^-1, exp(v) exp(v) == exp(2v)
        S.h(nm + '_expadj', P1 + [In('v', d), Out('x', 9), Out('y', 9)], mk1 + '%s L=%s::exp(T.adjoint(%s)); auto R=T*%s::exp(%s)*T.inverse(); ' % (cls, cls, vc, cls, vc) + hout('L', 'x', sim) + hout('R', 'y', sim), lambda c: [c.eq('exp(adjoint(v)) == T exp(v) T^-1 [%d]' % i, c.o('x')[i], c.o('y')[i]) for i in range(9)], pre=lambda c, pre_e=pre_e, nz1=nz1: pre_e(c) + (nz1(c) if nz1 else []), what='%s: exp(adjoint(v)) == T exp(v) T^-1' % cls, **KW)
    # small angles: against ghost values of sin(t)/t and (1-cos t)/t^2 enclosed by their Taylor series
    v = [rvar('v_%d' % i) for i in range(3)]
    q = mul(v[2], v[2])
    p_, q_ = rvar('sinc'), rvar('cosc')
    encl = [rle(sub(ONE, div(q, Fraction(6))), p_), rle(p_, add(sub(ONE, div(q, Fraction(6))), div(mul(q, q), Fraction(120)))),
            rle(sub(Fraction(1, 2), div(q, Fraction(24))), q_), rle(q_, add(sub(Fraction(1, 2), div(q, Fraction(24))), div(mul(q, q), Fraction(720))))]
    tol = Fraction(1, 10**9)
    absle = lambda x, t: land(rle(x, t), rle(neg(x), t))
    def psmall(c, fine):
        x = c.o('x')
        box = [absle(v[0], ONE), absle(v[1], ONE)]
        e0 = sub(x[2], sub(mul(p_, v[0]), mul(mul(q_, v[2]), v[1]))); e1 = sub(x[5], add(mul(p_, v[1]), mul(mul(q_, v[2]), v[0])))
        c.hold('translation x within %g of the exponential' % fine, absle(e0, Fraction(fine)))
        c.hold('translation y within %g of the exponential' % fine, absle(e1, Fraction(fine)))
        eqm(c, 'rotation', [x[0], x[1], x[3], x[4]], rotm(v[2]))
    hx = hout('T', 'x', 0)
    ub = lambda c: [absle(v[0], ONE), absle(v[1], ONE)] + encl
    S.h('se2_exp_small', [In('v', 3), Out('x', 9)], 'SE2<> T=SE2<>::exp(wrapVector<3>((double*)v));' + hx, lambda c: psmall(c, Fraction(1, 10**8)), pre=lambda c: ub(c) + [rlt(q, Fraction(1, 10**8))], what='SE2::exp below 1e-4 rad: within 1e-8 of the exponential for a unit translation', native=False, **KW)
    S.h('se2_exp_mid', [In('v', 3), Out('x', 9)], 'SE2<> T=SE2<>::exp(wrapVector<3>((double*)v));' + hx, lambda c: psmall(c, Fraction(1, 10**14)), pre=lambda c: ub(c) + [rlt(q, E6), rle(Fraction(1, 10**8), q)], what='SE2::exp between 1e-4 and 1e-3 rad: within 1e-14 of the exponential for a unit translation', native=False, **KW)
    # logarithms
    v0 = [rvar('v_0'), rvar('v_1')]
    rng = [rle(u, ONE), rle(-ONE, u)]
    bigth = lambda t: rng + [lnot(rlt(mul(t, t), E6))]
    c4, s4 = trigmul(4, u)
    R4 = [[c4, neg(s4)], [s4, c4]]
    pv = [In('v', 3, init=v0 + [th4])]
    S.h('se2_ln', pv + [Out('x', 3)], 'wrapVector<3>(x)=SE2<>::exp(wrapVector<3>((double*)v)).ln();', lambda c: [c.eq('ln(exp(v))[%d]' % i, c.o('x')[i], (v0 + [th4])[i]) for i in range(3)], pre=lambda c: bigth(th4), what='SE2: ln(exp(v)) == v for every rotation angle in [-pi,pi] but the series expansions', **KA(th4))
    S.h('se2_ln_static', pv + [Out('x', 3)], 'wrapVector<3>(x)=SE2<>::ln(SE2<>::exp(wrapVector<3>((double*)v)));', lambda c: [c.eq('ln(exp(v))[%d]' % i, c.o('x')[i], (v0 + [th4])[i]) for i in range(3)], pre=lambda c: bigth(th4), what='SE2::ln, static', **KA(th4))
    S.h('se2_lnexp', pv + [Out('x', 9)], 'SE2<> T(SO2<>(v[2]),wrapVector<2>((double*)v)); T=SE2<>::exp(T.ln());' + hx, lambda c: eqm(c, 'exp(ln(T))', c.o('x'), homog(R4, v0)), pre=lambda c: bigth(th4), what='SE2: exp(ln(T)) == T', **KA(th4))
    hh = rvar('half_sinc')
    def plns(c):
        x = c.o('x')
        ch, sh = trigmul(2, u)
        w = [add(mul(ch, v0[0]), mul(sh, v0[1])), sub(mul(ch, v0[1]), mul(sh, v0[0]))]
        for i in (0, 1): c.hold('ln translation[%d] times sinc(angle/2) within 1e-10 of the translation turned back by half the angle' % i, absle(sub(mul(x[i], hh), w[i]), Fraction(1, 10**10)))
        c.eq('angle', x[2], th4)
    S.h('se2_ln_small', pv + [Out('x', 3)], 'wrapVector<3>(x)=SE2<>::ln(SE2<>(SO2<>(v[2]),wrapVector<2>((double*)v)));', plns, pre=lambda c: rng + [absle(v0[0], ONE), absle(v0[1], ONE), absle(th4, Fraction(1, 10**5)), rle(hh, ONE), rle(sub(ONE, Fraction(1, 10**11)), hh)], what='SE2::ln of a rotation of at most 1e-5 rad: within 1e-10 for a unit translation', native=False, **KA(th4))
    # SIM2: the other three regions of the exponential are second order in what is small
    w4 = [rvar('v_%d' % i) for i in range(4)]
    ps, pt = w4[3], w4[2]
    def q2(x): return div(mul(x, x), TWO)
    def near_s(s, t):       # integrals of cos, sin against 1 + s tau + s^2 tau^2/2
        ss, cc = tsin(t), tcos(t)
        p0, q0 = div(ss, t), div(sub(ONE, cc), t)
        p1 = sub(div(ss, t), div(sub(ONE, cc), mul(t, t))); q1 = div(sub(ss, mul(t, cc)), mul(t, t))
        p2 = sub(div(ss, t), mul(TWO, div(q1, t))); q2_ = sub(mul(TWO, div(p1, t)), div(cc, t))
        return add(p0, add(mul(s, p1), mul(q2(s), p2))), add(q0, add(mul(s, q1), mul(q2(s), q2_)))
    def near_t(s, t):       # integrals of exp(s tau) against t tau - t^3 tau^3/6, and 1 - t^2 (tau^2/2 - t^2 tau^4/24)
        es = texp(s)
        I = [div(sub(es, ONE), s)]
        for k in range(1, 5): I.append(div(sub(es, mul(Fraction(k), I[-1])), s))
        t2_ = mul(t, t)
        return add(sub(I[0], mul(div(t2_, TWO), I[2])), mul(div(mul(t2_, t2_), Fraction(24)), I[4])), sub(mul(t, I[1]), mul(div(mul(t, t2_), Fraction(6)), I[3]))
    def near_st(s, t):
        t2_, s2_ = mul(t, t), mul(s, s)
        c0 = add(ONE, add(div(s, TWO), div(s2_, Fraction(6))))
        c1 = add(Fraction(1, 2), add(div(s, Fraction(3)), sub(div(s2_, Fraction(8)), div(t2_, Fraction(24)))))
        c2 = add(Fraction(1, 6), add(div(s, Fraction(8)), sub(div(s2_, Fraction(20)), div(t2_, Fraction(120)))))
        return sub(c0, mul(t2_, c2)), mul(t, c1)
    for rn, f, pr in (('s', near_s, near(ps) + far(pt)), ('t', near_t, near(pt) + far(ps)), ('st', near_st, near(ps) + near(pt))):
        def pn(c, f=f):
            p, q = f(ps, pt)
            eqm(c, 'exponential, second order', c.o('x'), homog(hsc(texp(ps), rotm(pt)), [sub(mul(p, w4[0]), mul(q, w4[1])), add(mul(p, w4[1]), mul(q, w4[0]))]))
        S.h('sim2_exp_near_' + rn, [In('v', 4), Out('x', 9)], 'SIM2<> T=SIM2<>::exp(wrapVector<4>((double*)v));' + hout('T', 'x', 1), pn, pre=lambda c, pr=pr: pr, what='SIM2::exp with a small %s: second order expansion of the exponential' % {'s': 'log scale', 't': 'angle', 'st': 'log scale and angle'}[rn], **KW)
    sg = rvar('v_3')
    S.h('sim2_ln', [In('v', 4, init=v0 + [th2, sg]), Out('x', 4)], 'wrapVector<4>(x)=SIM2<>::exp(wrapVector<4>((double*)v)).ln();', lambda c: [c.eq('ln(exp(v))[%d]' % i, c.o('x')[i], (v0 + [th2, sg])[i]) for i in range(4)], what='SIM2: ln(exp(v)) == v', **KA(th2))
