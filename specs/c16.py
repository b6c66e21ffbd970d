from specs.c15 import *
from toonvc.invs import Inv
from toonvc.terms import iatom, ivar, ile, ilt, ieq
from toonvc.exe import FLOAT
from toonvc.terms import rat as trat
from toonvc.ir import *

def lcells(ex, st, p, n, ty=DOUBLE, sz=8): return [ex.load(st, Ptr(p.r, iadd(p.o, sz * i)), ty) for i in range(n)]
def lput(ex, st, p, xs, ty=DOUBLE, sz=8):
    for i, x in enumerate(xs): ex.store(st, Ptr(p.r, iadd(p.o, sz * i)), ty, x)
def fn_contract(pat, nm, n, ty='double'):
    """a matrix function of n x n matrices, left uninterpreted: the same cells for the same argument"""
    t, sz = (DOUBLE, 8) if ty == 'double' else (FLOAT, 4)
    def h(ex, st, args, i, name):
        reg = len(args) == 1         # a result small enough for a register
        A = [ex.simp('ratsimp', x) for x in lcells(ex, st, args[0 if reg else 1], n * n, t, sz)]
        if reg: return [(st, uf(nm + '0', *A))] if n == 1 else NotImplemented
        lput(ex, st, args[0], [uf('%s%d' % (nm, k), *A) for k in range(n * n)], t, sz)
        return [(st, None)]
    return (pat, h)
def gem_contract(n, ty='double'):
    """gaussian_elimination(A, B) of n x n matrices, as C09 establishes it: A X == B for a nonsingular A"""
    t, sz = (DOUBLE, 8) if ty == 'double' else (FLOAT, 4)
    def h(ex, st, args, i, name):
        if not all(isinstance(a, Ptr) for a in args[:3]) or len(args) < 3: return NotImplemented      # a result small enough for registers: execute the body
        A, B = lcells(ex, st, args[1], n * n, t, sz), lcells(ex, st, args[2], n * n, t, sz)
        X = [rvar('gem!%d' % k) for k in range(n * n)]
        for r in range(n):
            for c in range(n): st.assume(req(sum_([mul(A[r * n + k], X[k * n + c]) for k in range(n)]), B[r * n + c]))
        lput(ex, st, args[0], X, t, sz)
        return [(st, None)]
    return (r'TooN::gaussian_elimination<%d, %d' % (n, n), h)
def sum_(xs):
    r = Z
    for x in xs: r = add(r, x)
    return r
def det_(M):
    if len(M) == 1: return M[0][0]
    r = Z
    for j in range(len(M)):
        t = mul(M[0][j], det_([[x for k, x in enumerate(row) if k != j] for row in M[1:]]))
        r = add(r, t if j % 2 == 0 else neg(t))
    return r
def sl_basis(n):
    """the documented generators: diagonal, symmetric, antisymmetric"""
    G = []
    def zero(): return [[Z] * n for _ in range(n)]
    for i in range(n - 1):
        g = zero(); g[i][i] = ONE; g[i + 1][i + 1] = Fraction(-1); G.append(g)
    for s in (1, -1):
        for i in range(n):
            for j in range(i + 1, n):
                g = zero(); g[i][j] = Fraction(s); g[j][i] = ONE; G.append(g)
    return G

def build(S):
    S.chunk = 4
    S.include('TooN/sl.h')
    matfun(S)
    nrm = Norm()
    for n in (2, 3, 4):
        d, nn = n * n - 1, n * n
        G = sl_basis(n)
        KS = dict(kind='static', group=None, nodiv=True)
        S.h('sl%d_gen' % n, [Out('x', nn * d)], ''.join('wrapMatrix<%d,%d>(x+%d)=SL<%d>::generator(%d);' % (n, n, nn * i, n, i) for i in range(d)), lambda c, G=G, nn=nn: [c.eq('generator %d[%d]' % (k, i), c.o('x')[nn * k + i], flat(G[k])[i]) for k in range(len(G)) for i in range(nn)], what='SL<%d> generators' % n, opts=RS, **KS)
        for i in (-1, d):
            S.h('sl%d_genabort%d' % (n, i + 1), [Out('x', nn)], 'wrapMatrix<%d,%d>(x)=SL<%d>::generator(%d);' % (n, n, n, i), lambda c: None, abort=lambda c: True, what='SL<%d>::generator(%d): the assertion fails' % (n, i), opts=dict(RS, assert_ok=True), native=False, **KS)
        # exponential: TooN::exp of the generator combination
        v = [rvar('v_%d' % i) for i in range(d)]
        alg = [nrm.ratsimp(sum_([mul(v[k], flat(G[k])[i]) for k in range(d)])) for i in range(nn)]
        for kind, dec in (('o', 'Vector<%d> V(wrapVector<%d>((double*)v));' % (d, d)), ('d', 'Vector<Dynamic,double,Reference> V((double*)v,%d);' % d)):
            for how, ex_ in (('exp', 'SL<%d> T=SL<%d>::exp(V);' % (n, n)), ('ctor', 'SL<%d> T(V);' % n)):
                S.h('sl%d_%s_%s' % (n, how, kind), [In('v', d), Out('x', nn)], dec + ex_ + 'wrapMatrix<%d,%d>(x)=T.get_matrix();' % (n, n), lambda c, nn=nn, alg=alg: [c.eq('the matrix exponential of the generator combination[%d]' % i, c.o('x')[i], uf('expm%d' % i, *alg)) for i in range(nn)],
                    what='SL<%d> exponential (%s)' % (n, kind), opts=dict(RS, contracts=[fn_contract(r'TooN::exp<%d, %d' % (n, n), 'expm', n)]), native=False, **KS)
        S.h('sl%d_expsize' % n, [Int('k', lo=0, hi=40), In('v', 40), Out('x', nn)], 'Vector<Dynamic,double,Reference> V((double*)v,k); wrapMatrix<%d,%d>(x)=SL<%d>::exp(V).get_matrix();' % (n, n, n), lambda c: None, abort=lambda c, d=d: lnot(ieq(c.k, d)), what='SL<%d>::exp checks the size' % n, opts=dict(RS, contracts=[fn_contract(r'TooN::exp<%d, %d' % (n, n), 'expm', n)]), native=False, **KS)
        # logarithm: the coordinates of TooN::log
        T_ = 'SL<%d> T(wrapMatrix<%d,%d>((double*)m_)); wrapMatrix<%d,%d>(h)=T.get_matrix(); ' % (n, n, n, n, n)
        detc = dict(RS, contracts=[fn_contract(r'TooN::log<%d, %d' % (n, n), 'logm', n), det_contract(n)])
        def pln(c, nn=nn, n=n, G=G, d=d):
            l = [uf('logm%d' % i, *[nrm.ratsimp(c.o('h')[k]) for k in range(nn)]) for i in range(nn)]
            c.given(req(sum_([l[i * n + i] for i in range(n)]), Z))
            for i in range(nn): c.eq('generator combination of ln(T)[%d]' % i, sum_([mul(c.o('x')[k], flat(G[k])[i]) for k in range(d)]), l[i])
        S.h('sl%d_ln' % n, [In('m_', nn), Out('h', nn), Out('x', d)], T_ + 'wrapVector<%d>(x)=T.ln();' % d, pln, what='SL<%d> logarithm: the coordinates of the matrix logarithm' % n, opts=detc, native=False, pre=lambda c, n=n: [rlt(Z, rdet(c.a('m_'), n))], **KS)
        # coercion
        def pco(c, nn=nn, n=n):
            p = uf('pow', rdet(c.a('m_'), n), trat(1.0 / n))
            for i in range(nn): c.eq('M / det(M)^(1/%d)[%d]' % (n, i), mul(c.o('h')[i], p), c.a('m_')[i])
        S.h('sl%d_coerce' % n, [In('m_', nn), Out('h', nn)], T_, pco, what='SL<%d> from a matrix of positive determinant' % n, opts=detc, native=False, pre=lambda c, n=n: [rlt(Z, rdet(c.a('m_'), n))] + powpos(n, c), **KS)
        S.h('sl%d_singular' % n, [In('m_', nn), Out('h', nn)], T_, lambda c: None, abort=lambda c: True, pre=lambda c, n=n: [req(rdet(c.a('m_'), n), Z)], what='SL<%d> from a singular matrix: the assertion fails' % n, opts=dict(detc, assert_ok=True), native=False, **KS)
        S.h('sl%d_id' % n, [Out('h', nn)], 'SL<%d> T; wrapMatrix<%d,%d>(h)=T.get_matrix();' % (n, n, n), lambda c, n=n: eqm(c, 'identity', c.o('h'), [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]), what='SL<%d>()' % n, opts=RS, **KS)
        # group
        dpre = lambda c, n=n: [rlt(Z, rdet(c.a('m_'), n))]
        dpre2 = lambda c, n=n: [rlt(Z, rdet(c.a('m_'), n)), rlt(Z, rdet(c.a('n_'), n))]
        for ta, tb in (('double', 'double'), ('float', 'double'), ('double', 'float'), ('float', 'float')):
            to = 'float' if ta == tb == 'float' else 'double'
            dd = lambda T, ty, m, h: 'SL<%d,%s> %s(wrapMatrix<%d,%d>((%s*)%s)); wrapMatrix<%d,%d>(%s)=%s.get_matrix(); ' % (n, ty, T, n, n, ty, m, n, n, h, T)
            P = [In('m_', nn, ta), In('n_', nn, tb), Out('h', nn, ta), Out('g', nn, tb), Out('x', nn, to), Out('y', nn, to)]
            two = dd('T', ta, 'm_', 'h') + dd('U', tb, 'n_', 'g')
            def pp(c, n=n): eqm(c, 'product', c.o('x'), mmul(sq_(c.o('h'), n), sq_(c.o('g'), n))); eqm(c, 'product', c.o('y'), mmul(sq_(c.o('h'), n), sq_(c.o('g'), n)))
            OD = dict(RS, contracts=[det_contract(n)])
            S.h('sl%d_mul_%s%s' % (n, ta[0], tb[0]), P, two + 'SL<%d,%s> W=T*U; SL<%d,%s> Y(T,U); wrapMatrix<%d,%d>(x)=W.get_matrix(); wrapMatrix<%d,%d>(y)=Y.get_matrix();' % (n, to, n, to, n, n, n, n), pp, pre=dpre2, what='SL<%d,%s> * SL<%d,%s>' % (n, ta, n, tb), opts=OD, f32='exact', native=ta == 'double', **KS)
            if ta == to: S.h('sl%d_muleq_%s%s' % (n, ta[0], tb[0]), P, two + 'SL<%d,%s>& W=(T*=U); wrapMatrix<%d,%d>(x)=W.get_matrix(); wrapMatrix<%d,%d>(y)=T.get_matrix();' % (n, to, n, n, n, n), pp, pre=dpre2, what='SL<%d,%s> *= SL<%d,%s>' % (n, ta, n, tb), opts=OD, f32='exact', native=False, **KS)
        S.h('sl%d_self' % n, [In('m_', nn), Out('h', nn), Out('x', nn)], T_ + 'T*=T; wrapMatrix<%d,%d>(x)=T.get_matrix();' % (n, n), lambda c, n=n: eqm(c, 'square', c.o('x'), mmul(sq_(c.o('h'), n), sq_(c.o('h'), n))), pre=dpre, what='SL<%d> *= itself' % n, opts=OD, **KS)
        for ty in ('double', 'float'):
            T1 = T_ if ty == 'double' else 'SL<%d,float> T(wrapMatrix<%d,%d>((float*)m_)); wrapMatrix<%d,%d>(h)=T.get_matrix(); ' % (n, n, n, n, n)
            S.h('sl%d_inv_%s' % (n, ty[0]), [In('m_', nn, ty), Out('h', nn, ty), Out('x', nn, ty)], T1 + 'wrapMatrix<%d,%d>(x)=T.inverse().get_matrix();' % (n, n), lambda c, n=n: eqm(c, 'T T^-1', [dotp(sq_(c.o('h'), n)[i], [c.o('x')[k * n + j] for k in range(n)]) for i in range(n) for j in range(n)], [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]), pre=dpre, f32='exact', what='SL<%d,%s>::inverse' % (n, ty), opts=dict(RS, contracts=[det_contract(n), gem_contract(n, ty)]), native=False, **KS)
        # action
        Pm = [In('m_', nn), Out('h', nn)]
        for kind in 'osdc':
            vc, ad, tot = vk(n, kind)
            def pv(c, n=n, ad=ad):
                M, w = sq_(c.o('h'), n), [c.a('p')[ad(i)] for i in range(n)]
                for i in range(n): c.eq('T v[%d]' % i, c.o('x')[i], dotp(M[i], w)); c.eq('v T[%d]' % i, c.o('y')[i], dotp(w, [M[k][i] for k in range(n)]))
            S.h('sl%d_v_%s' % (n, kind), Pm + [In('p', tot), Out('x', n), Out('y', n)], T_ + vc + 'wrapVector<%d>(x)=T*v; wrapVector<%d>(y)=v*T;' % (n, n), pv, pre=dpre, what='SL<%d> times vector, vector times SL<%d> (%s)' % (n, n, kind), opts=OD, **KS)
        for kind in ('o', 's', 'sc', 'd', 'dc', 'hr'):
            for q in (1, 2, 5):
                if q != 2 and kind not in 'od': continue
                mc, ad = rect(n, q, kind); mc2, ad2 = rect(q, n, kind, 'p2', 'm2')
                S.h('sl%d_m%d_%s' % (n, q, kind), Pm + [In('p', n * q), In('p2', n * q), Out('x', n * q), Out('y', n * q)], T_ + mc + mc2 + 'Matrix<%d,%d,double,RefR> rx(x); rx=T*m; Matrix<%d,%d,double,RefR> ry(y); ry=m2*T;' % (n, q, q, n),
                    lambda c, n=n, q=q, ad=ad, ad2=ad2: (eqm(c, 'T M', c.o('x'), mmul(sq_(c.o('h'), n), [[c.a('p')[ad(i, j)] for j in range(q)] for i in range(n)])), eqm(c, 'M T', c.o('y'), mmul([[c.a('p2')[ad2(i, j)] for j in range(n)] for i in range(q)], sq_(c.o('h'), n)))),
                    pre=dpre, what='SL<%d> times matrix, matrix times SL<%d> (%d, %s)' % (n, n, q, kind), opts=OD, **KS)
def pows(M):
    """I, M, M^2, .. (n of them) and the coefficients of M^n in them (Cayley-Hamilton)"""
    n = len(M)
    I = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    P = [I]
    while len(P) < n: P.append(mmul(P[-1], M))
    if n == 1: ch = [M[0][0]]
    if n == 2: ch = [neg(det_(M)), add(M[0][0], M[1][1])]
    if n == 3:
        s2 = sum_([sub(mul(M[i][i], M[j][j]), mul(M[i][j], M[j][i])) for i in range(3) for j in range(i)])
        ch = [det_(M), neg(s2), sum_([M[i][i] for i in range(3)])]
    return P, ch
def comb(P, c): return [sum_([mul(c[k], P[k][i][j]) for k in range(len(P))]) for i in range(len(P)) for j in range(len(P))]
def times(c, ch):
    """coefficients of M (c0 + c1 M + ..)"""
    n = len(c)
    return [add(c[k - 1] if k else Z, mul(c[n - 1], ch[k])) for k in range(n)]
def gvs(p, n): return [rvar('g!%s%d' % (p, k)) for k in range(n)]
def vname(v): return v.args[0]

def ninf_contract(n, known=()):
    """norm_inf of a matrix, as C07 establishes it: at least every |element|, zero only for the zero matrix"""
    def h(ex, st, args, i, name):
        A = [ex.simp('ratsimp', x) for x in lcells(ex, st, args[0], n * n)]
        if len(known) == len(A) and all(same(ex, x, y) for x, y in zip(A, known)): A = list(known)
        v = uf('norm_inf', *A)
        st.assume(rle(Z, v))
        for a in A: st.assume(rle(a, v)); st.assume(rle(neg(a), v))
        return [(st, v)]
    return (r'TooN::norm_inf<%d, %d' % (n, n), h)
def matfun(S):
    """TooN::exp, log and sqrt of matrices: the loops against their recursions, with stated invariants"""
    E_ = lambda n: [ONE] + [Z] * (n - 1)
    for n, dyn in ((1, 0), (2, 0), (3, 0), (2, 1)):
        nn = n * n
        KW_ = dict(kind='static' if not dyn else 'bounded', group=None, nodiv=True, native=False)
        T = 'd' if dyn else ''
        mt = 'Matrix<> M(wrapMatrix((double*)m_,%d,%d)); ' % (n, n) if dyn else 'Matrix<%d> M(wrapMatrix<%d,%d>((double*)m_)); ' % (n, n, n)
        ot = lambda e: 'wrapMatrix(x,%d,%d)=%s;' % (n, n, e) if dyn else 'wrapMatrix<%d,%d>(x)=%s;' % (n, n, e)
        P_ = [In('m_', nn), Out('x', nn)]
        tn = r'<%s, %s' % (('-1', '-1') if dyn else (n, n))
        M = [[rvar('m__%d' % (i * n + j)) for j in range(n)] for i in range(n)]
        # exp_taylor: partial sums r of the exponential series, the next term p = M^(k-1)/(k-1)!
        p, r, k = gvs('p', n), gvs('r', n), rvar('g!k')
        Pw, ch = pows(M)
        pn = [div(x, k) for x in times(p, ch)]
        gh = {vname(k): (ONE, add(k, ONE))}
        for a, b, e in ((p, pn, E_(n)), (r, [add(x, y) for x, y in zip(r, p)], [Z] * n)):
            for x, y, z in zip(a, b, e): gh[vname(x)] = (z, y)
        inv = Inv(r'exp_taylor', gh, [('the next term of the series', comb(Pw, p)), ('the partial sum of the series', comb(Pw, r)), ('k', [k])], [rle(ONE, k)])
        def pe(c, nn=nn, Pw=Pw, p=p, r=r, n=n):
            for i in range(nn): c.eq('a partial sum of the exponential series[%d]' % i, c.o('x')[i], comb(Pw, r)[i])
            for i in range(nn): c.eq('the next term of the series is zero[%d]' % i, comb(Pw, p)[i], Z)
        S.h('exp_taylor%d%s' % (n, T), P_, mt + ot('Internal::exp_taylor(M)'), pe, what='exponential series of %dx%d matrices: summed until the next term is zero' % (n, n), opts=dict(RS, inv=[inv], contracts=[ninf_contract(3)]), **KW_)
        # log_taylor: terms F/k, F = (-1)^(k-1) (M-I)^k
        X = [[sub(M[i][j], Fraction(int(i == j))) for j in range(n)] for i in range(n)]
        Xw, chx = pows(X)
        f1 = times(E_(n), chx)
        fn = [neg(x) for x in times(p, chx)]
        gh = {vname(k): (ONE, add(k, ONE))}
        for a, b, e in ((p, fn, f1), (r, [add(x, div(y, k)) for x, y in zip(r, p)], [Z] * n)):
            for x, y, z in zip(a, b, e): gh[vname(x)] = (z, y)
        inv = Inv(r'log_taylor', gh, [('the next power', comb(Xw, p)), ('the partial sum of the series', comb(Xw, r)), ('k', [k])], [rle(ONE, k)])
        def pl(c, nn=nn, Xw=Xw, p=p, r=r, n=n):
            for i in range(nn): c.eq('a partial sum of the logarithm series[%d]' % i, c.o('x')[i], comb(Xw, r)[i])
            for i in range(nn): c.eq('the next term of the series is zero[%d]' % i, div(comb(Xw, p)[i], k), Z)
        S.h('log_taylor%d%s' % (n, T), P_, mt + ot('Internal::log_taylor(M)'), pl, what='logarithm series of %dx%d matrices: summed until the next term is zero' % (n, n), opts=dict(RS, inv=[inv], contracts=[ninf_contract(3)]), **KW_)

        if dyn: continue
        # sqrt: the product form of Denman and Beavers; Y a function of M, its square M times the other iterate
        if n < 3:
            y = gvs('y', n)
            mulp = lambda a, b: mul2(a, b, ch)
            inva = inv2(M, ch)
            mm_ = lambda y: mulp(inva, mulp(y, y))
            yn = [div(add(a, b), TWO) for a, b in zip(y, times(invp(y, M, ch), ch))]
            gh = {vname(a): (e, b) for a, b, e in zip(y, yn, ([M[0][0]] if n == 1 else [Z, ONE]))}
            EE = [nrm_(t) for t in comb(Pw, [sub(a, b) for a, b in zip(mm_(yn), invp(mm_(y), M, ch))])]
            inv = Inv(r'TooN::sqrt<', gh, [('Y', comb(Pw, y)), ('A^-1 Y^2', [nrm_(t) for t in comb(Pw, mm_(y))])], [rlt(Z, y[0])] if n == 1 else [])
            def psq(c, n=n, nn=nn, M=M, y=y, yn=yn, Pw=Pw, ch=ch, mulp=mulp, mm_=mm_, EE=EE):
                Y = comb(Pw, yn)
                if n == 1:
                    c.eq('the square is the argument', mul(c.o('x')[0], c.o('x')[0]), M[0][0]); c.hold('positive', rlt(Z, c.o('x')[0])); return
                for i in range(nn): c.eq('Y is a function of M[%d]' % i, c.o('x')[i], Y[i])
                mi = invp(mm_(y), M, ch)
                ee = [sub(a, b) for a, b in zip(mm_(yn), mi)]      # zero at the exit
                for i in range(nn): c.eq('the iteration has converged[%d]' % i, EE[i], Z)
                y2 = mulp(yn, yn)
                A_ = [Z, ONE]
                q = mulp([sub(a, b) for a, b in zip(y2, A_)], [add(mul(Fraction(3), a), b) for a, b in zip(y2, A_)])
                e4 = mulp(mulp(A_, A_), mulp(ee, [add(add(mul(TWO, a), e), Fraction(-2 if i == 0 else 0)) for i, (a, e) in enumerate(zip(mm_(yn), ee))]))
                for i in range(2): c.eq('(Y^2 - M)(3 Y^2 + M) vanishes with it[%d]' % i, q[i], e4[i])
            S.h('sqrtm%d%s' % (n, T), P_, mt + ot('sqrt(M)'), psq, pre=(lambda c, M=M: [rlt(Z, M[0][0])]) if n == 1 else None, what='square root of %dx%d matrices: the limit of the iteration is a root' % (n, n), opts=dict(RS, inv=[inv], contracts=[ninf_contract(n, EE), geadj_contract(n)]), **KW_)
        # exp: the series of M / 2^s, squared s times
        q, cnt = gvs('q', nn), ivar('g!n')
        Ms = flat(M)
        def et(c_, Ms=Ms): return c_
        sI = ivar('s!')
        nq = mmul(sq_(q, n), sq_(q, n))
        nf = uf('norm_inf', *Ms)
        l2 = uf('log2', nf)
        for nm, sv, pr in (('', None, None),):
            def scale(ex, st): return None
            s_ = iatom('fptosi', uf('ceil', l2))
            p2 = uf('pow2', s_)
            def mk_(neg_, n=n, nn=nn, Ms=Ms, q=q, s_=s_, p2=p2, nq=nq):
                s2 = 0 if neg_ else s_
                e0 = [uf('exp_taylor%d' % i, *[nrm_(div(x, p2)) if not neg_ else x for x in Ms]) for i in range(nn)]
                gh = {vname(a): (z, b) for a, b, z in zip(q, flat(nq), e0)}
                inv = Inv(r'TooN::exp<', gh, [('the repeated square', q)], [ile(ivar('g!n'), s_)])
                def pex(c, nn=nn, q=q, e0=e0, neg_=neg_, s_=s_):
                    for i in range(nn): c.eq('the series of M/2^s squared[%d]' % i, c.o('x')[i], q[i] if not neg_ else e0[i])
                    if not neg_: c.hold('squared s times', ieq(ivar('g!n'), s_))
                S.h('expm%d%s_%s' % (n, T, 'small' if neg_ else 'scaled'), P_, mt + ot('exp(M)'), pex, pre=lambda c: [ile(s_, 0) if neg_ else ile(1, s_)], what='exp of %dx%d matrices: the series of M/2^s squared s times, s = max(0, ceil(log2 |M|))' % (n, n),
                    opts=dict(RS, inv=[] if neg_ else [inv], contracts=[ninf_contract(n), fn_contract(r'TooN::Internal::exp_taylor', 'exp_taylor', n)]), **KW_)
            mk_(0); mk_(1)
        # log: the series of the 2^n-th root times 2^n
        rt = [uf('sqrtm%d' % i, *q) for i in range(nn)]
        gh = {vname(a): (z, b) for a, b, z in zip(q, rt, Ms)}
        inv = Inv(r'TooN::log<', gh, [('the repeated root', q)])
        def plg(c, n=n, nn=nn, q=q):
            for i in range(nn): c.eq('2^n times the series of the repeated root[%d]' % i, c.o('x')[i], mul(uf('pow2', ivar('g!n')), uf('log_taylor%d' % i, *q)))
            for i in range(nn): c.hold('the root is within 1/2 of the identity[%d]' % i, absle(sub(q[i], Fraction(int(i % (n + 1) == 0))), Fraction(1, 2)))
        S.h('logm%d%s' % (n, T), P_, mt + ot('log(M)'), plg, what='log of %dx%d matrices: 2^n times the series of the n times repeated square root' % (n, n), opts=dict(RS, inv=[inv], contracts=[ninf_contract(n), fn_contract(r'TooN::Internal::log_taylor', 'log_taylor', n), fn_contract(r'TooN::sqrt<', 'sqrtm', n)]), **KW_)

    for n in (2, 3):
        nn = n * n
        up = [(i, j) for i in range(n) for j in range(i + 1, n)]
        def mk(d): return [d if i == j else rvar('u_%d' % up.index((i, j))) if i < j else Z for i in range(n) for j in range(n)]
        N_ = sq_(mk(Z), n)
        I_ = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        N2 = mmul(N_, N_)
        dec = 'Matrix<%d> M=%s; ' % (n, 'Identity' ) 
        for f, d, want in (('exp_taylor', 0, [[add(add(I_[i][j], N_[i][j]), div(N2[i][j], TWO)) for j in range(n)] for i in range(n)]), ('log_taylor', 1, [[sub(N_[i][j], div(N2[i][j], TWO)) for j in range(n)] for i in range(n)])):
            dec = 'Matrix<%d> M=Zeros; ' % n + ''.join('M[%d][%d]=%d;' % (i, i, d) for i in range(n)) + ''.join('M[%d][%d]=u[%d];' % (i, j, k) for k, (i, j) in enumerate(up))
            S.h('%s_nil%d' % (f, n), [In('u', len(up)), Out('x', nn)], dec + 'wrapMatrix<%d,%d>(x)=Internal::%s(M);' % (n, n, f), lambda c, want=want, n=n: eqm(c, 'finite series', c.o('x'), want), what='%s of %dx%d %s matrices' % (f, n, n, 'unipotent' if d else 'nilpotent'), kind='static', group=None, nodiv=True, opts=RS)
    for f in ('exp', 'sqrt', 'log', 'Internal::exp_taylor', 'Internal::log_taylor'):
        for r, c_ in ((2, 3), (3, 2)):
            S.h('%s_size%d%d' % (f.split(':')[-1], r, c_), [In('m_', 6), Out('x', 6)], 'Matrix<> M(wrapMatrix((double*)m_,%d,%d)); wrapMatrix(x,%d,%d)=%s(M);' % (r, c_, r, c_, f), lambda c: None, abort=lambda c: True, what='%s of a %dx%d matrix terminates the program' % (f, r, c_), kind='static', group=None, nodiv=True, native=False, opts=RS)

def nrm_(t): return Norm().ratsimp(t)
def mul2(a, b, ch):
    """product of a0 + a1 M and b0 + b1 M"""
    if len(a) == 1: return [mul(a[0], b[0])]
    h = mul(a[1], b[1])
    return [add(mul(a[0], b[0]), mul(h, ch[0])), add(add(mul(a[0], b[1]), mul(a[1], b[0])), mul(h, ch[1]))]
def invp(a, M, ch):
    """inverse of a0 + a1 M"""
    if len(a) == 1: return [div(ONE, a[0])]
    d = add(mul(a[0], a[0]), add(mul(mul(a[0], a[1]), ch[1]), mul(mul(a[1], a[1]), neg(ch[0]))))
    return [div(add(a[0], mul(a[1], ch[1])), d), div(neg(a[1]), d)]
def inv2(M, ch): return invp([Z, ONE], M, ch) if len(M) == 2 else [div(ONE, M[0][0])]
def geadj_contract(n):
    """gaussian_elimination(A, B) of nonsingular n x n matrices, as C09 establishes it: adj(A) B / det(A)"""
    def h(ex, st, args, i, name):
        if not all(isinstance(a, Ptr) for a in args[:3]) or len(args) < 3: return NotImplemented
        A, B = sq_(lcells(ex, st, args[1], n * n), n), sq_(lcells(ex, st, args[2], n * n), n)
        adj = [[ONE]] if n == 1 else [[A[1][1], neg(A[0][1])], [neg(A[1][0]), A[0][0]]]
        d = det_(A)
        lput(ex, st, args[0], [ex.simp('ratsimp', div(x, d)) for x in flat(mmul(adj, B))])
        return [(st, None)]
    return (r'TooN::gaussian_elimination<%d, %d' % (n, n), h)
def sq_(a, n): return [[a[i * n + j] for j in range(n)] for i in range(n)]
def det_contract(n):
    """determinant of an n x n matrix, as C09 establishes it"""
    def h(ex, st, args, i, name):
        t, sz = (FLOAT, 4) if 'float' in dem_(name) else (DOUBLE, 8)
        return [(st, rdets(sq_(lcells(ex, st, args[0], n * n, t, sz), n)))]
    return (r'TooN::determinant<%d' % n, h)
def rdet(a, n): return rdets(sq_(a, n))
def rdets(M): return Norm().ratsimp(det_(M)) if len(M) < 4 else uf('det', *[Norm().ratsimp(x) for x in flat(M)])
def powpos(n, c): return [rlt(Z, uf('pow', rdet(c.a('m_'), n), trat(1.0 / n)))]
def dem_(x):
    from toonvc.exe import dem
    return dem(x)
