import itertools
import re
from specs.lin import *
from specs.c09 import leibniz, sq, kd, FS

def minors(A, n): return [leibniz(A, k) for k in range(1, n + 1)]

def build(S):
    S.chunk = 4
    S.include('TooN/Cholesky.h')
    for n in (1, 2, 3, 4):
        for k in ('o', 's', 'd', 'dc', 'sc', 't', 'od'):
            if n == 4 and k not in 'od': continue
            code, ad = sq(n, k)
            dyn = k in ('d', 'dc', 'od')
            T_ = 'Cholesky<>' if dyn else 'Cholesky<%d>' % n
            lo = lambda c, i, j, ad=ad: c.a('p')[ad(max(i, j), min(i, j))]
            A = lambda c, lo=lo: (lambda i, j: lo(c, i, j))
            pre = lambda c, A=A, n=n: [lnot(req(m, Fraction(0))) for m in minors(A(c), n)]
            I = [In('p', n * n)]
            kk = dict(pre=pre, opts=FS, **kd('d' if dyn else 'o'))
            mo = lambda x, nm, n=n: 'Matrix<%d,%d,double,RefR> r%s(%s); r%s=%s;' % (n, n, nm, nm, nm, x)
            def pld(c, n=n, A=A):
                L, D = (lambda i, j: c.o('l')[i * n + j]), (lambda i, j: c.o('d')[i * n + j])
                for i in range(n):
                    for j in range(n):
                        if j >= i: c.eq('L is unit lower triangular[%d,%d]' % (i, j), L(i, j), Fraction(int(i == j)))
                        if i != j: c.eq('D is diagonal[%d,%d]' % (i, j), D(i, j), Fraction(0))
                        if j <= i:
                            t = Fraction(0)
                            for q in range(j + 1): t = add(t, mul(mul(L(i, q), D(q, q)), L(j, q)))
                            c.eq('L D L^T == A[%d,%d]' % (i, j), t, A(c)(i, j))
                c.eq('determinant', c.o('e')[0], leibniz(A(c), n))
                c.eq('rank', c.o('k')[0], n)
            S.h('ldl_%d_%s' % (n, k), I + [Out('l', n * n), Out('d', n * n), Out('e', 1), Out('k', 1, 'int')], '%s %s ch(m); %s %s e[0]=ch.determinant(); k[0]=ch.rank();' % (code, T_, mo('ch.get_unscaled_L()', 'l'), mo('ch.get_D()', 'd')), pld, what='Cholesky of %dx%d (%s): L D L^T, determinant, rank' % (n, n, k), **kk)
            def pll(c, n=n, A=A):
                L = lambda i, j: c.o('l')[i * n + j]
                for i in range(n):
                    for j in range(n):
                        if j > i: c.eq('L is lower triangular[%d,%d]' % (i, j), L(i, j), Fraction(0)); continue
                        t = Fraction(0)
                        for q in range(j + 1): t = add(t, mul(L(i, q), L(j, q)))
                        c.eq('L L^T == A[%d,%d]' % (i, j), t, A(c)(i, j))
            if n < 4: S.h('ll_%d_%s' % (n, k), I + [Out('l', n * n)], '%s %s ch(m); %s' % (code, T_, mo('ch.get_L()', 'l')), pll, nodiv=True, what='Cholesky::get_L of %dx%d (%s)' % (n, n, k), **dict(kk, pre=lambda c, A=A, n=n: [rlt(Fraction(0), m) for m in minors(A(c), n)]))
            def psol(c, n=n, A=A, q=1, o='x'):
                for i in range(n):
                    for w in range(q):
                        t = Fraction(0)
                        for j in range(n): t = add(t, mul(A(c)(i, j), c.o(o)[j * q + w]))
                        c.eq('row %d of A %s = b%s' % (i, o, ', column %d' % w if q > 1 else ''), t, c.a('b')[i * q + w])
            def pm(c, n=n, psol=psol):
                psol(c)
                t = Fraction(0)
                for i in range(n): t = add(t, mul(c.a('b')[i], c.o('x')[i]))
                c.eq('mahalanobis distance', c.o('m2')[0], t)
            for vk, vc in (('s', 'wrapVector<%d>((double*)b)' % n), ('d', 'wrapVector((double*)b,%d)' % n)):
                S.h('cbs_%d_%s%s' % (n, k, vk), I + [In('b', n), Out('x', n), Out('m2', 1)], '%s %s ch(m); auto r=ch.backsub(%s); wrapVector<%d>(x)=r; m2[0]=ch.mahalanobis(%s);' % (code, T_, vc, n, vc), pm, what='Cholesky::backsub(vector) solves, mahalanobis agrees, %dx%d (%s)' % (n, n, k), **dict(kk, **kd('d' if dyn or vk == 'd' else 'o')))
            for mk_, mc, q in (('s', 'Matrix<%d,2,double,RefR> B((double*)b);' % n, 2), ('d', 'Matrix<-1,-1,double,RefR> B((double*)b,%d,2);' % n, 2), ('h', 'Matrix<%d,-1,double,RefR> B((double*)b,%d,2);' % (n, n), 2)):
                S.h('cbm_%d_%s%s' % (n, k, mk_), I + [In('b', n * q), Out('x', n * q)], '%s %s %s ch(m); auto r=ch.backsub(B); Matrix<%d,%d,double,RefR> rx(x); rx=r;' % (code, mc, T_, n, q), lambda c, psol=psol, q=q: psol(c, q=q), what='Cholesky::backsub(matrix) solves, %dx%d (%s)' % (n, n, k), **dict(kk, **kd('d' if dyn or mk_ != 's' else 'o')))
            def pinv(c, n=n, A=A):
                for i in range(n):
                    for j in range(n):
                        t = Fraction(0)
                        for q in range(n): t = add(t, mul(A(c)(i, q), c.o('x')[q * n + j]))
                        c.eq('A inverse(A) == 1[%d,%d]' % (i, j), t, Fraction(int(i == j)))
            if n < 4 or k == 'o': S.h('cinv_%d_%s' % (n, k), I + [Out('x', n * n)], '%s %s ch(m); %s' % (code, T_, mo('ch.get_inverse()', 'x')), pinv, what='Cholesky::get_inverse, %dx%d (%s)' % (n, n, k), **kk)
            first = ('Matrix<-1,-1,double,RefR> Q((double*)q,%d,%d);' if dyn else 'Matrix<%d,%d,double,RefR> Q((double*)q);') % (n, n)
            if n < 4 and k in 'osd': S.h('ccomp_%d_%s' % (n, k), I + [In('q', n * n), Out('l', n * n), Out('d', n * n), Out('e', 1), Out('k', 1, 'int')], '%s %s %s ch(Q); ch.compute(m); %s %s e[0]=ch.determinant(); k[0]=ch.rank();' % (code, first, T_, mo('ch.get_unscaled_L()', 'l'), mo('ch.get_D()', 'd')), pld, what='Cholesky::compute replaces an earlier decomposition, %dx%d (%s)' % (n, n, k), **dict(kk, pre=lambda c, pre=pre, n=n: pre(c) + [lnot(req(m, Fraction(0))) for m in minors(lambda i, j: c.a('q')[max(i, j) * n + min(i, j)], n)]))
            # compute() after a decomposition that stopped early, and on a default-constructed object
            if n < 4 and k in 'od':
                A0 = lambda c, n=n: (lambda i, j: c.a('q')[max(i, j) * n + min(i, j)])
                stop = lambda f, c, z, n=n: [lnot(req(m, Fraction(0))) for m in minors(f(c), n)[:z]] + ([req(minors(f(c), n)[z], Fraction(0))] if z < n else [])
                for z0 in range(n + 1):
                    for z in range(n + 1):
                        if z0 == n and z == n: continue
                        S.h('crankc_%d_%d_%d_%s' % (n, z0, z, k), I + [In('q', n * n), Out('r', 2, 'int')], '%s %s %s ch(Q); r[0]=ch.rank(); ch.compute(m); r[1]=ch.rank();' % (code, first, T_), lambda c, z=z, z0=z0: (c.eq('rank of the first', c.o('r')[0], z0), c.eq('rank after compute()', c.o('r')[1], z)), what='Cholesky::compute after a decomposition of rank %d: rank %d' % (z0, z), **dict(kk, pre=lambda c, A=A, A0=A0, z=z, z0=z0, stop=stop: stop(A0, c, z0) + stop(A, c, z)))
                S.h('cdef_%d_%s' % (n, k), I + [Out('l', n * n), Out('d', n * n), Out('e', 1), Out('k', 1, 'int')], '%s %s ch%s; ch.compute(m); %s %s e[0]=ch.determinant(); k[0]=ch.rank();' % (code, T_, '(%d)' % n if dyn else '', mo('ch.get_unscaled_L()', 'l'), mo('ch.get_D()', 'd')), pld, what='Cholesky::compute on a fresh object, %dx%d (%s)' % (n, n, k), **kk)
            # first vanishing pivot
            for z in range(n):
                if k not in 'od': continue
                S.h('crank_%d_%d_%s' % (n, z, k), I + [Out('r', 1, 'int'), Out('e', 1)], '%s %s ch(m); r[0]=ch.rank(); e[0]=ch.determinant();' % (code, T_), lambda c, z=z: (c.eq('rank', c.o('r')[0], z)), what='Cholesky::rank is the number of nonzero pivots before the first zero one', **dict(kk, pre=lambda c, A=A, n=n, z=z: [lnot(req(m, Fraction(0))) for m in minors(A(c), n)[:z]] + [req(minors(A(c), n)[z], Fraction(0))])) if n < 4 else None
    S.h('chol_float', [In('p', 9, 'float'), In('b', 3, 'float'), Out('x', 3, 'float'), Out('e', 1, 'float')], 'Cholesky<3,float> ch(*(Matrix<3,3,float>*)p); wrapVector<3>(x)=ch.backsub(wrapVector<3>((float*)b)); e[0]=ch.determinant();',
        lambda c: ([c.eq('row %d of A x = b' % i, add(add(mul(T.R(c.a('p')[3 * max(i, 0) + min(i, 0)]), T.R(c.o('x')[0])), mul(T.R(c.a('p')[3 * max(i, 1) + min(i, 1)]), T.R(c.o('x')[1]))), mul(T.R(c.a('p')[3 * max(i, 2) + min(i, 2)]), T.R(c.o('x')[2]))), T.R(c.a('b')[i])) for i in range(3)], c.eq('determinant', T.R(c.o('e')[0]), leibniz(lambda i, j: T.R(c.a('p')[3 * max(i, j) + min(i, j)]), 3))),
        pre=lambda c: [lnot(req(m, Fraction(0))) for m in minors(lambda i, j: T.R(c.a('p')[3 * max(i, j) + min(i, j)]), 3)], f32='exact', opts=FS, what='Cholesky<3,float>', **ST)
    S.h('chol_rect', [Int('r', lo=0), Int('q', lo=0), In('p', lambda z: imul(z['r'], z['q']))], 'Cholesky<> ch(wrapMatrix((double*)p,r,q));', lambda c: None, pre=lambda c: [lnot(ieq(c.r, c.q))], abort=lambda c: lnot(ieq(c.r, c.q)), what='Cholesky of a non-square matrix aborts', kind='unbounded', opts=dict(loops=True), group=None)
    S.h('chol_rhs', [Int('s', lo=0), In('p', 4), In('b', lambda z: z['s'])], 'Cholesky<2> ch(*(Matrix<2,2>*)p); ch.backsub(wrapVector((double*)b,s));', lambda c: None, pre=lambda c: [lnot(ieq(c.s, 2))], abort=lambda c: lnot(ieq(c.s, 2)), nodiv=True, what='backsub with a vector of the wrong size aborts', kind='unbounded', opts=dict(loops=True), group=None)
    S.h('chol_rhsm', [Int('s', lo=0), In('p', 4), In('b', lambda z: iscale(z['s'], 2))], 'Cholesky<2> ch(*(Matrix<2,2>*)p); ch.backsub(Matrix<-1,-1,double,RefR>((double*)b,s,2));', lambda c: None, pre=lambda c: [lnot(ieq(c.s, 2))], abort=lambda c: lnot(ieq(c.s, 2)), nodiv=True, what='backsub with a matrix of the wrong height aborts', kind='unbounded', opts=dict(loops=True), group=None)
    S.h('chol_comp', [Int('s', lo=0), In('b', lambda z: imul(z['s'], z['s']))], 'Cholesky<> ch(3); ch.compute(wrapMatrix((double*)b,s,s));', lambda c: None, pre=lambda c: [lnot(ieq(c.s, 3))], abort=lambda c: lnot(ieq(c.s, 3)), nodiv=True, what='compute with a matrix of another size aborts', kind='unbounded', opts=dict(loops=True), group=None)
    # ---------------- QR
    S.include('TooN/QR.h')
    for R, C in ((1, 1), (1, 3), (2, 2), (2, 3)):
        rm, cm = (lambda i, j, C=C: i * C + j), (lambda i, j, R=R: j * R + i)
        for k, code, cls, ad in (('o', 'Matrix<%d,%d> m=Matrix<%d,%d,double,RefR>((double*)p);' % (R, C, R, C), 'QR<%d,%d>' % (R, C), rm), ('sc', 'Matrix<%d,%d,double,RefC> m((double*)p);' % (R, C), 'QR<%d,%d>' % (R, C), cm), ('d', 'Matrix<-1,-1,double,RefR> m((double*)p,%d,%d);' % (R, C), 'QR<>', rm), ('hr', 'Matrix<%d,-1,double,RefR> m((double*)p,%d,%d);' % (R, R, C), 'QR<%d,-1>' % R, rm)):
            def pqr(c, R=R, C=C, ad=ad):
                Q, U = (lambda i, j: c.o('q')[i * R + j]), (lambda i, j: c.o('u')[i * C + j])
                for i in range(R):
                    for j in range(C):
                        if j < i: c.eq('R is upper triangular[%d,%d]' % (i, j), U(i, j), Fraction(0))
                        t = Fraction(0)
                        for z in range(R): t = add(t, mul(Q(i, z), U(z, j)))
                        c.eq('Q R == A[%d,%d]' % (i, j), t, c.a('p')[ad(i, j)])
                for i in range(R):
                    for j in range(i + 1):
                        t = Fraction(0)
                        for z in range(R): t = add(t, mul(Q(z, i), Q(z, j)))
                        c.eq('Q^T Q == 1[%d,%d]' % (i, j), t, Fraction(int(i == j)))
            S.h('qr_%d%d_%s' % (R, C, k), [In('p', R * C), Out('q', R * R), Out('u', R * C)], '%s %s d(m); Matrix<%d,%d,double,RefR> rq(q); rq=d.get_Q(); Matrix<%d,%d,double,RefR> ru(u); ru=d.get_R();' % (code, cls, R, R, R, C), pqr, opts=FS, what='QR of every %dx%d matrix (%s): Q orthogonal, R upper triangular, Q R == A' % (R, C, k), **kd('o' if k in ('o', 'sc') else 'd'))
    # three and four rows: every matrix is Q0 [[d, y], [0, B]] for a reflection Q0 that depends rationally on two or
    # three parameters and sends the first column to an axis (four cases: by the sign of the first
    # element, and columns that need no reflection); the block B likewise
    from toonvc.terms import rvar
    def refl(nm, k, neg_, r):
        """(k x k reflection, diagonal element, assumptions): first column +-r times a unit vector"""
        ps = [rvar('%s%d' % (nm, i)) for i in range(k - 1)]
        v = [Fraction(1)] + ps if neg_ else [Fraction(-1)] + ps
        s = Fraction(0)
        for x in ps: s = add(s, mul(x, x))
        n1 = add(Fraction(1), s)
        P = [[sub(Fraction(int(i == j)), div(mul(Fraction(2), mul(v[i], v[j])), n1)) for j in range(k)] for i in range(k)]
        # P e1 has first element 1 - 2/(1+s), negative for s < 1; the column is (-d) * P e1 or d * P e1
        return P, (neg(r) if neg_ else r), [rlt(Fraction(0), r)] + ([rlt(Fraction(1), s)] if neg_ else [rle(Fraction(1), s)])
    def mmul(A, B):
        out = []
        for i in range(len(A)):
            row = []
            for j in range(len(B[0])):
                t = Fraction(0)
                for z in range(len(B)): t = add(t, mul(A[i][z], B[z][j]))
                row.append(t)
            out.append(row)
        return out
    def family(case, R, C, lvl=0):
        """R x C matrix covering, with its assumptions"""
        if R == 1: return [[rvar('z%d_%d' % (lvl, j)) for j in range(C)]], []
        top = [rvar('y%d_%d' % (lvl, j)) for j in range(1, C)]
        B, pre = family(case[1:], R - 1, C - 1, lvl + 1)
        if case[0] in '12':
            d = rvar('d%d' % lvl)
            return [[d if case[0] == '1' else neg(d)] + top] + [[Fraction(0)] + r for r in B], pre + [rle(Fraction(0), d) if case[0] == '1' else rlt(Fraction(0), d)]
        P, d, p2 = refl('abc'[lvl], R, case[0] == '-', rvar('r%d' % lvl))
        return mmul(P, [[d] + top] + [[Fraction(0)] + r for r in B]), pre + p2
    for R, C in ((2, 2), (3, 3), (3, 4), (4, 4)):
        for case in itertools.product('-+12', repeat=R - 1):
            case = ''.join(case)
            qk = R < 4 or case in ('-+-', '+-+', '12-', '2+1', '-12', '--1')
            A, pre = family(case, R, C)
            nm = case.replace('-', 'm').replace('+', 'p')
            for k, code, cls in (('o', 'Matrix<%d,%d> m=Matrix<%d,%d,double,RefR>((double*)p);' % (R, C, R, C), 'QR<%d,%d>' % (R, C)), ('d', 'Matrix<-1,-1,double,RefR> m((double*)p,%d,%d);' % (R, C), 'QR<>')):
                def pqr(c, R=R, C=C, A=A):
                    Q, U = (lambda i, j: c.o('q')[i * R + j]), (lambda i, j: c.o('u')[i * C + j])
                    for i in range(R):
                        for j in range(C):
                            if j < i: c.eq('R is upper triangular[%d,%d]' % (i, j), U(i, j), Fraction(0))
                            t = Fraction(0)
                            for z in range(R): t = add(t, mul(Q(i, z), U(z, j)))
                            c.eq('Q R == A[%d,%d]' % (i, j), t, A[i][j])
                    for i in range(R):
                        for j in range(i + 1):
                            t = Fraction(0)
                            for z in range(R): t = add(t, mul(Q(z, i), Q(z, j)))
                            c.eq('Q^T Q == 1[%d,%d]' % (i, j), t, Fraction(int(i == j)))
                S.h('qrp_%d%d_%s_%s' % (R, C, nm, k), [In('p', R * C, init=[x for r in A for x in r]), Out('q', R * R), Out('u', R * C)], '%s %s d(m); Matrix<%d,%d,double,RefR> rq(q); rq=d.get_Q(); Matrix<%d,%d,double,RefR> ru(u); ru=d.get_R();' % (code, cls, R, R, R, C), pqr, quick=qk, pre=lambda c, pre=pre: pre, opts=dict(ratsimp=True, forksel=True), what='QR of the %dx%d matrices whose leading columns have signs %s (%s)' % (R, C, case, k), **kd(k))
    for h in S.hs: h.soft = bool(re.search(r'_4_|^qrp_(34|44)', h.name))
