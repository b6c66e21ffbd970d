import re
from specs.lin import *
from specs.c09 import leibniz, sq, kd, FS
from toonvc.terms import rvar

def build(S):
    S.chunk = 3
    S.include('lapack_ref.hh', 'TooN/LU.h', 'TooN/Lapack_Cholesky.h', 'TooN/determinant.h')
    R = T.R
    def solves(n, q, A, o='x', b='b', ld=None):
        def post(c):
            for i in range(n):
                for w in range(q):
                    t = Fraction(0)
                    for j in range(n): t = add(t, mul(A(c)(i, j), R(c.o(o)[j * q + w])))
                    c.eq('row %d of A x = b%s' % (i, ', column %d' % w if q > 1 else ''), t, R(c.a(b)[i * q + w]))
        return post
    def inverse(n, A, o='x'):
        def post(c):
            for i in range(n):
                for j in range(n):
                    t = Fraction(0)
                    for q in range(n): t = add(t, mul(A(c)(i, q), R(c.o(o)[q * n + j])))
                    c.eq('A inverse(A) == 1[%d,%d]' % (i, j), t, Fraction(int(i == j)))
        return post
    # ---------------- LU
    for n in (1, 2, 3):
        for k in ('o', 's', 'sc', 'd', 'dc', 'od', 't', 'hr', 'hc'):
            code, ad = sq(n, k)
            if n == 3 and k not in ('o', 'sc', 'd', 'dc', 'hr'): continue
            dyn = k in ('d', 'dc', 'od')
            cls = 'LU<>' if dyn else 'LU<%d>' % n
            A = lambda c, n=n, ad=ad: (lambda i, j: c.a('p')[ad(i, j)])
            ns = lambda c, A=A, n=n: [lnot(req(leibniz(A(c), n), Fraction(0)))]
            I = [In('p', n * n)]
            kk = dict(pre=ns, opts=FS, **kd('d' if k in ('d', 'dc', 'od', 'hr', 'hc') else 'o'))
            mo = lambda x, nm, n=n: 'Matrix<%d,%d,double,RefR> r%s(%s); r%s=%s;' % (n, n, nm, nm, nm, x)
            for vk, vc in (('s', 'wrapVector<%d>((double*)b)' % n), ('d', 'wrapVector((double*)b,%d)' % n)):
                S.h('lubs_%d_%s%s' % (n, k, vk), I + [In('b', n), Out('x', n), Out('e', 1)], 'TOONVC_NONSINGULAR %s %s lu(m); auto r=lu.backsub(%s); wrapVector<%d>(x)=r; e[0]=lu.determinant();' % (code, cls, vc, n),
                    lambda c, n=n, A=A: (solves(n, 1, A)(c), c.eq('determinant', c.o('e')[0], leibniz(A(c), n))), what='LU::backsub(vector) solves A x = b, %dx%d (%s)' % (n, n, k), **kk)
            for mk_, mc, q in (('s2', 'Matrix<%d,2,double,RefR> B((double*)b);' % n, 2), ('d2', 'Matrix<-1,-1,double,RefR> B((double*)b,%d,2);' % n, 2), ('h2', 'Matrix<%d,-1,double,RefR> B((double*)b,%d,2);' % (n, n), 2), ('s1', 'Matrix<%d,1,double,RefR> B((double*)b);' % n, 1), ('s4', 'Matrix<%d,4,double,RefR> B((double*)b);' % n, 4)):
                if n == 3 and mk_ in ('s1', 's4'): continue
                S.h('lubm_%d_%s%s' % (n, k, mk_), I + [In('b', n * q), Out('x', n * q), Out('s', 2, 'int')], 'TOONVC_NONSINGULAR %s %s %s lu(m); auto r=lu.backsub(B); s[0]=r.num_rows(); s[1]=r.num_cols(); Matrix<%d,%d,double,RefR> rx(x); rx=r;' % (code, mc, cls, n, q),
                    lambda c, n=n, A=A, q=q: (solves(n, q, A)(c), c.all_eq('size', c.o('s')[0:2], [n, q])), what='LU::backsub(matrix) solves A X = B, %dx%d (%s), %s right-hand sides (%s)' % (n, n, k, q, mk_), **dict(kk, **kd('d' if dyn or mk_[0] != 's' or k in ('hr', 'hc') else 'o')))
            S.h('luinv_%d_%s' % (n, k), I + [Out('x', n * n)], 'TOONVC_NONSINGULAR %s %s lu(m); %s' % (code, cls, mo('lu.get_inverse()', 'x')), inverse(n, A), what='LU::get_inverse, %dx%d (%s)' % (n, n, k), **kk)
            # asking for one result must not disturb the next
            if n < 3 or k in 'od': S.h('lutwice_%d_%s' % (n, k), I + [In('b', n), Out('x', n), Out('y', n * n)], 'TOONVC_NONSINGULAR %s %s lu(m); %s lu.backsub(wrapVector<%d>((double*)b)); wrapVector<%d>(x)=lu.backsub(wrapVector<%d>((double*)b));' % (code, cls, mo('lu.get_inverse()', 'y'), n, n, n),
                lambda c, n=n, A=A: solves(n, 1, A)(c), what='LU::backsub after get_inverse and an earlier backsub, %dx%d (%s)' % (n, n, k), **kk)
            if n < 3: S.h('lucomp_%d_%s' % (n, k), I + [In('q', n * n), In('b', n), Out('x', n), Out('e', 1)], '%s %s %s lu(Q); lu.compute(m); wrapVector<%d>(x)=lu.backsub(wrapVector<%d>((double*)b)); e[0]=lu.determinant();' % (code, ('Matrix<-1,-1,double,RefR> Q((double*)q,%d,%d);' if dyn else 'Matrix<%d,%d,double,RefR> Q((double*)q);') % (n, n), cls, n, n),
                lambda c, n=n, A=A: (solves(n, 1, A)(c), c.eq('determinant', c.o('e')[0], leibniz(A(c), n))), what='LU::compute replaces an earlier decomposition, %dx%d (%s)' % (n, n, k), **kk)
            # the determinant needs no precondition
            S.h('ludet_%d_%s' % (n, k), I + [Out('e', 1)], '%s %s lu(m); e[0]=lu.determinant();' % (code, cls), lambda c, n=n, A=A: c.eq('determinant', c.o('e')[0], leibniz(A(c), n)), what='LU::determinant, singular matrices included, %dx%d (%s)' % (n, n, k), **dict(kk, pre=None))
    for n in (2, 3):
        for k in ('o', 'd', 'dc', 'hr'):
            code, ad = sq(n, k)
            for fn in ('determinant', 'determinant_LU'):
                S.h('%s_%d_%s' % ('lapdet' if fn == 'determinant' else 'detlu', n, k), [In('p', n * n), Out('e', 1)], '%s e[0]=%s(m);' % (code, fn), lambda c, n=n, ad=ad: c.eq('determinant', c.o('e')[0], leibniz(lambda i, j: c.a('p')[ad(i, j)], n)), flags=('-DTOON_DETERMINANT_LAPACK=2',), opts=FS, what='%s of the LAPACK configuration, %dx%d (%s)' % (fn, n, n, k), **kd(k))
    Af = lambda c: (lambda i, j: R(c.a('p')[2 * i + j]))
    kf = dict(pre=lambda c: [lnot(req(leibniz(Af(c), 2), Fraction(0)))], f32='exact', opts=FS, kind='static', group=None)
    S.h('lu_float_v', [In('p', 4, 'float'), In('b', 2, 'float'), Out('x', 2, 'float'), Out('e', 1, 'float')], 'TOONVC_NONSINGULAR Matrix<2,2,float,RefR> m((float*)p); LU<2,float> lu(m); wrapVector<2>(x)=lu.backsub(wrapVector<2>((float*)b)); e[0]=lu.determinant();', lambda c: (solves(2, 1, Af)(c), c.eq('determinant', R(c.o('e')[0]), leibniz(Af(c), 2))), what='LU<2,float>::backsub(vector)', **kf)
    S.h('lu_float_m', [In('p', 4, 'float'), In('b', 6, 'float'), Out('x', 6, 'float')], 'TOONVC_NONSINGULAR Matrix<2,2,float,RefR> m((float*)p); LU<2,float> lu(m); Matrix<2,3,float,RefR> B((float*)b), rx(x); rx=lu.backsub(B);', solves(2, 3, Af), what='LU<2,float>::backsub(matrix)', **kf)
    S.h('lu_float_i', [In('p', 4, 'float'), Out('x', 4, 'float')], 'TOONVC_NONSINGULAR Matrix<2,2,float,RefR> m((float*)p); LU<2,float> lu(m); Matrix<2,2,float,RefR> rx(x); rx=lu.get_inverse();', inverse(2, Af), what='LU<2,float>::get_inverse', **kf)
    AB = dict(kind='unbounded', opts=dict(loops=True), group=None, nodiv=True)
    S.h('lu_rect', [Int('r', lo=0), Int('q', lo=0), In('p', lambda z: imul(z['r'], z['q']))], 'LU<> lu(wrapMatrix((double*)p,r,q));', lambda c: None, pre=lambda c: [lnot(ieq(c.r, c.q))], abort=lambda c: lnot(ieq(c.r, c.q)), what='LU of a non-square matrix aborts', **AB)
    S.h('lu_rects', [Int('r', lo=0), Int('q', lo=0), In('p', lambda z: imul(z['r'], z['q']))], 'LU<2> lu(wrapMatrix((double*)p,r,q));', lambda c: None, pre=lambda c: [lor(lnot(ieq(c.r, 2)), lnot(ieq(c.q, 2)))], abort=lambda c: lor(lnot(ieq(c.r, 2)), lnot(ieq(c.q, 2))), what='LU<2> of a matrix of another size aborts', **AB)
    for nm, bt, ar, pr in (('v', 'wrapVector((double*)b,s)', 'In', lambda z: z['s']), ('m', 'Matrix<-1,-1,double,RefR>((double*)b,s,2)', 'In', lambda z: iscale(z['s'], 2))):
        S.h('lu_rhs' + nm, [Int('s', lo=0), In('p', 4), In('b', pr)], 'Matrix<2,2,double,RefR> m((double*)p); LU<2> lu(m); lu.backsub(%s);' % bt, lambda c: None, pre=lambda c: [lnot(ieq(c.s, 2))], abort=lambda c: lnot(ieq(c.s, 2)), what='LU::backsub with a right-hand side of another height aborts', **dict(AB, opts=dict(loops=True, **FS)))
    S.h('lu_comp', [Int('s', lo=0), In('p', 4), In('b', lambda z: imul(z['s'], z['s']))], 'Matrix<-1,-1,double,RefR> m((double*)p,2,2); LU<> lu(m); lu.compute(wrapMatrix((double*)b,s,s));', lambda c: None, pre=lambda c: [lnot(ieq(c.s, 2))], abort=lambda c: lnot(ieq(c.s, 2)), what='LU::compute with a matrix of another size aborts', **dict(AB, opts=dict(loops=True, **FS)))
    # ---------------- Lapack_Cholesky (lower half of the argument)
    for n in (1, 2, 3):
        for k in ('o', 's', 'sc', 'd', 'dc', 't'):
            if n == 3 and k not in ('o', 'sc', 'd'): continue
            code, ad = sq(n, k)
            dyn = k in ('d', 'dc')
            cls = 'Lapack_Cholesky<%d>' % (-1 if dyn else n)
            A = lambda c, ad=ad: (lambda i, j: c.a('p')[ad(max(i, j), min(i, j))])
            # every positive definite matrix is G G^T for one lower triangular G with positive diagonal; the
            # unused half of the argument is arbitrary.  With z < n the first pivot that is not positive is number z.
            def arg(nm, z, n=n, ad=ad):
                g = [[rvar('%sg%d%d' % (nm, i, j)) for j in range(n)] for i in range(n)]
                out = [None] * (n * n)
                for i in range(n):
                    for j in range(n):
                        t = rvar('%su%d%d' % (nm, i, j))
                        if j <= i and j < z:
                            t = Fraction(0)
                            for q in range(j + 1): t = add(t, mul(g[i][q], g[j][q]))
                        elif i == j == z:
                            t = rvar(nm + 'e')
                            for q in range(j): t = add(t, mul(g[i][q], g[i][q]))
                        out[ad(i, j)] = t
                return In(nm, n * n, init=out), [rlt(Fraction(0), g[i][i]) for i in range(z)] + ([rle(rvar(nm + 'e'), Fraction(0))] if z < n else [])
            a_, pre_ = arg('p', n)
            I = [a_]
            kk = dict(pre=lambda c, pre_=pre_: pre_, opts=dict(lazyreal=True, forksel=True, ratsimp=True), **kd('d' if dyn else 'o'))
            mo = lambda x, nm, n=n: 'Matrix<%d,%d,double,RefR> r%s(%s); r%s=%s;' % (n, n, nm, nm, nm, x)
            def pll(c, n=n, A=A):
                L = lambda i, j: c.o('l')[i * n + j]
                for i in range(n):
                    for j in range(n):
                        if j > i: c.eq('L is lower triangular[%d,%d]' % (i, j), L(i, j), Fraction(0)); continue
                        t = Fraction(0)
                        for q in range(j + 1): t = add(t, mul(L(i, q), L(j, q)))
                        c.eq('L L^T == A[%d,%d]' % (i, j), t, A(c)(i, j))
                c.eq('determinant', c.o('e')[0], leibniz(A(c), n))
                c.eq('rank', c.o('k')[0], n)
            outs = 'e[0]=ch.determinant(); k[0]=ch.rank();'
            O = [Out('l', n * n), Out('e', 1), Out('k', 1, 'int')]
            S.h('lc_ll_%d_%s' % (n, k), I + O, '%s %s ch(m); %s %s' % (code, cls, mo('ch.get_L()', 'l'), outs), pll, nodiv=True, what='Lapack_Cholesky of every positive definite %dx%d (%s): L L^T == A, determinant, rank' % (n, n, k), **kk)
            for z in range(n + 1): S.h('lc_comp_%d_%s_%d' % (n, k, z), I + O + [arg('q', z, ad=lambda i, j, n=n: i * n + j)[0]], '%s %s %s ch(Q); ch.compute(m); %s %s' % (code, ('Matrix<-1,-1,double,RefR> Q((double*)q,%d,%d);' if dyn else 'Matrix<%d,%d,double,RefR> Q((double*)q);') % (n, n), cls, mo('ch.get_L()', 'l'), outs), pll, nodiv=True, what='Lapack_Cholesky::compute replaces an earlier decomposition, %dx%d (%s)' % (n, n, k), **dict(kk, pre=lambda c, z=z, pre_=pre_, arg=arg: pre_ + arg('q', z)[1])) if n < 3 else None
            def pm(c, n=n, A=A):
                solves(n, 1, A)(c)
                t = Fraction(0)
                for i in range(n): t = add(t, mul(c.a('b')[i], c.o('x')[i]))
                c.eq('mahalanobis distance', c.o('m2')[0], t)
            for vk, vc in (('s', 'wrapVector<%d>((double*)b)' % n), ('d', 'wrapVector((double*)b,%d)' % n)):
                S.h('lc_bs_%d_%s%s' % (n, k, vk), I + [In('b', n), Out('x', n), Out('m2', 1)], '%s %s ch(m); auto r=ch.backsub(%s); wrapVector<%d>(x)=r; m2[0]=ch.mahalanobis(%s);' % (code, cls, vc, n, vc), pm, nodiv=True, what='Lapack_Cholesky::backsub(vector), mahalanobis, %dx%d (%s)' % (n, n, k), **dict(kk, **kd('d' if dyn or vk == 'd' else 'o')))
            for mk_, mc in (('s', 'Matrix<%d,2,double,RefR> B((double*)b);' % n), ('d', 'Matrix<-1,-1,double,RefR> B((double*)b,%d,2);' % n), ('h', 'Matrix<%d,-1,double,RefR> B((double*)b,%d,2);' % (n, n))):
                S.h('lc_bm_%d_%s%s' % (n, k, mk_), I + [In('b', n * 2), Out('x', n * 2)], '%s %s %s ch(m); auto r=ch.backsub(B); Matrix<%d,2,double,RefR> rx(x); rx=r;' % (code, mc, cls, n), solves(n, 2, A), nodiv=True, what='Lapack_Cholesky::backsub(matrix), %dx%d (%s)' % (n, n, k), **dict(kk, **kd('d' if dyn or mk_ != 's' else 'o')))
            S.h('lc_inv_%d_%s' % (n, k), I + [Out('x', n * n)], '%s %s ch(m); %s' % (code, cls, mo('ch.get_inverse()', 'x')), inverse(n, A), nodiv=True, what='Lapack_Cholesky::get_inverse, %dx%d (%s)' % (n, n, k), **kk)
            for z in range(n):
                az, pz = arg('p', z)
                S.h('lc_rank_%d_%d_%s' % (n, z, k), [az, Out('r', 1, 'int')], '%s %s ch(m); r[0]=ch.rank();' % (code, cls), lambda c, z=z: c.eq('rank', c.o('r')[0], z), nodiv=True, what='Lapack_Cholesky::rank: number of positive pivots before the first that is not', **dict(kk, pre=lambda c, pz=pz: pz))
    for h in S.hs: h.soft = bool(re.search(r'_3_', h.name))
