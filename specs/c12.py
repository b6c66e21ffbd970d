import itertools
import re
from specs.lin import *
from specs.c09 import sq, kd
from toonvc.terms import rvar
Z, ONE = Fraction(0), Fraction(1)

def dotp(a, b):
    t = Z
    for x, y in zip(a, b): t = add(t, mul(x, y))
    return t
def rot(nm, n, flip=False):
    """n x n rotation depending rationally on n(n-1)/2 parameters (all but a null set of them); flip: last row negated"""
    if n == 1: Q = [[ONE]]
    elif n == 2:
        t = rvar(nm + 't'); d = add(ONE, mul(t, t))
        c, s = div(sub(ONE, mul(t, t)), d), div(mul(Fraction(2), t), d)
        Q = [[c, neg(s)], [s, c]]
    elif n == 3:
        a, b, c = rvar(nm + 'a'), rvar(nm + 'b'), rvar(nm + 'c')
        d = add(ONE, add(mul(a, a), add(mul(b, b), mul(c, c))))
        tw = lambda x, y, z, w: div(mul(Fraction(2), add(mul(x, y), mul(z, w))), d)
        aa, bb, cc = mul(a, a), mul(b, b), mul(c, c)
        Q = [[div(sub(add(ONE, aa), add(bb, cc)), d), tw(a, b, neg(c), ONE), tw(a, c, b, ONE)],
             [tw(a, b, c, ONE), div(sub(add(ONE, bb), add(aa, cc)), d), tw(b, c, neg(a), ONE)],
             [tw(a, c, neg(b), ONE), tw(b, c, a, ONE), div(sub(add(ONE, cc), add(aa, bb)), d)]]
    elif n == 4:   # two planar rotations, rows interleaved
        A, B = rot(nm + 'p', 2), rot(nm + 'q', 2)
        Q = [[A[0][0], Z, A[0][1], Z], [Z, B[0][0], Z, B[0][1]], [A[1][0], Z, A[1][1], Z], [Z, B[1][0], Z, B[1][1]]]
    if flip: Q[-1] = [neg(x) for x in Q[-1]]
    return Q
tr = lambda M: [list(r) for r in zip(*M)]
def mmul(A, B): return [[dotp(r, c) for c in zip(*B)] for r in A]
def flat(M): return [x for r in M for x in r]
def place(M, ad):
    out = [None] * (len(M) * len(M[0]))
    for i, r in enumerate(M):
        for j, x in enumerate(r): out[ad(i, j)] = x
    return out
def orthonormal(c, nm, rows):
    for i in range(len(rows)):
        for j in range(i + 1): c.eq('%s orthonormal[%d,%d]' % (nm, i, j), dotp(rows[i], rows[j]), Fraction(int(i == j)))
def rect(m, n, k, p='p', nm='m'):
    rm, cm = (lambda i, j: i * n + j), (lambda i, j: j * m + i)
    return {'o': ('Matrix<%d,%d> %s; %s=Matrix<%d,%d,double,RefR>((double*)%s);' % (m, n, nm, nm, m, n, p), rm), 's': ('Matrix<%d,%d,double,RefR> %s((double*)%s);' % (m, n, nm, p), rm), 'sc': ('Matrix<%d,%d,double,RefC> %s((double*)%s);' % (m, n, nm, p), cm),
            'd': ('Matrix<-1,-1,double,RefR> %s((double*)%s,%d,%d);' % (nm, p, m, n), rm), 'dc': ('Matrix<-1,-1,double,RefC> %s((double*)%s,%d,%d);' % (nm, p, m, n), cm), 'hr': ('Matrix<%d,-1,double,RefR> %s((double*)%s,%d,%d);' % (m, nm, p, m, n), rm)}[k]
RS = dict(lazyreal=True, forksel=True, ratsimp=True)

def build(S):
    S.chunk = 3
    S.include('lapack_ref.hh', 'TooN/SVD.h', 'TooN/SymEigen.h', 'TooN/QR_Lapack.h')
    # ---------------- SVD
    for m, n in ((1, 1), (2, 2), (3, 2), (2, 3), (1, 2), (2, 1), (3, 3), (1, 3), (3, 1)):
        k = min(m, n)
        for fl in ((False, True) if m == n == 2 else (False,)):
            U = [r[:k] for r in rot('u', m, fl)]
            VT = rot('v', n)[:k]
            s = [rvar('s%d' % i) for i in range(k)]
            A = mmul(U, [[mul(s[i], x) for x in VT[i]] for i in range(k)])
            order = [rle(s[i + 1], s[i]) for i in range(k - 1)] + [rle(Z, s[k - 1])]
            for kind, cls in (('o', 'SVD<%d,%d>' % (m, n)), ('sc', 'SVD<%d,%d>' % (m, n)), ('d', 'SVD<>'), ('dc', 'SVD<>'), ('hr', 'SVD<%d,-1>' % m)):
                if (m == 3 or n == 3) and kind in ('sc', 'dc', 'hr') and (m, n) != (3, 2): continue
                if m == n == 3 and kind != 'o': continue
                code, ad = rect(m, n, kind)
                P = [In('p', m * n, init=place(A, ad)), In('gu', m * k, init=flat(U)), In('gs', k, init=s), In('gv', k * n, init=flat(VT))]
                pre = 'TOONVC_GIVEN(gu,gs,gv,0,%d,%d); ' % (m, n) + code
                nm = '%d%d%s_%s' % (m, n, 'f' if fl else '', kind)
                kk = dict(opts=RS, **kd('d' if kind in ('d', 'dc', 'hr') else 'o'))
                def pf(c, m=m, n=n, k=k, A=A, s=s):
                    u = [[c.o('u')[i * k + j] for j in range(k)] for i in range(m)]
                    v = [[c.o('v')[i * n + j] for j in range(n)] for i in range(k)]
                    d = [c.o('d')[i] for i in range(k)]
                    orthonormal(c, 'columns of U', tr(u))
                    orthonormal(c, 'rows of VT', v)
                    for i in range(m):
                        for j in range(n): c.eq('U diag VT == A[%d,%d]' % (i, j), dotp([u[i][q] for q in range(k)], [mul(d[q], v[q][j]) for q in range(k)]), A[i][j])
                    t = ONE
                    for q in range(k):
                        c.eq('singular value %d' % q, d[q], s[q]); t = mul(t, s[q])
                    c.eq('product of the singular values', c.o('e')[0], t)
                O = [Out('u', m * k), Out('v', k * n), Out('d', k), Out('e', 1)]
                tail = 'Matrix<%d,%d,double,RefR> ru(u); ru=svd.get_U(); Matrix<%d,%d,double,RefR> rv(v); rv=svd.get_VT(); wrapVector<%d>(d)=svd.get_diagonal(); e[0]=svd.determinant();' % (m, k, k, n, k)
                S.h('svd_' + nm, P + O, '%s %s svd(m); %s' % (pre, cls, tail), pf, pre=lambda c, order=order: order, what='%s of a %dx%d (%s): U diag VT == A, orthonormal factors' % (cls, m, n, kind), **kk)
                S.h('svdc_' + nm, P + O, '%s %s svd%s; svd.compute(m); %s' % (pre, cls, '(%d,%d)' % (m, n) if kind in ('d', 'dc', 'hr') else '', tail), pf, pre=lambda c, order=order: order, what='%s::compute of a %dx%d (%s) on a fresh object' % (cls, m, n, kind), **kk) if kind in 'od' else None
                if m == n and kind in 'od': S.h('sqsvd_' + nm, P + O, '%s SQSVD<%s,double> svd(m); %s' % (pre, m if kind == 'o' else -1, tail), pf, pre=lambda c, order=order: order, what='SQSVD of a %dx%d (%s)' % (m, n, kind), **kk)
                for r in range(k + 1):
                    cond = lambda cnd, r=r, s=s, k=k, order=order: order + [rlt(s[0], mul(s[i], cnd)) for i in range(r)] + [rle(mul(s[i], cnd), s[0]) for i in range(r, k)]
                    cc = [('dft', '', Fraction(10**9), []), ('par', 'cnd', rvar('cnd'), [Real('cnd')])]
                    for cn, ct, cv, cp in cc:
                        if cn == 'dft' and kind not in 'od': continue
                        pr = lambda c, cond=cond, cv=cv: cond(c.reals['cnd'] if 'cnd' in c.reals else cv) + ([rlt(ONE, c.reals['cnd'])] if 'cnd' in c.reals else [])
                        a = ',' + ct if ct else ''
                        def px(c, r=r, U=U, VT=VT, s=s, m=m, n=n, q=1):
                            for w in range(q):
                                co = [div(dotp([U[i][z] for i in range(m)], [c.a('b')[i * q + w] for i in range(m)]), s[z]) for z in range(r)]
                                for j in range(n): c.eq('pseudo-inverse of rank %d times b[%d%s]' % (r, j, ',%d' % w if q > 1 else ''), c.o('x')[j * q + w], dotp(co, [VT[z][j] for z in range(r)]))
                        for vk, vc in (('s', 'wrapVector<%d>((double*)b)' % m), ('d', 'wrapVector((double*)b,%d)' % m)):
                            if vk == 'd' and kind not in 'od': continue
                            S.h('svdbs_%s_%d%s%s' % (nm, r, cn, vk), P + cp + [In('b', m), Out('x', n), Out('k', 1, 'int')], '%s %s svd(m); auto x_=svd.backsub(%s%s); wrapVector<%d>(x)=x_; k[0]=svd.rank(%s);' % (pre, cls, vc, a, n, ct), lambda c, px=px, r=r: (px(c), c.eq('rank', c.o('k')[0], r)), pre=pr, what='SVD::backsub(vector) and rank when %d of %d singular values are kept, %dx%d (%s)' % (r, k, m, n, kind), **kk)
                        if m == n == 3: continue
                        S.h('svdbm_%s_%d%s' % (nm, r, cn), P + cp + [In('b', m * 2), Out('x', n * 2)], '%s %s svd(m); Matrix<%d,2,double,RefR> B((double*)b), rx(x); rx=svd.backsub(B%s);' % (pre, cls, m, a) if m == n else '%s %s svd(m); Matrix<%d,2,double,RefR> B((double*)b); Matrix<%d,2,double,RefR> rx(x); rx=svd.backsub(B%s);' % (pre, cls, m, n, a), lambda c, px=px: px(c, q=2), pre=pr, what='SVD::backsub(matrix) when %d of %d singular values are kept, %dx%d (%s)' % (r, k, m, n, kind), **kk)
                        def pp(c, r=r, U=U, VT=VT, s=s, m=m, n=n):
                            for i in range(n):
                                for j in range(m): c.eq('pseudo-inverse[%d,%d]' % (i, j), c.o('x')[i * m + j], dotp([div(VT[z][i], s[z]) for z in range(r)], [U[j][z] for z in range(r)]))
                        S.h('svdpi_%s_%d%s' % (nm, r, cn), P + cp + [Out('x', n * m)], '%s %s svd(m); Matrix<%d,%d,double,RefR> rx(x); rx=svd.get_pinv(%s);' % (pre, cls, n, m, ct), pp, pre=pr, what='SVD::get_pinv when %d of %d singular values are kept, %dx%d (%s)' % (r, k, m, n, kind), **kk)
    # ---------------- SymEigen
    for n, kinds in ((1, 'od'), (2, ('o', 's', 'sc', 'd', 'dc')), (3, 'd'), (4, 'o')):
        E = rot('e', n)
        for kind in kinds:
            code, ad = sq(n, kind)
            dyn = kind in ('d', 'dc')
            cls = 'SymEigen<>' if dyn else 'SymEigen<%d>' % n
            kk = dict(opts=RS, **kd('d' if dyn else 'o'))
            closed = n == 2 and not dyn
            def setup(lam, E=E, n=n, ad=ad, code=code):
                A = mmul(tr(E), [[mul(lam[i], x) for x in E[i]] for i in range(n)])
                return A, [In('p', n * n, init=place(A, ad)), In('gu', n * n, init=flat(E)), In('gs', n, init=lam)], 'TOONVC_GIVEN(gu,gs,gu,0,%d,%d); ' % (n, n) + code
            lam = [rvar('l%d' % i) for i in range(n)]
            order = [rle(lam[i], lam[i + 1]) for i in range(n - 1)]
            A, P, pre = setup(lam)
            nm = '%d_%s' % (n, kind)
            def pe(c, n=n, A=A, lam=lam):
                e = [[c.o('u')[i * n + j] for j in range(n)] for i in range(n)]
                orthonormal(c, 'eigenvectors', e)
                for i in range(n): c.eq('eigenvalue %d' % i, c.o('d')[i], lam[i])
                for i in range(n):
                    for j in range(n): c.eq('E^T Lambda E == A[%d,%d]' % (i, j), dotp([e[q][i] for q in range(n)], [mul(c.o('d')[q], e[q][j]) for q in range(n)]), A[i][j])
                t = ONE
                for x in lam: t = mul(t, x)
                c.eq('determinant', c.o('t')[0], t)
            O = [Out('u', n * n), Out('d', n), Out('t', 1)]
            tail = 'Matrix<%d,%d,double,RefR> ru(u); ru=se.get_evectors(); wrapVector<%d>(d)=se.get_evalues(); t[0]=se.get_determinant();' % (n, n, n)
            S.h('sym_' + nm, P + O, '%s %s se(m); %s' % (pre, cls, tail), pe, pre=lambda c, order=order: order, what='%s (%s): eigenvectors orthonormal, E^T Lambda E == A, determinant' % (cls, kind), **kk)
            if kind in 'od': S.h('symc_' + nm, P + O, '%s %s se%s; se.compute(m); %s' % (pre, cls, '(%d)' % n if dyn else '', tail), pe, pre=lambda c, order=order: order, what='%s::compute (%s) on a fresh object' % (cls, kind), **kk)
            # definiteness: every sign pattern of sorted eigenvalues
            for lo in range(n + 1):
                for ze in range(n + 1 - lo):
                    sg = [rlt(lam[i], Z) if i < lo else req(lam[i], Z) if i < lo + ze else rlt(Z, lam[i]) for i in range(n)]
                    S.h('symdef_%s_%d%d' % (nm, lo, ze), P + [Out('f', 2, 'int')], '%s %s se(m); f[0]=se.is_posdef(); f[1]=se.is_negdef();' % (pre, cls), lambda c, lo=lo, ze=ze, n=n: (c.eq('is_posdef', c.o('f')[0], int(lo + ze == 0)), c.eq('is_negdef', c.o('f')[1], int(lo == n))), pre=lambda c, order=order, sg=sg: order + sg, what='%s (%s): definiteness with %d negative and %d zero eigenvalues' % (cls, kind, lo, ze), **kk) if kind in 'od' and n < 4 else None
            # conditioned inverse: keep the eigenvalues for which |l| cond > max(-l_first, l_last)
            for mask in itertools.product((0, 1), repeat=n):
                if n == 4 and mask not in ((1, 1, 1, 1), (1, 0, 0, 1), (0, 0, 0, 0), (1, 0, 1, 1)): continue
                if kind not in 'od' and mask != (1,) * n: continue
                if n == 3 and mask == (0, 1, 0): continue
                zero = not any(mask)
                lz = [Z] * n if zero else lam
                Ak, P, pre = setup(lz)
                def kept(cnd, mask=mask, lam=lam, n=n):
                    if not any(mask): return []
                    out = []
                    ab = lambda x: ite(rlt(x, Z), neg(x), x)
                    for i in range(n):
                        big = lor(land(rlt(Z, lam[i]), rlt(neg(lam[0]), mul(lam[i], cnd)), rlt(lam[-1], mul(lam[i], cnd))), land(rlt(lam[i], Z), rlt(neg(lam[0]), mul(neg(lam[i]), cnd)), rlt(lam[-1], mul(neg(lam[i]), cnd))))
                        out.append(big if mask[i] else lnot(big))
                    return out
                ms = ''.join(map(str, mask))
                S.h('sympi_%s_%s' % (nm, ms), P + [Real('cnd'), Out('x', n * n)], '%s %s se(m); Matrix<%d,%d,double,RefR> rx(x); rx=se.get_pinv(cnd);' % (pre, cls, n, n),
                    lambda c, mask=mask, E=E, lam=lam, n=n: [c.eq('pseudo-inverse[%d,%d]' % (i, j), c.o('x')[i * n + j], dotp([div(E[q][i], lam[q]) for q in range(n) if mask[q]], [E[q][j] for q in range(n) if mask[q]])) for i in range(n) for j in range(n)],
                    pre=lambda c, order=[] if zero else order, kept=kept: order + [rlt(ONE, c.reals['cnd'])] + kept(c.reals['cnd']), what='%s::get_pinv (%s), kept eigenvalues %s' % (cls, kind, ms), **kk)
                for q, vc in ((1, 'wrapVector<%d>(x)=se.backsub(wrapVector<%d>((double*)b));' % (n, n)), (2, 'Matrix<%d,2,double,RefR> B((double*)b), rx(x); rx=se.backsub(B);' % n)):
                    if n == 4 and q == 2: continue
                    def pb(c, mask=mask, E=E, lam=lam, n=n, q=q):
                        for w in range(q):
                            co = [div(dotp(E[z], [c.a('b')[i * q + w] for i in range(n)]), lam[z]) for z in range(n) if mask[z]]
                            for j in range(n): c.eq('conditioned inverse times b[%d%s]' % (j, ',%d' % w if q > 1 else ''), c.o('x')[j * q + w], dotp(co, [E[z][j] for z in range(n) if mask[z]]))
                    S.h('symbs_%s_%s_%d' % (nm, ms, q), P + [In('b', n * q), Out('x', n * q)], '%s %s se(m); %s' % (pre, cls, vc), pb, pre=lambda c, order=[] if zero else order, kept=kept: order + kept(Fraction(10**9)), what='%s::backsub (%s), kept eigenvalues %s' % (cls, kind, ms), **kk)
            # square roots: eigenvalues w^2, w >= 0
            w = [rvar('w%d' % i) for i in range(n)]
            A2, P2, pre2 = setup([mul(x, x) for x in w])
            po = [rle(Z, w[0])] + [rle(w[i], w[i + 1]) for i in range(n - 1)]
            def proot(c, n=n, A2=A2):
                X = [[c.o('x')[i * n + j] for j in range(n)] for i in range(n)]
                for i in range(n):
                    for j in range(n):
                        c.eq('R^T R == A[%d,%d]' % (i, j), dotp([X[q][i] for q in range(n)], [X[q][j] for q in range(n)]), A2[i][j])
                        if j < i: c.eq('symmetric[%d,%d]' % (i, j), X[i][j], X[j][i])
            S.h('symrt_' + nm, P2 + [Out('x', n * n)], '%s %s se(m); Matrix<%d,%d,double,RefR> rx(x); rx=se.get_sqrtm();' % (pre2, cls, n, n), proot, pre=lambda c, po=po: po, nodiv=True, what='%s::get_sqrtm (%s): symmetric square root of every positive semidefinite matrix' % (cls, kind), **kk)
            for z in range(n + 1):
                wz = [Z] * z + w[z:]
                A2, P2, pre2 = setup([mul(x, x) for x in wz])
                po = [rle(wz[i], wz[i + 1]) for i in range(z, n - 1)]
                kp = [rlt(Z, x) for x in wz[z:]] + [rlt(wz[-1], mul(x, Fraction(10**9))) for x in wz[z:]]
                S.h('symirt_%s_%d' % (nm, z), P2 + [Out('x', n * n)], '%s %s se(m); Matrix<%d,%d,double,RefR> rx(x); rx=se.get_isqrtm();' % (pre2, cls, n, n),
                    lambda c, n=n, E=E, w=w, z=z: [c.eq('inverse square root[%d,%d]' % (i, j), c.o('x')[i * n + j], dotp([div(E[q][i], w[q]) for q in range(z, n)], [E[q][j] for q in range(z, n)])) for i in range(n) for j in range(n)], pre=lambda c, po=po, kp=kp: po + kp, nodiv=True, what='%s::get_isqrtm (%s) with %d zero eigenvalues' % (cls, kind, z), **kk)
            for z in range(1, n):
                    kp = [rlt(Z, w[0])] + [rle(w[i], w[i + 1]) for i in range(n - 1)]
                    A2, P2, pre2 = setup([mul(x, x) for x in w])
                    S.h('symirtn_%s_%d' % (nm, z), P2 + [Real('cnd'), Out('x', n * n)], '%s %s se(m); Matrix<%d,%d,double,RefR> rx(x); rx=se.get_isqrtm(cnd);' % (pre2, cls, n, n),
                        lambda c, n=n, E=E, w=w, z=z: [c.eq('inverse square root[%d,%d]' % (i, j), c.o('x')[i * n + j], dotp([div(E[q][i], w[q]) for q in range(z, n)], [E[q][j] for q in range(z, n)])) for i in range(n) for j in range(n)],
                        pre=lambda c, kp=kp, z=z, w=w, n=n: kp + [rlt(ONE, c.reals['cnd'])] + [rle(mul(w[i], c.reals['cnd']), w[-1]) for i in range(z)] + [rlt(w[-1], mul(w[i], c.reals['cnd'])) for i in range(z, n)], nodiv=True, what='%s::get_isqrtm (%s) with %d negligible eigenvalues' % (cls, kind, z), **kk)
    S.h('sym3_zero', [Out('d', 3), Out('u', 9)], 'Matrix<3> m=Zeros; SymEigen<3> se(m); wrapVector<3>(d)=se.get_evalues(); Matrix<3,3,double,RefR> ru(u); ru=se.get_evectors();', lambda c: (c.all_eq('eigenvalue', c.o('d')[0:3], [Z] * 3), orthonormal(c, 'eigenvectors', [c.o('u')[3 * i:3 * i + 3] for i in range(3)])), what='SymEigen<3> of the zero matrix', **ST)
    S.h('sym_rect', [Int('r', lo=0), Int('q', lo=0), In('p', lambda z: imul(z['r'], z['q']))], 'SymEigen<> se(wrapMatrix((double*)p,r,q));', lambda c: None, pre=lambda c: [lnot(ieq(c.r, c.q))], abort=lambda c: lnot(ieq(c.r, c.q)), what='SymEigen of a non-square matrix aborts', kind='unbounded', opts=dict(loops=True), group=None, nodiv=True)
    S.h('sym_comp', [Int('s', lo=0), In('p', lambda z: imul(z['s'], z['s']))], 'SymEigen<> se(3); se.compute(wrapMatrix((double*)p,s,s));', lambda c: None, pre=lambda c: [lnot(ieq(c.s, 3))], abort=lambda c: lnot(ieq(c.s, 3)), what='SymEigen::compute with a matrix of another size aborts', kind='unbounded', opts=dict(loops=True), group=None, nodiv=True)
    # ---------------- QR_Lapack (at least as many columns as rows)
    for m, n in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3)):
        Q = rot('q', m)
        Rm = [[rvar('r%d%d' % (i, j)) if j >= i else Z for j in range(n)] for i in range(m)]
        AP = mmul(Q, Rm)
        for perm in itertools.permutations(range(n)):
            A = [[None] * n for i in range(m)]
            for j, pj in enumerate(perm):
                for i in range(m): A[i][pj] = AP[i][j]
            for kind, cls in (('o', 'QR_Lapack<%d,%d>' % (m, n)), ('sc', 'QR_Lapack<%d,%d>' % (m, n)), ('d', 'QR_Lapack<>')):
                if (m == 3 or kind == 'sc') and perm not in (tuple(range(n)), tuple((i + 1) % n for i in range(n))): continue
                code, ad = rect(m, n, kind)
                for piv in (0, 1):
                    if not piv and perm != tuple(range(n)): continue
                    def at_(row, x):
                        t = row[-1]
                        for z in range(len(row) - 1): t = ite(ieq(x, z), row[z], t)
                        return t
                    def pq(c, m=m, n=n, A=A, at_=at_):
                        q = [[c.o('q')[i * m + j] for j in range(m)] for i in range(m)]
                        r = [[c.o('r')[i * n + j] for j in range(n)] for i in range(m)]
                        pv = [c.o('v')[j] for j in range(n)]
                        orthonormal(c, 'columns of Q', tr(q))
                        for i in range(m):
                            for j in range(n):
                                if j < i: c.eq('R is upper triangular[%d,%d]' % (i, j), r[i][j], Z)
                                c.eq('Q R == A P[%d,%d]' % (i, j), dotp(q[i], [r[z][j] for z in range(m)]), at_(A[i], pv[j]))
                    S.h('qrl_%d%d_%s_%s%d' % (m, n, kind, ''.join(map(str, perm)), piv), [In('p', m * n, init=place(A, ad)), In('gq', m * m, init=flat(Q)), In('gr', m * n, init=flat(Rm)), In('gp', n, 'int', init=list(perm)), Out('q', m * m), Out('r', m * n), Out('v', n, 'int')],
                        'TOONVC_GIVEN(gq,0,gr,gp,%d,%d); %s %s d(m%s); Matrix<%d,%d,double,RefR> rq(q); rq=d.get_Q(); Matrix<%d,%d,double,RefR> rr(r); rr=d.get_R(); Vector<%s,int> pp(d.get_P()); for(int i=0;i<%d;i++) v[i]=pp[i];' % (m, n, code, cls, ',true' if piv else '', m, m, m, n, -1 if kind == 'd' else n, n), pq, what='%s (%s) %s: Q orthogonal, R upper triangular, Q R == A P' % (cls, kind, 'with pivoting, permutation %s' % (perm,) if piv else 'without pivoting'), opts=RS, **kd(kind))
    for h in S.hs: h.soft = bool(re.search(r'_4_|_3_|_33', h.name))
