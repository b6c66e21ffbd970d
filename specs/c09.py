import itertools
import re
from specs.lin import *

def leibniz(A, n):
    t = Fraction(0)
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]: s = -s
        x = Fraction(s)
        for i in range(n): x = mul(x, A(i, p[i]))
        t = add(t, x)
    return t


def sq(n, k, ty='double', p='p', m='m'):
    """declaration of an n x n operand of storage kind k, and the address of element (i,j)"""
    a = dict(n=n, ty=ty, p=p, m=m)
    rm, cm = (lambda i, j: i * n + j), (lambda i, j: j * n + i)
    return {'o': ('Matrix<{n},{n},{ty}>& {m}=*(Matrix<{n},{n},{ty}>*){p};' if n > 1 else 'Matrix<{n},{n},{ty}> {m}=Matrix<{n},{n},{ty},RefR>(({ty}*){p});', rm), 'oc': ('Matrix<{n},{n},{ty},ColMajor>& {m}=*(Matrix<{n},{n},{ty},ColMajor>*){p};', cm),
            's': ('Matrix<{n},{n},{ty},RefR> {m}(({ty}*){p});', rm), 'sc': ('Matrix<{n},{n},{ty},RefC> {m}(({ty}*){p});', cm),
            'd': ('Matrix<-1,-1,{ty},RefR> {m}(({ty}*){p},{n},{n});', rm), 'dc': ('Matrix<-1,-1,{ty},RefC> {m}(({ty}*){p},{n},{n});', cm),
            'od': ('Matrix<> {m}({n},{n}); {m}=Matrix<-1,-1,{ty},RefR>(({ty}*){p},{n},{n});', rm),
            'hr': ('Matrix<{n},-1,{ty},RefR> {m}(({ty}*){p},{n},{n});', rm), 'hc': ('Matrix<-1,{n},{ty},RefR> {m}(({ty}*){p},{n},{n});', rm),
            't': ('Matrix<{n},{n},{ty},RefR> b{m}(({ty}*){p}); auto {m}=b{m}.T();', cm)}[k][0].format(**a), {'o': rm, 'oc': cm, 's': rm, 'sc': cm, 'd': rm, 'dc': cm, 'od': rm, 'hr': rm, 'hc': rm, 't': cm}[k]
FS = dict(forksel=True, lazyreal=True)
RUNTIME = ('d', 'dc', 'od', 'hr', 'hc')
def kd(k): return dict(kind='bounded' if k in RUNTIME else 'static', group=None)

def build(S):
    S.chunk = 4
    S.include('TooN/determinant.h', 'TooN/gaussian_elimination.h', 'TooN/gauss_jordan.h')
    for n in (1, 2, 3, 4):
        for k in ('o', 's', 'sc', 'd', 'dc', 'od', 'hr', 'hc', 't') + (('oc',) if n > 1 else ()):
            if n == 4 and k not in ('o', 'dc', 'd'): continue
            for fn in ('determinant', 'determinant_gaussian_elimination'):
                if fn[11:] and (n == 4 or k not in ('o', 'd')): continue
                code, ad = sq(n, k)
                S.h('%s_%d_%s' % ('det' if not fn[11:] else 'dge', n, k), [In('p', n * n), Out('o', 1)], '%s o[0]=%s(m);' % (code, fn),
                    lambda c, n=n, ad=ad: c.eq('determinant', c.o('o')[0], leibniz(lambda i, j: c.a('p')[ad(i, j)], n)), opts=FS, what='%s(%s) == sum over permutations, %dx%d' % (fn, k, n, n), **kd(k))
    nonsing = lambda n, ad: (lambda c: [lnot(req(leibniz(lambda i, j: c.a('p')[ad(i, j)], n), Fraction(0)))])
    S.h('det_float', [In('p', 9, 'float'), Out('o', 1, 'float')], 'o[0]=determinant(*(Matrix<3,3,float>*)p);', lambda c: c.eq('determinant', T.R(c.o('o')[0]), leibniz(lambda i, j: T.R(c.a('p')[3 * i + j]), 3)), f32='exact', opts=FS, what='determinant of a float matrix', **ST)
    for nm, ty, R, C in (('dyn', 'Matrix<-1,-1,double,RefR>', 'r', 'q'), ('hr', 'Matrix<3,-1,double,RefR>', 3, 'q'), ('hc', 'Matrix<-1,3,double,RefR>', 'r', 3)):
        for fn in ('determinant', 'determinant_gaussian_elimination'):
            S.h('%s_rect_%s' % (fn[:4] + ('g' if fn[11:] else ''), nm), [Int('r', R if isinstance(R, int) else None, lo=0), Int('q', C if isinstance(C, int) else None, lo=0), In('p', lambda z: imul(z['r'], z['q'])), Out('o', 1)], '%s m((double*)p,r,q); o[0]=%s(m);' % (ty, fn), lambda c: None,
                pre=lambda c: [lnot(ieq(c.r, c.q))], abort=lambda c: lnot(ieq(c.r, c.q)), what='%s of a non-square matrix aborts' % fn, kind='unbounded', opts=dict(loops=True), group=None)
    # ---------------- gaussian_elimination
    def solves(n, q=1, one=True):
        def post(c):
            for i in range(n):
                for k in range(q):
                    t = Fraction(0)
                    for j in range(n): t = add(t, mul(T.R(c.a('p')[n * i + j]), T.R(c.o('o')[j * q + k])))
                    c.eq('row %d of A x = b%s' % (i, '' if one else ', column %d' % k), t, T.R(c.a('b')[i * q + k]))
        return post
    rmad = lambda n: (lambda i, j: i * n + j)
    nsf = lambda n: (lambda c: [lnot(req(leibniz(lambda i, j: T.R(c.a('p')[n * i + j]), n), Fraction(0)))])
    for n in (1, 2, 3, 4):
        S.h('ge_v_%d' % n, [In('p', n * n), In('b', n), Out('o', n)], 'Matrix<%d> m=Matrix<%d,%d,double,RefR>((double*)p); Vector<%d> v=wrapVector<%d>(b); wrapVector<%d>(o)=gaussian_elimination(m,v);' % ((n,) * 6), solves(n), pre=nsf(n), opts=FS, what='gaussian_elimination(Matrix<%d>,Vector<%d>) solves A x = b for every nonsingular A' % (n, n), **ST)
        S.h('ge_vd_%d' % n, [In('p', n * n), In('b', n), Out('o', n), Out('s', 1, 'int')], 'Matrix<> m(%d,%d); m=wrapMatrix((double*)p,%d,%d); Vector<> v(wrapVector((double*)b,%d)); Vector<> x=gaussian_elimination(m,v); s[0]=x.size(); wrapVector<%d>(o)=x;' % ((n,) * 6), lambda c, n=n: (solves(n)(c), c.eq('size', c.o('s')[0], n)), pre=nsf(n), opts=FS, what='gaussian_elimination, run-time size %d' % n, **kd('d'))
        for q, nm_ in (((2 if n < 4 else 1), ''), (1, '_1'), (n + 2, '_w')):
         if nm_ and n == 4: continue
         for nm, (mt, bt) in {'ss': ('Matrix<%d> m=Matrix<%d,%d,double,RefR>((double*)p);' % (n, n, n), 'Matrix<%d,%d> v=Matrix<%d,%d,double,RefR>((double*)b);' % (n, q, n, q)), 'dd': ('Matrix<> m(%d,%d); m=Matrix<%d,%d,double,RefR>((double*)p);' % ((n,) * 4), 'Matrix<> v(%d,%d); v=Matrix<%d,%d,double,RefR>((double*)b);' % (n, q, n, q)),
                                  'sd': ('Matrix<%d> m=Matrix<%d,%d,double,RefR>((double*)p);' % (n, n, n), 'Matrix<> v(%d,%d); v=Matrix<%d,%d,double,RefR>((double*)b);' % (n, q, n, q)), 'ds': ('Matrix<> m(%d,%d); m=Matrix<%d,%d,double,RefR>((double*)p);' % ((n,) * 4), 'Matrix<%d,%d> v=Matrix<%d,%d,double,RefR>((double*)b);' % (n, q, n, q)),
                                  'sh': ('Matrix<%d> m=Matrix<%d,%d,double,RefR>((double*)p);' % (n, n, n), 'Matrix<%d,-1> v(%d,%d); v=Matrix<%d,%d,double,RefR>((double*)b);' % (n, n, q, n, q)),
                                  'hs': ('Matrix<%d> m=Matrix<%d,%d,double,RefR>((double*)p);' % (n, n, n), 'Matrix<-1,%d> v(%d,%d); v=Matrix<%d,%d,double,RefR>((double*)b);' % (q, n, q, n, q))}.items():
            S.h('ge_m%s_%d%s' % (nm, n, nm_), [In('p', n * n), In('b', n * q), Out('o', n * q), Out('s', 2, 'int')], '%s %s auto x=gaussian_elimination(m,v); s[0]=x.num_rows(); s[1]=x.num_cols(); Matrix<%d,%d,double,RefR> r(o); r=x;' % (mt, bt, n, q), lambda c, n=n, q=q: (solves(n, q, False)(c), c.all_eq('size', c.o('s')[0:2], [n, q])), pre=nsf(n), opts=FS, what='gaussian_elimination, matrix right-hand side %dx%d (%s)' % (n, q, nm), **kd('o' if nm == 'ss' else 'd'))
    S.h('ge_f', [In('p', 9, 'float'), In('b', 3, 'float'), Out('o', 3, 'float')], 'Matrix<3,3,float> m=*(Matrix<3,3,float>*)p; Vector<3,float> v=wrapVector<3>(b); wrapVector<3>(o)=gaussian_elimination(m,v);', solves(3), pre=nsf(3), opts=FS, f32='exact', what='gaussian_elimination of floats', **ST)
    # ---------------- gauss_jordan
    for n, q in ((1, 1), (2, 2), (3, 3), (3, 1), (2, 0), (4, 2)):
        w = n + q
        def pj(c, n=n, q=q, ad=None):
            for i in range(n):
                for j in range(n): c.eq('left block is the identity[%d,%d]' % (i, j), c.o('p')[ad(i, j)], Fraction(int(i == j)))
            for i in range(n):
                for k in range(q):
                    t = Fraction(0)
                    for j in range(n): t = add(t, mul(c.a('p')[ad(i, j)], c.o('p')[ad(j, n + k)]))
                    c.eq('row %d of A X = B, column %d' % (i, k), t, c.a('p')[ad(i, n + k)])
        rm, cm = (lambda i, j, w=w: i * w + j), (lambda i, j, n=n: j * n + i)
        for k, code, ad in (('s', 'Matrix<%d,%d,double,RefR> m(p);' % (n, w), rm), ('o', 'Matrix<%d,%d>& m=*(Matrix<%d,%d>*)p;' % (n, w, n, w), rm), ('sc', 'Matrix<%d,%d,double,RefC> m(p);' % (n, w), cm), ('d', 'Matrix<-1,-1,double,RefR> m(p,%d,%d);' % (n, w), rm), ('hr', 'Matrix<%d,-1,double,RefR> m(p,%d,%d);' % (n, n, w), rm), ('hc', 'Matrix<-1,%d,double,RefR> m(p,%d,%d);' % (w, n, w), rm)):
            if n == 4 and k not in 'sd': continue
            if k == 'o' and n * w % 2: continue
            S.h('gj_%d_%d_%s' % (n, q, k), [InOut('p', n * w)], '%s gauss_jordan(m);' % code, lambda c, pj=pj, ad=ad: pj(c, ad=ad), pre=lambda c, n=n, ad=ad: [lnot(req(leibniz(lambda i, j: c.a('p')[ad(i, j)], n), Fraction(0)))], opts=FS, what='gauss_jordan reduces [A|B] to [I|inverse(A) B], %dx%d (%s)' % (n, w, k), **kd(k))
    AB = dict(kind='unbounded', opts=dict(loops=True), group=None, nodiv=True)
    S.h('ge_size_v', [Int('r', lo=0), Int('q', lo=0), Int('s', lo=0), In('p', lambda z: imul(z['r'], z['q'])), In('b', lambda z: z['s'])], 'Matrix<> m(wrapMatrix((double*)p,r,q)); Vector<> v(wrapVector((double*)b,s)); gaussian_elimination(m,v);', lambda c: None, pre=lambda c: [lor(lnot(ieq(c.r, c.q)), lnot(ieq(c.r, c.s)))], abort=lambda c: lor(lnot(ieq(c.r, c.q)), lnot(ieq(c.r, c.s))), what='gaussian_elimination(Matrix,Vector) with inconsistent sizes aborts', **AB)
    for nm, mt, R, C in (('d', 'Matrix<> m(wrapMatrix((double*)p,r,q));', None, None), ('s', 'Matrix<2> m(*(Matrix<2>*)p);', 2, 2)):
        S.h('ge_size_m' + nm, [Int('r', R, lo=0), Int('q', C, lo=0), Int('s', lo=0), Int('w', lo=0), In('p', lambda z: imul(z['r'], z['q'])), In('b', lambda z: imul(z['s'], z['w']))], '%s Matrix<> v(wrapMatrix((double*)b,s,w)); gaussian_elimination(m,v);' % mt, lambda c: None, pre=lambda c: [lor(lnot(ieq(c.r, c.q)), lnot(ieq(c.r, c.s)))], abort=lambda c: lor(lnot(ieq(c.r, c.q)), lnot(ieq(c.r, c.s))), what='gaussian_elimination(Matrix,Matrix) with inconsistent sizes aborts', **AB)
    for h in S.hs: h.soft = bool(re.search(r'_4(_|$)', h.name))
