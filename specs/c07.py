from specs.lin import *
from specs.c03 import mdst
from toonvc.terms import NAN, INF

def build(S):
    S.chunk = 6
    S.include('TooN/helpers.h', 'limits')
    V, M = ('n',), ('R', 'C')
    kinds = ['d', 's', 'o', 'c', 'l']
    for k in kinds:
        v = vec('x', k)
        nn = lambda c, v=v: v.dims[0](c.ints)
        sq = lambda c, v=v: c.sum(0, v.dims[0](c.ints), lambda i: mul(T.R(v.inp(c, i)), T.R(v.inp(c, i))))
        harness(S, 'norm_' + k, [(v, V)], ['n'], 'o[0]=norm(x); o[1]=norm_2(x); o[2]=norm_sq(x); o[3]=norm_1(x);',
                lambda c, v=v, sq=sq: (c.eq('norm', c.o('o')[0], T.sqrt(sq(c))), c.eq('norm_2', c.o('o')[1], T.sqrt(sq(c))), c.eq('norm_sq', c.o('o')[2], sq(c)), c.eq('norm_1', c.o('o')[3], c.sum(0, v.dims[0](c.ints), lambda i: T.rabs(T.R(v.inp(c, i)))))), [Out('o', 4)], nodiv=True)
        def pinf(c, v=v):
            n = v.dims[0](c.ints)
            i = c.ghost('i', 0, n)
            c.hold('norm_inf bounds every element', rle(T.rabs(T.R(v.inp(c, i))), c.o('o')[0]))
            c.exists('norm_inf is attained', 0, n, lambda j: req(c.o('o')[0], T.rabs(T.R(v.inp(c, j)))))
        harness(S, 'ninf_' + k, [(v, V)], ['n'], 'o[0]=norm_inf(x);', pinf, [Out('o', 1)], pre=lambda c: [ile(1, c.ints['n'])])
        def pu(c, v=v, sq=sq):
            i = c.ghost('i', 0, v.dims[0](c.ints)); c.eq('unit vector element', c.o('o')[i], div(T.R(v.inp(c, i)), T.sqrt(sq(c))))
        harness(S, 'unit_' + k, [(v, V)], ['n'], 'auto u=unit(x); for(int i=0;i<x.size();i++) o[i]=u[i];', pu, [Out('o', v.dims[0])], nodiv=True)
        if k != 'o':
            w = vec('x', k, 'inout')
            def pn(c, w=w):
                i = c.ghost('i', 0, w.dims[0](c.ints))
                s = c.sum(0, w.dims[0](c.ints), lambda j: mul(T.R(w.inp(c, j)), T.R(w.inp(c, j))))
                c.eq('normalised element', w.out(c, i), div(w.inp(c, i), T.sqrt(s)))
            harness(S, 'normalize_' + k, [(w, V)], ['n'], 'normalize(x.slice(0,x.size()));' if k not in 'sl' else 'normalize(std::move(x));', pn, nodiv=True)
    S.h('normalize_own', [InOut('p', 4)], 'Vector<4>& v=*(Vector<4>*)p; normalize(v);', lambda c: c.all_eq('element', c.o('p')[0:4], [div(x, T.sqrt(c.sum(0, 4, lambda k: mul(c.a('p')[k], c.a('p')[k])))) for x in c.a('p')[0:4]]), what='normalize(Vector<4>&)', nodiv=True, **ST)
    S.h('normalize_dyn', [Int('n', lo=0), In('p', lambda z: z['n']), Out('o', lambda z: z['n'])], 'Vector<> v(wrapVector(p,n)); normalize(v); for(int i=0;i<n;i++) o[i]=v[i];',
        lambda c: (lambda i: c.eq('element', c.o('o')[i], div(c.a('p')[i], T.sqrt(c.sum(0, c.n, lambda k: mul(c.a('p')[k], c.a('p')[k]))))))(c.ghost('i', 0, c.n)), what='normalize(Vector<>&)', nodiv=True, **U)
    for ty in ('float', 'int'):
        v = vec('x', 'd', ty=ty)
        harness(S, 'norm_t' + ty[0], [(v, V)], ['n'], 'o[0]=norm_sq(x); o[1]=norm_1(x);', lambda c, v=v: (c.eq('norm_sq', T.R(c.o('o')[0]), c.sum(0, c.n, lambda i: mul(T.R(v.inp(c, i)), T.R(v.inp(c, i))))), c.eq('norm_1', T.R(c.o('o')[1]), c.sum(0, c.n, lambda i: T.rabs(T.R(v.inp(c, i)))))), [Out('o', 2, ty)], f32='exact') if ty == 'float' else None
    S.h('unit_identity', [In('p', 3), Out('o', 1)], 'o[0]=norm(unit(*(Vector<3>*)p));', lambda c: c.eq('unit vectors have length one', c.o('o')[0], Fraction(1)), pre=lambda c: [rlt(Fraction(0), c.a('p')[0])], what='norm(unit(v)) == 1', nodiv=True, **ST)
    # ---------------- matrix norms
    for k in ('d', 'dc', 's', 'sc', 'o', 'sub', 't', 'hr', 'hc'):
        m = mat('m', k)
        def pf(c, m=m):
            c.eq('Frobenius norm', c.o('o')[0], T.sqrt(c.sum(0, m.dims[0](c.ints), lambda i: c.sum(0, m.dims[1](c.ints), lambda j: mul(m.inp(c, i, j), m.inp(c, i, j))))))
        harness(S, 'fro_' + k, [(m, M)], ['R', 'C'], 'o[0]=norm_fro(m);', pf, [Out('o', 1)], nodiv=True)
        for nm, dim in (('norm_inf', 0), ('norm_1', 1)):
            def pm(c, m=m, dim=dim, nm=nm):
                n, w = m.dims[dim](c.ints), m.dims[1 - dim](c.ints)
                tot = lambda i: c.sum(0, w, lambda j: T.rabs(m.inp(c, i, j) if dim == 0 else m.inp(c, j, i)))
                i = c.ghost('i', 0, n)
                c.hold('%s bounds every %s sum' % (nm, 'row' if dim == 0 else 'column'), rle(tot(i), c.o('o')[0]))
                for _ in c.due(ile(1, n)): c.exists('%s is attained' % nm, 0, n, lambda i: req(c.o('o')[0], tot(i)))
            harness(S, '%s_%s' % (nm, k), [(m, M)], ['R', 'C'], 'o[0]=%s(m);' % nm, pm, [Out('o', 1)])
        tr = mat('m', k, R='n', C='n', sr=3, sc=3)
        harness(S, 'trace_' + k, [(tr, ('n', 'n'))], ['n'], 'o[0]=trace(m);', lambda c, tr=tr: c.eq('trace', c.o('o')[0], c.sum(0, tr.dims[0](c.ints), lambda i: tr.inp(c, i, i))), [Out('o', 1)]) if k != 'sub' else None
        if k in ('d', 'dc', 's', 'sc', 't'):
            ms = mat('m', k, 'inout', R='n', C='n', sr=3, sc=3)
            def psy(c, ms=ms):
                n = ms.dims[0](c.ints)
                i, j = c.ghost('i', 0, n), c.ghost('j', 0, n)
                c.eq('element is the mean of the mirrored pair', ms.out(c, i, j), div(add(ms.inp(c, i, j), ms.inp(c, j, i)), Fraction(2)))
            harness(S, 'sym_' + k, [(ms, ('n', 'n'))], ['n'], 'Symmetrize(m);', psy)
    S.h('trace_rect', [Int('R', lo=0), Int('C', lo=0), In('p', lambda z: imul(z['R'], z['C'])), Out('o', 1)], 'o[0]=trace(wrapMatrix((double*)p,R,C));', lambda c: None, abort=lambda c: lnot(ieq(c.R, c.C)), what='trace of a non-square matrix aborts', **U)
    S.h('sym_rect', [Int('R', lo=0), Int('C', lo=0), InOut('p', lambda z: imul(z['R'], z['C']))], 'auto m=wrapMatrix(p,R,C); Symmetrize(m);', lambda c: None, abort=lambda c: lnot(ieq(c.R, c.C)), what='Symmetrize of a non-square matrix aborts', **U)
    # ---------------- projective helpers
    for k in ('d', 's', 'c', 'l', 'o'):
        v = vec('x', k)
        def pp(c, v=v):
            n = v.dims[0](c.ints)
            i = c.ghost('i', 0, isub(n, 1)); c.eq('project divides by the last element', c.o('o')[i], div(v.inp(c, i), v.inp(c, isub(n, 1)))); c.eq('size', c.o('s')[0], T.R(isub(n, 1)))
        harness(S, 'project_' + k, [(v, V)], ['n'], 'auto u=project(x); s[0]=u.size(); for(int i=0;i<x.size()-1;i++) o[i]=u[i];', pp, [Out('o', lambda z, v=v: isub(v.dims[0](z), 1)), Out('s', 1)], pre=lambda c: [ile(1, c.ints['n'])], nodiv=True)
        def pq(c, v=v):
            n = v.dims[0](c.ints)
            i = c.ghost('i', 0, n); c.eq('unproject keeps the elements', c.o('o')[i], v.inp(c, i)); c.eq('and appends a one', c.o('o')[n], Fraction(1)); c.eq('size', c.o('s')[0], T.R(iadd(n, 1)))
        harness(S, 'unproject_' + k, [(v, V)], ['n'], 'auto u=unproject(x); s[0]=u.size(); for(int i=0;i<x.size()+1;i++) o[i]=u[i];', pq, [Out('o', lambda z, v=v: iadd(v.dims[0](z), 1)), Out('s', 1)])
    for k in ('d', 'dc', 's', 'sc', 'o', 'hr', 'hc', 'sub', 't'):
        m = mat('m', k, sr=3, sc=4)
        def pp(c, m=m):
            R, C = m.dims[0](c.ints), m.dims[1](c.ints)
            i, j = c.ghost('i', 0, isub(R, 1)), c.ghost('j', 0, C); c.eq('project divides columns by the last row', c.o('o')[iadd(imul(i, C), j)], div(m.inp(c, i, j), m.inp(c, isub(R, 1), j)))
            c.all_eq('size', c.o('s')[0:2], [T.R(isub(R, 1)), T.R(C)])
        pre = (lambda c: [ile(1, c.ints['R'])])
        harness(S, 'projm_' + k, [(m, M)], ['R', 'C'], 'auto u=project(m); s[0]=u.num_rows(); s[1]=u.num_cols(); for(int i=0;i<m.num_rows()-1;i++) for(int j=0;j<m.num_cols();j++) o[i*m.num_cols()+j]=u[i][j];', pp, [Out('o', lambda z, m=m: imul(isub(m.dims[0](z), 1), m.dims[1](z))), Out('s', 2)], pre=pre, nodiv=True)
        def pq(c, m=m):
            R, C = m.dims[0](c.ints), m.dims[1](c.ints)
            i, j = c.ghost('i', 0, R), c.ghost('j', 0, C)
            c.eq('unproject keeps the elements', c.o('o')[iadd(imul(i, C), j)], m.inp(c, i, j)); c.eq('and appends a row of ones', c.o('o')[iadd(imul(R, C), j)], Fraction(1)); c.all_eq('size', c.o('s')[0:2], [T.R(iadd(R, 1)), T.R(C)])
        if k != 'hr': harness(S, 'unprojm_' + k, [(m, M)], ['R', 'C'], 'auto u=unproject(m); s[0]=u.num_rows(); s[1]=u.num_cols(); for(int i=0;i<m.num_rows()+1;i++) for(int j=0;j<m.num_cols();j++) o[i*m.num_cols()+j]=u[i][j];', pq, [Out('o', lambda z, m=m: imul(iadd(m.dims[0](z), 1), m.dims[1](z))), Out('s', 2)])
    # ---------------- 2x2 inverse, cross product matrix
    S.h('inv2', [In('p', 4), Out('o', 4), Out('q', 4)], 'Matrix<2> m=wrapMatrix<2,2>(p); Matrix<2> r=inv(m); wrapMatrix<2,2>(o)=m*r; wrapMatrix<2,2>(q)=r*m;', lambda c: (c.all_eq('m*inv(m)', c.o('o')[0:4], [Fraction(x) for x in (1, 0, 0, 1)]), c.all_eq('inv(m)*m', c.o('q')[0:4], [Fraction(x) for x in (1, 0, 0, 1)])), pre=lambda c: [lnot(req(sub(mul(c.a('p')[0], c.a('p')[3]), mul(c.a('p')[1], c.a('p')[2])), Fraction(0)))], what='inverse of a nonsingular 2x2 matrix', **ST)
    def pcr(c):
        a, b = c.a('p')[0:3], c.a('q')[0:3]
        c.all_eq('equals the cross product', c.o('o')[0:3], [sub(mul(a[(k + 1) % 3], b[(k + 2) % 3]), mul(a[(k + 2) % 3], b[(k + 1) % 3])) for k in range(3)])
        z = Fraction(0)
        c.all_eq('skew-symmetric matrix', c.o('m')[0:9], [z, neg(a[2]), a[1], a[2], z, neg(a[0]), neg(a[1]), a[0], z])
    for nm, e in (('s', 'wrapVector<3>((double*)p)'), ('o', '(*(Vector<3>*)p)'), ('d', 'wrapVector((double*)p,3)'), ('sl', 'wrapVector((double*)p,3).slice<0,3>()')):
        S.h('cpm_' + nm, [In('p', 3), In('q', 3), Out('o', 3), Out('m', 9)], 'auto M=cross_product_matrix(%s); wrapMatrix<3,3>(m)=M; wrapVector<3>(o)=M*wrapVector<3>(q);' % e, pcr, what='cross_product_matrix(a)*b == a^b', **ST)
    S.h('cpm_size', [Int('n', lo=0), In('p', lambda z: z['n']), Out('m', 9)], 'wrapMatrix<3,3>(m)=cross_product_matrix(wrapVector((double*)p,n));', lambda c: None, abort=lambda c: lnot(ieq(c.n, 3)), what='cross_product_matrix needs three elements', **U)
    # ---------------- predicates on special values
    for n in (1, 3):
        for bad, val in (('nan', 'std::numeric_limits<double>::quiet_NaN()'), ('inf', 'std::numeric_limits<double>::infinity()'), ('ninf', '-std::numeric_limits<double>::infinity()')):
            for at in range(n):
                S.h('sp_%s_%d_%d' % (bad, n, at), [In('p', n), Out('o', 2, 'int')], 'Vector<%d> v=wrapVector<%d>(p); v[%d]=%s; o[0]=TooN::isnan(v); o[1]=TooN::isfinite(v);' % (n, n, at, val), lambda c, bad=bad: (c.eq('isnan', c.o('o')[0], int(bad == 'nan')), c.eq('isfinite', c.o('o')[1], 0)), what='isnan/isfinite with element %d = %s' % (at, bad), **ST)
                S.h('spm_%s_%d_%d' % (bad, n, at), [In('p', 2 * n), Out('o', 1, 'int')], 'Matrix<2,%d> v=wrapMatrix<2,%d>(p); v[%d][%d]=%s; o[0]=TooN::isnan(v);' % (n, n, at % 2, at, val), lambda c, bad=bad: c.eq('isnan', c.o('o')[0], int(bad == 'nan')), what='isnan of a matrix with one element %s' % bad, **ST)
    for R in range(1, 6):
        for C in range(1, 5):
            for k, decl in (('s', 'Matrix<%d,%d,double,RefR> v(p);' % (R, C)), ('d', 'Matrix<-1,-1,double,RefR> v(p,%d,%d);' % (R, C)), ('hr', 'Matrix<%d,-1,double,RefC> v(p,%d,%d);' % (R, R, C)), ('hc', 'Matrix<-1,%d,double,RefC> v(p,%d,%d);' % (C, R, C))):
                S.h('spg_%s_%d_%d' % (k, R, C), [InOut('p', R * C), Out('o', R * C, 'int')], decl + ''.join(' v(%d,%d)=std::numeric_limits<double>::quiet_NaN(); o[%d]=TooN::isnan(v); v(%d,%d)=1;' % (at // C, at % C, at, at // C, at % C) for at in range(R * C)), lambda c, n=R * C: [c.eq('isnan with the NaN at element %d' % i, c.o('o')[i], 1) for i in range(n)], what='isnan of a matrix (%s) with one NaN element anywhere' % k, kind='static' if k == 's' else 'bounded', group=None)
    S.h('sp_none', [Int('n', lo=0), In('p', lambda z: z['n']), Out('o', 2, 'int')], 'auto v=wrapVector(p,n); o[0]=TooN::isnan(v); o[1]=TooN::isfinite(v);', lambda c: (c.eq('isnan', c.o('o')[0], 0), c.eq('isfinite', c.o('o')[1], 1)), what='finite vectors of any size', **U)
    S.h('spm_none', [Int('R', lo=0), Int('C', lo=0), In('p', lambda z: imul(z['R'], z['C'])), Out('o', 1, 'int')], 'auto v=wrapMatrix(p,R,C); o[0]=TooN::isnan(v);', lambda c: c.eq('isnan', c.o('o')[0], 0), what='finite matrices of any size', **U)
    # ---------------- deprecated fills
    for k in ('d', 's', 'c', 'l'):
        w = vec('x', k, 'inout')
        harness(S, 'fill_' + k, [(w, V)], ['n'], 'Fill(x,a);', lambda c, w=w: (lambda i: c.eq('element', w.out(c, i), c.reals['a']))(c.ghost('i', 0, w.dims[0](c.ints))), [Real('a')], flags=('-Wno-deprecated-declarations',))
    for k in ('d', 'dc', 's', 'sub'):
        w = mat('m', k, 'inout')
        harness(S, 'fillm_' + k, [(w, M)], ['R', 'C'], 'Fill(m,a);', lambda c, w=w: (lambda i, j: c.eq('element', w.out(c, i, j), c.reals['a']))(c.ghost('i', 0, w.dims[0](c.ints)), c.ghost('j', 0, w.dims[1](c.ints))), [Real('a')], flags=('-Wno-deprecated-declarations',))
