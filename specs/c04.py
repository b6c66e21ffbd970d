from specs.lin import *
from specs.c03 import VECS, dstkind, mdst

def build(S):
    S.chunk = 5
    V, M = ('n',), ('R', 'C')
    two = lambda: vec('x', 'd')
    def dot(c, n, f, g): return c.sum(0, n, lambda k: mul(T.R(f(k)), T.R(g(k))))
    # ---------------- inner product
    for ka, kb in VECS + [('d', 'l'), ('l', 'c'), ('c', 'c')]:
        a, b = vec('x', ka), vec('y', kb)
        harness(S, 'dot_%s%s' % (ka, kb), [(a, V), (b, V)], ['n'], 'o[0]=x*y; o[1]=y*x;',
                lambda c, a=a, b=b: c.all_eq('sum of products', c.o('o')[0:2], [dot(c, a.dims[0](c.ints), lambda k: a.inp(c, k), lambda k: b.inp(c, k))] * 2), [Out('o', 2)])
    for ka in ('d', 's', 'c', 'l'):
        a = vec('x', ka)
        harness(S, 'dotself_' + ka, [(a, V)], ['n'], 'o[0]=x*x;', lambda c, a=a: c.eq('squared norm', c.o('o')[0], dot(c, a.dims[0](c.ints), lambda k: a.inp(c, k), lambda k: a.inp(c, k))), [Out('o', 1)])
    for ta, tb, tz in (('int', 'double', 'double'), ('double', 'int', 'double'), ('float', 'float', 'float'), ('float', 'double', 'double'), ('int', 'float', 'float')):
        for k in 'ds':
            a, b = vec('x', k, ty=ta), vec('y', k, ty=tb)
            harness(S, 'dot_t%s%s%s' % (ta[0], tb[0], k), [(a, V), (b, V)], ['n'], 'o[0]=x*y;', lambda c, a=a, b=b: c.eq('sum of products', c.o('o')[0], dot(c, a.dims[0](c.ints), lambda k: a.inp(c, k), lambda k: b.inp(c, k))), [Out('o', 1, tz)], f32='exact')
    a, b = vec('x', 's', ty='int'), vec('y', 's', ty='int')
    harness(S, 'dot_tiis', [(a, V), (b, V)], ['n'], 'o[0]=x*y;', lambda c, a=a, b=b: c.eq('sum of products', c.o('o')[0], sum_i([imul(a.inp(c, k), b.inp(c, k)) for k in range(4)])), [Out('o', 1, 'int')])
    # ---------------- cross product
    def cr(u, v): return [sub(mul(u[(k + 1) % 3], v[(k + 2) % 3]), mul(u[(k + 2) % 3], v[(k + 1) % 3])) for k in range(3)]
    for ka, kb in (('s', 's'), ('o', 'o'), ('s', 'o')):
        a, b = vec('x', ka, size=3), vec('y', kb, size=3)
        harness(S, 'cross_%s%s' % (ka, kb), [(a, V), (b, V)], ['n'], 'Vector<3> r=x^y; for(int i=0;i<3;i++) o[i]=r[i]; o[3]=r*x; o[4]=r*y;', lambda c, a=a, b=b: (
            c.all_eq('right-handed cross product', c.o('o')[0:3], cr([a.inp(c, k) for k in range(3)], [b.inp(c, k) for k in range(3)])), c.all_eq('orthogonal to both', c.o('o')[3:5], [Fraction(0)] * 2)), [Out('o', 5)])
    S.h('cross_views', [In('p', 9), Out('o', 3)], 'auto m=wrapMatrix<3,3>(p); Vector<3> r=m.T()[1]^m[2]; for(int i=0;i<3;i++) o[i]=r[i];', lambda c: c.all_eq('cross product of a column and a row', c.o('o')[0:3], cr([c.a('p')[k] for k in (1, 4, 7)], [c.a('p')[k] for k in (6, 7, 8)])), what='cross product of strided views', **ST)
    S.h('cross_mixed', [In('p', 3, 'float'), In('q', 3), Out('o', 3)], 'Vector<3> r=wrapVector<3>(p)^wrapVector<3>(q); for(int i=0;i<3;i++) o[i]=r[i];', lambda c: c.all_eq('cross product', c.o('o')[0:3], cr(c.a('p')[0:3], c.a('q')[0:3])), f32='exact', **ST)
    # ---------------- matrix * vector, vector * matrix
    MK = ['d', 'dc', 's', 'sc', 'o', 'oc', 'sub', 'subc', 't', 'st', 'hr', 'hc', 'od']
    for km in MK:
        for kv in ('d', 'c', 's') if km in ('d', 'dc', 's', 'sub', 't') else ('d',):
            fixedm = km in ('s', 'sc', 'o', 'oc', 'st')
            m = mat('m', km)
            for side in 'rl':
                dim, od = ('C', 'R') if side == 'r' else ('R', 'C')
                if kv == 's' and not fixedm: v = vec('x', 's', n=dim, size=3 if side == 'r' else 2)
                elif fixedm: v = vec('x', 's' if kv == 'd' else 'c' if kv == 'c' else 'o', n=dim, size=3 if side == 'r' else 2)
                else: v = vec('x', kv, n=dim)
                n_in = 1 if side == 'r' else 0
                zst = isfix(m.dims[1 - n_in])
                z = vec('z', 's' if zst else 'd', 'out', n=od, size=m.dims[1 - n_in]({}) if zst else 4)
                def post(c, m=m, v=v, z=z, side=side, n_in=n_in):
                    i = c.ghost('i', 0, m.dims[1 - n_in](c.ints))
                    c.eq('element', z.out(c, i), dot(c, m.dims[n_in](c.ints), (lambda k: m.inp(c, i, k)) if side == 'r' else (lambda k: m.inp(c, k, i)), lambda k: v.inp(c, k)))
                harness(S, '%s_%s_%s' % ('mv' if side == 'r' else 'vm', km, kv), [(m, M), (v, (dim,)), (z, (od,))], ['R', 'C'], 'z = m*x;' if side == 'r' else 'z = x*m;', post)
                # scaling rows / columns by a vector
                Z = mat('z', km if km in ('hr', 'hc') else mdst(km) if km != 'st' else 's', 'out')
                for form in (('diagmult(m,x)', 'm*DG') if side == 'r' else ('diagmult(x,m)', 'DG*m')):
                    if form.startswith('m*') or form.startswith('DG'):
                        if kv != 'd' and not fixedm: continue
                        e = ('DiagonalMatrix<%s> D(x); z = ' % ('%d' % v.dims[0]({}) if isfix(v.dims[0]) else '')) + form.replace('DG', 'D') + ';'
                    else: e = 'z = %s;' % form
                    def post2(c, m=m, v=v, Z=Z, side=side):
                        i, j = c.ghost('i', 0, m.dims[0](c.ints)), c.ghost('j', 0, m.dims[1](c.ints))
                        c.eq('element', Z.out(c, i, j), mul(m.inp(c, i, j), v.inp(c, j if side == 'r' else i)))
                    harness(S, '%s_%s_%s_%s' % ('dmr' if side == 'r' else 'dml', km, kv, 'D' if 'D' in e else 'v'), [(m, M), (v, (dim,)), (Z, M)], ['R', 'C'], e, post2)
    # ---------------- matrix * matrix
    MM = [('d', 'd'), ('dc', 'd'), ('d', 'dc'), ('dc', 'dc'), ('sub', 'd'), ('d', 'sub'), ('t', 'd'), ('d', 't'), ('subc', 't'), ('od', 'od'), ('s', 'd'), ('d', 's'), ('sc', 'dc'), ('hr', 'd'), ('hc', 'd')]
    for ka, kb in MM:
        fixed = ka in ('s', 'sc')
        a = mat('m', ka, C='K')
        b = mat('q', kb, R='K', sr=3, sc=2)
        dk = 'd'
        z = mat('z', 'd', 'out')
        a.rn = 1
        names = [(a, ('R', 'K')), (b, ('K', 'C')), (z, M)]
        def post(c, a=a, b=b, z=z):
            i, j = c.ghost('i', 0, a.dims[0](c.ints)), c.ghost('j', 0, b.dims[1](c.ints))
            c.eq('element', z.out(c, i, j), dot(c, a.dims[1](c.ints), lambda k: a.inp(c, i, k), lambda k: b.inp(c, k, j)))
        harness(S, 'mm_%s_%s' % (ka, kb), names, ['R', 'K', 'C'], 'z = m*q;', post)
    for ka, kb in (('s', 's'), ('sc', 's'), ('s', 'sc'), ('o', 'oc'), ('oc', 'o'), ('st', 's'), ('s', 'st')):
        a = mat('m', ka, C='K')
        b = mat('q', kb, R='K', sr=3, sc=4)
        def post(c, a=a, b=b):
            for i in range(2):
                for j in range(4): c.eq('element[%d,%d]' % (i, j), c.o('z')[4 * i + j], dot(c, 3, lambda k: a.inp(c, i, k), lambda k: b.inp(c, k, j)))
        harness(S, 'mms_%s_%s' % (ka, kb), [(a, ('R', 'K')), (b, ('K', 'C'))], ['R', 'K', 'C'], 'wrapMatrix<2,4>(z) = m*q;', post, [Out('z', 8)])
    # destination is an operand, chained products, products of sums
    sq = lambda: [Int('n', lo=0)]
    N2 = lambda z: imul(z['n'], z['n'])
    def el(c, p, i, j): return c.a(p)[iadd(imul(i, c.n), j)]
    def self_post(f):
        def post(c):
            i, j = c.ghost('i', 0, c.n), c.ghost('j', 0, c.n)
            c.eq('element', c.o('a')[iadd(imul(i, c.n), j)], f(c, i, j))
        return post
    for nm, code, f in (('mm_self', 'x = x*x;', lambda c, i, j: dot(c, c.n, lambda k: el(c, 'a', i, k), lambda k: el(c, 'a', k, j))),
                        ('mm_selfT', 'x = x.T()*x;', lambda c, i, j: dot(c, c.n, lambda k: el(c, 'a', k, i), lambda k: el(c, 'a', k, j))),
                        ('mm_self2', 'x = y*x;', lambda c, i, j: dot(c, c.n, lambda k: el(c, 'b', i, k), lambda k: el(c, 'a', k, j))),
                        ('mm_acc', 'x += x*y;', lambda c, i, j: add(el(c, 'a', i, j), dot(c, c.n, lambda k: el(c, 'a', i, k), lambda k: el(c, 'b', k, j)))),
                        ('mm_comb', 'x = 2*(x+y)*y.T() - x;', lambda c, i, j: sub(dot(c, c.n, lambda k: mul(2, add(el(c, 'a', i, k), el(c, 'b', i, k))), lambda k: el(c, 'b', j, k)), el(c, 'a', i, j)))):
        S.h(nm, sq() + [InOut('a', N2), In('b', N2)], 'auto x=wrapMatrix(a,n,n); const auto y=wrapMatrix(b,n,n); ' + code, self_post(f), what=code, **U)
    S.h('mmm', [Int('n', lo=0), Int('m', lo=0), Int('p', lo=0), Int('q', lo=0), In('a', lambda z: imul(z['n'], z['m'])), In('b', lambda z: imul(z['m'], z['p'])), In('c', lambda z: imul(z['p'], z['q'])), Out('o', lambda z: imul(z['n'], z['q']))],
        'wrapMatrix(o,n,q)=wrapMatrix(a,n,m)*wrapMatrix(b,m,p)*wrapMatrix(c,p,q);', lambda c: (lambda i, j: c.eq('element', c.o('o')[iadd(imul(i, c.q), j)],
            c.sum(0, c.p, lambda l: mul(c.sum(0, c.m, lambda k: mul(c.a('a')[iadd(imul(i, c.m), k)], c.a('b')[iadd(imul(k, c.p), l)])), c.a('c')[iadd(imul(l, c.q), j)]))))(c.ghost('i', 0, c.n), c.ghost('j', 0, c.q)), what='left-associated triple product', **U)
    S.h('vmv', [Int('n', lo=0), Int('m', lo=0), In('a', lambda z: imul(z['n'], z['m'])), In('u', lambda z: z['n']), In('v', lambda z: z['m']), Out('o', 2)],
        'auto A=wrapMatrix(a,n,m); auto x=wrapVector(u,n), y=wrapVector(v,m); o[0]=x*(A*y); o[1]=(x*A)*y;', lambda c: (
            c.eq('x.(A y)', c.o('o')[0], c.sum(0, c.n, lambda i: mul(c.a('u')[i], c.sum(0, c.m, lambda j: mul(c.a('a')[iadd(imul(i, c.m), j)], c.a('v')[j]))))),
            c.eq('(x A).y', c.o('o')[1], c.sum(0, c.m, lambda j: mul(c.sum(0, c.n, lambda i: mul(c.a('u')[i], c.a('a')[iadd(imul(i, c.m), j)])), c.a('v')[j])))), what='bilinear form', **U)
    # outer product through as_col / as_row
    S.h('outer', [Int('n', lo=0), Int('m', lo=0), In('u', lambda z: z['n']), In('v', lambda z: z['m']), Out('o', lambda z: imul(z['n'], z['m']))],
        'auto x=wrapVector(u,n), y=wrapVector(v,m); wrapMatrix(o,n,m)=x.as_col()*y.as_row();', lambda c: (lambda i, j: c.eq('element', c.o('o')[iadd(imul(i, c.m), j)], mul(c.a('u')[i], c.a('v')[j])))(c.ghost('i', 0, c.n), c.ghost('j', 0, c.m)), what='outer product', **U)
    # element types
    for ta, tb, tz in (('int', 'double', 'double'), ('double', 'int', 'double'), ('float', 'float', 'float'), ('float', 'double', 'double')):
        for st in (0, 1):
            tag = ta[0] + tb[0] + 'ds'[st]
            dims = '<2,3,%s>' if st else '<-1,-1,%s>'
            a, b, v, w = mat('m', 's' if st else 'd', ty=ta), mat('q', 's' if st else 'd', R='C', C='R', sr=3, sc=2, ty=tb), vec('x', 's' if st else 'd', n='C', size=3, ty=tb), vec('w', 's' if st else 'd', n='R', size=2, ty=tb)
            zz = [Out('z', 4, tz)] if st else [Out('z', lambda z: imul(z['R'], z['R']), tz)]
            def pmm(c, a=a, b=b):
                i, j = c.ghost('i', 0, a.dims[0](c.ints)), c.ghost('j', 0, b.dims[1](c.ints))
                c.eq('element', c.o('z')[iadd(imul(i, a.dims[0](c.ints)), j)], dot(c, a.dims[1](c.ints), lambda k: a.inp(c, i, k), lambda k: b.inp(c, k, j)))
            harness(S, 'mm_t' + tag, [(a, M), (b, ('C', 'R'))], ['R', 'C'], ('wrapMatrix<2,2>(z)' if st else 'wrapMatrix(z,R,R)') + ' = m*q;', pmm, zz, f32='exact')
            zv = vec('z', 's' if st else 'd', 'out', n='R', size=2, ty=tz)
            zw = vec('z', 's' if st else 'd', 'out', n='C', size=3, ty=tz)
            def pmv(c, a=a, v=v, zv=zv):
                i = c.ghost('i', 0, a.dims[0](c.ints)); c.eq('element', zv.out(c, i), dot(c, a.dims[1](c.ints), lambda k: a.inp(c, i, k), lambda k: v.inp(c, k)))
            def pvm(c, a=a, w=w, zw=zw):
                i = c.ghost('i', 0, a.dims[1](c.ints)); c.eq('element', zw.out(c, i), dot(c, a.dims[0](c.ints), lambda k: a.inp(c, k, i), lambda k: w.inp(c, k)))
            harness(S, 'mv_t' + tag, [(a, M), (v, ('C',)), (zv, ('R',))], ['R', 'C'], 'z = m*x;', pmv, f32='exact')
            harness(S, 'vm_t' + tag, [(a, M), (w, ('R',)), (zw, ('C',))], ['R', 'C'], 'z = w*m;', pvm, f32='exact')
            for nm, e, f in (('dmr', 'diagmult(m,x)', lambda c, a, v, w, i, j: mul(T.R(a.inp(c, i, j)), T.R(v.inp(c, j)))), ('dml', 'diagmult(w,m)', lambda c, a, v, w, i, j: mul(T.R(w.inp(c, i)), T.R(a.inp(c, i, j))))):
                Z = mat('z', 's' if st else 'd', 'out', ty=tz)
                def pd(c, a=a, v=v, w=w, Z=Z, f=f):
                    i, j = c.ghost('i', 0, a.dims[0](c.ints)), c.ghost('j', 0, a.dims[1](c.ints)); c.eq('element', Z.out(c, i, j), f(c, a, v, w, i, j))
                harness(S, '%s_t%s' % (nm, tag), [(a, M), (v, ('C',)) if nm == 'dmr' else (w, ('R',)), (Z, M)], ['R', 'C'], 'z = %s;' % e, pd, f32='exact')
    # ---------------- diagonal matrices
    for k, D in (('d', 'DiagonalMatrix<Dynamic,double>'), ('s', 'DiagonalMatrix<4>')):
        a, b = vec('x', k), vec('y', k)
        z = vec('z', k, 'out')
        for nm, code, f in (('dv', 'z = A*y;', lambda u, v: mul(u, v)), ('vd', 'z = y*A;', lambda u, v: mul(u, v)), ('dd', 'z = (A*B).diagonal_slice();', lambda u, v: mul(u, v)), ('neg', 'z = (-A).diagonal_slice();', lambda u, v: neg(u)),
                            ('ddv', 'z = A*(B*y);', lambda u, v: mul(u, mul(v, v)))):
            def post(c, a=a, b=b, z=z, f=f):
                i = c.ghost('i', 0, a.dims[0](c.ints)); c.eq('element', z.out(c, i), f(a.inp(c, i), b.inp(c, i)))
            harness(S, 'diag_%s_%s' % (nm, k), [(a, V), (b, V), (z, V)], ['n'], '%s A(x), B(y); ' % D + code, post)
        def pinv(c, a=a, z=z):
            i = c.ghost('i', 0, a.dims[0](c.ints)); c.eq('element', z.out(c, i), div(Fraction(1), a.inp(c, i)))
        harness(S, 'diag_inv_' + k, [(a, V), (z, V)], ['n'], '%s A(x); z = A.inverse().diagonal_slice();' % D, pinv, nodiv=True)
        N = (lambda z: imul(z['n'], z['n'])) if k == 'd' else 16
        def pas(c, a=a):
            d = a.dims[0](c.ints)
            i, j = c.ghost('i', 0, d), c.ghost('j', 0, d)
            c.eq('diagonal element', c.o('o')[iadd(imul(i, d), i)], a.inp(c, i))
            for _ in c.due(lnot(ieq(i, j))): c.eq('off-diagonal element', c.o('o')[iadd(imul(i, d), j)], Fraction(0))
        harness(S, 'diag_assign_' + k, [(a, V)], ['n'], '%s A(x); %s = A;' % (D, 'wrapMatrix(o,n,n)' if k == 'd' else 'wrapMatrix<4,4>(o)'), pas, [Out('o', N)])
        harness(S, 'diag_asdiag_' + k, [(a, V)], ['n'], '%s = x.as_diagonal();' % ('wrapMatrix(o,n,n)' if k == 'd' else 'wrapMatrix<4,4>(o)'), pas, [Out('o', N)])
    S.h('asdiag_mul', [Int('n', lo=0), Int('m', lo=0), In('a', lambda z: imul(z['n'], z['m'])), In('u', lambda z: z['n']), Out('o', lambda z: imul(z['n'], z['m']))],
        'auto x=wrapVector(u,n); wrapMatrix(o,n,m) = x.as_diagonal()*wrapMatrix(a,n,m);', lambda c: (lambda i, j: c.eq('element', c.o('o')[iadd(imul(i, c.m), j)], mul(c.a('u')[i], c.a('a')[iadd(imul(i, c.m), j)])))(c.ghost('i', 0, c.n), c.ghost('j', 0, c.m)), what='as_diagonal() product', **U)

def sum_i(xs):
    s = 0
    for x in xs: s = iadd(s, x)
    return s
