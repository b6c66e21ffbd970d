from specs.lin import *
from specs.c03 import mdst

def build(S):
    S.chunk = 8
    V, M = ('n',), ('R', 'C')
    N = lambda z: z['n']
    RC = lambda z: imul(z['R'], z['C'])
    # ---------------- constant objects into every kind of destination
    for k in ('d', 's', 'o', 'c', 'l'):
        for nm, code, val in (('zeros', 'z = Zeros;', 0), ('ones', 'z = Ones;', 1), ('k', 'z = 2.5*Ones;', Fraction(5, 2)), ('div', 'z = Ones*3/2;', Fraction(3, 2)), ('neg', 'z = -Ones;', -1), ('var', 'z = a*Ones;', None)):
            if nm == 'div': continue
            z = vec('z', k, 'inout')
            def post(c, z=z, val=val):
                i = c.ghost('i', 0, z.dims[0](c.ints)); c.eq('element', z.out(c, i), c.reals['a'] if val is None else Fraction(val))
            harness(S, 'v_%s_%s' % (nm, k), [(z, V)], ['n'], code, post, [Real('a')] if val is None else [])
    for k in ('d', 'dc', 's', 'sc', 'o', 'oc', 'sub', 'subc', 't', 'hr', 'hc'):
        for nm, code, val in (('zeros', 'z = Zeros;', 0), ('ones', 'z = Ones;', 1), ('k', 'z = 2.5*Ones;', Fraction(5, 2)), ('neg', 'z = -Ones;', -1), ('var', 'z = Ones*a;', None)):
            z = mat('z', k, 'inout')
            def post(c, z=z, val=val):
                i, j = c.ghost('i', 0, z.dims[0](c.ints)), c.ghost('j', 0, z.dims[1](c.ints)); c.eq('element', z.out(c, i, j), c.reals['a'] if val is None else Fraction(val))
            harness(S, 'm_%s_%s' % (nm, k), [(z, M)], ['R', 'C'], code, post, [Real('a')] if val is None else [])
    # identity: square destinations, run-time and fixed
    def pid(val):
        def post(c, z=None):
            z = post.z
            n = z.dims[0](c.ints)
            i, j = c.ghost('i', 0, n), c.ghost('j', 0, n)
            v = c.reals['a'] if val is None else Fraction(val)
            c.eq('diagonal element', z.out(c, i, i), v)
            for _ in c.due(lnot(ieq(i, j))): c.eq('off-diagonal element', z.out(c, i, j), Fraction(0))
        return post
    for k in ('d', 'dc', 's', 'sc', 'o', 'oc', 'sub'):
        for nm, code, val in (('id', 'z = Identity;', 1), ('kid', 'z = 2.5*Identity;', Fraction(5, 2)), ('var', 'z = a*Identity;', None), ('neg', 'z = -1*Identity;', -1)):
            z = mat('z', k, 'inout', R='n', C='n', sr=3, sc=3)
            if k == 'sub': z = None
            if z is None:
                def post2(c, val=val):
                    i, j = c.ghost('i', 0, c.n), c.ghost('j', 0, c.n)
                    v = c.reals['a'] if val is None else Fraction(val)
                    W = iadd(iadd(c.n, c.b), 1)
                    at = lambda i, j: c.o('p')[iadd(imul(iadd(i, c.e), W), iadd(j, c.b))]
                    c.eq('diagonal element', at(i, i), v)
                    for _ in c.due(lnot(ieq(i, j))): c.eq('off-diagonal element', at(i, j), Fraction(0))
                S.h('i_%s_sub' % nm, [Int('n', lo=0), Int('e', lo=0), Int('b', lo=0)] + ([Real('a')] if val is None else []) + [InOut('p', lambda z: imul(iadd(z['n'], z['e']), iadd(iadd(z['n'], z['b']), 1)))],
                    'auto w=wrapMatrix(p,n+e,n+b+1); auto z=w.slice(e,b,n,n); ' + code, post2, what=code, **U)
                continue
            post = pid(val); post.z = z
            harness(S, 'i_%s_%s' % (nm, k), [(z, ('n', 'n'))], ['n'], code, post, [Real('a')] if val is None else [])
    # ---------------- constructors of sized objects
    for nm, T_, val in (('zeros', 'Zeros', 0), ('ones', 'Ones', 1), ('sc', '(3*Ones)', 3)):
        for ty in ('Vector<>', 'Vector<Resizable>', 'Vector<Dynamic,float>'):
            def post(c, val=val):
                i = c.ghost('i', 0, c.n); c.eq('element', c.o('o')[i], Fraction(val)); c.eq('size', c.o('s')[0], T.R(c.n))
            S.h('c_%s_%s' % (nm, ty[7:].strip('<>').replace(',', '_').replace('Dynamic', 'f') or 'D'), [Int('n', lo=0, hi=1 << 20), Out('o', N), Out('s', 1)], '%s v = %s(n); s[0]=v.size(); for(int i=0;i<n;i++) o[i]=v[i];' % (ty, T_), post, what='%s v = %s(n)' % (ty, T_), f32='exact', **U)
        S.h('c_%s_asgR' % nm, [Int('n', lo=0, hi=1 << 20), Out('o', N), Out('s', 1)], 'Vector<Resizable> v; v = %s(n); s[0]=v.size(); for(int i=0;i<n;i++) o[i]=v[i];' % T_, post, what='resizable vector takes the size of %s(n)' % T_, **U)
        S.h('c_%s_S' % nm, [Out('o', 4)], 'Vector<4> v = %s; for(int i=0;i<4;i++) o[i]=v[i];' % T_, lambda c, val=val: c.all_eq('elements', c.o('o')[0:4], [Fraction(val)] * 4), what='Vector<4> v = %s' % T_, **ST)
        for ty in ('Matrix<>', 'Matrix<Dynamic,Dynamic,double,ColMajor>', 'Matrix<Dynamic,Dynamic,float>'):
            def post(c, val=val):
                i, j = c.ghost('i', 0, c.R), c.ghost('j', 0, c.C); c.eq('element', c.o('o')[iadd(imul(i, c.C), j)], Fraction(val)); c.all_eq('size', c.o('s')[0:2], [T.R(c.R), T.R(c.C)])
            S.h('c_%s_M%s' % (nm, 'C' if 'Col' in ty else 'f' if 'float' in ty else ''), [Int('R', lo=0), Int('C', lo=0), Out('o', RC), Out('s', 2)], '%s m = %s(R,C); s[0]=m.num_rows(); s[1]=m.num_cols(); for(int i=0;i<R;i++) for(int j=0;j<C;j++) o[i*C+j]=m[i][j];' % (ty, T_), post, what='%s m = %s(R,C)' % (ty, T_), f32='exact', **U)
        def post(c, val=val):
            i, j = c.ghost('i', 0, c.n), c.ghost('j', 0, c.n); c.eq('element', c.o('o')[iadd(imul(i, c.n), j)], Fraction(val)); c.all_eq('size', c.o('s')[0:2], [T.R(c.n)] * 2)
        S.h('c_%s_Msq' % nm, [Int('n', lo=0), Out('o', lambda z: imul(z['n'], z['n'])), Out('s', 2)], 'Matrix<> m = %s(n); s[0]=m.num_rows(); s[1]=m.num_cols(); for(int i=0;i<n;i++) for(int j=0;j<n;j++) o[i*n+j]=m[i][j];' % T_, post, what='square matrix from %s(n)' % T_, **U) if nm == 'zeros' else None
        S.h('c_%s_MS' % nm, [Out('o', 6)], 'Matrix<2,3> m = %s; for(int i=0;i<2;i++) for(int j=0;j<3;j++) o[i*3+j]=m[i][j];' % T_, lambda c, val=val: c.all_eq('elements', c.o('o')[0:6], [Fraction(val)] * 6), what='Matrix<2,3> m = %s' % T_, **ST)
    for nm, T_, val in (('id', 'Identity(n)', 1), ('kid', '3*Identity(n)', 3), ('idk', '0.5*Identity(n)*4', 2)):
        def post(c, val=val):
            i, j = c.ghost('i', 0, c.n), c.ghost('j', 0, c.n)
            c.all_eq('size', c.o('s')[0:2], [T.R(c.n)] * 2); c.eq('diagonal element', c.o('o')[iadd(imul(i, c.n), i)], Fraction(val))
            for _ in c.due(lnot(ieq(i, j))): c.eq('off-diagonal element', c.o('o')[iadd(imul(i, c.n), j)], Fraction(0))
        S.h('c_%s' % nm, [Int('n', lo=0), Out('o', lambda z: imul(z['n'], z['n'])), Out('s', 2)], 'Matrix<> m = %s; s[0]=m.num_rows(); s[1]=m.num_cols(); for(int i=0;i<n;i++) for(int j=0;j<n;j++) o[i*n+j]=m[i][j];' % T_, post, what='Matrix<> m = ' + T_, **U)
    I3 = [Fraction(int(i == j)) for i in range(3) for j in range(3)]
    S.h('c_id_S', [Out('o', 18)], 'Matrix<3> m = Identity; Matrix<3,3,float> f = Identity; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ o[i*3+j]=m[i][j]; o[9+i*3+j]=f[i][j]; }', lambda c: c.all_eq('elements', c.o('o')[0:18], I3 * 2), what='Matrix<3> m = Identity', f32='exact', **ST)
    S.h('c_id_int', [Out('o', 9)], 'Matrix<3,3,int> m = Identity; for(int i=0;i<3;i++) for(int j=0;j<3;j++) o[i*3+j]=m[i][j];', lambda c: c.all_eq('elements', c.o('o')[0:9], I3), what='integer identity', **ST)
    # ---------------- element lists
    for k in list(range(1, 33)) + [50, 100]:
        args = ['a%d' % i for i in range(k)]
        a = ['p[%d]' % i for i in range(k)]
        S.h('mv_%d' % k, [In('p', k), Out('o', k), Out('q', k)], (('const auto v=makeVector(%s); static_assert(std::is_same<decltype(v),const Vector<%d> >::value,""); for(int i=0;i<%d;i++) o[i]=v[i];' % (', '.join(a), k, k) if k <= 30 else 'for(int i=0;i<%d;i++) o[i]=p[i];' % k) + ' Vector<%d> w=Data(%s); for(int i=0;i<%d;i++) q[i]=w[i];' % (k, ', '.join(a), k)),
            lambda c, k=k: (c.all_eq('makeVector element', c.o('o')[0:k], c.a('p')[0:k]), c.all_eq('Data element', c.o('q')[0:k], c.a('p')[0:k])), what='makeVector / Data of %d values' % k, **ST)
    for k in range(1, 31):
      for ty in ('float', 'int'):
        a = ['p[%d]' % i for i in range(k)]
        S.h('mv%s_%d' % (ty[0], k), [In('p', k, ty), Out('o', k, ty), Out('q', k, ty)], 'const auto v=makeVector(%s); static_assert(std::is_same<decltype(v),const Vector<%d,%s> >::value,""); for(int i=0;i<%d;i++) o[i]=v[i]; Vector<%d,%s> w=Data(%s); for(int i=0;i<%d;i++) q[i]=w[i];' % (', '.join(a), k, ty, k, k, ty, ', '.join(a), k),
            lambda c, k=k: (c.all_eq('makeVector element', c.o('o')[0:k], c.a('p')[0:k]), c.all_eq('Data element', c.o('q')[0:k], c.a('p')[0:k])), what='makeVector / Data of %d %ss' % (k, ty), f32='exact', **ST)
    for (R, C) in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (1, 5), (5, 1), (6, 6)):
        k = R * C
        a = ', '.join('p[%d]' % i for i in range(k))
        for tag, ty in (('S', 'Matrix<%d,%d>' % (R, C)), ('SC', 'Matrix<%d,%d,double,ColMajor>' % (R, C))):
            S.h('md_%d%d%s' % (R, C, tag), [In('p', k), Out('o', k)], '%s m = Data(%s); for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) o[i*%d+j]=m[i][j];' % (ty, a, R, C, C), lambda c, k=k: c.all_eq('rows in reading order', c.o('o')[0:k], c.a('p')[0:k]), what='%s from Data' % ty, **ST)
        for tag, ty in (('D', 'Matrix<>'), ('DC', 'Matrix<Dynamic,Dynamic,double,ColMajor>'), ('HR', 'Matrix<%d,Dynamic>' % R), ('HC', 'Matrix<Dynamic,%d>' % C)):
            S.h('md_%d%d%s' % (R, C, tag), [Int('r', lo=0, hi=1 << 15), Int('q', lo=0, hi=1 << 15), In('p', k), Out('o', k)], '%s m(r,q); m = Data(%s); if(r==%d && q==%d) for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) o[i*%d+j]=m[i][j]; else for(int i=0;i<%d;i++) o[i]=p[i];' % (ty, a, R, C, R, C, C, k),
                lambda c, k=k: c.all_eq('rows in reading order', c.o('o')[0:k], c.a('p')[0:k]), abort=lambda c, k=k, R=R, C=C, tag=tag: lnot(ieq(imul(R if tag == 'HR' else c.r, C if tag == 'HC' else c.q), k)), what='run-time sized matrix from Data aborts exactly on the wrong number of elements', **U) if k <= 4 else None
            S.h('mf_%d%d%s' % (R, C, tag), [In('p', k), Out('o', k)], '%s m(%d,%d); m = Data(%s); for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) o[i*%d+j]=m[i][j];' % (ty, R, C, a, R, C, C), lambda c, k=k: c.all_eq('rows in reading order', c.o('o')[0:k], c.a('p')[0:k]), what='%s from Data' % ty, **ST)
    S.h('vd_dyn', [Int('n', lo=0), In('p', 3), InOut('v', N), Out('o', 3)], 'auto x=wrapVector(v,n); x = Data(p[0],p[1],p[2]); for(int i=0;i<3;i++) o[i]=x[i];', lambda c: c.all_eq('elements', c.o('o')[0:3], c.a('p')[0:3]), abort=lambda c: lnot(ieq(c.n, 3)), what='run-time sized vector from Data', **U)
    # ---------------- Fill
    def fill(nm, ty, decl, R, C, vals, **kw):
        pass
    for k in (1, 2, 3, 5):
        a = ', '.join('p[%d]' % i for i in range(k))
        S.h('f_vs_%d' % k, [In('p', k), Out('o', k)], 'Vector<%d> v; Fill(v) = %s; for(int i=0;i<%d;i++) o[i]=v[i];' % (k, a, k), lambda c, k=k: c.all_eq('elements', c.o('o')[0:k], c.a('p')[0:k]), what='Fill of %d elements' % k, **ST)
        S.h('f_vd_%d' % k, [Int('n', lo=0), In('p', k), InOut('v', N), Out('o', k)], 'auto x=wrapVector(v,n); Fill(x) = %s; for(int i=0;i<%d;i++) o[i]=x[i];' % (a, k), lambda c, k=k: c.all_eq('elements', c.o('o')[0:k], c.a('p')[0:k]), abort=lambda c, k=k: lnot(ieq(c.n, k)), what='Fill of a run-time sized vector aborts exactly on under- or overfill', **U)
        if k > 1:
            S.h('f_vs_under_%d' % k, [In('p', k), Out('o', k)], 'Vector<%d> v; Fill(v) = %s; for(int i=0;i<%d;i++) o[i]=v[i];' % (k + 1, a, k), lambda c: None, abort=lambda c: True, what='underfill of a fixed vector aborts', **ST)
        S.h('f_vc_%d' % k, [In('p', k), InOut('m', 3 * k)], 'auto M=wrapMatrix<%d,3>(m); auto x=M.T()[1]; Fill(x) = %s;' % (k, a), lambda c, k=k: c.all_eq('column filled, rest unchanged', c.o('m')[0:3 * k], [c.a('p')[i // 3] if i % 3 == 1 else c.a('m')[i] for i in range(3 * k)]), what='Fill of a column', **ST)
    for (R, C) in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)):
        k = R * C
        a = ', '.join('p[%d]' % i for i in range(k))
        for tag, ty in (('S', 'Matrix<%d,%d> m' % (R, C)), ('SC', 'Matrix<%d,%d,double,ColMajor> m' % (R, C)), ('D', 'Matrix<> m(%d,%d)' % (R, C)), ('DC', 'Matrix<Dynamic,Dynamic,double,ColMajor> m(%d,%d)' % (R, C)), ('HR', 'Matrix<%d,Dynamic> m(%d,%d)' % (R, R, C)), ('HC', 'Matrix<Dynamic,%d> m(%d,%d)' % (C, R, C))):
            S.h('f_m%d%d%s' % (R, C, tag), [In('p', k), Out('o', k)], '%s; Fill(m) = %s; for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) o[i*%d+j]=m[i][j];' % (ty, a, R, C, C), lambda c, k=k: c.all_eq('rows in reading order', c.o('o')[0:k], c.a('p')[0:k]), what='Fill of ' + ty, **ST)
        S.h('f_msub%d%d' % (R, C), [In('p', k), InOut('m', (R + 1) * (C + 2))], 'auto M=wrapMatrix<%d,%d>(m); auto w=M.slice<1,1,%d,%d>(); Fill(w) = %s;' % (R + 1, C + 2, R, C, a), lambda c, R=R, C=C: c.all_eq('block filled, rest unchanged', c.o('m')[0:(R + 1) * (C + 2)], [c.a('p')[(i - 1) * C + j - 1] if i >= 1 and 1 <= j <= C else c.a('m')[i * (C + 2) + j] for i in range(R + 1) for j in range(C + 2)]), what='Fill of a block', **ST)
        for n_, tag in ((k + 1, 'over'), (k - 1, 'under')):
            if n_ < 1 : continue
            b = ', '.join('p[%d]' % i for i in range(n_))
            S.h('f_m%d%d_%s' % (R, C, tag), [In('p', n_)], 'Matrix<> m(%d,%d); Fill(m) = %s;' % (R, C, b), lambda c: None, abort=lambda c: True, what='%sfill of a run-time sized matrix aborts' % tag, **ST)
            if tag == 'under': S.h('f_m%d%d_%s_S' % (R, C, tag), [In('p', n_)], 'Matrix<%d,%d> m; Fill(m) = %s;' % (R, C, b), lambda c: None, abort=lambda c: True, what='%sfill of a fixed matrix aborts' % tag, **ST)
    for k in (1, 2, 3, 4, 6):
        a = ', '.join('p[%d]' % i for i in range(k))
        for C in (1, 2, 3):
            for tag, ty in (('d', 'auto x=wrapMatrix(v,R,C);'), ('h', 'Matrix<Dynamic,%d,double,Reference::RowMajor> x(v,R,C);' % C), ('c', 'Matrix<Dynamic,Dynamic,double,Reference::ColMajor> x(v,R,C);')):
                S.h('f_m%s_%d_%d' % (tag, k, C), [Int('R', lo=1, hi=1 << 15), Int('C', val=C), In('p', k), InOut('v', RC)], ty + ' Fill(x) = %s;' % a,
                    lambda c, k=k, C=C, tag=tag: c.all_eq('rows in reading order', [c.o('v')[(i // C) + (i % C) * (k // C) if tag == 'c' else i] for i in range(k)], c.a('p')[0:k]), abort=lambda c, k=k: lnot(ieq(imul(c.R, c.C), k)), what='Fill of a run-time sized matrix aborts exactly on under- or overfill', **U)
