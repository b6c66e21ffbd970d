from specs.lin import *
from specs.c03 import dstkind, mdst

def build(S):
    S.chunk = 6
    V, M = ('n',), ('R', 'C')
    N = lambda z: z['n']
    RC = lambda z: imul(z['R'], z['C'])
    # ---------------- vectors: a copy holds the same elements, and neither changes with the other
    VK = ['d', 's', 'o', 'c', 'l', 'od', 'r']
    OWN = {'Vector<>': None, 'Vector<4>': 4, 'Vector<Resizable>': None, 'Vector<Dynamic,float>': None}
    def vsame(c, a, out='u', w='w'):
        i = c.ghost('i', 0, a.dims[0](c.ints))
        c.eq('copy holds the element', c.o(out)[i], a.inp(c, i))
        c.eq('writing the original leaves the copy', c.o(w)[i], a.inp(c, i))
    size1 = lambda c, a: c.eq('size', c.o('s')[0], T.R(a.dims[0](c.ints)))
    for ka in VK:
        for T_ in ('Vector<>', 'Vector<4>', 'Vector<Resizable>'):
            a = vec('x', ka, 'inout')
            if T_ == 'Vector<4>' and not isfix(a.dims[0]): a = vec('x', ka, 'inout', n='n')
            fixn = 4 if T_ == 'Vector<4>' else None
            for how, code in (('ctor', '%s y(x);' % T_), ('assign', '%s y%s; y=x;' % (T_, '(x.size())' if T_ == 'Vector<>' else ''))):
                nm = 'v_%s_%s_%s' % (how, ka, {'Vector<>': 'D', 'Vector<4>': 'S', 'Vector<Resizable>': 'R'}[T_])
                names = ['n']
                def post(c, a=a):
                    n = a.dims[0](c.ints)
                    i = c.ghost('i', 0, n)
                    c.eq('copy holds the element', c.o('u')[i], a.inp(c, i))
                    c.eq('writing the original leaves the copy', c.o('w')[i], a.inp(c, i))
                    c.eq('writing the copy leaves the original', c.o('t')[i], Fraction(7))
                    c.eq('size', c.o('s')[0], T.R(n))
                nn = N if not isfix(a.dims[0]) else 4
                kw = {}
                if T_ == 'Vector<4>' and not isfix(a.dims[0]): kw['fixed'] = dict(n=4)
                elif 'Resiz' in T_ and not isfix(a.dims[0]): kw['pre'] = lambda c: [ile(c.n, 1 << 20)]
                harness(S, nm, [(a, V)], names, code + ' s[0]=y.size(); for(int i=0;i<x.size();i++) u[i]=y[i]; for(int i=0;i<x.size();i++) x[i]=7; for(int i=0;i<x.size();i++) w[i]=y[i]; for(int i=0;i<x.size();i++) y[i]=9; for(int i=0;i<x.size();i++) t[i]=x[i];',
                        post, [Out('s', 1), Out('u', nn), Out('w', nn), Out('t', nn)], what=code, **kw)
    # copying a view makes another name for the same elements; assigning through it copies elements
    for ka in ('d', 's', 'c', 'l'):
        a = vec('x', ka, 'inout')
        def post(c, a=a):
            i = c.ghost('i', 0, a.dims[0](c.ints)); c.eq('the copied view names the same elements', a.out(c, i), Fraction(5))
        harness(S, 'v_view_' + ka, [(a, V)], ['n'], 'auto y(x); for(int i=0;i<y.size();i++) y[i]=5;', post)
    # element type conversion
    for ta, tb in (('int', 'double'), ('float', 'double'), ('double', 'float'), ('int', 'float')):
        for k in ('d', 's'):
            a = vec('x', k, ty=ta)
            z = vec('z', k, 'out', ty=tb)
            def post(c, a=a, z=z):
                i = c.ghost('i', 0, a.dims[0](c.ints)); c.eq('converted element', z.out(c, i), T.R(a.inp(c, i))); 
            harness(S, 'v_conv_%s%s%s' % (ta[0], tb[0], k), [(a, V), (z, V)], ['n'], 'z = x;', post, f32='exact')
            tn = 'Vector<%s,%s>' % ('Dynamic' if k == 'd' else '4', tb)
            harness(S, 'v_convc_%s%s%s' % (ta[0], tb[0], k), [(a, V), (z, V)], ['n'], '%s y(x); for(int i=0;i<y.size();i++) z[i]=y[i];' % tn, post, f32='exact')
    # ---------------- large fixed vectors keep their data on the heap
    for nm, code in (('ctor', 'Vector<200> y(x);'), ('assign', 'Vector<200> y; y=x;'), ('ret', 'Vector<200> y=[&]{ Vector<200> q; q=x; return q; }();'), ('move', 'Vector<200> q(x); Vector<200> y(std::move(q));')):
        def post(c):
            i = c.ghost('i', 0, 200)
            c.eq('element', c.o('u')[i], c.a('p')[i]); c.eq('the original may change', c.o('p')[i], Fraction(7)); c.eq('writing the original leaves the copy', c.o('w')[i], c.a('p')[i])
        S.h('big_' + nm, [InOut('p', 200), Out('u', 200), Out('w', 200)], 'Vector<200,double,Reference> v(p); Vector<200> x(v); %s for(int i=0;i<200;i++) u[i]=y[i]; for(int i=0;i<200;i++) x[i]=7; for(int i=0;i<200;i++) w[i]=y[i]; v=x;' % code, post, what=code, kind='static', group=None)
    for nm, code in (('ctor', 'Matrix<12,13> y(x);'), ('assign', 'Matrix<12,13> y; y=x;'), ('move', 'Matrix<12,13> q(x); Matrix<12,13> y(std::move(q));'), ('cm', 'Matrix<12,13,double,ColMajor> y(x);')):
        def post(c):
            i = c.ghost('i', 0, 156)
            c.eq('element', c.o('u')[i], c.a('p')[i]); c.eq('writing the original leaves the copy', c.o('w')[i], c.a('p')[i])
        S.h('bigm_' + nm, [InOut('p', 156), Out('u', 156), Out('w', 156)], 'Matrix<12,13,double,RefR> v(p); Matrix<12,13> x(v); %s for(int i=0;i<12;i++) for(int j=0;j<13;j++) u[i*13+j]=y[i][j]; x*=7; for(int i=0;i<12;i++) for(int j=0;j<13;j++) w[i*13+j]=y[i][j];' % code, post, what=code, kind='static', group=None)
    # ---------------- self assignment
    for ka in ('d', 'o', 'l', 'c'):
        a = vec('x', ka, 'inout')
        def post(c, a=a):
            i = c.ghost('i', 0, a.dims[0](c.ints)); c.eq('unchanged', a.out(c, i), a.inp(c, i))
        harness(S, 'v_self_' + ka, [(a, V)], ['n'], 'x = x;', post)
    for ty in ('Vector<>', 'Vector<Resizable>'):
        S.h('v_selfown_' + ty[7:8].replace('>', 'D'), [Int('n', lo=0, hi=1 << 20), In('p', N), Out('o', N)], '%s x(wrapVector(p,n)); auto& y=x; x=y; for(int i=0;i<n;i++) o[i]=x[i];' % ty,
            lambda c: (lambda i: c.eq('unchanged', c.o('o')[i], c.a('p')[i]))(c.ghost('i', 0, c.n)), what='self assignment of an owning vector', **U)
    # ---------------- chained, returned by value, moved
    mv = [('ret', 'auto f=[&]{ Vector<> q(n); q=v; return q; }; Vector<> y=f();'), ('move', 'Vector<> q(v); Vector<> y(std::move(q));'), ('moveret', 'auto f=[&](Vector<> q){ return q; }; Vector<> y=f(Vector<>(v));'),
          ('moveR', 'Vector<Resizable> q(v); Vector<Resizable> y(std::move(q));'), ('moveassign', 'Vector<> y(n); y=Vector<>(v);'), ('moveassignR', 'Vector<Resizable> y; y=Vector<Resizable>(v);'), ('expr', 'Vector<> y=[&]{ Vector<> q(v); return q+q; }(); y-=v;'),
          ('vecof', 'struct P{ Vector<> a; Vector<Resizable> b; }; P q{Vector<>(v),Vector<Resizable>(v)}; P r(q); P y_(std::move(r)); auto& y=y_.a; if(y_.b.size()!=n) o[0]=1/0.;')]
    for nm, code in mv:
        S.h('mv_' + nm, [Int('n', lo=0, hi=1 << 20), In('p', N), Out('o', N), Out('s', 1)], 'const auto v=wrapVector(p,n); ' + code + ' s[0]=y.size(); for(int i=0;i<n;i++) o[i]=y[i];',
            lambda c: (c.eq('size', c.o('s')[0], T.R(c.n)), (lambda i: c.eq('element', c.o('o')[i], c.a('p')[i]))(c.ghost('i', 0, c.n))), what=code, **U)
    # a moved-to object owns its elements: the moved-from one can be destroyed first
    S.h('mv_order', [Int('n', lo=0, hi=1 << 20), In('p', N), Out('o', N)], 'Vector<>* q=new Vector<>(wrapVector(p,n)); Vector<> y(std::move(*q)); delete q; for(int i=0;i<n;i++) o[i]=y[i];',
        lambda c: (lambda i: c.eq('element', c.o('o')[i], c.a('p')[i]))(c.ghost('i', 0, c.n)), what='moved-from vector destroyed first', **U)
    # ---------------- matrices
    MK = ['d', 'dc', 's', 'sc', 'o', 'oc', 'sub', 'subc', 't', 'st', 'hr', 'hc', 'od']
    for km in MK:
        for T_, tag in (('Matrix<>', 'D'), ('Matrix<2,3>', 'S'), ('Matrix<Dynamic,Dynamic,double,ColMajor>', 'DC'), ('Matrix<2,3,double,ColMajor>', 'SC'), ('Matrix<2,Dynamic>', 'HR'), ('Matrix<Dynamic,3>', 'HC')):
            a = mat('m', km, 'inout')
            for how, code in (('ctor', '%s y(m);' % T_), ('assign', '%s y%s; y=m;' % (T_, '' if tag in ('S', 'SC') else '(m.num_rows(),m.num_cols())'))):
                if how == 'assign' and tag in ('HR', 'HC') and km not in ('d', 's'): continue
                def post(c, a=a):
                    r, cc = a.dims[0](c.ints), a.dims[1](c.ints)
                    i, j = c.ghost('i', 0, r), c.ghost('j', 0, cc)
                    c.eq('copy holds the element', c.o('u')[iadd(imul(i, cc), j)], a.inp(c, i, j))
                    c.eq('writing the original leaves the copy', c.o('w')[iadd(imul(i, cc), j)], a.inp(c, i, j))
                    c.all_eq('dimensions', c.o('s')[0:2], [T.R(r), T.R(cc)])
                pre = []
                if tag in ('S', 'SC', 'HR') and not isfix(a.dims[0]): pre.append('R')
                if tag in ('S', 'SC', 'HC') and not isfix(a.dims[1]): pre.append('C')
                kw = dict(noframe=bool(pre), fixed={d: {'R': 2, 'C': 3}[d] for d in pre})
                nn = (lambda z, a=a: imul(a.dims[0](z), a.dims[1](z)))
                loop = lambda e, x='y': 'for(int i=0;i<%s.num_rows();i++) for(int j=0;j<%s.num_cols();j++) %s;' % (x, x, e)
                harness(S, 'm_%s_%s_%s' % (how, km, tag), [(a, M)], ['R', 'C'], code + ' s[0]=y.num_rows(); s[1]=y.num_cols(); ' + loop('u[i*y.num_cols()+j]=y[i][j]') + loop('m[i][j]=7', 'm') + loop('w[i*y.num_cols()+j]=y[i][j]'),
                        post, [Out('s', 2), Out('u', nn), Out('w', nn)], what=code, **kw)
        if km in ('d', 'dc', 's', 'sc', 'sub', 't'):
            a = mat('m', km, 'inout')
            def post(c, a=a):
                i, j = c.ghost('i', 0, a.dims[0](c.ints)), c.ghost('j', 0, a.dims[1](c.ints)); c.eq('the copied view names the same elements', a.out(c, i, j), Fraction(5))
            harness(S, 'm_view_' + km, [(a, M)], ['R', 'C'], 'auto y(m); for(int i=0;i<y.num_rows();i++) for(int j=0;j<y.num_cols();j++) y[i][j]=5;', post)
            def post(c, a=a):
                i, j = c.ghost('i', 0, a.dims[0](c.ints)), c.ghost('j', 0, a.dims[1](c.ints)); c.eq('unchanged', a.out(c, i, j), a.inp(c, i, j))
            harness(S, 'm_self_' + km, [(a, M)], ['R', 'C'], 'm = m;', post)
    for kz, km in (('d', 'dc'), ('dc', 'd'), ('sub', 't'), ('s', 'sc'), ('sc', 's'), ('t', 'sub'), ('subc', 'd'), ('hr', 'd'), ('s', 'd')):
        a, z = mat('m', km), mat('z', kz, 'inout')
        def post(c, a=a, z=z):
            i, j = c.ghost('i', 0, z.dims[0](c.ints)), c.ghost('j', 0, z.dims[1](c.ints)); c.eq('element', z.out(c, i, j), a.inp(c, i, j))
        harness(S, 'm_asg_%s_%s' % (kz, km), [(z, M), (a, M)], ['R', 'C'], 'z = m;', post)
    for ta, tb in (('int', 'double'), ('double', 'float')):
        for k in 'ds':
            a, z = mat('m', k, ty=ta), mat('z', k, 'out', ty=tb)
            def post(c, a=a, z=z):
                i, j = c.ghost('i', 0, a.dims[0](c.ints)), c.ghost('j', 0, a.dims[1](c.ints)); c.eq('converted element', z.out(c, i, j), T.R(a.inp(c, i, j)))
            harness(S, 'm_conv_%s%s%s' % (ta[0], tb[0], k), [(a, M), (z, M)], ['R', 'C'], 'z = m;', post, f32='exact')
    RCI = [Int('R', lo=0), Int('C', lo=0)]
    def pm(c):
        i, j = c.ghost('i', 0, c.R), c.ghost('j', 0, c.C)
        c.eq('element', c.o('o')[iadd(imul(i, c.C), j)], c.a('p')[iadd(imul(i, c.C), j)]); c.all_eq('dimensions', c.o('s')[0:2], [T.R(c.R), T.R(c.C)])
    for nm, code in (('ret', 'auto f=[&]{ Matrix<> q(R,C); q=v; return q; }; Matrix<> y=f();'), ('move', 'Matrix<> q(v); Matrix<> y(std::move(q));'), ('moveassign', 'Matrix<> y(R,C); y=Matrix<>(v);'), ('param', 'auto f=[&](Matrix<> q){ return q; }; Matrix<> y=f(v);'),
                     ('T', 'Matrix<> q=v.T(); Matrix<> y=q.T();')):
        S.h('mm_' + nm, RCI + [In('p', RC), Out('o', RC), Out('s', 2)], 'const auto v=wrapMatrix(p,R,C); ' + code + ' s[0]=y.num_rows(); s[1]=y.num_cols(); for(int i=0;i<R;i++) for(int j=0;j<C;j++) o[i*C+j]=y[i][j];', pm, what=code, **U)
    # ---------------- an owner copied from an owner of the same type
    for T_, tag, fr, fc in (('Matrix<>', 'D', 0, 0), ('Matrix<Dynamic,Dynamic,double,ColMajor>', 'DC', 0, 0), ('Matrix<2,Dynamic>', 'HR', 2, 0), ('Matrix<Dynamic,3>', 'HC', 0, 3), ('Matrix<2,Dynamic,double,ColMajor>', 'HRC', 2, 0), ('Matrix<Dynamic,3,double,ColMajor>', 'HCC', 0, 3), ('Matrix<2,3>', 'S', 2, 3), ('Matrix<2,3,double,ColMajor>', 'SC', 2, 3)):
        def pc(c):
            i, j = c.ghost('i', 0, c.R), c.ghost('j', 0, c.C)
            at = iadd(imul(i, c.C), j)
            c.eq('copy holds the element', c.o('o')[at], c.a('p')[at]); c.all_eq('dimensions', c.o('s')[0:2], [T.R(c.R), T.R(c.C)])
        ints = [Int('R', val=fr) if fr else Int('R', lo=0), Int('C', val=fc) if fc else Int('C', lo=0)]
        for nm, code in (('ctor', '%s q(v); %s y(q); q*=7;' % (T_, T_)), ('assign', '%s q(v); %s y%s; y=q; q*=7;' % (T_, T_, '' if fr and fc else '(R,C)')), ('move', '%s* q=new %s(v); %s y(std::move(*q)); delete q;' % (T_, T_, T_)), ('param', 'auto f=[&](%s q){ q*=7; return 0.; }; %s y(v); s[0]=f(y);' % (T_, T_))):
            S.h('mc_%s_%s' % (nm, tag), ints + [In('p', RC), Out('o', RC), Out('s', 2)], 'const auto v=wrapMatrix(p,R,C); ' + code + ' s[0]=y.num_rows(); s[1]=y.num_cols(); for(int i=0;i<R;i++) for(int j=0;j<C;j++) o[i*C+j]=y[i][j];', pc, what=code, **U)
    for T_, tag in (('Vector<>', 'D'), ('Vector<Resizable>', 'R')):
        for nm, code in (('ctor', '%s q(v); %s y(q); q*=7;' % (T_, T_)), ('assign', '%s q(v); %s y%s; y=q; q*=7;' % (T_, T_, '(n)')), ('param', 'auto f=[&](%s q){ q*=7; return 0.; }; %s y(v); s[0]=f(y);' % (T_, T_))):
            S.h('vc_%s_%s' % (nm, tag), [Int('n', lo=0, hi=1 << 20), In('p', N), Out('o', N), Out('s', 1)], 'const auto v=wrapVector(p,n); ' + code + ' s[0]=y.size(); for(int i=0;i<n;i++) o[i]=y[i];',
                lambda c: (c.eq('size', c.o('s')[0], T.R(c.n)), (lambda i: c.eq('copy holds the element', c.o('o')[i], c.a('p')[i]))(c.ghost('i', 0, c.n))), what=code, **U)
    # ---------------- diagonal matrices
    for k, D in (('d', 'DiagonalMatrix<>'), ('s', 'DiagonalMatrix<4>')):
        a = vec('x', k, 'inout')
        def post(c, a=a):
            i = c.ghost('i', 0, a.dims[0](c.ints)); c.eq('copy holds the element', c.o('u')[i], a.inp(c, i)); c.eq('writing the original leaves the copy', c.o('w')[i], a.inp(c, i))
        nn = N if k == 'd' else 4
        for how, code in (('ctor', '%s D(x); %s y(D);' % (D, D)), ('assign', '%s D(x); %s y%s; y=D;' % (D, D, '(n)' if k == 'd' else ''))):
            harness(S, 'dg_%s_%s' % (how, k), [(a, V)], ['n'], code + ' for(int i=0;i<x.size();i++) u[i]=y[i]; for(int i=0;i<x.size();i++) x[i]=D[i]=7; for(int i=0;i<x.size();i++) w[i]=y[i];', post, [Out('u', nn), Out('w', nn)], what=code)
    # ---------------- resize
    small = lambda c: [ile(c.n, 1 << 20), ile(c.m, 1 << 20)]
    def pr(c):
        i = c.ghost('i', 0, c.m)
        c.eq('size', c.o('s')[0], T.R(c.m))
        for _ in c.due(ilt(i, c.n)): c.eq('leading elements survive a resize', c.o('o')[i], c.a('p')[i])
    for nm, code in (('resize', 'v.resize(m);'), ('twice', 'v.resize(n+m); v.resize(m);')):
        S.h('rs_' + nm, [Int('n', lo=0, hi=1 << 20), Int('m', lo=0, hi=1 << 20), In('p', N), Out('o', lambda z: z['m']), Out('s', 1)], 'Vector<Resizable> v(wrapVector(p,n)); %s s[0]=v.size(); for(int i=0;i<m;i++) o[i]=v[i];' % code, pr, what=code, **U)
    def pa(c):
        i = c.ghost('i', 0, c.m); c.eq('size', c.o('s')[0], T.R(c.m)); c.eq('element', c.o('o')[i], c.a('q')[i])
    for nm, code in (('vec', 'v = wrapVector(q,m);'), ('own', 'Vector<Resizable> w(wrapVector(q,m)); v = w;'), ('dyn', 'Vector<> w(wrapVector(q,m)); v = w;'), ('slice', 'Vector<> w(m+2); w.slice(1,m)=wrapVector(q,m); v = w.slice(1,m);'), ('expr', 'v = wrapVector(q,m)+wrapVector(q,m); v = v/2;'), ('swap', 'Vector<Resizable> w(wrapVector(q,m)); swap(v,w); if(w.size()!=n) o[0]=1/0.;'), ('default', 'Vector<Resizable> w; w=v; w=wrapVector(q,m); v=w;'), ('mul', 'v = 1*wrapVector(q,m);')):
        S.h('rsa_' + nm, [Int('n', lo=0, hi=1 << 20), Int('m', lo=0, hi=1 << 20), In('p', N), In('q', lambda z: z['m']), Out('o', lambda z: z['m']), Out('s', 1)], 'Vector<Resizable> v(wrapVector(p,n)); %s s[0]=v.size(); for(int i=0;i<m;i++) o[i]=v[i];' % code, pa, what=code, **U)
    S.h('rs_default', [Out('s', 1)], 'Vector<Resizable> v; s[0]=v.size();', lambda c: c.eq('empty', c.o('s')[0], Fraction(0)), what='default constructed resizable vector is empty', **ST)
    # ---------------- swap
    for nm, decl, fin in (('dyn', 'Vector<> x(wrapVector(a,n)), y(wrapVector(b,n));', 1), ('resz', 'Vector<Resizable> x(wrapVector(a,n)), y(wrapVector(b,n));', 1), ('view', 'auto x=wrapVector(a,n), y=wrapVector(b,n);', 0), ('mixed', 'Vector<> x(wrapVector(a,n)); auto y=wrapVector(b,n);', 1), ('mixR', 'Vector<> x(wrapVector(a,n)); Vector<Resizable> y(wrapVector(b,n));', 1)):
        def psw(c):
            i = c.ghost('i', 0, c.n); c.eq('first takes the second', c.o('a')[i], c.a('b')[i]); c.eq('second takes the first', c.o('b')[i], c.a('a')[i])
        S.h('sw_' + nm, [Int('n', lo=0, hi=1 << 20), InOut('a', N), InOut('b', N)], decl + ' swap(x,y);' + (' for(int i=0;i<n;i++){ a[i]=x[i]; b[i]=y[i]; }' if fin else ''), psw, what='swap: ' + decl, **U)
    S.h('sw_static', [InOut('a', 4), InOut('b', 4)], 'Vector<4>& x=*(Vector<4>*)a; Vector<4>& y=*(Vector<4>*)b; swap(x,y);', lambda c: (c.all_eq('first takes the second', c.o('a')[0:4], c.a('b')[0:4]), c.all_eq('second takes the first', c.o('b')[0:4], c.a('a')[0:4])), what='swap of fixed vectors', **ST)
    S.h('sw_rows', [InOut('a', 12)], 'auto m=wrapMatrix<3,4>(a); auto r=m[0]; auto q=m[2]; swap(r,q);', lambda c: c.all_eq('rows exchanged', c.o('a')[0:12], c.a('a')[8:12] + c.a('a')[4:8] + c.a('a')[0:4]), what='swap of rows', **ST)
    # ---------------- initializer lists and arrays
    for T_ in ('Vector<>', 'Vector<3>', 'Vector<Resizable>', 'Vector<Dynamic,float>'):
        S.h('il_' + T_.replace('Vector', '').strip('<>').replace(',', '_') , [Real('a'), Real('b'), Real('c_'), Out('o', 4)], ('%s v({a,b,c_});' if 'float' not in T_ else '%s v({(float)a,(float)b,(float)c_});') % T_ + ' o[3]=v.size(); for(int i=0;i<3;i++) o[i]=v[i];', lambda c: c.all_eq('elements', c.o('o')[0:4], [c.reals['a'], c.reals['b'], c.reals['c_'], Fraction(3)]), what='initializer list', f32='exact', **ST)
