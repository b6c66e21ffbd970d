from specs.views import *
def build(S):
    S.chunk = 20
    VB, MB = ['vd', 'vs', 'vo'], ['md', 'mdc', 'ms', 'msc', 'mo', 'moc', 'mhr', 'mhc', 'mhrc', 'mhcc']
    for b in VB:
        for const in (0, 1):
            view_harness(S, b, [], const)
            for o in VOPS: view_harness(S, b, [o], const)
    for b in MB:
        for const in (0, 1):
            for a in range(4): view_harness(S, b, [], const, a)
            for o in MOPS: view_harness(S, b, [o], const)
    # chains: the view of a view
    def chain(b, o1, o2, const, **kw):
        k1 = 'v' if b[0] == 'v' else 'm'
        view_harness(S, b, [o1, o2], const, **kw)
    toV = ('row', 'col', 'diag', 'vslice', 'vslice_sl', 'vslice_s', 'vslice_l', 'as_slice', 'as_diag')
    nxt = lambda o: VOPS if o in toV else MOPS
    for b in ['vd', 'vs', 'md', 'mdc', 'ms', 'msc', 'mhr', 'mhcc']:
        for o1 in (VOPS if b[0] == 'v' else MOPS):
            for o2 in nxt(o1):
                view_harness(S, b, [o1, o2], 0)
                if b in ('vd', 'md', 'msc'): view_harness(S, b, [o1, o2], 1)
    for b in ['mo', 'moc', 'mhc', 'mhrc', 'vo']:
        for o1 in (VOPS if b[0] == 'v' else MOPS):
            for o2 in nxt(o1): view_harness(S, b, [o1, o2], 0, quick=False)
    for b in ['md', 'msc', 'mhr', 'vd']:
        for o1 in (VOPS if b[0] == 'v' else MOPS):
            for o2 in nxt(o1):
                for o3 in nxt(o2): view_harness(S, b, [o1, o2, o3], 0, quick=False)
    for ops in (['T', 'msliced', 'diag'], ['msliced', 'T', 'row'], ['msliced', 'row', 'vslice'], ['col', 'vslice', 'as_col'], ['T', 'mslicem1', 'msliced'], ['diag', 'as_row', 'T'], ['mslices', 'T', 'diag']):
        for b in ('md', 'mdc', 'ms', 'msc'): view_harness(S, b, ops, 0)
    # owning objects whose storage is on the heap
    n = lambda z: z['n']
    NM = lambda z: imul(z['R'], z['C'])
    U = dict(kind='unbounded', opts=dict(loops=True), group=None)
    own = [('dyn', 'Vector<> x=wrapVector(p,n);'), ('resz', 'Vector<Resizable> x(n); x=wrapVector(p,n);')]
    for nm, mk_ in own[:1]:
        def post(c):
            c.eq('read', c.o('rd')[0], c.a('p')[iadd(c.s, c.i)])
            c.eq('read back', c.o('rd')[1], c.val)
            g = c.ghost('g', 0, c.n)
            c.eq('only that element written', c.o('q')[g], ite(ieq(g, iadd(c.s, c.i)), c.val, c.a('p')[g]))
        S.h('own_' + nm, [Int('n', lo=1), Int('s', lo=0), Int('l', lo=0), Int('i', lo=0), In('p', n), Out('q', n), Out('rd', 2), Real('val')],
            mk_ + ' { auto w=x.slice(s,l); rd[0]=w[i]; w[i]=val; rd[1]=x[s+i]; } wrapVector(q,n)=x;', post,
            pre=lambda c: [ile(iadd(c.s, c.l), c.n), ilt(c.i, c.l)], what='slice of an owning dynamic vector aliases its storage', **U)
    for nm, ty in (('rm', 'Matrix<>'), ('cm', 'Matrix<-1,-1,double,ColMajor>')):
        def post(c):
            at = iadd(imul(c.i, c.C), c.j)
            c.eq('read', c.o('rd')[0], c.a('p')[at]); c.eq('transpose aliases', c.o('rd')[1], c.val)
            r = c.ghost('r', 0, c.R); q = c.ghost('q', 0, c.C)
            c.eq('only that element written', c.o('q')[iadd(imul(r, c.C), q)], ite(land(ieq(r, c.i), ieq(q, c.j)), c.val, c.a('p')[iadd(imul(r, c.C), q)]))
        S.h('own_' + nm, [Int('R', lo=1), Int('C', lo=1), Int('i', lo=0), Int('j', lo=0), In('p', NM), Out('q', NM), Out('rd', 2), Real('val')],
            ty + ' x=wrapMatrix(p,R,C); { auto w=x.T(); rd[0]=w[j][i]; x[i][j]=val; rd[1]=w[j][i]; } wrapMatrix(q,R,C)=x;', post,
            pre=lambda c: [ilt(c.i, c.R), ilt(c.j, c.C)], what='transpose of an owning dynamic matrix aliases its storage', **U)
    # storage order of owning matrices through the raw pointer, static and dynamic
    for nm, ty, col in (('srm', 'Matrix<3,5>', 0), ('scm', 'Matrix<3,5,double,ColMajor>', 1)):
        def post(c, col=col):
            for r in range(3):
                for k in range(5):
                    c.eq('raw[%d][%d]' % (r, k), c.o('o')[k * 3 + r if col else r * 5 + k], c.a('p')[r * 5 + k])
        S.h('raw_' + nm, [In('p', 15), Out('o', 15)], ty + ' x=wrapMatrix<3,5>(p); for(int i=0;i<15;i++) o[i]=x.get_data_ptr()[i];', post, group=None, what='storage order')
    def post(c):
        for r in range(2):
            for k in range(3): c.eq('raw', c.o('o')[k * 2 + r], c.a('p')[r * 3 + k])
    S.h('raw_dcm', [In('p', 6), Out('o', 6)], 'Matrix<-1,-1,double,ColMajor> x=wrapMatrix(p,2,3); for(int i=0;i<6;i++) o[i]=x.get_data_ptr()[i];', post, group=None, what='storage order')
    # heap-stored static objects, other element types, wrap helpers
    def post(c):
        c.eq('a', c.o('o')[0], c.a('p')[17]); c.eq('b', c.o('o')[1], c.a('p')[199]); c.eq('w', c.o('o')[2], c.val); c.eq('size', c.o('o')[3], 200)
    S.h('big_static', [In('p', 200), Out('o', 4), Real('val')], 'Vector<200> x=wrapVector<200>(p); auto w=x.slice<10,100>(); o[0]=w[7]; o[1]=x.slice(150,50)[49]; w[3]=val; o[2]=x[13]; o[3]=x.size();', post, group=None, what='static vector too large for the stack')
    def post(c):
        c.eq('f', c.o('f')[0], c.a('pf')[2]); c.eq('i', c.o('k')[0], c.a('pi')[5]); c.eq('wv', c.o('o')[0], c.a('p')[1]); c.eq('wm', c.o('o')[1], c.a('p')[5])
        c.eq('wms', c.o('o')[2], c.a('p')[4]); c.eq('wvd', c.o('o')[3], c.a('p')[3]); c.eq('sizes', c.o('o')[4], Fraction(2306))
    S.h('types_wrap', [In('pf', 6, 'float'), In('pi', 6, 'int'), In('p', 6), Out('f', 1, 'float'), Out('k', 1, 'int'), Out('o', 5)],
        'f[0]=wrapVector<6,float>(pf).slice<1,4>()[1]; k[0]=wrapMatrix<3,2,int>(pi).T()[1][2]; o[0]=wrapVector(p,6)[1]; o[1]=wrapMatrix(p,2,3)[1][2]; o[2]=wrapMatrix<2,3>(p)(1,1); o[3]=wrapVector<6>(p)[3];'
        'o[4]=wrapMatrix(p,2,3).num_rows()*1000+wrapMatrix(p,2,3).num_cols()*100+wrapVector(p,6).size();', post, group=None, what='element types and wrap helpers', f32='exact')
    # a diagonal matrix viewed through its own interface
    def post(c):
        c.eq('index', c.o('o')[0], c.a('p')[1]); c.eq('slice write', c.o('o')[1], c.val); c.eq('other', c.o('o')[2], c.a('p')[0])
    S.h('diagmat', [In('p', 3), Out('o', 3), Real('val')], 'DiagonalMatrix<3> d(wrapVector<3>(p)); o[0]=d[1]; d.diagonal_slice()[2]=val; const DiagonalMatrix<3>& cd=d; o[1]=cd[2]; o[2]=cd[0];', post, group=None, what='diagonal matrix element access')
    def post(c):
        for k in range(3): c.eq('o%d' % k, c.o('o')[k], c.a('p')[k])
    S.h('diagmat_const', [In('p', 3), Out('o', 3)], 'const DiagonalMatrix<3> d(wrapVector<3>(p)); for(int i=0;i<3;i++) o[i]=d.diagonal_slice()[i];', post, what='diagonal_slice of a const diagonal matrix')
