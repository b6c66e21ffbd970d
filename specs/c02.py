from specs.views import *
I32 = dict(lo=-(1 << 31), hi=(1 << 31) - 1)
CB = ('-DTOON_CHECK_BOUNDS',)
def build(S):
    S.chunk = 16
    S.flags = list(CB)
    # the element of the parent may be anything: only the checks are under contract here
    U = dict(kind='unbounded', opts=dict(loops=True), group=None)
    UO = dict(kind='unbounded', opts=dict(loops=True, check_overflow=True), group=None)
    bad = lambda i, n: lor(ilt(i, 0), ile(n, i))
    def outside(s, l, n): return lor(ilt(s, 0), ilt(l, 0), ilt(n, iadd(s, l)))
    def acc(bname, const, code, ps, cond, nm, o=U):
        expr, bps, v, tot = base(bname)
        e = (expr.replace(' x(', ' x_(').replace('& x=', '& x_=') + ' const auto& x = x_;') if const else expr
        P = In('p', tot); P.sym = True
        kw = dict(o)
        if o is not U and bname != 'vo': kw['pre'] = lambda c: [ile(tot(c.ints), (1 << 31) - 1)]
        S.h('%s%s_%s' % ('c_' if const else '', bname, nm), bps + ps + [P, Out('rd', 1)], (e + code).replace('(double*)', '').replace('(p', '((double*)p'), lambda c: None,
            abort=lambda c: cond(c, v), what='%s checked on %s' % (nm, bname), **kw)
    for b in ('vd', 'vs', 'vo'):
        for k in (0, 1):
            acc(b, k, 'rd[0]=x[i];', [Int('i', **I32)], lambda c, v: bad(c.i, v.dims[0](c.ints)), 'index')
            acc(b, k, 'auto&& w=x.slice(s,l); rd[0]=w.size();', [Int('s', **I32), Int('l', **I32)], lambda c, v: outside(c.s, c.l, v.dims[0](c.ints)), 'slice', UO)
            acc(b, k, 'auto&& w=x.template slice<2,-1>(s,l); rd[0]=w.size();'.replace('template ', ''), [Int('s', **I32), Int('l', **I32)], lambda c, v: lor(lnot(ieq(c.s, 2)), outside(2, c.l, v.dims[0](c.ints))), 'slice_static_start', UO)
            acc(b, k, 'auto&& w=x.slice<-1,3>(s,l); rd[0]=w.size();', [Int('s', **I32), Int('l', **I32)], lambda c, v: lor(lnot(ieq(c.l, 3)), outside(c.s, 3, v.dims[0](c.ints))), 'slice_static_length', UO)
            acc(b, k, 'auto&& w=x.slice<2,3>(); rd[0]=w.size();', [], lambda c, v: outside(2, 3, v.dims[0](c.ints)), 'slice_static', UO)
    for b in ('md', 'mdc', 'ms', 'msc', 'mo', 'moc', 'mhr', 'mhc', 'mhrc', 'mhcc'):
        ij = [Int('i', **I32), Int('j', **I32)]
        rc = lambda c, v: lor(bad(c.i, v.dims[0](c.ints)), bad(c.j, v.dims[1](c.ints)))
        for k in (0, 1):
            acc(b, k, 'rd[0]=x(i,j);', ij, rc, 'call')
            acc(b, k, 'rd[0]=x[i][j];', ij, rc, 'brackets')
            acc(b, k, 'rd[0]=x[std::make_pair(i,j)];', ij, rc, 'pair')
            acc(b, k, 'rd[0]=x[i].size();', ij[:1], lambda c, v: bad(c.i, v.dims[0](c.ints)), 'row')
            acc(b, k, 'rd[0]=x.T()[j][i];', ij, rc, 'transposed')
            acc(b, k, 'auto&& d=x.diagonal_slice(); rd[0]=d[i];', ij[:1], lambda c, v: lor(bad(c.i, v.dims[0](c.ints)), bad(c.i, v.dims[1](c.ints))), 'diagonal')
            q4 = [Int(x, **I32) for x in ('rs', 'cs', 'rl', 'cl')]
            acc(b, k, 'auto&& w=x.slice(rs,cs,rl,cl); rd[0]=w.num_rows();', q4, lambda c, v: lor(outside(c.rs, c.rl, v.dims[0](c.ints)), outside(c.cs, c.cl, v.dims[1](c.ints))), 'slice', dict(UO, opts=dict(loops=True, check_overflow='addsub')))
            acc(b, k, 'auto&& w=x.slice<1,-1,2,-1>(1,cs,2,cl); rd[0]=w.num_rows();', [q4[1], q4[3]], lambda c, v: lor(outside(1, 2, v.dims[0](c.ints)), outside(c.cs, c.cl, v.dims[1](c.ints))), 'slice_rows_static')
            acc(b, k, 'auto&& w=x.slice<-1,1,-1,2>(rs,1,rl,2); rd[0]=w.num_rows();', [q4[0], q4[2]], lambda c, v: lor(outside(c.rs, c.rl, v.dims[0](c.ints)), outside(1, 2, v.dims[1](c.ints))), 'slice_cols_static')
            acc(b, k, 'auto&& w=x.slice<1,1,2,3>(); rd[0]=w.num_rows();', [], lambda c, v: lor(outside(1, 2, v.dims[0](c.ints)), outside(1, 3, v.dims[1](c.ints))), 'slice_static')
            acc(b, k, 'auto&& w=x.slice<1,1,2,3>(rs,cs,rl,cl); rd[0]=w.num_rows();', q4, lambda c, v: lor(lnot(ieq(c.rs, 1)), lnot(ieq(c.cs, 1)), lnot(ieq(c.rl, 2)), lnot(ieq(c.cl, 3)), outside(1, 2, v.dims[0](c.ints)), outside(1, 3, v.dims[1](c.ints))), 'slice_static_args')
    acc('vd', 0, 'DiagonalMatrix<Dynamic,double,Reference> d(p,n); rd[0]=d[i];', [Int('i', **I32)], lambda c, v: bad(c.i, c.n), 'diagonalmatrix')
    # ---- operand sizes
    N, M = (lambda z: z['n']), (lambda z: z['m'])
    def vv(nm, code, w='', lo=0, outn=1):
        S.h('sz_' + nm, [Int('n', lo=lo), Int('m', lo=lo), InOut('a', N), In('b', M), Out('o', 1)], 'auto x=wrapVector(a,n); const auto y=wrapVector(b,m); ' + code, lambda c: None, abort=lambda c: lnot(ieq(c.n, c.m)), what='size agreement: ' + (w or code), **U)
    for nm, code in [('assign', 'x=y;'), ('add', 'Vector<> r=x+y; *o=r.size();'), ('sub', 'Vector<> r=x-y; *o=r.size();'), ('dot', '*o=x*y;'), ('pluseq', 'x+=y;'), ('minuseq', 'x-=y;'),
                     ('diagmult', 'Vector<> r=diagmult(x,y); *o=r.size();'), ('dd', 'DiagonalMatrix<> d1(x), d2(y); DiagonalMatrix<> d=d1*d2; *o=d.diagonal_slice().size();'),
                     ('dv', 'DiagonalMatrix<> d(x); Vector<> r=d*y; *o=r.size();'), ('vd', 'DiagonalMatrix<> d(y); Vector<> r=x*d; *o=r.size();'),
                     ('dyn_assign', 'Vector<> t(n); t=y;'), ('resz_pluseq', 'Vector<Resizable> t; t.resize(n); t=x; t+=y;')]:
        if nm.startswith('resz'): continue
        vv(nm, code)
    S.h('sz_swap', [Int('n', lo=0), Int('m', lo=0), InOut('a', N), InOut('b', M)], 'auto x=wrapVector(a,n); auto y=wrapVector(b,m); swap(x,y);', lambda c: None, abort=lambda c: lnot(ieq(c.n, c.m)), what='size agreement of swap', **U)
    S.h('sz_swap_own', [Int('n', lo=0), Int('m', lo=0)], 'Vector<> x(n), y(m); swap(x,y);', lambda c: None, abort=lambda c: lnot(ieq(c.n, c.m)), what='size agreement of swap', **U)
    # ordering comparisons return early, so a mismatch must be noticed before any element is looked at
    for nm, op in (('eq', '=='), ('ne', '!=')):
        vv(nm, '*o = (x%sy);' % op)
    # a fixed size against a run-time size
    def sv(nm, code, k=4):
        S.h('szs_' + nm, [Int('m', lo=0), InOut('a', 4), InOut('b', M), Out('o', 1)], 'auto x=wrapVector<4>(a); auto y=wrapVector(b,m); ' + code, lambda c: None, abort=lambda c: lnot(ieq(c.m, 4)), what='size agreement (fixed against run-time): ' + code, **U)
    for nm, code in [('assign', 'x=y;'), ('assign2', 'y=x;'), ('add', 'Vector<4> r=x+y; *o=r[0];'), ('sub', 'Vector<4> r=y-x; *o=r[0];'), ('dot', '*o=x*y;'), ('dot2', '*o=y*x;'), ('pluseq', 'x+=y;'), ('minuseq', 'y-=x;'), ('pluseq2', 'y+=x;'), ('minuseq2', 'x-=y;'), ('eq', '*o=(x==y);'), ('ne', '*o=(y!=x);'), ('diagmult', 'Vector<4> r=diagmult(x,y); *o=r[0];'), ('ctor', 'Vector<4> r=y; *o=r[0];'), ('data', 'y=Data(1,2,3,4);'), ('dv', 'DiagonalMatrix<4> d(x); Vector<4> r=d*y; *o=r[1];'), ('swap', 'swap(x,y);')]:
        sv(nm, code)
    S.h('szs_init', [Int('m', lo=0), InOut('b', M)], 'auto y=wrapVector(b,m); y=makeVector(1,2,3);', lambda c: None, abort=lambda c: lnot(ieq(c.m, 3)), what='assignment from makeVector', **U)
    # matrices: all four dimensions free
    A = [Int('R', lo=0), Int('C', lo=0), Int('R2', lo=0), Int('C2', lo=0)]
    AR, BR = (lambda z: imul(z['R'], z['C'])), (lambda z: imul(z['R2'], z['C2']))
    same = lambda c: lnot(land(ieq(c.R, c.R2), ieq(c.C, c.C2)))
    LAY = {'rr': ('Matrix<-1,-1,double,RefR> x(a,R,C); ', 'Matrix<-1,-1,double,RefR> y(b,R2,C2); '), 'rc': ('Matrix<-1,-1,double,RefR> x(a,R,C); ', 'Matrix<-1,-1,double,RefC> y(b,R2,C2); ')}
    for lay, (lx, ly) in LAY.items():
        for nm, code in [('assign', 'x=y;'), ('add', 'Matrix<> r=x+y; *o=r.num_rows();'), ('sub', 'Matrix<> r=x-y; *o=r.num_rows();'), ('pluseq', 'x+=y;'), ('minuseq', 'x-=y;'), ('eq', '*o=(x==y);'), ('ne', '*o=(x!=y);')]:
            S.h('szm_%s_%s' % (nm, lay), A + [InOut('a', AR), InOut('b', BR), Out('o', 1)], lx + ly + code, lambda c: None, abort=same, what='matrix size agreement: ' + code, **U)
    S.h('szm_assign_same', A + [InOut('a', AR), InOut('b', BR)], 'Matrix<-1,-1,double,RefR> x(a,R,C), y(b,R2,C2); x=y;', lambda c: None, abort=same, what='matrix copy assignment of the same type', **U)
    S.h('szm_assign_op', A + [InOut('b', BR)], 'Matrix<> x(R,C); Matrix<> y(R2,C2); y=wrapMatrix(b,R2,C2); x=y;', lambda c: None, abort=same, what='assignment between owning matrices', **U)
    S.h('szm_mul', A + [InOut('a', AR), InOut('b', BR), Out('o', 1)], 'Matrix<> r=wrapMatrix(a,R,C)*wrapMatrix(b,R2,C2); *o=r.num_rows();', lambda c: None, abort=lambda c: lnot(ieq(c.C, c.R2)), what='inner dimensions of a product', **U)
    V = [Int('R', lo=0), Int('C', lo=0), Int('n', lo=0), In('a', AR), In('v', N), Out('o', 1)]
    for nm, code, dim in [('mv', 'Vector<> r=x*y;', 'C'), ('vm', 'Vector<> r=y*x;', 'R'), ('dmv', 'Matrix<> r=diagmult(x,y);', 'C'), ('dvm', 'Matrix<> r=diagmult(y,x);', 'R'), ('md', 'DiagonalMatrix<> d(y); Matrix<> r=x*d;', 'C'), ('dm', 'DiagonalMatrix<> d(y); Matrix<> r=d*x;', 'R')]:
        S.h('szmv_' + nm, V, 'const auto x=wrapMatrix(a,R,C); const auto y=wrapVector(v,n); ' + code + ' *o=1;', lambda c: None, abort=lambda c, dim=dim: lnot(ieq(c.ints[dim], c.n)), what='matrix against vector: ' + code, **U)
    # fixed against run-time dimensions
    D = [Int('R', lo=0), Int('C', lo=0), InOut('a', 6), InOut('b', AR), Out('o', 1)]
    for nm, code in [('assign', 'x=y;'), ('assign2', 'y=x;'), ('add', 'Matrix<2,3> r=x+y; *o=r[0][0];'), ('sub', 'Matrix<2,3> r=y-x; *o=r[0][0];'), ('pluseq', 'y+=x;'), ('minuseq', 'x-=y;'), ('eq', '*o=(x==y);'), ('ne', '*o=(y!=x);'), ('ctor', 'Matrix<2,3> r=y; *o=r[0][0];')]:
        S.h('szms_' + nm, D, 'Matrix<2,3,double,RefR> x(a); auto y=wrapMatrix(b,R,C); ' + code, lambda c: None, abort=lambda c: lnot(land(ieq(c.R, 2), ieq(c.C, 3))), what='fixed against run-time matrix: ' + code, **U)
    S.h('szms_mul', D, 'Matrix<2,3,double,RefR> x(a); auto y=wrapMatrix(b,R,C); Matrix<> r=x*y; *o=r.num_cols();', lambda c: None, abort=lambda c: lnot(ieq(c.R, 3)), what='fixed against run-time product', **U)
    S.h('szms_mul2', D, 'Matrix<2,3,double,RefR> x(a); auto y=wrapMatrix(b,R,C); Matrix<> r=y*x; *o=r.num_cols();', lambda c: None, abort=lambda c: lnot(ieq(c.C, 2)), what='fixed against run-time product', **U)
    S.h('szms_mv', D, 'auto v=wrapVector<6>(a); auto y=wrapMatrix(b,R,C); Vector<> r=y*v; *o=r.size();', lambda c: None, abort=lambda c: lnot(ieq(c.C, 6)), what='run-time matrix times fixed vector', **U)
    S.h('szms_vm', D, 'auto v=wrapVector<6>(a); auto y=wrapMatrix(b,R,C); Vector<> r=v*y; *o=r.size();', lambda c: None, abort=lambda c: lnot(ieq(c.R, 6)), what='fixed vector times run-time matrix', **U)
    # square-only operations
    SQ = [Int('R', lo=0), Int('C', lo=0), InOut('a', AR)]
    for nm, code in [('ident', 'x=Identity;'), ('pluseq', 'x+=Identity;'), ('add', 'Matrix<> r=x+2*Identity;'), ('sub', 'Matrix<> r=x-2*Identity;'), ('rsub', 'Matrix<> r=2*Identity-x;')]:
        S.h('sq_' + nm, SQ, 'auto x=wrapMatrix(a,R,C); ' + code, lambda c: None, abort=lambda c: lnot(ieq(c.R, c.C)), what='square matrix required: ' + code, **U)
    S.h('data_matrix', [Int('R', lo=0), Int('C', lo=0), InOut('a', AR)], 'auto x=wrapMatrix(a,R,C); x=Data(1,2,3,4,5,6);', lambda c: None, abort=lambda c: lnot(ieq(imul(c.R, c.C), 6)), what='element count of Data', **U)
