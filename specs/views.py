"""Combinatorial contracts for view pipelines: every base object x chain of view
operations is turned into one harness together with the address map the chain
must implement.  Dimensions, offsets and lengths stay symbolic."""
from toonvc.fw import *

class VW:
    """a view under construction: kind, dims (functions of ints), linear index map"""
    def __init__(self, kind, dims, idx, sdims):
        self.kind, self.dims, self.idx, self.sdims = kind, dims, idx, sdims   # sdims: static sizes or None
        self.parts = [[d] for d in dims]      # each dimension is the minimum of its parts
    def within(self, k, x):
        """constraints for x <= dims[k]"""
        return [(lambda z, f=f: ile(x(z), f(z))) for f in self.parts[k]]

def base(name):
    """-> (C++ expr creating object from double* p, params, VW, total size fn)"""
    V = lambda n, s=None: VW('v', [n], lambda z, i: i, [s])
    def M(r, c, col, sr=None, sc=None):
        return VW('m', [r, c], (lambda z, i, j: iadd(imul(j, r(z)), i)) if col else (lambda z, i, j: iadd(imul(i, c(z)), j)), [sr, sc])
    N, Rr, Cc = (lambda z: z['n']), (lambda z: z['R']), (lambda z: z['C'])
    k = lambda v: (lambda z: v)
    IR, IC, IN = Int('R', lo=1), Int('C', lo=1), Int('n', lo=1)
    B = {
     'vd':  ('Vector<Dynamic,double,Reference> x(p,n);', [IN], V(N)),
     'vs':  ('Vector<7,double,Reference> x(p);', [], V(k(7), 7)),
     'vo':  ('static_assert(sizeof(Vector<7>)==7*sizeof(double),""); Vector<7>& x=*reinterpret_cast<Vector<7>*>(p);', [], V(k(7), 7)),
     'md':  ('Matrix<-1,-1,double,RefR> x(p,R,C);', [IR, IC], M(Rr, Cc, 0)),
     'mdc': ('Matrix<-1,-1,double,RefC> x(p,R,C);', [IR, IC], M(Rr, Cc, 1)),
     'ms':  ('Matrix<4,6,double,RefR> x(p);', [], M(k(4), k(6), 0, 4, 6)),
     'msc': ('Matrix<4,6,double,RefC> x(p);', [], M(k(4), k(6), 1, 4, 6)),
     'mo':  ('static_assert(sizeof(Matrix<4,6>)==24*sizeof(double),""); Matrix<4,6>& x=*reinterpret_cast<Matrix<4,6>*>(p);', [], M(k(4), k(6), 0, 4, 6)),
     'moc': ('Matrix<4,6,double,ColMajor>& x=*reinterpret_cast<Matrix<4,6,double,ColMajor>*>(p);', [], M(k(4), k(6), 1, 4, 6)),
     'mhr': ('Matrix<4,-1,double,RefR> x(p,4,C);', [IC], M(k(4), Cc, 0, 4, None)),
     'mhc': ('Matrix<-1,6,double,RefR> x(p,R,6);', [IR], M(Rr, k(6), 0, None, 6)),
     'mhrc': ('Matrix<4,-1,double,RefC> x(p,4,C);', [IC], M(k(4), Cc, 1, 4, None)),
     'mhcc': ('Matrix<-1,6,double,RefC> x(p,R,6);', [IR], M(Rr, k(6), 1, None, 6)),
    }
    e, ps, v = B[name]
    tot = (lambda z: z['n']) if name == 'vd' else k(7) if v.kind == 'v' else (lambda z: imul(v.dims[0](z), v.dims[1](z)))
    return e, ps, v, tot

class Gen:
    def __init__(self): self.params, self.pre, self.code, self.n = [], [], [], 0
    def sym(self, stem):
        self.n += 1
        nm = '%s%d' % (stem, self.n)
        self.params.append(Int(nm, lo=0))
        return nm

def keep(w, parts): w.parts = parts; return w
def op(g, name, v, cur, nxt, const, chk=True):
    """apply view operation; returns new VW or None when not applicable.  chk: the
    precondition requires valid arguments (else the caller collects abort conditions)"""
    kind = v.kind
    d = v.dims
    C = lambda x: (lambda z: x)
    P = lambda nm: (lambda z: z[nm])
    tpl = 'template ' if False else ''
    if kind == 'v':
        n = d[0]
        if name in ('vslice', 'vslice_sl', 'vslice_s', 'vslice_l'):
            S = None if name in ('vslice', 'vslice_l') else 2
            L = None if name in ('vslice', 'vslice_s') else 3
            if v.sdims[0] is not None and (S or 0) + (L or 0) > v.sdims[0]: return None
            s = g.sym('s') if S is None else None
            l = g.sym('l') if L is None else None
            st = P(s) if s else C(S)
            ln = P(l) if l else C(L)
            g.pre += v.within(0, lambda z: iadd(st(z), ln(z)))
            if name == 'vslice': e = '%s.slice(%s,%s)' % (cur, s, l)
            elif name == 'vslice_sl': e = '%s.slice<2,3>()' % cur
            elif name == 'vslice_s': e = '%s.slice<2,-1>(2,%s)' % (cur, l)
            else: e = '%s.slice<-1,3>(%s,3)' % (cur, s)
            g.code.append('auto&& %s = %s;' % (nxt, e))
            return VW('v', [ln], lambda z, i: v.idx(z, iadd(i, st(z))), [L])
        if name == 'as_row':
            g.code.append('auto&& %s = %s.as_row();' % (nxt, cur))
            return keep(VW('m', [C(1), n], lambda z, i, j: v.idx(z, j), [1, v.sdims[0]]), [[C(1)], v.parts[0]])
        if name == 'as_col':
            g.code.append('auto&& %s = %s.as_col();' % (nxt, cur))
            return keep(VW('m', [n, C(1)], lambda z, i, j: v.idx(z, i), [v.sdims[0], 1]), [v.parts[0], [C(1)]])
        if name == 'as_slice':
            g.code.append('auto&& %s = %s.as_slice();' % (nxt, cur))
            return keep(VW('v', [n], v.idx, v.sdims), v.parts)
        if name == 'as_diag':
            g.code.append('auto&& %sd = %s.as_diagonal(); auto&& %s = %sd.diagonal_slice();' % (nxt, cur, nxt, nxt))
            return keep(VW('v', [n], v.idx, v.sdims), v.parts)
    else:
        r, c = d
        if name == 'T':
            g.code.append('auto&& %s = %s.T();' % (nxt, cur))
            return keep(VW('m', [c, r], lambda z, i, j: v.idx(z, j, i), [v.sdims[1], v.sdims[0]]), [v.parts[1], v.parts[0]])
        if name == 'row':
            s = g.sym('r')
            g.pre += v.within(0, lambda z: iadd(z[s], 1))
            g.code.append('auto&& %s = %s[%s];' % (nxt, cur, s))
            return keep(VW('v', [c], lambda z, j: v.idx(z, z[s], j), [v.sdims[1]]), [v.parts[1]])
        if name == 'col':
            s = g.sym('c')
            g.pre += v.within(1, lambda z: iadd(z[s], 1))
            g.code.append('auto&& %s = %s.T()[%s];' % (nxt, cur, s))
            return keep(VW('v', [r], lambda z, i: v.idx(z, i, z[s]), [v.sdims[0]]), [v.parts[0]])
        if name == 'diag':
            g.code.append('auto&& %s = %s.diagonal_slice();' % (nxt, cur))
            sd = None if None in v.sdims else min(v.sdims)
            w = VW('v', [lambda z: ite(ile(r(z), c(z)), r(z), c(z))], lambda z, i: v.idx(z, i, i), [sd])
            w.parts = [v.parts[0] + v.parts[1]]
            return w
        if name.startswith('mslice'):
            kk = name[6:]
            S = dict(d=(None,) * 4, s=(1, 2, 2, 3), m1=(1, None, 2, None), m2=(None, 1, None, 2))[kk]
            if v.sdims[0] is not None and (S[0] or 0) + (S[2] or 0) > v.sdims[0]: return None
            if v.sdims[1] is not None and (S[1] or 0) + (S[3] or 0) > v.sdims[1]: return None
            nm = [g.sym(x) if y is None else None for x, y in zip(('rs', 'cs', 'rl', 'cl'), S)]
            f = [P(a) if a else C(y) for a, y in zip(nm, S)]
            g.pre += v.within(0, lambda z: iadd(f[0](z), f[2](z)))
            g.pre += v.within(1, lambda z: iadd(f[1](z), f[3](z)))
            arg = ','.join(a if a else str(y) for a, y in zip(nm, S))
            tp = '' if kk == 'd' else '<%s>' % ','.join('-1' if y is None else str(y) for y in S)
            g.code.append('auto&& %s = %s.slice%s(%s);' % (nxt, cur, tp, '' if kk == 's' else arg))
            return VW('m', [f[2], f[3]], lambda z, i, j: v.idx(z, iadd(i, f[0](z)), iadd(j, f[1](z))), [S[2], S[3]])
    return None


VOPS = ['vslice', 'vslice_sl', 'vslice_s', 'vslice_l', 'as_row', 'as_col', 'as_slice', 'as_diag']
MOPS = ['T', 'row', 'col', 'diag', 'msliced', 'mslices', 'mslicem1', 'mslicem2']
ACC_M = ['%s[i][j]', '%s(i,j)', '%s[std::make_pair(i,j)]', '%s.T()[j][i]']

def view_harness(S, bname, ops, const, acc=0, **kw):
    expr, ps, v, tot = base(bname)
    g = Gen()
    g.params = list(ps)
    if const:
        g.code.append(expr.replace(' x(', ' x_(').replace('& x=', '& x_=') + ' const auto& x = x_;')
    else: g.code.append(expr)
    cur = 'x'
    for k, o in enumerate(ops):
        v = op(g, o, v, cur, 'w%d' % k, const)
        if v is None: return False
        cur = 'w%d' % k
    g.params.append(Int('i', lo=0))
    if v.kind == 'm': g.params.append(Int('j', lo=0))
    ps2 = g.params + [InOut('p', tot), Out('sz', 2, 'int'), Out('rd', 1)] + ([] if const else [Real('val')])
    for p in ps2:
        if isinstance(p, Param) and p.name == 'p': p.sym = True
    if v.kind == 'v':
        e = '%s[i]' % cur
        g.code.append('sz[0]=%s.size(); sz[1]=0;' % cur)
    else:
        e = ACC_M[acc] % cur
        g.code.append('sz[0]=%s.num_rows(); sz[1]=%s.num_cols();' % (cur, cur))
    g.code.append('rd[0]=%s;' % e)
    if not const: g.code.append('%s=val;' % e)
    def pre(c):
        z = c.ints
        out = [f(z) for f in g.pre]
        out += [f(z) for f in v.within(0, lambda z: iadd(z['i'], 1))]
        if v.kind == 'm': out += [f(z) for f in v.within(1, lambda z: iadd(z['j'], 1))]
        return out
    def post(c):
        z = c.ints
        lin = v.idx(z, c.i) if v.kind == 'v' else v.idx(z, c.i, c.j)
        if v.kind == 'v': c.eq('size', c.o('sz')[0], v.dims[0](z))
        else:
            c.eq('num_rows', c.o('sz')[0], v.dims[0](z)); c.eq('num_cols', c.o('sz')[1], v.dims[1](z))
        c.eq('element read through the view', c.o('rd')[0], c.a('p')[lin])
        q = c.ghost('g', 0, tot(z))
        if const: c.eq('parent unchanged', c.o('p')[q], c.a('p')[q])
        else: c.eq('only that element written', c.o('p')[q], ite(ieq(q, lin), c.val, c.a('p')[q]))
    nm = '%s%s_%s%s' % ('c_' if const else '', bname, '_'.join(ops) or 'elem', '' if acc == 0 else '_a%d' % acc)
    zz = {p.name: p.val if p.val is not None else ivar(p.name) for p in g.params}
    if any(f(zz) is False for f in g.pre): return False
    if nm in S.byname:
        if kw.get('quick', True): S.byname[nm].quick = True
        return True
    S.h(nm, ps2, ' '.join(g.code), post, pre=pre, kind='unbounded', opts=dict(loops=True), group=None, what='view chain %s on %s' % ('.'.join(ops) or 'element', bname), **kw)
    return True
