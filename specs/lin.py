"""Operands of linear-algebra contracts: every storage kind a caller can hand to
the library, with the address map that says where element (i) or (i,j) lives."""
from toonvc.fw import *

K = lambda v: (lambda z: v)
U = dict(kind='unbounded', opts=dict(loops=True), group=None)
ST = dict(kind='static', group=None)

class Opd:
    def __init__(self, name, code, params, dims, at, tot, mode, ty, gap=None, own=False):
        self.name, self.code, self.params, self.dims, self.at, self.tot, self.mode, self.ty, self.gap, self.own = name, code, params, dims, at, tot, mode, ty, gap, own
    def param(self): return Param('p' + self.name, self.tot, self.ty, self.mode)
    def inp(self, c, *ij): return c.a('p' + self.name)[self.at(c.ints, *ij)]
    def out(self, c, *ij): return c.o('p' + self.name)[self.at(c.ints, *ij)]

def vec(name, kind, mode='in', n='n', ty='double', size=4):
    """kinds: d run-time sized, s fixed size view, o fixed size owning, c strided column, l slice,
    od owning run-time sized copy, r resizable copy"""
    N = (lambda z: z[n])
    x, p = name, '((%s*)p%s)' % (ty, name)
    idn = lambda z, i: i
    if kind == 'd': return Opd(x, 'Vector<Dynamic,%s,Reference> %s(%s,%s);' % (ty, x, p, n), [], [N], idn, N, mode, ty)
    if kind == 's': return Opd(x, 'Vector<%d,%s,Reference> %s(%s);' % (size, ty, x, p), [], [K(size)], idn, K(size), mode, ty)
    if kind == 'o': return Opd(x, 'Vector<%d,%s>& %s=*(Vector<%d,%s>*)%s;' % (size, ty, x, size, ty, p), [], [K(size)], idn, K(size), mode, ty)
    if kind == 'od': return Opd(x, 'Vector<Dynamic,%s> %s(%s); %s=Vector<Dynamic,%s,Reference>(%s,%s);' % (ty, x, n, x, ty, p, n), [], [N], idn, N, mode, ty, own=True)
    if kind == 'r': return Opd(x, 'Vector<Resizable,%s> %s(Vector<Dynamic,%s,Reference>(%s,%s));' % (ty, x, ty, p, n), [], [N], idn, N, mode, ty, own=True)
    if kind == 'c':
        k, j = 'k' + x, 'j' + x
        return Opd(x, 'Matrix<-1,-1,%s,RefR> m%s(%s,%s,%s); auto %s=m%s.T()[%s];' % (ty, x, p, n, k, x, x, j), [Int(k, lo=1), Int(j, lo=0, hi=lambda z: isub(z[k], 1))], [N],
                   lambda z, i: iadd(imul(i, z[k]), z[j]), lambda z: imul(z[n], z[k]), mode, ty,
                   gap=lambda c: (lambda i, l: (iadd(imul(i, c.ints[k]), l), lnot(ieq(l, c.ints[j]))))(c.ghost('gi' + x, 0, c.ints[n]), c.ghost('gl' + x, 0, c.ints[k])))
    if kind == 'l':
        s, t = 's' + x, 't' + x
        return Opd(x, 'Vector<Dynamic,%s,Reference> w%s(%s,%s+%s+%s); auto %s=w%s.slice(%s,%s);' % (ty, x, p, s, n, t, x, x, s, n), [Int(s, lo=0), Int(t, lo=0)], [N],
                   lambda z, i: iadd(i, z[s]), lambda z: iadd(iadd(z[n], z[s]), z[t]), mode, ty,
                   gap=lambda c: (lambda q: (q, lor(ilt(q, c.ints[s]), ile(iadd(c.ints[s], c.ints[n]), q))))(c.ghost('gq' + x, 0, iadd(iadd(c.ints[n], c.ints[s]), c.ints[t]))))
    raise KeyError(kind)

def mat(name, kind, mode='in', R='R', C='C', ty='double', sr=2, sc=3):
    """kinds: d/dc run-time row/column major, s/sc fixed views, o/oc fixed owning, sub/subc block of a larger matrix, t transpose, od owning copy"""
    NR, NC = (lambda z: z[R]), (lambda z: z[C])
    x, p = name, '((%s*)p%s)' % (ty, name)
    rm = lambda z, i, j: iadd(imul(i, z[C]), j)
    cm = lambda z, i, j: iadd(imul(j, z[R]), i)
    tot = lambda z: imul(z[R], z[C])
    def S(mj): return (lambda z, i, j: iadd(iscale(i, sc), j)) if mj == 'R' else (lambda z, i, j: iadd(iscale(j, sr), i))
    if kind in ('d', 'dc'):
        return Opd(x, 'Matrix<-1,-1,%s,%s> %s(%s,%s,%s);' % (ty, 'RefR' if kind == 'd' else 'RefC', x, p, R, C), [], [NR, NC], rm if kind == 'd' else cm, tot, mode, ty)
    if kind in ('s', 'sc'):
        return Opd(x, 'Matrix<%d,%d,%s,%s> %s(%s);' % (sr, sc, ty, 'RefR' if kind == 's' else 'RefC', x, p), [], [K(sr), K(sc)], S('R' if kind == 's' else 'C'), K(sr * sc), mode, ty)
    if kind in ('o', 'oc'):
        t = 'Matrix<%d,%d,%s,%s>' % (sr, sc, ty, 'RowMajor' if kind == 'o' else 'ColMajor')
        return Opd(x, '%s& %s=*(%s*)%s;' % (t, x, t, p), [], [K(sr), K(sc)], S('R' if kind == 'o' else 'C'), K(sr * sc), mode, ty)
    if kind == 'od': return Opd(x, 'Matrix<-1,-1,%s> %s(%s,%s); %s=Matrix<-1,-1,%s,RefR>(%s,%s,%s);' % (ty, x, R, C, x, ty, p, R, C), [], [NR, NC], rm, tot, mode, ty, own=True)
    if kind == 't': return Opd(x, 'Matrix<-1,-1,%s,RefR> m%s(%s,%s,%s); auto %s=m%s.T();' % (ty, x, p, C, R, x, x), [], [NR, NC], cm, tot, mode, ty)
    if kind == 'st': return Opd(x, 'Matrix<%d,%d,%s,RefR> m%s(%s); auto %s=m%s.T();' % (sc, sr, ty, x, p, x, x), [], [K(sr), K(sc)], S('C'), K(sr * sc), mode, ty)
    if kind == 'hr': return Opd(x, 'Matrix<%d,-1,%s,RefR> %s(%s,%d,%s);' % (sr, ty, x, p, sr, C), [], [K(sr), NC], rm, lambda z: iscale(z[C], sr), mode, ty)
    if kind == 'hc': return Opd(x, 'Matrix<-1,%d,%s,RefR> %s(%s,%s,%d);' % (sc, ty, x, p, R, sc), [], [NR, K(sc)], lambda z, i, j: iadd(iscale(i, sc), j), lambda z: iscale(z[R], sc), mode, ty)
    if kind in ('sub', 'subc'):
        a, b, e, f = 'a' + x, 'b' + x, 'e' + x, 'f' + x
        cl = kind == 'subc'
        H, W = (lambda z: iadd(iadd(z[R], z[a]), z[e])), (lambda z: iadd(iadd(z[C], z[b]), z[f]))
        return Opd(x, 'Matrix<-1,-1,%s,%s> m%s(%s,%s+%s+%s,%s+%s+%s); auto %s=m%s.slice(%s,%s,%s,%s);' % (ty, 'RefC' if cl else 'RefR', x, p, a, R, e, b, C, f, x, x, a, b, R, C),
                   [Int(q, lo=0) for q in (a, b, e, f)], [NR, NC],
                   (lambda z, i, j: iadd(imul(iadd(j, z[b]), H(z)), iadd(i, z[a]))) if cl else (lambda z, i, j: iadd(imul(iadd(i, z[a]), W(z)), iadd(j, z[b]))),
                   lambda z: imul(H(z), W(z)), mode, ty,
                   gap=lambda c: (lambda i, j: (iadd(imul(j, H(c.ints)), i) if cl else iadd(imul(i, W(c.ints)), j),
                                  lor(ilt(i, c.ints[a]), ile(iadd(c.ints[a], c.ints[R]), i), ilt(j, c.ints[b]), ile(iadd(c.ints[b], c.ints[C]), j))))(c.ghost('gi' + x, 0, H(c.ints)), c.ghost('gj' + x, 0, W(c.ints))))
    raise KeyError(kind)

def is_static(o): return all(isinstance(d({}) if isfix(d) else None, int) for d in o.dims)
def isfix(f):
    try: f({}); return True
    except Exception: return False

def uniq(ps):
    out, seen = [], set()
    for p in ps:
        if p.name in seen: continue
        seen.add(p.name); out.append(p)
    return out

def sizes(ops, names, fixed):
    """size parameters: symbolic unless some operand fixes the dimension"""
    out = []
    for nm, v in names:
        st = None
        for o, ds in ops:
            for d, which in zip(o.dims, ds):
                if which == nm and isfix(d): st = d({})
        out.append(Int(nm, st) if st is not None else Int(nm, lo=0))
    return out

def frame(c, o):
    """elements of the underlying array that the view does not cover stay untouched"""
    z = c.ints
    if o.gap is None: return
    adr, unc = o.gap(c)
    for _ in c.due(unc): c.eq('%s: elements outside the view unchanged' % o.name, c.o('p' + o.name)[adr], c.a('p' + o.name)[adr])

def harness(S, name, ops, names, code, post, extra=(), pre=None, **kw):
    """ops: [(Opd, ('n',))...] with the dimension names; names: order of the size arguments"""
    decl = ''
    fixed = kw.pop('fixed', {})
    ps = [Int(p.name, fixed[p.name]) if p.name in fixed else p for p in sizes(ops, [(n, None) for n in names], None)]
    for o, ds in ops: ps += o.params
    for o, ds in ops: ps.append(o.param()); decl += o.code + ' '
    ps += list(extra)
    kk = dict(U)
    kk.update(kw)
    def post2(c):
        post(c)
        for o, ds in ops:
            if o.mode == 'inout' and not noframe: frame(c, o)
    kk.setdefault('what', code)
    noframe = kk.pop('noframe', False)
    if any('Resizable' in o.code for o, ds in ops):
        pre0, pre = pre, (lambda c: (pre0(c) if pre0 else []) + [ile(v, (1 << 31) - 1) for v in c.ints.values() if isinstance(v, Term)])
    return S.h(name, uniq(ps), decl + code, post2, pre=pre, **kk)
