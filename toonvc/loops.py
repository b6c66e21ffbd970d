"""Loop cutting for symbolic trip counts.  At a loop header entered from outside
with a symbolic condition, one arbitrary iteration k is executed from an
arbitrary iteration-k state; the effect of the whole loop is then

  * induction variables     p = p0 + c*k          (next - p is a constant)
  * accumulators            s = s0 + SUM_{j<k} e(j)   (next - s = e(k), free of loop state)
  * selections              (value,index) pairs updated together under one condition
  * array writes            { addr(j,..) := val(j,..) | 0<=j<N, guards }  comprehension,
                            after proving that different iterations never touch the same element
  * early exits             an arbitrary exiting iteration k, plus "no earlier iteration exits"

Each of these is an inductive invariant: the base case is the entry state, the
step is the execution of the generic iteration, and every side condition
(disjointness, trip count, freedom from loop state) is proved by the solver or the
loop is rejected."""
from fractions import Fraction
from .terms import *
from . import terms as T
from . import smt
from .exe import *
from .exe import UNDEF
from .ir import *

CNT = [0]
def fresh(p):
    CNT[0] += 1
    return '%s!%d' % (p, CNT[0])

def num(v):
    n = v.args[0].rsplit('!', 1)
    return int(n[1]) if len(n) == 2 and n[1].isdigit() else -1

def locals_of(t, c0, bound=()):
    """values chosen inside the iteration (selection results and their indices)"""
    return [v for v in fv(t) if v.sort in 'IR' and num(v) > c0 and v not in bound and v.args[0].split('!')[0] in ('sel', 'm')] if isinstance(t, Term) else []

def skolem(t, c0, k, bound=()):
    """values chosen inside iteration k as functions of k"""
    if not isinstance(t, Term): return t
    vs = locals_of(t, c0, bound)
    m = {v: mk('skr' if v.sort == 'R' else 'ski', (v.args[0], k), v.sort) for v in vs}
    for x in subterms(t):
        if x.op in ('skr', 'ski') and int(x.args[0].rsplit('!', 1)[1]) > c0: m[x] = mk(x.op, x.args + (k,), x.sort)
    return subst(t, m)

class Quant:
    """for all integers params satisfying guards: body"""
    __slots__ = ('params', 'guards', 'body')
    def __init__(self, params, guards, body): self.params, self.guards, self.body = tuple(params), tuple(guards), body

# ------------------------------------------------------------ array comprehensions
def unify(params, addr, i, rem=False):
    """values of params with addr(params) == i identically, or None"""
    d = ip(addr)
    S = {p: {} for p in params}
    base = {}
    for m, c in d.items():
        ps = [p for p in params if p in m]
        if not ps: base[m] = c; continue
        if len(ps) > 1 or sum(1 for x in m if x is ps[0]) > 1: return None
        r = list(m); r.remove(ps[0]); r = tuple(r)
        S[ps[0]][r] = S[ps[0]].get(r, 0) + c
    D = isub(i, ipoly(base))
    order = sorted(params, key=lambda p: (-max([len(m) for m in S[p]] or [-1]), -max([abs(c) for c in S[p].values()] or [0])))
    q = {}
    for p in order:
        s = S[p]
        if not s: return None
        m0 = max(s, key=lambda m: (len(m), tuple(x.id for x in m)))
        c0 = s[m0]
        r = {}
        for m, c in ip(D).items():
            rest = list(m); ok = True
            for x in m0:
                if x in rest: rest.remove(x)
                else: ok = False; break
            if not ok: continue
            if m0 == () and m == ():
                k = c // c0 if c0 > 0 else -(c // -c0)
                if k: r[()] = r.get((), 0) + k
                continue
            if c % c0: 
                continue
            rest = tuple(rest)
            r[rest] = r.get(rest, 0) + c // c0
        q[p] = ipoly(r)
        D = isub(D, imul(q[p], ipoly(s)))
    if isinstance(D, int) and D == 0: return q
    if not rem:
        q2 = unify_joint(params, S, isub(i, ipoly(base)))
        if q2 is not None: return q2
    return (q, D) if rem else None

def unify_joint(params, S, D):
    """the same when several params share a stride (a triangle written in both
    halves): solve the square system of their coefficients"""
    M = sorted(set(m for s in S.values() for m in s), key=lambda m: (-len(m), tuple(x.id for x in m)))
    if len(M) != len(params) or len(params) < 2: return None
    rhs = [{} for _ in M]
    for m, c in ip(D).items():
        for r, m0 in enumerate(M):
            rest, ok = list(m), True
            for x in m0:
                if x in rest: rest.remove(x)
                else: ok = False; break
            if ok: rhs[r][tuple(rest)] = rhs[r].get(tuple(rest), 0) + c; break
        else: return None
    n = len(M)
    A = [[Fraction(S[p].get(m, 0)) for p in params] + [{k: Fraction(v) for k, v in rhs[r].items()}] for r, m in enumerate(M)]
    for c in range(n):
        pr = next((r for r in range(c, n) if A[r][c]), None)
        if pr is None: return None
        A[c], A[pr] = A[pr], A[c]
        f = A[c][c]
        A[c] = [x / f for x in A[c][:n]] + [{k: v / f for k, v in A[c][n].items()}]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r][:n], A[c][:n])] + [{k: A[r][n].get(k, 0) - f * A[c][n].get(k, 0) for k in set(A[r][n]) | set(A[c][n])}]
    q = {}
    for r, p in enumerate(params):
        if any(v.denominator != 1 for v in A[r][n].values()): return None
        q[p] = ipoly({k: int(v) for k, v in A[r][n].items() if v})
    return q

def radix(pc, e):
    """e: A*n + B == 0 with -n < B < n  gives  A == 0 and B == 0"""
    if not isinstance(e, Term) or e.op != 'ieq0': return []
    d = ip(e.args[0])
    for v in sorted({x for m in d for x in m if len(m) > 1}, key=lambda v: v.id):
        A, B = {}, {}
        for m, c in d.items():
            if m.count(v) > 1: break
            if v in m:
                r = list(m); r.remove(v); A[tuple(r)] = c
            else: B[m] = c
        else:
            A, B = ipoly(A), ipoly(B)
            if isinstance(A, int) or isinstance(B, int): continue
            if smt.prove(pc, land(ilt(B, v), ilt(isub(0, v), B)), 1000): return [ieq(A, 0), ieq(B, 0)]
    return []

def unsat_stride(cs, params, addr):
    """unsat, naming the composite stride of addr when the plain query is not decided"""
    if unsat(cs): return True
    for p in params:
        s = {}
        for m, c in ip(addr).items():
            if p in m:
                r = list(m); r.remove(p); s[tuple(r)] = s.get(tuple(r), 0) + c
        S = ipoly(s)
        if isinstance(S, int): continue
        for v in sorted((m[0] for m, c in ip(S).items() if len(m) == 1 and c == 1), key=lambda v: v.id):
            if v.op != 'ivar' or sum(1 for m in ip(S) if v in m) != 1: continue
            W = ivar(fresh('W'))
            d = {v: isub(iadd(W, v), S)}
            if unsat([subst(c, d) for c in cs if isinstance(c, Term)]): return True
    return False

class AMap:
    __slots__ = ('params', 'guards', 'addr', 'val', 'prev')
    def __init__(self, params, guards, addr, val, prev):
        self.params, self.guards, self.addr, self.val, self.prev = tuple(params), tuple(guards), addr, val, prev
    def at(self, q): return self.val if self.val is UNDEF else subst(self.val, q) if isinstance(self.val, Term) else self.val
    def select(self, ex, st, i):
        ren = {p: ivar(fresh('q')) for p in self.params}
        gr = [subst(g, ren) if isinstance(g, Term) else g for g in self.guards]
        ad = subst(self.addr, ren) if isinstance(self.addr, Term) else self.addr
        e = ieq(ad, i)
        q = unify(self.params, self.addr, i)
        if q is not None:
            g = [subst(x, q) for x in self.guards if isinstance(x, Term)]
            if all(smt.prove(st.pc, x, 2000) for x in g): return self.at(q)
        rx = radix(list(st.pc) + gr, e)
        if rx:
            e = land(e, *rx)
            if e is False or unsat(list(st.pc) + gr + [e]): return ex.sel(st, self.prev, i)
        # hit is impossible?
        if e is False or unsat(list(st.pc) + gr + [e]): return ex.sel(st, self.prev, i)
        if q is not None:
            gall = land(*g)
            if all(unsat(list(st.pc) + gr + [e, lnot(x)]) for x in g if x is not True):
                a, b = self.at(q), ex.sel(missed(st, gall), self.prev, i)
                if a is b or (not isinstance(a, Term) and a == b and a is not UNDEF): return a
                if a is UNDEF or b is UNDEF:
                    return UNDEF
                return ite(gall, a, b)
        q = unify(self.params, self.addr, i, True)
        if isinstance(q, tuple):
            q, D = q
            # an iteration that hits element i is the one guessed, and only when the remainder vanishes
            same = [ieq(D, 0)] + [ieq(ren[p], q[p]) for p in self.params]
            if all(x is True or unsat_stride(list(st.pc) + gr + [e, lnot(x)], self.params, self.addr) for x in same):
                hit = land(ieq(D, 0), *[subst(x, q) for x in self.guards if isinstance(x, Term)])
                if smt.prove(st.pc, hit, 2000): return self.at(q)
                a, b = self.at(q), ex.sel(missed(st, hit), self.prev, i)
                if a is b or (not isinstance(a, Term) and a == b and a is not UNDEF): return a
                if a is UNDEF or b is UNDEF: return UNDEF
                return ite(hit, a, b)
        r = self.dense(ex, st, i)
        if r is not None: return r
        raise Unsupported('cannot resolve element %s of a loop-written array (%s)' % (show(i), show(self.addr)))

    def dense(self, ex, st, i):
        """a rectangle written row by row without gaps, read at a flat index"""
        if not isinstance(self.addr, Term) or len(self.params) < 2: return None
        P = list(self.params)
        bound = {}
        for p in P:
            gs = [g for g in self.guards if isinstance(g, Term) and p in fv(g)]
            ups = [g for g in gs if g is not ile(0, p)]
            if len(ups) != 1 or not any(g is ile(0, p) for g in gs): return None
            # p < N   is   1 + p - N <= 0
            g = ups[0]
            if g.op != 'ile0': return None
            d = ip(g.args[0])
            if d.get((p,)) != 1: return None
            N = isub(1, ipoly({m: c for m, c in d.items() if m != (p,)}))
            if isinstance(N, Term) and fv(N) & set(P): return None
            if not smt.prove(st.pc, ile(0, N), 1000): return None
            bound[p] = N
        if any(isinstance(g, Term) and not (fv(g) & set(P)) and not smt.prove(st.pc, g, 1000) for g in self.guards): return None
        co, rest = {p: {} for p in P}, {}
        for m, c in ip(self.addr).items():
            ps = [p for p in P if p in m]
            if not ps: rest[m] = c; continue
            if len(ps) > 1 or sum(1 for x in m if x is ps[0]) > 1: return None
            r = list(m); r.remove(ps[0])
            co[ps[0]][tuple(r)] = c
        co = {p: ipoly(d) for p, d in co.items()}
        size, left = 1, list(P)
        while left:
            p = next((p for p in left if isub(co[p], size) == 0), None)
            if p is None: return None
            left.remove(p)
            size = imul(size, bound[p])
        base = ipoly(rest)
        # the value may mention the parameters only through the address
        v = self.val
        if isinstance(v, Term):
            m = {}
            for t in subterms(v):
                if t.sort == 'I' and fv(t) & set(P) and t.op not in ('sel', 'isel'):
                    d = isub(t, self.addr)
                    if not isinstance(d, Term) or not (fv(d) & set(P)): m[t] = iadd(d, i)
            v = subst(v, m)
            if fv(v) & set(P): return None
        inside = land(ile(base, i), ilt(i, iadd(base, size)))
        if smt.prove(st.pc, inside, 2000): return v
        if unsat(list(st.pc) + [inside]): return ex.sel(st, self.prev, i)
        b = ex.sel(missed(st, inside), self.prev, i)
        if v is b: return v
        if v is UNDEF or b is UNDEF: return UNDEF
        return ite(inside, v, b)

def missed(st, hit):
    s = st.fork(); s.assume(lnot(hit))
    return s

def unsat(cs, timeout=4000):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs): return True
    return smt.is_unsat(cs, timeout)

class AGen:
    """contents of a region at the start of generic iteration k"""
    __slots__ = ('prev', 'rid', 'mode', 'writes', 'k', 'sort', 'uid', 'chain')
    def __init__(self, prev, rid, mode, writes, k, sort):
        self.prev, self.rid, self.mode, self.writes, self.k, self.sort = prev, rid, mode, writes, k, sort
        self.uid = fresh('gen')
        self.chain = None
    def select(self, ex, st, i):
        if self.mode == 'discover':
            return mk('sel' if self.sort == 'R' else 'isel', (self.uid, i), self.sort)
        if self.chain is not None: return ex.sel(st, self.chain, i)
        for w in self.writes:
            ren = {p: ivar(fresh('q')) for p in w.params}
            gr = [subst(g, ren) for g in w.guards if isinstance(g, Term)]
            kk = ren[self.k] if self.k in ren else ivar(fresh('q'))
            if self.k not in ren: ren[self.k] = kk
            gr = [subst(g, ren) for g in w.guards if isinstance(g, Term)]
            ad = subst(w.addr, ren) if isinstance(w.addr, Term) else w.addr
            e = ieq(ad, i)
            if e is False: continue
            if not unsat(list(st.pc) + gr + [ile(0, kk), ilt(kk, self.k), e]):
                raise Unsupported('iteration reads an element written by an earlier iteration (%s)' % show(i))
        return ex.sel(st, self.prev, i)

def bottom_sort(node):
    while True:
        if isinstance(node, ABase): return node.sort
        if isinstance(node, AUninit): return 'R'
        if isinstance(node, AGen): return node.sort
        node = node.prev

def collect(arr, base, skip=()):
    """writes above base, oldest first, as (params, guards, addr, val)"""
    out = []
    n = arr
    while n is not base:
        if isinstance(n, AStore):
            if not any(ieq(n.idx, s) is True for s in skip): out.append(((), (), n.idx, n.val))
        elif isinstance(n, AMap): out.append((n.params, n.guards, n.addr, n.val))
        else: raise Unsupported('array history lost in a loop')
        n = n.prev
    return out[::-1]

class Loop:
    def __init__(self, ex, st, fr, H, body):
        self.ex, self.st, self.fr, self.H, self.body = ex, st, fr, H, body
        self.ins = fr.fn.blocks[H]
        self.phis = []
        for i in self.ins:
            if i.op != 'phi': break
            self.phis.append(i)
        self.latch = next(b for b in body if any(H == l for l in succs(fr.fn.blocks[b])))
        self.k = ivar(fresh('k'))
        self.init = {}
        for i in self.phis:
            for v, l in i.a:
                if l == fr.prev: self.init[i.res] = ex.val(st, fr, v, i.ty); break
            else: raise Unsupported('phi')
        self.slots = {}         # ('cell', rid, off) -> (size, init)  /  ('arr', rid, idx)
    # ------------------------------------------------------------ running pieces
    def quiet(self, f):
        ex = self.ex
        sv = (list(ex.obls), ex.nobl, list(ex.terminals), ex.brlog, dict(getattr(ex, 'loopstats', {})))
        try: return f()
        finally: ex.obls, ex.nobl, ex.terminals, ex.brlog = sv[0], sv[1], sv[2], sv[3]; ex.loopstats = sv[4]
    def frame(self, vals):
        g = self.fr.copy()
        g.regs.update(vals)
        g.block, g.idx, g.prev = self.H, len(self.phis), self.latch
        return g
    def header_cond(self, st, vals):
        """continue-condition of the header under the given phi values"""
        ex = self.ex
        def go():
            ex.brlog = []
            outs = ex.run_frames([(st.fork(), self.frame(vals))], stop=lambda f: True)
            return list(ex.brlog), outs
        log, outs = self.quiet(go)
        t = self.ins[-1]
        if t.op != 'br' or len(t.a) == 1: return None
        a, b = t.a[1] in self.body, t.a[2] in self.body
        if a == b: return None
        if not log: return None
        c = log[-1]
        if c is UNDEF: return None
        return c if a else lnot(c)
    def generic(self, vals, cells, acells, mode, writes, facts, touched=None):
        """execute iteration k.  -> (state0, [(state, frame)] back, exits)"""
        ex, H, body = self.ex, self.H, self.body
        s = self.st.fork()
        gens, base = {}, {}
        for rid, r in list(s.mem.items()):
            if r.arr is not None and r.alive and not r.ro:
                if touched is not None and rid not in touched: base[rid] = r.arr; continue
                w = s.wreg(rid)
                g = AGen(r.arr, rid, mode, writes.get(rid, []), self.k, bottom_sort(r.arr))
                gens[rid] = g
                w.arr = g
        for (rid, off), v in cells.items():
            w = s.wreg(rid)
            w.cells[off] = (self.slots[('cell', rid, off)][0], v)
        for (rid, idx), v in acells.items():
            w = s.wreg(rid)
            w.arr = AStore(w.arr, idx, v)
        for f in facts: s.assume(f)
        pc0 = s.pc
        quant0, divs0, ev0 = s.quant, s.divs, s.events
        ln, ex.lenient = ex.lenient, ex.lenient or mode == 'discover'
        try: outs = ex.run_frames([(s, self.frame(vals))], stop=lambda f: f.block == H or f.block not in body)
        finally: ex.lenient = ln
        back, exits, normal = [], [], []
        for kind, s2, f2, v in outs:
            if kind != 'stop': raise Unsupported('return inside a loop')
            if f2.block == H: back.append((s2, f2))
            elif f2.prev == H: normal.append((s2, f2))
            else: exits.append((s2, f2))
        return dict(pc0=pc0, quant0=quant0, divs0=divs0, ev0=ev0, gens=gens, base=base, back=back, exits=exits, normal=normal)
    def nexts(self, s, f):
        out = {}
        for i in self.phis:
            for v, l in i.a:
                if l == f.prev: out[i.res] = self.ex.val(s, f, v, i.ty); break
            else: raise Unsupported('phi')
        return out

def succs(bl):
    t = bl[-1]
    if t.op == 'br': return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
    if t.op == 'switch': return [t.x['default']] + [l for _, l in t.x['cases']]
    return []

def free_of(t, vs):
    """no variable / generic content of the loop state occurs in t"""
    if not isinstance(t, Term): return True
    if fv(t) & vs: return False
    names = set(v for v in vs if isinstance(v, str))
    if not names: return True
    return not any(x.op in ('sel', 'isel') and x.args[0] in names for x in subterms(t))

def solve_trip(cont, k, pc):
    """-> N such that, for k>=0 up to the exit, cont(k) <=> k < N; and side conditions to prove"""
    if isinstance(cont, Term) and cont.op == 'and':
        rest = [c for c in cont.args if not smt.prove(tuple(pc) + (ile(0, k),), c, 1000)]
        if len(rest) != 1: return None
        cont = rest[0]
    neg = False
    c = cont
    if isinstance(c, Term) and c.op == 'not': neg, c = True, c.args[0]
    if not isinstance(c, Term) or c.op not in ('ile0', 'ieq0'): return None
    p = ip(c.args[0])
    a, b = 0, {}
    for m, cc in p.items():
        if k in m:
            if len(m) != 1: return None
            a = cc
        else: b[m] = cc
    b = ipoly(b)
    if a == 0: return None
    if c.op == 'ile0' and neg:     # not(p<=0)  ==  -p+1 <= 0
        a, b = -a, isub(1, b)
    if c.op == 'ile0':
        if a < 0: return None
        if a == 1: return isub(1, b), []
        d = {m: -cc for m, cc in ip(b).items()}
        if all(cc % a == 0 for cc in d.values()): return iadd(ipoly({m: cc // a for m, cc in d.items()}), 1), []
        return None
    if not neg: return None
    # a*k + b != 0
    s = -1 if a > 0 else 1
    d = {m: s * cc for m, cc in ip(b).items()}
    a = abs(a)
    if any(cc % a for cc in d.values()): return None
    N = ipoly({m: cc // a for m, cc in d.items()})
    return N, [ile(0, N)]

def lin_in(t, p):
    """t == p + e with e free of p  -> e, else None"""
    if t is p: return Fraction(0)
    if not isinstance(t, Term): return None
    if t.op == 'add':
        for a, b in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            if not (isinstance(b, Term) and p in fv(b)):
                e = lin_in(a, p)
                if e is not None: return add(e, b)
    if t.op == 'rite':
        c, a, b = t.args
        if isinstance(c, Term) and p in fv(c): return None
        ea, eb = lin_in(a, p), lin_in(b, p)
        if ea is not None and eb is not None: return ite(c, ea, eb)
    return None

def hook(ex, st, fr, H, body, work, stop):
    L = Loop(ex, st, fr, H, body)
    c0 = L.header_cond(st, L.init)
    if c0 is None or isinstance(c0, bool): return None      # concrete: unroll
    if not isinstance(c0, Term): return None
    ex.loopstats['cut'] = ex.loopstats.get('cut', 0) + 1
    k = L.k
    # ---------------- pass 1: havoc everything, discover induction variables and written places
    def havoc(v, ty, nm):
        if v is UNDEF: return UNDEF
        if isinstance(v, bool) or (isinstance(v, Term) and v.sort == 'B'): return bvar(fresh(nm))
        if isinstance(v, int) or (isinstance(v, Term) and v.sort == 'I'): return ivar(fresh(nm))
        if isinstance(v, Fraction) or (isinstance(v, Term) and v.sort == 'R'): return rvar(fresh(nm))
        if isinstance(v, Ptr) and v.r is not None:
            r = st.mem.get(v.r)
            return Ptr(v.r, iadd(v.o, iscale(ivar(fresh(nm)), (r.es or 1) if r is not None and r.arr is not None else 1)))
        return v
    def fresh_of(v):
        if isinstance(v, Ptr): return frozenset(fv(v.o)) if isinstance(v.o, Term) else frozenset()
        return fv(v) if isinstance(v, Term) else frozenset()
    h1 = {i.res: havoc(L.init[i.res], i.ty, 'h') for i in L.phis}
    cells, acells = {}, {}
    writes = {}
    inv_phi = {}
    for rnd in range(6):
        r1 = L.quiet(lambda: L.generic(h1, cells, acells, 'discover', {}, []))
        # concrete cells of objects that exist before the loop and are written
        grew = False
        for s2, f2 in r1['back']:
            for rid, r in L.st.mem.items():
                if r.arr is None and s2.mem[rid].cells is not r.cells:
                    for off, (sz, v) in s2.mem[rid].cells.items():
                        old = r.cells.get(off)
                        key = ('cell', rid, off)
                        if key in L.slots: continue
                        start = cells.get((rid, off))
                        if old is not None and old[0] == sz and (old[1] is v or (type(old[1]) == type(v) and not isinstance(v, Term) and old[1] == v)): continue
                        ov = old[1] if old is not None and old[0] == sz else UNDEF
                        L.slots[key] = (sz, ov)
                        cells[(rid, off)] = havoc(ov, None, 'h')
                        grew = True
                    if s2.mem[rid].zeros != r.zeros: raise Unsupported('memset of a local object in a loop')
                if r.alive and not s2.mem[rid].alive: raise Unsupported('object released in a loop')
            for rid, r in s2.mem.items():
                if rid not in L.st.mem and r.alive and r.kind == 'heap': raise Unsupported('allocation survives a loop iteration')
        if not grew: break
    hv = set()
    for v in list(h1.values()) + list(cells.values()): hv |= fresh_of(v)
    hv0 = set(hv)
    gen1 = set(g.uid for g in r1['gens'].values())
    def classify(inits, cur, nxts):
        """induction step of integer / pointer slots"""
        kind = {}
        for n, v0 in inits.items():
            cv = cur[n]
            vs = [x[n] for x in nxts]
            if not vs: kind[n] = ('inv',); continue
            if all(x is cv or (type(x) == type(cv) and not isinstance(x, Term) and x == cv) for x in vs): kind[n] = ('inv',); continue
            step = None
            for x in vs:
                d = None
                if isinstance(cv, Ptr) and isinstance(x, Ptr) and cv.r == x.r: d = isub(x.o, cv.o)
                elif isinstance(cv, Term) and cv.sort == 'I' and sort_ok(x): d = isub(x, cv)
                if d is None or not free_of(d, hv0 | gen1) or (step is not None and d != step and d is not step): step = None; break
                step = d
            kind[n] = ('ind', step) if step is not None else ('other',)
        return kind
    def sort_ok(x): return isinstance(x, int) and not isinstance(x, bool) or isinstance(x, Term) and x.sort == 'I'
    nx = [L.nexts(s2, f2) for s2, f2 in r1['back']]
    kinds = classify(L.init, h1, nx)
    cinit = {('cell',) + k2: L.slots[('cell',) + k2][1] for k2 in cells}
    ccur = {('cell',) + k2: v for k2, v in cells.items()}
    def cell_next(s2): return {('cell', rid, off): (s2.mem[rid].cells.get(off) or (0, UNDEF))[1] for rid, off in cells}
    ckinds = classify(cinit, ccur, [cell_next(s2) for s2, f2 in r1['back']])
    # a slot that is never re-assigned from loop state keeps its entry value
    def closed(kd, v0, kk, havocv):
        if kd[0] == 'inv': return v0
        if kd[0] == 'ind':
            off = imul(kd[1], kk)
            return Ptr(v0.r, iadd(v0.o, off)) if isinstance(v0, Ptr) else iadd(v0, off)
        return havocv
    vals = {n: closed(kinds[n], L.init[n], k, h1[n]) for n in L.init}
    cvals = {key[1:]: closed(ckinds[key], cinit[key], k, ccur[key]) for key in cinit}
    # ---------------- trip count
    sN = st.fork()
    for (rid, off), v in cvals.items(): sN.wreg(rid).cells[off] = (L.slots[('cell', rid, off)][0], v)
    cont = L.header_cond(sN, vals)
    if cont is None: raise Unsupported('loop exit condition')
    tr = solve_trip(cont, k, st.pc)
    if tr is None: raise Unsupported('trip count of %s in %s' % (show(cont), dem(fr.fn.name)[:80]))
    N, side = tr
    for c in side:
        if not smt.prove(st.pc, c, 3000): raise Unsupported('loop may run past its bound: %s' % show(c))
    if isinstance(N, int): raise Unsupported('constant trip count')
    if smt.prove(st.pc, ile(N, 1), 1000): return None      # at most one iteration on this path: execute it
    if smt.prove(st.pc, ile(N, 12), 1000):
        for v in range(2, 13):
            if smt.prove(st.pc, ieq(N, v), 500): return None      # trip count fixed by the path
    if not smt.prove(st.pc, ile(0, N), 2000):
        # zero-iteration branch
        if smt.feasible(st.pc, ile(N, 0), 1500):
            z, fz = st.fork(), L.frame(L.init)
            z.assume(ile(N, 0))
            work.append((z, fz))
        st.assume(ile(1, N))
        if not smt.feasible(st.pc, ile(1, N), 1500): return 'done'
        L.st = st
    facts = [ile(0, k), ilt(k, N)]
    # ---------------- discovery of array writes with closed induction variables
    r2 = L.quiet(lambda: L.generic(vals, cvals, {}, 'discover', {}, facts))
    gen2 = {g.uid for g in r2['gens'].values()}
    state_vars = set()
    for n, kd in kinds.items():
        if kd[0] == 'other': state_vars |= set(fresh_of(h1[n]))
    for key, kd in ckinds.items():
        if kd[0] == 'other': state_vars |= set(fresh_of(ccur[key]))
    sv = state_vars | gen2
    aslots = {}
    def raw_writes(r, skip):
        W = {}
        for s2, f2 in r['back'] + r['exits']:
            extra = [c for c in s2.pc if c not in r['pc0']]
            for rid, g in r['gens'].items():
                base = g
                for ps, gs, ad, v in collect(s2.mem[rid].arr, base, skip.get(rid, ())):
                    W.setdefault(rid, []).append((ps, gs, ad, v, extra, (s2, f2)))
            for rid, b in r['base'].items():
                if s2.mem[rid].arr is not b: raise Unsupported('store address changes between passes')
        return W
    W2 = raw_writes(r2, {})
    for rid, ws in W2.items():
        for ps, gs, ad, v, extra, who in ws:
            if not free_of(ad, sv): raise Unsupported('data-dependent store address %s' % show(ad))
            if not ps and (not isinstance(ad, Term) or k not in fv(ad)):
                if not any(ieq(ad, x) is True for x in aslots.get(rid, [])): aslots.setdefault(rid, []).append(ad)
    acells = {}
    for rid, idxs in aslots.items():
        for x in idxs:
            v0 = ex.sel(st, st.mem[rid].arr, x)
            acells[(rid, x)] = (v0, UNDEF if v0 is UNDEF else rvar(fresh('h')) if bottom_sort(st.mem[rid].arr) == 'R' else ivar(fresh('h')))
    def mkwrites(W, intonly, c0=None):
        out = {}
        for rid, ws in W.items():
            for ps, gs, ad, v, extra, who in ws:
                g = list(gs)
                for c in extra:
                    # with a single path through the iteration its conditions hold in every iteration
                    if c0 is not None and locals_of(c, c0): continue
                    if intonly and not free_of(c, sv | set([x for x in fv(c) if x.sort != 'I'])): continue
                    if intonly and any(x.op in ('sel', 'isel', 'rlt', 'req') for x in subterms(c)): continue
                    g.append(c)
                out.setdefault(rid, []).append(AMap(tuple(ps) + (k,), tuple(g) + tuple(facts), ad, v, None))
        return out
    skip = {rid: list(idxs) for rid, idxs in aslots.items()}
    def noskip(W): return {rid: [w for w in ws if w[0] or not any(ieq(w[2], x) is True for x in skip.get(rid, []))] for rid, ws in W.items()}
    wr2 = mkwrites(noskip(W2), True)
    # ---------------- iterations never interfere
    for rid, ws in wr2.items():
        todo = [(a, b) for a in ws for b in ws]
        for a, b in todo:
            ra = {p: ivar(fresh('q')) for p in a.params}
            rb = {p: ivar(fresh('q')) for p in b.params}
            rb[k] = k
            ga = [subst(g, ra) for g in a.guards if isinstance(g, Term)]
            gb = [subst(g, rb) for g in b.guards if isinstance(g, Term)]
            e = ieq(subst(a.addr, ra) if isinstance(a.addr, Term) else a.addr, subst(b.addr, rb) if isinstance(b.addr, Term) else b.addr)
            if not unsat(list(st.pc) + ga + gb + [ilt(ra[k], k), e], 6000):
                raise Unsupported('different iterations write the same element (%s)' % show(a.addr))
            ex.loopstats['disjoint'] = ex.loopstats.get('disjoint', 0) + 1
        for a in ws:
            for x in skip.get(rid, []):
                e = ieq(a.addr, x)
                if not unsat(list(st.pc) + list(a.guards) + [e]): raise Unsupported('accumulator cell is also written by a map')
    # ---------------- pass with real array contents: accumulators
    cur_a = {key: v[1] for key, v in acells.items()}
    touched = set(wr2) | set(rid for rid, x in acells)
    ex.folds = getattr(ex, 'folds', {})
    c3 = CNT[0]
    r3 = L.quiet(lambda: L.generic(vals, cvals, cur_a, 'gen', wr2, facts, touched))
    slots = {}       # name -> (init, current)
    for n, kd in kinds.items():
        if kd[0] == 'other': slots[('phi', n)] = (L.init[n], h1[n])
    for key, kd in ckinds.items():
        if kd[0] == 'other': slots[key] = (cinit[key], ccur[key])
    for (rid, x), (v0, cv) in acells.items(): slots[('arr', rid, x)] = (v0, cv)
    hvars = set()
    for v0, cv in slots.values(): hvars |= set(fresh_of(cv))
    def slot_next(r):
        out = []
        for s2, f2 in r['back']:
            nxp = L.nexts(s2, f2)
            cn = cell_next(s2)
            d = {}
            for key in slots:
                if key[0] == 'phi': d[key] = nxp[key[1]]
                elif key[0] == 'cell': d[key] = cn[key]
                else: d[key] = ex.sel(s2, s2.mem[key[1]].arr, key[2])
            out.append((d, [c for c in s2.pc if c not in r['pc0']]))
        return out
    sol = {}
    facts_after = []
    if slots:
        nexts = slot_next(r3)
        for key, (v0, cv) in slots.items():
            if v0 is UNDEF or cv is UNDEF: continue
            if not (isinstance(cv, Term) and cv.sort == 'R'): continue
            es = []
            for d, extra in nexts:
                x = d[key]
                if x is UNDEF: es = None; break
                e = lin_in(T.R(x), cv)
                if e is None or not free_of(e, hvars) or locals_of(e, c3): es = None; break
                es.append((e, extra))
            if es is None: continue
            e = es[-1][0]
            ok = True
            for e1, extra in es[:-1][::-1]:
                if not all(free_of(c, hvars) and not locals_of(c, c3) for c in extra): ok = False; break
                e = ite(land(*extra), e1, e)
            if ok: sol[key] = e
        rest = [key for key in slots if key not in sol]
        if rest: facts_after += select_fold(L, slots, rest, nexts, N, sol, c3)
    # ---------------- final pass with closed accumulators
    def acc_at(key, kk):
        e = sol[key]
        v = ivar(fresh('j'))
        if isinstance(e, Sel): return e.at(kk)
        body_ = subst(e, {k: v}) if isinstance(e, Term) else e
        n = kk
        return add(T.R(slots[key][0]), mk('psum', (v, body_, n), 'R'))
    vals4, cvals4, avals4 = dict(vals), dict(cvals), {key: cv for key, (v0, cv) in acells.items()}
    for key in slots:
        v = acc_at(key, k) if key in sol and not isinstance(sol[key], Sel) else slots[key][1]
        if key[0] == 'phi': vals4[key[1]] = v
        elif key[0] == 'cell': cvals4[key[1:]] = v
        else: avals4[(key[1], key[2])] = v
    extra_facts = []
    for f in facts_after: extra_facts += f.facts_at(k)
    terms0 = len(ex.terminals)
    L.st = st
    if slots and any(isinstance(x, Sel) for x in sol.values()):
        st2 = st.fork()
        for f in facts_after: st2.quant = st2.quant + tuple(f.quants_at(k))
        L.st = st2
    c4 = CNT[0]
    r4 = L.generic(vals4, cvals4, avals4, 'gen', wr2, facts + extra_facts, touched)
    L.st = st
    # objects held cell by cell: every write must be one of the slots
    for s2, f2 in r4['back'] + r4['exits']:
        for rid, r in st.mem.items():
            if r.arr is not None or s2.mem[rid].cells is r.cells: continue
            new = s2.mem[rid].cells
            for off in set(new) | set(r.cells):
                if (rid, off) in cvals4: continue
                a, b = r.cells.get(off), new.get(off)
                if a is None or b is None or a[0] != b[0] or not (a[1] is b[1] or (type(a[1]) == type(b[1]) and not isinstance(a[1], Term) and a[1] == b[1])):
                    raise Unsupported('loop writes %s at a symbolic offset' % r.name)
    aborted = len(ex.terminals) > terms0
    W4 = noskip(raw_writes(r4, {}))
    wr4 = mkwrites(W4, False, c4 if len(r4['back']) == 1 else None)
    # the writes of the executed iteration are the discovered ones
    for rid, ws in wr4.items():
        old = wr2.get(rid, [])
        for w in ws:
            if not any(same_addr(w, o) for o in old): raise Unsupported('store address changes between passes')
    known_vars = None
    def chain_for(rid, base, upto):
        """comprehension chain for iterations 0 <= k < upto"""
        node = base
        for w in wr4.get(rid, []):
            if any(b is None for b in ()): pass
            kk = ivar(fresh('k'))
            ren = {k: kk}
            # guards of the path that wrote
            g = [subst(x, ren) for x in w.guards if isinstance(x, Term) and x is not facts[0] and x is not facts[1]]
            allowed = set(w.params)
            if any(locals_of(x, c4) for x in g): raise Unsupported('write guarded by a selection')
            for x in g:
                for v in fv(x):
                    if '!' in v.args[0] and v.args[0].split('!')[0] in ('k', 'h') and v not in allowed and v is not kk and v not in outer_vars(st): raise Unsupported('write guarded by loop state')
            v = w.val
            if isinstance(v, Term): v = skolem(subst(v, ren), c4, kk, w.params)
            if locals_of(w.addr, c4): raise Unsupported('store address depends on a selection')
            node = AMap(tuple(kk if p is k else p for p in w.params), tuple(g) + (ile(0, kk), ilt(kk, upto)), subst(w.addr, ren) if isinstance(w.addr, Term) else w.addr, v, node)
        return node
    for rid, ws in wr4.items():
        for w in ws:
            if w.val is not UNDEF and isinstance(w.val, Term) and (fv(w.val) & hvars) and not all(isinstance(sol.get(kx), Sel) for kx in slots if set(fresh_of(slots[kx][1])) & fv(w.val)):
                raise Unsupported('stored value depends on unresolved loop state')
            if isinstance(w.val, Term) and fv(w.val) & hvars: raise Unsupported('stored value depends on a selection')
    # AGen of the final pass: contents at iteration k (used by early-exit states)
    for rid, g in r4['gens'].items():
        g.chain = chain_for(rid, g.prev, k)
    # facts that hold because an iteration did not leave the loop
    newq = []
    leaves = bool(r4['exits']) or aborted
    conds = [[c for c in s2.pc if c not in r4['pc0']] for s2, f2 in r4['back']]
    if (leaves or any(locals_of(x, c4) for c in conds for x in c)) and conds:
        b = lor(*[land(*c) for c in conds])
        if free_of(b, hvars): newq.append(((), (), b))
    if len(r4['back']) == 1:
        for q in r4['back'][0][0].quant:
            if q not in r4['quant0'] and free_of(q.body, hvars) and not any(locals_of(g, c4, q.params) for g in q.guards): newq.append((q.params, q.guards, q.body))
    def quants(upto):
        out = []
        for ps, gs, b in newq:
            kk = ivar(fresh('k'))
            if isinstance(b, bool): continue
            out.append(Quant(tuple(ps) + (kk,), tuple(subst(g, {k: kk}) for g in gs) + (ile(0, kk), ilt(kk, upto)), skolem(subst(b, {k: kk}), c4, kk, ps)))
        return tuple(out)
    for s2, f2 in r4['back']:
        if s2.events != r4['ev0']:
            if not ex.opts.get('loop_events'): raise Unsupported('I/O inside a symbolic loop')
    nd = []
    if any(locals_of(x, c4) for s2, f2 in r4['back'] for new in [s2.events[len(r4['ev0']):]] for x in new if isinstance(x, Term)): raise Unsupported('I/O of a selection')
    for s2, f2 in r4['back'] + r4['exits']:
        for d in s2.divs:
            if d not in r4['divs0'] and d not in nd: nd.append(d)
    # ---------------- normal exit
    if not r4['back']:
        # the first iteration always leaves
        kexit = None
    s = st.fork()
    evs = []
    for s2, f2 in r4['back']:
        new = s2.events[len(r4['ev0']):]
        if new: evs.append((new, [c for c in s2.pc if c not in r4['pc0']]))
    if evs:
        if len(evs) != 1 or len(r4['back']) != 1: raise Unsupported('conditional I/O inside a symbolic loop')
        s.events = s.events + (('loop', k, N, evs[0][0]),)
    for rid in wr4:
        w = s.wreg(rid)
        w.arr = chain_for(rid, st.mem[rid].arr, N)
    fin = L.frame({})
    for n in L.init:
        key = ('phi', n)
        if key in slots:
            if key in sol: fin.regs[n] = acc_at(key, N)
            else: fin.regs[n] = UNDEF if not isinstance(slots[key][1], Ptr) else UNDEF
        else: fin.regs[n] = closed(kinds[n], L.init[n], N, UNDEF)
    for key in cinit:
        rid, off = key[1:]
        if key in slots: v = acc_at(key, N) if key in sol else UNDEF
        else: v = closed(ckinds[key], cinit[key], N, UNDEF)
        s.wreg(rid).cells[off] = (L.slots[key][0], v)
    for (rid, x) in acells:
        key = ('arr', rid, x)
        w = s.wreg(rid)
        w.arr = AStore(w.arr, x, acc_at(key, N) if key in sol else UNDEF)
    s.quant = s.quant + quants(N)
    for f in facts_after:
        for c in f.facts_at(N): s.assume(c)
        s.quant = s.quant + tuple(f.quants_at(N))
    s.divs = s.divs + tuple(nd)
    if r4['back']: work.append((s, fin))
    # ---------------- early exits
    for s2, f2 in r4['exits']:
        s2.quant = s2.quant + quants(k)
        if stop and stop(f2): ex.stopped.append((s2, f2))
        else: work.append((s2, f2))
    return 'done'

def outer_vars(st):
    r = set()
    for c in st.pc: r |= fv(c)
    return r

def same_addr(a, b):
    if len(a.params) != len(b.params): return False
    ren = dict(zip(a.params, b.params))
    x = subst(a.addr, ren) if isinstance(a.addr, Term) else a.addr
    return x is b.addr or x == b.addr

# ------------------------------------------------------------ selections (min / max / arg-min)
class Sel:
    """value chosen by a selection fold"""
    def __init__(self, fold, role): self.fold, self.role = fold, role
    def at(self, kk): return self.fold.value(self.role, kk)

class Fold:
    """slots replaced together: the value slot is the best (by rel) of its initial value and
    the alternatives' values over all params with guards in iterations below a bound, and the
    other slots are those of the alternative chosen"""
    def __init__(self): self.vals = {}
    def value(self, role, kk):
        key = (role, kk.id if isinstance(kk, Term) else kk)
        if key not in self.vals:
            v = (rvar if role[1] == 'R' else ivar)(fresh('sel'))
            self.vals[key] = v
            self.reg[v] = (self, role, kk)
        return self.vals[key]
    def at(self, kk): return dict(self.cur) if kk is self.k else {n: self.value(self.roleof[n], kk) for n in self.cur}
    def facts_at(self, kk): return [self.inv(self.at(kk), kk)]
    def inst(self, t, ps):
        return subst(t, dict(zip(self.params, ps))) if isinstance(t, Term) else t
    def rng(self, ps, kk):
        return [self.inst(g, ps) for g in self.guards] + [ile(0, ps[0]), ilt(ps[0], kk)]
    def inv(self, vals, kk):
        ms = [ivar(fresh('m')) for _ in self.params]
        sat = lambda key, x: req(T.R(vals[key]), T.R(x)) if self.roleof[key][1] == 'R' else ieq(vals[key], x)
        isinit = land(*[sat(key, self.init[key]) for key in self.cur])
        chosen = land(*self.rng(ms, kk), lor(*[land(*[sat(key, self.inst(a[key], ms)) for key in self.cur]) for a in self.alts]))
        return land(lor(isinit, chosen), self.rel(T.R(vals[self.real]), T.R(self.init[self.real])))
    def quants_at(self, kk):
        vals = self.at(kk)
        js = [ivar(fresh('j')) for _ in self.params]
        return [Quant(tuple(js), tuple(g for g in self.rng(js, kk) if isinstance(g, Term)), land(*[self.rel(T.R(vals[self.real]), T.R(self.inst(a[self.real], js))) for a in self.alts]))]

RELS = (lambda x, y: rle(x, y), lambda x, y: rle(y, x))

def cases_of(nexts, rest):
    """paths through one iteration, conditional values split"""
    out = []
    todo = [(list(ex_), {key: d[key] for key in rest}) for d, ex_ in nexts]
    while todo:
        cs, d = todo.pop()
        if len(out) + len(todo) > 40: return None
        c = next((x.args[0] for x in d.values() if isinstance(x, Term) and x.op in ('rite', 'iite')), None)
        if c is None: out.append((cs, d)); continue
        for val, cc in ((1, c), (2, lnot(c))):
            todo.append((cs + [cc], {key: x.args[val] if isinstance(x, Term) and x.op in ('rite', 'iite') and x.args[0] is c else x for key, x in d.items()}))
    return out

def select_fold(L, slots, rest, nexts, N, sol, c3):
    """slots updated together: a running minimum or maximum and the indices that go with
    it.  Proves, for every path through an iteration, that the new value is the old one or an
    alternative and at least as good as the old value and all alternatives; concludes
    inductively
       (I1)  the slots are those of some alternative of an iteration m < k, or all initial
       (I2)  the value is at least as good as the initial one and every alternative of every j < k
    An iteration that is itself a selection starting from the slots is merged into
    one selection over pairs of iterations."""
    rest = [x for x in rest if slots[x][0] is not UNDEF and slots[x][1] is not UNDEF]
    if not rest or any(not isinstance(slots[x][1], Term) for x in rest): return []
    cur = {key: slots[key][1] for key in rest}
    hv = set(cur.values())
    def mkfold():
        f = Fold()
        f.reg = L.ex.folds
        f.k, f.cur = L.k, cur
        f.roleof = {key: (key, cur[key].sort) for key in rest}
        f.init = {key: slots[key][0] for key in rest}
        return f
    nested = nested_fold(L, slots, rest, nexts, cur)
    if nested:
        g, val, Ni = nested
        f = mkfold()
        back = {v: key for key, v in val.items()}
        f.real, f.rel = back[g.real], g.rel
        f.params = [L.k] + g.params
        f.guards = list(g.guards) + [ile(0, g.params[0]), ilt(g.params[0], Ni)]
        f.alts = [{key: a[val[key]] for key in rest} for a in g.alts]
        # the inner selection is at least as good as its start (the slot) and its own
        # alternatives, so earlier alternatives stay beaten by transitivity of rel
        if any(not free_of(a[key], hv) or locals_of(a[key], c3, g.params) for a in f.alts for key in rest): return []
        for key in rest: sol[key] = Sel(f, f.roleof[key])
        return [f]
    cases = cases_of(nexts, rest)
    if cases is None: return []
    alts = []
    for cs, d in cases:
        same = [d[key] is cur[key] for key in rest]
        if all(same): continue
        if any(same): return []
        if any(d[key] is UNDEF or not free_of(d[key], hv) or locals_of(d[key], c3) for key in rest): return []
        if not any(all(a[key] is d[key] or (not isinstance(d[key], Term) and a[key] == d[key]) for key in rest) for a in alts): alts.append(d)
    if not alts: return []
    pc = list(L.st.pc) + [ile(0, L.k), ilt(L.k, N)]
    for real in [key for key in rest if cur[key].sort == 'R']:
        for rel in RELS:
            if all(smt.prove(pc + cs, land(rel(T.R(d[real]), cur[real]), *[rel(T.R(d[real]), T.R(a[real])) for a in alts]), 3000) for cs, d in cases):
                f = mkfold()
                f.real, f.rel, f.params, f.guards, f.alts = real, rel, [L.k], [], alts
                for key in rest: sol[key] = Sel(f, f.roleof[key])
                return [f]
    return []

def nested_fold(L, slots, rest, nexts, cur):
    """every slot's next value is the result of one inner selection that started from the slots"""
    if len(nexts) != 1: return None
    d = nexts[0][0]
    g = Ni = None
    val = {}
    for key in rest:
        e = L.ex.folds.get(d[key]) if isinstance(d[key], Term) else None
        if e is None or (g is not None and (e[0] is not g or e[2] is not Ni)): return None
        g, role, Ni = e
        if g.init[role[0]] is not cur[key]: return None
        val[key] = role[0]
    if g is None or set(val.values()) != set(g.cur): return None
    return g, val, Ni

def memcpy_sym(ex):
    def go(st, d, s, n):
        rs, rd = st.mem.get(s.r), st.mem.get(d.r)
        if s.r is None or d.r is None:
            ex.oblige(st, 'memory', 'memcpy through null', ile(n, 0)); return
        es = rs.es or rd.es or 8
        if rs.arr is None or rd.arr is None: raise Unsupported('memcpy between small and large objects')
        c = {m: x for m, x in ip(n).items()}
        if any(x % es for x in c.values()): raise Unsupported('memcpy of %s bytes' % show(n))
        cnt = ipoly({m: x // es for m, x in c.items()})
        for r, p, w in ((rs, s, 'load'), (rd, d, 'store')):
            if not r.alive: ex.oblige(st, 'memory', '%s of %s after its lifetime ended' % (w, r.name), ile(n, 0))
            ex.oblige(st, 'memory', 'memcpy %s out of bounds of %s' % (w, r.name), lor(ile(n, 0), land(ile(0, p.o), ile(iadd(p.o, n), r.size))))
        if d.r == s.r: raise Unsupported('memmove within one array')
        k = ivar(fresh('k'))
        s2 = st.fork(); s2.assume(ile(0, k)); s2.assume(ilt(k, cnt))
        src = ex.sel(s2, rs.arr, iadd(ex.elem_index(st, rs, s.o, es), k))
        w = st.wreg(d.r)
        w.arr = AMap((k,), (ile(0, k), ilt(k, cnt)), iadd(ex.elem_index(st, w, d.o, es), k), src, w.arr)
    return go
def memset_sym(ex):
    def go(st, d, v, n):
        if v != 0: raise Unsupported('memset nonzero')
        w = st.wreg(d.r)
        es = w.es or 8
        if w.arr is None: raise Unsupported('memset small object')
        ex.oblige(st, 'memory', 'memset out of bounds of %s' % w.name, lor(ile(n, 0), land(ile(0, d.o), ile(iadd(d.o, n), w.size))))
        c = ip(n)
        if any(x % es for x in c.values()): raise Unsupported('memset size')
        cnt = ipoly({m: x // es for m, x in c.items()})
        k = ivar(fresh('k'))
        w.arr = AMap((k,), (ile(0, k), ilt(k, cnt)), iadd(ex.elem_index(st, w, d.o, es), k), Fraction(0), w.arr)
    return go

def install(ex, h):
    ex.loophook = hook
    ex.loopstats = {}
    ex.memcpy_sym = memcpy_sym(ex)
    ex.memset_sym = memset_sym(ex)
