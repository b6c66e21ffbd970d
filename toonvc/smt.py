"""Solver back end: z3 over linear integers (+ product lemmas), nonlinear reals
and uninterpreted cells."""
from fractions import Fraction
import z3, time
from .terms import *
from . import terms as T
from .norm import Norm, Blowup

stats = {'z3_queries': 0, 'z3_time': 0.0, 'z3_unknown': 0, 'norm_queries': 0, 'norm_time': 0.0, 'structural': 0}

class Z:
    """term -> z3 translation (one per process)"""
    def __init__(self):
        self.memo = {}
        self.side = {}       # term -> list of side conditions (definitional axioms)
        self.fns = {}
        self.mono = {}
        self.norm = Norm()
        self.psums = {}
    def fn(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.fns: self.fns[k] = z3.Function(name + '/%d' % len(sorts), *sorts)
        return self.fns[k]
    def tr(self, t):
        if isinstance(t, bool): return z3.BoolVal(t)
        if isinstance(t, int): return z3.IntVal(t)
        if isinstance(t, Fraction): return z3.RealVal(str(t))
        r = self.memo.get(t)
        if r is not None: return r
        st = [t]
        while st:
            x = st[-1]
            if x in self.memo: st.pop(); continue
            if x.op == 'psum' :
                ks = []
            else:
                ks = [k for k in kids(x) if k not in self.memo]
            if ks: st.extend(ks); continue
            self.memo[x] = self.tr1(x)
            st.pop()
        return self.memo[t]
    def monovar(self, m):
        if len(m) == 1: return self.tr(m[0])
        if m not in self.mono:
            self.mono[m] = z3.Int('mono!%d' % len(self.mono))
        return self.mono[m]
    def tr1(self, t):
        op, a = t.op, t.args
        g = self.tr
        if op == 'ivar': return z3.Int(a[0])
        if op == 'rvar': return z3.Real(a[0])
        if op == 'bvar': return z3.Bool(a[0])
        if op == 'ipoly':
            s = None
            for m, c in a:
                if m == (): e = z3.IntVal(c)
                else:
                    e = self.monovar(m)
                    if c != 1: e = c * e
                s = e if s is None else s + e
            return s
        if op == 'add': return g(a[0]) + g(a[1])
        if op == 'mul': return g(a[0]) * g(a[1])
        if op == 'div': return g(a[0]) / g(a[1])
        if op == 'i2r': return z3.ToReal(g(a[0]))
        if op == 'rlt': return g(a[0]) < g(a[1])
        if op == 'req': return g(a[0]) == g(a[1])
        if op == 'ile0': return g(a[0]) <= 0
        if op == 'ieq0': return g(a[0]) == 0
        if op == 'not': return z3.Not(g(a[0]))
        if op == 'and': return z3.And(*[g(x) for x in a])
        if op == 'or': return z3.Or(*[g(x) for x in a])
        if op in ('rite', 'iite'): return z3.If(g(a[0]), g(a[1]), g(a[2]))
        if op == 'b2i': return z3.If(g(a[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'sel': return self.fn('sel_' + a[0], z3.IntSort(), z3.RealSort())(g(a[1]))
        if op == 'isel': return self.fn('isel_' + a[0], z3.IntSort(), z3.IntSort())(g(a[1]))
        if op == 'uf':
            xs = [g(x) for x in a[1:]]
            v = self.fn('uf_' + a[0], *([x.sort() for x in xs] + [z3.RealSort()]))(*xs)
            if a[0] == 'sqrt':
                self.side[t] = [v >= 0, z3.Implies(xs[0] >= 0, v * v == xs[0])]
            if a[0] in ('sin', 'cos'):
                s = self.fn('uf_sin', z3.RealSort(), z3.RealSort())(xs[0])
                c = self.fn('uf_cos', z3.RealSort(), z3.RealSort())(xs[0])
                self.side[t] = [s * s + c * c == 1]
            if a[0] == 'atan':
                x = xs[0]
                self.side[t] = [(v > 0) == (x > 0), (v < 0) == (x < 0), z3.Implies(x >= 0, z3.And(v <= x, v * (1 + x * x) >= x)), z3.Implies(x <= 0, z3.And(v >= x, v * (1 + x * x) <= x)),
                                v * 1000000 < 1570797, v * 1000000 > -1570797, z3.Implies(x <= 1, v * 1000000 < 785399), z3.Implies(x >= -1, v * 1000000 > -785399)]
            if a[0] == 'pow2': self.side[t] = [v > 0]
            if a[0] == 'exp':
                self.side[t] = [v > 0, z3.Implies(xs[0] > 0, v > 1), z3.Implies(xs[0] < 0, v < 1)]
            return v
        if op == 'psum':
            # opaque, identified up to normal form
            try:
                k = self.norm.key(self.norm.norm(t))
            except Blowup:
                k = t
            if k not in self.psums: self.psums[k] = z3.Real('psum!%d' % len(self.psums))
            v = self.psums[k]
            # a sum of nonnegative terms is nonnegative
            sol = z3.Solver(); sol.set('timeout', 300)
            sol.add(g(a[1]) < 0)
            for e in self.sides([a[1]]): sol.add(e)
            if str(sol.check()) == 'unsat': self.side[t] = [v >= 0]
            return v
        if op in ('isdiv', 'isrem', 'iudiv', 'iurem'):
            x, y = g(a[0]), g(a[1])
            other = self.fn('opq_' + op, z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y)
            if op == 'isdiv': return z3.If(y > 0, z3.If(x >= 0, x / y, -((-x) / y)), other)
            if op == 'isrem': return z3.If(y > 0, z3.If(x >= 0, x % y, -((-x) % y)), other)
            return z3.If(z3.And(x >= 0, y > 0), x / y if op == 'iudiv' else x % y, other)
        s = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}
        xs = [g(x) for x in a if isinstance(x, (Term, int, Fraction, bool))]
        nm = 'op_' + op + '_' + '_'.join(str(x) for x in a if isinstance(x, str))
        if not xs: return z3.Const(nm, s[t.sort])
        return self.fn(nm, *([x.sort() for x in xs] + [s[t.sort]]))(*xs)
    def sides(self, ts):
        out = []
        seen = set()
        for t in ts:
            if isinstance(t, Term): subterms(t, seen)
        for x in seen:
            if x in self.side: out.extend(self.side[x])
        return out

Zt = Z()

# ---------------------------------------------------------------- integer facts
def facts_of(pc):
    """linear constraints p <= 0 (as int terms) available in a path condition"""
    out = []
    for b in pc:
        if b.op == 'ile0': out.append(b.args[0])
        elif b.op == 'ieq0':
            out.append(b.args[0]); out.append(iscale(b.args[0], -1))
        elif b.op == 'and': out.extend(facts_of(b.args))
    return out

def product_lemmas(pc, goals, wide=False):
    """u>=0, v>=0 |- u*v>=0 for pairs whose product touches a nonlinear monomial of the query"""
    allt = list(pc) + [g for g in goals if isinstance(g, Term)]
    monos = set()
    seen = set()
    for t in allt: subterms(t, seen)
    for t in seen:
        if t.op == 'ipoly':
            for m, c in t.args:
                if len(m) > 1: monos.add(m)
    if not monos: return []
    cong = []
    two = sorted((m for m in monos if len(m) == 2), key=lambda m: (m[0].id, m[1].id))
    if len(two) <= 40:
        # equal factors give equal products
        for i, m in enumerate(two):
            for x in m: cong.append(lor(lnot(ieq(x, 0)), ieq(ipoly({m: 1}), 0)))
            for w in two[i + 1:] if len(two) <= 10 else ():
                sh = [x for x in m if x in w]
                if not sh: continue
                a, b = list(m), list(w)
                a.remove(sh[0]); b.remove(sh[0])
                cong.append(lor(lnot(ieq(a[0], b[0])), ieq(ipoly({m: 1}), ipoly({w: 1}))))
    return cong + product_lemmas1(pc, goals, wide, monos)

def product_lemmas1(pc, goals, wide, monos):
    fs = [iscale(p, -1) for p in facts_of(pc)]     # each >= 0
    for g in goals:
        if isinstance(g, Term):
            ng = lnot(g)
            if isinstance(ng, Term):
                fs += [iscale(p, -1) for p in facts_of([ng])]
    uniq = []
    for f in fs:
        if isinstance(f, Term) and f not in uniq: uniq.append(f)
    degs = set(len(m) for m in monos)
    lem = []
    lin = [f for f in uniq if all(len(m) <= 1 for m in ip(f))]
    vars_in = set(x for m in monos for x in m)
    if wide:
        # facts connected to the factors of the query's monomials through other linear facts
        lin2 = []
        reach = set(vars_in)
        for _ in range(3):
            for f in lin:
                vs = set(m[0] for m in ip(f) if m)
                if f not in lin2 and vs & reach: lin2.append(f); reach |= vs
        lim = 4000
        lin2 = lin2[:60]
        for i, u in enumerate(lin2):
            for v in lin2[i:]:
                p = imul(u, v)
                if isinstance(p, int): continue
                if any(len(m) > 1 and (m[0] in vars_in or m[1] in vars_in) for m in ip(p)): lem.append(ile(iscale(p, -1), 0))
        return [l for l in lem[:lim] if l is not True]
    lin = [f for f in lin if any(m and m[0] in vars_in for m in ip(f))][:40]
    for i, u in enumerate(lin):
        for v in lin[i:]:
            p = imul(u, v)
            if isinstance(p, int): continue
            ms = [m for m in ip(p) if len(m) > 1]
            if ms and any(m in monos for m in ms):
                lem.append(ile(iscale(p, -1), 0))
            if len(lem) > 600: return lem
    if 3 in degs:
        l2 = list(lem)
        for f in lin:
            for l in l2[:120]:
                if l is True: continue
                q = imul(iscale(l.args[0], -1), f)
                ms = [m for m in ip(q) if len(m) > 2]
                if ms and any(m in monos for m in ms): lem.append(ile(iscale(q, -1), 0))
                if len(lem) > 900: return lem
    return [l for l in lem if l is not True]

_cache = {}

def _pure_int(t):
    return all(x.sort in 'IB' and x.op not in ('isel',) for x in subterms(t)) if isinstance(t, Term) else True

def relevant(pc, goal):
    """connected component of constraints sharing variables with the goal"""
    gv = set(fv(goal)) if isinstance(goal, Term) else set()
    if isinstance(goal, Term):
        pass
    items = [(c, set(fv(c))) for c in pc]
    used, ch = [], True
    pool = items
    while ch:
        ch = False
        rest = []
        for c, v in pool:
            if (v & gv) or not v:
                used.append(c); gv |= v; ch = True
            else: rest.append((c, v))
        pool = rest
    return used

def check_sat(conds, timeout=3000, want_model=False, extra=(), wide=False):
    """'sat' / 'unsat' / 'unknown' for a conjunction of Bool terms"""
    conds = [c for c in conds if c is not True]
    if any(c is False for c in conds): return ('unsat', None)
    key = (tuple(sorted(set(c.id for c in conds))), timeout if want_model else 0, wide)
    if not want_model and key in _cache: return (_cache[key], None)
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout))
    for c in conds: s.add(Zt.tr(c))
    for c in Zt.sides(conds): s.add(c)
    for l in product_lemmas([c for c in conds], [], wide): s.add(Zt.tr(l))
    for e in extra: s.add(e)
    r = str(s.check())
    # a model of the linear abstraction is only a candidate when monomials are opaque
    stats['z3_queries'] += 1
    stats['z3_time'] += time.time() - t0
    if r == 'unknown': stats['z3_unknown'] += 1
    m = s.model() if (want_model and r == 'sat') else None
    if not want_model: _cache[key] = r
    return (r, m)

def prove(pc, goal, timeout=3000):
    """True iff pc |= goal is established"""
    if goal is True: return True
    ng = lnot(goal)
    if goal in pc: return True
    if ng is True or ng is False:
        if ng is False: return True
        rel = list(pc)
        return check_sat(rel, timeout)[0] == 'unsat'
    if ng in pc:
        return check_sat(list(pc), timeout)[0] == 'unsat'
    if isinstance(goal, Term) and goal.op == 'and':
        return all(prove(pc, g, timeout) for g in goal.args)
    return is_unsat(relevant(pc, goal) + [ng], timeout)

def pinned(conds):
    """variables of nonlinear monomials that the linear conditions fix"""
    up, lo = {}, {}
    for c in conds:
        if not isinstance(c, Term) or c.op not in ('ile0', 'ieq0'): continue
        p = ip(c.args[0])
        vs = [m for m in p if m]
        if len(vs) != 1 or len(vs[0]) != 1 or abs(p[vs[0]]) != 1: continue
        v, k, b = vs[0][0], p[vs[0]], p.get((), 0)
        if c.op == 'ieq0': up[v] = lo[v] = -b * k
        elif k == 1: up[v] = min(up.get(v, -b), -b)
        else: lo[v] = max(lo.get(v, b), b)
    ne = [c.args[0].args[0] for c in conds if isinstance(c, Term) and c.op == 'not' and isinstance(c.args[0], Term) and c.args[0].op == 'ieq0']
    out = {}
    for v in up:
        if v not in lo: continue
        while lo[v] < up[v] and any(ip(t) in ({(v,): 1, (): -lo[v]}, {(v,): -1, (): lo[v]}) or lo[v] == 0 and ip(t) in ({(v,): 1}, {(v,): -1}) for t in ne): lo[v] += 1
        if lo[v] == up[v]: out[v] = lo[v]
    return out

def is_unsat(conds, timeout=3000, depth=2):
    """unsatisfiability with case splits on the factors of nonlinear address equations"""
    r = check_sat(conds, timeout)[0]
    if r == 'unsat': return True
    if any(c is False for c in conds): return True
    if not nonlin([c for c in conds if isinstance(c, Term)]): return False
    m = pinned(conds)
    if m: return is_unsat([subst(c, m) if isinstance(c, Term) else c for c in conds], timeout, depth)
    if depth:
        for A in split_factors(conds):
            if any(x in conds for x in (ile(A, -1), ieq(A, 0), ile(1, A))): continue
            if all(is_unsat([c for c in list(conds) + [x] if c is not True], timeout, depth - 1) for x in (ile(A, -1), ieq(A, 0), ile(1, A))): return True
            break
    return check_sat(conds, timeout, wide=True)[0] == 'unsat'

def split_factors(conds):
    """for an equation A*v + B = 0 among the atoms: the factor A (it is 0 when v exceeds |B|)"""
    seen = set()
    for c in conds:
        if isinstance(c, Term): subterms(c, seen)
    out = []
    for t in sorted((t for t in seen if t.op == 'ieq0'), key=lambda t: t.id):
        d = ip(t.args[0])
        vs = sorted(set(x for m in d if len(m) == 2 for x in m), key=lambda x: x.id)
        best = []
        for v in vs:
            A = {}
            for m, c in d.items():
                if len(m) == 2 and v in m:
                    k = m[0] if m[1] is v else m[1]
                    A[(k,)] = A.get((k,), 0) + c
                elif m == (v,): A[()] = A.get((), 0) + c
            n = sum(1 for m in d if len(m) == 2 and v in m)
            best.append((-n, v.id, ipoly(A)))
        for _, _, A in sorted(best, key=lambda x: x[:2]):
            if isinstance(A, Term) and A not in out: out.append(A)
    return out[:3]

def nonlin(conds):
    seen = set()
    for c in conds: subterms(c, seen)
    return any(t.op == 'ipoly' and any(len(m) > 1 for m, c in t.args) for t in seen)

def feasible(pc, cond, timeout=1000):
    """False only if pc & cond is unsatisfiable"""
    if cond is False: return False
    if cond is True: return True
    if lnot(cond) in pc: return False
    if cond in pc: return True
    rel = relevant(pc, cond)
    return check_sat(rel + [cond], timeout)[0] != 'unsat'

def model_env(conds, timeout=3000):
    """numbers for the variables of a satisfiable conjunction (candidate inputs)"""
    try: r, m = check_sat(conds, timeout, want_model=True)
    except z3.Z3Exception: return None
    if m is None: return None
    env = {}
    for d in m.decls():
        if d.arity(): continue
        v = m[d]
        try:
            if z3.is_int_value(v): env[d.name()] = v.as_long()
            elif z3.is_rational_value(v): env[d.name()] = float(v.as_fraction())
            elif z3.is_algebraic_value(v): env[d.name()] = float(v.approx(20).as_fraction())
        except Exception: pass
    return env
