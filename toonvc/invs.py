"""Loops with a stated invariant.  A specification of a loop names its roles: objects (or
scalars) that the loop carries, each with its value at entry, its value in an arbitrary
state given by ghost variables, and the update of the ghosts that one iteration stands for:

    Inv(pattern, ghosts={g: (entry, next)}, roles=[(name, [state terms])], facts=[...], counter=...)

The rule applied: (1) some assignment of the roles to objects the loop changes makes the
entry values equal the state at the entry ghosts (and the facts hold there); (2) one
iteration executed from the state at arbitrary ghosts satisfying the facts ends in the
state at the next ghosts (and the facts hold there); (3) after the loop only the state
at arbitrary ghosts, the facts and the exit condition are known.  Everything else the
loop changes is undefined at the start of the iteration (temporaries), apart from
integer counters with a constant step.  Partial correctness: termination is not shown."""
import re, itertools
from .terms import *
from . import smt
from .exe import *
from .exe import UNDEF
from .loops import Loop, fresh

class Inv:
    def __init__(self, pat, ghosts, roles, facts=(), counter='g!n', cap=24):
        self.pat, self.ghosts, self.roles, self.facts, self.counter, self.cap = pat, ghosts, roles, list(facts), counter, cap
        self.vars = {g: rvar(g) for g in ghosts}
        self.n = ivar(counter)
    def at(self, t, which):
        m = {self.vars[g]: self.ghosts[g][which] for g in self.ghosts}
        m[self.n] = 0 if which == 0 else iadd(self.n, 1)
        return subst(t, m) if isinstance(t, Term) else t

def same(ex, st, x, y):
    if x is UNDEF or y is UNDEF: return False
    d = sub(x, y)
    if not isinstance(d, Term): return d == 0
    r = ex.simp('is_zero', d)
    if r is True: return True
    return bool(smt.prove(st.pc, req(x, y), ex.opts.get('obl_timeout', 4000)))

def hook(ex, st, fr, H, body, work, stop):
    fn = dem(fr.fn.name)
    for inv in ex.opts.get('inv', ()):
        if re.search(inv.pat, fn):
            r = (auto_cut if isinstance(inv, Auto) else cut)(ex, st, fr, H, body, work, stop, inv, fn)
            if r is not None: return r
    return None

def cut(ex, st, fr, H, body, work, stop, inv, fn):
    loops = fr.fn.loops
    if any(H in b and h != H for h, b in loops.items()): return None      # an inner loop
    L = Loop(ex, st, fr, H, body)
    L.k = inv.n
    def havoc(v, nm):
        if v is UNDEF: return UNDEF
        if isinstance(v, bool) or isinstance(v, Term) and v.sort == 'B': return bvar(fresh(nm))
        if isinstance(v, int) or isinstance(v, Term) and v.sort == 'I': return ivar(fresh(nm))
        if isinstance(v, Fraction) or isinstance(v, Term) and v.sort == 'R': return rvar(fresh(nm))
        return v
    h1 = {i.res: havoc(L.init[i.res], 'h') for i in L.phis}
    cells = {}
    ro = frozenset()
    for rnd in range(8):
        r1 = L.quiet(lambda: L.generic(h1, cells, {}, 'discover', {}, [], touched=ro))
        grew = False
        for s2, f2 in r1['back']:
            for rid, r in L.st.mem.items():
                r2 = s2.mem[rid]
                if r.arr is not None and r2.arr is not r.arr: raise Unsupported('array written in a loop with a stated invariant')
                if r.arr is None and r2.cells is not r.cells:
                    for off, (sz, v) in r2.cells.items():
                        if ('cell', rid, off) in L.slots: continue
                        old = r.cells.get(off)
                        if old is not None and old[0] == sz and (old[1] is v or type(old[1]) == type(v) and not isinstance(v, Term) and old[1] == v): continue
                        ov = old[1] if old is not None and old[0] == sz else Fraction(0) if any(a <= off and off + sz <= b for a, b in r.zeros) else UNDEF
                        L.slots[('cell', rid, off)] = (sz, ov)
                        cells[(rid, off)] = havoc(ov, 'h')
                        grew = True
        if not grew: break
    if not r1['back']: return None
    # a loop whose exit does not depend on data is executed
    extra = [c for s2, f2 in r1['back'] for c in s2.pc if c not in r1['pc0']]
    if not extra and not inv.roles: return None
    # integer counters
    vals, cvals = {}, {}
    def step(cv, vs):
        ds = [isub(x, cv) if isinstance(x, (int, Term)) and not isinstance(x, bool) else None for x in vs]
        return ds[0] if ds and all(isinstance(d, int) for d in ds) and len(set(ds)) == 1 else None
    nx = [L.nexts(s2, f2) for s2, f2 in r1['back']]
    for n, cv in h1.items():
        vals[n] = UNDEF
        if all(x[n] is cv for x in nx): vals[n] = L.init[n]
        elif isinstance(cv, Term) and cv.sort == 'I':
            d = step(cv, [x[n] for x in nx])
            if d is not None: vals[n] = iadd(L.init[n], iscale(inv.n, d))
    for k2, cv in cells.items():
        cvals[k2] = UNDEF
        if isinstance(cv, Term) and cv.sort == 'I':
            d = step(cv, [s2.mem[k2[0]].cells.get(k2[1], (0, UNDEF))[1] for s2, f2 in r1['back']])
            if d is not None: cvals[k2] = iadd(L.slots[('cell',) + k2][1], iscale(inv.n, d))
    # places for the roles
    places = []
    for name, state in inv.roles:
        n = len(state)
        ent = [inv.at(t, 0) for t in state]
        c = []
        rids = sorted(set(rid for rid, off in cells))
        for rid in rids:
            for off0 in sorted(o for r, o in cells if r == rid):
                offs = [off0 + 8 * i for i in range(n)]
                if n > 1 and off0 != min(o for r, o in cells if r == rid): continue
                if not all((rid, o) in cells for o in offs): continue
                if all(same(ex, st, L.slots[('cell', rid, o)][1], e) for o, e in zip(offs, ent)): c.append(('cell', rid, offs))
        if n == 1:
            for p in h1:
                v = L.init[p]
                if isinstance(v, (Fraction, Term)) and not (isinstance(v, Term) and v.sort != 'R') and vals[p] is UNDEF and same(ex, st, v, ent[0]): c.append(('phi', p, None))
        places.append(c)
    fails = ['the entry values of %s' % ', '.join(nm for (nm, s), c in zip(inv.roles, places) if not c)] if not all(places) else []
    ex.loopstats['invariant'] = ex.loopstats.get('invariant', 0) + 1
    for f in inv.facts:
        if not smt.prove(st.pc, inv.at(f, 0), 4000): fails.append('a fact at entry')
    tried = 0
    if not fails:
        for asg in itertools.product(*places):
            if len(set((a[0], a[1], tuple(a[2] or ())) for a in asg)) < len(asg): continue
            tried += 1
            if tried > inv.cap: break
            v2, c2 = dict(vals), dict(cvals)
            for (nm, state), (kind, where, offs) in zip(inv.roles, asg):
                if kind == 'phi': v2[where] = state[0]
                else:
                    for o, t in zip(offs, state): c2[(where, o)] = t
            facts = [ile(0, inv.n)] + inv.facts
            r = L.quiet(lambda: L.generic(v2, c2, {}, 'inv', {}, facts, touched=ro))
            bad = None
            for s2, f2 in r['back']:
                nxs = L.nexts(s2, f2)
                for (nm, state), (kind, where, offs) in zip(inv.roles, asg):
                    got = [nxs[where]] if kind == 'phi' else [s2.mem[where].cells.get(o, (0, UNDEF))[1] for o in offs]
                    for j, (x, t) in enumerate(zip(got, state)):
                        if not same(ex, s2, x, inv.at(t, 1)): bad = '%s[%d] after an iteration' % (nm, j); break
                    if bad: break
                if not bad:
                    for f in inv.facts:
                        if not smt.prove(s2.pc, inv.at(f, 1), 4000): bad = 'a fact after an iteration'; break
                if bad: break
                ex.nobl += sum(len(s) for _, s in inv.roles) + len(inv.facts)
            if bad: fails.append(bad); continue
            ex.nobl += sum(len(s) for _, s in inv.roles) + len(inv.facts)
            r = L.generic(v2, c2, {}, 'inv', {}, facts, touched=ro)      # the iteration that counts
            for s2, f2 in r['normal'] + r['exits']:
                if stop and stop(f2): ex.stopped.append((s2, f2))
                else: work.append((s2, f2))
            return 'done'
    ex.oblige(st, 'invariant', 'loop invariant (%s): %s' % (', '.join(nm for nm, s in inv.roles), fails[0] if fails else 'no assignment of the roles'), False)
    return 'done'

class Auto:
    """A loop whose invariant is inferred: every candidate predicate over what the loop
    carries is assumed together, one iteration is executed, and candidates that it does not
    re-establish are dropped, until none is dropped (Houdini).  What is left holds at entry
    and is inductive, hence an invariant; which loop variable plays which role is not stated,
    so the way the loop is written does not matter.  cands(V, first) returns the candidates
    as functions of the list of current values, V being the entry values."""
    def __init__(self, pat, cands, consts=(), defs=None, timeout=1500):
        self.pat, self.cands, self.consts, self.defs, self.timeout = pat, cands, list(consts), defs, timeout

def default_cands(V, K, fs=(), hard=(), strict=True):
    """order among the carried values and the constants K, values of the functions fs, bounds of minima"""
    n = len(V)
    out = []
    for f in fs:
        for i in range(n):
            for j in range(n):
                if i != j: out.append(('eq', i, (lambda W, j=j, f=f: f(W[j]))))
    for i in range(n):
        for j in range(n):
            if i != j:
                out.append(('p', lambda W, i=i, j=j: rle(W[i], W[j])))
                if strict: out.append(('p', lambda W, i=i, j=j: rlt(W[i], W[j])))
        for k in list(K) + list(hard):
            for a in (rle, rlt) if strict else (rle,):
                h = ()
                out.append(('p', lambda W, i=i, k=k, a=a: a(W[i], k)) + h)
                out.append(('p', lambda W, i=i, k=k, a=a: a(k, W[i])) + h)
    return out

def enclose(t):
    """rational bounds of a term without variables, or None"""
    if isinstance(t, (int, Fraction)): return Fraction(t), Fraction(t)
    if t.op == 'uf' and t.args[0] == 'sqrt' and isinstance(t.args[1], (int, Fraction)) and t.args[1] >= 0:
        import math
        q, K = Fraction(t.args[1]), 10 ** 20
        r = math.isqrt(q.numerator * K * K // q.denominator)
        return Fraction(r, K), Fraction(r + 1, K)
    if t.op in ('add', 'mul'):
        a, b = enclose(t.args[0]), enclose(t.args[1])
        if a is None or b is None: return None
        if t.op == 'add': return a[0] + b[0], a[1] + b[1]
        ps = [x * y for x in a for y in b]
        return min(ps), max(ps)
    return None

class LinZ(smt.Z):
    """conditions with products, quotients and function values as unknowns: implied facts stay implied"""
    def tr1(self, t):
        if t.op in ('rlt', 'req'):           # squares are ordered as the magnitudes of their roots
            import z3
            rt = [a.args[0] if isinstance(a, Term) and a.op == 'mul' and a.args[0] is a.args[1] else Fraction(0) if not isinstance(a, Term) and a == 0 else None for a in t.args]
            if None not in rt:
                x, y = self.tr(rt[0]), self.tr(rt[1])
                x, y = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
                return x < y if t.op == 'rlt' else x == y
        if t.op == 'uf' and t.args[0] == 'sqrt' and enclose(t):
            import z3
            v, (lo, hi) = z3.Real('opq!%d' % t.id), enclose(t)
            self.side[t] = [v >= z3.RealVal(str(lo)), v <= z3.RealVal(str(hi))]
            return v
        if t.op == 'mul' and not any(isinstance(a, Fraction) for a in t.args):
            for k, x in (t.args, t.args[::-1]):
                if not fv(k) and fv(x) and enclose(k):
                    import z3
                    lo, hi = [z3.RealVal(str(e)) for e in enclose(k)]
                    v, e = z3.Real('opq!%d' % t.id), self.tr(x)
                    self.side[t] = [z3.Implies(e >= 0, z3.And(lo * e <= v, v <= hi * e)), z3.Implies(e <= 0, z3.And(hi * e <= v, v <= lo * e))]
                    return v
        if t.op == 'mul' and not any(isinstance(a, Fraction) or not fv(a) for a in t.args) or t.op == 'div' or t.op == 'uf' and fv(t):
            import z3
            return z3.Real('opq!%d' % t.id)
        return smt.Z.tr1(self, t)

def batch(ex, pc, goals, tmo):
    """indices of the goals that the conditions imply, established linearly; a model of the conditions that
    refutes one goal discards the others it refutes"""
    import z3
    Z = LinZ()
    s = z3.Solver()
    s.set('timeout', tmo)
    conds = [Z.tr(c) for c in pc if c is not True]
    gs = {i: (z3.BoolVal(g) if isinstance(g, bool) else Z.tr(g)) for i, g in goals.items()}
    side = Z.sides([c for c in pc if isinstance(c, Term)] + [g for g in goals.values() if isinstance(g, Term)])
    ok, left = set(), dict(gs)
    while left:
        i = next(iter(left))
        s = z3.Solver(); s.set('timeout', tmo)
        for c in conds: s.add(c)
        for c in side: s.add(c)
        # all that is left at once, then one at a time
        smt.stats['z3_queries'] += 1
        s.push(); s.add(z3.Not(z3.And(*left.values())))
        r = s.check()
        if r == z3.unsat: return ok | set(left)
        if r == z3.sat:
            m = s.model()
            drop = [j for j, e in left.items() if not z3.is_true(m.eval(e, model_completion=True))]
            if drop:
                for j in drop: del left[j]
                continue
        s.pop(); s.add(z3.Not(left[i]))
        if s.check() == z3.unsat: ok.add(i)
        del left[i]
    return ok

def eqcases(ex, x, y, depth=4):
    """what is left to prove of x == y after deciding the conditional subterms both ways"""
    d = sub(x, y)
    if d == 0 if not isinstance(d, Term) else ex.simp('is_zero', d) is True: return []
    its = [t for t in subterms(d) if t.op == 'rite'] if depth else []
    its = [t for t in its if not any(u.op == 'rite' for u in subterms(t.args[0]))]
    if not its: return [req(x, y)]
    c = its[0].args[0]
    out = []
    for b in (True, False):
        m = {c: b}
        if isinstance(c, Term) and c.op == 'not': m[c.args[0]] = not b
        out += [lor(lnot(c) if b else c, r) for r in eqcases(ex, subst(x, m), subst(y, m), depth - 1)]
    return out

def auto_cut(ex, st, fr, H, body, work, stop, inv, fn):
    loops = fr.fn.loops
    if any(H in b and h != H for h, b in loops.items()): return None
    L = Loop(ex, st, fr, H, body)
    L.k = ivar(fresh('n'))
    def havoc(v, nm):
        if v is UNDEF: return UNDEF
        if isinstance(v, bool) or isinstance(v, Term) and v.sort == 'B': return bvar(fresh(nm))
        if isinstance(v, int) or isinstance(v, Term) and v.sort == 'I': return ivar(fresh(nm))
        if isinstance(v, Fraction) or isinstance(v, Term) and v.sort == 'R': return rvar(fresh(nm))
        return v
    h1 = {i.res: havoc(L.init[i.res], 'h') for i in L.phis}
    cells = {}
    ro = frozenset()
    for rnd in range(8):
        r1 = L.quiet(lambda: L.generic(h1, cells, {}, 'discover', {}, [ile(0, L.k)], touched=ro))
        grew = False
        for s2, f2 in r1['back']:
            for rid, r in L.st.mem.items():
                r2 = s2.mem[rid]
                if r.arr is not None and r2.arr is not r.arr: raise Unsupported('array written in a loop with an inferred invariant')
                if r.arr is None and r2.cells is not r.cells:
                    for off, (sz, v) in r2.cells.items():
                        if ('cell', rid, off) in L.slots: continue
                        old = r.cells.get(off)
                        if old is not None and old[0] == sz and (old[1] is v or type(old[1]) == type(v) and not isinstance(v, Term) and old[1] == v): continue
                        ov = old[1] if old is not None and old[0] == sz else Fraction(0) if any(a <= off and off + sz <= b for a, b in r.zeros) else UNDEF
                        L.slots[('cell', rid, off)] = (sz, ov)
                        cells[(rid, off)] = havoc(ov, 'h')
                        grew = True
        if not grew: break
    if not r1['back']: return None
    extra = [c for s2, f2 in r1['back'] for c in s2.pc if c not in r1['pc0']]
    if not extra: return None
    def at(s2, f2):
        nx = L.nexts(s2, f2)
        return lambda key: nx[key[1]] if key[0] == 'phi' else s2.mem[key[1]].cells.get(key[2], (0, UNDEF))[1]
    start = {('phi', n): (L.init[n], cv) for n, cv in h1.items()}
    start.update({('cell',) + k2: (L.slots[('cell',) + k2][1], cv) for k2, cv in cells.items()})
    backs = [at(s2, f2) for s2, f2 in r1['back']]
    vals = {}
    reals = []
    for key, (e, cv) in start.items():
        if all(g(key) is cv for g in backs): vals[key] = e              # not changed by the loop
        elif e is UNDEF: vals[key] = UNDEF
        elif isinstance(cv, Term) and cv.sort == 'I':
            ds = [isub(g(key), cv) if isinstance(g(key), (int, Term)) and not isinstance(g(key), bool) else None for g in backs]
            vals[key] = iadd(e, iscale(L.k, ds[0])) if isinstance(ds[0], int) and len(set(map(str, ds))) == 1 else cv
        else:
            vals[key] = cv
            if isinstance(cv, Term) and cv.sort == 'R': reals.append(key)
    cands = []
    E = [start[k][0] for k in reals]
    def holds(s, c, tmo): return c is True or c is not False and bool(smt.prove(s.pc, c, tmo))
    groups = list(inv.cands(E, inv.consts))
    # values of functions first: the state is written with them
    sub_ = {}
    ok = batch(ex, st.pc, {k: g[1](E) for k, g in enumerate(groups) if g[0] != 'eq'}, inv.timeout)
    for k, g in enumerate(groups):
        if g[0] == 'eq':
            i, f = g[1], g[2]
            if same(ex, st, E[i], f(E)): cands.append(g)
        elif k in ok or len(g) > 2 and holds(st, g[1](E), inv.timeout): cands.append(g)
    def state(cs):
        W = [vals[k] for k in reals]
        W0 = list(W)
        used = set()
        for g in cs:
            if g[0] == 'eq' and g[1] not in used:
                t = g[2](W0)
                W[g[1]] = t; used.add(g[1])
        v2, c2 = {}, {}
        for key in start:
            v = W[reals.index(key)] if key in reals else vals[key]
            if key[0] == 'phi': v2[key[1]] = v
            else: c2[key[1:]] = v
        facts = [ile(0, L.k)]
        for g in cs:
            if g[0] == 'eq':
                if W[g[1]] is not g[2](W0): facts.append(req(W[g[1]], g[2](W0)))
            else: facts.append(g[1](W))
        # the counter: what let the previous iteration start
        for c in inner: facts.append(lor(ile(L.k, 0), subst(c, {L.k: isub(L.k, 1)})))
        return v2, c2, [f for f in facts if f is not True]
    inner = []
    hv = set(x for x in list(h1.values()) + list(cells.values()) if isinstance(x, Term))
    rounds = 0
    while True:
        rounds += 1
        if rounds > 12: raise Unsupported('inferred invariant: no fixed point')
        v2, c2, facts = state(cands)
        r = L.quiet(lambda: L.generic(v2, c2, {}, 'inv', {}, facts, touched=ro))
        if rounds == 1:
            cs = None
            for s2, f2 in r['back']:
                here = set(c for c in s2.pc if isinstance(c, Term) and not (fv(c) & set(x for x in hv)) and L.k in fv(c)) - set(facts)
                cs = here if cs is None else cs & here
            inner = sorted(cs or (), key=show)
        drop = set()
        for s2, f2 in r['back']:
            g2 = at(s2, f2)
            N = [g2(k) for k in reals]
            if ex.opts.get('ratsimp') or ex.opts.get('divsimp') and 0: N = [ex.simp('ratsimp', x) if isinstance(x, Term) else x for x in N]
            if any(x is UNDEF for x in N): raise Unsupported('undefined value in a loop with an inferred invariant')
            live = {}
            for ci, g in enumerate(cands):
                if ci in drop: continue
                if g[0] == 'eq':
                    x, y = N[g[1]], g[2](N)
                    cs = eqcases(ex, x, y)
                    if cs: live[ci] = land(*cs)
                else: live[ci] = g[1](N)
            ok = batch(ex, s2.pc, live, inv.timeout)
            for ci, t in live.items():
                if ci in ok or len(cands[ci]) > 2 and holds(s2, t, inv.timeout): continue
                drop.add(ci)
                if ex.opts.get('invdebug') == 2: print('DROP', rounds, s2.trace if hasattr(s2, 'trace') else '', show(cands[ci][1]([rvar('W%d' % k) for k in range(len(reals))]) if cands[ci][0] != 'eq' else req(rvar('W%d' % cands[ci][1]), cands[ci][2]([rvar('W%d' % k) for k in range(len(reals))])))[:80], '   ', show(t)[:150])
            bad = [c for c in inner if not holds(s2, c, inv.timeout)]
            if bad: inner = [c for c in inner if c not in bad]; drop.add(-1)
        if not drop and rounds > 1: break
        cands = [g for ci, g in enumerate(cands) if ci not in drop]
    ex.loopstats['inferred invariant'] = ex.loopstats.get('inferred invariant', 0) + 1
    ex.nobl += len(cands) * (1 + len(r['back']))
    v2, c2, facts = state(cands)
    if ex.opts.get('invdebug'):
        for f in facts: print('INV', show(f)[:150])
        for k in start: print('  ', k, show(v2[k[1]] if k[0] == 'phi' else c2[k[1:]])[:80], '<-', show(start[k][0])[:80])
    r = L.generic(v2, c2, {}, 'inv', {}, facts, touched=ro)
    for s2, f2 in r['normal'] + r['exits']:
        if stop and stop(f2): ex.stopped.append((s2, f2))
        else: work.append((s2, f2))
    return 'done'
