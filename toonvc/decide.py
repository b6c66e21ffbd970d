"""Deciding one obligation: identities by normal form, everything else by z3,
with case splits on conditional terms; plus numeric evaluation of terms, used
only to refute and to search failing inputs."""
from fractions import Fraction
import math, random, time, itertools
from .terms import *
from . import terms as T
from . import smt
from .norm import Norm, Blowup

# ------------------------------------------------------------ numeric evaluation
class NoValue(Exception):
    pass

def evalnum(t, env, memo=None):
    """env: name->number for variables, name->callable(idx) for arrays"""
    if memo is None: memo = {}
    if isinstance(t, bool): return t
    if isinstance(t, int): return t
    if isinstance(t, Fraction): return float(t)
    if isinstance(t, float): return t
    r = memo.get(t)
    if r is not None: return r
    st = [t]
    while st:
        x = st[-1]
        if x in memo: st.pop(); continue
        if x.op in ('psum', 'rite', 'iite'):
            memo[x] = ev1(x, env, memo); st.pop(); continue
        ks = [k for k in kids(x) if k not in memo]
        if ks: st.extend(ks); continue
        memo[x] = ev1(x, env, memo)
        st.pop()
    return memo[t]

def ev1(t, env, memo):
    op, a = t.op, t.args
    g = lambda x: memo[x] if isinstance(x, Term) and x in memo else evalnum(x, env, memo)
    if op in ('ivar', 'rvar', 'bvar'):
        if a[0] not in env: raise NoValue(a[0])
        return env[a[0]]
    if op == 'ipoly':
        return sum(c * math.prod(g(x) for x in m) for m, c in a)
    if op == 'add': return g(a[0]) + g(a[1])
    if op == 'mul': return g(a[0]) * g(a[1])
    if op == 'div':
        d = g(a[1]); n = g(a[0])
        if d == 0: return float('nan') if n == 0 or n != n else math.copysign(float('inf'), n) 
        return n / d
    if op == 'i2r': return float(g(a[0]))
    if op == 'b2i': return int(g(a[0]))
    if op == 'rlt': return g(a[0]) < g(a[1])
    if op == 'req': return g(a[0]) == g(a[1])
    if op == 'ile0': return g(a[0]) <= 0
    if op == 'ieq0': return g(a[0]) == 0
    if op == 'not': return not g(a[0])
    if op == 'and': return all(g(x) for x in a)
    if op == 'or': return any(g(x) for x in a)
    if op in ('rite', 'iite'): return g(a[1]) if g(a[0]) else g(a[2])
    if op in ('sel', 'isel'):
        if a[0] not in env: raise NoValue(a[0])
        return env[a[0]](g(a[1]))
    if op == 'psum':
        v, body, n = a
        s = 0.0
        for k in range(int(g(n))):
            e2 = dict(env); e2[v.args[0]] = k
            s += evalnum(body, e2, {})
        return s
    if op == 'inf': return float('inf')
    if op == 'ninf': return float('-inf')
    if op == 'nan': return float('nan')
    if op in ('isdiv', 'iudiv'):
        x, y = g(a[0]), g(a[1]); return int(x / y)
    if op in ('isrem', 'iurem'): return int(math.fmod(g(a[0]), g(a[1])))
    if op == 'fptosi': return int(g(a[0]))
    if op == 'uf':
        n = a[0]; xs = [g(x) for x in a[1:]]
        if n in env: return env[n](*xs)
        try:
            if n == 'f32':
                import struct
                return struct.unpack('f', struct.pack('f', xs[0]))[0]
            f = getattr(math, n)
            return f(*xs)
        except (ValueError, OverflowError): return float('nan')
        except AttributeError: raise NoValue(n)
    raise NoValue(op)

def close(x, y, tol=1e-9, scale=1.0):
    if x != x and y != y: return True
    if x == y: return True
    if x != x or y != y: return False
    if math.isinf(x) or math.isinf(y): return False
    return abs(x - y) <= tol * max(scale, abs(x), abs(y))

# ------------------------------------------------------------ proof
class Result:
    __slots__ = ('ok', 'how', 'note')
    def __init__(self, ok, how, note=''): self.ok, self.how, self.note = ok, how, note
    def __bool__(self): return self.ok

def ite_conds(ts):
    """conditions of conditional subterms, innermost conditions first"""
    out = []
    seen = set()
    for t in ts: subterms(t, seen)
    for x in seen:
        if x.op in ('rite', 'iite'):
            c = x.args[0]
            if not any(y.op in ('rite', 'iite') for y in subterms(c)): out.append(c)
    return sorted(set(out))

def assume_in(t, c, val):
    """simplify t knowing Bool term c has truth value val"""
    m = {}
    atoms = c.args if (c.op == 'and' and val) else (tuple(lnot(x) for x in c.args) if (c.op == 'or' and not val) else (c if val else lnot(c),))
    for x in atoms:
        if isinstance(x, bool): continue
        if x.op == 'not': m[x.args[0]] = False
        else:
            m[x] = True
            n = lnot(x)
            if isinstance(n, Term) and n.op != 'not': m[n] = False
        if x.op == 'ile0':
            n = lnot(x)
            if isinstance(n, Term): m[n] = False
    m[c] = val
    return subst(t, m) if isinstance(t, Term) else t

class Prover:
    def __init__(self, budget=20.0, samples=4, seed=1, eqtimeout=8000):
        self.norm = Norm()
        self.budget = budget
        self.eqtimeout = eqtimeout
        self.rnd = random.Random(seed)
        self.cache = {}
    def norm_eq(self, a, b, secs):
        t0 = time.time()
        smt.stats['norm_queries'] += 1
        self.norm.deadline = time.time() + secs
        try:
            return self.norm.equal(a, b)
        except (Blowup, ZeroDivisionError, RecursionError):
            return False
        finally:
            self.norm.deadline = None
            smt.stats['norm_time'] += time.time() - t0
    def eq_substs(self, pc):
        """path equalities usable as substitutions"""
        m = {}
        for c in pc:
            if c.op == 'req':
                x, y = c.args
                if isinstance(y, Term) and y.op in ('rvar', 'sel') and not (isinstance(x, Term) and y in subterms(x)): m[y] = x
                elif isinstance(x, Term) and x.op in ('rvar', 'sel') and not (isinstance(y, Term) and x in subterms(y)): m[x] = y
            elif c.op == 'ieq0':
                p = ip(c.args[0])
                for mo, k in p.items():
                    if len(mo) == 1 and abs(k) == 1 and mo[0].op == 'ivar':
                        v = mo[0]
                        if sum(1 for q in p if v in q) == 1:
                            rest = ipoly({q: z for q, z in p.items() if q != mo})
                            m[v] = iscale(rest, -1 if k == 1 else 1); break
        return m
    def eq(self, pc, a, b, depth=0, t0=None):
        if t0 is None: t0 = time.time()
        from .exe import UNDEF
        if a is UNDEF or b is UNDEF: return Result(False, 'undef', 'value is uninitialised')
        sa, sb = sort_of(a), sort_of(b)
        if sa == 'B' or sb == 'B':
            return self.boolean(pc, iff(a, b))
        if sa == 'I' and sb == 'I':
            g = ieq(a, b)
            return Result(True, 'structural') if g is True else self.boolean(pc, g)
        a, b = T.R(a), T.R(b)
        if a is b or (isinstance(a, Fraction) and isinstance(b, Fraction) and a == b):
            smt.stats['structural'] += 1
            return Result(True, 'structural')
        if a in (INF, NINF, NAN) or b in (INF, NINF, NAN):
            return Result(smt.check_sat(pc, 3000)[0] == 'unsat', 'special', 'infinite or undefined value')
        left = self.budget - (time.time() - t0)
        if left <= 0: return Result(False, 'timeout', 'budget exhausted')
        if self.norm_eq(a, b, left * 0.6): return Result(True, 'normal-form')
        # case split on conditionals
        cs = ite_conds([a, b])
        if cs and depth < 14:
            cs = self.pick(cs, a, b)
            c = cs
            res = None
            for val in (True, False):
                cc = c if val else lnot(c)
                if not smt.feasible(pc, cc, 1500): continue
                pc2 = tuple(pc) + ((cc,) if cc not in pc else ())
                r = self.eq(pc2, assume_in(a, c, val), assume_in(b, c, val), depth + 1, t0)
                if not r: return r
            return Result(True, 'case-split')
        m = self.eq_substs(pc)
        if m and depth < 20:
            for _ in range(4):
                a2, b2 = subst(a, m), subst(b, m)
                if a2 is a and b2 is b: break
                a, b = a2, b2
                if a is b: return Result(True, 'substitution')
            if self.norm_eq(a, b, max(0.5, left * 0.3)): return Result(True, 'substitution')
        if depth < 20 and any(c.op == 'req' for c in pc if isinstance(c, Term)):
            sl = self.solved(pc)
            if sl is None: return Result(True, 'contradictory path')
            if sl:
                a2, b2 = a, b
                for m in sl: a2, b2 = subst(a2, m), subst(b2, m)
                if self.norm_eq(a2, b2, max(0.5, left * 0.3)): return Result(True, 'elimination')
        a2, b2 = self.short_sums(pc, a), self.short_sums(pc, b)
        if a2 is not a or b2 is not b: return self.eq(pc, a2, b2, depth + 1, t0)
        left = self.budget - (time.time() - t0)
        if left <= 0: return Result(False, 'timeout', 'budget exhausted')
        if self.refuted(pc, a, b):
            return Result(False, 'refuted', 'sides differ numerically on the path')
        if smt.check_sat(pc, 1500)[0] == 'unsat': return Result(True, 'contradictory path')
        r = smt.prove(pc, req(a, b), int(min(self.eqtimeout, left * 1000)))
        return Result(r, 'z3', '' if r else 'not valid or unknown')
    # ---------------------------------------------------- equations solved for an unknown
    def p2term(self, p):
        out = Fraction(0)
        for m, c in sorted(p.items()):
            x = c
            for a, e in m:
                for _ in range(e): x = mul(x, self.norm.atoms[a])
            out = add(out, x)
        return out
    def hyp_polys(self, cs):
        out = []
        for c in cs:
            if isinstance(c, Term) and c.op == 'not' and c.args[0].op == 'req':
                x = sub(c.args[0].args[0], c.args[0].args[1])
            elif isinstance(c, Term) and c.op == 'rlt': x = sub(c.args[0], c.args[1])
            else: continue
            h = self.norm.finish(self.norm.norm(x))
            if not h: return None
            if len(h) < 400: out.append(h)
        return out
    def divide_out(self, n, hyps):
        ch = True
        while ch:
            ch = False
            for h in hyps:
                if len(h) == 1 and () in h: continue
                q = self.norm.pdivexact(n, h)
                if q: n = q; ch = True
        return n
    def solved(self, pc, secs=8.0):
        """equations of the path solved, one after the other, for an unknown that occurs
        linearly with a nonzero coefficient; b <= 0 for an absolute value b counts as b = 0.
        -> list of substitutions, or None when the path is contradictory"""
        key = ('solved', tuple(c.id for c in pc))
        if key in self.cache: return self.cache[key]
        cs = [c for c in pc if isinstance(c, Term) and (c.op in ('req', 'rlt') or (c.op == 'not' and c.args[0].op in ('req', 'rlt')))]
        steps, done = [], set()
        N = self.norm
        N.deadline = time.time() + secs
        try:
            while True:
                hyps = self.hyp_polys(cs)
                if hyps is None: steps = None; break
                hit = None
                for c in cs:
                    if c in done: continue
                    if c.op == 'req': eqs = sub(c.args[0], c.args[1])
                    elif c.op == 'not' and c.args[0].op == 'rlt':
                        lo, hi = c.args[0].args      # hi <= lo
                        if not (isinstance(hi, Term) and hi.op == 'rite'): continue
                        x = hi.args[2]
                        if hi is not T.rabs(x) or not N.is_zero(lo): continue
                        eqs = x
                    else: continue
                    n = N.finish(N.norm(eqs))
                    if not n: done.add(c); continue
                    n = self.divide_out(n, hyps)
                    if len(n) == 1 and () in n: hit = 'contradiction'; break
                    best = None
                    for a in sorted({a for m in n for a, e in m}):
                        at = N.atoms[a]
                        if at.op not in ('rvar', 'sel'): continue
                        if any(e > 1 for m in n for b, e in m if b == a): continue
                        co = {tuple(x for x in m if x[0] != a): k for m, k in n.items() if any(x[0] == a for x in m)}
                        if any(any(at in subterms(N.atoms[b]) for b, e in m if b != a) for m in n): continue
                        q = self.divide_out(co, hyps)
                        if len(q) == 1:
                            (m, _), = q.items()
                            if all(self._atom_nz(cs, x) for x, e in m) and (best is None or len(co) < best[0]):
                                rest = {m: -k for m, k in n.items() if not any(x[0] == a for x in m)}
                                best = (len(co), at, div(self.p2term(rest), self.p2term(co)))
                    if best: hit = (best[1], best[2]); done.add(c); break
                if hit is None: break
                if hit == 'contradiction': steps = None; break
                m = {hit[0]: hit[1]}
                steps.append(m)
                cs2 = []
                for c in cs:
                    d = subst(c, m)
                    if c in done: done.add(d)
                    if d is False: cs2 = None; break
                    if isinstance(d, Term): cs2.append(d)
                if cs2 is None: steps = None; break
                cs = cs2
        except (Blowup, ZeroDivisionError): steps = steps or []
        finally: N.deadline = None
        self.cache[key] = steps
        return steps
    def short_sums(self, pc, t):
        """sums whose length the path fixes at 0 or 1"""
        if not isinstance(t, Term): return t
        m = {}
        for x in subterms(t):
            if x.op != 'psum': continue
            v, body, n = x.args
            if isinstance(n, int) or fv(n) & set(y.args[0] for y in subterms(t) if y.op == 'psum'): continue
            if smt.prove(pc, ile(n, 0), 1000): m[x] = Fraction(0)
            elif smt.prove(pc, ieq(n, 1), 1000): m[x] = T.R(subst(body, {v: 0}))
        return subst(t, m) if m else t
    def pick(self, cs, a, b):
        # prefer integer conditions (cheap), then the smallest
        cs.sort(key=lambda c: (0 if c.op in ('ile0', 'ieq0') else 1, len(subterms(c)), c.id))
        return cs[0]
    def refuted(self, pc, a, b, n=60):
        vs = set()
        for t in list(pc) + [a, b]:
            if isinstance(t, Term): vs |= fv(t)
        arrs = set()
        for t in list(pc) + [a, b]:
            for x in subterms(t):
                if x.op in ('sel', 'isel', 'psum'): return False
                if x.op == 'uf' and not hasattr(math, x.args[0]): return False
        for k in range(n):
            env = {v.args[0]: (self.rnd.randint(-3, 6) if v.sort == 'I' else self.rnd.choice([self.rnd.uniform(-2, 2), float(self.rnd.randint(-3, 3)), self.rnd.uniform(-0.2, .2)]) if v.sort == 'R' else self.rnd.random() < .5) for v in vs}
            try:
                memo = {}
                if not all(evalnum(c, env, memo) for c in pc): continue
                x, y = evalnum(a, env, memo), evalnum(b, env, memo)
            except (NoValue, OverflowError, ZeroDivisionError): continue
            if x != x or y != y or math.isinf(x) or math.isinf(y): continue
            if not close(x, y, 1e-6): return True
        return False
    def boolean(self, pc, g, timeout=None):
        if g is True: return Result(True, 'structural')
        if any(isinstance(c, Term) and c.op == 'req' for c in pc) and self.solved(tuple(pc), 4.0) is None: return Result(True, 'contradictory path')
        if g is False:
            return Result(smt.check_sat(pc, 5000)[0] == 'unsat', 'z3', 'path not contradictory')
        if isinstance(g, Term) and g.op == 'and':
            for x in g.args:
                r = self.boolean(pc, x, timeout)
                if not r: return r
            return Result(True, 'z3')
        if isinstance(g, Term) and g.op == 'req':
            r = self.norm_eq(g.args[0], g.args[1], 3)
            if r: return Result(True, 'normal-form')
        r = smt.prove(pc, g, timeout or int(self.budget * 1000))
        return Result(r, 'z3', '' if r else 'not valid or unknown')
    # ---------------------------------------------------- nonzero / nonnegative
    def nonzero(self, pc, t):
        from .exe import UNDEF
        if t is UNDEF: return Result(False, 'undef')
        t = T.R(t)
        if isinstance(t, Fraction): return Result(t != 0, 'structural')
        if t in (INF, NINF): return Result(True, 'structural')
        key = ('nz', t.id, tuple(c.id for c in pc))
        if key in self.cache: return self.cache[key]
        r = self._nonzero(pc, t)
        self.cache[key] = r
        return r
    def _nonzero(self, pc, t):
        if t.op == 'mul':
            return Result(bool(self.nonzero(pc, t.args[0])) and bool(self.nonzero(pc, t.args[1])), 'factors')
        if t.op == 'div':
            r = self.nonzero(pc, t.args[0])
            if r: return r
        if lnot(req(t, Fraction(0))) in pc: return Result(True, 'hypothesis')
        if t.op == 'uf' and t.args[0] == 'exp': return Result(True, 'exp')
        if t.op == 'uf' and t.args[0] == 'sqrt':
            r = self.nonzero(pc, t.args[1])
            if r: return r
        try:
            self.norm.deadline = time.time() + 6
            n = dict(self.norm.finish(self.norm.norm(t)))
            if n:
                hyps = []
                for c in pc:
                    x = None
                    if c.op == 'not' and c.args[0].op == 'req':
                        x = sub(c.args[0].args[0], c.args[0].args[1])
                    elif c.op == 'rlt': x = sub(c.args[0], c.args[1])
                    if x is not None:
                        h = self.norm.finish(self.norm.norm(x))
                        if h and len(h) < 200: hyps.append(h)
                ch = True
                while ch and not (len(n) == 1 and () in n):
                    ch = False
                    for h in hyps:
                        q = self.norm.pdivexact(n, h)
                        if q is not None and len(h) > 0 and not (len(h) == 1 and () in h):
                            n = q; ch = True; break
                    # an atom that is exp / known nonzero
                    if not ch and len(n) == 1:
                        (m, c), = n.items()
                        rest = tuple((x, e) for x, e in m if not (self.norm.atoms[x].op == 'uf' and self.norm.atoms[x].args[0] == 'exp'))
                        rest = tuple((x, e) for x, e in rest if not self._atom_nz(pc, x))
                        if rest != m: n = {rest: c}; ch = True
                if len(n) == 1 and () in n: return Result(True, 'normal-form')
                if self.pos_poly(n, strict=True): return Result(True, 'positive')
        except (Blowup, ZeroDivisionError): pass
        finally: self.norm.deadline = None
        z = req(t, Fraction(0))
        if isinstance(z, Term) and self.solved(tuple(pc) + (z,)) is None: return Result(True, 'elimination')
        r = smt.prove(pc, lnot(z), 8000)
        return Result(r, 'z3', '' if r else 'divisor may be zero')
    def _atom_nz(self, pc, x):
        a = self.norm.atoms[x]
        if a.op == 'uf' and a.args[0] == 'sqrt': return bool(self.nonzero(pc, a.args[1]))
        return lnot(req(a, Fraction(0))) in pc
    def pos_poly(self, n, strict):
        """sum of even monomials with positive coefficients"""
        ok = all(c > 0 and all(e % 2 == 0 or (self.norm.atoms[x].op == 'uf' and self.norm.atoms[x].args[0] in ('sqrt', 'exp')) for x, e in m) for m, c in n.items())
        return ok and (not strict or () in n)
    def nonneg(self, pc, t):
        from .exe import UNDEF
        if t is UNDEF: return Result(False, 'undef')
        t = T.R(t)
        if isinstance(t, Fraction): return Result(t >= 0, 'structural')
        key = ('nn', t.id, tuple(c.id for c in pc))
        if key in self.cache: return self.cache[key]
        try:
            self.norm.deadline = time.time() + 6
            r = self.norm.norm(t)
            n = self.norm.reduce(r.n)
            if self.pos_poly(n, False) and all(self.pos_poly(dict(k), False) or e % 2 == 0 for k, e in r.d.items()):
                res = Result(True, 'sum-of-squares'); self.cache[key] = res; return res
        except (Blowup, ZeroDivisionError): pass
        finally: self.norm.deadline = None
        r = smt.prove(pc, rle(Fraction(0), t), 8000)
        res = Result(r, 'z3', '' if r else 'argument of sqrt may be negative')
        self.cache[key] = res
        return res
