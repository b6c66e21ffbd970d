"""Exact decision of real-term identities: normal form of rational functions
over atoms (variables, array cells, sqrt/sin/cos/exp/uninterpreted
applications, prefix sums) with the atoms' algebraic rules."""
from fractions import Fraction
import math, time
from .terms import *
from . import terms as T

class Blowup(Exception):
    pass

MAXT = 60000

class RF:
    __slots__ = ('n', 'd')
    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}

class Norm:
    def __init__(self, rules=None, deadline=None):
        self.atoms = []            # idx -> Term
        self.aidx = {}             # key -> idx
        self.rule = {}             # idx -> (power, poly dict)   poly-level
        self.rfrule = {}           # idx -> RF  (atom^2 = RF)
        self.memo = {}
        self.psum_info = {}
        self.revmemo = {}
        self.deadline = deadline
        self.userrules = []
    # ------------------------------------------------------------ polys
    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Blowup('time')
    def padd(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c * k
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def mmul(self, a, b):
        if not a: return b
        if not b: return a
        r, i, j, la, lb = [], 0, 0, len(a), len(b)
        while i < la and j < lb:
            x, y = a[i], b[j]
            if x[0] < y[0]: r.append(x); i += 1
            elif y[0] < x[0]: r.append(y); j += 1
            else:
                r.append((x[0], x[1] + y[1])); i += 1; j += 1
        r.extend(a[i:]); r.extend(b[j:])
        return tuple(r)
    def pmul(self, a, b):
        if not a or not b: return {}
        if len(a) > len(b): a, b = b, a
        if len(a) * len(b) > 400000: self.tick()
        if len(a) * len(b) > 20000000: raise Blowup('size')
        r = {}
        bi = list(b.items())
        mm = self.mmul
        for m, c in a.items():
            for m2, c2 in bi:
                k = mm(m, m2)
                v = r.get(k, 0) + c * c2
                r[k] = v
        r = {m: c for m, c in r.items() if c}
        if self.rule: r = self.reduce(r)
        if len(r) > MAXT: raise Blowup('terms')
        return r
    def reduce(self, p):
        rule = self.rule
        todo = None
        for m in p:
            for a, e in m:
                if a in rule and e >= rule[a][0]:
                    todo = True; break
            if todo: break
        if not todo: return p
        out = {}
        work = list(p.items())
        while work:
            m, c = work.pop()
            for i, (a, e) in enumerate(m):
                if a in rule and e >= rule[a][0]:
                    pw, poly = rule[a]
                    rest = m[:i] + (((a, e - pw),) if e > pw else ()) + m[i + 1:]
                    for m2, c2 in poly.items():
                        work.append((self.mmul(rest, m2), c * c2))
                    break
            else:
                v = out.get(m, 0) + c
                if v: out[m] = v
                else: out.pop(m, None)
        return out
    def ppow(self, a, n):
        r = {(): Fraction(1)}
        for _ in range(n): r = self.pmul(r, a)
        return r
    def lead(self, p):
        return max(p, key=self.mkey)
    def mkey(self, m):
        return (sum(e for a, e in m), m)
    def monic(self, p):
        """-> (content Fraction, primitive poly key)"""
        den = 1
        for c in p.values(): den = den * c.denominator // math.gcd(den, c.denominator)
        num = 0
        for c in p.values(): num = math.gcd(num, (c * den).numerator)
        k = Fraction(num, den)
        if p[self.lead(p)] < 0: k = -k
        return k, frozenset((m, c / k) for m, c in p.items())
    def pdivexact(self, a, b):
        """exact polynomial division a/b or None (lex order on dense exponents)"""
        if len(b) == 1:
            (mb, cb), = b.items()
            r = {}
            for m, c in a.items():
                q = self.mdiv(m, mb)
                if q is None: return None
                r[q] = c / cb
            return r
        # pick a main ordering: degrevlex-ish via mkey is not multiplicative for tuples; use true lex on var indices
        vs = sorted(set(x for m in a for x, _ in m) | set(x for m in b for x, _ in m))
        pos = {v: i for i, v in enumerate(vs)}
        def dense(m):
            l = [0] * len(vs)
            for x, e in m: l[pos[x]] = e
            return tuple(l)
        A = {dense(m): c for m, c in a.items()}
        B = sorted(((dense(m), c) for m, c in b.items()), reverse=True)
        lb, cb = B[0]
        import heapq
        heap = [tuple(-x for x in m) for m in A]
        heapq.heapify(heap)
        q = {}
        steps = 0
        while heap:
            nm = heapq.heappop(heap)
            m = tuple(-x for x in nm)
            c = A.pop(m, 0)
            if not c: continue
            qm = tuple(x - y for x, y in zip(m, lb))
            if min(qm) < 0: return None
            qc = c / cb
            q[qm] = qc
            steps += 1
            if steps % 200 == 0: self.tick()
            for bm, bc in B[1:]:
                k = tuple(x + y for x, y in zip(qm, bm))
                if k in A: A[k] -= qc * bc
                else:
                    A[k] = -qc * bc
                    heapq.heappush(heap, tuple(-x for x in k))
        return {tuple((vs[i], e) for i, e in enumerate(m) if e): c for m, c in q.items() if c}
    def mdiv(self, a, b):
        d = dict(a)
        for x, e in b:
            v = d.get(x, 0) - e
            if v < 0: return None
            if v: d[x] = v
            else: del d[x]
        return tuple(sorted(d.items()))
    # ------------------------------------------------------------ rational functions
    def rconst(self, c):
        return RF({(): Fraction(c)} if c else {})
    def denpoly(self, d):
        r = {(): Fraction(1)}
        for k, e in d.items():
            r = self.pmul(r, self.ppow(dict(k), e))
        return r
    def radd(self, a, b):
        if not a.n: return b
        if not b.n: return a
        if a.d == b.d:
            n = self.padd(a.n, b.n)
            return self.simp(RF(n, a.d if n else {}))
        d = dict(a.d)
        for k, e in b.d.items(): d[k] = max(d.get(k, 0), e)
        ma = {k: e - a.d.get(k, 0) for k, e in d.items() if e > a.d.get(k, 0)}
        mb = {k: e - b.d.get(k, 0) for k, e in d.items() if e > b.d.get(k, 0)}
        n = self.padd(self.pmul(a.n, self.denpoly(ma)), self.pmul(b.n, self.denpoly(mb)))
        return self.simp(RF(n, d if n else {}))
    def simp(self, r):
        """cancel denominator factors that divide the numerator"""
        if not r.d or not r.n: return r if r.n else RF({})
        n, d = r.n, dict(r.d)
        ch = False
        for k in list(d):
            kd = dict(k)
            while d.get(k, 0) and len(n) >= 1:
                if any(a in self.rule for m in kd for a, _ in m) and len(kd) > 1: break
                q = self.pdivexact(n, kd) if (len(kd) == 1 or len(n) <= 4000) else None
                if q is None: break
                n = q; ch = True
                d[k] -= 1
                if not d[k]: del d[k]
        return RF(n, d) if ch else r
    def rmul(self, a, b):
        if not a.n or not b.n: return RF({})
        an, bn, ad, bd = a.n, b.n, dict(a.d), dict(b.d)
        # cancel whole-numerator factors
        for (xn, dd, which) in ((an, bd, 0), (bn, ad, 1)):
            if dd and xn:
                k, key = self.monic(xn)
                if key in dd:
                    dd[key] -= 1
                    if not dd[key]: del dd[key]
                    if which == 0: an = {(): k}
                    else: bn = {(): k}
        d = ad
        for k, e in bd.items(): d[k] = d.get(k, 0) + e
        return self.simp(RF(self.pmul(an, bn), d))
    def rinv(self, a):
        if not a.n: raise ZeroDivisionError
        n = self.denpoly(a.d)
        k, key = self.monic(a.n)
        d = {}
        pk = dict(key)
        # monomial content into atomic factors
        if pk == {(): Fraction(1)}: d = {}
        elif len(pk) == 1:
            (m, c), = pk.items()
            for x, e in m: d[frozenset([(((x, 1),), Fraction(1))])] = e
        else:
            common = None
            for m in pk:
                dm = dict(m)
                common = dm if common is None else {x: min(e, dm[x]) for x, e in common.items() if x in dm}
                if not common: break
            if common:
                cm = tuple(sorted(common.items()))
                pk = {self.mdiv(m, cm): c for m, c in pk.items()}
                for x, e in cm: d[frozenset([(((x, 1),), Fraction(1))])] = e
                key = frozenset(pk.items())
            d[key] = 1
        return self.simp(RF({m: c / k for m, c in n.items()}, d))
    def key(self, r):
        """canonical hashable (denominator factors need not be irreducible: keys are only a sound sufficient test)"""
        return (frozenset(r.n.items()), frozenset(r.d.items()))
    def psqrt(self, p):
        """polynomial q with q*q == p, or None"""
        if not p: return {}
        vs = sorted(set(x for m in p for x, _ in m))
        if len(vs) > 12 or len(p) > 2000: return None
        pos = {v: i for i, v in enumerate(vs)}
        def dense(m):
            l = [0] * len(vs)
            for x, e in m: l[pos[x]] = e
            return tuple(l)
        r = {dense(m): Fraction(c) for m, c in p.items()}
        lm = max(r)
        if any(e % 2 for e in lm) or r[lm] < 0: return None
        n, d = math.isqrt(r[lm].numerator), math.isqrt(r[lm].denominator)
        if n * n != r[lm].numerator or d * d != r[lm].denominator: return None
        lq, cq = tuple(e // 2 for e in lm), Fraction(n, d)
        q = {lq: cq}
        del r[lm]
        while r:
            if len(q) > 300: return None
            m = max(r)
            t = tuple(x - y for x, y in zip(m, lq))
            if min(t) < 0 or t >= lq: return None
            c = r[m] / (2 * cq)
            for k, x in list(q.items()) + [(t, c / 2)]:
                mm = tuple(a + b for a, b in zip(k, t))
                v = r.get(mm, 0) - 2 * c * x
                if v: r[mm] = v
                else: r.pop(mm, None)
            q[t] = c
        return {tuple((vs[i], e) for i, e in enumerate(m) if e): c for m, c in q.items()}
    def toterm(self, p):
        out = Fraction(0)
        for m, c in sorted(p.items()):
            x = c
            for a, e in m:
                for _ in range(e): x = mul(x, self.atoms[a])
            out = add(out, x)
        return out
    def positive(self, k):
        """a sum of even monomials with positive coefficients and a constant"""
        k = dict(k)
        return () in k and all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in k.items())
    def ratsimp(self, t):
        """the same value with common factors cancelled"""
        r = self.norm(t)
        n, d = self.toterm(self.finish(r) if not r.d else r.n), Fraction(1)
        for k, e in sorted(r.d.items(), key=lambda x: sorted(x[0])):
            for _ in range(e): d = mul(d, self.toterm(dict(k)))
        return div(n, d) if d != 1 else n
    def signterm(self, t):
        """a term without positive denominators that has the sign of t"""
        r = self.norm(t)
        n = self.toterm(self.finish(r) if not r.d else r.n)
        for k, e in r.d.items():
            if e % 2 and not self.positive(k): n = mul(n, self.toterm(dict(k)))
        return n
    def signsq(self, t):
        """(s, p) with t of the sign of s*p^2, s in {1,-1}, or None"""
        r = self.norm(t)
        if not r.n: return None
        n = r.n
        for k, e in r.d.items():
            if e % 2 and not self.positive(k): n = self.pmul(n, dict(k))
        for s in (1, -1):
            p = self.psqrt({m: s * c for m, c in n.items()})
            if p is not None: return s, self.toterm(p)
        return None
    def sqrtsimp(self, t):
        """(p, q) with t == (p/q)^2, or None"""
        r = self.norm(t)
        D = {}
        extra = {(): Fraction(1)}
        for k, e in r.d.items():
            D[k] = (e + 1) // 2
            if e % 2: extra = self.pmul(extra, dict(k))
        p = self.psqrt(self.pmul(r.n, extra))
        if p is None: return None
        d = Fraction(1)
        for k, e in sorted(D.items(), key=lambda x: sorted(x[0])):
            for _ in range(e): d = mul(d, self.toterm(dict(k)))
        return self.toterm(p), d
    # ------------------------------------------------------------ atoms
    def atom(self, key, term):
        i = self.aidx.get(key)
        if i is None:
            i = self.aidx[key] = len(self.atoms)
            self.atoms.append(term)
        return i
    def ratom(self, i): return RF({((i, 1),): Fraction(1)})
    def bkey(self, b):
        if isinstance(b, bool): return b
        if b.op in ('rlt', 'req'):
            d = self.radd(self.norm(b.args[0]), self.rmul(self.rconst(-1), self.norm(b.args[1])))
            if not d.d and d.n:
                k, key = self.monic(d.n)
                return (b.op, key, k > 0 if b.op == 'rlt' else None)
            return (b.op, self.key(d))
        if b.op in ('and', 'or', 'not'):
            ks = [self.bkey(x) for x in b.args]
            return (b.op, frozenset(ks))
        return b
    def norm(self, t):
        t = T.R(t)
        if isinstance(t, Fraction): return self.rconst(t)
        r = self.memo.get(t)
        if r is not None: return r
        # iterative post-order on add/mul/div to keep the stack shallow
        st = [t]
        while st:
            x = st[-1]
            if x in self.memo: st.pop(); continue
            if x.op in ('add', 'mul', 'div'):
                ks = [a for a in x.args if isinstance(a, Term) and a not in self.memo]
                if ks: st.extend(ks); continue
            self.memo[x] = self.norm1(x)
            st.pop()
        return self.memo[t]
    def get(self, a):
        return self.rconst(a) if isinstance(a, Fraction) else self.memo[a]
    def norm1(self, t):
        op = t.op
        self.tick()
        if op == 'add': return self.radd(self.get(t.args[0]), self.get(t.args[1]))
        if op == 'mul': return self.rmul(self.get(t.args[0]), self.get(t.args[1]))
        if op == 'div':
            d = self.get(t.args[1])
            if not d.n: return self.ratom(self.atom(t, t))
            return self.rmul(self.get(t.args[0]), self.rinv(d))
        if op == 'uf': return self.uf(t)
        if op == 'rite':
            ka, a, b = self.bkey(t.args[0]), self.norm(t.args[1]), self.norm(t.args[2])
            if self.key(a) == self.key(b): return a
            return self.ratom(self.atom(('ite', ka, self.key(a), self.key(b)), t))
        if op == 'psum': return self.psum(t)
        return self.ratom(self.atom(t, t))
    def uf(self, t):
        name = t.args[0]
        args = [self.norm(a) if sort_of(a) == 'R' else a for a in t.args[1:]]
        keyf = lambda: (name,) + tuple(self.key(a) if isinstance(a, RF) else a for a in args)
        if name == 'sqrt':
            a = args[0]
            if not a.n: return self.rconst(0)
            k, pk = self.monic(a.n)
            # sqrt(k * P/D) = sqrt(k) sqrt(P/D) for k > 0
            if k > 0:
                p = RF(dict(pk), a.d)
                c = self.sqrtconst(k)
            else:
                p = RF({m: -x for m, x in dict(pk).items()}, a.d); c = self.sqrtconst(-k)
            if p.n == {(): 1} and not p.d: return c
            i = self.atom(('sqrt', self.key(p)), t)
            if i not in self.rule and i not in self.rfrule:
                if not p.d: self.rule[i] = (2, p.n)
                else: self.rfrule[i] = p
            return self.rmul(c, self.ratom(i))
        if name in ('sin', 'cos'):
            a = args[0]
            if not a.n: return self.rconst(0 if name == 'sin' else 1)
            k, pk = self.monic(a.n)
            sgn = 1
            if k < 0:
                a = RF({m: -x for m, x in a.n.items()}, a.d); sgn = -1
            kk = self.key(a)
            ci = self.atom(('cos', kk), t)
            si = self.atom(('sin', kk), t)
            if si not in self.rule: self.rule[si] = (2, {(): Fraction(1), ((ci, 2),): Fraction(-1)})
            if name == 'cos': return self.ratom(ci)
            return self.rmul(self.rconst(sgn), self.ratom(si))
        if name == 'exp':
            a = args[0]
            if not a.n: return self.rconst(1)
            k, pk = self.monic(a.n)
            if k < 0:
                a = RF({m: -x for m, x in a.n.items()}, a.d)
                return self.rinv(self.ratom(self.atom(('exp', self.key(a)), t)))
            return self.ratom(self.atom(('exp', self.key(a)), t))
        return self.ratom(self.atom(keyf(), t))
    def sqrtconst(self, k):
        n, d = k.numerator, k.denominator
        m = n * d            # sqrt(n/d) = sqrt(nd)/d
        out, p, rest = 1, 2, m
        while p * p <= rest and p < 3000:
            while rest % (p * p) == 0:
                rest //= p * p; out *= p
            p += 1
        if rest == 1: return self.rconst(Fraction(out, d))
        s = math.isqrt(rest)
        if s * s == rest: return self.rconst(Fraction(out * s, d))
        i = self.atom(('sqrtc', rest), mk('uf', ('sqrt', Fraction(rest)), 'R'))
        self.rule[i] = (2, {(): Fraction(rest)})
        return self.rmul(self.rconst(Fraction(out, d)), self.ratom(i))
    def psum_height(self, t):
        if not isinstance(t, Term): return 0
        return max([1 + self.psum_height(x.args[1]) for x in subterms(t) if x.op == 'psum'] or [0])
    def psum(self, t):
        """psum(v, body, n) = sum of body over 0 <= v < n"""
        v, body, n = t.args
        h = self.psum_height(body)
        cv = ivar('#b%d' % h)
        if cv is not v:
            body = subst(body, {v: cv}) if isinstance(body, Term) else body
            v = cv
            t = mk('psum', (v, body, n), 'R')
        b = self.norm(body)
        dep = {}
        def depends(i):
            r = dep.get(i)
            if r is None:
                r = dep[i] = v in fv(self.atoms[i])
            return r
        dvar, dconst = {}, {}
        for k, e in b.d.items():
            if any(depends(a) for m, _ in k for a, _ in m): dvar[k] = e
            else: dconst[k] = e
        out = RF({})
        for m, c in b.n.items():
            mi = tuple(x for x in m if not depends(x[0]))
            mv = tuple(x for x in m if depends(x[0]))
            if not mv and not dvar:
                s = self.norm(i2r(n))
            else:
                if not dvar: mv = min(mv, self.reversed_sum(v, mv, n))
                key = ('psum', mv, frozenset(dvar.items()), n)
                i = self.atom(key, t)
                self.psum_info[i] = (v, mv, dvar, n)
                s = self.ratom(i)
            out = self.radd(out, self.rmul(RF({mi: c}), s))
        if dconst:
            out = self.rmul(out, RF({(): Fraction(1)}, dconst))
        return out
    def reversed_sum(self, v, mv, n):
        """the monomial with v replaced by n-1-v (itself when that is not one monomial): summing in either
        direction gives one canonical form"""
        k = (v, mv, n)
        r = self.revmemo.get(k)
        if r is None:
            t = Fraction(1)
            for a, e in mv:
                for _ in range(e): t = mul(t, self.atoms[a])
            q = self.norm(subst(t, {v: isub(isub(n, 1), v)}))
            r = mv
            if not q.d and len(q.n) == 1:
                (m, c), = q.n.items()
                if c == 1: r = m
            self.revmemo[k] = r
        return r
    # ------------------------------------------------------------ decisions
    def finish(self, r):
        n = self.reduce(r.n)
        # atoms with rational squares
        for _ in range(12):
            hit = None
            for m in n:
                for a, e in m:
                    if a in self.rfrule and e >= 2: hit = a; break
                if hit is not None: break
            if hit is None: return n
            rf = self.rfrule[hit]
            D = self.denpoly(rf.d)
            mx = max((e // 2 for m in n for a, e in m if a == hit), default=0)
            out = {}
            for m, c in n.items():
                self.tick()
                e = dict(m).get(hit, 0)
                rest = tuple(x for x in m if x[0] != hit)
                if e % 2: rest = self.mmul(rest, ((hit, 1),))
                q = self.pmul({rest: c}, self.pmul(self.ppow(rf.n, e // 2), self.ppow(D, mx - e // 2)))
                out = self.padd(out, q)
            n = self.reduce(out)
        return n
    def is_zero(self, t):
        r = self.norm(t)
        if not r.n: return True
        return not self.finish(r)
    def equal(self, a, b):
        if a is b: return True
        ra, rb = self.norm(a), self.norm(b)
        d = self.radd(ra, self.rmul(self.rconst(-1), rb))
        if not d.n: return True
        return not self.finish(d)
