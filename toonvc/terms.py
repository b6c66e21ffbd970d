"""Hash-consed terms: mathematical integers (canonical polynomials), reals
(expression DAG) and booleans.  Python int / Fraction / bool are the constants."""
from fractions import Fraction
import math

class Term:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '__weakref__')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id
    # operator sugar for specs -------------------------------------------
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __neg__(s): return neg(s)
    def __pow__(s, n):
        r = 1
        for _ in range(n): r = mul(r, s)
        return r

_tab = {}
_cnt = [0]
def mk(op, args, sort):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.args, t.sort = op, args, sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t._fv = None
        _tab[k] = t
    return t

def fresh_name(p, _c=[0]):
    _c[0] += 1
    return '%s!%d' % (p, _c[0])

def sort_of(x):
    if isinstance(x, Term): return x.sort
    if isinstance(x, bool): return 'B'
    if isinstance(x, int): return 'I'
    if isinstance(x, (Fraction, float)): return 'R'
    return None

def ivar(n): return mk('ivar', (n,), 'I')
def rvar(n): return mk('rvar', (n,), 'R')
def bvar(n): return mk('bvar', (n,), 'B')

# ------------------------------------------------------------ integers
def ip(x):
    """polynomial dict of an int term"""
    if isinstance(x, int): return {(): int(x)} if x else {}
    if x.op == 'ipoly': return dict(x.args)
    return {(x,): 1}

def ipoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d: return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return c
        if c == 1 and len(m) == 1: return m[0]
    return mk('ipoly', tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(a.id for a in mc[0])))), 'I')

def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    d = ip(a)
    for m, c in ip(b).items():
        d[m] = d.get(m, 0) + c
    return ipoly(d)

def iscale(a, k):
    if isinstance(a, int): return a * k
    if k == 1: return a
    return ipoly({m: c * k for m, c in ip(a).items()})

def isub(a, b): return iadd(a, iscale(b, -1))

def imul(a, b):
    if isinstance(a, int): return iscale(b, a)
    if isinstance(b, int): return iscale(a, b)
    d = {}
    for m, c in ip(a).items():
        for m2, c2 in ip(b).items():
            mm = tuple(sorted(m + m2, key=lambda t: t.id))
            d[mm] = d.get(mm, 0) + c * c2
    return ipoly(d)

def iatom(op, *args):
    return mk(op, tuple(args), 'I')

def isym(op, a, b):
    """opaque integer operation"""
    if isinstance(a, int) and isinstance(b, int):
        if op == 'sdiv': return int(a / b) if abs(a) < 2**50 else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
        if op == 'srem':
            q = (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
            return a - q * b
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return a << b
        if op == 'ashr': return a >> b
        if op == 'lshr': return a >> b
    if op == 'shl' and isinstance(b, int): return iscale(a, 1 << b)
    if op in ('sdiv', 'udiv', 'exactdiv') and isinstance(b, int) and not isinstance(a, int):
        if b == 1: return a
        d = ip(a)
        if all(c % b == 0 for c in d.values()): return ipoly({m: c // b for m, c in d.items()})
    if op in ('ashr', 'lshr') and isinstance(b, int):
        d = ip(a)
        if all(c % (1 << b) == 0 for c in d.values()): return ipoly({m: c // (1 << b) for m, c in d.items()})
    return iatom('i' + op, a, b)

def ile(a, b):
    """a <= b"""
    p = isub(a, b)
    if isinstance(p, int): return p <= 0
    d = ip(p)
    g = 0
    for m, c in d.items():
        if m != (): g = math.gcd(g, c)
    if g > 1:
        k = d.get((), 0)
        d = {m: c // g for m, c in d.items() if m != ()}
        kk = -((-k) // g)          # sum + k <= 0  <=>  sum/g <= floor(-k/g)
        if kk: d[()] = kk
        p = ipoly(d)
    if isinstance(p, Term) and p.op == 'b2i': return lnot(p.args[0])
    return mk('ile0', (p,), 'B')
def ilt(a, b): return ile(iadd(a, 1), b)
def ieq(a, b):
    p = isub(a, b)
    if isinstance(p, int): return p == 0
    d = ip(p)
    items = sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0])))
    if items[-1][1] < 0:
        p = iscale(p, -1); d = ip(p)
    g = 0
    for m, c in d.items():
        if m != (): g = math.gcd(g, c)
    k = d.get((), 0)
    if g > 1:
        if k % g: return False
        p = ipoly({m: c // g for m, c in d.items()})
        d = ip(p); k = d.get((), 0)
    if len(d) <= 2:                       # b2i(b) + k == 0
        ms = [m for m in d if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0].op == 'b2i' and abs(d[ms[0]]) == 1:
            v = -k * d[ms[0]]
            return ms[0][0].args[0] if v == 1 else lnot(ms[0][0].args[0]) if v == 0 else False
    return mk('ieq0', (p,), 'B')

def b2i(b):
    if isinstance(b, bool): return int(b)
    return mk('b2i', (b,), 'I')

# ------------------------------------------------------------ reals
def R(x):
    if isinstance(x, Term):
        return i2r(x) if x.sort == 'I' else x
    if isinstance(x, Fraction): return x
    if isinstance(x, bool): return Fraction(int(x))
    if isinstance(x, int): return Fraction(x)
    if isinstance(x, float): return rat(x)
    return x

_rat = {}
def rat(d):
    """Machine constants are read back as the rational they stand for: a
    fraction with a small denominator, or the shortest decimal."""
    r = _rat.get(d)
    if r is None:
        f = Fraction(d)
        g = f.limit_denominator(5000)
        if float(g) == d: r = g
        else: r = Fraction(repr(d))
        _rat[d] = r
    return r

INF = mk('inf', (), 'R')
NINF = mk('ninf', (), 'R')
NAN = mk('nan', (), 'R')
SPECIAL = (INF, NINF, NAN)

def i2r(x):
    if isinstance(x, int): return Fraction(x)
    if x.op == 'ipoly':
        s = Fraction(0)
        for m, c in x.args:
            t = Fraction(c)
            for a in m: t = mul(t, i2r(a))
            s = add(s, t)
        return s
    return mk('i2r', (x,), 'R')

def both_int(a, b):
    return sort_of(a) == 'I' and sort_of(b) == 'I'

def add(a, b):
    if both_int(a, b): return iadd(a, b)
    a, b = R(a), R(b)
    ca, cb = isinstance(a, Fraction), isinstance(b, Fraction)
    if ca and cb: return a + b
    if ca and a == 0: return b
    if cb and b == 0: return a
    if a in SPECIAL or b in SPECIAL: return special2('add', a, b)
    if (not ca) and (not cb):
        if neg(a) is b: return Fraction(0)
    if cb or (not ca and b.id < a.id): a, b = b, a
    return mk('add', (a, b), 'R')

def special2(op, a, b):
    if op == 'add':
        o = b if a in SPECIAL else a
        s = a if a in SPECIAL else b
        if o not in SPECIAL: return s
        if o is s: return s
        return NAN
    if op == 'mul':
        o = b if a in SPECIAL else a
        s = a if a in SPECIAL else b
        if isinstance(o, Fraction) and s is not NAN and o != 0:
            return s if o > 0 else (NINF if s is INF else INF)
        return NAN
    return NAN

def mul(a, b):
    if both_int(a, b): return imul(a, b)
    a, b = R(a), R(b)
    ca, cb = isinstance(a, Fraction), isinstance(b, Fraction)
    if ca and cb: return a * b
    if cb: a, b, ca, cb = b, a, cb, ca
    if a in SPECIAL or b in SPECIAL: return special2('mul', a, b)
    if ca:
        if a == 1: return b
        if a == 0: return Fraction(0)
        if b.op == 'mul' and isinstance(b.args[0], Fraction): return mul(a * b.args[0], b.args[1])
        if b.op == 'add' and isinstance(b.args[0], Fraction) and a == -1: pass
        return mk('mul', (a, b), 'R')
    if a.op == 'mul' and isinstance(a.args[0], Fraction): return mul(a.args[0], mul(a.args[1], b))
    if b.op == 'mul' and isinstance(b.args[0], Fraction): return mul(b.args[0], mul(a, b.args[1]))
    if b.id < a.id: a, b = b, a
    return mk('mul', (a, b), 'R')

def neg(a):
    if sort_of(a) == 'I': return iscale(a, -1)
    return mul(Fraction(-1), a)
def sub(a, b):
    if both_int(a, b): return isub(a, b)
    return add(a, neg(R(b)))

def div(a, b):
    a, b = R(a), R(b)
    if isinstance(b, Fraction):
        if b == 0: return NAN if (isinstance(a, Fraction) and a == 0) else mk('div', (a, b), 'R')
        return mul(1 / b, a)
    if a in SPECIAL or b in SPECIAL:
        return NAN
    if isinstance(a, Fraction) and a == 0: return Fraction(0)
    if isinstance(a, Term) and a.op == 'mul' and isinstance(a.args[0], Fraction):
        return mul(a.args[0], div(a.args[1], b))
    return mk('div', (a, b), 'R')

def uf(name, *args):
    return mk('uf', (name,) + tuple(R(a) if sort_of(a) == 'R' or isinstance(a, float) else a for a in args), 'R')

def sqrt(x):
    x = R(x)
    if isinstance(x, Fraction):
        if x >= 0:
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
    return uf('sqrt', x)
def sin(x):
    x = R(x)
    if isinstance(x, Fraction) and x == 0: return Fraction(0)
    return uf('sin', x)
def cos(x):
    x = R(x)
    if isinstance(x, Fraction) and x == 0: return Fraction(1)
    return uf('cos', x)
def trigmul(k, u):
    """(cos, sin) of k atan(u), k even, as rational functions of u"""
    d = add(Fraction(1), mul(u, u))
    c1, s1 = div(sub(Fraction(1), mul(u, u)), d), div(mul(Fraction(2), u), d)
    c, s = Fraction(1), Fraction(0)
    for _ in range(abs(k) // 2): c, s = sub(mul(c, c1), mul(s, s1)), add(mul(c, s1), mul(s, c1))
    return c, (s if k >= 0 else neg(s))
def exp(x):
    x = R(x)
    if isinstance(x, Fraction) and x == 0: return Fraction(1)
    return uf('exp', x)
def log(x):
    x = R(x)
    if isinstance(x, Fraction) and x == 1: return Fraction(0)
    return uf('log', x)

def _cmpspecial(op, a, b):
    if a is NAN or b is NAN: return False
    if op == 'eq': return a is b
    rank = lambda x: 1 if x is INF else -1 if x is NINF else 0
    ra, rb = rank(a), rank(b)
    if op == 'lt': return ra < rb
    if op == 'le': return ra <= rb

def rlt(a, b):
    if both_int(a, b): return ilt(a, b)
    a, b = R(a), R(b)
    if a in SPECIAL or b in SPECIAL: return _cmpspecial('lt', a, b)
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a < b
    if a is b: return False
    return mk('rlt', (a, b), 'B')
def rle(a, b):
    if both_int(a, b): return ile(a, b)
    a, b = R(a), R(b)
    if a in SPECIAL or b in SPECIAL: return _cmpspecial('le', a, b)
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a <= b
    if a is b: return True
    return lnot(mk('rlt', (b, a), 'B'))
def req(a, b):
    if both_int(a, b): return ieq(a, b)
    a, b = R(a), R(b)
    if a in SPECIAL or b in SPECIAL: return _cmpspecial('eq', a, b)
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a == b
    if a is b: return True
    if isinstance(b, Fraction) or (isinstance(a, Term) and b.id < a.id): a, b = b, a
    return mk('req', (a, b), 'B')

def rabs(x): return ite(rlt(x, 0), neg(x), x)

# ------------------------------------------------------------ booleans
def lnot(b):
    if isinstance(b, bool): return not b
    if b.op == 'not': return b.args[0]
    if b.op == 'ile0': return ile(1, b.args[0])
    if b.op == 'and': return lor(*[lnot(x) for x in b.args])
    if b.op == 'or': return land(*[lnot(x) for x in b.args])
    return mk('not', (b,), 'B')
def land(*bs):
    s = []
    for b in bs:
        if b is True: continue
        if b is False: return False
        if b.op == 'and': s.extend(b.args)
        else: s.append(b)
    u = []
    for b in s:
        if b not in u: u.append(b)
    for b in u:
        if lnot(b) in u: return False
    if not u: return True
    if len(u) == 1: return u[0]
    return mk('and', tuple(sorted(u)), 'B')
def lor(*bs):
    s = []
    for b in bs:
        if b is False: continue
        if b is True: return True
        if b.op == 'or': s.extend(b.args)
        else: s.append(b)
    u = []
    for b in s:
        if b not in u: u.append(b)
    for b in u:
        if b.op != 'and' and lnot(b) in u: return True
    if not u: return False
    if len(u) == 1: return u[0]
    return mk('or', tuple(sorted(u)), 'B')
def imp(a, b): return lor(lnot(a), b)
def iff(a, b):
    if isinstance(a, bool): return b if a else lnot(b)
    if isinstance(b, bool): return a if b else lnot(a)
    return lor(land(a, b), land(lnot(a), lnot(b)))
def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    s = sort_of(a); s2 = sort_of(b)
    if s == 'B' and s2 == 'B': return lor(land(c, a), land(lnot(c), b))
    if s == 'I' and s2 == 'I':
        if a is b or (isinstance(a, int) and isinstance(b, int) and a == b): return a
        return mk('iite', (c, a, b), 'I')
    a, b = R(a), R(b)
    if a is b or (isinstance(a, Fraction) and isinstance(b, Fraction) and a == b): return a
    if c.op == 'not': c, a, b = c.args[0], b, a
    return mk('rite', (c, a, b), 'R')

# ------------------------------------------------------------ traversal
def kids(t):
    if t.op == 'ipoly':
        return [a for m, c in t.args for a in m]
    return [a for a in t.args if isinstance(a, Term)]

def fv(t):
    """free variables (ivar/rvar/bvar terms)"""
    if not isinstance(t, Term): return frozenset()
    if t._fv is None:
        st = [t]
        while st:
            x = st[-1]
            if x._fv is not None:
                st.pop(); continue
            if x.op in ('ivar', 'rvar', 'bvar'):
                x._fv = frozenset((x,)); st.pop(); continue
            ks = [k for k in kids(x) if k._fv is None]
            if ks: st.extend(ks); continue
            r = frozenset()
            for k in kids(x): r |= k._fv
            if x.op == 'lam': r -= frozenset((x.args[0],))
            x._fv = r
            st.pop()
    return t._fv

def rebuild(t, args):
    if t.op == 'psum' and isinstance(args[2], int):
        v, body, n = args
        r = Fraction(0)
        if n <= 8:
            for k in range(n): r = add(r, R(subst(body, {v: k}) if isinstance(body, Term) else body))
            return r
    op = t.op
    if op == 'add': return add(*args)
    if op == 'mul': return mul(*args)
    if op == 'div': return div(*args)
    if op == 'uf':
        n = args[0]
        if n == 'sqrt': return sqrt(args[1])
        if n == 'sin': return sin(args[1])
        if n == 'cos': return cos(args[1])
        if n == 'exp': return exp(args[1])
        if n == 'log': return log(args[1])
        return mk('uf', tuple(args), 'R')
    if op == 'rlt': return rlt(*args)
    if op == 'req': return req(*args)
    if op == 'ile0': return ile(args[0], 0)
    if op == 'ieq0': return ieq(args[0], 0)
    if op == 'not': return lnot(args[0])
    if op == 'and': return land(*args)
    if op == 'or': return lor(*args)
    if op in ('rite', 'iite'): return ite(*args)
    if op == 'i2r': return i2r(args[0])
    if op == 'b2i': return b2i(args[0])
    if op in ('isdiv', 'isrem', 'iudiv', 'iurem', 'iand', 'ior', 'ixor', 'ishl', 'iashr', 'ilshr'): return isym(op[1:], *args)
    return mk(op, tuple(args), t.sort)

def subst(t, m, memo=None):
    """m: dict Term->Term/const; replaces whole subterms"""
    if not isinstance(t, Term) or not m: return t
    if memo is None: memo = {}
    keys = set(m)
    keyvars = set(k for k in keys if k.op in ('ivar', 'rvar', 'bvar'))
    onlyvars = len(keyvars) == len(keys)
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x in m:
            r = m[x]
        elif onlyvars and not (fv(x) & keyvars):
            r = x
        elif x.op == 'ipoly':
            s = 0
            for mono, c in x.args:
                p = c
                for a in mono: p = imul(p, go(a))
                s = iadd(s, p)
            r = s
        elif not x.args or not any(isinstance(a, Term) for a in x.args):
            r = x
        else:
            r = rebuild(x, tuple(go(a) if isinstance(a, Term) else a for a in x.args))
        memo[x] = r
        return r
    import sys
    return go(t)

def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x in seen: continue
        seen.add(x)
        st.extend(kids(x))
    return seen

def show(t, depth=12):
    if not isinstance(t, Term): return str(t)
    if depth == 0: return '...'
    op = t.op
    s = lambda x: show(x, depth - 1)
    if op in ('ivar', 'rvar', 'bvar'): return t.args[0]
    if op == 'ipoly':
        return '(' + ' + '.join('*'.join(([str(c)] if c != 1 or not m else []) + [s(a) for a in m]) for m, c in t.args) + ')'
    if op in ('add',): return '(%s + %s)' % (s(t.args[0]), s(t.args[1]))
    if op == 'mul':
        if t.args[0] == -1: return '-%s' % s(t.args[1])
        return '%s*%s' % (s(t.args[0]), s(t.args[1]))
    if op == 'div': return '(%s/%s)' % (s(t.args[0]), s(t.args[1]))
    if op == 'uf': return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:]))
    if op in ('sel', 'isel'): return '%s[%s]' % (t.args[0], s(t.args[1]))
    if op == 'ile0': return '%s <= 0' % s(t.args[0])
    if op == 'ieq0': return '%s == 0' % s(t.args[0])
    if op == 'rlt': return '(%s < %s)' % (s(t.args[0]), s(t.args[1]))
    if op == 'req': return '(%s == %s)' % (s(t.args[0]), s(t.args[1]))
    if op == 'not': return '!%s' % s(t.args[0])
    if op in ('and', 'or'): return '(' + (' && ' if op == 'and' else ' || ').join(s(a) for a in t.args) + ')'
    if op in ('rite', 'iite'): return 'ite(%s, %s, %s)' % tuple(s(a) for a in t.args)
    return '%s(%s)' % (op, ', '.join(s(a) for a in t.args))
