import math
"""Symbolic executor for LLVM IR.  One call of run() executes a harness entry
point on symbolic inputs and returns every terminal state (returned / aborted)
with its path condition; memory-safety obligations are collected on the way."""
import sys, re, subprocess, time
from fractions import Fraction
from .terms import *
from . import terms as T
from . import smt
from .ir import *

class Unsupported(Exception):
    pass
class Timeout(Exception):
    pass

class _Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = _Undef()

class Ptr:
    __slots__ = ('r', 'o')
    def __init__(self, r, o=0): self.r, self.o = r, o
    def __repr__(self): return 'Ptr(%s,%s)' % (self.r, self.o)
    def __eq__(self, x): return isinstance(x, Ptr) and self.r == x.r and self.o == x.o
    def __hash__(self): return hash((self.r, self.o))
NULL = Ptr(None, 0)
class FnPtr:
    def __init__(self, n): self.n = n
    def __repr__(self): return 'Fn(%s)' % self.n
class Opaque:
    """address-like value with no structure (foreign object)"""
    def __init__(self, n): self.n = n
    def __repr__(self): return 'Opaque(%s)' % self.n

# array contents ----------------------------------------------------
class ABase:
    __slots__ = ('name', 'sort')
    def __init__(self, name, sort='R'): self.name, self.sort = name, sort
class AStore:
    __slots__ = ('prev', 'idx', 'val')
    def __init__(self, prev, idx, val): self.prev, self.idx, self.val = prev, idx, val
class AUninit:
    __slots__ = ()

class Region:
    __slots__ = ('rid', 'name', 'size', 'kind', 'alive', 'cells', 'arr', 'es', 'ro', 'zeros', 'own')
    def __init__(self, rid, name, size, kind):
        self.rid, self.name, self.size, self.kind = rid, name, size, kind
        self.alive, self.cells, self.arr, self.es, self.ro, self.zeros = True, {}, None, None, False, ()
        self.own = None
    def copy(self):
        r = Region(self.rid, self.name, self.size, self.kind)
        r.alive, r.cells, r.arr, r.es, r.ro, r.zeros = self.alive, dict(self.cells), self.arr, self.es, self.ro, self.zeros
        return r

class State:
    __slots__ = ('mem', 'pc', 'events', 'own', 'quant', 'divs')
    def __init__(self):
        self.mem, self.pc, self.events, self.own, self.quant, self.divs = {}, (), (), set(), (), ()
    def fork(self):
        s = State()
        s.mem, s.pc, s.events, s.quant, s.divs = dict(self.mem), self.pc, self.events, self.quant, self.divs
        self.own = set(); s.own = set()
        return s
    def assume(self, c):
        if c is True: return
        if isinstance(c, Term) and c.op == 'and':
            for x in c.args: self.assume(x)
            return
        if c not in self.pc: self.pc = self.pc + (c,)
    def reg(self, rid): return self.mem[rid]
    def wreg(self, rid):
        r = self.mem[rid]
        if rid not in self.own:
            r = r.copy(); self.mem[rid] = r; self.own.add(rid)
        return r

class Frame:
    __slots__ = ('fn', 'regs', 'block', 'prev', 'idx', 'allocas', 'depth')
    def __init__(self, fn, depth):
        self.fn, self.regs, self.block, self.prev, self.idx, self.allocas, self.depth = fn, {}, None, None, 0, [], depth
    def copy(self):
        f = Frame(self.fn, self.depth)
        f.regs, f.block, f.prev, f.idx, f.allocas = dict(self.regs), self.block, self.prev, self.idx, list(self.allocas)
        return f

class Obl:
    """a safety obligation raised during execution"""
    __slots__ = ('kind', 'what', 'ok', 'pc', 'where')
    def __init__(self, kind, what, ok, pc, where):
        self.kind, self.what, self.ok, self.pc, self.where = kind, what, ok, pc, where

_dem = {}
def demangle(names):
    need = [n for n in names if n not in _dem]
    if need:
        out = subprocess.run(['c++filt'], input='\n'.join(need), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(need, out): _dem[n] = d
    return [_dem[n] for n in names]
def dem(n): return demangle([n])[0]

LIBM1 = {'exp2', 'sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'log2', 'log10', 'sinh', 'cosh', 'tanh', 'cbrt', 'log1p', 'expm1'}
LIBM2 = {'ldexp', 'atan2', 'pow', 'hypot', 'fmod', 'copysign'}

# inline stream functions of libstdc++: treated as output/input events
STREAMFN = re.compile(r'_ZSt(ls|rs)I|_ZSt4endl|_ZSt5flush|_ZNSo|_ZNSi|_ZNK?St9basic_ios|_ZNK?St8ios_base|_ZNK?St13basic_ostream|_ZNK?St13basic_istream')

class Executor:
    def __init__(self, mod, externs=None, deadline=None, f32='round', opts=None):
        self.mod = mod
        self.externs = externs or {}
        self.nreg = 0
        self.names = {}
        self.obls = []                 # safety obligations
        self.nobl = 0
        self.deadline = deadline
        self.f32 = f32
        self.terminals = []            # (kind, state, info)
        self.globals = {}
        self.steps = 0
        self.called = set()            # functions executed
        self.opts = opts or {}
        self.loophook = None
        self.maxsteps = self.opts.get('maxsteps', 40_000_000)
        self.maxpaths = self.opts.get('maxpaths', 4000)
        self.fnstack = []
        self.btimeout = self.opts.get('branch_timeout', 800)
        self.writelog = None
        self.stopped = []
        self.brlog = None
        self.lenient = False      # discovery passes: bounds are checked by the pass that counts
        self.loopstats = {}
    # ------------------------------------------------ memory
    def new_region(self, st, name, size, kind):
        self.nreg += 1
        r = Region(self.nreg, name, size, kind)
        st.mem[r.rid] = r
        st.own.add(r.rid)
        return r
    def where(self):
        return dem(self.fnstack[-1])[:160] if self.fnstack else ''
    def oblige(self, st, kind, what, cond):
        """raise an obligation; returns False when it fails on this path"""
        self.nobl += 1
        if cond is True: return True
        ok = smt.prove(st.pc, cond, self.opts.get('obl_timeout', 4000)) if cond is not False else (smt.check_sat(st.pc, 4000)[0] == 'unsat')
        if not ok:
            self.obls.append(Obl(kind, what, False, st.pc, self.where()))
        return ok
    def check_access(self, st, p, n, what):
        if isinstance(p, Opaque): raise Unsupported('access through opaque %s' % p)
        if not isinstance(p, Ptr): raise Unsupported('%s through %r' % (what, p))
        if p.r is None:
            self.oblige(st, 'memory', what + ' through null pointer', False)
            return None
        r = st.mem.get(p.r)
        if r is None: raise Unsupported('no region')
        if not r.alive:
            self.oblige(st, 'memory', '%s of %s after its lifetime ended' % (what, r.name), False)
            return None
        if r.ro and what == 'store':
            self.oblige(st, 'memory', 'store into read-only %s' % r.name, False)
            return None
        o = p.o
        if r.size is not None:
            if isinstance(o, int) and isinstance(r.size, int):
                self.nobl += 1
                if not (0 <= o and o + n <= r.size):
                    self.oblige(st, 'memory', '%s out of bounds of %s: offset %s size %s of %s bytes' % (what, r.name, o, n, r.size), False)
                    return None
            else:
                c = land(ile(0, o), ile(iadd(o, n), r.size))
                if self.lenient and what == 'load': return r
                if not self.oblige(st, 'memory', '%s out of bounds of %s: offset %s (+%d) of %s bytes' % (what, r.name, show(o), n, show(r.size)), c):
                    return None
        return r
    def const_of(self, ty, zero=True):
        if ty.k == 'int': return False if ty.n == 1 else 0
        if ty.k in ('double', 'float', 'x86_fp80'): return Fraction(0)
        if ty.k == 'ptr': return NULL
        if ty.k in ('arr', 'vec'): return tuple(self.const_of(ty.el) for _ in range(ty.n))
        if ty.k == 'struct': return tuple(self.const_of(e) for e in ty.els)
        raise Unsupported('zero of %r' % ty)
    def coerce_loaded(self, v, ty):
        if v is UNDEF: return v
        k = ty.k
        if k == 'int':
            if ty.n == 1: return v
            if isinstance(v, bool): return int(v)
            if isinstance(v, Term) and v.sort == 'B': return b2i(v)
            return v
        if k in ('double', 'float', 'x86_fp80'):
            if isinstance(v, int): 
                if v == 0: return Fraction(0)
                raise Unsupported('int bits as fp')
            if isinstance(v, Term) and v.sort == 'I': raise Unsupported('int bits as fp')
            return v
        return v
    def load(self, st, p, ty, what='load'):
        if ty.k in ('arr', 'vec', 'struct'):
            es = self.mod.size(ty.el) if ty.k != 'struct' else None
            if ty.k == 'struct':
                offs = self.mod.offs(ty)
                return tuple(self.load(st, Ptr(p.r, iadd(p.o, o)), e) for o, e in zip(offs, ty.els))
            return tuple(self.load(st, Ptr(p.r, iadd(p.o, i * es)), ty.el) for i in range(ty.n))
        n = self.mod.size(ty)
        r = self.check_access(st, p, n, what)
        if r is None: return UNDEF
        return self.coerce_loaded(self.raw_load(st, r, p.o, n, ty), ty)
    def raw_load(self, st, r, o, n, ty):
        if r.arr is not None:
            return self.arr_load(st, r, o, n, ty)
        if isinstance(o, int):
            c = r.cells.get(o)
            if c is not None:
                if c[0] == n: return c[1]
                if c[0] > n and isinstance(c[1], int): 
                    return c[1] & ((1 << (8 * n)) - 1)
                if c[0] > n and isinstance(c[1], tuple): return c[1][0]
                if c[0] > n and c[1] is UNDEF: return UNDEF
            if n > 1 and ty.k in ('int', 'ptr') and any(o <= k < o + n for k in r.cells) and (c is None or c[0] < n):
                # wider load over smaller cells (struct copied as an integer); padding and unwritten bytes are undefined parts
                parts, oo = [], o
                while oo < o + n:
                    cc = r.cells.get(oo)
                    if cc is None or oo + cc[0] > o + n:
                        cc = (1, 0 if any(a <= oo < b for a, b in r.zeros) else UNDEF)
                    parts.append(cc); oo += cc[0]
                m = []
                for sz, x in parts:
                    if m and x is UNDEF and m[-1][1] is UNDEF: m[-1] = (m[-1][0] + sz, UNDEF)
                    else: m.append((sz, x))
                parts = m
                if all(isinstance(x[1], int) and not isinstance(x[1], bool) for x in parts):
                    v, sh = 0, 0
                    for sz, x in parts:
                        v |= (x & ((1 << (8 * sz)) - 1)) << sh; sh += 8 * sz
                    if v >= 1 << (8 * n - 1): v -= 1 << (8 * n)
                    return v
                return ('parts', tuple(parts))
            for (a, b) in r.zeros:
                if a <= o and o + n <= b: return self.const_of(ty)
            # inside a wider cell?
            for back in (4, 8, 12, 1, 2, 3, 5, 6, 7):
                c = r.cells.get(o - back)
                if c is not None and c[0] >= back + n:
                    if isinstance(c[1], int):
                        v = (c[1] >> (8 * back)) & ((1 << (8 * n)) - 1)
                        if ty.k == 'int' and v >= 1 << (8 * n - 1) and ty.n > 1: v -= 1 << (8 * n)
                        return v
                    if isinstance(c[1], tuple) and c[1] and c[1][0] == 'parts':
                        q = 0
                        for sz, x in c[1][1]:
                            if q == back: return x
                            q += sz
                    break
            return UNDEF
        # symbolic offset into a small region: case split over the cells
        ks = sorted(k for k, c in r.cells.items() if c[0] == n)
        res = None
        for k in reversed(ks):
            cond = ieq(o, k)
            if cond is False or not smt.feasible(st.pc, cond): continue
            v = r.cells[k][1]
            if v is UNDEF:
                if smt.feasible(st.pc, cond): return UNDEF
                continue
            if not (isinstance(v, (int, Fraction, Term))): raise Unsupported('symbolic load of pointers')
            res = v if res is None else ite(cond, v, res)
        if res is None:
            for (a, b) in r.zeros: return self.const_of(ty)
            return UNDEF
        return res
    def store(self, st, p, ty, v):
        if ty.k in ('arr', 'vec', 'struct'):
            if v is UNDEF: v = tuple(UNDEF for _ in range(ty.n if ty.k != 'struct' else len(ty.els)))
            if ty.k == 'struct':
                for o, e, x in zip(self.mod.offs(ty), ty.els, v): self.store(st, Ptr(p.r, iadd(p.o, o)), e, x)
            else:
                es = self.mod.size(ty.el)
                for i, x in enumerate(v): self.store(st, Ptr(p.r, iadd(p.o, i * es)), ty.el, x)
            return
        n = self.mod.size(ty)
        if isinstance(v, tuple) and v and v[0] == 'parts':
            oo = p.o
            for sz, x in v[1]:
                r = self.check_access(st, Ptr(p.r, oo), sz, 'store')
                if r is None: return
                self.raw_store(st, st.wreg(p.r), oo, sz, x); oo += sz
            return
        r = self.check_access(st, p, n, 'store')
        if r is None: return
        self.raw_store(st, st.wreg(p.r), p.o, n, v)
    def raw_store(self, st, r, o, n, v):
        if r.arr is not None:
            return self.arr_store(st, r, o, n, v)
        if isinstance(o, int):
            c = r.cells
            x = c.get(o)
            if x is None or x[0] != n:
                for k in [k for k in c if k < o + n and k + c[k][0] > o]:
                    del c[k]
            c[o] = (n, v)
            return
        hit = False
        for k, (sz, old) in list(r.cells.items()):
            if sz != n: continue
            cond = ieq(o, k)
            if cond is False or not smt.feasible(st.pc, cond): continue
            hit = True
            if old is UNDEF or isinstance(old, (Ptr,)):
                if smt.prove(st.pc, cond): r.cells[k] = (n, v)
                else: r.cells[k] = (n, UNDEF)
            else: r.cells[k] = (n, ite(cond, v, old))
        if not hit:
            if isinstance(r.size, int) and r.kind in ('alloca', 'heap') and r.size // n <= 64:
                # uninitialised small region written at a symbolic index
                for k in range(0, r.size, n):
                    if k not in r.cells:
                        cond = ieq(o, k)
                        r.cells[k] = (n, v if cond is True else UNDEF)
                return
            raise Unsupported('symbolic store into %s' % r.name)
    # array regions
    def elem_index(self, st, r, o, n):
        if r.es is None: r.es = n
        if n != r.es: raise Unsupported('mixed element sizes in array %s (%d, %d)' % (r.name, n, r.es))
        d = ip(o)
        if any(c % n for c in d.values()): raise Unsupported('misaligned access %s' % show(o))
        return ipoly({m: c // n for m, c in d.items()})
    def arr_load(self, st, r, o, n, ty):
        i = self.elem_index(st, r, o, n)
        return self.sel(st, r.arr, i)
    def sel(self, st, node, i):
        while True:
            if isinstance(node, ABase):
                return mk('sel' if node.sort == 'R' else 'isel', (node.name, i), node.sort)
            if isinstance(node, AUninit): return UNDEF
            if isinstance(node, AStore):
                c = ieq(node.idx, i)
                if c is True: return node.val
                if c is False: node = node.prev; continue
                if not smt.feasible(st.pc, c, self.btimeout): node = node.prev; continue
                if smt.prove(st.pc, c, self.btimeout): return node.val
                sm = st.fork(); sm.assume(lnot(c))
                a, b = node.val, self.sel(sm, node.prev, i)
                if a is UNDEF or b is UNDEF: return UNDEF
                return ite(c, a, b)
            return node.select(self, st, i)
    def arr_store(self, st, r, o, n, v):
        i = self.elem_index(st, r, o, n)
        if isinstance(v, (Ptr, tuple)): raise Unsupported('pointer stored into array')
        if isinstance(r.arr, AStore) and r.arr.idx is i or (isinstance(r.arr, AStore) and ieq(r.arr.idx, i) is True):
            r.arr = AStore(r.arr.prev, i, v)
        else:
            r.arr = AStore(r.arr, i, v)
        if self.writelog is not None: self.writelog.append((r.rid, i, v))
    # ------------------------------------------------ globals
    def global_ptr(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls: return FnPtr(name)
        g = self.globals.get(name)
        if g is not None:
            if isinstance(g, Opaque): return g
            if g.r not in st.mem: st.mem[g.r] = self.gregs[g.r]
            return g
        if not hasattr(self, 'gregs'): self.gregs = {}
        if name not in self.mod.globals: raise Unsupported('global ' + name)
        ty, init, const = self.mod.global_init(name)
        if init is None or init[0] == 'alias' or name.startswith('_ZTV') or name.startswith('_ZTI'):
            self.globals[name] = Opaque(name); return self.globals[name]
        r = self.new_region(st, '@' + name, self.mod.size(ty), 'global')
        self.globals[name] = Ptr(r.rid, 0)
        self.init_const(st, Ptr(r.rid, 0), ty, init)
        if const: r.ro = True
        self.gregs[r.rid] = r.copy() if not const else r
        return self.globals[name]
    def init_const(self, st, p, ty, init):
        k = init[0]
        if k == 'z':
            r = st.wreg(p.r); r.zeros = r.zeros + ((p.o, p.o + self.mod.size(ty)),)
            return
        if k == 'bytes':
            r = st.wreg(p.r)
            for i, ch in enumerate(init[1]): r.cells[p.o + i] = (1, ord(ch))
            return
        if k == 'agg':
            if ty.k == 'struct':
                for o, (t, e) in zip(self.mod.offs(ty), init[1]): self.init_const(st, Ptr(p.r, p.o + o), t, e)
            else:
                es = self.mod.size(ty.el)
                for i, (t, e) in enumerate(init[1]): self.init_const(st, Ptr(p.r, p.o + i * es), t, e)
            return
        if k == 'u': return
        v = self.const(st, init, ty)
        r = st.wreg(p.r)
        r.cells[p.o] = (self.mod.size(ty), v)
    def const(self, st, o, ty):
        k = o[0]
        if k == 'c':
            if ty.n == 1: return bool(o[1])
            return o[1]
        if k == 'f':
            d = o[1]
            if isinstance(d, tuple):
                if d[0] == 'inf': return NINF if d[1] else INF
                return NAN
            if isinstance(d, Fraction):
                try: return rat(float(d)) if Fraction(float(d)) == d else d
                except OverflowError: return d
            return rat(d)
        if k == 'null': return NULL
        if k == 'u':
            if ty.k in ('arr', 'vec'): return tuple(self.const(st, o, ty.el) for _ in range(ty.n))
            if ty.k == 'struct': return tuple(self.const(st, o, e) for e in ty.els)
            return UNDEF
        if k == 'z': return self.const_of(ty)
        if k == 'g': return self.global_ptr(st, o[1])
        if k == 'agg': return tuple(self.const(st, e, t) for t, e in o[1])
        if k == 'gep':
            ops = o[2]
            return self.gep(st, o[1], [(t, self.const(st, e, t)) for t, e in ops])
        if k == 'cast': return self.const(st, o[3], o[2])
        raise Unsupported('const %r' % (o,))
    def val(self, st, fr, o, ty):
        if o[0] == 'r': 
            return fr.regs[o[1]]
        return self.const(st, o, ty)
    def gep(self, st, ty, ops):
        p = ops[0][1]
        if isinstance(p, Opaque): return Opaque(p.n + '+')
        if p is UNDEF: return UNDEF
        if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
        off = p.o
        i0 = ops[1][1]
        if i0 is UNDEF: return UNDEF
        off = iadd(off, iscale(i0, self.mod.size(ty))) if not (isinstance(i0, int) and i0 == 0) else off
        t = ty
        for tt, i in ops[2:]:
            if t.k == 'struct':
                off = iadd(off, self.mod.offs(t)[i]); t = t.els[i]
            else:
                t = t.el
                if i is UNDEF: return UNDEF
                off = iadd(off, iscale(i, self.mod.size(t)))
        return Ptr(p.r, off)
    # ------------------------------------------------ running
    def call(self, st, name, args):
        """execute a defined function; -> [(state, retval)]"""
        fn = self.mod.funcs[name]
        fr = Frame(fn, len(self.fnstack))
        if len(self.fnstack) > 200: raise Unsupported('call depth')
        for (t, n), v in zip(fn.params, args): fr.regs[n] = v
        blocks = fn.blocks
        fr.block = fn.order[0]
        self.called.add(name)
        self.fnstack.append(name)
        try:
            outs = self.run_frames([(st, fr)])
        finally:
            self.fnstack.pop()
        res = []
        for kind, s, f, v in outs:
            for rid in f.allocas:
                s.wreg(rid).alive = False
            res.append((s, v))
        return res
    def run_frames(self, work, stop=None):
        """work: [(state, frame)].  Runs until return, or until stop(frame) when a
        branch is taken.  -> [(kind, state, frame, value)]"""
        outs = []
        saved = self.stopped
        self.stopped = []
        try:
            while work:
                st, fr = work.pop()
                r = self.step_frame(st, fr, work, stop)
                if r is not None: outs.append(r)
                if len(work) + len(outs) > self.maxpaths: raise Unsupported('too many paths')
            outs += [('stop', s, f, None) for s, f in self.stopped]
        finally:
            self.stopped = saved
        return outs
    def decide(self, st, c):
        """-> True / False / None"""
        if isinstance(c, bool): return c
        if c is UNDEF: return None
        if c in st.pc: return True
        if lnot(c) in st.pc: return False
        # nonlinear comparisons of reals: take both branches without asking the solver
        if self.opts.get('lazyreal') and isinstance(c, Term) and (c.op in ('rlt', 'req') or c.op == 'not' and c.args[0].op in ('rlt', 'req')) and any(x.op in ('div', 'mul') for x in subterms(c)): return None
        ft = smt.feasible(st.pc, c, self.btimeout)
        if not ft: return False
        ff = smt.feasible(st.pc, lnot(c), self.btimeout)
        if not ff: return True
        return None
    def step_frame(self, st, fr, work, stop):
        fn, blocks = fr.fn, fr.fn.blocks
        loops = fn.loops if (self.loophook) else None
        inv = fn.loops if self.opts.get('inv') else None
        while True:
            # entering block fr.block at index fr.idx
            ins = blocks[fr.block]
            if fr.idx == 0:
                if inv and fr.block in inv and fr.prev not in inv[fr.block]:
                    from . import invs
                    if invs.hook(self, st, fr, fr.block, inv[fr.block], work, stop) is not None: return None
                if loops and fr.block in loops and fr.prev not in loops[fr.block]:
                    r = self.loophook(self, st, fr, fr.block, loops[fr.block], work, stop)
                    if r is not None:
                        if r == 'done': return None
                # phis
                vals = []
                while fr.idx < len(ins) and ins[fr.idx].op == 'phi':
                    i = ins[fr.idx]
                    for v, l in i.a:
                        if l == fr.prev:
                            vals.append((i.res, self.val(st, fr, v, i.ty))); break
                    else: raise Unsupported('phi')
                    fr.idx += 1
                for n, v in vals: fr.regs[n] = v
            jumped = False
            while fr.idx < len(ins):
                i = ins[fr.idx]
                fr.idx += 1
                self.steps += 1
                if (self.steps & 1023) == 0:
                    if self.deadline and time.time() > self.deadline: raise Timeout('symbolic execution')
                    if self.steps > self.maxsteps: raise Unsupported('step limit')
                op = i.op
                if op == 'br':
                    if len(i.a) == 1: tgt = i.a[0]
                    else:
                        c = self.val(st, fr, i.a[0], i.ty)
                        if self.brlog is not None: self.brlog.append(c)
                        if c is UNDEF:
                            self.oblige(st, 'undef', 'branch on an uninitialised value', False)
                            return None
                        d = self.decide(st, c)
                        if d is None:
                            s2, f2 = st.fork(), fr.copy()
                            s2.assume(lnot(c)); f2.prev, f2.block, f2.idx = fr.block, i.a[2], 0
                            st.assume(c)
                            if stop and stop(f2): self.stopped.append((s2, f2))
                            else: work.append((s2, f2))
                            tgt = i.a[1]
                        else: tgt = i.a[1] if d else i.a[2]
                    fr.prev, fr.block, fr.idx = fr.block, tgt, 0
                    if stop and stop(fr):
                        self.stopped.append((st, fr)); return None
                    jumped = True
                    break
                if op == 'ret':
                    v = self.val(st, fr, i.a[0], i.ty) if i.a else None
                    return ('ret', st, fr, v)
                if op == 'call' or op == 'invoke':
                    rs = self.do_call(st, fr, i)
                    if rs is None: return None
                    if op == 'invoke':
                        raise Unsupported('invoke')
                    if len(rs) == 0: return None
                    for s2, v in rs[1:]:
                        f2 = fr.copy()
                        if i.res: f2.regs[i.res] = v
                        work.append((s2, f2))
                    st, v = rs[0]
                    if i.res: fr.regs[i.res] = v
                    continue
                if op == 'switch':
                    v = self.val(st, fr, i.a[0], i.ty)
                    rest = []
                    done = False
                    for cv, l in i.x['cases']:
                        d = self.decide(st, ieq(v, cv))
                        if d is True: tgt = l; done = True; break
                        if d is None:
                            s2, f2 = st.fork(), fr.copy()
                            s2.assume(ieq(v, cv)); f2.prev, f2.block, f2.idx = fr.block, l, 0
                            (self.stopped if stop and stop(f2) else work).append((s2, f2))
                            st.assume(lnot(ieq(v, cv)))
                    if not done: tgt = i.x['default']
                    fr.prev, fr.block, fr.idx = fr.block, tgt, 0
                    if stop and stop(fr):
                        self.stopped.append((st, fr)); return None
                    jumped = True
                    break
                if op == 'unreachable':
                    self.oblige(st, 'unreachable', 'control reaches undefined behaviour', False)
                    return None
                if op == 'select':
                    c = self.val(st, fr, i.a[0], i.x)
                    a, b = self.val(st, fr, i.a[1], i.ty), self.val(st, fr, i.a[2], i.ty)
                    if isinstance(c, bool): fr.regs[i.res] = a if c else b; continue
                    if c is UNDEF: fr.regs[i.res] = UNDEF; continue
                    ok = lambda x: isinstance(x, (bool, int, Fraction, Term))
                    if ok(a) and ok(b):
                        # a choice between addresses or indices made by comparing reals: one path each
                        if not (self.opts.get('forksel') and isinstance(c, Term) and (c.op in ('rlt', 'req') or c.op == 'not' and c.args[0].op in ('rlt', 'req'))):
                            fr.regs[i.res] = ite(c, a, b); continue
                    d = self.decide(st, c)
                    if d is None:
                        s2, f2 = st.fork(), fr.copy()
                        s2.assume(lnot(c)); f2.regs[i.res] = b
                        work.append((s2, f2))
                        st.assume(c); d = True
                    fr.regs[i.res] = a if d else b
                    continue
                v = self.simple(st, fr, i)
                if i.res: fr.regs[i.res] = v
            if not jumped: raise Unsupported('fell off block %s' % fr.block)
    # ------------------------------------------------ simple instructions
    def simple(self, st, fr, i):
        op, ty = i.op, i.ty
        V = self.val
        if op == 'load':
            return self.load(st, V(st, fr, i.a[0], PTR), ty)
        if op == 'store':
            self.store(st, V(st, fr, i.a[1], PTR), ty, V(st, fr, i.a[0], ty)); return None
        if op == 'gep':
            return self.gep(st, ty, [(t, V(st, fr, o, t)) for t, o in i.a])
        if op == 'alloca':
            n = self.mod.size(ty)
            if i.a[0] is not None:
                c = V(st, fr, i.a[0][1], i.a[0][0])
                n = iscale(c, n)
            r = self.new_region(st, 'local %s of %s' % (i.res, fr.fn.name), n, 'alloca')
            fr.allocas.append(r.rid)
            return Ptr(r.rid, 0)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = V(st, fr, i.a[0], ty), V(st, fr, i.a[1], ty)
            if ty.k == 'vec': return tuple(self.intop(st, op, x, y, ty.el, i.x) for x, y in zip(a, b))
            return self.intop(st, op, a, b, ty, i.x)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = V(st, fr, i.a[0], ty), V(st, fr, i.a[1], ty)
            if ty.k == 'vec': return tuple(self.fop(st, op, x, y) for x, y in zip(a, b))
            return self.fop(st, op, a, b)
        if op == 'fneg':
            a = V(st, fr, i.a[0], ty)
            if ty.k == 'vec': return tuple(UNDEF if x is UNDEF else neg(x) for x in a)
            return UNDEF if a is UNDEF else neg(a)
        if op == 'icmp':
            return self.icmp(st, i.x, V(st, fr, i.a[0], ty), V(st, fr, i.a[1], ty), ty)
        if op == 'fcmp':
            return self.fcmp(st, i.x, V(st, fr, i.a[0], ty), V(st, fr, i.a[1], ty))
        if op in ('sext', 'zext', 'trunc'):
            a = V(st, fr, i.a[0], i.x)
            if a is UNDEF: return a
            if op == 'zext':
                if i.x.n == 1: return b2i(a)
                if isinstance(a, int): return a + (1 << i.x.n) if a < 0 else a
                if isinstance(a, tuple): return self.parts_norm(list(a[1]) + [((ty.n - i.x.n) // 8, 0)])
                if i.x.n % 8 == 0 and not (isinstance(a, Term) and a.sort == 'I' and smt.prove(st.pc, ile(0, a))):
                    return ('parts', ((i.x.n // 8, a), ((ty.n - i.x.n) // 8, 0)))
                return a
            if op == 'sext':
                if i.x.n == 1: return iscale(b2i(a), -1)
                return a
            if ty.n == 1:
                if isinstance(a, int): return bool(a & 1)
                if a.op == 'b2i': return a.args[0]
                return lnot(ieq(a, 0))
            if isinstance(a, int):
                m = a & ((1 << ty.n) - 1)
                return m - (1 << ty.n) if m >= 1 << (ty.n - 1) else m
            if isinstance(a, tuple): # parts
                return self.parts_norm(self.parts_cut(a[1], ty.n // 8)[0])
            return a
        if op == 'fpext': 
            a = V(st, fr, i.a[0], i.x)
            return a
        if op == 'fptrunc':
            a = V(st, fr, i.a[0], i.x)
            if a is UNDEF or i.x.k == 'x86_fp80' and ty.k == 'double': return a
            if self.f32 == 'exact': return a
            if isinstance(a, Fraction): 
                import struct
                try:
                    f = struct.unpack('f', struct.pack('f', float(a)))[0]
                    if f == float(a): return a
                except OverflowError: pass
                return mk('uf', ('f32', a), 'R')
            return uf('f32', a)
        if op in ('sitofp', 'uitofp'):
            a = V(st, fr, i.a[0], i.x)
            if a is UNDEF: return a
            if isinstance(a, Term) and a.sort == 'B': a = b2i(a)
            if isinstance(a, bool): a = int(a)
            return i2r(a)
        if op in ('fptosi', 'fptoui'):
            a = V(st, fr, i.a[0], i.x)
            if a is UNDEF: return a
            if isinstance(a, Fraction): return int(a)
            if a.op == 'i2r': return a.args[0]
            return iatom('fptosi', a)
        if op == 'ptrtoint': return V(st, fr, i.a[0], i.x)
        if op == 'inttoptr': return V(st, fr, i.a[0], i.x)
        if op == 'bitcast':
            a = V(st, fr, i.a[0], i.x)
            if i.x.k == 'vec' and ty.k != 'vec': return ('parts', tuple((self.mod.size(i.x.el), x) for x in a))
            if ty.k == 'vec' and isinstance(a, tuple) and a and a[0] == 'parts': return tuple(x for _, x in a[1])
            return a
        if op == 'freeze': return V(st, fr, i.a[0], ty)
        if op == 'extractvalue':
            a = V(st, fr, i.a[0], ty)
            for k in i.x:
                if a is UNDEF: return a
                a = a[k]
            return a
        if op == 'insertvalue':
            a = V(st, fr, i.a[0], ty); b = V(st, fr, i.a[1], i.x[1])
            def ins(x, t, idx):
                if not idx: return b
                els = [t.el] * t.n if t.k != 'struct' else t.els
                x = list(x) if x is not UNDEF else [UNDEF] * len(els)
                x[idx[0]] = ins(x[idx[0]], els[idx[0]], idx[1:])
                return tuple(x)
            return ins(a, ty, i.x[0])
        if op == 'extractelement':
            a = V(st, fr, i.a[0], ty); k = V(st, fr, i.a[1], int_t(32))
            return UNDEF if a is UNDEF else a[k]
        if op == 'insertelement':
            a = V(st, fr, i.a[0], ty); k = V(st, fr, i.a[2], int_t(32))
            l = list(a) if a is not UNDEF else [UNDEF] * ty.n
            l[k] = V(st, fr, i.a[1], ty.el)
            return tuple(l)
        if op == 'shufflevector':
            a, b, mkk = V(st, fr, i.a[0], ty), V(st, fr, i.a[1], ty), V(st, fr, i.a[2], i.x)
            a = list(a) if a is not UNDEF else [UNDEF] * ty.n
            b = list(b) if b is not UNDEF else [UNDEF] * ty.n
            l = a + b
            return tuple(UNDEF if k is UNDEF else l[k] for k in mkk)
        raise Unsupported('instruction %s' % op)
    def parts_of(self, v, n):
        if isinstance(v, tuple):
            return list(v[1])
        if v is UNDEF: return [(n, UNDEF)]
        return [(n, v)]
    def parts_norm(self, l):
        m = []
        for sz, x in l:
            if m and x is UNDEF and m[-1][1] is UNDEF: m[-1] = (m[-1][0] + sz, UNDEF)
            elif m and isinstance(x, int) and isinstance(m[-1][1], int) and not isinstance(x, bool):
                m[-1] = (m[-1][0] + sz, (m[-1][1] & ((1 << (8 * m[-1][0])) - 1)) | (x & ((1 << (8 * sz)) - 1)) << (8 * m[-1][0]))
            else: m.append((sz, x))
        if len(m) == 1:
            sz, x = m[0]
            if isinstance(x, int) and x >= 1 << (8 * sz - 1): x -= 1 << (8 * sz)
            return x
        return ('parts', tuple(m))
    def parts_cut(self, l, k):
        """split a list of parts after k bytes"""
        a, l = [], list(l)
        while k > 0:
            sz, x = l.pop(0)
            if sz <= k: a.append((sz, x)); k -= sz; continue
            if x is UNDEF: a.append((k, UNDEF)); l.insert(0, (sz - k, UNDEF))
            elif isinstance(x, int):
                x &= (1 << (8 * sz)) - 1
                a.append((k, x & ((1 << (8 * k)) - 1))); l.insert(0, (sz - k, x >> (8 * k)))
            else: raise Unsupported('part of a value used as bits')
            k = 0
        return a, l
    def partsop(self, op, a, b, n):
        if op in ('shl', 'lshr'):
            if not isinstance(b, int) or b % 8 or not 0 <= b < 8 * n: raise Unsupported('shift of packed bits')
            k = b // 8
            l = self.parts_of(a, n)
            if k == 0: return a
            if op == 'shl': return self.parts_norm([(k, 0)] + self.parts_cut(l, n - k)[0])
            return self.parts_norm(self.parts_cut(l, k)[1] + [(k, 0)])
        if op in ('and', 'or'):
            x, y, out = self.parts_of(a, n), self.parts_of(b, n), []
            while x:
                soft = lambda p: p[1] is UNDEF or isinstance(p[1], int)
                # constants and undefined bytes are cut bytewise, a term is taken whole
                k = max([1] + [p[0] for p in (x[0], y[0]) if not soft(p)])
                xa, x = self.parts_cut(x, k); ya, y = self.parts_cut(y, k)
                u, v = self.parts_norm(xa), self.parts_norm(ya)
                full = (1 << (8 * k)) - 1
                if isinstance(u, int) and not isinstance(v, int): u, v = v, u
                if isinstance(u, tuple): raise Unsupported('bits of mixed parts')
                if isinstance(u, int): r = (u & v if op == 'and' else u | v) & full
                elif isinstance(v, int):
                    v &= full
                    if op == 'and': r = 0 if v == 0 else u if v == full or u is UNDEF else None
                    else: r = u if v == 0 else UNDEF if u is UNDEF else v if v == full else None
                else: r = UNDEF if u is UNDEF or v is UNDEF else u if u is v else None
                if r is None: raise Unsupported('%s of packed bits' % op)
                out.append((k, r))
            return self.parts_norm(out)
        raise Unsupported('int op on aggregate bits')
    def intop(self, st, op, a, b, ty, flags):
        if ty.n in (16, 32, 64) and op in ('and', 'or', 'shl', 'lshr') and (isinstance(a, tuple) and a and a[0] == 'parts' or isinstance(b, tuple) and b and b[0] == 'parts' or op == 'and' and (a is UNDEF and isinstance(b, int) or b is UNDEF and isinstance(a, int))):
            return self.partsop(op, a, b, ty.n // 8)
        if a is UNDEF or b is UNDEF: return UNDEF
        if ty.n == 1:
            A = bool(a) if isinstance(a, int) else a
            B = bool(b) if isinstance(b, int) else b
            if op == 'and' or op == 'mul': return land(A, B)
            if op == 'or': return lor(A, B)
            if op in ('xor', 'add', 'sub'): return lnot(iff(A, B))
        if isinstance(a, (Ptr, Opaque)) or isinstance(b, (Ptr, Opaque)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r: return isub(a.o, b.o)
                raise Unsupported('difference of unrelated pointers')
            if op == 'add' and isinstance(a, Ptr): return Ptr(a.r, iadd(a.o, b))
            if op == 'sub' and isinstance(a, Ptr): return Ptr(a.r, isub(a.o, b))
            if op == 'sub' and a == 0 and isinstance(b, Ptr): return ('negptr', b)
            if op == 'add' and isinstance(b, Ptr): return Ptr(b.r, iadd(b.o, a))
            raise Unsupported('pointer arithmetic %s' % op)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('int op on aggregate bits')
        if isinstance(a, Term) and a.sort == 'R' or isinstance(b, Term) and b.sort == 'R' or isinstance(a, Fraction) or isinstance(b, Fraction):
            raise Unsupported('integer operation on floating bits (%s)' % op)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if op == 'add': r = iadd(a, b)
        elif op == 'sub': r = isub(a, b)
        elif op == 'mul': r = imul(a, b)
        else:
            if op in ('sdiv', 'udiv', 'srem', 'urem') and isinstance(b, int) and b == 0:
                self.oblige(st, 'division', 'integer division by zero', False)
                return UNDEF
            if op in ('udiv', 'lshr', 'urem') and isinstance(a, int) and a < 0: a += 1 << ty.n
            r = isym(op, a, b)
        if isinstance(r, int):
            m = r & ((1 << ty.n) - 1)
            w = m - (1 << ty.n) if m >= 1 << (ty.n - 1) else m
            if w != r and 'nsw' in (flags or ()) and op in ('add', 'sub', 'mul'):
                self.oblige(st, 'overflow', 'signed integer overflow', False)
            r = w
        elif self.opts.get('check_overflow') and 'nsw' in (flags or ()) and op in ('add', 'sub', 'mul') and ty.n == 32:
            lo, hi = -(1 << 31), (1 << 31) - 1
            self.oblige(st, 'overflow', 'signed integer overflow of %s' % show(r), land(ile(lo, r), ile(r, hi)))
        return r
    def fop(self, st, op, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        for x in (a, b):
            if not isinstance(x, (Term, Fraction)) or (isinstance(x, Term) and x.sort != 'R'):
                raise Unsupported('fp op on %r' % (x,))
        if op == 'fadd': return add(a, b)
        if op == 'fsub': return sub(a, b)
        if op == 'fmul': return mul(a, b)
        if op == 'fdiv':
            if not isinstance(b, Fraction) or b == 0:
                st.divs = st.divs + ((b, st.pc),)
            return self.simp('ratsimp', div(a, b)) if self.opts.get('divsimp') else div(a, b)
        return uf('fmod', a, b)
    def icmp(self, st, pred, a, b, ty):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, (Opaque, FnPtr)) or isinstance(b, (Opaque, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r:
                    if pred == 'eq': return ieq(a.o, b.o)
                    if pred == 'ne': return lnot(ieq(a.o, b.o))
                    f = {'ult': ilt, 'ule': ile, 'slt': ilt, 'sle': ile}
                    if pred in f: return f[pred](a.o, b.o)
                    f = {'ugt': ilt, 'uge': ile, 'sgt': ilt, 'sge': ile}
                    return f[pred](b.o, a.o)
                if pred == 'eq': return False
                if pred == 'ne': return True
                # relational comparison of distinct objects: unspecified, decided by an opaque order
                bv = bvar('ptrorder_%s_%s' % (min(str(a.r), str(b.r)), max(str(a.r), str(b.r))))
                flip = str(a.r) > str(b.r)
                lt = pred in ('ult', 'ule', 'slt', 'sle')
                return lnot(bv) if (flip == lt) else bv
            if isinstance(a, (Opaque, FnPtr)) or isinstance(b, (Opaque, FnPtr)):
                same = isinstance(a, type(b)) and getattr(a, 'n', 0) == getattr(b, 'n', 1)
                return same if pred == 'eq' else not same
            if isinstance(a, int) and a == 0: a = NULL
            if isinstance(b, int) and b == 0: b = NULL
            if isinstance(a, Ptr) and isinstance(b, Ptr): return self.icmp(st, pred, a, b, ty)
            raise Unsupported('icmp pointer/int %r %r' % (a, b))
        if ty.k == 'int' and ty.n == 1:
            A = bool(a) if isinstance(a, int) else a
            B = bool(b) if isinstance(b, int) else b
            e = iff(A, B)
            if pred == 'eq': return e
            if pred == 'ne': return lnot(e)
            raise Unsupported('icmp i1')
        if isinstance(a, tuple) or isinstance(b, tuple): raise Unsupported('icmp tuple')
        if pred == 'eq': return ieq(a, b)
        if pred == 'ne': return lnot(ieq(a, b))
        if pred[0] == 'u':
            if isinstance(a, int) and a < 0: a += 1 << ty.n
            if isinstance(b, int) and b < 0: b += 1 << ty.n
            big = 1 << (ty.n - 1)
            if isinstance(b, int) and b >= big and not isinstance(a, int):
                # a >=u huge  <=> a negative (as signed) and above
                neg_ = ilt(a, 0)
                lt = lnot(neg_)
                return {'ult': lt, 'ule': lt, 'ugt': neg_, 'uge': neg_}[pred]
            if not isinstance(a, int) and isinstance(b, int):
                # x <u c : 0 <= x < c
                nn = ile(0, a)
                if smt.prove(st.pc, nn, 400): nn = True
                if pred == 'ult': return land(nn, ilt(a, b))
                if pred == 'ule': return land(nn, ile(a, b))
                if pred == 'ugt': return lnot(land(nn, ile(a, b)))
                if pred == 'uge': return lnot(land(nn, ilt(a, b)))
        p = pred[1:]
        if p == 'lt': return ilt(a, b)
        if p == 'le': return ile(a, b)
        if p == 'gt': return ilt(b, a)
        if p == 'ge': return ile(b, a)
        raise Unsupported(pred)
    def fcmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if pred == 'false': return False
        if pred == 'true': return True
        nanv = self.isnan(a) if a is b else lor(self.isnan(a), self.isnan(b))
        if self.opts.get('ratsimp') and a not in SPECIAL and b not in SPECIAL and (isinstance(a, Term) or isinstance(b, Term)):
            sq = self.simp('signsq', sub(a, b)) if nanv is False else None
            if sq is not None:
                z, up = req(sq[1], Fraction(0)), sq[0] > 0
                return {'eq': z, 'ne': lnot(z), 'lt': False if up else lnot(z), 'le': z if up else True, 'gt': lnot(z) if up else False, 'ge': True if up else z}[pred[1:]]
            a, b = self.simp('signterm', sub(a, b)), Fraction(0)
        if pred == 'uno': return nanv
        if pred == 'ord': return lnot(nanv)
        c = {'eq': req, 'ne': lambda x, y: lnot(req(x, y)), 'lt': rlt, 'le': rle,
             'gt': lambda x, y: rlt(y, x), 'ge': lambda x, y: rle(y, x)}[pred[1:]](a, b)
        if pred[1:] == 'ne' and nanv is not False: c = lor(c, nanv)
        if nanv is False: return c
        return land(lnot(nanv), c) if pred[0] == 'o' else lor(nanv, c)
    def simp(self, how, t):
        from .norm import Norm, Blowup
        if not hasattr(self, '_nrm'): self._nrm = Norm()
        if not isinstance(t, Term): return t if how not in ('sqrtsimp', 'signsq') else None
        if any(x.op in ('psum', 'rite', 'iite') for x in subterms(t)): return t if how not in ('sqrtsimp', 'signsq') else None
        self._nrm.deadline = time.time() + 10
        try: return getattr(self._nrm, how)(t)
        except (Blowup, ZeroDivisionError): return t if how not in ('sqrtsimp', 'signsq') else None
    def isnan(self, x):
        if x is NAN: return True
        if self.opts.get('nan') and isinstance(x, Term): return self.opts['nan'](x)
        return False
    # ------------------------------------------------ calls
    def do_call(self, st, fr, i):
        cal = i.x['callee']
        if cal[0] == 'g': name = cal[1]
        else:
            f = self.val(st, fr, cal, PTR)
            if isinstance(f, FnPtr): name = f.n
            else: raise Unsupported('indirect call')
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, i, name)
        args = [self.val(st, fr, o, t) for t, o, at in i.a]
        # byval parameters are copies
        for k, (t, o, at) in enumerate(i.a):
            if 'byval' in at:
                r = self.new_region(st, 'byval arg', self.mod.size(at['byval']), 'alloca')
                fr.allocas.append(r.rid)
                self.memcpy(st, Ptr(r.rid, 0), args[k], self.mod.size(at['byval']))
                args[k] = Ptr(r.rid, 0)
        h = self.externs.get(name)
        if h is None:
            for pat, hh in self.opts.get('contracts', ()):
                if re.search(pat, dem(name)): h = hh; break
        if h is not None:
            r = h(self, st, args, i, name)
            if r is not NotImplemented: return r
        if name in self.mod.funcs and not (STREAMFN.match(name) and 'complex' not in name and 'TooN' not in name):
            return self.call(st, name, args)
        return self.extern(st, fr, name, args, i)
    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0: return
        if d is UNDEF or s is UNDEF: raise Unsupported('memcpy undef')
        if not isinstance(n, int):
            return self.memcpy_sym(st, d, s, n)
        rs = self.check_access(st, s, n, 'load')
        rd = self.check_access(st, d, n, 'store')
        if rs is None or rd is None: return
        if rs.arr is None and isinstance(s.o, int) and rd.arr is None and isinstance(d.o, int):
            items = [(o - s.o, c) for o, c in rs.cells.items() if s.o <= o and o + c[0] <= s.o + n]
            wd = st.wreg(d.r)
            for k in [k for k in wd.cells if k < d.o + n and k + wd.cells[k][0] > d.o]: del wd.cells[k]
            for o, c in items: wd.cells[d.o + o] = c
            for (a, b) in rs.zeros:
                a2, b2 = max(a, s.o), min(b, s.o + n)
                if a2 < b2: wd.zeros = wd.zeros + ((a2 - s.o + d.o, b2 - s.o + d.o),)
            return
        es = rs.es or rd.es or 8
        if rs.arr is None and rs.cells:
            es = min(c[0] for c in rs.cells.values())
        ty = {8: DOUBLE, 4: FLOAT}.get(es)
        if ty is None or n % es: raise Unsupported('memcpy element size %s' % es)
        vals = [self.raw_load(st, rs, iadd(s.o, k), es, ty) for k in range(0, n, es)]
        for k, v in zip(range(0, n, es), vals): self.raw_store(st, st.wreg(d.r), iadd(d.o, k), es, v)
    def memcpy_sym(self, st, d, s, n):
        raise Unsupported('memcpy of symbolic size %s' % show(n))
    def memset_sym(self, st, d, v, n):
        raise Unsupported('memset of symbolic size %s' % show(n))
    def intrinsic(self, st, fr, i, name):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.donothing', 'llvm.invariant')):
            return [(st, None)]
        if name.startswith('llvm.stacksave'): return [(st, NULL)]
        args = [self.val(st, fr, o, t) for t, o, at in i.a]
        n = name.split('.')[1]
        if n in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2]); return [(st, None)]
        if n == 'memset':
            d, v, ln = args[:3]
            if isinstance(ln, int) and ln == 0: return [(st, None)]
            if not isinstance(ln, int):
                self.memset_sym(st, d, v, ln); return [(st, None)]
            r = self.check_access(st, d, ln, 'store')
            if r is None: return []
            if v != 0: raise Unsupported('memset nonzero')
            w = st.wreg(d.r)
            if w.arr is not None:
                for k in range(0, ln, w.es or 8): self.raw_store(st, w, iadd(d.o, k), w.es or 8, Fraction(0))
            else:
                for k in [k for k in w.cells if k < d.o + ln and k + w.cells[k][0] > d.o]: del w.cells[k]
                w.zeros = w.zeros + ((d.o, d.o + ln),)
            return [(st, None)]
        if n in ('trap', 'debugtrap'):
            self.terminals.append(('abort', st, 'trap')); return []
        if n == 'umul' or n == 'smul':
            a, b = args
            return [(st, (imul(a, b), ilt(a, 0) if isinstance(a, Term) or a < 0 else (ilt(b, 0) if isinstance(b, Term) or b < 0 else False)))]
        if n == 'uadd' or n == 'sadd':
            return [(st, (iadd(*args), False))]
        if n == 'expect': return [(st, args[0])]
        if n == 'is': # is.fpclass
            x, m = args
            res = False
            if m & 3: res = lor(res, self.isnan(x))
            if m & 4: res = lor(res, x is NINF)
            if m & 512: res = lor(res, x is INF)
            if m & (8 | 16 | 32 | 64 | 128 | 256):
                special = x in SPECIAL if isinstance(x, Term) else False
                res = lor(res, (not special) if self.isnan(x) is False else lnot(self.isnan(x)))
            return [(st, res)]
        if n in ('fabs', 'sqrt', 'sin', 'cos', 'exp', 'log', 'pow', 'fmuladd', 'fma', 'minnum', 'maxnum', 'copysign', 'floor', 'ceil', 'exp2', 'log2', 'log10', 'trunc', 'rint', 'round'):
            if any(a is UNDEF for a in args): return [(st, UNDEF)]
            return [(st, self.mathfn(st, n, args))]
        if n == 'abs':
            a = args[0]
            return [(st, abs(a) if isinstance(a, int) else ite(ilt(a, 0), iscale(a, -1), a))]
        if n in ('smax', 'umax', 'smin', 'umin'):
            a, b = args
            return [(st, ite(ilt(a, b), *((b, a) if 'max' in n else (a, b))))]
        if n == 'eh' or n == 'prefetch': return [(st, 0)]
        raise Unsupported('intrinsic ' + name)
    def mathfn(self, st, n, a):
        if n == 'sqrt':
            if self.opts.get('ratsimp') and isinstance(a[0], Term):
                # the square root of a perfect square
                q = self.simp('sqrtsimp', a[0])
                if q is not None:
                    p, d = q
                    x = div(p, d)
                    s = mul(p, d) if not (isinstance(d, Term) and self._nrm.positive(self._nrm.norm(d).n)) else p
                    if s is not None and smt.prove(st.pc, rle(Fraction(0), s), 2000): return x
                    if smt.prove(st.pc, rle(s, Fraction(0)), 2000): return neg(x)
                    return T.rabs(x)
                a = [self.simp('ratsimp', a[0])]
            st.divs = st.divs + ((('sqrt', a[0]), st.pc),)
            return T.sqrt(a[0])
        if n == 'fabs': return T.rabs(a[0])
        if self.opts.get('ratsimp') and n in ('sin', 'cos', 'asin', 'acos', 'atan2', 'log', 'exp'):
            r = self.trig(st, n, a)
            if r is not None: return r
        if n in ('sin', 'cos', 'exp', 'log'): return getattr(T, n)(a[0])
        if n == 'asin' and isinstance(a[0], Fraction) and a[0] in (0, 1, -1): return T.rat(math.pi) * a[0] / 2
        if n == 'acos' and isinstance(a[0], Fraction) and a[0] in (0, 1, -1): return T.rat(math.pi) * (1 - a[0]) / 2
        if n == 'atan2' and a[0] == 0 and isinstance(a[1], Fraction) and a[1] != 0: return Fraction(0) if a[1] > 0 else T.rat(math.pi)
        if n in ('fmuladd', 'fma'): return add(mul(a[0], a[1]), a[2])
        if n in ('minnum', 'fmin'): return ite(rlt(a[1], a[0]), a[1], a[0])
        if n in ('maxnum', 'fmax'): return ite(rlt(a[0], a[1]), a[1], a[0])
        # powers of two with an integer exponent
        if n == 'ldexp' or n == 'exp2' or n == 'pow' and a[0] == 2:
            e = a[1] if n != 'exp2' else a[0]
            if n != 'ldexp': e = int(e) if isinstance(e, Fraction) and e.denominator == 1 else e.args[0] if isinstance(e, Term) and e.op == 'i2r' else None
            if e is not None:
                p = Fraction(2) ** e if isinstance(e, int) else uf('pow2', e)
                return mul(a[0], p) if n == 'ldexp' else p
        if n == 'pow':
            if isinstance(a[1], Fraction) and a[1].denominator == 1 and 0 <= a[1] <= 8:
                r = Fraction(1)
                for _ in range(int(a[1])): r = mul(r, a[0])
                return r
            return uf('pow', *a)
        return uf(n, *a)
    def atan_multiple(self, t):
        """(k, u) when t == k atan(u) with k an even integer"""
        if not isinstance(t, Term): return None
        self.simp('norm', t)
        r = self.simp('norm', t)
        if isinstance(r, Term) or r.d or len(r.n) != 1: return None
        (m, c), = r.n.items()
        if len(m) != 1 or m[0][1] != 1 or Fraction(c).denominator != 1 or c % 2: return None
        at = self._nrm.atoms[m[0][0]]
        if not (isinstance(at, Term) and at.op == 'uf' and at.args[0] == 'atan'): return None
        return int(c), at.args[1]
    def trig(self, st, n, a):
        """sin, cos, asin, acos, atan2 of even multiples of atan(u) (rational in u); opts['angles'] lists the angles an inverse function can return"""
        if not any(isinstance(x, Term) for x in a): return None
        if n == 'log':
            if isinstance(a[0], Term) and a[0].op == 'uf' and a[0].args[0] == 'exp': return a[0].args[1]
            return None
        if n == 'exp':
            if isinstance(a[0], Term) and a[0].op == 'uf' and a[0].args[0] == 'log' and smt.prove(st.pc, rlt(Fraction(0), a[0].args[1]), 2000): return a[0].args[1]
            return None
        if n in ('sin', 'cos'):
            ku = self.atan_multiple(a[0])
            return None if ku is None else T.trigmul(*ku)[n == 'sin']
        pi = T.rat(math.pi)
        def same(x, y):
            d = sub(x, y)
            return self.simp('is_zero', d) is True if isinstance(d, Term) else d == 0
        pv = lambda g: g is True or (g is not False and smt.prove(st.pc, g, 3000))
        for th in self.opts.get('angles', ()):
            ku = self.atan_multiple(th)
            if ku is None or ku[0] not in (2, 4): continue
            k, u = ku
            if k == 4 and not (pv(rle(u, Fraction(1))) and pv(rle(Fraction(-1), u))): continue
            c, s = T.trigmul(k, u)
            if n == 'atan2':
                if same(a[1], c):
                    if same(a[0], s): return th
                    if same(a[0], neg(s)): return neg(th)
            elif n == 'acos':
                if same(a[0], c): return T.rabs(th) if not pv(rle(Fraction(0), u)) else th
            elif n == 'asin':
                for sg in (1, -1):
                    if same(a[0], s if sg > 0 else neg(s)):
                        if pv(rle(Fraction(0), c)): return th if sg > 0 else neg(th)
                        if pv(rle(c, Fraction(0))):
                            if pv(rle(Fraction(0), u)): return sub(pi, th) if sg > 0 else sub(th, pi)
                            if pv(rle(u, Fraction(0))): return sub(neg(pi), th) if sg > 0 else add(pi, th)
        return None
    def alloc(self, st, n, name, kind='heap'):
        r = self.new_region(st, name, n, kind)
        if not isinstance(n, int): r.arr = AUninit()
        return Ptr(r.rid, 0)
    def free(self, st, p, how):
        if isinstance(p, Ptr) and p.r is None: return
        if not isinstance(p, Ptr): raise Unsupported('free %r' % (p,))
        r = st.mem[p.r]
        if not r.alive: self.oblige(st, 'memory', 'memory released twice (%s)' % r.name, False); return
        if r.kind != 'heap': self.oblige(st, 'memory', 'release of memory that was not allocated (%s)' % r.name, False); return
        c = ieq(p.o, 0)
        if not self.oblige(st, 'memory', 'release through an interior pointer', c): return
        w = st.wreg(p.r)
        self.nobl += 1
        if not r.name.startswith(how) and self.opts.get('match_new', True):
            self.oblige(st, 'memory', 'allocation %s released with %s' % (r.name, how), False)
        w.alive = False
    def extern(self, st, fr, name, args, i):
        if name in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            return [(st, self.alloc(st, args[0], 'new[]#%d' % self.nreg if name.startswith('_Zna') else 'new#%d' % self.nreg))]
        if name in ('_ZdlPv', '_ZdlPvm'):
            self.free(st, args[0], 'new#'); return [(st, None)]
        if name in ('_ZdaPv', '_ZdaPvm'):
            self.free(st, args[0], 'new[]'); return [(st, None)]
        if name in ('malloc',): return [(st, self.alloc(st, args[0], 'malloc#'))]
        if name == 'free': self.free(st, args[0], 'malloc'); return [(st, None)]
        if name in ('posix_memalign',):
            self.store(st, args[0], PTR, self.alloc(st, args[2], 'malloc#')); return [(st, 0)]
        if name in ('abort', '__assert_fail', '_ZSt17__throw_bad_allocv', '__cxa_throw_bad_array_new_length',
                    '_ZSt9terminatev', '_ZSt20__throw_length_errorPKc', '_ZSt28__throw_bad_array_new_lengthv',
                    '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '__cxa_bad_cast', '_ZSt16__throw_bad_castv', 'exit'):
            self.terminals.append(('abort' if name == 'abort' else 'abort:' + name, st, self.where())); return []
        if name in ('__muldc3', '__mulsc3'):
            a, b, c, d = args
            if UNDEF in args: return [(st, (UNDEF, UNDEF))]
            return [(st, (sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c))))]
        if name in ('__divdc3', '__divsc3'):
            a, b, c, d = args
            n = add(mul(c, c), mul(d, d))
            st.divs = st.divs + ((n, st.pc),)
            return [(st, (div(add(mul(a, c), mul(b, d)), n), div(sub(mul(b, c), mul(a, d)), n)))]
        base = name[:-1] if name[-1:] in 'fl' and (name[:-1] in LIBM1 or name[:-1] in LIBM2 or name[:-1] in ('fabs', 'floor', 'ceil', 'round', 'fmin', 'fmax')) else name
        if base in LIBM1 | LIBM2 | {'fabs', 'floor', 'ceil', 'round', 'fmin', 'fmax', 'rint', 'trunc'}:
            if any(a is UNDEF for a in args): return [(st, UNDEF)]
            return [(st, self.mathfn(st, base, args))]
        if name in ('abs', 'labs'):
            a = args[0]
            return [(st, abs(a) if isinstance(a, int) else ite(ilt(a, 0), iscale(a, -1), a))]
        if name == '__cxa_guard_acquire':
            return [(st, 1 if self.load(st, args[0], int_t(8)) == 0 else 0)]
        if name == '__cxa_guard_release':
            self.store(st, args[0], int_t(8), 1); return [(st, None)]
        if name in ('__cxa_atexit',): return [(st, 0)]
        if name in ('memmove', 'memcpy'):
            self.memcpy(st, args[0], args[1], args[2]); return [(st, args[0])]
        d = dem(name)
        if 'basic_ostream' in d or 'std::ostream' in d or 'basic_ios' in d or 'ios_base' in d or 'basic_istream' in d or 'std::istream' in d:
            st.events = st.events + ((d, tuple(args)),)
            return [(st, args[0] if args else None)]
        raise Unsupported('external function %s' % d)
