"""Contract framework: harness entry points instantiate the real templates from
/repo, contracts are Python functions over the symbolic pre- and post-state."""
import contextlib, os, sys, re, json, time, subprocess, tempfile, shutil, random, traceback, multiprocessing, threading, signal, itertools
from fractions import Fraction
from .terms import *
from . import terms as T
from . import smt
from .exe import *
from .decide import *

REPO = os.environ.get('TOON_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = next((c for c in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++') if os.path.exists(c)), 'clang++-18')
OPT = next((c for c in ('/usr/lib/llvm-18/bin/opt', '/usr/bin/opt-18') if os.path.exists(c)), 'opt-18')
BASEFLAGS = ['-std=gnu++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-math-errno', '-ffp-contract=off',
             '-fno-strict-aliasing', '-fno-threadsafe-statics', '-w', '-I' + REPO, '-I' + VERIF + '/specs', '-DTOON_USE_LAPACK', '-DTOONVC_VC']
PRELUDE = '''#include <TooN/TooN.h>
#include <complex>
using namespace TooN;
typedef Reference::RowMajor RefR; typedef Reference::ColMajor RefC;
'''

class Param:
    def __init__(self, name, n, ty='double', mode='in', init=None, sym=False):
        self.name, self.n, self.ty, self.mode, self.init, self.sym = name, n, ty, mode, init, sym
def In(name, n, ty='double', init=None): return Param(name, n, ty, 'in', init)
def Out(name, n, ty='double'): return Param(name, n, ty, 'out')
def InOut(name, n, ty='double', init=None): return Param(name, n, ty, 'inout', init)
class IntParam:
    """integer argument: fixed value, or symbolic with lo <= x (<= hi)"""
    def __init__(self, name, val=None, lo=None, hi=None, ty='int'):
        self.name, self.val, self.lo, self.hi, self.ty = name, val, lo, hi, ty
class RealParam:
    def __init__(self, name, ty='double', init=None): self.name, self.ty, self.init = name, ty, init
def Int(name, val=None, lo=None, hi=None): return IntParam(name, val, lo, hi)
def Real(name, ty='double', init=None): return RealParam(name, ty, init)

ESZ = {'double': 8, 'float': 4, 'int': 4, 'long double': 16}

class Harness:
    def __init__(self, name, params, body, post, pre=None, abort=None, kind='static', opts=None, externs=None,
                 defs='', leak=True, nodiv=False, budget=20.0, deadline=150.0, tol=1e-7, rules=None, what='', group=None,
                 f32='round', sizes=None, allow_sqrt=True, samples=None, retval=None, flags=(), native=True, setup=None, pathpost=None, quick=True, soft=False):
        self.name, self.params, self.body, self.post, self.pre, self.abort = name, params, body, post, pre, abort
        self.kind, self.opts, self.externs, self.defs, self.leak, self.nodiv = kind, opts or {}, externs or {}, defs, leak, nodiv
        self.budget, self.deadline, self.tol, self.what, self.group, self.f32 = budget, deadline, tol, what, group, f32
        self.sizes, self.samples, self.flags, self.native, self.retval = sizes, samples, tuple(flags), native, retval
        self.setup = setup
        self.quick = quick
        self.soft = soft
    def signature(self):
        ps = []
        for p in self.params:
            if isinstance(p, Param): ps.append('%s%s* %s' % ('const ' if p.mode == 'in' else '', p.ty, p.name))
            else: ps.append('%s %s' % (p.ty, p.name))
        return 'extern "C" void h_%s(%s)' % (self.name, ', '.join(ps))
    def source(self):
        return '%s\n%s\n{\n%s\n}\n' % (self.defs, self.signature(), self.body)

class Spec:
    def __init__(self, pid):
        self.pid, self.hs, self.includes, self.assumptions, self.trusted, self.defs = pid, [], [], [], [], ''
        self.flags = []
        self.byname = {}
        self.extra = []
        self.chunk = 6
    def include(self, *fs):
        for f in fs: self.includes.append('#include <%s>' % f)
    def h(self, name, params, body, post, **kw):
        h = Harness(name, params, body, post, **kw)
        assert name not in self.byname, name
        self.byname[name] = h
        self.hs.append(h)
        return h
    def tu(self, hs):
        return '\n'.join(self.includes) + '\n' + PRELUDE + self.defs + '\n' + '\n'.join(h.source() for h in hs)

# ------------------------------------------------------------ contract contexts
class View:
    """array handle of a contract: indexable by constants or integer terms"""
    def __init__(self, get, n): self._get, self.n = get, n
    def __getitem__(self, i):
        if isinstance(i, slice): return [self._get(k) for k in range(*i.indices(self.n))]
        return self._get(i)
    def __iter__(self): return iter([self._get(k) for k in range(self.n)])
    def __len__(self): return self.n

class Lab(str):
    """the label of an obligation, with the conditions under which it is due"""
    conds = ()
def lab(s, conds):
    r = Lab(s); r.conds = conds
    return r

class Ctx:
    """what a contract sees.  concrete=None: symbolic integers; else dict of values"""
    def __init__(self, h, concrete=None):
        self.h, self.concrete = h, concrete
        self.obl = []              # (label, kind, a, b)
        self.ints, self.reals, self._in, self._out = {}, {}, {}, {}
        self.ghosts = []
        self.ghostvals = {}
        self.label = ''
        self.state = None
        self.ex = None
    def __getattr__(self, k):
        d = self.__dict__
        if k in d.get('ints', {}): return d['ints'][k]
        if k in d.get('reals', {}): return d['reals'][k]
        raise AttributeError(k)
    def a(self, name): return self._in[name]
    def o(self, name): return self._out[name]
    def eq(self, label, x, y): self.obl.append((lab(label, self.whens), 'eq', x, y))
    def hold(self, label, b): self.obl.append((lab(label, self.whens), 'bool', b, None))
    def nonzero(self, label, x): self.obl.append((lab(label, self.whens), 'nz', x, None))
    whens = ()
    @contextlib.contextmanager
    def when(self, cond):
        """what is stated inside is due when cond holds"""
        w, g = self.whens, getattr(self, 'gfacts', [])
        self.whens = w + (cond,)
        self.gfacts = g + [cond]
        try: yield
        finally: self.whens, self.gfacts = w, g
    def due(self, cond):
        """for _ in c.due(cond): what is stated inside is due when cond holds; left out when cond is plainly false"""
        if cond is False: return
        if cond is True: yield; return
        with self.when(cond): yield
    def exists(self, label, lo, hi, f):
        """some integer lo <= i < hi satisfies f(i)"""
        if isinstance(lo, int) and isinstance(hi, int): self.hold(label, lor(*[f(i) for i in range(lo, hi)]))
        else: self.obl.append((label, 'ex', (lo, hi, f), None))
    def all_eq(self, label, xs, ys):
        xs, ys = list(xs), list(ys)
        assert len(xs) == len(ys), (label, len(xs), len(ys))
        for i, (x, y) in enumerate(zip(xs, ys)): self.eq('%s[%d]' % (label, i), x, y)
    def ghost(self, name, lo, hi):
        """arbitrary integer lo <= g < hi"""
        if isinstance(lo, int) and isinstance(hi, int):
            self.ghosts.append((name, lo, hi))
            return self.ghostvals.get(name, lo)
        g = ivar('ghost_' + name)
        self.gfacts = getattr(self, 'gfacts', []) + [ile(lo, g), ilt(g, hi)]
        return g
    def given(self, cond):
        """restrict the ghosts to cond; False when no ghost value satisfies it"""
        if isinstance(cond, bool): return cond
        self.gfacts = getattr(self, 'gfacts', []) + [cond]
        return True
    def sum(self, lo, hi, f):
        if isinstance(lo, int) and isinstance(hi, int):
            s = Fraction(0)
            for k in range(lo, hi): s = add(s, f(k))
            return s
        v = ivar('#%d' % sum_depth())
        SUMD[0] += 1
        try: body = f(iadd(v, lo))
        finally: SUMD[0] -= 1
        return psum(v, body, isub(hi, lo))
SUMD = [0]
def sum_depth(): return SUMD[0]
def psum(v, body, n):
    if isinstance(n, int) and n <= 0: return Fraction(0)
    return mk('psum', (v, T.R(body), n), 'R')

def init_terms(h, ints):
    """initial contents of every array parameter"""
    out = {}
    for p in h.params:
        if not isinstance(p, Param): continue
        n = p.n(ints) if callable(p.n) else p.n
        if isinstance(n, int):
            if p.mode == 'out': out[p.name] = [None] * n
            elif p.init is not None: out[p.name] = list(p.init)
            elif p.ty == 'int': out[p.name] = [ivar('%s_%d' % (p.name, i)) for i in range(n)]
            else: out[p.name] = [rvar('%s_%d' % (p.name, i)) for i in range(n)]
            assert len(out[p.name]) == n, (h.name, p.name, len(out[p.name]), n)
    return out

class Fail:
    def __init__(self, harness, label, kind, note, where='', pc=()):
        self.harness, self.label, self.kind, self.note, self.where = harness, label, kind, note, where
        self.pc = [show(c)[:300] for c in pc][:20]
        self.env = None
    def d(self):
        return dict(harness=self.harness, obligation=self.label, kind=self.kind, note=self.note, where=self.where, path=self.pc, env=self.env)

def build_ctx_symbolic(h, fixed=None):
    ints = {}
    pre = []
    for p in h.params:
        if isinstance(p, IntParam):
            if p.val is not None: ints[p.name] = p.val
            elif fixed is not None: ints[p.name] = fixed[p.name]
            else:
                v = ivar(p.name); ints[p.name] = v
                if p.lo is not None: pre.append(ile(p.lo(ints) if callable(p.lo) else p.lo, v))
                if p.hi is not None: pre.append(ile(v, p.hi(ints) if callable(p.hi) else p.hi))
    return ints, pre

def small_sizes(h, cap=36):
    """concrete argument sizes of a bounded stand-in"""
    out = [{}]
    rnd = random.Random(7)
    for p in h.params:
        if not isinstance(p, IntParam) or p.val is not None: continue
        nxt = []
        for d in out:
            lo = p.lo(d) if callable(p.lo) else p.lo
            hi = p.hi(d) if callable(p.hi) else p.hi
            lo = -1 if lo is None or lo < -1000 else lo
            for v in range(lo, lo + 5):
                if hi is not None and v > hi: break
                nxt.append(dict(d, **{p.name: v}))
        rnd.shuffle(nxt)
        out = nxt[:4000]
    good = []
    for d in out:
        ints = dict(d)
        for p in h.params:
            if isinstance(p, IntParam) and p.val is not None: ints[p.name] = p.val
        ok = True
        for p in h.params:
            if isinstance(p, Param):
                n = p.n(ints) if callable(p.n) else p.n
                if n < 0 or n > 400: ok = False
        if ok and h.pre:
            c = Ctx(h); c.ints = ints
            init = init_terms(h, ints)
            for p in h.params:
                if isinstance(p, Param): c._in[p.name] = View(lambda k, L=init[p.name]: L[k] if 0 <= k < len(L) else rvar('oob!'), len(init[p.name]))
                elif isinstance(p, RealParam): c.reals[p.name] = p.init if p.init is not None else rvar(p.name)
            if any(b is False for b in h.pre(c)): ok = False
        if ok: good.append(d)
        if len(good) >= cap: break
    return good

def run_harness(spec, h, mod, tier):
    """-> dict(result).  When an unbounded harness leaves the fragment the loop rules
    decide, it is checked for small concrete sizes instead and reported as bounded"""
    r = run_one(spec, h, mod, tier) if not os.environ.get('TOONVC_FORCEB') else dict(run_one(spec, h, mod, tier), error='unsupported: forced', fails=[])
    if h.kind != 'unbounded' or not r['error'] or not (r['error'].startswith('unsupported') or r['error'].startswith('timeout')) or r['fails']: return r
    try: sizes = small_sizes(h)
    except Exception: sizes = []
    if not sizes: return r
    t0 = time.time()
    acc = dict(r, kind='bounded', error=None, obligations=0, discharged=0, fails=[], by={}, functions=[], paths=0, aborts=0, samples=[])
    done = 0
    for z in sizes:
        q = run_one(spec, h, mod, tier, z)
        if q['error']:
            if q['error'].startswith('unsupported: precondition is'): continue
            if done == 0 or not q['error'].startswith('timeout'): return dict(r, error=r['error'] + '; at ' + str(z) + ': ' + q['error'])
            break
        done += 1
        for k in ('obligations', 'discharged', 'paths', 'aborts'): acc[k] += q[k]
        for f in q['fails']: f['obligation'] = '%s at %s' % (f['obligation'], z)
        acc['fails'] += q['fails']
        for k, v in q['by'].items(): acc['by'][k] = acc['by'].get(k, 0) + v
        acc['functions'] = sorted(set(acc['functions']) | set(q['functions']))
        if acc['fails'] or time.time() - t0 > 60: break
    if not done: return r
    acc['fallback'] = '%s; checked for %d concrete size combinations with every dimension at most 4 above its minimum' % (r['error'], done)
    acc['time'] = time.time() - t0 + r['time']
    return acc

def run_one(spec, h, mod, tier, fixed=None):
    t0 = time.time()
    res = dict(name=h.name, kind=h.kind, what=h.what, obligations=0, discharged=0, fails=[], by={}, functions=[], paths=0, aborts=0, error=None, samples=[])
    scale = 4.0 if tier == 'thorough' else 1.0
    try:
        ex = Executor(mod, externs=dict(h.externs), deadline=t0 + h.deadline * scale, f32=h.f32, opts=dict(h.opts))
        if h.opts.get('loops'):
            from . import loops
            loops.install(ex, h)
        st = State()
        ints, pre = build_ctx_symbolic(h, fixed)
        ctx0 = Ctx(h); ctx0.ints = ints
        ctx0.ex = ex
        for p in h.params:
            if isinstance(p, RealParam): ctx0.reals[p.name] = p.init if p.init is not None else rvar(p.name)
        init = init_terms(h, ints)
        args, regs = [], {}
        for p in h.params:
            if isinstance(p, Param):
                es = ESZ[p.ty]
                n = p.n(ints) if callable(p.n) else p.n
                r = ex.new_region(st, p.name, iscale(n, es), 'param')
                r.es = es
                if isinstance(n, int) and not (p.sym and fixed is None):
                    if p.mode != 'out':
                        for k in range(n):
                            r.cells[k * es] = (es, init[p.name][k])
                        ctx0._in[p.name] = View(lambda k, L=init[p.name]: L[k] if k < len(L) else rvar('oob!'), n)
                else:
                    srt = 'I' if p.ty == 'int' else 'R'
                    r.arr = ABase(p.name, srt)
                    if p.mode != 'out': ctx0._in[p.name] = View(lambda k, nm=p.name, s=srt: mk('sel' if s == 'R' else 'isel', (nm, k), s), n)
                    elif True: r.arr = AUninit()
                regs[p.name] = r.rid
                args.append(Ptr(r.rid, 0))
            elif isinstance(p, IntParam): args.append(ints[p.name])
            else: args.append(ctx0.reals[p.name])
        prec = list(pre)
        if h.pre: prec += [b for b in h.pre(ctx0) if b is not True]
        if False in prec: raise Unsupported('precondition is false')
        for b in prec: st.assume(b)
        res['reachable'] = smt.check_sat(st.pc, 5000)[0]
        if res['reachable'] == 'unsat':
            raise Unsupported('precondition is contradictory')
        # global constructors of the TU that build TooN objects
        for gname in ('_GLOBAL__sub_I_tu.cc',):
            f = mod.funcs.get(gname)
            if f is not None:
                for b in f.blocks.values():
                    for i in b:
                        if i.op == 'call' and i.x['callee'][0] == 'g':
                            g = i.x['callee'][1]
                            if g.startswith('__cxx_global_var_init') and 'ios_base' not in '\n'.join(dem_lines(mod.funcs[g])):
                                r = ex.call(st, g, [])
                                st = r[0][0]
        if h.setup: h.setup(ex, st, ctx0)
        base_alive = set(rid for rid, r in st.mem.items() if r.kind == 'heap' and r.alive)
        outs = ex.call(st, 'h_' + h.name, args)
        pv = Prover(budget=h.budget * scale, eqtimeout=int(8000 * scale))
        fails = []
        nob = ndis = 0
        by = {}
        def record(label, r, pc, kind='post', goal=None):
            nonlocal nob, ndis
            nob += 1
            if not r and kind == 'post' and 'undef' in (r.how or '') and smt.is_unsat(list(pc), 3000): r = Result(True, 'z3', '')
            if r:
                ndis += 1
                by[r.how] = by.get(r.how, 0) + 1
            else:
                f = Fail(h.name, label, kind, '%s: %s' % (r.how, r.note), '', pc)
                if len(fails) < 8:
                    cs = list(pc) + ([lnot(goal)] if isinstance(goal, Term) else [])
                    f.env = smt.model_env(cs, 3000) or smt.model_env(list(pc), 2000)
                fails.append(f)
        def divs(s, tag):
            if h.nodiv: return
            seen = set()
            nz = ()
            for d, pcp in s.divs:
                pcp = tuple(pcp) + nz
                if isinstance(d, tuple):
                    key = ('s', d[1])
                    if key in seen: continue
                    seen.add(key)
                    r = pv.nonneg(pcp, d[1])
                    record('%ssqrt argument is nonnegative: %s' % (tag, show(d[1])[:120]), r, pcp, 'domain')
                else:
                    if d in seen: continue
                    seen.add(d)
                    r = pv.nonzero(pcp, d)
                    z = lnot(req(d, Fraction(0))) if d is not UNDEF else True
                    if isinstance(z, Term): nz += (z,)
                    record('%sdivisor is nonzero: %s' % (tag, show(d)[:120]), r, pcp, 'domain')
        acond = None
        if h.abort is not None:
            acond = h.abort(ctx0)
        npath = 0
        for s, v in outs:
            # a path whose condition is contradictory carries no obligations
            npath += 1
            tag = 'path%d ' % npath if len(outs) > 1 else ''
            if ex.deadline and time.time() > ex.deadline: raise Timeout('contract checking')
            ctx = Ctx(h, concrete=True if fixed is not None else None)
            ctx.ints, ctx.reals, ctx._in = ints, ctx0.reals, ctx0._in
            ctx.state, ctx.ex = s, ex
            for p in h.params:
                if not isinstance(p, Param): continue
                reg = s.mem[regs[p.name]]
                es = ESZ[p.ty]
                n = p.n(ints) if callable(p.n) else p.n
                def get(k, reg=reg, es=es, s=s, p=p):
                    if isinstance(k, int) and reg.arr is None:
                        if fixed is not None and k * es >= reg.size: return rvar('oob!')
                        c = reg.cells.get(k * es)
                        if c is not None: return c[1]
                        for (x, y) in reg.zeros:
                            if x <= k * es < y: return Fraction(0) if p.ty != 'int' else 0
                        return UNDEF
                    if reg.arr is None:
                        return ex.raw_load(s, reg, iscale(k, es), es, DOUBLE if p.ty == 'double' else FLOAT if p.ty == 'float' else int_t(32))
                    s2 = s.fork()
                    for c in ctx.__dict__.get('gfacts', []): s2.assume(c)
                    return ex.sel(s2, reg.arr, k)
                ctx._out[p.name] = View(get, n)
            h.post(ctx)
            if ctx.ghosts:
                gs, ctx.obl = ctx.ghosts, []
                for vals in itertools.product(*[range(lo, hi) for _, lo, hi in gs]):
                    ctx.ghosts, ctx.ghostvals = [], dict(zip([g[0] for g in gs], vals))
                    n0 = len(ctx.obl)
                    h.post(ctx)
                    ctx.obl[n0:] = [(lab('%s%s' % (l, list(vals)), getattr(l, 'conds', ())), k, x, y) for l, k, x, y in ctx.obl[n0:]]
            def conditions(extra=()):
                pc = list(s.pc)
                for g in list(getattr(ctx, 'gfacts', [])) + list(extra):
                    for g1 in g.args if isinstance(g, Term) and g.op == 'and' else (g,):
                        if g1 is not True and g1 not in pc: pc.append(g1)
                if s.quant: pc += instances(s.quant, pc, ctx)
                return tuple(x for x in pc if x is not True)
            pc = pc0 = conditions()
            under = {(): pc}
            if False in pc: continue
            # frame: inputs unchanged
            for p in h.params:
                if isinstance(p, Param) and p.mode == 'in':
                    n = p.n(ints) if callable(p.n) else p.n
                    reg = s.mem[regs[p.name]]
                    if reg.arr is None:
                        bad = [k for k in range(n) if ctx._out[p.name][k] is not init[p.name][k] and ctx._out[p.name][k] != init[p.name][k]]
                        nob += 1
                        if bad: fails.append(Fail(h.name, '%sframe: %s unchanged' % (tag, p.name), 'frame', 'elements %s are modified' % bad, '', pc))
                        else: ndis += 1; by['structural'] = by.get('structural', 0) + 1
                    else:
                        nob += 1
                        if isinstance(reg.arr, ABase): ndis += 1; by['structural'] = by.get('structural', 0) + 1
                        else: fails.append(Fail(h.name, '%sframe: %s unchanged' % (tag, p.name), 'frame', 'input array written', '', pc))
            if h.leak:
                nob += 1
                lk = [r.name for rid, r in s.mem.items() if r.kind == 'heap' and r.alive and rid not in base_alive]
                if lk: fails.append(Fail(h.name, '%sno leak' % tag, 'memory', 'not released: %s' % lk, '', pc))
                else: ndis += 1; by['structural'] = by.get('structural', 0) + 1
            if acond is not None:
                record('%sreturns only when the arguments are valid' % tag, pv.boolean(pc, lnot(acond)), pc, 'abort')
            for label, kind, x, y in ctx.obl:
                w = getattr(label, 'conds', ())
                if w not in under:
                    q = conditions(w)
                    under[w] = None if False in q or not smt.feasible(q, True) else q
                pc = under[w]
                if pc is None: continue           # the condition does not arise on this path
                if kind == 'eq': r = pv.eq(pc, x, y)
                elif kind == 'nz': r = pv.nonzero(pc, x)
                elif kind == 'ex':
                    # a witness among the integers of the path
                    lo, hi, fn = x
                    cand = sorted({v for cnd in pc for v in fv(cnd) if v.sort == 'I'}, key=lambda v: v.id) + [lo]
                    ms = [v for v in cand if isinstance(v, Term) and v.args[0].startswith('m!')] + sorted({v for cnd in pc for v in subterms(cnd) if v.op == 'ski'}, key=lambda v: v.id)
                    cand += ms + [iadd(v, 1) for v in ms]
                    g = lor(*[land(ile(lo, v), ilt(v, hi), fn(v)) for v in cand])
                    r = pv.boolean(pc, g); x = g; kind = 'bool'
                else: r = pv.boolean(pc, x)
                if not r and kind in ('eq', 'bool'):
                    for q in by_cases(pv, pc, x, y): r = q
                goal = None
                if not r:
                    try: goal = req(x, y) if kind == 'eq' and sort_of(x) in 'RI' and sort_of(y) in 'RI' else lnot(req(x, Fraction(0))) if kind == 'nz' else x
                    except Exception: pass
                record(tag + label, r, pc, goal=goal)
                if r and len(res['samples']) < 3:
                    res['samples'].append('%s: %s %s' % (label, show(x, 6)[:160], ('== ' + show(y, 6)[:160]) if kind == 'eq' else ''))
                if not r and time.time() - t0 > h.deadline * scale: raise Timeout('contract checking')
            pc = pc0
            divs(s, tag)
        for kind, s, info in ex.terminals:
            res['aborts'] += 1
            if acond is not None and (kind == 'abort' or kind == 'abort:__assert_fail' and h.opts.get('assert_ok')):
                record('aborts only when the arguments are invalid (%s)' % info, pv.boolean(s.pc, acond), s.pc, 'abort')
            else:
                r = smt.check_sat(s.pc, 5000)[0]
                record('no abort: %s in %s' % (kind, info), Result(r == 'unsat', 'z3', 'program terminates abnormally'), s.pc, 'abort')
        res['paths'] = npath
        if npath == 0 and h.abort is None and not fails and not any(not o.ok for o in ex.obls):
            raise Unsupported('no path returns')
        nob += ex.nobl
        ndis += ex.nobl - len(ex.obls)
        by['executor'] = ex.nobl - len(ex.obls)
        for o in ex.obls:
            if len(fails) < 8: oenv = smt.model_env(list(o.pc), 2000)
            else: oenv = None
            fails.append(Fail(h.name, '%s: %s' % (o.kind, o.what), o.kind, 'obligation not provable', o.where, o.pc))
            fails[-1].env = oenv
        if nob == 0: raise Unsupported('no obligations generated')
        res.update(obligations=nob, discharged=ndis, by=by, fails=[f.d() for f in fails], steps=ex.steps)
        res['functions'] = sorted(ex.called)
        if hasattr(ex, 'loopstats'): res['loops'] = ex.loopstats
    except (Unsupported, ParseError) as e:
        res['error'] = 'unsupported: %s' % e
        if os.environ.get('TOONVC_TRACE'): traceback.print_exc()
    except Timeout as e:
        res['error'] = 'timeout: %s' % e
    except RecursionError as e:
        res['error'] = 'recursion'
    except Exception as e:
        res['error'] = 'internal: %s' % traceback.format_exc()[-1500:]
    res['time'] = time.time() - t0
    return res

def by_cases(pv, pc, x, y, depth=3):
    """prove x == y (or x, when y is None) for every alternative of a selection, with the
    selected index replaced by its value"""
    for c in pc:
        if c.op != 'or': continue
        alts = []
        for d in c.args:
            parts = d.args if isinstance(d, Term) and d.op == 'and' else (d,)
            e = None
            for p in parts:
                if isinstance(p, Term) and p.op == 'ieq0':
                    for m, k in ip(p.args[0]).items():
                        if len(m) == 1 and abs(k) == 1 and (m[0].op == 'ski' or m[0].op == 'ivar' and m[0].args[0].startswith('sel!')):
                            e = (m[0], iscale(isub(p.args[0], ipoly({m: k})), -k)); break
            if e is None: break
            alts.append((parts, e))
        else:
            if not alts: continue
            for parts, (v, t) in alts:
                sb = lambda z: subst(z, {v: t}) if isinstance(z, Term) else z
                pc2 = [sb(z) for z in list(pc) + list(parts) if z is not c]
                pc2 = tuple(z for z in pc2 if z is not True)
                if False in pc2: continue
                r = pv.eq(pc2, sb(x), sb(y)) if y is not None else pv.boolean(pc2, sb(x))
                if not r and depth: 
                    for r in by_cases(pv, pc2, sb(x), sb(y), depth - 1): pass
                if not r: return []
            return [Result(True, 'z3', 'by cases')]
    return []

def instances(quants, pc, ctx):
    """instances of the universal facts at the contract's ghosts and the exit iterations"""
    cand = set()
    for c in pc:
        for v in fv(c):
            if v.sort == 'I' and (v.args[0].startswith('ghost_') or v.args[0].startswith('k!') or v.args[0].startswith('sel!') or v.args[0].startswith('m!')): cand.add(v)
    for label, kind, x, y in ctx.obl:
        for t in (x, y):
            if isinstance(t, Term):
                for v in fv(t):
                    if v.sort == 'I' and '#' not in v.args[0] and v.args[0] not in ctx.ints: cand.add(v)
    cand = sorted(cand, key=lambda v: v.id)[:8]
    out = []
    def add_inst(q, vals):
        m = dict(zip(q.params, vals))
        f = imp(land(*[subst(g, m) for g in q.guards]), subst(q.body, m))
        if f is not True and f not in out: out.append(f)
    for q in quants:
        per = []
        for p in q.params:
            # the body may read elements at a constant distance from the iteration
            offs = set()
            for x in subterms(q.body):
                if x.op == 'ipoly':
                    d = ip(x)
                    st = {tuple(y for y in m if y is not p): k for m, k in d.items() if m.count(p) == 1}
                    for m, k in st.items():
                        offs.add(d.get(m, 0) // k)
            per.append(cand + [isub(v, o) for v in cand for o in sorted(offs)[:3] if o and v.args[0].startswith('ghost_')])
        for vals in itertools.islice(itertools.product(*per), 400): add_inst(q, vals)
        # constants
        if len(q.params) == 1: add_inst(q, (0,))
    return out

def dem_lines(f): return f.lines

# ------------------------------------------------------------ compile
class CompileError(Exception):
    pass

def compile_ir(spec, hs, d, k):
    src = os.path.join(d, 'k%d' % k, 'tu.cc')
    os.makedirs(os.path.dirname(src), exist_ok=True)
    open(src, 'w').write(spec.tu(hs))
    ll, ol = src[:-3] + '.ll', src[:-3] + '.o.ll'
    fl = list(spec.flags) + [f for h in hs for f in h.flags]
    p = subprocess.run([CLANG] + BASEFLAGS + fl + ['-S', '-emit-llvm', src, '-o', ll], capture_output=True, text=True)
    if p.returncode: raise CompileError(p.stderr[:3000])
    p = subprocess.run([OPT, '-S', '-passes=function(sroa,simplifycfg,loop-simplify)', ll, '-o', ol], capture_output=True, text=True)
    if p.returncode: raise CompileError(p.stderr[:3000])
    return Module(open(ol).read())

def task(arg):
    spec, names, d, k, tier = arg
    hs = [h for h in spec.hs if h.name in names]
    out = []
    def go():
        try:
            try:
                mod = compile_ir(spec, hs, d, k)
                mods = {h.name: mod for h in hs}
            except CompileError as e:
                mods = {}
                for j, h in enumerate(hs):
                    try: mods[h.name] = compile_ir(spec, [h], d, k * 100 + 1000 + j)
                    except CompileError as e2: mods[h.name] = str(e2)
            for h in hs:
                if isinstance(mods[h.name], str):
                    out.append(dict(name=h.name, kind=h.kind, error='does not compile: ' + mods[h.name][:1500], fails=[], obligations=0, discharged=0, by={}, functions=[], paths=0, time=0, what=h.what, samples=[], aborts=0))
                else: out.append(run_harness(spec, h, mods[h.name], tier))
        except Exception:
            out.append(dict(name=names[0], kind='', error='internal: ' + traceback.format_exc()[-1500:], fails=[], obligations=0, discharged=0, by={}, functions=[], paths=0, time=0, what='', samples=[], aborts=0))
    th = threading.Thread(target=go)
    th.start(); th.join()
    return out, dict(smt.stats)

def load_spec(pid):
    import importlib
    sys.path.insert(0, VERIF)
    m = importlib.import_module('specs.' + pid.lower())
    s = Spec(pid)
    m.build(s)
    return s

_SPEC = None
def _init(pid):
    global _SPEC
    sys.setrecursionlimit(1000000)
    threading.stack_size(1024 * 1024 * 1024)
    _SPEC = load_spec(pid)
    for k in smt.stats: smt.stats[k] = 0 if isinstance(smt.stats[k], int) else 0.0
def _task(a):
    for k in smt.stats: smt.stats[k] = 0 if isinstance(smt.stats[k], int) else 0.0
    return task((_SPEC,) + a)

def run_all(pid, tier, only=None, jobs=8, d=None, total=700, isbad=None, grace=60):
    spec = load_spec(pid)
    hs = [h for h in spec.hs if (only is None or any(re.fullmatch(o, h.name) for o in only)) and (tier != 'quick' or h.quick)]
    own = d is None
    if own: d = tempfile.mkdtemp(prefix='toonvc-')
    # group harnesses into translation units (harnesses with own flags/defs stay apart)
    groups, cur = [], []
    for h in hs:
        if h.flags or h.group == 'alone': groups.append([h.name]); continue
        cur.append(h.name)
        if len(cur) >= spec.chunk: groups.append(cur); cur = []
    if cur: groups.append(cur)
    stats = {}
    results = []
    try:
        ctxm = multiprocessing.get_context('fork')
        tend = time.time() + total
        with ctxm.Pool(min(jobs, max(1, len(groups))), initializer=_init, initargs=(pid,), maxtasksperchild=4) as pool:
            pend = [(g, pool.apply_async(_task, ((g, d, k, tier),))) for k, g in enumerate(groups)]
            left, tfail = list(pend), None
            while left and time.time() < tend and (tfail is None or time.time() < tfail + grace):
                nxt = []
                for g, ar in left:
                    if not ar.ready(): nxt.append((g, ar)); continue
                    out, st = ar.get()
                    results += out
                    for k, v in st.items(): stats[k] = stats.get(k, 0) + v
                    if tfail is None and isbad is not None and any(isbad(r) for r in out): tfail = time.time()
                left = nxt
                if left: time.sleep(0.05)
            # once something has failed the rest is given a little longer and then dropped; with no
            # failure, whatever did not finish counts as not decided
            if tfail is None:
                for g, ar in left:
                    results += [dict(name=n, kind=next(h.kind for h in hs if h.name == n), error='timeout: overall time limit', fails=[], obligations=0, discharged=0, by={}, functions=[], paths=0, time=0, what='', samples=[], aborts=0) for n in g]
            else: stats['harnesses_dropped_after_failure'] = sum(len(g) for g, _ in left)
            pool.terminate()
    finally:
        if own: shutil.rmtree(d, ignore_errors=True)
    order = {h.name: i for i, h in enumerate(spec.hs)}
    results.sort(key=lambda r: order.get(r['name'], 0))
    return spec, results, stats
