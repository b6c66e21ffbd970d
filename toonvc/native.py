"""Search for a concrete failing input: the harness translation unit is compiled
natively (clang, ASan, pattern-filled uninitialised memory), run on concrete inputs, and
the same contract is evaluated numerically on what the code returned.  Used
only after an obligation failed; it never decides that a property holds."""
import os, sys, struct, subprocess, random, math, time, json, shutil, tempfile
from fractions import Fraction
from .terms import *
from . import terms as T
from .decide import evalnum, close, NoValue
from . import fw
from .fw import Param, IntParam, RealParam, Ctx, View

DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <vector>
#include <malloc.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static bool rd(void* p, size_t n) { return fread(p, 1, n, stdin) == n; }
int main() {
  int ncases; if(!rd(&ncases, 4)) return 2;
  for(int c = 0; c < ncases; c++) {
    %(read)s
    int pp[2]; if(pipe(pp)) return 3;
    pid_t pid = fork();
    if(pid == 0) {
      close(pp[0]); alarm(10);
      struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE, &rl);
      if(!freopen("/dev/null", "w", stdout)) return 4;
      size_t before = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
      h_%(name)s(%(args)s);
      size_t after = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
      std::vector<double> out; double leak = double(after) - double(before); out.push_back(leak);
      %(write)s
      size_t tot = out.size()*8, off = 0;
      while(off < tot) { ssize_t w = write(pp[1], (char*)out.data() + off, tot - off); if(w <= 0) break; off += w; }
      _exit(0);
    }
    close(pp[1]);
    std::vector<double> res; double b; std::vector<char> buf; char t[4096]; ssize_t k;
    while((k = read(pp[0], t, sizeof t)) > 0) buf.insert(buf.end(), t, t + k);
    close(pp[0]);
    int st; waitpid(pid, &st, 0);
    printf("CASE %%d %%d %%d", c, WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
    for(size_t i = 0; i + 8 <= buf.size(); i += 8) { memcpy(&b, &buf[i], 8); printf(" %%a", b); }
    printf("\n"); fflush(stdout);
    %(free)s
  }
}
'''

class NativeError(Exception): pass

def build(spec, h, d):
    rd_, args, wr, fr = [], [], [], []
    for p in h.params:
        n = p.name
        if isinstance(p, Param):
            rd_.append('int n_%s; if(!rd(&n_%s, 4)) return 2; %s* v_%s = (%s*)malloc(sizeof(%s) * n_%s); memset(v_%s, 0xff, sizeof(%s) * n_%s); for(int i = 0; i < n_%s; i++) { double x; if(!rd(&x, 8)) return 2; v_%s[i] = x; }' % ((n, n, p.ty, n, p.ty, p.ty, n, n, p.ty, n, n, n)))
            if p.mode == 'out': rd_.append('memset(v_%s, 0xff, sizeof(%s) * n_%s);' % (n, p.ty, n))
            args.append('v_' + n)
            wr.append('for(int i = 0; i < n_%s; i++) out.push_back(v_%s[i]);' % (n, n))
            fr.append('free(v_%s);' % n)
        else:
            rd_.append('%s v_%s; { double x; if(!rd(&x, 8)) return 2; v_%s = x; }' % (p.ty, n, n))
            args.append('v_' + n)
    src = os.path.join(d, 'native.cc')
    open(src, 'w').write('#include <cstddef>\n' + spec.tu([h]) + DRIVER % dict(read='\n    '.join(rd_), name=h.name, args=', '.join(args), write='\n      '.join(wr), free=' '.join(fr)))
    exe = os.path.join(d, 'native')
    base = ['clang++-18', '-std=gnu++17', '-O1', '-w', '-ffp-contract=off', '-fno-strict-aliasing', '-ftrivial-auto-var-init=pattern', '-I' + fw.REPO, '-I' + fw.VERIF + '/specs', '-DTOON_USE_LAPACK', '-DTOONVC_NATIVE']
    lib = ['-llapack', '-lblas']
    err = ''
    for san in (['-fsanitize=address'], []):
        p = subprocess.run(base + san + list(spec.flags) + list(h.flags) + [src, '-o', exe] + lib, capture_output=True, text=True)
        if p.returncode == 0: return exe
        err = p.stderr
    raise NativeError(err[:1500])

ENV = dict(ASAN_OPTIONS='exitcode=99:detect_leaks=0:handle_abort=0:abort_on_error=0:malloc_fill_byte=255:max_malloc_fill_size=100000000:detect_stack_use_after_return=1')

def run_cases(exe, h, cases, timeout=60):
    """cases: list of dict name -> value(s); -> list of dict(status, signal, leak, out, stderr)"""
    b = struct.pack('i', len(cases))
    for c in cases:
        for p in h.params:
            v = c[p.name]
            if isinstance(p, Param): b += struct.pack('i', len(v)) + struct.pack('%dd' % len(v), *v)
            else: b += struct.pack('d', v)
    env = dict(os.environ); env.update(ENV)
    try: r = subprocess.run([exe], input=b, capture_output=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return []
    res = []
    for line in r.stdout.decode(errors='replace').split('\n'):
        if not line.startswith('CASE '): continue
        f = line.split()
        k, st, sg = int(f[1]), int(f[2]), int(f[3])
        vals = [float.fromhex(x) if x not in ('nan', '-nan', 'inf', '-inf') else float(x.replace('-nan', 'nan')) for x in f[4:]]
        d = dict(status=st, signal=sg, leak=0, out={}, err='')
        if st == 0 and vals:
            d['leak'] = vals[0]; i = 1
            for p in h.params:
                if isinstance(p, Param):
                    n = len(cases[k][p.name]); d['out'][p.name] = vals[i:i + n]; i += n
        if st == 99:
            d['err'] = r.stderr.decode(errors='replace')[:3000]
        res.append(d)
    return res

def tri(t, env, memo, tol):
    """three-valued truth of a Bool term under rounding"""
    if isinstance(t, bool): return t
    op, a = t.op, t.args
    if op == 'not':
        r = tri(a[0], env, memo, tol); return None if r is None else not r
    if op == 'and':
        rs = [tri(x, env, memo, tol) for x in a]
        return False if any(r is False for r in rs) else None if None in rs else True
    if op == 'or':
        rs = [tri(x, env, memo, tol) for x in a]
        return True if any(r is True for r in rs) else None if None in rs else False
    if op in ('rlt', 'req'):
        x, y = evalnum(a[0], env, memo), evalnum(a[1], env, memo)
        if x != x or y != y: return False if op == 'req' and (x != x) != (y != y) else None
        if math.isinf(x) or math.isinf(y): return None
        if op == 'req': return close(x, y, tol) or None if x != y and close(x, y, tol * 10) else x == y
        if close(x, y, tol): return None
        return x < y
    return bool(evalnum(t, env, memo))

def pick(rnd, style):
    if style == 0: return float(rnd.randint(-3, 3))
    if style == 1: return rnd.uniform(-2, 2)
    if style == 2: return rnd.choice([0.0, 1.0, -1.0, rnd.uniform(-2, 2)])
    if style == 3: return rnd.uniform(-2, 2) * 10 ** rnd.choice([-6, -4, -2, -1])
    if style == 4: return rnd.uniform(0, 3)
    if style == 5: return rnd.choice([0.0, 1.0])
    if style == 6: return rnd.uniform(-2, 2) * 10 ** rnd.choice([0, 1, 2])
    if style == 7: return rnd.choice([0.25, 0.5, 0.5, -0.5, 2.0, 0.0])
    return rnd.uniform(-1, 1)

def make_case(h, rnd, hint, style):
    """-> (case dict, ints, env) or None"""
    ints = {}
    for p in h.params:
        if isinstance(p, IntParam):
            if p.val is not None: ints[p.name] = p.val; continue
            lo = p.lo(ints) if callable(p.lo) else p.lo
            hi = p.hi(ints) if callable(p.hi) else p.hi
            if hint and p.name in hint and abs(hint[p.name]) < 5000: ints[p.name] = int(hint[p.name]); continue
            lo = -3 if lo is None else lo
            if hi is None: hi = lo + rnd.choice([0, 1, 3, 5, 9])
            if hi < lo: return None
            if lo < -1000 and hi > 1000: ints[p.name] = rnd.choice([rnd.randint(-2, 3), rnd.randint(-2, 9), rnd.randint(0, 4), rnd.choice([lo, lo + 1, hi, hi - 1])])
            else: ints[p.name] = rnd.randint(lo, min(hi, lo + 300))
    for p in h.params:
        if isinstance(p, IntParam) and p.val is None:
            lo = p.lo(ints) if callable(p.lo) else p.lo
            hi = p.hi(ints) if callable(p.hi) else p.hi
            if (lo is not None and ints[p.name] < lo) or (hi is not None and ints[p.name] > hi): return None
    tot = 0
    for p in h.params:
        if isinstance(p, Param):
            n = p.n(ints) if callable(p.n) else p.n
            if n < 0: return None
            tot += n
    if tot > 300000: return None
    init = fw.init_terms(h, ints)
    vs = set()
    for L in init.values():
        for t in L:
            if isinstance(t, Term): vs |= fv(t)
    reals = {p.name: (p.init if p.init is not None else rvar(p.name)) for p in h.params if isinstance(p, RealParam)}
    for t in reals.values():
        if isinstance(t, Term): vs |= fv(t)
    env = dict(ints)
    isint = set(p.name for p in h.params if isinstance(p, Param) and p.ty == 'int')
    for v in sorted(vs):
        nm = v.args[0]
        if v.sort == 'I': env[nm] = int(hint[nm]) if hint and nm in hint and abs(hint[nm]) < 1000 else rnd.randint(-4, 6)
        elif hint and nm in hint and abs(hint[nm]) < 1e12: env[nm] = float(hint[nm])
        else: env[nm] = pick(rnd, style if style < 9 else rnd.randint(0, 8))
    case, memo = {}, {}
    try:
        for p in h.params:
            if isinstance(p, Param):
                case[p.name] = [float(evalnum(t, env, memo)) if t is not None else 0.0 for t in init[p.name]]
            elif isinstance(p, IntParam): case[p.name] = ints[p.name]
            else: case[p.name] = float(evalnum(reals[p.name], env, memo))
    except (NoValue, ZeroDivisionError, OverflowError): return None
    if any(x != x or math.isinf(x) for v in case.values() for x in (v if isinstance(v, list) else [v])): return None
    # what the code is really given
    for p in h.params:
        if isinstance(p, Param) and p.ty == 'float':
            case[p.name] = [struct.unpack('f', struct.pack('f', x))[0] for x in case[p.name]]
    return case, ints, env, init, reals

def concrete_ctx(h, ints, init, reals, case, out=None):
    """contract context whose leaves are variables bound to the concrete numbers"""
    ctx = Ctx(h, concrete=True)
    ctx.ints = ints
    env = {}
    def bind(name, v, isint=False):
        env[name] = int(v) if isint else v
        return ivar(name) if isint else rvar(name)
    for p in h.params:
        if isinstance(p, RealParam): ctx.reals[p.name] = bind('in!' + p.name, case[p.name])
        if isinstance(p, Param):
            it = p.ty == 'int'
            if p.mode != 'out':
                L = [bind('in!%s_%d' % (p.name, i), v, it) for i, v in enumerate(case[p.name])]
                ctx._in[p.name] = View(lambda k, L=L: L[k] if 0 <= k < len(L) else rvar('oob!'), len(L))
            if out is not None:
                L2 = [bind('out!%s_%d' % (p.name, i), v, it) for i, v in enumerate(out[p.name])]
                ctx._out[p.name] = View(lambda k, L=L2: L[k] if 0 <= k < len(L) else rvar('oob!'), len(L2))
    return ctx, env

def check_case(h, ctxargs, r, tol):
    """-> list of violated contract clauses"""
    case, ints, env0, init, reals = ctxargs
    ctx, env = concrete_ctx(h, ints, init, reals, case)
    env = dict(env0, **env)          # variables that parametrise the inputs
    env.update(getattr(h, 'envfns', {}) or {})
    if h.pre:
        for b in h.pre(ctx):
            if tri(b, env, {}, 1e-12) is not True and not (isinstance(b, Term) and evalnum(b, env, {}) is True): return None
    bad = []
    ac = h.abort(ctx) if h.abort else None
    acv = None
    if ac is not None: acv = tri(ac, env, {}, 1e-9)
    if r['signal'] == 6:
        if ac is None: bad.append('the code aborted')
        elif acv is False: bad.append('aborted although the arguments are valid')
        return bad
    if r['signal']: return ['the code crashed with signal %d%s' % (r['signal'], ' (timeout)' if r['signal'] == 14 else '')]
    if r['status'] == 99: return ['memory error: ' + next((l for l in r['err'].split('\n') if 'ERROR' in l), 'ASan')[:200]]
    if r['status'] != 0: return ['exit status %d' % r['status']]
    if ac is not None and acv is True: return ['returned although the arguments are invalid']
    if h.leak and r['leak'] > 0: bad.append('%d bytes not released' % r['leak'])
    for p in h.params:
        if isinstance(p, Param) and p.mode == 'in' and r['out'][p.name] != case[p.name]:
            bad.append('input array %s was modified' % p.name)
    combos = [{}]
    first = True
    n = 0
    while combos:
        gv = combos.pop()
        ctx, env = concrete_ctx(h, ints, init, reals, case, r['out'])
        env = dict(env0, **env)
        env.update(getattr(h, 'envfns', {}) or {})
        ctx.ghostvals = gv
        h.post(ctx)
        if first and ctx.ghosts:
            import itertools
            rs = [range(lo, hi) for _, lo, hi in ctx.ghosts]
            allc = list(itertools.product(*rs)) if math.prod(len(x) for x in rs) <= 3000 else [tuple(random.Random(k).choice(x) for x in rs) for k in range(3000)] if all(len(x) for x in rs) else []
            combos = [dict(zip([g[0] for g in ctx.ghosts], c)) for c in allc]
            first = False
            continue
        first = False
        memo = {}
        for label, kind, x, y in ctx.obl:
            if x is None or y is None and kind == 'eq': continue
            try:
                if any(tri(w, env, memo, 1e-9) is not True for w in getattr(label, 'conds', ())): continue
                if kind == 'eq' and T.sort_of(x) != 'B' and T.sort_of(y) != 'B':
                    a, b = evalnum(x, env, memo), evalnum(y, env, memo)
                    if math.isinf(a) and math.isinf(b) or (a != a and b != b): continue
                    if not close(a, b, tol):
                        bad.append('%s: got %r, contract says %r%s' % (label, a, b, ' at %s' % gv if gv else ''))
                elif kind == 'eq':
                    if tri(iff(x, y), env, memo, tol) is False: bad.append('%s is violated' % label)
                elif kind == 'nz':
                    if evalnum(x, env, memo) == 0: bad.append('%s: zero' % label)
                else:
                    if tri(x, env, memo, tol) is False: bad.append('%s is violated%s' % (label, ' at %s' % gv if gv else ''))
            except (NoValue, OverflowError, ZeroDivisionError, ValueError): continue
            if len(bad) > 5: return bad
    return bad

def tolerance(h):
    return max(h.tol, 1e-3 if any(p.ty == 'float' for p in h.params if hasattr(p, 'ty')) or 'float' in h.body else 1e-6)

def search(spec, h, fails, seed, secs, d):
    """-> replay dict or None"""
    t0 = time.time()
    rnd = random.Random(seed)
    exe = build(spec, h, d)
    hints = [f['env'] for f in fails if f.get('env')]
    tried = 0
    tol = tolerance(h)
    rounds = 0
    while time.time() - t0 < secs and rounds < 40:
        batch = []
        for k in range(150):
            hint = hints[k % len(hints)] if hints and (k < 3 * len(hints) if rounds else k < 30) else None
            if h.samples and k % 2 == 0:
                hint = dict(h.samples(rnd))
            c = make_case(h, rnd, hint, rnd.randint(0, 9))
            if c is None: continue
            # preconditions first
            if h.pre:
                ctx, env = concrete_ctx(h, c[1], c[3], c[4], c[0])
                env = dict(c[2], **env)
                env.update(getattr(h, 'envfns', {}) or {})
                try:
                    if any(tri(b, env, {}, 1e-12) is False for b in h.pre(ctx)): continue
                except (NoValue, ZeroDivisionError): continue
            batch.append(c)
        rounds += 1
        if not batch: continue
        rs = run_cases(exe, h, [b[0] for b in batch], timeout=max(20, secs))
        tried += len(rs)
        for c, r in zip(batch, rs):
            try: bad = check_case(h, c, r, tol)
            except (NoValue, ZeroDivisionError, OverflowError): continue
            if bad:
                return dict(input=c[0], env={k: v for k, v in c[2].items() if isinstance(v, (int, float))}, violated=bad, observed=dict(status=r['status'], signal=r['signal'], out=r['out'], stderr=r['err'][:1500]), tried=tried)
    return None
