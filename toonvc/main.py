import os, sys, json, time, re, tempfile, shutil, random, traceback
from . import fw, native

VERIF = fw.VERIF
TRUSTED = ['clang 18 front end (C++ to LLVM IR) and opt sroa/simplifycfg/loop-simplify',
           'toonvc VC generator: symbolic semantics of LLVM IR, loop cut rules (/verif/toonvc/exe.py, loops.py)',
           'toonvc rational-function normal form (/verif/toonvc/norm.py)', 'z3 4.x (python bindings)']
ASSUME = ['floating-point arithmetic is treated as exact real arithmetic (rounding, overflow, NaN inputs are outside the contracts unless a harness says so)',
          'index arithmetic is mathematical (no 32-bit wrap-around of sizes and strides)',
          'operator new succeeds; caller-supplied arrays do not overlap unless the contract says so']

def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p)).get('findings', [])

def main(argv):
    if not argv: print(__doc__ or 'usage: check <property>'); return 2
    if argv[0] == 'replay': return replay(argv[1])
    pid = argv[0]
    only = None
    tier = os.environ.get('VERIF_TIER', 'quick')
    verbose = '-v' in argv
    if '--only' in argv: only = argv[argv.index('--only') + 1].split(',')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    if '--native' in argv: return native_all(pid, only)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return check(pid, tier, seed, only, verbose)

def check(pid, tier, seed, only=None, verbose=False):
    t0 = time.time()
    total = 600 if tier == 'quick' else 6000
    kn = [k for k in known() if k['property'] == pid]
    soft = {h.name for h in fw.load_spec(pid).hs if h.soft}
    def exhausted(r):
        return r['error'] and not r['fails'] and re.search('too many paths|timeout|Blowup|budget', r['error'])
    def isbad(r):
        if r['name'] in soft and exhausted(r): return False
        if r['error']: return True
        return any(not any(re.fullmatch(k['harness'], r['name']) and re.search(k['obligation'], f['obligation']) for k in kn) for f in r['fails'])
    spec, results, stats = fw.run_all(pid, tier, only, total=total, isbad=None if verbose else isbad, grace=40 if tier == 'quick' else 200)
    standin(spec, results, seed, exhausted)
    hit = {}
    bad = []
    for r in results:
        keep = []
        for f in r['fails']:
            m = None
            for k in kn:
                if re.fullmatch(k['harness'], r['name']) and re.search(k['obligation'], f['obligation']): m = k; break
            if m is not None: hit.setdefault(id(m), (m, []))[1].append('%s/%s' % (r['name'], f['obligation']))
            else: keep.append(f)
        r['known'] = len(r['fails']) - len(keep)
        r['fails'] = keep
        if r['error'] and not keep:
            r['fails'] = keep = [dict(harness=r['name'], obligation='verification conditions of harness %s are generated and decided' % r['name'], kind='generation', note=r['error'], where='', path=[], env=None)]
        if keep: bad.append(r)
    rc = 0
    lines = []
    for m, obs in hit.values():
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, m['what']))
    replay_path = None
    if bad:
        rc = 1
        replay_path, found = explain(spec, pid, bad, seed, 150 if tier == 'quick' else 400)
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, replay_path, '' if found else ' no-failing-input-found'))
    nob = sum(r['obligations'] - r['known'] for r in results if r['kind'] != 'bounded')
    ndis = sum(r['discharged'] for r in results if r['kind'] != 'bounded')
    bn = sum(r['obligations'] - r['known'] for r in results if r['kind'] == 'bounded')
    bd = sum(r['discharged'] for r in results if r['kind'] == 'bounded')
    by = {}
    funcs = set()
    for r in results:
        for k, v in r['by'].items(): by[k] = by.get(k, 0) + v
        funcs |= set(r['functions'])
    from .exe import demangle
    fl = sorted(set(x for x in demangle(sorted(funcs)) if 'TooN' in x))
    short = sorted(set(re.sub(r'\[abi:\w+\]', '', re.split(r'\(', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', x)))))[0].split(' ')[-1]) for x in fl))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=len(bad),
              assumptions=ASSUME + spec.assumptions,
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd='./check %s' % pid, trusted_base=TRUSTED + spec.trusted,
                            bounded_obligations=bn, bounded_discharged=bd, known_findings=[x for _, obs in hit.values() for x in obs],
                            harnesses=len(results), harness_kinds={k: sum(1 for r in results if r['kind'] == k) for k in ('static', 'unbounded', 'bounded')},
                            discharged_by=by, solver=dict((k, round(v, 2) if isinstance(v, float) else v) for k, v in stats.items()),
                            instantiations_under_contract=len(fl), functions_under_contract=short[:400],
                            paths=sum(r['paths'] for r in results), abort_paths=sum(r['aborts'] for r in results),
                            loops_cut=sum((r.get('loops') or {}).get('cut', 0) for r in results),
                            per_harness=[dict(name=r['name'], kind=r['kind'], what=r['what'], obligations=r['obligations'], discharged=r['discharged'], paths=r['paths'], seconds=round(r['time'], 2), **({'bounded_stand_in': r['fallback']} if r.get('fallback') else {})) for r in results],
                            samples=[s for r in results for s in ['%s: %s' % (r['name'], x) for x in r['samples'][:1]]][:12]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if only is None:
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % pid)
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    for r in results:
        if r.get('fallback'): print('BOUNDED STAND-IN %s: %s' % (r['name'], r['fallback'][:300]))
        if verbose or r['fails']:
            print('%-28s %-9s obligations %d/%d known %d paths %d aborts %d %.1fs%s' % (r['name'], r['kind'], r['discharged'], r['obligations'], r['known'], r['paths'], r['aborts'], r['time'], ' ERROR ' + r['error'][:600] if r['error'] else ''))
            for f in r['fails'][:10 if verbose else 4]:
                print('   FAILED %s [%s] %s %s' % (f['obligation'][:200], f['kind'], f['note'][:300], f['where'][:160]))
                if verbose and f['path']: print('        path: ' + '; '.join(f['path'])[:700])
    print('%s: %d/%d obligations discharged in %d harnesses (%d bounded: %d/%d), %d functions, %.1fs, z3 %d queries %.1fs, normal form %d queries %.1fs' % (
        pid, ndis, nob, len(results), sum(1 for r in results if r['kind'] == 'bounded'), bd, bn, len(short), time.time() - t0, stats.get('z3_queries', 0), stats.get('z3_time', 0), stats.get('norm_queries', 0), stats.get('norm_time', 0)))
    for l in lines: print(l)
    sys.stdout.flush()
    return rc

def standin(spec, results, seed, exhausted):
    """harnesses marked soft (the largest sizes of a contract that smaller sizes cover too) whose conditions the
    engine could not enumerate: sample the real code instead; labelled bounded, never counted as proved"""
    hs = {h.name: h for h in spec.hs}
    todo = [r for r in results if hs[r['name']].soft and exhausted(r) and hs[r['name']].native]
    t0 = time.time()
    for k, r in enumerate(todo):
        left = 200 - (time.time() - t0)
        if left < 8: break
        d = tempfile.mkdtemp(prefix='toonvc-n-')
        try:
            secs = min(20, left / (len(todo) - k))
            if native.search(spec, hs[r['name']], [], seed, secs, d) is None:
                r['fallback'] = '%s; the real code was run on random inputs for %d s instead and agreed with the contract' % (r['error'], secs)
                r['error'], r['kind'] = None, 'bounded'
        except Exception: pass
        finally: shutil.rmtree(d, ignore_errors=True)

def explain(spec, pid, bad, seed, secs):
    """write the replay file; look for a failing input of the real code"""
    rd = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    hs = {h.name: h for h in spec.hs}
    t0 = time.time()
    if os.environ.get("TOONVC_NONATIVE"): secs = 0
    order = sorted(bad, key=lambda r: (1 if r['error'] else 0, len(r['fails'])))
    found = None
    notes = []
    for r in order:
        h = hs[r['name']]
        if not h.native: continue
        left = secs - (time.time() - t0)
        if left < 5: break
        d = tempfile.mkdtemp(prefix='toonvc-n-')
        try:
            x = native.search(spec, h, r['fails'], seed, min(left, 45), d)
            if x: found = (r, x); break
        except native.NativeError as e: notes.append('%s: native build failed: %s' % (h.name, str(e)[:800]))
        except Exception: notes.append('%s: %s' % (h.name, traceback.format_exc()[-800:]))
        finally: shutil.rmtree(d, ignore_errors=True)
    r0 = found[0] if found else order[0]
    path = os.path.join(rd, '%s-%s.json' % (pid, r0['name']))
    doc = dict(property=pid, harness=r0['name'], failed_obligations=[f for r in bad for f in r['fails'][:12]], harness_source=spec.tu([hs[r0['name']]]),
               failing_input=found[1]['input'] if found else None, parameters=found[1]['env'] if found else None, violated=found[1]['violated'] if found else None, observed=found[1]['observed'] if found else None,
               search_notes=notes, how='./check replay ' + path)
    json.dump(doc, open(path, 'w'), indent=1, default=str)
    if found:
        print('failing input for %s: %s' % (r0['name'], json.dumps(found[1]['input'])[:600]))
        for v in found[1]['violated'][:4]: print('   ' + v)
    return path, bool(found)

def replay(path):
    doc = json.load(open(path))
    spec = fw.load_spec(doc['property'])
    h = next(x for x in spec.hs if x.name == doc['harness'])
    if doc['failing_input'] is None:
        for f in doc['failed_obligations']: print(json.dumps(f, indent=1))
        return check(doc['property'], 'quick', 1, [re.escape(h.name)], True)
    d = tempfile.mkdtemp(prefix='toonvc-n-')
    try:
        exe = native.build(spec, h, d)
        case = doc['failing_input']
        ints = {p.name: case[p.name] for p in h.params if isinstance(p, fw.IntParam)}
        init = fw.init_terms(h, ints)
        reals = {p.name: fw.rvar(p.name) for p in h.params if isinstance(p, fw.RealParam)}
        r = native.run_cases(exe, h, [case])[0]
        bad = native.check_case(h, (case, ints, doc.get('parameters') or {}, init, reals), r, native.tolerance(h))
        print(json.dumps(dict(input=case, observed=r, violated=bad), indent=1))
        return 1 if bad else 0
    finally: shutil.rmtree(d, ignore_errors=True)

def native_all(pid, only):
    """development aid: run the native search on every harness of a tree where the contracts are proved"""
    spec = fw.load_spec(pid)
    rc = 0
    for h in spec.hs:
        if only and not any(re.fullmatch(o, h.name) for o in only): continue
        if not h.native: print(h.name, 'not native'); continue
        d = tempfile.mkdtemp(prefix='toonvc-n-')
        try:
            x = native.search(spec, h, [], 1, 3, d)
            print(h.name, 'FOUND %s %s' % (x['violated'], x['input']) if x else 'ok')
            if x: rc = 1
        except Exception as e: print(h.name, 'error', str(e)[:500])
        finally: shutil.rmtree(d, ignore_errors=True)
    return rc
