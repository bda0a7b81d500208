#!/usr/bin/env python3
"""check.py PROPERTY            decide one property against /repo's current tree
   check.py --replay FILE       rebuild the real code and replay one recorded counterexample"""
import os, sys
VT = '/opt/veriftools/pyvenv/bin/python3'
if 'pyvenv' not in sys.prefix and os.path.exists(VT) and not os.environ.get('VF_REEXEC'):
    os.environ['VF_REEXEC'] = '1'
    os.execv(VT, [VT] + sys.argv)
import time, json, re, glob, shutil, tempfile, traceback, subprocess, multiprocessing as mp, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vf'))
sys.setrecursionlimit(20000)
import runner

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = 760.0 if TIER == 'quick' else 5400.0
PROOF = 420.0 if TIER == 'quick' else 2400.0
BMCB = 150.0 if TIER == 'quick' else 900.0
EVID = os.path.join(HERE, 'evidence')

def meta(src):
    """directives in a spec file: // vf-flags: ..   // vf-opt: harness k=v ..  // vf-assume: ..  // vf-bounded: harness text"""
    m = dict(flags=[], opts={}, assume=[], bounded={}, covers={})
    for sec in re.split(r'(?=VF_HARNESS\()', open(src).read())[1:]:
        depth, end = 0, len(sec)
        for g in re.finditer(r'[{}]', sec):     # the harness body only
            depth += 1 if g.group() == '{' else -1
            if depth == 0: end = g.end(); break
        m['covers'][re.match(r'VF_HARNESS\((\w+)', sec).group(1)] = re.findall(r'vf_cover\("([^"]*)"\)', sec[:end])
    for l in open(src):
        g = re.match(r'\s*//\s*vf-(\w+):\s*(.*)', l)
        if not g: continue
        k, v = g.groups()
        v = v.strip()
        if k == 'flags': m['flags'] += [x.replace('$REPO', runner.REPO) for x in v.split()]
        elif k == 'opt':
            h, *kv = v.split()
            d = m['opts'].setdefault(h, {})
            for e in kv:
                a, b = e.split('=')
                d[a] = json.loads(b) if re.match(r'^[\d.\[{t"f-]', b) else b
        elif k == 'assume': m['assume'].append(v)
        elif k == 'bounded':
            h, t = v.split(None, 1)
            m['bounded'][h] = t
    return m

def describe(inp, cap=48):
    out = []
    for e in inp or []:
        if e[0] in ('bytes', 'block'):
            n = min(e[2], cap)
            out.append('%s[%d]=%s%s' % (e[1], e[2], bytes(e[4].get(i, 0) for i in range(n)).hex(), '..' if e[2] > n else ''))
        else: out.append('%s=%d' % (e[1], e[2]))
    return ', '.join(out)

def repo_functions(ex, mod):
    out = {}
    for fn, n in ex.functions_executed.items():
        loc = ''
        try: loc = mod.fn_loc(fn) or ''
        except Exception: pass
        if '/asioext/' in loc and runner.REPO in loc:
            d = ex.short(fn)
            out[re.sub(r'\s+', ' ', d)] = loc.split(runner.REPO + '/')[-1]
    return out

def work(task, q):
    """one harness: proof; on failure hunt for an input that fails natively"""
    try: q.put(work1(task))
    except Exception: q.put(dict(h=task['h'], src=task['src'], status='error', err=traceback.format_exc()[-3000:], obl=0, done=0))
    q.close(); q.join_thread()
    os._exit(0)

def work1(task):
    h, src = task['h'], task['src']
    limit = task['limit']           # absolute time
    opts = dict(task['opts'])
    bounded = task['bounded']
    r = dict(h=h, src=src, status='proved', err=None, fails=[], confirmed=None, bounded=bounded)
    mod = runner.load(task['ir'])
    t = time.time()
    pb = max(10, min(PROOF, limit - t - 60))
    if bounded:
        ex, err = runner.run_bmc(mod, h, opts, pb, int(opts.get('unroll_bound', 6)), 0)
    else:
        ex, err = runner.run_proof(mod, h, opts, pb)
    r.update(obl=sum(o.n for o in ex.obl.values()), err=err, wall=time.time() - t, solver=ex.tq, queries=ex.nq, paths=ex.npaths,
             backends=dict(ex.backends), contracts=dict((ex.short(k), v) for k, v in ex.contracts_used.items()),
             funcs=repo_functions(ex, mod), loops=len(ex.loops_proved), loops_text=[str(x) for x in list(ex.loops_proved.items())[:20]],
             stubs=sorted(getattr(ex, 'stubs_used', ())), names=sorted('%s: %s' % k for k in ex.obl))
    r['done'] = r['obl'] - len(ex.failures)
    fails = list(ex.failures)
    for l in task['covers']: ex.covers.setdefault(l, False)
    missing = [l for l, v in ex.covers.items() if not v] if not err else []
    r['covers'] = dict(ex.covers)
    for f in fails[:12]:
        r['fails'].append(dict(kind=f.key[0], clause=f.info, fn=f.key[1], loc=str(f.loc), unknown=bool(f.unknown), approx=bool(f.in_loop)))
    for l in missing:
        r['fails'].append(dict(kind='vacuity', clause='behaviour "%s" became unreachable' % l, fn='', loc='', unknown=False, approx=False))
    if not fails and not missing and not err:
        if bounded: r['status'] = 'bounded'
        if r['obl'] == 0: r['status'] = 'error'; r['err'] = 'no obligations'
        return r
    # ---- hunt
    wd = tempfile.mkdtemp(prefix='vf_nat_')
    try:
        nat = runner.Native(src, task['flags'], wd)
        def attempt(exx, f, how):
            try: inp = runner.model_inputs(exx, f)
            except Exception: return False
            if inp is None: return False
            ok, out = nat.replay(h, inp, os.path.join(wd, 'in.txt'))
            r.setdefault('replays', []).append((how, str(f.info), ok, (out or '')[:200]))
            if ok:
                r['confirmed'] = dict(kind=f.key[0], clause=f.info, fn=f.key[1], loc=str(f.loc), inputs=describe(inp), how=how,
                                      raw=open(os.path.join(wd, 'in.txt')).read(), output=out)
            return ok
        order = sorted(fails, key=lambda f: (bool(f.in_loop), bool(f.unknown)))
        seen = {}
        for f in order:
            if f.unknown or f.in_loop: continue
            k = (f.key, f.info)
            seen[k] = seen.get(k, 0) + 1
            if seen[k] > 3: continue
            if time.time() > limit - 20: break
            if attempt(ex, f, 'model of the failed obligation'): r['status'] = 'violated'; return r
        near, ints = [], []
        for f in order[:6]:
            if time.time() > limit - 40: break
            try: inp = runner.model_inputs(ex, f)
            except Exception: inp = None
            if inp: near.append(inp)
        try: ints = runner.constants(ex, mod)
        except Exception: pass
        def search(secs, how):
            if limit - time.time() < secs + 20: return False
            path = os.path.join(wd, 'found.txt')
            hit, note = nat.fuzz(h, near, ints, path, secs, SEED)
            r.setdefault('search', []).append(note)
            if not hit: return False
            raw = open(path).read()
            ok, out = nat.replay_raw(h, raw, os.path.join(wd, 'in.txt'))
            r.setdefault('replays', []).append((how, '', ok, (out or '')[:200]))
            if not ok: return False
            f0 = next((x for x in r['fails']), dict(kind='', clause='', fn='', loc=''))
            r['confirmed'] = dict(kind=f0['kind'], clause=f0['clause'], fn=f0['fn'], loc=f0['loc'], inputs=describe(runner.read_inputs(raw)), how=how, raw=raw, output=out)
            return True
        definite = missing or any(not f.unknown for f in fails)
        if definite and search(20, 'search around the models of the failed obligations'): r['status'] = 'violated'; return r
        bmc_ok = False
        if not bounded:
            for unroll in (3, int(opts.get('unroll_bound', 8))):
                left = limit - time.time() - 15
                if left < 10: break
                b, berr = runner.run_bmc(mod, h, opts, min(BMCB, left), unroll, 4)
                r.setdefault('bmc', []).append((unroll, berr, len(b.failures)))
                for f in b.failures:
                    if time.time() > limit - 5: break
                    try: near.append(runner.model_inputs(b, f))
                    except Exception: pass
                    if near and near[-1] is None: near.pop()
                    if attempt(b, f, 'bounded search, %d iterations' % unroll): r['status'] = 'violated'; return r
                bmc_ok = berr is None and not b.failures
                r['bmc_obl'] = sum(o.n for o in b.obl.values())
        if bounded:
            r['status'] = 'failed' if fails or missing else 'error'
            return r
        if definite and search(40, 'search around the models of the failed obligations'): r['status'] = 'violated'; return r
        if definite: r['status'] = 'failed'
        elif bmc_ok: r['status'] = 'bounded'; r['bounded'] = 'proof incomplete (%s); bounded check, 8 iterations per loop' % (err or 'solver gave no answer')
        else: r['status'] = 'failed'
        if err and not r['fails']:
            r['fails'].append(dict(kind='verifier', clause='proof not completed: ' + err, fn='', loc='', unknown=True, approx=False))
        return r
    finally:
        shutil.rmtree(wd, ignore_errors=True)

def compile_unit(a):
    src, out, flags = a
    try:
        runner.compile_ir(src, out, flags)
        mod = runner.load(out)
        return (src, runner.harnesses(mod), None)
    except Exception as e:
        return (src, [], str(e)[-3000:])

def main(pid, only=None):
    specs = sorted(glob.glob(os.path.join(HERE, 'specs', pid, '*.cpp')))
    if not specs: print('no such property'); return 2
    os.makedirs(EVID, exist_ok=True)
    for f in glob.glob(os.path.join(EVID, 'replay_%s_*' % pid)): os.unlink(f)
    work_dir = tempfile.mkdtemp(prefix='vf_' + pid + '_')
    try: return main1(pid, specs, work_dir, only)
    finally: shutil.rmtree(work_dir, ignore_errors=True)

def main1(pid, specs, wd, only):
    metas = {s: meta(s) for s in specs}
    irs = {s: os.path.join(wd, os.path.basename(s) + '.ll') for s in specs}
    with mp.Pool(min(8, len(specs))) as p:
        comp = p.map(compile_unit, [(s, irs[s], metas[s]['flags']) for s in specs])
    tasks = []
    for s, hs, err in comp:
        if err:
            print('ERROR: %s does not compile against %s\n%s' % (s, runner.REPO, err)); return 2
        m = metas[s]
        for h in hs:
            if only and h not in only: continue
            o = dict(m['opts'].get('*', {})); o.update(m['opts'].get(h, {}))
            if TIER == 'quick' and o.get('tier') == 'thorough': continue
            tasks.append(dict(src=s, h=h, ir=irs[s], flags=m['flags'], opts=o, bounded=m['bounded'].get(h), covers=m['covers'].get(h, []), limit=T0 + BUDGET, prio=o.get('prio', 0)))
    if not tasks: print('ERROR: no harness'); return 2
    tasks.sort(key=lambda t: -t['prio'])
    results = []
    running = []
    pend = list(tasks)
    while pend or running:
        while pend and len(running) < 8:
            t = pend.pop(0)
            q = mp.Queue()
            p = mp.Process(target=work, args=(t, q))
            p.start()
            running.append((p, q, t))
        nxt = []
        for p, q, t in running:
            try:
                res = q.get(timeout=0.02)
                results.append(res)
                p.join(5)
                if p.is_alive(): p.kill()
                continue
            except Exception: pass
            if not p.is_alive():
                try: results.append(q.get(timeout=1))
                except Exception: results.append(dict(h=t['h'], src=t['src'], status='error', err='worker ended (memory?)', obl=0, done=0, fails=[]))
                continue
            if time.time() > T0 + BUDGET + 40:
                p.kill()
                results.append(dict(h=t['h'], src=t['src'], status='error', err='time limit', obl=0, done=0, fails=[]))
                continue
            nxt.append((p, q, t))
        running = nxt
    return report(pid, results, metas, only)

def report(pid, results, metas, only):
    results.sort(key=lambda r: (r['src'], r['h']))
    bad = [r for r in results if r['status'] in ('violated', 'failed')]
    errs = [r for r in results if r['status'] == 'error']
    obl = sum(r['obl'] for r in results if not r.get('bounded'))
    done = sum(r['done'] for r in results if not r.get('bounded'))
    funcs = {}
    be = {}
    contracts = {}
    for r in results:
        funcs.update(r.get('funcs', {}))
        for k, v in (r.get('backends') or {}).items(): be[k] = be.get(k, 0) + v
        contracts.update(r.get('contracts') or {})
    bounded = [dict(harness=r['h'], bound=r['bounded'], checked=r['obl']) for r in results if r.get('bounded')]
    assume = []
    for s, m in metas.items():
        for a in m['assume']:
            if a not in assume: assume.append(a)
    ev = dict(property=pid, tier=TIER, seed=SEED, level='proof' if obl else 'other', wall_s=round(time.time() - T0, 2), violations=len(bad),
              assumptions=assume + COMMON_ASSUME,
              coverage=dict(obligations=obl, discharged=done, checker_cmd='python3 check.py ' + pid,
                            explanation='deductive verification: every path of every harness, loops cut by inferred inductive invariants, callee contracts where listed',
                            trusted_base=TRUSTED, harnesses=[dict(name=r['h'], spec=os.path.relpath(r['src'], HERE), status=r['status'], obligations=r['obl'],
                            discharged=r['done'], paths=r.get('paths'), queries=r.get('queries'), solver_s=round(r.get('solver') or 0, 2),
                            wall_s=round(r.get('wall') or 0, 2), loops_with_invariants=r.get('loops'), covers=r.get('covers'), note=r.get('err')) for r in results],
                            functions_under_contract=[k + '  @' + v for k, v in sorted(funcs.items())],
                            contracts_assumed_at_calls=sorted(contracts), backends=be,
                            solver_s=round(sum(r.get('solver') or 0 for r in results), 2), bounded=bounded,
                            clauses=sorted({n for r in results for n in r.get('names', ()) if n.startswith(('ensures', 'requires', 'contract'))})))
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for r in results:
        print('%-10s %-34s obligations %5d discharged %5d paths %s solver %.1fs wall %.1fs%s' % (r['status'], r['h'], r['obl'], r['done'], r.get('paths'),
              r.get('solver') or 0, r.get('wall') or 0, '  [%s]' % r['err'][-300:] if r.get('err') else ''))
    rc = 0
    n = 0
    bad.sort(key=lambda r: r['status'] != 'violated')
    for r in bad:
        n += 1
        path = os.path.join(EVID, 'replay_%s_%d.txt' % (pid, n))
        c = r['confirmed']
        with open(path, 'w') as f:
            f.write('property: %s\nspec: %s\nharness: %s\n' % (pid, os.path.relpath(r['src'], HERE), r['h']))
            if c:
                f.write('failed obligation: %s: %s\nin: %s\nat: %s\nfound by: %s\ninputs: %s\n' % (c['kind'], c['clause'], c['fn'], c['loc'], c['how'], c['inputs']))
                f.write('re-run: python3 check.py --replay %s\n--- input file\n%s--- native run of the real code\n%s\n' % (path, c['raw'], c['output']))
            f.write('--- verifier output\n')
            for x in r['fails']: f.write('%s\n' % x)
            f.write('verifier status: %s\nhunt: %s %s\n' % (r.get('err'), (r.get('bmc'), r.get('search')), r.get('replays')))
        x = c or (r['fails'][0] if r['fails'] else {})
        print('  failed obligation: %s: %s (%s) %s' % (x.get('kind'), x.get('clause'), x.get('loc'), c['inputs'] if c else ''))
    if bad:
        conf = [r for r in bad if r['confirmed']]
        for i, r in enumerate(bad):
            if conf and not r['confirmed']: continue
            print('VIOLATION property=%s replay=%s%s' % (pid, os.path.join(EVID, 'replay_%s_%d.txt' % (pid, i + 1)), '' if r['confirmed'] else ' no-failing-input-found'))
        return 1
    if errs:
        return 2
    return 0

TRUSTED = ['clang 18 front end (C++ to LLVM IR at -O1 -disable-llvm-passes, then opt -passes=sroa)', 'vf: the LLVM-IR verification-condition generator in /verif/vf',
           'z3 5.3 / z3 4.8.12 / cvc5 1.1.2', 'the contracts written for external functions (listed under assumptions)', 'the harness specifications in /verif/specs']
COMMON_ASSUME = ['machine integers are bit-exact (no mathematical-integer approximation)', 'libstdc++ templates are verified as compiled, extern templates disabled; memcpy/memmove/memset/strlen/memcmp have their C meaning',
                 'the C++ runtime (unwinding, operator new/delete, RTTI matching) behaves as the ABI says; allocation never fails unless a harness says so',
                 'sequentially executed: no other thread touches the objects of a harness unless it models it', 'objects are at most 2^62 bytes']

def replay(path):
    t = open(path).read()
    g = lambda k: re.search('^%s: (.*)$' % k, t, re.M).group(1)
    src = os.path.join(HERE, g('spec'))
    m = meta(src)
    raw = t.split('--- input file\n')[1].split('--- native run')[0]
    wd = tempfile.mkdtemp(prefix='vf_nat_')
    try:
        nat = runner.Native(src, m['flags'], wd)
        ok, out = nat.replay_raw(g('harness'), raw, os.path.join(wd, 'in.txt'))
        print(out)
        print('violation reproduced' if ok else 'not reproduced')
        return 1 if ok else 0
    finally: shutil.rmtree(wd, ignore_errors=True)

if __name__ == '__main__':
    if len(sys.argv) == 2 and sys.argv[1] == '--setup':
        import z3
        os.makedirs(EVID, exist_ok=True)
        for tool in ('clang++', 'opt', 'z3', 'cvc5'): assert shutil.which(tool), tool
        print('vf ready: z3', z3.get_version_string()); sys.exit(0)
    if len(sys.argv) > 2 and sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2:] or None))
