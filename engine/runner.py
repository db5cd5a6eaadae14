"""Runs the symbolic checks of one property: compile harness -> IR, execute entries in parallel, replay, report."""
import os, sys, json, time, subprocess, hashlib, tempfile, shutil, itertools, re, traceback
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.setrecursionlimit(20000)
sys.path.insert(0, HERE)
CLANG = ['clang++', '-std=gnu++17', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-S', '-emit-llvm', '-w', '-fno-inline', '-Wno-everything']

def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)

def compile_ir(work, harness, flags):
    tag = hashlib.md5((harness + ' '.join(flags)).encode()).hexdigest()[:8]
    ll = os.path.join(work, '%s.%s.ll' % (harness, tag))
    src = os.path.join(VERIF, 'harness', harness + '.cpp')
    fl = [f for f in flags if not f.startswith('-std=')] ; std = [f for f in flags if f.startswith('-std=')]
    cmd = [c for c in CLANG if not (std and c.startswith('-std='))] + std + fl + ['-I' + REPO + '/include', '-I' + os.path.join(VERIF, 'harness'), src, '-o', ll + '.0']
    r = sh(cmd)
    if r.returncode: return None, r.stdout
    r = sh(['opt', '-S', '-passes=sroa', ll + '.0', '-o', ll])
    if r.returncode: return None, r.stdout
    os.unlink(ll + '.0')
    return ll, ''

_mods = {}
def load_module(ll):
    import irparse
    if ll not in _mods: _mods.clear(); _mods[ll] = irparse.Module(open(ll).read())
    return _mods[ll]

def static_labels(m, entry):
    """labels of vp_check/vp_near and vp_reach statically reachable from entry"""
    from irparse import Glob
    seen = set(); todo = [entry]; labs = set(); reach = set()
    while todo:
        f = m.funcs.get(todo.pop())
        if f is None or f.name in seen or f.src is None: continue
        seen.add(f.name)
        for l in f.src:
            for g in re.findall(r'@("[^"]*"|[-\w$.]+)', l):
                g = g.strip('"')
                if g in m.funcs and g not in seen: todo.append(g)
            for fn, out in (('@vp_check(', labs), ('@vp_near(', labs), ('@vp_reach(', reach)):
                if fn in l:
                    gs = re.findall(r'ptr noundef @([-\w$.]+)', l)
                    if gs:
                        g = m.globals.get(gs[-1])
                        if g is not None and hasattr(g.init, 'a') and isinstance(g.init.a[0], bytes): out.add(g.init.a[0].rstrip(b'\0').decode())
    return labs, reach

def run_task(t):
    """one (entry, forced picks) exploration in a worker process"""
    import symex, reals
    t0 = time.time()
    out = dict(entry=t['entry'], forced=t['forced'], violations=[], error=None)
    st = symex.Stats()
    try:
        reals.reset()
        import random; random.seed(t['seed'])
        import z3; z3.set_param('smt.random_seed', t['seed']); z3.set_param('sat.random_seed', t['seed'])
        m = load_module(t['ll'])
        if t['entry'] not in m.funcs: raise Exception('entry %s not in module' % t['entry'])
        ex = symex.Exec(m, st, timeout_ms=t['qto'] * 1000, deadline=t0 + t['budget'], max_steps=60000000 if any('ORD0' in f for f in t.get('flags', [])) else 3000000)
        if t.get('lia'): ex.solver.use_lia()
        labs, reach = static_labels(m, t['entry'])
        out['static'] = sorted(labs); out['static_reach'] = sorted(reach)
        ex.run(t['entry'], t['forced'])
        out['violations'] = ex.violations
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, e); out['trace'] = traceback.format_exc()[-1500:]
    out.update(queries=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown, qtime=st.time, maxq=st.maxq, checks=st.checks, discharged=st.discharged, trivial=st.trivial,
               paths=st.paths, instrs=st.instrs, forks=st.forks, funcs=sorted(st.funcs), labels=st.labels, reach=st.reach, incon=st.incon[:20], nincon=len(st.incon), samples=st.samples, wall=time.time() - t0)
    return out

def replay(work, harness, flags, entry, v, idx, prop, keep=True):
    """compile the harness natively and run it on the counterexample; returns (reproduced, text, path)"""
    rdir = os.path.join(VERIF, 'replay', prop); os.makedirs(rdir, exist_ok=True)
    inp = os.path.join(rdir, '%s-%d.in' % (entry, idx))
    with open(inp, 'w') as f:
        for name, k, val in v['inputs']:
            f.write('%s %s %s\n' % (name.replace(' ', '_') or '_', k, repr(val) if isinstance(val, float) else val))
    res = []; wrap = os.path.join(work, 'replay.%s.%s.cpp' % (harness, entry))
    open(wrap, 'w').write('#include "%s.cpp"\nextern "C" void vp_replay_main() { %s(); }\n' % (harness, entry))
    for mode, opts in (('san', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']), ('rel', ['-O2'])):
        exe = os.path.join(work, '%s.%s.%s' % (harness, entry, mode) + hashlib.md5(' '.join(flags).encode()).hexdigest()[:6])
        if not os.path.exists(exe):
            cmd = ['g++', '-std=gnu++17', '-g', '-w', '-ffp-contract=off'] + opts + flags + ['-DVP_REPLAY_ENTRY=' + entry, '-I' + REPO + '/include', '-I' + os.path.join(VERIF, 'harness'),
                   wrap, os.path.join(VERIF, 'harness', 'replay.cpp'), '-o', exe]
            r = sh(cmd)
            if r.returncode: res.append((mode, 'compile', r.stdout[-3000:])); continue
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
        try: r = sh([exe, inp], timeout=20, env=env); res.append((mode, r.returncode, r.stdout[-1500:]))
        except subprocess.TimeoutExpired: res.append((mode, 'timeout', 'no termination within 20 s'))
        if res[-1][1] not in (0, 43, 44, 45, 46): break
    rep = any(code not in (0, 43, 44, 45, 46, 'compile') for _, code, _ in res)
    txt = os.path.join(rdir, '%s-%d.txt' % (entry, idx))
    with open(txt, 'w') as f:
        f.write('property %s, harness %s.cpp, entry %s\nviolated: [%s] %s\ninputs (in call order): see %s\n' % (prop, harness, entry, v['kind'], v['label'], os.path.basename(inp)))
        for name, k, val in v['inputs']: f.write('  %s (%s) = %s\n' % (name, k, val))
        for mode, code, o in res: f.write('--- native run (%s build): exit %s\n%s\n' % (mode, code, o))
        f.write('re-run: echo \'#include "%s.cpp"\nextern "C" void vp_replay_main() { %s(); }\' > w.cpp; g++ -std=gnu++17 -g -fsanitize=address,undefined %s -DVP_REPLAY_ENTRY=%s -I%s/include -I%s/harness w.cpp %s/harness/replay.cpp && ./a.out %s\n' % (harness, entry, ' '.join(flags), entry, REPO, VERIF, VERIF, inp))
    return rep, res, txt

# harnesses that use only the documented interface: if the host compiler rejects one, the interface itself was broken
PUBLIC_API = {'circular', 'varint', 'function', 'misc', 'cmath', 'design', 'run', 'stream', 'types'}

def demangle(names):
    try: return subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    except Exception: return list(names)

def main(prop, tier, seed):
    import checks
    t0 = time.time()
    cfg = checks.CHECKS[prop]
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try: return run_prop(prop, tier, seed, cfg, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def no_answer(t): return dict(entry=t['entry'], forced=t['forced'], violations=[], error='task exceeded the time budget', queries=0, unsat=0, sat=0, unknown=0, qtime=0, maxq=0, checks=0, discharged=0, trivial=0, paths=0, instrs=0, forks=0, funcs=[], labels={}, reach={}, incon=[], nincon=0, samples=[], wall=0, static=[], static_reach=[])

def run_prop(prop, tier, seed, cfg, work, t0):
    known = load_known(prop)
    shutil.rmtree(os.path.join(VERIF, 'replay', prop), ignore_errors=True)
    tasks = []; irs = {}; compile_errors = []
    total = cfg.get('budget', {}).get(tier, 500 if tier == 'quick' else 780)
    specs = [e for e in cfg['entries'] if tier == 'thorough' or not e.get('thorough_only')]
    need = []
    for e in specs:
        key = (e['harness'], tuple(e.get('flags', [])))
        if key not in need: need.append(key)
    rpool = mp.get_context('fork').Pool(1)      # native replays run in a process of their own
    pool = mp.get_context('fork').Pool(min(8, os.cpu_count() or 4), maxtasksperchild=1)
    try:
        rs = {k: pool.apply_async(compile_ir, (work, k[0], list(k[1]))) for k in need}
        for k, r in rs.items():
            ll, err = r.get()
            irs[k] = ll
            if ll is None: compile_errors.append((k, err))
        violations = []; notes = []
        viol_lines = []
        for (k, err) in compile_errors:
            # does the real compiler reject it too?
            # (in a worker: a pipe opened in this process could be inherited by a worker forked meanwhile and never see EOF)
            r = pool.apply_async(sh, (['g++', '-std=gnu++17', '-w', '-fsyntax-only'] + list(k[1]) + ['-I' + REPO + '/include', '-I' + VERIF + '/harness', VERIF + '/harness/' + k[0] + '.cpp'],)).get(200)
            rdir = os.path.join(VERIF, 'replay', prop); os.makedirs(rdir, exist_ok=True); p = os.path.join(rdir, 'compile-%s.txt' % k[0])
            open(p, 'w').write('harness %s.cpp uses only the documented interface but no longer compiles\n%s\n%s' % (k[0], r.stdout[-4000:], err[-4000:]))
            if r.returncode and k[0] in PUBLIC_API and '-DVP_DETAIL' not in k[1] and '-DVP_RING' not in k[1] and not any(x.startswith('-std=') for x in k[1]):
                viol_lines.append(p); notes.append('interface use no longer compiles: ' + r.stdout.strip().split('\n')[0][:300])
            else: notes.append('INCONCLUSIVE harness %s does not compile: %s' % (k[0], err.strip().split('\n')[0][:300]))
        for e in specs:
            key = (e['harness'], tuple(e.get('flags', [])))
            if irs[key] is None: continue
            shards = e.get('shards_thorough') if tier == 'thorough' and 'shards_thorough' in e else e.get('shards')
            forced = [{}]
            if shards:
                ks = list(shards); forced = [dict(zip(ks, vals)) for vals in itertools.product(*[shards[k] for k in ks])]
            for f in forced:
                # the first few shards of every entry run before the long ones: most changes already show there
                probe = not any('ORD0' in x for x in e.get('flags', [])) and sum(list(shards[k]).index(v) for k, v in f.items()) <= 2
                tasks.append(dict(ll=irs[key], entry=e['entry'], forced=f, probe=probe, seed=seed, harness=e['harness'], flags=e.get('flags', []), cost=e.get('cost', 1), lia=e.get('lia', e['harness'] == 'circular'),
                                  qto=e.get('qto', {}).get(tier, 20 if tier == 'quick' else 120), budget=e.get('budget', {}).get(tier, total)))
        tasks.sort(key=lambda t: (not t['probe'], -t['cost']))
        res = [(t, pool.apply_async(run_task, (t,))) for t in tasks]
        outs = []; confirmed = []; unconfirmed = {}; tried = {}; idx = 0; stopped = False
        hard = t0 + total + 30; pending = res
        while pending and not stopped:
            done = [(t, r) for t, r in pending if r.ready()]; pending = [(t, r) for t, r in pending if not any(r is d for _, d in done)] if done else pending
            for t, r in done:
                o = r.get(); outs.append((t, o))
                for v in o['violations']:
                    # a counterexample counts only if the natively compiled harness reproduces it; at most four attempts per label
                    key = (t['entry'], v['kind'], v['label'])
                    if any(k == key for k, _, _ in confirmed) or tried.get(key, 0) >= 4: continue
                    tried[key] = tried.get(key, 0) + 1; idx += 1
                    rep, rr, path = rpool.apply_async(replay, (work, t['harness'], t['flags'], t['entry'], v, idx, prop)).get(600)
                    if rep: confirmed.append((key, v, path)); unconfirmed.pop(key, None)
                    else: unconfirmed[key] = (v, path)
                    if rep and not any(kf.get('entry') == key[0] and kf.get('label') == key[2] for kf in known): stopped = True; break
                if stopped: break
            if not done:
                if time.time() > hard: break
                time.sleep(0.05)
        if not stopped:
            outs += [(t, no_answer(t)) for t, r in pending]
        unconfirmed = [(k, v, p) for k, (v, p) in unconfirmed.items()]
    finally:
        pool.terminate(); rpool.terminate(); pool.join(); rpool.join()
    if stopped: notes.append('stopped at the first confirmed violation; %d of %d tasks finished' % (len(outs), len(tasks)))
    nviol = 0; status = 0
    for p in viol_lines:
        print('VIOLATION property=%s replay=%s' % (prop, p)); nviol += 1; status = 1
    for (entry, kind, label), v, path in confirmed:
        kf = next((k for k in known if k.get('entry') == entry and k.get('label') == label), None)
        if kf: print('KNOWN-FINDING: property=%s %s' % (prop, kf['what'])); continue
        print('violated in %s: [%s] %s' % (entry, kind, label))
        print('VIOLATION property=%s replay=%s' % (prop, path)); nviol += 1; status = 1
    for key, v, path in unconfirmed: notes.append('INCONCLUSIVE counterexample for %s did not reproduce natively (encoding error): %s' % (key, path))
    S = lambda k: sum(o[k] for t, o in outs)
    labels = {}; reach = {}; static = {}; sreach = {}
    for t, o in outs:
        for l, n in o['labels'].items(): labels[l] = labels.get(l, 0) + n
        for l, n in o['reach'].items(): reach[l] = reach.get(l, 0) + n
        for l in o.get('static', []): static.setdefault(l, t['entry'])
        for l in o.get('static_reach', []): sreach.setdefault(l, t['entry'])
        if o['error']: notes.append('INCONCLUSIVE %s %s: %s' % (o['entry'], o['forced'] or '', o['error']))
        for i in o['incon'][:3]: notes.append('INCONCLUSIVE %s %s: %s' % (o['entry'], o['forced'] or '', i))
    vac = [l for l in static if l not in labels] + ['reach:' + l for l in sreach if l not in reach]
    if vac and not confirmed and not nviol: notes.append('VACUOUS never evaluated: ' + '; '.join(vac[:8]))
    for n in notes[:40]: print(n)
    funcs = set()
    for t, o in outs: funcs |= set(o['funcs'])
    dm = [d for d in demangle(sorted(funcs)) if 'embedded::' in d]
    hdrs = dm[:60]
    exp = dict(
        explanation='Symbolic execution of the LLVM IR compiled from %s/include on this run; every vp_check is a solver query over all input values on its path (bounds below). discharged = checks proved (unsat or reduced to true on a path); a violation needs a native replay.' % REPO,
        entries=[t['entry'] + (str(t['forced']) if t['forced'] else '') for t, o in outs][:200], tasks=len(outs), bounds=cfg['bounds'],
        functions_encoded=len(dm), functions_sample=hdrs, queries_discharged=S('queries'), queries_unsat=S('unsat'), queries_sat=S('sat'), queries_unknown=S('unknown'),
        solver_seconds=round(S('qtime'), 2), longest_query_s=round(max([o['maxq'] for t, o in outs] or [0]), 2), check_instances=S('checks'), checks_proved=S('discharged'), checks_proved_by_simplification=S('trivial'),
        check_labels=labels, paths=S('paths'), forks=S('forks'), ir_instructions=S('instrs'), reachability=reach, inconclusive=len([n for n in notes if 'INCONCLUSIVE' in n or 'VACUOUS' in n]), notes=notes[:40],
        samples=[s for t, o in outs for s in o['samples'][:1]][:6], slowest=[(o['entry'], str(o['forced']), round(o['wall'], 1)) for t, o in sorted(outs, key=lambda x: -x[1]['wall'])[:5]])
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=exp, assumptions=cfg.get('assumptions', []) + ENGINE_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=nviol)
    if cfg.get('level') == 'model_checking': 
        ev['level'] = 'model_checking'
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d tasks, %d paths, %d checks (%d proved), %d queries, solver %.1fs, wall %.1fs%s' % (prop, tier, len(outs), S('paths'), S('checks'), S('discharged'), S('queries'), S('qtime'), time.time() - t0, ', INCONCLUSIVE' if notes else ''))
    if not status and S('paths') == 0: print('no path completed'); return 2
    return status

ENGINE_ASSUMPTIONS = ['clang 18 front end at -O0 (with sroa) gives the meaning of the headers that the g++ build gives', 'heap allocation succeeds', 'the models of libc/libstdc++/C++ ABI functions in engine/models.py']

def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop: out.append(d)
    return out

if __name__ == '__main__':
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    a = sys.argv[1:]
    if len(a) > 1: tier = a[1]
    sys.exit(main(a[0], tier, seed))
