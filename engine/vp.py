#!/usr/bin/env python3
"""Driver: vp.py PROPERTY [--tier quick|thorough] [--test NAME] [--keep]
Builds /repo's tree + harness/PROPERTY.cpp to LLVM IR, explores every test of the harness symbolically, discharges the
assertions with z3, replays counterexamples natively, writes evidence/PROPERTY.json."""
import argparse, queue, json, math, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

QUICK_S = 600    # the quick tier stops exploring after this time (a check has 900 s)

def parse_harness(path):
    """//@ lines: 'mode fp|real' (default of the tests that follow), 'bound TEXT', 'assume TEXT', 'budget SECONDS',
    'nofind' ; tests in order"""
    cfg = dict(tests=[], bounds=[], assumptions=[], flags=[])
    mode = 'real'; budget = 300; tier = 'quick'; steps = 40_000_000; opts = {}
    for l in open(path):
        m = re.match(r'\s*//@\s*(\w+)\s*(.*)', l)
        if m:
            k, v = m.group(1), m.group(2).strip()
            if k == 'mode': mode = v
            elif k == 'budget': budget = float(v)
            elif k == 'bound': cfg['bounds'].append(v)
            elif k == 'assume': cfg['assumptions'].append(v)
            elif k == 'tier': tier = v
            elif k == 'steps': steps = int(v)
            elif k == 'opt':
                a, b = v.split(); opts[a] = b
        m = re.match(r'\s*VP_TEST\((\w+)\)', l)
        if m: cfg['tests'].append(dict(name=m.group(1), mode=mode, budget=budget, tier=tier, steps=steps, opts=dict(opts)))
    return cfg

def work(mod, t, tier, q, stop):
    if hasattr(sys, 'set_int_max_str_digits'): sys.set_int_max_str_digits(0)
    import symex, reals
    res = dict(name=t['name'], mode=t['mode'], findings=[], error=None)
    try:
        E = symex.Engine(mod, t['mode'])
        E.tier = 1 if tier == 'thorough' else 0
        E.limit = t['steps']
        o = t['opts']
        if 'assert_timeout' in o: E.assert_timeout = int(o['assert_timeout'])
        if 'absvar' in o: E.absvar = o['absvar'] == '1'
        if 'round' in o: E.rnd = o['round'] == '1'
        if 'feas_timeout' in o: E.feas_timeout = int(o['feas_timeout'])
        paths = []
        seen = [0]
        def on_path(E, outcome):
            seen[0] += 1
            if outcome == 'ok' and len(paths) < 8:
                r, m = E.check([], timeout=3000)
                if m is not None:
                    paths.append(E.model_values(m))
        E.on_finding = lambda f: q.put(dict(name=t['name'], partial=f))
        E.run('vp_test_' + t['name'], on_path=on_path, budget=max(5, min(t['budget'] * (4 if tier == 'thorough' else 1), stop - time.time())))
        res.update(findings=E.findings, stats=E.stats, asserts=E.assert_ids, reach=E.reach, undecided=E.undecided, complete=E.complete,
                   unsupported=E.unsupported, paths=paths, functions=sorted({E.dem.get(n, n) for n in E.executed}),
                   fps=sorted(E.executed))
    except BaseException as e:
        res['error'] = ''.join(traceback.format_exception(e))[-6000:]
    q.put(res)

def run_tests(mod, tests, tier, t0, confirm, jobs=8):
    """symbolic execution of the tests in parallel processes; in the quick tier everything ends QUICK_S seconds after t0.
    confirm(test name, finding) replays a finding; once one is confirmed the verdict is known and exploration stops"""
    ctx = mp.get_context('fork')
    pend = list(tests); live = {}; out = {}; partial = {}
    q = ctx.Queue()
    stop = t0 + (QUICK_S if tier == 'quick' else 6 * 3600)
    found = [False]
    def take(timeout):
        r = q.get(timeout=timeout) if timeout else q.get_nowait()
        if 'partial' in r:
            partial.setdefault(r['name'], []).append(r['partial'])
            if confirm(r['name'], r['partial']): found[0] = True
        else:
            out[r['name']] = r
            if r['name'] in live: live.pop(r['name'])[0].join(20)
    while pend or live:
        while pend and len(live) < jobs:
            t = pend.pop(0)
            p = ctx.Process(target=work, args=(mod, t, tier, q, stop)); p.start(); live[t['name']] = (p, time.time(), t)
        try: take(1.0)
        except queue.Empty: pass
        if found[0]:
            for n, (p, t1, t) in live.items(): p.kill()
            for n, (p, t1, t) in live.items():
                p.join(); out.setdefault(n, dict(name=n, mode=t['mode'], findings=partial.get(n, []), error='stopped after a confirmed violation'))
            return [out[t['name']] for t in tests if t['name'] in out]
        for n, (p, t1, t) in list(live.items()):
            lim = min(t['budget'] * (4 if tier == 'thorough' else 1) * 1.5 + 120, max(30, stop + 60 - t1))
            dead = not p.is_alive() and time.time() - t1 > 3
            if time.time() - t1 > lim or dead:
                if dead: time.sleep(0.5)
                try:
                    while True: take(0)
                except queue.Empty: pass
                if n in out: continue
                p.kill(); p.join(); live.pop(n, None)
                out[n] = dict(name=n, mode=t['mode'], findings=partial.get(n, []), error='process ended' if dead else 'time limit')
    return [out[t['name']] for t in tests]

class Native:
    def __init__(self, b, tier):
        self.b = b; self.dir = b['dir']; self.tier = tier; self.exe = None; self.runs = 0
    def make(self):
        if self.exe: return self.exe
        main = os.path.join(self.dir, 'entries.cpp')
        with open(main, 'w') as f:
            for n in self.b['tests']: f.write('extern "C" void %s();\n' % n)
            f.write('struct Entry{const char*name;void(*f)();};\nEntry vp_entries[]={%s{0,0}};\n' % ''.join('{"%s",%s},' % (n[8:], n) for n in self.b['tests']))
        exe = os.path.join(self.dir, 'replay')
        r = subprocess.run([B.LLVM + 'clang++', '-O1', '-g', '-w', '-std=c++20', self.b['bc'], main, os.path.join(HERE, 'native_rt.cpp'), '-o', exe], capture_output=True, text=True)
        if r.returncode: raise RuntimeError('native replay build: ' + r.stderr[-2000:])
        self.exe = exe
        return exe
    def run(self, test, vals, mode, nan=False, valgrind=False, seed=None, timeout=20, f32=False):
        self.make(); self.runs += 1
        f = os.path.join(self.dir, 'vals.txt')
        with open(f, 'w') as h:
            for k, v in vals.items(): h.write('%s %s\n' % (k.replace(' ', '_'), float(v).hex() if not isinstance(v, int) else v))
        env = dict(os.environ, VP_MODE=mode, VERIF_TIER=self.tier)
        if nan: env['VP_NAN'] = '1'
        if f32: env['VP_TOL'] = '1e-9'   # single precision was used: its rounding is the suspect
        if seed is not None: env['VP_SEED'] = str(seed)
        cmd = [self.exe, test, f]
        if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=99'] + cmd
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=timeout * (10 if valgrind else 1), errors='replace')
            return r.returncode, (r.stdout[-400:] + r.stderr[-400:]).strip()
        except subprocess.TimeoutExpired:
            return 'timeout', 'time limit'

def reproduce(nat, res, f, seed):
    """returns (values, outcome text) of a natively failing assignment, or None"""
    rng = random.Random(seed)
    mode = res['mode']; test = res['name']; kind = f['kind']
    cands = [f['values']] + list(f['alt'])
    def failed(rc):
        if kind == 'nontermination': return rc == 'timeout'
        return rc not in (0, 77)
    def attempt(v, valgrind=False, seed=None):
        rc, out = nat.run(test, v, mode, nan=(kind == 'domain'), valgrind=valgrind, seed=seed, f32=f.get('f32', False))
        if failed(rc): return v, 'exit %s: %s' % (rc, out)
        return None
    for v in cands:
        r = attempt(v) or (attempt(v, valgrind=True) if kind == 'memory' else None)
        if r: return r
    if kind in ('memory', 'nontermination', 'terminate', 'uncaught'): n = 10
    else: n = 150
    if mode == 'fp': n = 20
    t0 = time.time()
    for i in range(n):
        if time.time() - t0 > 25: break
        base = dict(rng.choice(cands))
        for (name, k, lo, hi, op, w) in f['vars']:
            if k == 'bv':
                if lo is None: base.setdefault(name, rng.getrandbits(32))
                continue
            if i % 3 == 0 and rng.random() < 0.5 and name in base: continue
            base[name] = sample(rng, lo, hi)
        r = attempt(base)
        if r: return r
    return None

def sample(rng, lo, hi):
    lo = None if lo is None else float(lo); hi = None if hi is None else float(hi)
    if hi is not None and hi > 1e6: hi = None
    if lo is None and hi is None: return rng.uniform(-3, 3)
    if hi is None: return lo + rng.choice([rng.uniform(0.01, 2), rng.uniform(0.5, 5), rng.expovariate(0.3)])
    if lo is None: return hi - rng.uniform(0.01, 3)
    return rng.uniform(lo, hi)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--test'); ap.add_argument('--verbose', '-v', action='store_true'); ap.add_argument('--noreplay', action='store_true'); ap.add_argument('--strict', action='store_true', help='exit 2 when anything was left undecided')
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    harness = os.path.join(VERIF, 'harness', a.prop + '.cpp')
    cfg = parse_harness(harness)
    tests = [t for t in cfg['tests'] if (t['tier'] == 'quick' or tier == 'thorough')]
    if a.test: tests = [t for t in tests if t['name'] == a.test]
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    try:
        b = B.build(harness)
    except B.BuildError as e:
        print('ERROR property=%s build: %s' % (a.prop, e)); write_evidence(a.prop, tier, seed, t0, cfg, [], 0, 0, 0, dict(error=str(e)[:1000])); return 2
    try:
        return check(a, b, cfg, tests, tier, seed, t0)
    finally:
        shutil.rmtree(b['dir'], ignore_errors=True)

def fkey(name, f):
    return name, f['kind'], f['id'] or f['what'], repr(sorted(f['values'].items()))

def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) test=(\S+) assert=(.+?) -- (.*)', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def check(a, b, cfg, tests, tier, seed, t0):
    import irparse
    tb = time.time() - t0
    mod = irparse.Module(b['text'])
    nat = Native(b, tier)
    kf = known_findings(a.prop)
    cache = {}; tried = {}
    modes = {t['name']: t['mode'] for t in tests}
    def confirm(name, f):
        key = (name, f['kind'], f['id'] or f['what'])
        if a.noreplay or tried.get(key, 0) >= 4 or any(x[0] == name and x[1] == key[2] for x in kf): return False
        tried[key] = tried.get(key, 0) + 1
        cache[fkey(name, f)] = rep = reproduce(nat, dict(mode=modes[name], name=name), f, seed)
        return rep is not None
    results = run_tests(mod, tests, tier, t0, confirm)
    violations = []; incon = []; notes = []; known = []
    validated = disagree = 0
    for r in results:
        if r['error']:
            incon.append('%s: %s' % (r['name'], r['error'].strip().split('\n')[-1]))
            if a.verbose: print(r['error'])
        elif not r['complete'] and not r['findings']: incon.append('%s: exploration incomplete (budget)' % r['name'])
        for u in r.get('unsupported', [])[:3]: incon.append('%s: unsupported: %s' % (r['name'], u))
        done = {}
        for f in r['findings']:
            key = (f['kind'], f['id'] or f['what'])
            if done.get(key) == 'ok' or done.get(key, 0) not in (0, 'ok') and done[key] >= 4: continue
            if a.verbose: print('  candidate', r['name'], f['kind'], f['what'], {k: v for k, v in list(f['values'].items())[:14]})
            rep = None if a.noreplay or (tier == 'quick' and time.time() - t0 > 820) else cache[fkey(r['name'], f)] if fkey(r['name'], f) in cache else reproduce(nat, r, f, seed)
            if rep:
                done[key] = 'ok'
                k = [x for x in kf if x[0] == r['name'] and x[1] == (f['id'] or f['what'])]
                if k: known.append(k[0]); continue
                n = len(violations)
                path = os.path.join(VERIF, 'evidence', 'replay', '%s_%d.json' % (a.prop, n))
                json.dump(dict(property=a.prop, test=r['name'], mode=r['mode'], kind=f['kind'], assertion=f['id'] or f['what'],
                               single_precision=f.get('f32', False), solver_values=f['values'], failing_values=rep[0], native_outcome=rep[1],
                               how='python3-vt /verif/engine/replay.py %s' % path), open(path, 'w'), indent=1, default=str)
                violations.append((r['name'], f['id'] or f['what'], path, rep[1]))
            else:
                done[key] = done.get(key, 0) + 1
                msg = '%s: %s %s not reproduced natively' % (r['name'], f['kind'], f['what'])
                (incon if f['certain'] or f['kind'] == 'undecided' else notes).append(msg)
        # validate the encoding: native runs of path models must satisfy the assertions as well
        if not r['error'] and not r['findings'] and not a.noreplay:
            for v in r['paths'][:4]:
                rc, out = nat.run(r['name'], v, r['mode'])
                if rc == 0: validated += 1
                elif rc == 77: pass
                else:
                    disagree += 1; notes.append('%s: path model gives native %s %s' % (r['name'], rc, out[:120]))
    vac = [r['name'] for r in results if not r['error'] and r['complete'] and not r['unsupported'] and not r.get('findings') and not (r['asserts'] and r['reach'])]
    for v in vac: incon.append('%s: vacuous (no assertion or no reachability witness)' % v)
    if not violations:
        for k in sorted(set(known)): print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, k[1], k[2]))
    write_evidence(a.prop, tier, seed, t0, cfg, results, validated, disagree, len(violations), dict(build_s=round(tb, 1), notes=notes[:20], inconclusive=incon[:20], sources=len(b['sources'])))
    for r in results:
        if a.verbose and not r['error']: print('  %-28s %s %5.1fs paths=%d asserts=%d/%d reach=%s und=%s' % (r['name'], r['mode'], r['stats']['wall'], r['stats']['paths'], r['stats']['discharged'], r['stats']['asserts'], r['reach'], r['undecided']))
    if a.verbose:
        for n in notes: print('  note:', n)
    st = [r['stats'] for r in results if not r['error']]
    print('%s %s: %d tests, %d paths, %d assertions discharged, %d queries, solver %.1fs, %d native replays, wall %.1fs' % (
        a.prop, tier, len(results), sum(s['paths'] for s in st), sum(s['discharged'] for s in st), sum(s['queries'] for s in st),
        sum(s['solver_s'] for s in st), nat.runs, time.time() - t0))
    if violations:
        for n, w, p, o in violations[:8]:
            print('  violated: test %s, assertion "%s" (%s)' % (n, w, o.replace('\n', ' | ')[:200]))
        print('VIOLATION property=%s replay=%s' % (a.prop, violations[0][2]))
        return 1
    # what could not be explored or decided is reported and recorded in the evidence; the verdict covers the rest.
    # A check that decided nothing at all gives no verdict.
    for i in incon[:12]: print('INCOMPLETE ' + i)
    if incon and (a.strict or not any(s['discharged'] for s in st)): return 2
    return 0

def write_evidence(prop, tier, seed, t0, cfg, results, validated, disagree, nviol, extra):
    ok = [r for r in results if not r['error']]
    S = lambda k: sum(r['stats'][k] for r in ok)
    fn = sorted({f for r in ok for f in r['functions'] if 'OptionPricer' in f})
    lib = len({f for r in ok for f in r['functions'] if 'OptionPricer' not in f and not f.startswith('vp_')})
    samples = []
    for r in ok:
        for p in r['paths'][:2]: samples.append(dict(test=r['name'], path_model={k: str(v) for k, v in list(p.items())[:20]}))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=S('paths'), transitions=S('forks'), traces_validated_against_impl=validated, native_disagreements=disagree,
                            samples=samples[:6] or ['none'], exhaustive=bool(ok) and all(r['complete'] for r in ok),
                            explanation='states = symbolic execution paths explored to the end (each stands for all inputs of its path condition); transitions = symbolic branch decisions with both sides feasible',
                            tests=[dict(test=r['name'], arithmetic=r['mode'], paths=r['stats']['paths'], assertions=r['asserts'], reach=r['reach'], undecided=r['undecided'], instructions=r['stats']['instr']) for r in ok],
                            assertions_discharged=S('discharged'), solver_queries=S('queries'), unsat=S('q_unsat'), sat=S('q_sat'), unknown=S('q_unknown'),
                            solver_s=round(S('solver_s'), 2), functions_encoded=fn, library_functions_encoded=lib, bounds=cfg['bounds'], **extra),
              assumptions=cfg['assumptions'], wall_s=round(time.time() - t0, 2), violations=nviol)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f: json.dump(ev, f, indent=1, default=str)

if __name__ == '__main__':
    sys.exit(main())
