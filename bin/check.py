#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> [quick|thorough]

Records executions of the implementation in /repo (harness/), checks them
against the TLA+ specification (spec/) with TLC, and model-checks the
specification itself.  Exit 0: everything explored conforms.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it does not.  Exit 2: the check could
not be carried out.
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'bin'))
from plan import PLAN, MODELS, PACKAGE  # noqa: E402

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = 8
# For trying the checks on a changed /repo without changing it.
OVERLAY = ['-overlay=' + os.environ['KATIE_OVERLAY']] if 'KATIE_OVERLAY' in os.environ else []
HANG = 150          # seconds of real time a single trace may take

class Infra(Exception):
    pass

def run(cmd, timeout, cwd=None, env=None, stdout=None):
    """Runs a command in its own process group; kills the group on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=stdout or subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, (out or b'').decode(errors='replace')
    return p.returncode, (out or b'').decode(errors='replace')

def goenv():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GONOSUMDB='*', GOSUMDB='off')
    for k in ('HOME', 'GOCACHE'):
        pass
    env.setdefault('HOME', '/root')
    return env

def harness(tmp):
    """Copies the harness, with a LevelDB that tells what it has synced to disk."""
    hd, ldb = os.path.join(tmp, 'harness'), os.path.join(tmp, 'goleveldb')
    shutil.copytree(os.path.join(VERIF, 'harness'), hd)
    rc, out = run(['go', 'list', '-m', '-f', '{{.Dir}}', 'github.com/syndtr/goleveldb'], 100, cwd=hd, env=goenv())
    if rc != 0:
        raise Infra('LevelDB not found:\n' + out[-2000:])
    src = os.path.join(out.strip().splitlines()[-1], 'leveldb')
    for d, _, fs in os.walk(src):
        os.makedirs(os.path.join(ldb, 'leveldb', os.path.relpath(d, src)), exist_ok=True)
        for f in fs:
            if f.endswith('.go') and not f.endswith('_test.go'):
                shutil.copyfile(os.path.join(d, f), os.path.join(ldb, 'leveldb', os.path.relpath(d, src), f))
    shutil.copyfile(os.path.join(src, '../go.mod'), os.path.join(ldb, 'go.mod'))
    fs = os.path.join(ldb, 'leveldb/storage/file_storage.go')
    text = open(fs).read()
    at = 'func (fw *fileWrap) Sync() error {\n'
    if text.count(at) != 1:
        raise Infra('unexpected version of LevelDB')
    open(fs, 'w').write(text.replace(at, at + '\tdefer verifSync(fw.File)\n'))
    open(os.path.join(ldb, 'leveldb/storage/verif.go'), 'w').write(SYNCED)
    with open(os.path.join(hd, 'go.mod'), 'a') as f:
        f.write('\nreplace github.com/syndtr/goleveldb => ../goleveldb\n')
    return hd

SYNCED = '''package storage

import (
	"os"
	"sync"
)

var verifSynced sync.Map

func verifSync(f *os.File) {
	if st, err := f.Stat(); err == nil {
		verifSynced.Store(f.Name(), st.Size())
	}
}

// VerifSynced returns how much of the file is known to have reached the disk.
func VerifSynced(name string) int64 {
	if n, ok := verifSynced.Load(name); ok {
		return n.(int64)
	}
	return 0
}
'''

def build(tmp, pkgs):
    """Builds the drivers needed.  Returns them by package, and the classes."""
    hd = harness(tmp)
    drv = {}
    for pkg in sorted(pkgs):
        drv[pkg] = os.path.join(tmp, 'drv-' + pkg)
        rc, out = run(['go', 'test', '-c', '-vet=off', *OVERLAY, '-o', drv[pkg], './' + pkg], 800, cwd=hd, env=goenv())
        if rc != 0:
            raise Infra('harness does not build against /repo:\n' + out[-4000:])
    cls = os.path.join(tmp, 'cls')
    os.mkdir(cls)
    rc, out = run(['javac', '-cp', JARS, '-d', cls, os.path.join(VERIF, 'spec/java/BytesOverrides.java')], 300)
    if rc != 0:
        raise Infra('javac failed:\n' + out)
    return drv, cls

def drive(drv, tmp, job):
    """Runs traces [frm, to) of a scenario.  Returns (file, list of crash descriptions)."""
    scen, seed, frm, to, n, *arg = job
    drv = drv[PACKAGE.get(scen, '.')]
    parts, bad = [], []
    env = goenv()
    while frm < to:
        path = os.path.join(tmp, f'tr-{n}-{frm}.ndjson')
        env.update(KT_SCEN=scen, KT_SEED=str(seed), KT_FROM=str(frm), KT_TO=str(to), KT_OUT=path, KT_NOTES='1',
                   KT_HANG=str(HANG), KT_TMP=os.path.join(tmp, f'scratch-{n}'), KT_PLAN=arg[0] if arg else '')
        os.makedirs(env['KT_TMP'], exist_ok=True)
        rc, out = run([drv, '-test.run', '^TestDriver$', '-test.timeout', '0'], 880, cwd=tmp, env=env)
        parts.append((path, out))
        if rc == 0:
            break
        try:
            cur = open(path + '.current').read()
        except FileNotFoundError:
            raise Infra(f'driver failed at once ({scen}):\n' + out[-3000:])
        if rc is None:
            raise Infra(f'driver ran out of time ({cur})')
        bad.append((cur, 'process died: ' + out[-6000:]))
        frm = int(cur.rsplit('-', 1)[1]) + 1
        if len(bad) >= 3:
            break
    return parts, bad

def tlc(cls, tmp, module, cfg, env=None, workers=CORES, timeout=840, extra=(), heap='6g'):
    meta = tempfile.mkdtemp(dir=tmp)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', f'-XX:ParallelGCThreads={max(2, workers)}', '-Xss64m', '-Xmx' + heap,
           '-Djava.io.tmpdir=' + meta, '-cp', cls + ':' + JARS,
           '-Dtlc2.overrides.TLCOverrides=BytesOverrides:tlc2.overrides.TLCOverrides', 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *extra, module]
    rc, out = run(cmd, timeout, cwd=os.path.join(VERIF, 'spec'), env=e)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out

def counts(out):
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(',', '')), int(b.replace(',', ''))

def validate(cls, tmp, path):
    """Checks a file of traces.  Returns dict."""
    res = dict(passed=[], failed=[], known=[], states=0, gen=0, error=None)
    skip = 0
    while True:
        rc, out = tlc(cls, tmp, 'KatieTrace', 'KatieTrace.cfg', env={'TRACES': path}, workers=2, heap='3g')
        g, d = counts(out)
        res['gen'] += g
        res['states'] += d
        for m in re.finditer(r'^"(PASS|FAIL) <<\\"([^\\]*)\\", (\d+)(?:, \\"(.*)\\")?>>"', out, re.M):
            if m.group(1) == 'PASS':
                res['passed'].append(m.group(2))
            else:
                res['failed'].append((m.group(2), int(m.group(3)), m.group(4)))
        res['known'] += re.findall(r'^"KNOWN ([\w-]+)"', out, re.M)
        if rc == 0:
            return res
        if rc is None:
            raise Infra('TLC ran out of time on ' + path)
        if 'OutOfMemory' in out or 'Error:' not in out:
            raise Infra('TLC failed:\n' + out[-3000:])
        # The recorded behaviour can not even be interpreted.
        m = re.findall(r'^(?:/\\ )?tr = (\d+)', out, re.M)
        i = re.findall(r'^(?:/\\ )?i = (\d+)', out, re.M)
        err = ' '.join(out[out.index('Error:'):].split())[:600]
        if not m:
            raise Infra('TLC failed:\n' + out[out.index('Error:'):][:3000])
        lines = open(path).read().splitlines()
        t = json.loads(lines[int(m[-1]) - 1])
        res['failed'].append((t['id'], int(i[-1]) + 1, 'can not be interpreted: ' + err))
        done = set(res['passed']) | {f[0] for f in res['failed']}
        rest = [l for l in lines if json.loads(l)['id'] not in done]
        skip += 1
        if not rest or skip > 3:
            return res
        path = path + '.rest'
        with open(path, 'w') as f:
            f.write('\n'.join(rest) + '\n')

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    plan = PLAN[pid]
    tmp = tempfile.mkdtemp(prefix='katie-verif-')
    try:
        code = check(pid, tier, seed, t0, plan, tmp)
    except Infra as e:
        print('ERROR:', e)
        code = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)

def known_findings():
    try:
        return json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
    except FileNotFoundError:
        return []

def check(pid, tier, seed, t0, plan, tmp):
    drv, cls = build(tmp, {PACKAGE.get(t[0], '.') for t in plan['traces']})
    mult = 1 if tier == 'quick' else plan.get('thorough', 12)
    jobs, n = [], 0
    for scen, cnt, *opts in plan['traces']:
        o = opts[0] if opts else {}
        total = cnt if o.get('fixed') else cnt * mult
        per = max(1, min(-(-total // CORES), o.get('chunk', 60)))
        frm = 0
        while frm < total:
            jobs.append((scen, seed, frm, min(total, frm + per), n))
            n += 1
            frm += per
    violations, known = [], set()
    passed, evs, states, gen = 0, 0, 0, 0
    samples, kinds, notes = [], {}, {}
    tracef = {}
    def whole(job):
        parts, bad = drive(drv, tmp, job)
        out = []
        for path, log in parts:
            if os.path.exists(path) and os.path.getsize(path) > 0:
                out.append((path, log, validate(cls, tmp, path)))
            else:
                out.append((path, log, None))
        return job, bad, out
    # TLC uses two workers, the driver one.
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        planned = [ex.submit(model, cls, tmp, m, tier, seed) for m, _ in plan.get('plans', [])]
        models = [ex.submit(model, cls, tmp, m, tier, seed) for m in plan.get('models', [])]
        futs = [ex.submit(whole, j) for j in jobs]
        # Behaviours of the specification, to be carried out by the implementation.
        for i, fu in enumerate(planned):
            r = fu.result()
            chosen = choose(r.pop('plans'), plan['plans'][i][1] * mult, seed)
            r['replayed'] = len(chosen)
            path = os.path.join(tmp, f'plan-{i}')
            with open(path, 'w') as f:
                f.write('\n'.join(chosen) + '\n')
            frm = 0
            while frm < len(chosen):
                to = min(len(chosen), frm + 60)
                futs.append(ex.submit(whole, ('plan', seed, frm, to, n, path)))
                n, frm = n + 1, to
        models += planned
        for fu in cf.as_completed(futs):
            job, bad, out = fu.result()
            for cur, what in bad:
                violations.append((cur, 0, what, None))
            for path, log, r in out:
                for m in re.finditer(r'^(\d+) (.+)$', log, re.M):
                    notes[m.group(2)] = notes.get(m.group(2), 0) + int(m.group(1))
                if r is None:
                    continue
                lines = open(path).read().splitlines()
                ids = {}
                for l in lines:
                    t = json.loads(l)
                    ids[t['id']] = t
                    evs += len(t['ev'])
                    for e in t['ev']:
                        k = e['e'] + (':' + str(e['k']) if 'k' in e else '') + \
                            ('' if 'ok' not in e else ':ok' if e['ok'] else ':refused')
                        kinds[k] = kinds.get(k, 0) + 1
                passed += len(r['passed'])
                states += r['states']
                gen += r['gen']
                known |= set(r['known'])
                for f in r['failed']:
                    violations.append((*f, ids.get(f[0])))
                missing = set(ids) - set(r['passed']) - {f[0] for f in r['failed']}
                missing = {i for i in missing if ids[i]['ev']}
                if missing and not r['failed']:
                    raise Infra(f'traces without a verdict: {sorted(missing)[:3]}')
                if len(samples) < 3 and r['passed']:
                    t = ids[r['passed'][0]]
                    samples.append(dict(trace=t['id'], events=len(t['ev']),
                                        first=[{k: v for k, v in e.items() if k in ('e', 'k', 'ok', 'label', 'now', 'why')}
                                               for e in t['ev'][:12]]))
                if not r['failed']:
                    os.remove(path)
        mres = [m.result() for m in models]
    for m in mres:
        states += m['distinct']
        gen += m['generated']
        if m['bad']:
            violations.append((m['name'], 0, 'model: ' + m['bad'], None))
    vac = [k for k in plan.get('needs', []) if not any(x.startswith(k) for x in kinds)]
    if vac and not violations:
        raise Infra(f'nothing of the kind {vac} was exercised')
    findings = [f for f in known_findings() if f['property'] == pid and f['status'] == 'open']
    for f in findings:
        print(f"KNOWN-FINDING: property={pid} {f['id']} {f['what']}")
    undeclared = known - {f['id'] for f in known_findings()}
    for u in undeclared:
        violations.append((u, 0, 'unlisted finding', None))
    cov = dict(states=states, transitions=gen, traces_validated_against_impl=passed, events=evs,
               samples=samples, event_kinds=dict(sorted(kinds.items())),
               outcomes=dict(sorted(notes.items(), key=lambda x: -x[1])[:60]),
               models=[{k: v for k, v in m.items() if k not in ('out', 'plans')} for m in mres],
               known_findings_seen=sorted(known),
               scenarios=[dict(name=t[0], traces=(t[1] if len(t) > 2 and t[2].get('fixed') else t[1] * mult)) for t in plan['traces']])
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=plan.get('assumptions', []) + [
                  'SHA-256 and HMAC are evaluated by a Java override of the TLC operators; the signature scheme and the '
                  'VRF are ideal functionalities supplied to the code by the harness, except in the scenarios on real suites',
                  'coverage is that of the executions recorded (seeded) and of the bounded models listed'],
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if violations:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        violations.sort(key=lambda v: (v[1] == 0, v[1]))
        for k, (tid, i, why, t) in enumerate(violations[:8]):
            path = os.path.join(rd, f'{pid}-{re.sub("[^A-Za-z0-9_.-]", "_", tid)}.json')
            scen = tid.rsplit('-', 2)[0]
            with open(path, 'w') as f:
                json.dump(dict(property=pid, trace=tid, event=i, why=why,
                               reproduce=f'VERIF_SEED={seed} python3 {VERIF}/bin/check.py {pid} {tier}',
                               scenario=scen, events=(t['ev'][:i] if t else [])), f, indent=1)
            print(f'  {tid} event {i}: {str(why)[:300]}')
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    print(f'{pid} {tier}: {passed} traces, {evs} events conform; {states} states, {gen} transitions; '
          f'{time.time() - t0:.0f} s')
    return 0

def choose(plans, count, seed):
    """Behaviours that are not the beginning of another; some of them, if they are too many."""
    plans.sort()
    whole = [p for p, q in zip(plans, plans[1:] + ['']) if not q.startswith(p[:-1] + ',')]
    random.Random(seed).shuffle(whole)
    return whole[:count]

def model(cls, tmp, name, tier, seed):
    m = MODELS[name]
    cfg = m['cfg'] if tier == 'quick' else m.get('thorough_cfg', m['cfg'])
    t = time.time()
    rc, out = tlc(cls, tmp, m['module'], cfg, workers=m.get('workers', 4), timeout=m.get('timeout', 800),
                  heap=m.get('heap', '8g'), extra=m.get('extra', ()), env={'KT_SEED': str(seed)})
    plans = [json.loads(l)[2:] for l in out.splitlines() if l.startswith('"S [')]
    g, d = counts(out)
    res = dict(name=name, module=m['module'], cfg=cfg, generated=g, distinct=d, bad=None, wall_s=round(time.time() - t, 1),
               plans=plans)
    if rc == 0:
        return res
    if rc is None:
        raise Infra(f'model {name} ran out of time')
    raise Infra(f'model {name} fails:\n' + '\n'.join(l for l in out.splitlines() if not l.startswith('"S ['))[-3000:])

if __name__ == '__main__':
    main()
