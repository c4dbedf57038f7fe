#!/usr/bin/env python3
"""Mutation testing of the machinery:  run.py MUTANTS.json OUT.json [workers]

MUTANTS.json comes from list.go, run in /repo.  Mutants that compile and pass
the repository's tests are given to the scenarios that concern their file, then
to all others; OUT.json gets one line per mutant.  Nothing in /repo changes
(the go command is given an overlay).
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'bin'))
import check as C
from plan import PACKAGE

ALL = [('e2e', 24), ('tamper', 24), ('evil', 24), ('managed', 12), ('audit', 24), ('faults', 24), ('real', 6), ('store', 16), ('crash', 16),
       ('cwire', 8), ('clog', 8), ('cprefix', 8), ('cmath', 8), ('cladder', 8), ('liar', 42), ('sweep', 16), ('clock', 16)]
FIRST = {'./tree/log/': ['clog', 'e2e', 'tamper'], './tree/prefix/': ['cprefix', 'e2e', 'tamper'],
         './tree/transparency/math/': ['cmath', 'cladder'], './crypto/': ['csuite', 'real'], './tree/transparency/structs/': ['cwire'],
         './db/': ['store', 'backend', 'crash', 'managed'], './tree/transparency/auditor/': ['audit', 'e2e', 'evil', 'faults'],
         './tree/transparency/managed/': ['managed']}
CNT = dict(ALL, csuite=12, backend=12)
lock = threading.Lock()

def go(args, cwd, timeout):
    env = C.goenv()
    env['GOMAXPROCS'] = '2'
    return C.run(['prlimit', '--as=17179869184', 'go', *args], timeout, cwd=cwd, env=env)

def one(m, cls):
    tmp = tempfile.mkdtemp(prefix='mut-')
    try:
        src = open(os.path.join('/repo', m['file']), 'rb').read()
        new = src[:m['From']] + m['Text'].encode() + src[m['To']:]
        mf = os.path.join(tmp, 'm.go')
        open(mf, 'wb').write(new)
        ov = os.path.join(tmp, 'o.json')
        json.dump({'Replace': {os.path.normpath(os.path.join('/repo', m['file'])): mf}}, open(ov, 'w'))
        rc, out = go(['build', '-overlay', ov, './...'], '/repo', 120)
        if rc != 0:
            return 'nocompile', ''
        rc, out = go(['test', '-vet=off', '-overlay', ov, '-timeout', '60s', './...'], '/repo', 200)
        if rc != 0:
            return 'tests', ''
        first = next((v for k, v in FIRST.items() if m['file'].startswith(k)), [])
        todo = first + [s for s, _ in ALL if s not in first]
        hd = os.path.join(C.VERIF, 'harness')
        drv = {}
        for s in todo:
            pkg = PACKAGE.get(s, '.')
            if pkg not in drv:
                drv[pkg] = os.path.join(tmp, 'd' + pkg)
                rc, out = go(['test', '-c', '-vet=off', '-overlay', ov, '-o', drv[pkg], './' + pkg], hd, 300)
                if rc != 0:
                    return 'harness', out[-300:]
            tr = os.path.join(tmp, s + '.ndjson')
            env = C.goenv()
            env.update(KT_SCEN=s, KT_SEED=str(m.get('seed', 1)), KT_FROM='0', KT_TO=str(CNT[s]), KT_OUT=tr, KT_NOTES='', KT_HANG='40',
                       KT_TMP=os.path.join(tmp, 'scratch'), GOMAXPROCS='2')
            os.makedirs(env['KT_TMP'], exist_ok=True)
            rc, out = C.run(['prlimit', '--as=17179869184', drv[pkg], '-test.run', '^TestDriver$', '-test.timeout', '0'], 300, cwd=tmp, env=env)
            if rc != 0:
                return 'killed', s + ': ' + ('time' if rc is None else out[:200])
            rc, out = C.tlc(cls, tmp, 'KatieTrace', 'KatieTrace.cfg', env={'TRACES': tr}, workers=2, heap='2500m', timeout=400)
            f = [l for l in out.splitlines() if l.startswith('"FAIL')]
            if f or rc != 0:
                return 'killed', s + ': ' + (f[0] if f else 'TLC')[:200]
            os.remove(tr)
        return 'survived', ''
    except Exception as e:  # noqa: BLE001
        return 'error', repr(e)[:300]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    ms = [json.loads(l) for l in open(sys.argv[1])]
    tmp = tempfile.mkdtemp(prefix='mut-cls-')
    subprocess.run(['javac', '-cp', C.JARS, '-d', tmp, os.path.join(C.VERIF, 'spec/java/BytesOverrides.java')], check=True)
    out = open(sys.argv[2], 'a')
    def do(m):
        r, why = one(m, tmp)
        with lock:
            out.write(json.dumps(dict(m, result=r, why=why)) + '\n')
            out.flush()
    with cf.ThreadPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 4) as ex:
        list(ex.map(do, ms))
    shutil.rmtree(tmp)

if __name__ == '__main__':
    main()
