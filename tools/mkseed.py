#!/usr/bin/env python3
"""Create seeded bugs from a description file and confirm them in a scratch copy of /repo.

usage: mkseed.py FILE.py   -- FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], needs, what, demo (Go test source of TestSeedDemo))]
"""
import sys, os, subprocess, json, shutil, runpy
W = '/tmp/seedwork'
ENV = dict(os.environ)
DEMO = r'''#!/bin/bash
# exits 0 when the behaviour is intact; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOCACHE=/root/.cache/go-build
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
python3 - "$PWD" "$d" "$t" <<'PY'
import sys, os, json, glob
repo, d, t = sys.argv[1:]
r = {f: "" for f in glob.glob(repo + '/lens/*_test.go')}
r[repo + '/lens/zz_seed_demo_test.go'] = d + '/demo_test.go.txt'
json.dump({"Replace": r}, open(t + '/overlay.json', 'w'))
PY
export TMPDIR="$t"
timeout 250 go test -count=1 -vet=off -overlay "$t/overlay.json" -run '^TestSeedDemo$' -timeout 200s ./lens >"$t/out" 2>&1
rc=$?
tail -30 "$t/out" | cut -c1-400
exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    if not os.path.isdir(W):
        sh(f'cp -a /repo {W}')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in seeds:
        if only and s['id'] not in only: continue
        sh(f'git -C {W} checkout -q -- . ; git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD')
        for f, o, n in s['edits']:
            p = f'{W}/{f}'; t = open(p).read()
            if t.count(o) != 1:
                print(s['id'], 'EDIT DOES NOT APPLY', f, t.count(o), repr(o[:60])); break
            open(p, 'w').write(t.replace(o, n))
        else:
            d = f"/verif/seeded/{s['id']}"
            tmp = f"/tmp/seedtmp/{s['id']}"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            fm = sh(f'. /opt/vp/env.sh; cd {W} && gofmt -l lens cmd').stdout.strip()
            open(tmp + '/patch.diff', 'w').write(sh(f'git -C {W} diff').stdout)
            open(tmp + '/demo.sh', 'w').write(DEMO); os.chmod(tmp + '/demo.sh', 0o755)
            open(tmp + '/demo_test.go.txt', 'w').write(s['demo'])
            json.dump({"property": s['prop'], "needs": s['needs'], "what_it_breaks": s['what']}, open(tmp + '/meta.json', 'w'), indent=1)
            b = sh(f'. /opt/vp/env.sh; export GOCACHE=/root/.cache/go-build; cd {W} && go build ./... && go vet ./lens')
            if b.returncode: print(s['id'], 'BUILD', b.stderr[:500]); continue
            d1 = sh(f'bash {tmp}/demo.sh', cwd=W)
            d0 = sh(f'bash {tmp}/demo.sh', cwd='/repo')
            if d0.returncode != 0 or d1.returncode == 0:
                print(s['id'], 'DEMO unpatched', d0.returncode, 'patched', d1.returncode, d0.stdout[-700:], '---', d1.stdout[-500:]); continue
            if not os.environ.get('NOTEST'):
                bad = None
                for k in range(2):
                    t = sh(f'. /opt/vp/env.sh; export GOCACHE=/root/.cache/go-build; cd {W} && go test -json ./... 2>/dev/null')
                    passed = set()
                    for l in t.stdout.splitlines():
                        try: e = json.loads(l)
                        except Exception: continue
                        if e.get('Action') == 'pass' and e.get('Test'):
                            passed.add(e['Package'] + '::' + e['Test'])
                    ex = next(iter(base))
                    norm = passed if '::' in ex else {p.replace('::', '/') for p in passed}
                    bad = {b for b in base if b not in norm}
                    if not bad: break
                if bad: print(s['id'], 'TESTS FAIL', len(bad), sorted(bad)[:4]); continue
            shutil.rmtree(d, ignore_errors=True); shutil.move(tmp, d)
            print(s['id'], 'OK', ('gofmt:' + fm) if fm else '')
    sh(f'git -C {W} checkout -q -- .')
main()
