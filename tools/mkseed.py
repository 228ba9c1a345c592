#!/usr/bin/env python3
"""mkseed.py FILE...: builds /verif/seeded/<id> from a definition and confirms it in a scratch copy.

A definition is a python file setting ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG, TEST."""
import sys, os, subprocess, shutil, json, tempfile
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the repository in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
cat > "$T/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_seed_demo_test.go": "$D/demo_test.go"}}
EOF
%(extra)sexport GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
timeout 200 go test -vet=off %(mod)s-overlay "$T/overlay.json" -run '^TestSeedDemo$' -count=1 ./%(pkg)s
'''
EXTRA = '''mkdir -p "$T/web" && cp "$D"/web/* "$T/web/" && cp "$PWD/go.mod" "$T/go.mod" && cp "$PWD/go.sum" "$T/go.sum"
printf '\\nrequire github.com/gocraft/web v0.0.0\\nreplace github.com/gocraft/web => %s\\n' "$T/web" >> "$T/go.mod"
'''
ok = True
for f in sys.argv[1:]:
    d = {}
    exec(open(f).read(), d)
    ID = d['ID']; out = f'/verif/seeded/{ID}'
    S = tempfile.mkdtemp(prefix='seed-'); w = S + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        os.makedirs(out, exist_ok=True)
        needweb = d['PKG'] == 'healthd' or d['PKG'].startswith('cmd')
        open(out + '/demo_test.go', 'w').write(d['TEST'])
        if needweb:
            shutil.rmtree(out + '/web', ignore_errors=True)
            shutil.copytree('/verif/stubs/web', out + '/web')
        open(out + '/demo.sh', 'w').write(DEMO % dict(pkg=d['PKG'], extra=EXTRA if needweb else '', mod='-modfile "$T/go.mod" ' if needweb else ''))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({"property": d['PROP'], "needs": d['NEEDS'], "what_it_breaks": d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        r = run(f'bash {out}/demo.sh', w)
        if r.returncode != 0:
            print(ID, 'DEMO FAILS UNPATCHED', (r.stdout + r.stderr)[-1500:]); ok = False; continue
        for file, old, new in d['EDITS']:
            s = open(f'{w}/{file}').read()
            if s.count(old) != 1: print(ID, 'EDIT', file, 'matches', s.count(old)); ok = False
            s = s.replace(old, new, 1)
            open(f'{w}/{file}', 'w').write(s)
        subprocess.run(f'gofmt -l {" ".join(e[0] for e in d["EDITS"])}', cwd=w, shell=True)
        diff = run('git diff', w).stdout
        open(out + '/patch.diff', 'w').write(diff)
        r = run(f'bash {out}/demo.sh', w)
        demo = r.returncode
        if demo == 0 or 'panic' in r.stdout and False: print(ID, 'DEMO PASSES PATCHED'); ok = False
        msg = [l for l in r.stdout.splitlines() if l.strip()][:4]
        if 'build failed' in r.stdout + r.stderr or 'setup failed' in r.stdout: print(ID, 'BUILD FAILED', r.stdout[-800:], r.stderr[-800:]); ok = False
        t = run('GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build ./ ./stack ./runtime_metrics ./sinks/... && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go test -gcflags=github.com/gocraft/health/...=-l -vet=off ./ ./stack ./runtime_metrics ./sinks/... && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go test -vet=off -modfile=/verif/gomod/go.mod ./healthd && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go vet -modfile=/verif/gomod/go.mod ./cmd/healthd >/dev/null 2>&1; true', w)
        bad = [l for l in t.stdout.splitlines() if l.startswith('FAIL') or l.startswith('--- FAIL')]
        if bad: print(ID, 'TESTS FAIL', bad); ok = False
        print(ID, 'demo rc', demo, msg[:3])
    finally:
        shutil.rmtree(S)
sys.exit(0 if ok else 1)
