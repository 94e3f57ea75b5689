#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: confirms planted bugs in a scratch copy of /repo and keeps those that count in /verif/seeded.

SPEC.py calls bug(id, prop, file, [(old, new)...], needs, breaks, demo), where demo is the body of a Go main package."""
import os, sys, subprocess, json, shutil, tempfile
BASE = '98d8f77'
bugs = []
def bug(id, prop, file, pairs, needs, breaks, demo, more=()):
    bugs.append((id, prop, [(file, pairs)] + list(more), needs, breaks, demo))

DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
printf '{"Replace":{"%s/verifdemo/main.go":"%s/main.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
go run -buildvcs=false @FLAGS@-overlay "$tmp/overlay.json" ./verifdemo
'''

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, executable='/bin/bash', **kw)

def demo(dir, work):
    """the demo, in a namespace where the scratch copy stands for /repo: simply with the cd of env.sh undone"""
    s = open(dir + '/demo.sh').read().replace('. /opt/vp/env.sh', '. /opt/vp/env.sh; cd ' + work)
    s = s.replace('here=$(cd "$(dirname "$0")" && pwd)', 'here=' + dir)
    return sh(s, cwd=work, timeout=280)

def main():
    spec = sys.argv[1]; only = sys.argv[2:]
    exec(compile(open(spec).read(), spec, 'exec'), {'bug': bug})
    for id, prop, files, needs, breaks, code in bugs:
        if only and id not in only: continue
        out = '/verif/seeded/' + id
        work = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
        try:
            sh('cp -a /repo/. ' + work)
            ok = True
            for f, pairs in files:
                p = work + '/' + f; s = open(p).read()
                orig = sh('git show %s:%s' % (BASE, f), cwd='/repo').stdout
                for a, b in pairs:
                    if s.count(a) != 1:
                        print(id, 'REJECTED: %d matches of %r' % (s.count(a), a)); ok = False; break
                    s = s.replace(a, b)
                open(p, 'w').write(s)
            if not ok: continue
            diff = sh('git diff', cwd=work).stdout
            removed = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
            alls = ''.join(sh('git show %s:%s' % (BASE, f), cwd='/repo').stdout for f, _ in files)
            old = [l for l in removed if l in alls.split('\n')]
            if not old:
                print(id, 'REJECTED: changes no original line'); continue
            if len(old) < len(removed): print(id, 'note: changes lines of fixes too')
            env = '. /opt/vp/env.sh; cd ' + work + '; '
            b = sh(env + 'go build ./... && go vet ./... 2>&1 | head -5')
            if b.returncode: print(id, 'REJECTED: build', b.stderr[:500]); continue
            t = sh(env + 'go test -count=1 ./... 2>&1 | grep -v "no test files" | grep -E "^(---|FAIL|panic|    ---)" | head', timeout=400)
            if t.stdout.strip(): print(id, 'REJECTED: tests', t.stdout[:300]); continue
            dd = tempfile.mkdtemp(prefix='demo.', dir='/tmp')
            race = code.startswith('//race')
            open(dd + '/main.go', 'w').write(code)
            open(dd + '/demo.sh', 'w').write(DEMO.replace('@FLAGS@', '-race ' if race else ''))
            os.chmod(dd + '/demo.sh', 0o755)
            d1 = demo(dd, '/repo'); d2 = demo(dd, work)
            if d1.returncode != 0: print(id, 'REJECTED: demo fails unchanged', (d1.stdout + d1.stderr)[:800])
            elif d2.returncode == 0: print(id, 'REJECTED: demo passes with the change')
            else:
                shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
                for f in ('main.go', 'demo.sh'): shutil.copy(dd + '/' + f, out)
                open(out + '/patch.diff', 'w').write(diff)
                json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
                print(id, 'kept:', (d2.stdout + d2.stderr).strip().split('\n')[0][:150])
            shutil.rmtree(dd)
        finally:
            shutil.rmtree(work)
main()
