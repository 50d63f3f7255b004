"""Writes planted bugs to /verif/seeded: mkseed.py FILE..., where each FILE
calls S(id, property, edits, demo, needs, breaks). edits: (file, old, new)*.
demo: a dict of files; demo.sh is made from oh=(script, expected output) or
go=(package directory, test source)."""
import json, os, subprocess, sys, shutil

HEAD = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off LANG=C LC_ALL=C
repo=$PWD
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
'''
OH = HEAD + '''go build -o "$tmp/oh" . || exit 9
mkdir "$tmp/cwd"
cd "$tmp/cwd" || exit 9
HOME=$tmp/cwd timeout -k 5 60 setsid -w "$tmp/oh" "$here/demo.oh" > "$tmp/out" 2>&1 < /dev/null
echo "exit $?" >> "$tmp/out"
sed -i "s|$here/demo.oh|demo.oh|g" "$tmp/out"
diff "$here/expected" "$tmp/out"
'''
GO = HEAD + '''printf '{"Replace":{"%%s":"%%s"}}' "$repo/%s/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
cd "$tmp"
TMPDIR=$tmp timeout -k 5 250 go test -C "$repo" -count=1 -vet=off -timeout 120s %s -overlay "$tmp/overlay.json" -run 'TestDemo$' ./%s
'''

def expected(text):
    """What the unchanged shell prints."""
    w = "/tmp/mkseed-run"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/cwd")
    open(w + "/demo.oh", "w").write(text)
    subprocess.check_call(["bash", "-c", ". /opt/vp/env.sh; export GOSUMDB=off; cd /repo && go build -o %s/oh ." % w])
    r = subprocess.run(["setsid", "-w", w + "/oh", w + "/demo.oh"], cwd=w + "/cwd", env=dict(os.environ, HOME=w + "/cwd"), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, text=True)
    shutil.rmtree(w)
    out = r.stdout.replace(w + "/demo.oh", "demo.oh") + "exit %d\n" % r.returncode
    print(out)
    return out

def S(id, prop, edits, needs, breaks, oh=None, go=None, sh=None, files=None, flags=""):
    d = "/verif/seeded/" + id
    if ONLY and id not in ONLY: return
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    m = "/tmp/mkseed"
    shutil.rmtree(m, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", m])
    for f, old, new in edits:
        s = open(m + "/" + f).read()
        if s.count(old) != 1: raise SystemExit(f"{id}: {f}: {s.count(old)} matches of {old!r}")
        open(m + "/" + f, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "diff"], cwd=m))
    shutil.rmtree(m)
    if oh:
        open(d + "/demo.oh", "w").write(oh[0]); open(d + "/expected", "w").write(oh[1] if oh[1] is not None else expected(oh[0]))
        open(d + "/demo.sh", "w").write(OH)
    elif go:
        open(d + "/demo_test.go.txt", "w").write(go[1])
        open(d + "/demo.sh", "w").write(GO % (go[0], flags, go[0]))
    else:
        open(d + "/demo.sh", "w").write(HEAD + sh)
    for n, t in (files or {}).items(): open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)

a = sys.argv[1:]
ONLY = set(a[1:])
exec(compile(open(a[0]).read(), a[0], "exec"))
