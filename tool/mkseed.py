"""mkseed.py SPECFILE: python file defining SEEDS = {id: dict(property, edits=[(file, old, new[, count])], demo=cpp text, needs, breaks, backend)}.
Writes seeded/<id>/ (patch against HEAD of /repo made in a scratch worktree, demo, meta)."""
import sys, os, subprocess, json, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
SH = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 iff the library behaves as the property says
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++14 -O1 -w -I_build/%(b)s/include -Isource/include %(inc)s "$d/demo.cpp" _build/%(b)s/libfirefly.a %(lib)s -lgmpxx -lgmp -lz -pthread -o "$t/demo" || exit 2
cd "$t" && timeout 200 ./demo
'''
ns = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
if not os.path.isdir(W):
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W, "HEAD"])
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"]).decode().strip()])
for sid, s in ns["SEEDS"].items():
    if only and sid not in only:
        continue
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    for e in s["edits"]:
        f = os.path.join(W, e[0])
        t = open(f, newline="").read()
        if "\r\n" in t:
            e = (e[0], e[1].replace("\n", "\r\n"), e[2].replace("\n", "\r\n")) + tuple(e[3:])
        n = t.count(e[1])
        want = e[3] if len(e) > 3 else 1
        if n != want:
            print(sid, "EDIT does not match", n, e[:2]); break
        open(f, "w", newline="").write(t.replace(e[1], e[2]))
    else:
        d = os.path.join(V, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(subprocess.check_output(["git", "-C", W, "diff"]))
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        b = s.get("backend", "default")
        open(os.path.join(d, "demo.sh"), "w").write(SH % dict(b=b, inc="-I/usr/include/flint" if b == "flint" else "", lib="-lflint" if b == "flint" else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(sid, "written")
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
