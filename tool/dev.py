"""Development helper: dev.py theory FILE.mlw | dev.py spec MODULE [key-substring]"""
import sys, os, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "specs")]
from prove import *
os.makedirs("/tmp/w/cache", exist_ok=True)

def report(s, verbose=False):
    t0 = time.time()
    bad = s.run()
    for m, e in s.errors:
        print("ERROR in", m, "\n", e[-1500:])
    print("%d obligations, %d unproved, %.1fs" % (len(s.goals), len(bad), time.time() - t0))
    for g in bad:
        print("  UNPROVED", g.module, g.idx, g.files["z3"].split("/")[-1][-12:], g.goaltext()[-700:], "|", "; ".join(g.log)[:200])
    for g in sorted(s.goals, key=lambda g: -g.time)[:12]:
        if g.result == "valid" and g.time > 4:
            print("  SLOW %.1fs %s %s %s %s" % (g.time, g.solver, g.module, g.idx, g.goaltext()[-300:]))
    return bad

if __name__ == "__main__":
    quick = os.environ.get("Q")
    pf = [("z3-4.8.12", 2), ("cvc5-1.1.2", 3)] if quick else None
    work = os.environ.get("D", "/tmp/w/dev")
    shutil.rmtree(work, ignore_errors=True)
    s = Session(work, portfolio=pf, cache="/tmp/w/cache")
    if sys.argv[1] == "theory":
        for f in sys.argv[2:]:
            n = os.path.splitext(os.path.basename(f))[0]
            s.add(n, open(f).read())
        report(s)
    else:
        import build, importlib
        for mn in sys.argv[2].split(","):
            m = importlib.import_module(mn)
            for gi, g in enumerate(m.GROUPS):
                if os.environ.get("G") and int(os.environ["G"]) != gi:
                    continue
                specs = {x.key: x for x in g["specs"]}
                u = build.Unit(os.environ.get("REPO", "/repo"), os.path.join(VERIF, "tu", g["unit"]), "/tmp/w", backend=g.get("backend", "default"))
                for x in g["specs"]:
                    if len(sys.argv) > 3 and not any(k in x.key for k in sys.argv[3:]):
                        continue
                    if not x.verify:
                        continue
                    for al in ([None] + ([x.alias] if x.alias else [])):
                        try:
                            t, tr = build.build_module(u, specs, x, alias=al, suffix="_g%d" % gi)
                        except build.ExtractError as e:
                            print("EXTRACT", x.key, e)
                            continue
                        s.add(build.module_name(x, al, "_g%d" % gi), t)
        report(s)
