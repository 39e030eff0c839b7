#!/usr/bin/env python3
"""Decides one property: extracts the functions under contract from /repo's current source, proves every
obligation, runs the executable-contract harness as counterexample search, writes the evidence file."""
import os, sys, json, re, time, subprocess, tempfile, shutil, hashlib, importlib, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "specs")]
import build, prove, cxxast
from cxxast import ExtractError

REPO = os.environ.get("VH_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
RECORD = "--record" in sys.argv
DEV = "--dev" in sys.argv
LOCALS = os.path.join(VERIF, "specs", "locals.json")
HINTS = os.path.join(VERIF, "specs", "hints")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr)
    sys.stderr.flush()


def load_json(f, d):
    try:
        return json.load(open(f))
    except (OSError, ValueError):
        return d


# ---------------------------------------------------------------- theories and facts
def theory_files(texts):
    """Files of theories/ used (transitively) by the given module texts."""
    have = {os.path.splitext(f)[0]: os.path.join(prove.THEO, f) for f in os.listdir(prove.THEO) if f.endswith(".mlw")}
    todo, seen = list(texts), set()
    while todo:
        t = todo.pop()
        for m in re.finditer(r"^\s*use\s+(?:export\s+|import\s+)?(\w+)\.", t, re.M):
            n = m.group(1)
            if n in have and n not in seen:
                seen.add(n)
                todo.append(open(have[n]).read())
    return {n: have[n] for n in sorted(seen)}


def run_facts(files, work):
    res = {}

    def one(f):
        t0 = time.time()
        src = os.path.join(VERIF, f)
        text = open(src).read()
        bad = re.findall(r"\b(Admitted|admit|sorry|native_decide|Axiom|axiom|Parameter)\b", text)
        d = os.path.join(work, "facts_" + re.sub(r"\W", "_", f))
        os.makedirs(d)
        dst = os.path.join(d, os.path.basename(f))
        shutil.copy(src, dst)
        cmd = ["coqc", "-q", dst] if f.endswith(".v") else ["lean", dst]
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            out = r.stdout.decode(errors="replace")
            ok = r.returncode == 0 and not bad and "sorry" not in out
        except subprocess.TimeoutExpired:
            out, ok = "timeout", False
        n = len(re.findall(r"^\s*(Theorem|Lemma|theorem|lemma)\b", text, re.M))
        res[f] = dict(ok=ok, theorems=n, time=round(time.time() - t0, 1), out=out[-1000:], cmd=" ".join(cmd[:-1] + [f]))
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(one, files))
    return res


# ---------------------------------------------------------------- harness
def run_harness(h, i, work, pid):
    r = dict(src=h["src"], backend=h.get("backend", "default"))
    b = r["backend"]
    cfg = cxxast.make_cfg(REPO, work, b)
    exe = os.path.join(work, "h%d_%s" % (i, b))
    t0 = time.time()
    flags = h.get("flags", ["-O1"])
    srcs = [os.path.join(REPO, "source", s) for s in h["repo"]]
    inc = ["-I" + cfg, "-I" + REPO + "/source/include", "-I" + REPO + "/source", "-I/usr/include/flint", "-I" + os.path.join(VERIF, "harness")]
    base = ["g++", "-std=c++14", "-w"] + flags + inc
    objs, procs = [], []
    for k, s in enumerate([os.path.join(VERIF, "harness", h["src"])] + srcs):
        o = exe + "_%d.o" % k
        objs.append(o)
        procs.append(subprocess.Popen(base + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for p in procs:
        out = p.communicate(timeout=600)[0]
        if p.returncode != 0:
            r.update(status="does not compile", detail=out.decode(errors="replace")[-2500:], compile_s=round(time.time() - t0, 1))
            for q in procs:
                q.wait()
            return r
    L = (["-lflint"] if b == "flint" else []) + ["-lgmpxx", "-lgmp", "-lpthread", "-lz"] + h.get("libs", [])
    p = subprocess.run(base + objs + ["-o", exe] + L, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        r.update(status="does not link", detail=p.stdout.decode(errors="replace")[-2500:])
        return r
    r["compile_s"] = round(time.time() - t0, 1)
    budget = h["budget"][1 if TIER == "thorough" else 0]
    env = dict(os.environ, VERIF_SEED=str(SEED), VH_BUDGET=str(budget), VERIF_TIER=TIER)
    rd = os.path.join(work, "run%d" % i)
    os.makedirs(rd, exist_ok=True)
    t1 = time.time()
    limit = h.get("limit", budget * 3 + 150)
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, env=env, cwd=rd)
        out, rc = p.stdout.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace"), "timeout"
    r["run_s"] = round(time.time() - t1, 1)
    r["cmd"] = "VERIF_SEED=%d VH_BUDGET=%s harness/%s [%s]" % (SEED, budget, h["src"], b)
    fails = []
    for m in re.finditer(r"^FAIL (.*?) :: (.*)$", out, re.M):
        fails.append((m.group(1), m.group(2)))
    r["fails"] = fails
    m = re.search(r"^RESULT (.*)$", out, re.M)
    res = None
    try:
        res = json.loads(m.group(1)) if m else None
    except ValueError:
        pass
    if res is not None:
        r.update(res)
        r["status"] = "completed"
    else:
        cur = re.findall(r"^CASE (.*)$", out, re.M)
        what = "exit %s%s; output ends: %s" % (rc, ("; running case " + cur[-1]) if cur else "", out[-600:].replace("\n", " | "))
        r["status"] = "hang" if rc == "timeout" else "crash"
        r["fails"].append(("hang" if rc == "timeout" else "crash", what))
    return r


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=<([^>]*)> (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------- extraction
def rename_map(base, new):
    """Map of positions in the new declaration list to baseline names, when locals were only renamed."""
    if base == new or base is None:
        return None
    bn, nn = [x[0] for x in base], [x[0] for x in new]
    missing = [x for x in base if x[0] not in nn]
    extra = [(i, x) for i, x in enumerate(new) if x[0] not in bn]
    mp = {}
    for b in missing:
        for k, (i, x) in enumerate(extra):
            if x[1] == b[1]:
                mp[i] = b[0]
                del extra[k]
                break
    return mp or None


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    try:
        return run(pid, mod, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, mod, work):
    harness = getattr(mod, "HARNESS", [])
    facts = getattr(mod, "FACTS", [])
    if "lean/FieldLaws.lean" in facts and subprocess.call([sys.executable, os.path.join(VERIF, "tool", "gen_laws.py"), "--check"]) != 0:
        raise RuntimeError("theories/fflaws.mlw and lean/FieldLaws.lean are not what tool/gen_laws.py generates from theories/laws.txt")
    groups = getattr(mod, "GROUPS", [])
    bg = ThreadPoolExecutor(len(harness) + 2)
    kn = known_findings(pid)
    stop = threading.Event()        # a failing input is in hand: no long proof attempts any more

    def hrun(h, i):
        r = run_harness(h, i, work, pid)
        if any(k not in [x[0] for x in kn] for k, _ in r.get("fails", [])):
            stop.set()
        return r
    hf = [bg.submit(hrun, h, i) for i, h in enumerate(harness)]
    ff = bg.submit(run_facts, facts, work)
    extra = None
    if hasattr(mod, "extra"):
        extra = bg.submit(mod.extra, REPO, work, TIER, SEED)

    locs = load_json(LOCALS, {})
    newlocs = {}
    sess = prove.Session(os.path.join(work, "why"), budget=(480 if TIER == "quick" else 2400), hints=load_json(os.path.join(HINTS, pid + ".json"), {}), stop=stop)
    funcs, undecided, texts, notes = [], [], {}, dict(inlined=set(), dropped=set())

    units = {}

    def load(g):
        k = (g["unit"], g.get("backend", "default"))
        try:
            return k, build.Unit(REPO, os.path.join(VERIF, "tu", g["unit"]), work, backend=k[1])
        except ExtractError as e:
            return k, e
    with ThreadPoolExecutor(4) as ex:
        for k, u in ex.map(load, groups):
            units[k] = u
    log("units loaded")
    for gi, g in enumerate(groups):
        u = units[(g["unit"], g.get("backend", "default"))]
        specs = {s.key: s for s in g["specs"]}
        suf = "_g%d" % gi if len(groups) > 1 else ""
        for s in g["specs"]:
            if not s.verify:
                continue
            for al in [None] + ([s.alias] if s.alias else []):
                name = build.module_name(s, al, suf)
                label = "%s%s [%s]" % (s.key, " (aliased operands)" if al else "", g.get("backend", "default"))
                lk = "%s|%s|%s" % (g["unit"], g.get("backend", "default"), s.key)
                try:
                    if isinstance(u, ExtractError):
                        raise u
                    txt, tr = build.build_module(u, specs, s, alias=al, suffix=suf)
                    ll = [list(x) for x in tr.local_log]
                    newlocs[lk] = ll
                    rm = rename_map(locs.get(lk), ll)
                    if rm:
                        txt, tr = build.build_module(u, specs, s, alias=al, suffix=suf, rename=rm)
                except ExtractError as e:
                    undecided.append((label, "extraction: %s" % e))
                    continue
                except Exception as e:          # noqa: the extraction met a construct it does not know
                    if DEV:
                        raise
                    undecided.append((label, "extraction failed: %s: %s" % (type(e).__name__, e)))
                    continue
                texts[name] = txt
                funcs.append(dict(name=name, label=label, spec=s))
                notes["inlined"] |= set(tr.inlined)
                notes["dropped"] |= set(str(x) for x in tr.dropped)
    for nm, t in getattr(mod, "LEMMAS", {}).items():
        texts[nm] = t
        funcs.append(dict(name=nm, label="lemma module " + nm, spec=None))
    th = theory_files(texts.values())
    jobs = [(n, t, None) for n, t in texts.items()] + [("T_" + n, open(f).read(), f) for n, f in th.items()]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: sess.add(j[0], j[1]), jobs))
    errs = dict(sess.errors)
    for f in list(funcs):
        if f["name"] in errs:
            undecided.append((f["label"], "annotations no longer fit the code: " + re.sub(r"Warning[^\n]*\n", "", errs[f["name"]])[-300:].strip()))
            funcs.remove(f)
    for n in th:
        if "T_" + n in errs:
            undecided.append(("theory " + n, errs["T_" + n][-300:]))
    log("%d modules, %d obligations generated" % (len(jobs), len(sess.goals)))
    bad = sess.run()
    hr = [f.result() for f in hf]
    found = stop.is_set()
    if bad and not found and len(bad) <= 24 and not (sess.deadline and time.time() > sess.deadline - 60):
        log("retrying %d obligations" % len(bad))
        sess.retry(bad)
        bad = [g for g in sess.goals if g.result != "valid"]
    log("%d unproved" % len(bad))
    # vacuity: with the postcondition replaced by false, some path must stay unprovable
    vac = {} if found else smoke(sess, funcs, texts, work)
    log("vacuity done: %d checked, %d vacuous" % (len(vac), sum(vac.values())))
    for n, v in vac.items():
        if v:
            lab = [f["label"] for f in funcs if f["name"] == n][0]
            notes.setdefault("vacuous", []).append(lab)
    fr = ff.result()
    xr = extra.result() if extra else None
    log("harness done:", ["%s/%s %s" % (r["src"], r["backend"], r["status"]) for r in hr])

    # ------------------------------------------------------------ verdict
    viol, knownhit = [], []
    for r in hr:
        for key, what in r.get("fails", []):
            hit = [k for k in kn if k[0] == key]
            if hit:
                if hit[0] not in knownhit:
                    knownhit.append(hit[0])
            else:
                viol.append(("input", "%s [%s, %s]" % (key, r["src"], r["backend"]), what, r.get("cmd", "")))
    if xr:
        for key, what in xr.get("fails", []):
            viol.append(("input", key, what, "specs/%s.py extra()" % pid.lower()))
    obl = list(xr.get("obl", [])) if xr else []
    lab = {f["name"]: f["label"] for f in funcs}
    for g in bad:
        obl.append((lab.get(g.module, g.module), g))
    for f, x in fr.items():
        if not x["ok"]:
            obl.append((f, x["out"]))
    for l in notes.get("vacuous", []):
        obl.append((l, "precondition or callee contracts contradictory: postcondition 'false' provable"))
    for k, w in knownhit:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, w))
    if DEV:
        for l, g in obl:
            print("UNPROVED", l, "|", (g.name, g.loc, g.src, g.goaltext(), g.log) if hasattr(g, "log") else g)
        for l, w in undecided:
            print("UNDECIDED", l, "|", w)
        for r in hr:
            if r["status"] != "completed":
                print("HARNESS", r["src"], r["backend"], r["status"], r.get("detail", ""))
    rc = 0
    if viol or obl:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("property %s, seed %d, tier %s\n" % (pid, SEED, TIER))
            for kind, key, what, cmd in viol:
                f.write("\nfailing input against the real code\n  contract: %s\n  input:    %s\n  rerun:    %s\n" % (key, what, cmd))
            for l, g in obl:
                if hasattr(g, "log"):
                    f.write("\nfailed obligation in %s\n  goal %s, generated from line %s of the extracted module: %s\n  %s\n  solvers: %s\n" % (
                        l, g.name, g.loc, g.src, g.goaltext(), "; ".join(g.log)))
                else:
                    f.write("\nfailed obligation: %s\n  %s\n" % (l, g))
            for n in sorted(set(g.module for _, g in obl if hasattr(g, "log"))):
                f.write("\n---- extracted module %s\n%s\n" % (n, texts.get(n, "")))
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if viol else " no-failing-input-found"))
        for kind, key, what, cmd in viol[:5]:
            print("  %s: %s" % (key, what[:400]))
        for l, g in obl[:8]:
            print("  unproved obligation in %s: %s" % (l, (g.src or g.name) if hasattr(g, "log") else str(g)[:200]))
        rc = 1
    write_evidence(pid, mod, sess, funcs, undecided, notes, fr, hr, xr, vac, th, rc, len(viol) + (1 if obl and not viol else 0), bad)
    if RECORD:
        os.makedirs(HINTS, exist_ok=True)
        json.dump({g.hash(): g.solver for g in sess.goals if g.result == "valid" and g.solver != prove.PORTFOLIO[0][0]},
                  open(os.path.join(HINTS, pid + ".json"), "w"), indent=0, sort_keys=True)
        d = load_json(LOCALS, {})
        d.update(newlocs)
        json.dump(d, open(LOCALS, "w"), indent=0, sort_keys=True)
    log("exit", rc)
    return rc


def smoke(sess, funcs, texts, work):
    """Postcondition false must not be provable on every path of a function."""
    jobs = []
    for f in funcs:
        s = f["spec"]
        if s is None or (s.opts.get("nosmoke")):
            continue
        t = texts[f["name"]]
        # the definition is the last `let` of the module
        i = max(t.rfind("\nlet f_"), t.rfind("\nlet rec f_"))
        head, body = t[:i], t[i:]
        j = body.index("\n=\n")
        spec, code = body[:j], body[j:]
        keep = []
        skip = False
        for l in spec.split("\n"):
            if re.match(r"\s*(ensures|returns)\b", l):
                skip = True
                continue
            if re.match(r"\s*(requires|raises|writes|reads|variant|diverges|let)\b", l):
                skip = False
            if not skip:
                keep.append(l)
        body = "\n".join(keep) + "\n  ensures { false }" + code
        jobs.append((f["name"], head.replace("module M_", "module S_", 1) + body))
    res = {}
    sub = prove.Session(os.path.join(work, "smoke"), portfolio=[("z3-4.8.12", 1)] + ([("cvc5-1.1.2", 2)] if TIER == "thorough" else []))

    def one(j):
        n, t = j
        gs = sub.add("S_" + n, t)
        if not gs:
            return
        posts = [g for g in gs if g.goalfalse()]
        if not posts:
            return
        ok = False
        for g in posts:
            sub.decide(g)
            if g.result != "valid":
                ok = True
                break
        res[n] = not ok
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    return res


def write_evidence(pid, mod, sess, funcs, undecided, notes, fr, hr, xr, vac, th, rc, nviol, bad):
    import collections
    by = collections.Counter(g.solver.split("/")[0] for g in sess.goals if g.result == "valid")
    perf = collections.defaultdict(lambda: [0, 0])
    for g in sess.goals:
        perf[g.module][0] += 1
        perf[g.module][1] += g.result == "valid"
    thn = sum(1 for g in sess.goals if g.module.startswith("T_"))
    cov = dict(
        obligations=len(sess.goals) + sum(x["theorems"] for x in fr.values()),
        discharged=sum(1 for g in sess.goals if g.result == "valid") + sum(x["theorems"] for x in fr.values() if x["ok"]),
        checker_cmd="why3 prove -a split_vc -L theories (obligations), z3 4.8.12 / z3-new / cvc5 1.1.2 / E 2.6; coqc, lean for the facts files",
        trusted_base=getattr(mod, "TRUSTED", []) + TRUSTED,
        functions_under_contract=[dict(function=f["label"], obligations=perf[f["name"]][0], discharged=perf[f["name"]][1]) for f in funcs],
        obligations_of_supporting_theories=thn,
        theories=sorted(th),
        proved_by=dict(by),
        solver_seconds=round(sum(g.time for g in sess.goals), 1),
        facts={f: dict(ok=x["ok"], theorems=x["theorems"], seconds=x["time"], cmd=x["cmd"]) for f, x in fr.items()},
        vacuity=dict(functions_checked=len(vac), vacuous=sum(vac.values())),
        undecided_functions=[dict(function=a, reason=b, stand_in="bounded: executable-contract harness") for a, b in undecided],
        unproved=[dict(module=g.module, goal=g.name, source=g.src) for g in bad],
        helpers_inlined=sorted(notes["inlined"]),
        statements_dropped_by_extraction=sorted(notes["dropped"]),
        bounded_stand_ins=getattr(mod, "BOUNDED", []),
        executable_contracts=[{k: v for k, v in r.items() if k not in ("fails", "detail")} for r in hr],
    )
    if xr:
        cov["extra"] = xr.get("coverage", {})
        cov["obligations"] += xr.get("obligations", 0)
        cov["discharged"] += xr.get("discharged", 0)
    if hr:
        cov["evaluations"] = sum(r.get("evaluations", 0) for r in hr)
        cov["distinct_nontrivial"] = sum(r.get("distinct", 0) for r in hr)
        cov["rule"] = "counterexample search: pseudo-random and exhaustive-small inputs (VERIF_SEED) run through the real code and compared with an independent oracle; distinct by hash of the input text"
        cov["samples"] = sum([r.get("samples", [])[:4] for r in hr], [])
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=getattr(mod, "LEVEL", "proof"), coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - T0, 1), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)


TRUSTED = [
    "clang 18 front end (AST of the code that is compiled), tool/cxx2why.py (translation of that AST to WhyML), Why3's VC generator, the solvers",
    "theories/cxx.mlw: contracts of std::vector / std::pair / GMP operations as documented; allocation failure not modelled",
    "pointers and references into containers are tracked as access paths; two reference parameters are distinct objects unless an aliased variant is listed",
]

if __name__ == "__main__":
    rc = 0
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        pid = sys.argv[1]
        # the machinery failed: no verdict about the property
        rc = 0
        try:
            json.dump(dict(property=pid, tier="quick", seed=SEED, level="other", coverage=dict(explanation="check machinery failed: " + traceback.format_exc()[-1500:]), wall_s=time.time() - T0), open(os.path.join(VERIF, "evidence", pid + ".json"), "w"))
        except OSError:
            pass
        if DEV:
            rc = 2
    sys.exit(rc)
