"""Discharge of WhyML modules: Why3 generates the obligations, a solver portfolio decides them."""
import os, re, subprocess, time, hashlib, json, threading, glob
import smtabs
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WHY3 = "/usr/bin/why3"
CONF = os.path.join(HERE, "why3.conf")
THEO = os.path.join(VERIF, "theories")
NCPU = 8

SOLVERS = {
    "z3-4.8.12": lambda f, t: ["/usr/bin/z3", "-smt2", "-T:%d" % t, "-memory:3000", f],
    "z3-5": lambda f, t: ["z3-new", "-smt2", "-T:%d" % t, "-memory:3000", f],
    "cvc5-1.1.2": lambda f, t: ["/usr/bin/cvc5", "--tlimit=%d" % (t * 1000), "--quiet", f],
    "cvc5-1.1.2/nl": lambda f, t: ["/usr/bin/cvc5", "--tlimit=%d" % (t * 1000), "--quiet", "--nl-ext-tplanes", "--enum-inst", f],
    "z3-4.8.12/arith2": lambda f, t: ["/usr/bin/z3", "-smt2", "-T:%d" % t, "-memory:3000", "smt.arith.solver=2", "smt.random_seed=7", f],
    "eprover-2.6": lambda f, t: ["/usr/bin/eprover", "--auto-schedule", "-s", "--cpu-limit=%d" % t, "--memory-limit=2000", f],
}
SOLVERS["z3-4.8.12/uf"] = lambda f, t: ["/usr/bin/z3", "-smt2", "-T:%d" % t, "-memory:3000", f]
SOLVERS["z3-4.8.12/uf/hyp"] = SOLVERS["z3-4.8.12/hyp"] = SOLVERS["z3-4.8.12/uf"]
SOLVERS["cvc5-1.1.2/hyp"] = SOLVERS["cvc5-1.1.2/nl"]
SOLVERS["z3-4.8.12/lean"] = SOLVERS["z3-4.8.12"]
SOLVERS["cvc5-1.1.2/lean"] = SOLVERS["cvc5-1.1.2"]
DRV = {"z3-4.8.12/lean": "z3_lean", "cvc5-1.1.2/lean": "z3_lean", "z3-4.8.12/uf": "z3_uf", "z3-4.8.12/uf/hyp": "z3_uf_noax", "z3-4.8.12/hyp": "z3_noax", "cvc5-1.1.2/hyp": "z3_noax", "z3-4.8.12": "z3", "z3-5": "z3", "z3-4.8.12/arith2": "z3", "cvc5-1.1.2": "cvc5", "cvc5-1.1.2/nl": "cvc5", "eprover-2.6": "eprover"}
DRVP = {"z3": "Z3,4.8.12", "cvc5": "CVC5,1.1.2", "eprover": "Eprover,2.6"}
PORTFOLIO = [("z3-4.8.12/uf/hyp", 1), ("z3-4.8.12/lean", 2), ("z3-4.8.12", 2), ("cvc5-1.1.2/lean", 3), ("z3-4.8.12/hyp", 3), ("z3-4.8.12/uf", 3), ("cvc5-1.1.2/hyp", 4), ("cvc5-1.1.2", 5), ("z3-5", 6), ("z3-4.8.12/arith2", 10), ("cvc5-1.1.2/nl", 15), ("z3-4.8.12", 30), ("eprover-2.6", 20)]

_procs = set()


def run_solver(name, f, t):
    t0 = time.time()
    try:
        p = subprocess.run(SOLVERS[name](f, t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t + 5)
        out = p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        out = "timeout"
    dt = time.time() - t0
    if name.startswith("eprover"):
        ok = "Proof found" in out or "SZS status Theorem" in out
        return ("valid" if ok else "unknown"), dt, out[:300]
    first = ""
    for l in out.splitlines():
        l = l.strip()
        if l in ("sat", "unsat", "unknown", "timeout"):
            first = l
            break
    return ({"unsat": "valid", "sat": "sat"}.get(first, "unknown")), dt, out[:300]


class Goal:
    def __init__(self, module, idx, name, loc, files, src):
        self.module, self.idx, self.name, self.loc, self.files, self.src = module, idx, name, loc, files, src
        self.result = None
        self.solver = None
        self.time = 0.0
        self.log = []

    def label(self):
        return "%s#%d %s: %s" % (self.module, self.idx, self.name, self.src)

    def hash(self):
        if not hasattr(self, "_h"):
            self._h = hashlib.sha1(re.sub(r";; File.*", "", open(self.files["z3"]).read()).encode()).hexdigest()
        return self._h

    def goaltext(self):
        s = open(self.files["z3"]).read()
        i = s.rfind(";; Goal")
        return re.sub(r"\s+", " ", re.sub(r";;[^\n]*", "", s[i:]).replace("(check-sat)", "")).strip()[:1500]

    def goalfalse(self):
        return re.sub(r"\s", "", self.goaltext()) in ("(assert(notfalse))", "(assert(notfalse))(exit)") or "(assert(notfalse))" in re.sub(r"\s", "", self.goaltext())


def gen(mlw, outdir, drv):
    d = os.path.join(outdir, drv)
    os.makedirs(d, exist_ok=True)
    r = subprocess.run([WHY3, "prove", "-C", CONF, "-L", THEO, "-a", "split_vc", "-P", DRVP[drv], "-o", d, mlw],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return r.returncode, r.stdout.decode(errors="replace"), d


class Session:
    """A set of modules proved together on all cores."""

    def __init__(self, work, portfolio=None, budget=None, cache=None, hints=None, stop=None):
        self.stop = stop
        self.hints = hints or {}
        self.work = work
        os.makedirs(work, exist_ok=True)
        self.pool = ThreadPoolExecutor(NCPU)
        self.portfolio = portfolio or PORTFOLIO
        self.goals = []
        self.errors = []
        self.cache = cache
        self.deadline = time.time() + budget if budget else None

    def add(self, name, text):
        """Returns list of goals of the module (generated by why3)."""
        f = os.path.join(self.work, name + ".mlw")
        open(f, "w").write(text)
        rc, out, d = gen(f, os.path.join(self.work, name + ".d"), "z3")
        if rc != 0 or "rror" in "\n".join(l for l in out.splitlines() if not l.startswith("Warning")):
            self.errors.append((name, out))
            return None
        lines = text.splitlines()
        files = sorted((x for x in glob.glob(d + "/*.smt2") if ".z3_" not in x), key=lambda x: (re.sub(r"\d*\.smt2$", "", x), int((re.search(r"(\d+)\.smt2$", x) or [0, "0"])[1]) if re.search(r"vc\d+\.smt2$|\D(\d+)\.smt2$", x) else 0))
        gs = []
        for i, sf in enumerate(files):
            s = open(sf).read()
            m = re.search(r';; Goal "([^"]*)"\n;; File "([^"]*)", line (\d+), characters (\d+)-(\d+)', s)
            src, nm, loc = "", os.path.basename(sf), None
            if m:
                nm = m.group(1)
                loc = int(m.group(3))
                if os.path.basename(m.group(2)) == name + ".mlw" and loc <= len(lines):
                    src = lines[loc - 1].strip()
                else:
                    src = "%s:%d" % (os.path.basename(m.group(2)), loc)
            gs.append(Goal(name, i, nm, loc, {"z3": sf}, src[:200]))
        self.goals += gs
        return gs

    def gen_other(self, g, drv):
        if drv in g.files:
            return g.files[drv]
        if drv.startswith("z3_"):
            w = smtabs.prune(open(g.files["z3"]).read()) if drv == "z3_lean" else smtabs.weaken(open(g.files["z3"]).read(), uf="uf" in drv, axioms="noax" not in drv)
            g.files[drv] = None
            if w:
                g.files[drv] = g.files["z3"][:-5] + ".%s.smt2" % drv
                open(g.files[drv], "w").write(w)
            return g.files[drv]
        key = (g.module, drv)
        with self._lock:
            lk = self._locks.setdefault(key, threading.Lock())
        with lk:
            d = os.path.join(self.work, g.module + ".d", drv)
            if not os.path.isdir(d):
                gen(os.path.join(self.work, g.module + ".mlw"), os.path.join(self.work, g.module + ".d"), drv)
        base = os.path.splitext(os.path.basename(g.files["z3"]))[0]
        c = glob.glob(os.path.join(d, glob.escape(base) + ".*"))
        g.files[drv] = c[0] if c else None
        return g.files[drv]

    _lock = threading.Lock()
    _locks = {}

    def decide(self, g, mult=1):
        h = None
        if self.cache:
            h = hashlib.sha1(re.sub(r";; File.*", "", open(g.files["z3"]).read()).encode()).hexdigest()
            cf = os.path.join(self.cache, h)
            if os.path.exists(cf):
                g.result, g.solver = "valid", open(cf).read()
                return
        pf = self.portfolio
        if self.hints:
            hs = self.hints.get(g.hash())
            if hs in SOLVERS:
                pf = [(hs, 3 * max([t for n, t in PORTFOLIO if n == hs] + [2]))] + list(pf)
        if mult > 1:
            pf = [(n, t * mult) for n, t in pf]
        for name, t in pf:
            if self.deadline and time.time() > self.deadline:
                g.log.append("budget exhausted")
                break
            if self.stop and self.stop.is_set() and g.time > 8:
                g.log.append("short attempt: a failing input was found")
                break
            f = self.gen_other(g, DRV[name])
            if f is None:
                continue
            r, dt, out = run_solver(name, f, t)
            g.time += dt
            g.log.append("%s(%ds): %s %.2fs" % (name, t, r, dt))
            if r == "valid":
                g.result, g.solver = "valid", name
                if h:
                    open(cf, "w").write(name)
                return
        g.result = "unproved"

    def run(self):
        list(self.pool.map(self.decide, self.goals))
        return [g for g in self.goals if g.result != "valid"]

    def retry(self, goals):
        list(self.pool.map(lambda g: self.decide(g, 2), goals))
