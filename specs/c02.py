"""C02: bunched field vectors act lane by lane (FFIntVec.cpp, FFIntVec.hpp)."""
from common import CORE
from cxx2why import FSpec, Loop
V = "FFIntVec<2>"
D = "val constant lanes : int ensures { 1 <= result <= 2147483647 }\n"
O = dict(arrlen="lanes")
RV, AV, BV, TV = "result.ffintvec_vec", "a.ffintvec_vec", "b.ffintvec_vec", "this.ffintvec_vec"
OLD = "(old this).ffintvec_vec"
OPS = {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}
U = []


def lane(res, rhs):
    return ["length %s = lanes" % res, "forall j. 0 <= j < lanes -> %s[j] = %s" % (res, rhs)]


def spec(key, params, rhs, orig, req=(), writes=(), throws=None, loc="result_.ffintvec_vec"):
    res = TV if writes else RV
    cur = TV if writes else loc
    o0 = OLD if writes else orig
    inv = ["0 <= i <= lanes", "length %s = lanes" % cur,
           "forall j. 0 <= j < i -> %s[j] = %s" % (cur, rhs.replace("@", o0 or ""))]
    if orig == "b":
        inv.append("forall j. i <= j < lanes -> %s[j] = b" % cur)
    elif orig is not None:
        inv.append("forall j. i <= j < lanes -> %s[j] = %s[j]" % (cur, o0))
    U.append(FSpec(key, params, list(req), lane(res, rhs.replace("@", o0 or "")), ff="abs", decls=D, opts=dict(O), writes=writes,
                   throws=throws, loops={0: Loop(inv, "lanes - i")}))


for op, f in OPS.items():
    spec("operator%s(%s,%s)" % (op, V, V), ["a", "b"], "%s @[j] %s[j]" % (f, BV), AV)
    spec("operator%s(%s,FFInt)" % (op, V), ["a", "b"], "%s @[j] b" % f, AV)
    if op in "+*":
        spec("operator%s(FFInt,%s)" % (op, V), ["b", "a"], "%s @[j] b" % f, AV)
    else:
        spec("operator%s(FFInt,%s)" % (op, V), ["b", "a"], "%s b %s[j]" % (f, AV), "b")
    spec("FFIntVec::operator%s=(%s)" % (op, V), ["a"], "%s @[j] %s[j]" % (f, AV), OLD, writes=["this"])
spec("operator-(%s)" % V, ["a"], "fneg %s[j]" % AV, None)
spec("operator+(%s)" % V, ["a"], "%s[j]" % AV, None)
spec("pow(%s,%s)" % (V, V), ["a", "power"], "fpowff @[j] power.ffintvec_vec[j]", AV)
spec("FFIntVec::pow(%s)" % V, ["power"], "fpowff @[j] power.ffintvec_vec[j]", TV)
spec("FFIntVec::pow(FFInt)", ["power"], "fpowff @[j] power", TV)
spec("FFIntVec::pow(i32)", ["power"], "fpow @[j] power", TV)
spec("FFIntVec::pow(vec<i32>)", ["power"], "fpow @[j] power[j]", TV, throws="length power <> lanes")
B = dict(ff="abs", decls=D, opts=dict(O))
U += [FSpec("FFIntVec::FFIntVec(FFInt)", ["in_"], [], lane(RV, "in_"), **B),
      FSpec("FFIntVec::FFIntVec()", [], [], lane(RV, "fzero"), **B),
      FSpec("FFIntVec::FFIntVec(%s)" % V, ["in_"], [], lane(RV, "in_.ffintvec_vec[j]"), **B),
      FSpec("FFIntVec::FFIntVec(arr<FFInt,2>)", ["in_"], [], lane(RV, "in_[j]"), **B),
      FSpec("FFIntVec::at(i32)", ["i"], [], ["0 <= i < lanes", "result = %s[i]" % TV], throws="not (0 <= i < lanes)", **B),
      FSpec("FFIntVec::size()", [], [], ["result = lanes"], **B),
      FSpec("operator==(%s,%s)" % (V, V), ["a", "b"], [], ["result <-> %s == %s" % (AV, BV)], **B),
      FSpec("operator!=(%s,%s)" % (V, V), ["a", "b"], [], ["result <-> not %s == %s" % (AV, BV)], **B)]
GROUPS = [dict(unit="u_vec.cpp", specs=U)]
FACTS = []
HARNESS = [dict(src="c02.cpp", repo=CORE, budget=(6, 60))]
NOTE = "Proof for every lane count (the lane count is a symbol of the extracted instantiation) that each operation on bunched vectors is the scalar operation lane by lane."
ASSUMPTIONS = ["FFInt operations are abstract field operations here (their exactness is C01)", "the proof covers the extracted instantiations with the lane count generalised to a symbol; other explicit specialisations would be seen by the bounded harness only"]
