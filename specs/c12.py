"""C12: evaluation of parsed expressions (ShuntingYardParser)."""
from common import CORE
from cxx2why import FSpec, Loop
from cxxast import Ty
B = dict(ff="abs", use=["ffield.Field", "fflaws.Laws", "rpn.Rpn"])
S = "this.shuntingyardparser_"
PRE, POS, FUN, CHK = S + "precomp_tokens", S + "evaluation_positions", S + "functions", S + "check_is_equal"
WF = ["forall i. 0 <= i < length %s -> wf %s[i] (length values)" % (PRE, PRE), CHK + " -> forall j. 0 <= j < length %s -> %s[j] < length %s" % (POS, POS, PRE),
      CHK + " -> length %s = length %s -> length %s = length %s /\\ forall j. 0 <= j < length %s -> %s[j] = j" % (FUN, POS, POS, PRE, POS, POS)]
OUT = ["not " + CHK + " -> length result = length %s /\\ forall i. 0 <= i < length %s -> result[i] = value %s[i] values" % (PRE, PRE, PRE),
       CHK + " -> length result = length %s /\\ forall j. 0 <= j < length %s -> result[j] = value %s[%s[j]] values" % (POS, POS, PRE, POS)]
U = []
U.append(FSpec("ShuntingYardParser::evaluate_pre(vec<FFInt>)", ["values"], WF, OUT,
    loops={0: Loop(["length neg_values = idx0", "forall k. 0 <= k < idx0 -> neg_values[k] = fneg values[k]"]),
           1: Loop(["length res = idx1", "forall k. 0 <= k < idx1 -> res[k] = value %s[k] values" % PRE]),
           2: Loop(["nums = run %s[idx1] idx2 values empty" % PRE], begin="run_depth (pure { %s[idx1] }) idx2 (length values) values;" % PRE, after="run_depth (pure { %s[idx1] }) (length %s[idx1]) (length values) values;" % (PRE, PRE)),
           3: Loop(["length full_res = idx3", "forall j. 0 <= j < idx3 -> full_res[j] = res[%s[j]]" % POS])}, **B))
RD = "run_depth (pure { %s[idx1] }) %%s (length values) values;" % PRE
U.append(FSpec("ShuntingYardParser::evaluate_pre_2(vec<FFInt>)", ["values"], WF, OUT,
    loops={0: Loop(["length neg_values = idx0", "forall k. 0 <= k < idx0 -> neg_values[k] = fneg values[k]"]),
           1: Loop(["length res = idx1", "forall k. 0 <= k < idx1 -> res[k] = value %s[k] values" % PRE]),
           2: Loop(["length stack = length %s[idx1] + 1" % PRE, "0 <= stack_depth <= idx2", "stack_depth = length (run %s[idx1] idx2 values empty)" % PRE,
                    "forall k. 0 <= k < stack_depth -> stack[k + 1] = (run %s[idx1] idx2 values empty)[k]" % PRE], begin=RD % "idx2", after=RD % ("(length %s[idx1])" % PRE)),
           3: Loop(["length full_res = idx3", "forall j. 0 <= j < idx3 -> full_res[j] = res[%s[j]]" % POS])}, **B))
BS = dict(ff="abs", opts=dict(strseq=True), use=["ffield.Field", "fflaws.Laws", "cxxstr.Str", "cxxmap.FMap", "rpn.Rpn", "rpns.RpnS"])
VM = S + "vars_map"
V_ = []
LEAF = "assert { pure { trs fun %s }[idx0] = tr fun[idx0] %s };" % (VM, VM)
V_.append(FSpec("ShuntingYardParser::evaluate(vec<str>,vec<FFInt>)", ["fun_", "values"], ["swf fun_ %s (length values)" % VM], ["result = value (trs fun_ %s) values" % VM],
    loops={0: Loop(["nums = run (trs fun_ %s) idx0 values empty" % VM], begin="run_depth (trs fun_ %s) idx0 (length values) values; assert { (trs fun_ %s)[idx0] = tr fun_[idx0] %s }; tok_facts (pure { fun_[idx0] }) %s values;" % (VM, VM, VM, VM), after="run_depth (trs fun_ %s) (length fun_) (length values) values;" % VM)}, **BS))
FT = "(trs %s[idx0] %s)" % (FUN, VM)
WFS = ["forall i. 0 <= i < length %s -> swf %s[i] %s (length values)" % (FUN, FUN, VM), CHK + " -> forall j. 0 <= j < length %s -> %s[j] < length %s" % (POS, POS, FUN),
       CHK + " -> length %s = length %s -> forall j. 0 <= j < length %s -> %s[j] = j" % (FUN, POS, POS, POS)]
SV = "value (trs %s[%%s] %s) values" % (FUN, VM)
OUTS = ["not " + CHK + " -> length result = length %s /\\ forall i. 0 <= i < length %s -> result[i] = %s" % (FUN, FUN, SV % "i"),
        CHK + " -> length result = length %s /\\ forall j. 0 <= j < length %s -> result[j] = %s" % (POS, POS, SV % (POS + "[j]"))]
G_ = "pure { %s[idx0] }" % FUN
V_.append(FSpec("ShuntingYardParser::evaluate(vec<FFInt>)", ["values"], WFS, OUTS,
    loops={0: Loop(["length res = idx0", "forall k. 0 <= k < idx0 -> res[k] = %s" % (SV % "k")]),
           1: Loop(["nums = run %s idx1 values empty" % FT],
                   begin="run_depth (trs (%s) %s) idx1 (length values) values; assert { %s[idx1] = tr %s[idx0][idx1] %s }; tok_facts (pure { %s[idx0][idx1] }) %s values;" % (G_, VM, FT, FUN, VM, FUN, VM),
                   after="run_depth (trs (%s) %s) (length %s[idx0]) (length values) values;" % (G_, VM, FUN)),
           2: Loop(["length full_res = idx2", "forall j. 0 <= j < idx2 -> full_res[j] = res[%s[j]]" % POS])}, **BS))
BP = dict(ff="abs", opts=dict(strseq=True), use=["ffield.Field", "fflaws.Laws", "cxxstr.Str", "cxxmap.FMap", "rpn.Rpn", "rpns.RpnS", "rpnpc.RpnPC", "rpnpre.RpnPre"])
PAR = S + "partial_rpn"
P_ = []
J = "(j + offset)"
SP = "(pc tokens %s %s)" % (J, VM)
P_.append(FSpec("ShuntingYardParser::precompute(vec<str>,u64)", ["tokens", "i"],
    ["vm_ok " + VM, "swf tokens %s fmodulus" % VM, "length tokens < 4294967296", "i < length %s" % PRE, "i < length %s" % PAR, "length %s[i] = 0" % PAR],
    ["length %s = length (old %s)" % (PRE, PRE), "length %s = length (old %s)" % (PAR, PAR),
     "forall k. 0 <= k < length %s -> k <> i -> %s[k] = (old %s)[k]" % (PRE, PRE, PRE), "forall k. 0 <= k < length %s -> k <> i -> %s[k] = (old %s)[k]" % (PAR, PAR, PAR),
     "%s[i] = insts (pc tokens (length tokens) %s) %s" % (PRE, VM, VM), "%s[i] = parts (pc tokens (length tokens) %s) (length (pc tokens (length tokens) %s))" % (PAR, VM, VM)],
    loops={0: Loop([J + " <= length tokens", "j <= t_size", "t_size = length tokens - offset", "length %s = j" % SP,
                    "length %s = length (old %s)" % (PRE, PRE), "length %s = length (old %s)" % (PAR, PAR),
                    "forall k. 0 <= k < length %s -> k <> i -> %s[k] = (old %s)[k]" % (PRE, PRE, PRE), "forall k. 0 <= k < length %s -> k <> i -> %s[k] = (old %s)[k]" % (PAR, PAR, PAR),
                    "length %s[i] = t_size" % PRE, "forall k. 0 <= k < j -> %s[i][k] = inst %s[k] %s" % (PRE, SP, VM), "%s[i] = parts %s j" % (PAR, SP)],
                   begin="pc_step tokens (j + offset) fmodulus %s; let ghost q0 = j + offset in let ghost sp0 = pc tokens q0 %s in" % (VM, VM), variant="t_size - j")}, **BP))
GROUPS = [dict(unit="u_syp.cpp", specs=U), dict(unit="u_syp.cpp", specs=V_)]
HARNESS = [dict(src="c12.cpp", repo=CORE, budget=(8, 60))]
BOUNDED = ["ShuntingYardParser::precompute", "ShuntingYardParser::precompute_tokens", "ShuntingYardParser::trim", "ShuntingYardParser::add_otf", "ShuntingYardParser::add_otf_precompute", "evaluate_pre<FFIntVec>, evaluate_pre_2<FFIntVec>", "ShuntingYardParser::parse and its helpers (tokens from text)"]
NOTE = "Contracts on evaluate_pre<FFInt>, evaluate_pre_2<FFInt>, evaluate(values) and evaluate(tokens, values): for every number of functions, tokens and variables the result is the value the token sequence (of numbers and operators, or of strings) denotes on a ghost stack machine, in the order of the evaluation positions; all stack, string and buffer accesses stay inside. Precomputation, prime changes, bunches and trimming are compared with an independent evaluation (bounded)."
ASSUMPTIONS = ["The field operations of FFInt are taken by their contracts (proved under C01, C02); FFInt::to_neg_int for exponents below 2^31.",
               "The token sequences are well formed (each operator finds its operands, variables are in range, one value remains): a precondition of the evaluation functions; that the parser builds such sequences is exercised by the harness (bounded).",
               "Variable names have at most 18 characters including a sign and are not made of digits only; there are fewer variables than the modulus.",
               "std::stack is last-in-first-out; std::string is a sequence of characters with the standard's meaning of ==, erase, size; std::stoull and mpz_class(string) give the decimal value of a string of digits; new[] and delete[] of the evaluation stack own the memory.",
               "The instantiations for FFIntVec<N> share the template text; their lanes are compared with the scalar evaluation (bounded). Powers of bunches take one exponent for all lanes."]
