"""C16: random field elements (contracts on the generators in BaseReconst.cpp, bit-vector reading)."""
from cxx2why import FSpec, Loop
from common import CORE

BV = dict(bv=True, abstype={"BaseReconst": "int"}, globals={"ffint_p": "BV64.t", "basereconst_state": "BV64.t", "basereconst_splitmix64_state": "BV64.t", "basereconst_s": "(seq BV64.t)"})
DEFS = """
function c32 (n : int) : BV32.t = BV32.of_int n
function rotl (x k : BV64.t) : BV64.t = BV64.bw_or (BV64.lsl_bv x k) (BV64.lsr_bv x (BV64.sub (64:BV64.t) k))
function rotr (x k : BV32.t) : BV32.t = if k = (0:BV32.t) then x else BV32.bw_or (BV32.lsr_bv x k) (BV32.lsl_bv x (BV32.sub (32:BV32.t) k))
(* PCG XSH-RR 64/32 *)
function lcg (x : BV64.t) : BV64.t = BV64.add (BV64.mul x (6364136223846793005:BV64.t)) (1442695040888963407:BV64.t)
function xsh (x : BV64.t) : BV32.t = Conv32.toSmall (BV64.lsr_bv (BV64.bw_xor x (BV64.lsr_bv x (18:BV64.t))) (27:BV64.t))
function pcg_out (x : BV64.t) : BV32.t = rotr (xsh x) (Conv32.toSmall (BV64.lsr_bv x (59:BV64.t)))
(* splitmix64 *)
constant golden : BV64.t = (0x9E3779B97f4A7C15:BV64.t)
function mix (x : BV64.t) : BV64.t =
  let a = BV64.mul (BV64.bw_xor x (BV64.lsr_bv x (30:BV64.t))) (0xBF58476D1CE4E5B9:BV64.t) in
  let b = BV64.mul (BV64.bw_xor a (BV64.lsr_bv a (27:BV64.t))) (0x94D049BB133111EB:BV64.t) in
  BV64.bw_xor b (BV64.lsr_bv b (31:BV64.t))
function x0 (seed : BV64.t) : BV64.t = BV64.add seed (1442695040888963407:BV64.t)
(* xoshiro256** *)
function xo_out (s1 : BV64.t) : BV64.t = BV64.mul (rotl (BV64.mul s1 (5:BV64.t)) (7:BV64.t)) (9:BV64.t)
predicate xo_step (s t : seq BV64.t) =
  length s = 4 /\\ length t = 4 /\\
  t[0] = BV64.bw_xor s[0] (BV64.bw_xor s[1] s[3]) /\\
  t[1] = BV64.bw_xor s[1] (BV64.bw_xor s[2] s[0]) /\\
  t[2] = BV64.bw_xor (BV64.bw_xor s[2] s[0]) (BV64.lsl_bv s[1] (17:BV64.t)) /\\
  t[3] = rotl (BV64.bw_xor s[3] s[1]) (45:BV64.t)
predicate alive (s : seq BV64.t) = length s = 4 /\\ not (s[0] = (0:BV64.t) /\\ s[1] = (0:BV64.t) /\\ s[2] = (0:BV64.t) /\\ s[3] = (0:BV64.t))
"""
U = []


def S(*a, **k):
    U.append(FSpec(*a, opts=dict(BV), decls=k.pop("decls", DEFS), use=["bv.BVConverter_32_64 as Conv32", "bv.BV32 as BV32", "bv.BV64 as BV64", "cxx.Vec"], **k))


G = "baserec_state", "baserec_s"
ST, SM, XS = "basereconst_state", "basereconst_splitmix64_state", "basereconst_s"
P = ["BV64.ugt ffint_p (2:BV64.t)"]
S("BaseReconst::rotr32(u32,u32)", ["x", "r"], ["BV32.ult r (32:BV32.t)"], ["result = rotr x r"])
S("BaseReconst::rol64(u64,i32)", ["x", "k"], ["BV32.sgt k (0:BV32.t) /\\ BV32.slt k (64:BV32.t)"], ["result = rotl x (Conv32.toBig k)"])
S("BaseReconst::pcg32()", [], [], ["%s = lcg (old %s)" % (ST, ST), "result = pcg_out (old %s)" % ST], writes=[ST])
S("BaseReconst::pc32_init(u64)", ["seed"], [], ["%s = lcg (BV64.add seed (1442695040888963407:BV64.t))" % ST], writes=[ST])
S("BaseReconst::splitmix64()", [], [], ["%s = BV64.add (old %s) golden" % (SM, SM), "result = mix (old %s)" % SM], writes=[SM])
S("BaseReconst::xoshiro256ss()", [], ["length %s = 4" % XS],
  ["result = xo_out (old %s)[1]" % XS, "xo_step (old %s) %s" % (XS, XS), "alive (old %s) -> alive %s" % (XS, XS)], writes=[XS])
SEEDED = ["length %s = 4" % XS] + ["%s[%d] = mix %s" % (XS, i, x) for i, x in enumerate(("(x0 seed)", "(BV64.add (x0 seed) golden)", "(BV64.add (BV64.add (x0 seed) golden) golden)", "(BV64.add (BV64.add (BV64.add (x0 seed) golden) golden) golden)"))]
S("BaseReconst::xoshiro256ss_init(u64)", ["seed"], ["length %s = 4" % XS], SEEDED, writes=[XS, SM])
S("BaseReconst::set_seed(u64)", ["seed"], ["length %s = 4" % XS], SEEDED + ["%s = lcg (BV64.add seed (1442695040888963407:BV64.t))" % ST], writes=[ST, XS, SM])
S("BaseReconst::reset()", [], [], ["%s = (0x4d595df4d0f33173:BV64.t)" % ST, "%s = (0x4d595df4d0f33173:BV64.t)" % SM], writes=[ST, SM])
S("FFInt::FFInt(u64)", ["n"], P, ["result.ffint_n = BV64.urem n ffint_p"])
S("FFInt::FFInt(u32)", ["n"], P, ["result.ffint_n = BV64.urem (Conv32.toBig n) ffint_p"])
S("FFInt::FFInt(i32)", ["n"], P + ["n = (0:BV32.t)"], ["result.ffint_n = (0:BV64.t)"], verify=False)
S("operator!=(FFInt,FFInt)", ["a", "b"], [], ["result <-> a.ffint_n <> b.ffint_n"])
S("operator==(FFInt,FFInt)", ["a", "b"], [], ["result <-> a.ffint_n = b.ffint_n"])
S("FFInt::operator=(FFInt)", ["o"], [], ["this = o"], verify=False)
NZ = ["result.ffint_n <> (0:BV64.t)", "BV64.ult result.ffint_n ffint_p"]
o64 = "BV64.urem (xo_out (old %s)[1]) ffint_p" % XS
o32 = "BV64.urem (Conv32.toBig (pcg_out (old %s))) ffint_p" % ST
R64 = NZ + ["%s <> (0:BV64.t) -> result.ffint_n = %s /\\ xo_step (old %s) %s" % (o64, o64, XS, XS), "alive (old %s) -> alive %s" % (XS, XS)]
can = lambda v: "BV64.ult %s.ffint_n ffint_p" % v
S("BaseReconst::get_rand_64()", [], P + ["alive %s" % XS], R64, writes=[XS], diverges=True,
  loops={0: Loop(inv=[can("rand"), "alive %s" % XS, "%s <> (0:BV64.t) -> rand.ffint_n = %s /\\ xo_step (old %s) %s" % (o64, o64, XS, XS)])})
S("BaseReconst::get_rand()", [], P + ["alive %s" % XS], R64, writes=[XS], diverges=True)
S("BaseReconst::get_rand_32()", [], P, NZ + ["%s <> (0:BV64.t) -> result.ffint_n = %s /\\ %s = lcg (old %s)" % (o32, o32, ST, ST)], writes=[ST], diverges=True,
  loops={0: Loop(inv=[can("rand"), "%s <> (0:BV64.t) -> rand.ffint_n = %s /\\ %s = lcg (old %s)" % (o32, o32, ST, ST)])})
GROUPS = [dict(unit="u_baserec.cpp", specs=U)]
LEMMAS = {"M_seeded_state_is_alive": """module M_seeded_state_is_alive
  use int.Int
  use cxx.Vec
  use bv.BV32 as BV32
  use bv.BV64 as BV64
  use bv.BVConverter_32_64 as Conv32
""" + DEFS + """
  lemma mulC1: forall x. BV64.mul x (0xBF58476D1CE4E5B9:BV64.t) = (0:BV64.t) -> x = (0:BV64.t)
  lemma mulC2: forall x. BV64.mul x (0x94D049BB133111EB:BV64.t) = (0:BV64.t) -> x = (0:BV64.t)
  lemma sh30: forall x. BV64.bw_xor x (BV64.lsr_bv x (30:BV64.t)) = (0:BV64.t) -> x = (0:BV64.t)
  lemma sh27: forall x. BV64.bw_xor x (BV64.lsr_bv x (27:BV64.t)) = (0:BV64.t) -> x = (0:BV64.t)
  lemma sh31: forall x. BV64.bw_xor x (BV64.lsr_bv x (31:BV64.t)) = (0:BV64.t) -> x = (0:BV64.t)
  let lemma mix_zero (x : BV64.t) requires { mix x = (0:BV64.t) } ensures { x = (0:BV64.t) }
  = let ghost a = BV64.mul (BV64.bw_xor x (BV64.lsr_bv x (30:BV64.t))) (0xBF58476D1CE4E5B9:BV64.t) in
    let ghost b = BV64.mul (BV64.bw_xor a (BV64.lsr_bv a (27:BV64.t))) (0x94D049BB133111EB:BV64.t) in
    assert { BV64.bw_xor b (BV64.lsr_bv b (31:BV64.t)) = (0:BV64.t) };
    assert { b = (0:BV64.t) };
    assert { BV64.bw_xor a (BV64.lsr_bv a (27:BV64.t)) = (0:BV64.t) };
    assert { a = (0:BV64.t) }
  lemma next_differs: forall x. x = (0:BV64.t) -> BV64.add x golden <> (0:BV64.t)
  (* the state written by set_seed is never all zero, so drawing cannot loop forever on a dead state *)
  goal seeded_alive: forall s seed. length s = 4 -> s[0] = mix (x0 seed) -> s[1] = mix (BV64.add (x0 seed) golden) -> alive s
end
"""}
FACTS = []
HARNESS = [dict(src="c16.cpp", repo=CORE, budget=(6, 60))]
NOTE = "Proof over 64-bit vectors for every seed and state: the generators compute the published PCG-XSH-RR, splitmix64 and xoshiro256** functions, draws are nonzero and canonical, seeding fixes the whole state and never leaves it dead. Sequential reading: the mutex is dropped; termination of a redraw is not claimed."
ASSUMPTIONS = ["mutex_state serialises the generator (sequential reading of the locked blocks)", "the redraw loop is proved for partial correctness only"]
