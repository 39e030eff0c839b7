"""Generates theories/cxxbv.mlw: C++ machine arithmetic over Why3 bit vectors."""
out = ["(* generated by tool/gen_bv.py: machine integers as bit vectors; shift amounts and signed overflow are obligations *)"]
for w in (32, 64):
    B = "BV%d" % w
    out.append("module B%d\n  use bool.Bool\n  use bv.%s as %s" % (w, B, B))
    T = B + ".t"
    out.append("  val any_bv%d () : %s" % (w, T))
    out.append("  val beq%d (a b : %s) : bool ensures { result <-> a = b }" % (w, T))
    for s in "ui":
        for o in ("lt", "le", "gt", "ge"):
            out.append("  val b%s%d_%s (a b : %s) : bool ensures { result <-> %s.%s%s a b }" % (s, w, o, T, B, "u" if s == "u" else "s", o))
        for o, f in (("and", "bw_and"), ("or", "bw_or"), ("xor", "bw_xor")):
            out.append("  val b%s%d_%s (a b : %s) : %s ensures { result = %s.%s a b }" % (s, w, o, T, T, B, f))
        out.append("  val b%s%d_not (a : %s) : %s ensures { result = %s.bw_not a }" % (s, w, T, T, B))
    for o in ("add", "sub", "mul"):
        out.append("  val bu%d_%s (a b : %s) : %s ensures { result = %s.%s a b }" % (w, o, T, T, B, o))
    out.append("  val bu%d_neg (a : %s) : %s ensures { result = %s.neg a }" % (w, T, T, B))
    z = "(0:%s)" % T
    for o, f in (("div", "udiv"), ("rem", "urem")):
        out.append("  val bu%d_%s (a b : %s) : %s requires { [@expl:division by zero] b <> %s } ensures { result = %s.%s a b }" % (w, o, T, T, z, B, f))
    for o, f in (("shl", "lsl_bv"), ("shr", "lsr_bv")):
        out.append("  val bu%d_%s (a b : %s) : %s requires { [@expl:shift amount in range] %s.ult b (%d:%s) } ensures { result = %s.%s a b }" % (w, o, T, T, B, w, T, B, f))
    out.append("  val bi%d_add (a b : %s) : %s requires { [@expl:signed overflow] if %s.sge b %s then %s.sge (%s.add a b) a else %s.slt (%s.add a b) a } ensures { result = %s.add a b }" % (w, T, T, B, z, B, B, B, B, B))
    out.append("  val bi%d_sub (a b : %s) : %s requires { [@expl:signed overflow] if %s.sge b %s then %s.sle (%s.sub a b) a else %s.sgt (%s.sub a b) a } ensures { result = %s.sub a b }" % (w, T, T, B, z, B, B, B, B, B))
    out.append("end")
out.append("""module Conv
  use bv.BV32 as BV32
  use bv.BV64 as BV64
  use bv.BVConverter_32_64 as C
  val bv64_to_32 (a : BV64.t) : BV32.t ensures { result = C.toSmall a }
  val bv32_u_to_64 (a : BV32.t) : BV64.t ensures { result = C.toBig a }
  val bv32_s_to_64 (a : BV32.t) : BV64.t ensures { result = C.stoBig a }
end""")
open(__file__.replace("tool/gen_bv.py", "theories/cxxbv.mlw"), "w").write("\n".join(out) + "\n")
