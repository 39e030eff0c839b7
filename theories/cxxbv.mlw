(* generated by tool/gen_bv.py: machine integers as bit vectors; shift amounts and signed overflow are obligations *)
module B32
  use bool.Bool
  use bv.BV32 as BV32
  val any_bv32 () : BV32.t
  val beq32 (a b : BV32.t) : bool ensures { result <-> a = b }
  val bu32_lt (a b : BV32.t) : bool ensures { result <-> BV32.ult a b }
  val bu32_le (a b : BV32.t) : bool ensures { result <-> BV32.ule a b }
  val bu32_gt (a b : BV32.t) : bool ensures { result <-> BV32.ugt a b }
  val bu32_ge (a b : BV32.t) : bool ensures { result <-> BV32.uge a b }
  val bu32_and (a b : BV32.t) : BV32.t ensures { result = BV32.bw_and a b }
  val bu32_or (a b : BV32.t) : BV32.t ensures { result = BV32.bw_or a b }
  val bu32_xor (a b : BV32.t) : BV32.t ensures { result = BV32.bw_xor a b }
  val bu32_not (a : BV32.t) : BV32.t ensures { result = BV32.bw_not a }
  val bi32_lt (a b : BV32.t) : bool ensures { result <-> BV32.slt a b }
  val bi32_le (a b : BV32.t) : bool ensures { result <-> BV32.sle a b }
  val bi32_gt (a b : BV32.t) : bool ensures { result <-> BV32.sgt a b }
  val bi32_ge (a b : BV32.t) : bool ensures { result <-> BV32.sge a b }
  val bi32_and (a b : BV32.t) : BV32.t ensures { result = BV32.bw_and a b }
  val bi32_or (a b : BV32.t) : BV32.t ensures { result = BV32.bw_or a b }
  val bi32_xor (a b : BV32.t) : BV32.t ensures { result = BV32.bw_xor a b }
  val bi32_not (a : BV32.t) : BV32.t ensures { result = BV32.bw_not a }
  val bu32_add (a b : BV32.t) : BV32.t ensures { result = BV32.add a b }
  val bu32_sub (a b : BV32.t) : BV32.t ensures { result = BV32.sub a b }
  val bu32_mul (a b : BV32.t) : BV32.t ensures { result = BV32.mul a b }
  val bu32_neg (a : BV32.t) : BV32.t ensures { result = BV32.neg a }
  val bu32_div (a b : BV32.t) : BV32.t requires { [@expl:division by zero] b <> (0:BV32.t) } ensures { result = BV32.udiv a b }
  val bu32_rem (a b : BV32.t) : BV32.t requires { [@expl:division by zero] b <> (0:BV32.t) } ensures { result = BV32.urem a b }
  val bu32_shl (a b : BV32.t) : BV32.t requires { [@expl:shift amount in range] BV32.ult b (32:BV32.t) } ensures { result = BV32.lsl_bv a b }
  val bu32_shr (a b : BV32.t) : BV32.t requires { [@expl:shift amount in range] BV32.ult b (32:BV32.t) } ensures { result = BV32.lsr_bv a b }
  val bi32_add (a b : BV32.t) : BV32.t requires { [@expl:signed overflow] if BV32.sge b (0:BV32.t) then BV32.sge (BV32.add a b) a else BV32.slt (BV32.add a b) a } ensures { result = BV32.add a b }
  val bi32_sub (a b : BV32.t) : BV32.t requires { [@expl:signed overflow] if BV32.sge b (0:BV32.t) then BV32.sle (BV32.sub a b) a else BV32.sgt (BV32.sub a b) a } ensures { result = BV32.sub a b }
end
module B64
  use bool.Bool
  use bv.BV64 as BV64
  val any_bv64 () : BV64.t
  val beq64 (a b : BV64.t) : bool ensures { result <-> a = b }
  val bu64_lt (a b : BV64.t) : bool ensures { result <-> BV64.ult a b }
  val bu64_le (a b : BV64.t) : bool ensures { result <-> BV64.ule a b }
  val bu64_gt (a b : BV64.t) : bool ensures { result <-> BV64.ugt a b }
  val bu64_ge (a b : BV64.t) : bool ensures { result <-> BV64.uge a b }
  val bu64_and (a b : BV64.t) : BV64.t ensures { result = BV64.bw_and a b }
  val bu64_or (a b : BV64.t) : BV64.t ensures { result = BV64.bw_or a b }
  val bu64_xor (a b : BV64.t) : BV64.t ensures { result = BV64.bw_xor a b }
  val bu64_not (a : BV64.t) : BV64.t ensures { result = BV64.bw_not a }
  val bi64_lt (a b : BV64.t) : bool ensures { result <-> BV64.slt a b }
  val bi64_le (a b : BV64.t) : bool ensures { result <-> BV64.sle a b }
  val bi64_gt (a b : BV64.t) : bool ensures { result <-> BV64.sgt a b }
  val bi64_ge (a b : BV64.t) : bool ensures { result <-> BV64.sge a b }
  val bi64_and (a b : BV64.t) : BV64.t ensures { result = BV64.bw_and a b }
  val bi64_or (a b : BV64.t) : BV64.t ensures { result = BV64.bw_or a b }
  val bi64_xor (a b : BV64.t) : BV64.t ensures { result = BV64.bw_xor a b }
  val bi64_not (a : BV64.t) : BV64.t ensures { result = BV64.bw_not a }
  val bu64_add (a b : BV64.t) : BV64.t ensures { result = BV64.add a b }
  val bu64_sub (a b : BV64.t) : BV64.t ensures { result = BV64.sub a b }
  val bu64_mul (a b : BV64.t) : BV64.t ensures { result = BV64.mul a b }
  val bu64_neg (a : BV64.t) : BV64.t ensures { result = BV64.neg a }
  val bu64_div (a b : BV64.t) : BV64.t requires { [@expl:division by zero] b <> (0:BV64.t) } ensures { result = BV64.udiv a b }
  val bu64_rem (a b : BV64.t) : BV64.t requires { [@expl:division by zero] b <> (0:BV64.t) } ensures { result = BV64.urem a b }
  val bu64_shl (a b : BV64.t) : BV64.t requires { [@expl:shift amount in range] BV64.ult b (64:BV64.t) } ensures { result = BV64.lsl_bv a b }
  val bu64_shr (a b : BV64.t) : BV64.t requires { [@expl:shift amount in range] BV64.ult b (64:BV64.t) } ensures { result = BV64.lsr_bv a b }
  val bi64_add (a b : BV64.t) : BV64.t requires { [@expl:signed overflow] if BV64.sge b (0:BV64.t) then BV64.sge (BV64.add a b) a else BV64.slt (BV64.add a b) a } ensures { result = BV64.add a b }
  val bi64_sub (a b : BV64.t) : BV64.t requires { [@expl:signed overflow] if BV64.sge b (0:BV64.t) then BV64.sle (BV64.sub a b) a else BV64.sgt (BV64.sub a b) a } ensures { result = BV64.sub a b }
end
module Conv
  use bv.BV32 as BV32
  use bv.BV64 as BV64
  use bv.BVConverter_32_64 as C
  val bv64_to_32 (a : BV64.t) : BV32.t ensures { result = C.toSmall a }
  val bv32_u_to_64 (a : BV32.t) : BV64.t ensures { result = C.toBig a }
  val bv32_s_to_64 (a : BV32.t) : BV64.t ensures { result = C.stoBig a }
end
