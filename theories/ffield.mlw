(* The field of residues modulo the current prime.  FFInt objects are values of type ff; that the FFInt
   operations are those of Z/p on canonical representatives is property C01.  The axioms below are the
   field axioms with x / 0 = 0 (lean/Field.lean states and proves them for an arbitrary Lean `Field`). *)
module Field
  use int.Int
  type ff
  val constant fzero : ff
  val constant fone : ff
  val function fadd (a b : ff) : ff
  val function fsub (a b : ff) : ff
  val function fmul (a b : ff) : ff
  val function fdiv (a b : ff) : ff
  val function fneg (a : ff) : ff
  val function fofint (n : int) : ff
  val function fpow (a : ff) (n : int) : ff
  val function fpowff (a b : ff) : ff
  val function fto (a : ff) : int
  val feq (a b : ff) : bool ensures { result <-> a = b }
  axiom fto_range : forall a. 0 <= fto a < 9223372036854775808
  axiom fto_inj : forall a b. fto a = fto b -> a = b
  axiom fofint0 : fofint 0 = fzero
  axiom fofint1 : fofint 1 = fone
  axiom fto_zero : fto fzero = 0
  axiom fto_one : fto fone = 1
end
