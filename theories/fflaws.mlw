(* Generated by tool/gen_laws.py from theories/laws.txt; each law is proved for an arbitrary field in lean/FieldLaws.lean. *)
module Laws
  use int.Int
  use ffield.Field
  axiom add0r : forall a : ff. (fadd a fzero) = a
  axiom add0l : forall a : ff. (fadd fzero a) = a
  axiom sub0r : forall a : ff. (fsub a fzero) = a
  axiom subself : forall a : ff. (fsub a a) = fzero
  axiom mul0r : forall a : ff. (fmul a fzero) = fzero
  axiom mul0l : forall a : ff. (fmul fzero a) = fzero
  axiom mul1r : forall a : ff. (fmul a fone) = a
  axiom mul1l : forall a : ff. (fmul fone a) = a
  axiom div0l : forall a : ff. (fdiv fzero a) = fzero
  axiom div0r : forall a : ff. (fdiv a fzero) = fzero
  axiom div1 : forall a : ff. (fdiv a fone) = a
  axiom neg0 : forall a : ff. (fneg (fneg a)) = a
  axiom negz : (fneg fzero) = fzero
  axiom one_ne_zero : fone <> fzero
  axiom mul_eq_zero : forall a b : ff. (fmul a b) = fzero -> (a = fzero \/ b = fzero)
  axiom neg_eq_zero : forall a : ff. (fneg a) = fzero -> a = fzero
  axiom div_eq_zero : forall a b : ff. (fdiv a b) = fzero -> (a = fzero \/ b = fzero)
  val ghost law_axpy (u v r s x c : ff) : unit ensures { (fadd (fmul (fadd r (fmul c s)) x) (fadd u (fmul c v))) = (fadd (fadd (fmul r x) u) (fmul c (fadd (fmul s x) v))) }
  val ghost law_elim (a p : ff) : unit requires { p <> fzero } ensures { (fadd a (fmul (fdiv (fneg a) p) p)) = fzero }
  val ghost law_assoc_add (a b c : ff) : unit ensures { (fadd a (fadd b c)) = (fadd (fadd a b) c) }
  val ghost law_comm_add (a b : ff) : unit ensures { (fadd a b) = (fadd b a) }
  val ghost law_comm_mul (a b : ff) : unit ensures { (fmul a b) = (fmul b a) }
  val ghost law_assoc_mul (a b c : ff) : unit ensures { (fmul a (fmul b c)) = (fmul (fmul a b) c) }
  val ghost law_distr (a b c : ff) : unit ensures { (fmul a (fadd b c)) = (fadd (fmul a b) (fmul a c)) }
  val ghost law_divmul (a b : ff) : unit requires { b <> fzero } ensures { (fmul (fdiv a b) b) = a }
  val ghost law_muldiv (a b : ff) : unit requires { b <> fzero } ensures { (fdiv (fmul a b) b) = a }
  axiom sub_step : forall f s a x : ff. (fsub (fsub f s) (fmul a x)) = (fsub f (fadd (fmul a x) s))
  val ghost law_back_step (d f s : ff) : unit requires { d <> fzero } ensures { (fadd (fmul d (fdiv (fsub f s) d)) s) = f }
  val ghost law_sub_to_zero (a b : ff) : unit requires { a = b } ensures { (fadd a (fmul b (fneg fone))) = fzero }
  val ghost law_zero_to_eq (a b : ff) : unit requires { (fadd a (fmul b (fneg fone))) = fzero } ensures { a = b }
  axiom sub_step2 : forall f s a x : ff. (fsub (fsub f s) (fmul x a)) = (fsub f (fadd (fmul a x) s))
  axiom back_step2 : forall d f s : ff. d <> fzero -> (fadd (fmul d (fdiv (fsub f s) d)) s) = f
  val ghost law_lu_step (s x l u : ff) : unit ensures { (fadd (fadd s (fmul l u)) (fsub x (fmul l u))) = (fadd s x) }
  val ghost law_lu_diag (s x d : ff) : unit requires { d <> fzero } ensures { (fadd s (fmul (fdiv x d) d)) = (fadd s x) }
  val ghost law_sub_axpy (x l u : ff) : unit ensures { (fsub x (fmul l u)) = (fadd x (fmul (fneg l) u)) }
  axiom negmul : forall a b : ff. (fmul (fneg a) b) = (fneg (fmul a b))
  val ghost law_add_cancel (s y d : ff) : unit requires { d = (fadd s y) } ensures { (fsub d s) = y }
  val ghost law_div_solve (d f s : ff) : unit requires { d <> fzero } ensures { (fadd (fmul d (fdiv (fsub f s) d)) s) = f }
  val ghost law_elim2 (a p : ff) : unit requires { p <> fzero } ensures { (fadd a (fmul (fneg (fdiv a p)) p)) = fzero }
  val ghost law_fold (f s a x : ff) : unit ensures { (fsub (fsub f s) (fmul a x)) = (fsub f (fadd s (fmul a x))) }
  val ghost law_refold (f s : ff) : unit ensures { (fadd s (fsub f s)) = f }
  axiom pow0 : forall x : ff. (fpow x (0)) = fone
  val ghost law_pow_succ (x : ff) (n : int) : unit requires { n >= 0 } ensures { (fpow x (n + 1)) = (fmul x (fpow x (n))) }
  val ghost law_synth (c v w d h : ff) : unit ensures { (fadd c (fmul w (fadd (fmul (fsub w v) d) h))) = (fadd (fmul (fsub w v) (fadd h (fmul w d))) (fadd c (fmul v h))) }
  val ghost law_mst_step (c d v z h : ff) : unit ensures { (fadd (fsub c (fmul v d)) (fmul z (fadd (fmul (fsub z v) h) d))) = (fadd (fmul (fsub z v) (fadd d (fmul z h))) c) }
  val ghost law_mst_base (c v z : ff) : unit ensures { (fadd (fsub c v) z) = (fadd (fsub z v) c) }
  val ghost law_dd_step (h a c w v d : ff) : unit ensures { (fadd (fadd (fmul (fsub v a) h) c) (fmul w (fadd h (fmul (fsub w a) d)))) = (fadd (fadd c (fmul v h)) (fmul (fsub w a) (fadd h (fmul w d)))) }
  val ghost law_sub_ne (a b : ff) : unit requires { a <> b } ensures { (fsub a b) <> fzero }
  val ghost law_acc_step (s x w r p h : ff) : unit ensures { (fadd (fadd s (fmul x w)) (fmul (fadd r (fmul x p)) h)) = (fadd (fadd s (fmul r h)) (fmul x (fadd w (fmul p h)))) }
  val ghost law_pow_dd (p w d h : ff) : unit ensures { (fadd (fmul (fmul w p) d) (fmul p h)) = (fmul p (fadd h (fmul w d))) }
  val ghost law_two_div (x v d : ff) : unit requires { v <> fzero } requires { d <> fzero } ensures { (fdiv (fdiv (fmul x (fmul v d)) d) v) = x }
  val ghost law_swap_add (a b s : ff) : unit ensures { (fadd a (fadd b s)) = (fadd b (fadd a s)) }
  val ghost law_set_term (a d w s : ff) : unit ensures { (fadd (fmul (fadd a d) w) s) = (fadd (fadd (fmul a w) s) (fmul d w)) }
  val ghost law_scale_term (s a w c : ff) : unit ensures { (fadd (fmul s c) (fmul (fmul a c) w)) = (fmul (fadd s (fmul a w)) c) }
  axiom sub0l : forall a : ff. (fsub fzero a) = (fneg a)
  val ghost law_sub_neg (a b : ff) : unit ensures { (fsub a b) = (fadd a (fneg b)) }
  val ghost law_acc_sub (t e d w : ff) : unit ensures { (fadd (fsub t e) (fmul (fneg d) w)) = (fsub t (fadd e (fmul d w))) }
  axiom sub00 : forall a : ff. (fsub a fzero) = a
  val ghost law_neg_mul_one (a : ff) : unit ensures { (fmul a (fneg fone)) = (fneg a) }
  val ghost law_inv_back (s f : ff) : unit requires { f <> fzero } ensures { (fmul (fmul s (fdiv fone f)) f) = s }
  val ghost law_scale_l (a w x : ff) : unit ensures { (fmul a (fmul x w)) = (fmul x (fmul a w)) }
  val ghost law_pow_up (t x p : ff) : unit ensures { (fmul t (fmul x p)) = (fmul x (fmul t p)) }
  val ghost law_mul_right (t p x : ff) : unit ensures { (fmul (fmul x t) p) = (fmul x (fmul t p)) }
  val ghost law_mul_term (s a u b v z : ff) : unit ensures { (fadd (fadd s (fmul (fmul a u) z)) (fmul (fmul a b) (fmul u v))) = (fadd s (fmul (fmul a u) (fadd z (fmul b v)))) }
  axiom mul_inv : forall s f : ff. (fmul s (fdiv fone f)) = (fdiv s f)
  val ghost law_pow_add (x : ff) (n m : int) : unit requires { n >= 0 } requires { m >= 0 } ensures { (fpow x (n + m)) = (fmul (fpow x (n)) (fpow x (m))) }
  val ghost law_mul4 (a b c d : ff) : unit ensures { (fmul (fmul a b) (fmul c d)) = (fmul (fmul a c) (fmul b d)) }
  val ghost law_mul_terms (s e a b u v z : ff) : unit ensures { (fadd (fadd (fmul s z) (fmul (fmul a u) e)) (fmul (fmul a b) (fmul u v))) = (fadd (fmul s z) (fmul (fmul a u) (fadd e (fmul b v)))) }
  val ghost law_distr_r (a b c : ff) : unit ensures { (fmul (fadd a b) c) = (fadd (fmul a c) (fmul b c)) }
  val ghost law_ofint_neg (n : int) : unit ensures { (fofint (-n)) = (fneg (fofint (n))) }
  val ghost law_cf_back (a r d : ff) : unit requires { r <> a } requires { d <> fzero } ensures { (fadd a (fdiv d (fdiv d (fsub r a)))) = r }
  val ghost law_neg_add (t y : ff) : unit ensures { (fadd (fneg t) y) = (fsub y t) }
  val ghost law_frac_step (a u e d : ff) : unit requires { u <> fzero } requires { d <> fzero } ensures { (fdiv (fadd (fmul a u) (fmul e d)) u) = (fadd a (fdiv e (fdiv u d))) }
  val ghost law_newton_back (a r d : ff) : unit requires { d <> fzero } ensures { (fadd a (fmul d (fdiv (fsub r a) d))) = r }
  val ghost law_three (a u d t y : ff) : unit ensures { (fadd (fadd (fmul a u) (fmul y d)) (fmul d (fneg t))) = (fadd (fmul a u) (fmul (fsub y t) d)) }
  val ghost law_three_ (a u d t y : ff) : unit ensures { (fadd (fadd (fmul a u) (fmul d (fneg t))) (fmul y d)) = (fadd (fmul a u) (fmul (fsub y t) d)) }
  val ghost law_newton_step (q y t : ff) : unit ensures { (fadd (fmul q (fneg t)) (fmul y q)) = (fmul (fsub y t) q) }
end
