(* The error analysis behind the floating-point modular product, for x87 extended
   precision: 64-bit significand, round to nearest even (Flocq: FLX 64, ZnearestE).
   Exported to Why3 as theories/ldquot.mlw (axioms with the same statements). *)
From Coq Require Import ZArith Reals Psatz Lia.
From Flocq Require Import Core.
Open Scope R_scope.

Definition fexp := FLX_exp 64.
Definition rnd (x : R) : R := round radix2 fexp ZnearestE x.

Local Instance prec_gt_0_64 : Prec_gt_0 64. Proof. unfold Prec_gt_0. reflexivity. Qed.
Local Instance valid_fexp : Valid_exp fexp. Proof. exact (FLX_exp_valid 64). Qed.

Lemma rnd_le x y : x <= y -> rnd x <= rnd y.
Proof. intros. unfold rnd. apply round_le. exact valid_fexp. apply valid_rnd_N. assumption. Qed.

Lemma rnd_int (n : Z) : (Z.abs n <= 2 ^ 64)%Z -> rnd (IZR n) = IZR n.
Proof.
  intros H. unfold rnd. apply round_generic. apply valid_rnd_N.
  apply generic_format_FLX.
  destruct (Z.eq_dec (Z.abs n) (2^64)) as [E|E].
  - exists (Float radix2 (n / 2) 1).
    + unfold F2R. simpl Fnum. simpl Fexp. simpl bpow.
      assert (n = 2 * (n / 2))%Z by (destruct (Z.abs_eq_or_opp n) as [A|A]; rewrite A in E; [subst n; reflexivity | assert (n = - 2^64)%Z by lia; subst n; reflexivity]).
      rewrite H0 at 1. rewrite mult_IZR. change (IZR (Z.pow_pos 2 1)) with 2. lra.
    + simpl Fnum. change (radix2 ^ 64)%Z with (2^64)%Z.
      destruct (Z.abs_eq_or_opp n) as [A|A]; rewrite A in E; [subst n; reflexivity | assert (n = - 2^64)%Z by lia; subst n; reflexivity].
  - exists (Float radix2 n 0).
    + unfold F2R. simpl. ring.
    + simpl Fnum. change (radix2 ^ 64)%Z with (2^64)%Z. lia.
Qed.

Lemma rnd_err x (e : Z) : Rabs x < bpow radix2 e -> Rabs (rnd x - x) <= bpow radix2 (e - 65).
Proof.
  intros H.
  destruct (Req_dec x 0) as [->|Hx].
  - unfold rnd. rewrite round_0 by apply valid_rnd_N. rewrite Rminus_0_r, Rabs_R0. apply bpow_ge_0.
  - unfold rnd. eapply Rle_trans. apply error_le_half_ulp. apply valid_fexp.
    rewrite ulp_neq_0 by assumption. unfold cexp, fexp, FLX_exp.
    replace (e - 65)%Z with ((e - 64) + (-1))%Z by lia. rewrite bpow_plus.
    change (bpow radix2 (-1)) with (/2).
    assert (mag radix2 x <= e)%Z by (apply mag_le_bpow; assumption).
    assert (bpow radix2 (mag radix2 x - 64) <= bpow radix2 (e - 64)) by (apply bpow_le; lia).
    lra.
Qed.

Lemma rnd_rel x : Rabs (rnd x - x) <= Rabs x * bpow radix2 (-64).
Proof.
  destruct (Req_dec x 0) as [->|Hx].
  - unfold rnd. rewrite round_0 by apply valid_rnd_N. rewrite Rminus_0_r, Rabs_R0. lra.
  - destruct (mag radix2 x) as [e He]. specialize (He Hx).
    eapply Rle_trans. apply (rnd_err x e). apply He.
    replace (e - 65)%Z with ((e-1) + (-64))%Z by lia. rewrite bpow_plus.
    apply Rmult_le_compat_r. apply bpow_ge_0. apply He.
Qed.

Lemma rnd_F x : generic_format radix2 fexp (rnd x).
Proof. unfold rnd. apply generic_format_round. apply valid_fexp. apply valid_rnd_N. Qed.

Lemma bpow_F e : generic_format radix2 fexp (bpow radix2 e).
Proof. apply generic_format_bpow. unfold fexp, FLX_exp. lia. Qed.

Lemma rnd_bpow e : rnd (bpow radix2 e) = bpow radix2 e.
Proof. unfold rnd. apply round_generic. apply valid_rnd_N. apply bpow_F. Qed.

Lemma gap_pow e x : generic_format radix2 fexp x -> x < bpow radix2 e -> x <= bpow radix2 e - bpow radix2 (e - 64).
Proof.
  intros F H.
  assert (x <= pred radix2 fexp (bpow radix2 e)).
  { apply pred_ge_gt; try apply valid_fexp; try assumption. apply bpow_F. }
  rewrite pred_bpow in H0. exact H0.
Qed.

Lemma gap_gen e x y : generic_format radix2 fexp x -> generic_format radix2 fexp y -> bpow radix2 e <= x -> x < y ->
  x + bpow radix2 (e - 63) <= y.
Proof.
  intros Fx Fy Hx H.
  assert (P : 0 < x) by (eapply Rlt_le_trans; [apply bpow_gt_0 | exact Hx]).
  assert (succ radix2 fexp x <= y) by (apply succ_le_lt; try apply valid_fexp; assumption).
  rewrite succ_eq_pos in H0 by lra.
  rewrite ulp_neq_0 in H0 by lra. unfold cexp, fexp, FLX_exp in H0.
  assert (e + 1 <= mag radix2 x)%Z.
  { apply mag_ge_bpow. replace (e + 1 - 1)%Z with e by lia. rewrite Rabs_pos_eq by lra. exact Hx. }
  assert (bpow radix2 (e - 63) <= bpow radix2 (mag radix2 x - 64)) by (apply bpow_le; lia).
  lra.
Qed.

Section Quot.
Variables a b m : Z.
Hypothesis Ha : (0 <= a < m)%Z.
Hypothesis Hb : (0 <= b < m)%Z.
Hypothesis Hm : (m < 2 ^ 63)%Z.

Let N := (a * b)%Z.
Let w := IZR N / IZR m.
Let y1 := rnd (IZR a * IZR b).
Let y := y1 / IZR m.
Let X := rnd y.

Lemma m_pos : 1 <= IZR m. Proof. apply IZR_le. lia. Qed.
Lemma m_lt : IZR m <= bpow radix2 63 - 1.
Proof. change (bpow radix2 63 - 1) with (IZR (2^63) - IZR 1). rewrite <- minus_IZR. apply IZR_le. lia. Qed.
Lemma NE : IZR a * IZR b = IZR N. Proof. unfold N. rewrite mult_IZR. reflexivity. Qed.
Lemma N_nonneg : 0 <= IZR N. Proof. apply IZR_le. unfold N. nia. Qed.
Lemma N_le : IZR N <= (IZR m - 1) * (IZR m - 1).
Proof. rewrite <- minus_IZR, <- mult_IZR. apply IZR_le. unfold N. nia. Qed.

Lemma w_nonneg : 0 <= w.
Proof. unfold w. pose proof m_pos. pose proof N_nonneg. apply Rmult_le_pos; [lra|]. apply Rlt_le, Rinv_0_lt_compat; lra. Qed.
Lemma w_le : w <= bpow radix2 63 - 2.
Proof.
  pose proof m_pos. pose proof m_lt. pose proof N_le.
  assert (w * IZR m = IZR N) by (unfold w; field; lra).
  assert (w * IZR m <= (IZR m - 1) * IZR m) by nra.
  assert (w <= IZR m - 1) by (apply Rmult_le_reg_r with (IZR m); lra). lra.
Qed.

Definition u := bpow radix2 (-64).
Lemma u_val : u = / IZR (2^64). Proof. reflexivity. Qed.

Lemma y1_err : Rabs (y1 - IZR N) <= IZR N * u.
Proof. unfold y1. rewrite NE. pose proof (rnd_rel (IZR N)) as H. rewrite (Rabs_pos_eq (IZR N)) in H by apply N_nonneg. exact H. Qed.

Lemma y1_nonneg : 0 <= y1.
Proof. unfold y1. rewrite NE. replace 0 with (rnd 0). apply rnd_le, N_nonneg. unfold rnd. apply round_0. apply valid_rnd_N. Qed.

Lemma y_nonneg : 0 <= y.
Proof. unfold y. pose proof m_pos. pose proof y1_nonneg. apply Rmult_le_pos; [lra|]. apply Rlt_le, Rinv_0_lt_compat; lra. Qed.

Lemma X_nonneg : 0 <= X.
Proof. unfold X. replace 0 with (rnd 0). apply rnd_le, y_nonneg. unfold rnd. apply round_0. apply valid_rnd_N. Qed.

Lemma y_err : Rabs (y - w) <= w * u.
Proof.
  pose proof m_pos. pose proof y1_err as E.
  replace (y - w) with ((y1 - IZR N) * / IZR m) by (unfold y, w; field; lra).
  rewrite Rabs_mult, (Rabs_pos_eq (/ IZR m)) by (apply Rlt_le, Rinv_0_lt_compat; lra).
  replace (w * u) with ((IZR N * u) * / IZR m) by (unfold w; field; lra).
  apply Rmult_le_compat_r; [apply Rlt_le, Rinv_0_lt_compat; lra | exact E].
Qed.

Lemma X_err : Rabs (X - w) < 1.
Proof.
  pose proof y_err as E1. pose proof (rnd_rel y) as E2. fold X in E2. fold u in E2.
  rewrite (Rabs_pos_eq y) in E2 by apply y_nonneg.
  pose proof w_le as W. pose proof w_nonneg as W0.
  assert (Y : y <= w * (1 + u)) by (apply Rabs_le_inv in E1; lra).
  assert (U : 0 < u) by apply bpow_gt_0.
  assert (Rabs (X - w) <= w * u + w * (1 + u) * u).
  { replace (X - w) with ((X - y) + (y - w)) by ring. eapply Rle_trans. apply Rabs_triang.
    assert (y * u <= w * (1 + u) * u) by (apply Rmult_le_compat_r; lra). lra. }
  assert (w * u + w * (1 + u) * u = w * (u * (2 + u))) by ring.
  assert (w * (u * (2 + u)) <= (bpow radix2 63 - 2) * (u * (2 + u))) by (apply Rmult_le_compat_r; nra).
  assert ((bpow radix2 63 - 2) * (u * (2 + u)) < 1).
  { rewrite u_val. change (bpow radix2 63) with (IZR (2^63)). simpl (IZR (2^63)). simpl (IZR (2^64)). lra. }
  lra.
Qed.

Variable c : Z.
Hypothesis Hc : IZR c <= X < IZR c + 1.

Lemma lower : (- m < N - c * m)%Z.
Proof.
  pose proof X_err as E. apply Rabs_lt_inv in E. pose proof m_pos.
  assert (IZR c < w + 1) by lra.
  assert (IZR c * IZR m < (w + 1) * IZR m) by (apply Rmult_lt_compat_r; lra).
  assert (w * IZR m = IZR N) by (unfold w; field; lra).
  assert (IZR (c * m) < IZR (N + m)) by (rewrite mult_IZR, plus_IZR; lra).
  apply lt_IZR in H3. lia.
Qed.

Lemma c_range : (0 <= c < 2^63)%Z.
Proof.
  split.
  - assert (IZR (-1) < IZR c) by (pose proof X_nonneg; simpl; lra). apply lt_IZR in H. lia.
  - pose proof X_err as E. apply Rabs_lt_inv in E. pose proof w_le.
    assert (IZR c < IZR (2^63)) by (change (IZR (2^63)) with (bpow radix2 63); lra). now apply lt_IZR.
Qed.

Lemma upper : (N - c * m < 2 ^ 63)%Z.
Proof.
  destruct (Z_lt_le_dec (N - c * m) m) as [L|L]; [lia|].
  (* c = q - 1 with q = N / m *)
  set (q := (c + 1)%Z).
  pose proof c_range as C.
  pose proof X_err as E. apply Rabs_lt_inv in E. pose proof m_pos as M1. pose proof m_lt as M2.
  assert (WN : w * IZR m = IZR N) by (unfold w; field; lra).
  assert (R2 : (N < (q + 1) * m)%Z).
  { assert (w < IZR c + 2) by lra.
    assert (w * IZR m < (IZR c + 2) * IZR m) by (apply Rmult_lt_compat_r; lra).
    assert (IZR N < IZR ((q + 1) * m)) by (rewrite mult_IZR; unfold q; rewrite !plus_IZR; lra).
    now apply lt_IZR. }
  assert (R1 : (q * m <= N)%Z) by (unfold q; lia).
  assert (XQ : X < IZR q) by (unfold q; rewrite plus_IZR; lra).
  assert (q_le : (1 <= q <= 2^63 - 1)%Z).
  { split. unfold q; lia.
    assert (IZR q <= w). { apply Rmult_le_reg_r with (IZR m); [lra|]. rewrite WN, <- mult_IZR. now apply IZR_le. }
    pose proof w_le. assert (IZR q < IZR (2^63)) by (change (IZR (2^63)) with (bpow radix2 63); lra). apply lt_IZR in H1. lia. }
  assert (RQ : rnd (IZR q) = IZR q) by (apply rnd_int; lia).
  assert (FQ : generic_format radix2 fexp (IZR q)) by (rewrite <- RQ; apply rnd_F).
  assert (FX : generic_format radix2 fexp X) by apply rnd_F.
  assert (YQ : y < IZR q).
  { apply Rnot_le_lt. intros K. apply rnd_le in K. rewrite RQ in K. fold X in K. lra. }
  set (e := Z.log2 q).
  assert (QE : (2 ^ e <= q < 2 ^ (e + 1))%Z) by (pose proof (Z.log2_spec q); replace (e + 1)%Z with (Z.succ e) by lia; apply Z.log2_spec; lia).
  assert (E0 : (0 <= e)%Z) by apply Z.log2_nonneg.
  assert (E1 : (e <= 62)%Z). { assert (2^e < 2^63)%Z by lia. apply Z.pow_lt_mono_r_iff in H; lia. }
  assert (B0 : bpow radix2 e = IZR (2 ^ e)) by (rewrite <- IZR_Zpower by lia; reflexivity).
  assert (B1 : bpow radix2 (e + 1) = IZR (2 ^ (e + 1))) by (rewrite <- IZR_Zpower by lia; reflexivity).
  assert (Y0 := y_nonneg). assert (N0 := N_nonneg).
  assert (YM : y * IZR m = y1) by (unfold y; field; lra).
  assert (MB : IZR m < bpow radix2 63) by lra.
  apply lt_IZR. rewrite minus_IZR, mult_IZR. change (IZR (2^63)) with (bpow radix2 63).
  assert (CQ : IZR c = IZR q - 1) by (unfold q; rewrite plus_IZR; lra).
  assert (S2 : bpow radix2 (e + 1) = 2 * bpow radix2 e) by (rewrite bpow_plus; simpl (bpow radix2 1); lra).
  destruct (Z.eq_dec q (2 ^ e)) as [P|P].
  - assert (QB : IZR q = bpow radix2 e) by (rewrite B0; f_equal; exact P).
    assert (NS : IZR N < bpow radix2 (e + 63)).
    { apply Rnot_le_lt. intros K. apply rnd_le in K. rewrite rnd_bpow in K. rewrite <- NE in K. fold y1 in K.
      assert (bpow radix2 (e + 63) = bpow radix2 e * bpow radix2 63) by apply bpow_plus.
      assert (bpow radix2 e * IZR m < bpow radix2 e * bpow radix2 63) by (apply Rmult_lt_compat_l; [apply bpow_gt_0 | lra]).
      assert (y * IZR m < IZR q * IZR m) by (apply Rmult_lt_compat_r; lra).
      rewrite QB in H1. lra. }
    assert (ER1 : Rabs (y1 - IZR N) <= bpow radix2 (e - 2)).
    { unfold y1. rewrite NE. replace (e - 2)%Z with (e + 63 - 65)%Z by lia. apply rnd_err. rewrite Rabs_pos_eq by lra. exact NS. }
    assert (ER2 : Rabs (X - y) <= bpow radix2 (e - 65)) by (apply rnd_err; rewrite Rabs_pos_eq by lra; lra).
    rewrite QB in XQ. pose proof (gap_pow e X FX XQ) as G.
    assert (D64 : bpow radix2 (e - 64) = 2 * bpow radix2 (e - 65)).
    { replace (e - 64)%Z with (e - 65 + 1)%Z by lia. rewrite bpow_plus. simpl (bpow radix2 1). lra. }
    apply Rabs_le_inv in ER2. apply Rabs_le_inv in ER1.
    assert (YB : y <= bpow radix2 e - bpow radix2 (e - 65)) by lra.
    assert (y * IZR m <= (bpow radix2 e - bpow radix2 (e - 65)) * IZR m) by (apply Rmult_le_compat_r; lra).
    assert (SM : bpow radix2 (e - 65) < 1) by (change 1 with (bpow radix2 0); apply bpow_lt; lia).
    assert ((1 - bpow radix2 (e - 65)) * IZR m < (1 - bpow radix2 (e - 65)) * bpow radix2 63) by (apply Rmult_lt_compat_l; lra).
    assert (bpow radix2 (e - 65) * bpow radix2 63 = bpow radix2 (e - 2)) by (rewrite <- bpow_plus; f_equal; lia).
    rewrite CQ, QB. lra.
  - assert (QG : (2 ^ e + 1 <= q)%Z) by lia.
    assert (NS : IZR N < bpow radix2 (e + 64)).
    { apply Rlt_le_trans with (IZR ((q + 1) * m)). now apply IZR_lt.
      rewrite mult_IZR. replace (e + 64)%Z with (e + 1 + 63)%Z by lia. rewrite bpow_plus.
      apply Rmult_le_compat; try lra. apply IZR_le; lia. rewrite B1. apply IZR_le. lia. }
    assert (ER1 : Rabs (y1 - IZR N) <= bpow radix2 (e - 1)).
    { unfold y1. rewrite NE. replace (e - 1)%Z with (e + 64 - 65)%Z by lia. apply rnd_err. rewrite Rabs_pos_eq by lra. exact NS. }
    assert (QU : IZR q < bpow radix2 (e + 1)) by (rewrite B1; apply IZR_lt; lia).
    assert (ER2 : Rabs (X - y) <= bpow radix2 (e - 64)).
    { replace (e - 64)%Z with (e + 1 - 65)%Z by lia. apply rnd_err. rewrite Rabs_pos_eq by lra. lra. }
    assert (G : X + bpow radix2 (e - 63) <= IZR q).
    { destruct (Rle_lt_dec (bpow radix2 e) X) as [K|K].
      - apply gap_gen; assumption.
      - assert (IZR (2^e) + 1 <= IZR q) by (rewrite <- plus_IZR; apply IZR_le; lia).
        assert (bpow radix2 (e - 63) <= 1) by (change 1 with (bpow radix2 0); apply bpow_le; lia).
        rewrite B0 in K. lra. }
    assert (D64 : bpow radix2 (e - 63) = 2 * bpow radix2 (e - 64)).
    { replace (e - 63)%Z with (e - 64 + 1)%Z by lia. rewrite bpow_plus. simpl (bpow radix2 1). lra. }
    apply Rabs_le_inv in ER2. apply Rabs_le_inv in ER1.
    assert (YB : y <= IZR q - bpow radix2 (e - 64)) by lra.
    assert (y * IZR m <= (IZR q - bpow radix2 (e - 64)) * IZR m) by (apply Rmult_le_compat_r; lra).
    assert (SM : bpow radix2 (e - 64) < 1) by (change 1 with (bpow radix2 0); apply bpow_lt; lia).
    assert ((1 - bpow radix2 (e - 64)) * IZR m < (1 - bpow radix2 (e - 64)) * bpow radix2 63) by (apply Rmult_lt_compat_l; lra).
    assert (bpow radix2 (e - 64) * bpow radix2 63 = bpow radix2 (e - 1)) by (rewrite <- bpow_plus; f_equal; lia).
    rewrite CQ. lra.
Qed.
End Quot.

(* The statements exported to Why3. *)
Theorem quot_range : forall a b m, (0 <= a < m)%Z -> (0 <= b < m)%Z -> (m < 2 ^ 63)%Z ->
  0 <= rnd (rnd (IZR a * IZR b) / IZR m) < bpow radix2 63.
Proof.
  intros a b m Ha Hb Hm. split. apply X_nonneg; assumption.
  pose proof (X_err a b m Ha Hb Hm) as E. apply Rabs_lt_inv in E.
  pose proof (w_le a b m Ha Hb Hm). lra.
Qed.

Theorem quot_bounds : forall a b m c, (0 <= a < m)%Z -> (0 <= b < m)%Z -> (m < 2 ^ 63)%Z ->
  IZR c <= rnd (rnd (IZR a * IZR b) / IZR m) < IZR c + 1 ->
  (- m < a * b - c * m < 2 ^ 63)%Z /\ (0 <= c < 2 ^ 63)%Z.
Proof.
  intros a b m c Ha Hb Hm Hc. split; [split|].
  - apply (lower a b m Ha Hb Hm c Hc).
  - apply (upper a b m Ha Hb Hm c Hc).
  - apply (c_range a b m Ha Hb Hm c Hc).
Qed.

Theorem quot_normal : forall a b m, (0 <= a < m)%Z -> (0 <= b < m)%Z -> (m < 2 ^ 63)%Z ->
  rnd (IZR a * IZR b) / IZR m = 0 \/
  bpow radix2 (-200) <= Rabs (rnd (IZR a * IZR b) / IZR m) <= bpow radix2 200.
Proof.
  intros a b m Ha Hb Hm.
  assert (M1 : 1 <= IZR m) by (apply IZR_le; lia).
  assert (MB : IZR m < bpow radix2 63) by (change (bpow radix2 63) with (IZR (2^63)); apply IZR_lt; lia).
  rewrite <- mult_IZR.
  destruct (Z.eq_dec (a * b) 0) as [E|E].
  - left. rewrite E. unfold rnd. rewrite round_0 by apply valid_rnd_N. unfold Rdiv. ring.
  - right.
    assert (P1 : 1 <= IZR (a * b)) by (apply IZR_le; nia).
    assert (Q1 : 1 <= rnd (IZR (a * b))).
    { replace 1 with (rnd 1). now apply rnd_le. apply (rnd_int 1). simpl; lia. }
    assert (Q2 : rnd (IZR (a * b)) <= bpow radix2 126).
    { rewrite <- (rnd_bpow 126). apply rnd_le. change (bpow radix2 126) with (IZR (2^126)). apply IZR_le.
      assert (2^126 = 2^63 * 2^63)%Z by reflexivity. nia. }
    assert (I : 0 < / IZR m) by (apply Rinv_0_lt_compat; lra).
    assert (I1 : / IZR m <= 1) by (rewrite <- Rinv_1; apply Rinv_le; lra).
    assert (I2 : bpow radix2 (-63) <= / IZR m).
    { change (bpow radix2 (-63)) with (/ bpow radix2 63). apply Rinv_le; lra. }
    assert (0 <= rnd (IZR (a * b)) / IZR m) by (unfold Rdiv; nra).
    rewrite Rabs_pos_eq by assumption. unfold Rdiv in *.
    assert (bpow radix2 (-200) <= bpow radix2 (-63)) by (apply bpow_le; lia).
    assert (bpow radix2 126 <= bpow radix2 200) by (apply bpow_le; lia).
    split; nra.
Qed.

Print Assumptions quot_range.
Print Assumptions quot_bounds.
Print Assumptions quot_normal.
