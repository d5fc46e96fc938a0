/-! ## Samples and statistics -/

/-- The ghost statistics of a labelled data set: `X t` is sample `t`, `z t` the number of its cluster. -/
def ofData {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (z : ι → Fin k) : Stats k d where
  N := (Fintype.card ι : ℝ)
  n c := ∑ t, if z t = c then 1 else 0
  s c f := ∑ t, if z t = c then X t f else 0
  Q c f g := ∑ t, if z t = c then X t f * X t g else 0
  tot f := ∑ t, X t f

def reindex {k' : ℕ} (S : Stats k d) (e : Fin k' ≃ Fin k) : Stats k' d where
  N := S.N
  n c := S.n (e c)
  s c f := S.s (e c) f
  Q c f g := S.Q (e c) f g
  tot := S.tot

/-! ## The order of the clusters does not matter -/

abbrev Pairs (k : ℕ) := {p : Fin k × Fin k // p.1 < p.2}

def swapPair (e : Fin k ≃ Fin k) (p : Pairs k) : Pairs k :=
  if h : e p.1.1 < e p.1.2 then ⟨(e p.1.1, e p.1.2), h⟩
  else ⟨(e p.1.2, e p.1.1), lt_of_le_of_ne (not_lt.mp h) (fun q => absurd (e.injective q) (ne_of_gt p.2))⟩

theorem swapPair_bijective (e : Fin k ≃ Fin k) : Function.Bijective (swapPair e) := by
  rw [← Finite.injective_iff_bijective]
  rintro ⟨⟨a, b⟩, hab⟩ ⟨⟨c, d⟩, hcd⟩ h
  simp only [swapPair] at h
  dsimp only at hab hcd
  split_ifs at h with h1 h2 h2 <;> simp only [Subtype.mk.injEq, Prod.mk.injEq, EmbeddingLike.apply_eq_iff_eq] at h
  · obtain ⟨rfl, rfl⟩ := h; rfl
  · obtain ⟨rfl, rfl⟩ := h; exact absurd hab (not_lt.mpr hcd.le)
  · obtain ⟨rfl, rfl⟩ := h; exact absurd hab (not_lt.mpr hcd.le)
  · obtain ⟨rfl, rfl⟩ := h; rfl

theorem swapPair_apply (e : Fin k ≃ Fin k) (F : Fin k → Fin k → ℝ) (hF : ∀ i j, F i j = F j i) (p : Pairs k) :
    F (swapPair e p).1.1 (swapPair e p).1.2 = F (e p.1.1) (e p.1.2) := by
  unfold swapPair
  split_ifs <;> simp [hF]

theorem pairs_iInf (e : Fin k ≃ Fin k) (F : Fin k → Fin k → ℝ) (hF : ∀ i j, F i j = F j i) :
    (⨅ p : Pairs k, F (e p.1.1) (e p.1.2)) = ⨅ p : Pairs k, F p.1.1 p.1.2 :=
  (swapPair_bijective e).surjective.iInf_congr (swapPair e) (fun p => swapPair_apply e F hF p)

theorem pairs_sum (e : Fin k ≃ Fin k) (F : Fin k → Fin k → ℝ) (hF : ∀ i j, F i j = F j i) :
    (∑ p : Pairs k, F (e p.1.1) (e p.1.2)) = ∑ p : Pairs k, F p.1.1 p.1.2 :=
  Fintype.sum_bijective (swapPair e) (swapPair_bijective e) _ _ (fun p => (swapPair_apply e F hF p).symm)

def neEquiv (e : Fin k ≃ Fin k) (i : Fin k) : {j : Fin k // ¬ j = i} ≃ {j : Fin k // ¬ j = e i} :=
  e.subtypeEquiv (fun j => by simp)

theorem ne_iInf (e : Fin k ≃ Fin k) (i : Fin k) (F : Fin k → ℝ) :
    (⨅ j : {j : Fin k // ¬ j = i}, F (e j.1)) = ⨅ j : {j : Fin k // ¬ j = e i}, F j.1 :=
  (neEquiv e i).iInf_congr (fun _ => rfl)

theorem ne_iSup (e : Fin k ≃ Fin k) (i : Fin k) (F : Fin k → ℝ) :
    (⨆ j : {j : Fin k // ¬ j = i}, F (e j.1)) = ⨆ j : {j : Fin k // ¬ j = e i}, F j.1 :=
  (neEquiv e i).iSup_congr (fun _ => rfl)

theorem D2_symm (S : Stats k d) (i j) : D2 S i j = D2 S j i := by
  unfold D2; exact Finset.sum_congr rfl (fun f _ => by ring)
theorem D2_diag (S : Stats k d) (i) : D2 S i i = 0 := by
  unfold D2; exact Finset.sum_eq_zero (fun f _ => by ring)
theorem D53_symm (S : Stats k d) (i j) : D53 S i j = D53 S j i := by
  unfold D53; ring_nf
theorem rD_symm (S : Stats k d) (i j) : rD S i j = rD S j i := by
  unfold rD
  have h : (Matrix.of fun (a b : Fin d) => sigma S a b i + sigma S a b j) = Matrix.of fun (a b : Fin d) => sigma S a b j + sigma S a b i := by
    ext a b; simp [add_comm]
  rw [h]
  congr 3
  exact Finset.sum_congr rfl (fun a _ => Finset.sum_congr rfl (fun b _ => by ring))

def sil (a b : ℝ) : ℝ := (b + (-1:ℝ) * a) * (if b ≤ a then a else b)⁻¹

theorem cSIL_eq (S : Stats k d) :
    valcSIL S = (∑ i, sil (Ssil S i i) (⨅ j : {j : Fin k // ¬ j = i}, Ssil S j.1 i)) * (k:ℝ)⁻¹ := rfl

theorem sil_eq (a b : ℝ) : sil a b = (b - a) / max a b := by
  unfold sil
  rw [max_def, div_eq_mul_inv]
  rcases lt_trichotomy a b with h | h | h
  · rw [if_neg (not_le.mpr h), if_pos h.le]; ring
  · rw [if_pos h.ge, if_pos h.le, h]; ring
  · rw [if_pos h.le, if_neg (not_le.mpr h)]; ring

def beta (S : Stats k d) : ℝ :=
  (∑ c, ∑ f, (v S c f + (-1:ℝ) * (∑ c', v S c' f) * (k:ℝ)⁻¹) * (v S c f + (-1:ℝ) * (∑ c', v S c' f) * (k:ℝ)⁻¹)) * (k:ℝ)⁻¹

theorem PS_eq (S : Stats k d) : valPS S = ∑ i, (S.n i * (⨆ c, S.n c)⁻¹
    + (-1:ℝ) * Real.exp ((-1:ℝ) * (⨅ j : {j : Fin k // ¬ j = i}, D2 S i j.1) * (beta S)⁻¹)) := rfl

section reindex
variable (S : Stats k d) (e : Fin k ≃ Fin k)
theorem v_re (c f) : v (reindex S e) c f = v S (e c) f := rfl
theorem mu_re (f) : mu (reindex S e) f = mu S f := rfl
theorem CP_re (c) : CP (reindex S e) c = CP S (e c) := rfl
theorem SEP_re (c) : SEP (reindex S e) c = SEP S (e c) := rfl
theorem D2_re (i j) : D2 (reindex S e) i j = D2 S (e i) (e j) := rfl
theorem D53_re (i j) : D53 (reindex S e) i j = D53 S (e i) (e j) := rfl
theorem Ssil_re (i j) : Ssil (reindex S e) i j = Ssil S (e i) (e j) := rfl
theorem rD_re (i j) : rD (reindex S e) i j = rD S (e i) (e j) := rfl
theorem n_re (i) : (reindex S e).n i = S.n (e i) := rfl
theorem N_re : (reindex S e).N = S.N := rfl
theorem sum_re (F : Fin k → ℝ) : (∑ i, F (e i)) = ∑ i, F i := Equiv.sum_comp e F
theorem iSup_re (F : Fin k → ℝ) : (⨆ i, F (e i)) = ⨆ i, F i := Equiv.iSup_comp e

theorem CH_perm : valCH (reindex S e) = valCH S := by
  unfold valCH; simp only [SEP_re, CP_re, N_re, sum_re e (SEP S), sum_re e (CP S)]
theorem WB_perm : valWB (reindex S e) = valWB S := by
  unfold valWB; simp only [SEP_re, CP_re, N_re, sum_re e (SEP S), sum_re e (CP S)]
theorem XB_perm : valXB (reindex S e) = valXB S := by
  unfold valXB; simp only [D2_re, CP_re, N_re, sum_re e (CP S)]
  rw [pairs_iInf e (D2 S) (D2_symm S)]
theorem rCIP_perm : valrCIP (reindex S e) = valrCIP S := by
  unfold valrCIP; simp only [rD_re]
  exact pairs_sum e (rD S) (rD_symm S)
theorem GD43_perm : valGD43 (reindex S e) = valGD43 S := by
  unfold valGD43; simp only [D2_re, CP_re, n_re, iSup_re e (fun c => CP S c * (S.n c)⁻¹)]
  rw [pairs_iInf e (fun i j => Real.sqrt (D2 S i j)) (fun i j => by rw [D2_symm])]
theorem GD53_perm : valGD53 (reindex S e) = valGD53 S := by
  unfold valGD53; simp only [D53_re, CP_re, n_re, iSup_re e (fun c => CP S c * (S.n c)⁻¹)]
  rw [pairs_iInf e (D53 S) (D53_symm S)]
theorem DB_perm : valDB (reindex S e) = valDB S := by
  unfold valDB; simp only [D2_re, CP_re, n_re]
  congr 1
  rw [← sum_re e (fun i => ⨆ j : {j : Fin k // ¬ j = i}, (CP S i * (S.n i)⁻¹ + CP S j.1 * (S.n j.1)⁻¹) * (D2 S i j.1)⁻¹)]
  exact Finset.sum_congr rfl (fun i _ => ne_iSup e i (fun j => (CP S (e i) * (S.n (e i))⁻¹ + CP S j * (S.n j)⁻¹) * (D2 S (e i) j)⁻¹))
theorem cSIL_perm : valcSIL (reindex S e) = valcSIL S := by
  rw [cSIL_eq, cSIL_eq]
  congr 1
  rw [← sum_re e (fun i => sil (Ssil S i i) (⨅ j : {j : Fin k // ¬ j = i}, Ssil S j.1 i))]
  refine Finset.sum_congr rfl (fun i _ => ?_)
  rw [← ne_iInf e i (fun j => Ssil S j (e i))]
  rfl
theorem beta_re : beta (reindex S e) = beta S := by
  unfold beta; simp only [v_re]
  have h1 : ∀ f, (∑ c, v S (e c) f) = ∑ c, v S c f := fun f => sum_re e (fun c => v S c f)
  simp only [h1]
  rw [sum_re e (fun c => ∑ f, (v S c f + (-1:ℝ) * (∑ c', v S c' f) * (k:ℝ)⁻¹) * (v S c f + (-1:ℝ) * (∑ c', v S c' f) * (k:ℝ)⁻¹))]
theorem PS_perm : valPS (reindex S e) = valPS S := by
  rw [PS_eq, PS_eq, beta_re]; simp only [D2_re, n_re, iSup_re e S.n]
  rw [← sum_re e (fun i => S.n i * (⨆ c, S.n c)⁻¹ + (-1:ℝ) * Real.exp ((-1:ℝ) * (⨅ j : {j : Fin k // ¬ j = i}, D2 S i j.1) * (beta S)⁻¹))]
  refine Finset.sum_congr rfl (fun i _ => ?_)
  rw [ne_iInf e i (fun j => D2 S (e i) j)]
end reindex

/-! ## The value depends on the partition only -/

@[ext] theorem Stats.ext' {S T : Stats k d} (h1 : S.N = T.N) (h2 : ∀ c, S.n c = T.n c) (h3 : ∀ c f, S.s c f = T.s c f)
    (h4 : ∀ c f g, S.Q c f g = T.Q c f g) (h5 : ∀ f, S.tot f = T.tot f) : S = T := by
  cases S; cases T
  simp only [Stats.mk.injEq]
  exact ⟨h1, funext h2, funext fun c => funext (h3 c), funext fun c => funext fun f => funext (h4 c f), funext h5⟩

/-- A real-valued functional of the statistics that ignores the numbering of the clusters. -/
def Perm (F : ∀ {k : ℕ}, Stats k d → ℝ) : Prop :=
  ∀ (k : ℕ) (S : Stats k d) (e : Fin k ≃ Fin k), F (reindex S e) = F S

theorem ofData_relabel {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (z : ι → Fin k) (e : Fin k ≃ Fin k) :
    ofData X (fun t => e.symm (z t)) = reindex (ofData X z) e := by
  have h : ∀ t c, (e.symm (z t) = c) = (z t = e c) := fun t c => propext (Equiv.symm_apply_eq e)
  ext <;> simp only [ofData, reindex, h]

theorem ofData_samples {ι κ : Type} [Fintype ι] [Fintype κ] (X : ι → Fin d → ℝ) (z : ι → Fin k) (π : κ ≃ ι) :
    ofData (fun t => X (π t)) (fun t => z (π t)) = ofData X z := by
  ext
  · simp only [ofData]; rw [Fintype.card_congr π]
  · simp only [ofData]; exact Equiv.sum_comp π (fun t => if z t = _ then (1:ℝ) else 0)
  · simp only [ofData]; exact Equiv.sum_comp π (fun t => if z t = _ then X t _ else 0)
  · simp only [ofData]; exact Equiv.sum_comp π (fun t => if z t = _ then X t _ * X t _ else 0)
  · simp only [ofData]; exact Equiv.sum_comp π (fun t => X t _)

/-- `S` are the statistics of the samples `X` partitioned by equality of the labels `L`, the clusters being numbered somehow. -/
def Represents {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (L : ι → ℤ) (S : Stats k d) : Prop :=
  ∃ z : ι → Fin k, Function.Surjective z ∧ (∀ t t', z t = z t' ↔ L t = L t') ∧ S = ofData X z

theorem same_partition {ι : Type} {k1 k2 : ℕ} (z1 : ι → Fin k1) (z2 : ι → Fin k2) (h1 : Function.Surjective z1)
    (h2 : Function.Surjective z2) (h : ∀ t t', z1 t = z1 t' ↔ z2 t = z2 t') :
    ∃ e : Fin k1 ≃ Fin k2, ∀ t, e (z1 t) = z2 t := by
  have r1 := Function.surjInv_eq h1
  have r2 := Function.surjInv_eq h2
  refine ⟨⟨fun c => z2 (Function.surjInv h1 c), fun c => z1 (Function.surjInv h2 c), fun c => ?_, fun c => ?_⟩, fun t => ?_⟩
  · have : z1 (Function.surjInv h2 (z2 (Function.surjInv h1 c))) = z1 (Function.surjInv h1 c) := (h _ _).2 (r2 _)
    simpa [r1] using this
  · have : z2 (Function.surjInv h1 (z1 (Function.surjInv h2 c))) = z2 (Function.surjInv h2 c) := (h _ _).1 (r1 _)
    simpa [r2] using this
  · exact (h _ _).1 (r1 _)

/-- Two numberings of the same partition give the same number of clusters and the same value. -/
theorem value_of_partition {ι : Type} [Fintype ι] {k1 k2 : ℕ} (F : ∀ {k : ℕ}, Stats k d → ℝ) (hF : Perm F) (X : ι → Fin d → ℝ) (L1 L2 : ι → ℤ)
    (hL : ∀ t t', L1 t = L1 t' ↔ L2 t = L2 t')
    (S1 : Stats k1 d) (S2 : Stats k2 d) (h1 : Represents X L1 S1) (h2 : Represents X L2 S2) : k1 = k2 ∧ F S1 = F S2 := by
  obtain ⟨z1, s1, q1, rfl⟩ := h1
  obtain ⟨z2, s2, q2, rfl⟩ := h2
  obtain ⟨e, he⟩ := same_partition z1 z2 s1 s2 (fun t t' => (q1 t t').trans ((hL t t').trans (q2 t t').symm))
  have hk : k1 = k2 := by simpa using Fintype.card_congr e
  subst hk
  refine ⟨rfl, ?_⟩
  have : z1 = fun t => e.symm (z2 t) := by funext t; rw [← he t, Equiv.symm_apply_apply]
  rw [this, ofData_relabel]
  exact hF _ _ e

/-! ## Streaming: the ghost steps of the contracts compute the statistics of the samples so far -/

def NStats.at (G : NStats) (k d : ℕ) : Stats k d where
  N := G.N
  n c := G.n c
  s c f := G.s c f
  Q c f g := G.Q c f g
  tot f := G.tot f

/-- The states the contracts of `get_cvi` describe: the ghost statistics, and the label map (`known`, `slot`). -/
inductive Reach (d : ℕ) : (m : ℕ) → (Fin m → ℕ → ℝ) → (Fin m → ℤ) → ℕ → (ℤ → Prop) → (ℤ → ℕ) → NStats → Prop
  | init (x : ℕ → ℝ) (l : ℤ) (slot : ℤ → ℕ) (hs : slot l = 0) :
      Reach d 1 (fun _ => x) (fun _ => l) 1 (fun y => y = l) slot (first x)
  | old {m X L k known slot G} (h : Reach d m X L k known slot G) (x : ℕ → ℝ) (l : ℤ) (hl : known l) :
      Reach d (m + 1) (Fin.snoc X x) (Fin.snoc L l) k known slot (stepOld G (slot l) x)
  | new {m X L k known slot G} (h : Reach d m X L k known slot G) (x : ℕ → ℝ) (l : ℤ) (hl : ¬ known l)
      (slot' : ℤ → ℕ) (h1 : slot' l = k) (h2 : ∀ y, known y → slot' y = slot y) :
      Reach d (m + 1) (Fin.snoc X x) (Fin.snoc L l) (k + 1) (fun y => known y ∨ y = l) slot' (stepNew G k x)

theorem reach_inv {m X L k known slot G} (h : Reach d m X L k known slot G) :
    (∀ y, known y ↔ ∃ t, L t = y) ∧ (∀ t, slot (L t) < k) ∧ (∀ c, c < k → ∃ t, slot (L t) = c) ∧
    (∀ t t', slot (L t) = slot (L t') → L t = L t') ∧
    G.N = m ∧ (∀ c, c < k → G.n c = ∑ t, if slot (L t) = c then (1:ℝ) else 0) ∧
    (∀ c, c < k → ∀ f, G.s c f = ∑ t, if slot (L t) = c then X t f else 0) ∧
    (∀ c, c < k → ∀ f g, G.Q c f g = ∑ t, if slot (L t) = c then X t f * X t g else 0) ∧
    (∀ f, G.tot f = ∑ t, X t f) := by
  induction h with
  | init x l slot hs =>
    refine ⟨fun y => ⟨fun h => ⟨0, h.symm⟩, fun ⟨_, h⟩ => h.symm⟩, fun _ => by simp [hs], fun c hc => ⟨0, by simp only [hs]; omega⟩, fun _ _ _ => rfl, ?_, ?_, ?_, ?_, ?_⟩
    · simp [first]
    · intro c hc; have : c = 0 := by omega
      subst this; simp [first, hs]
    · intro c hc f; have : c = 0 := by omega
      subst this; simp [first, hs]
    · intro c hc f g; have : c = 0 := by omega
      subst this; simp [first, hs]
    · intro f; simp [first]
  | @old m X L k known slot G h x l hl ih =>
    obtain ⟨i1, i2, i3, i4, i5, i6, i7, i8, i9⟩ := ih
    obtain ⟨t0, ht0⟩ := (i1 l).1 hl
    refine ⟨fun y => ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_⟩
    · rw [i1 y]
      constructor
      · rintro ⟨t, rfl⟩; exact ⟨t.castSucc, by simp⟩
      · rintro ⟨t, ht⟩
        refine Fin.lastCases (fun ht => ?_) (fun t ht => ?_) t ht
        · exact ⟨t0, by simpa [ht0] using ht⟩
        · exact ⟨t, by simpa using ht⟩
    · intro t; refine Fin.lastCases ?_ (fun t => ?_) t
      · simpa [ht0] using i2 t0
      · simpa using i2 t
    · intro c hc; obtain ⟨t, ht⟩ := i3 c hc; exact ⟨t.castSucc, by simpa using ht⟩
    · intro t t'
      refine Fin.lastCases (fun t' => ?_) (fun t t' => ?_) t t'
      · refine Fin.lastCases (fun _ => rfl) (fun t' => ?_) t'
        simp only [Fin.snoc_last, Fin.snoc_castSucc]; rw [← ht0]; exact i4 t0 t'
      · refine Fin.lastCases ?_ (fun t' => ?_) t'
        · simp only [Fin.snoc_last, Fin.snoc_castSucc]; rw [← ht0]; exact i4 t t0
        · simp only [Fin.snoc_castSucc]; exact i4 t t'
    · simp [stepOld, i5]
    · intro c hc; simp only [stepOld, Fin.sum_univ_castSucc, Fin.snoc_last, Fin.snoc_castSucc, ← i6 c hc]
      by_cases h : c = slot l
      · simp [h]
      · simp [h, Ne.symm h]
    · intro c hc f; simp only [stepOld, Fin.sum_univ_castSucc, Fin.snoc_last, Fin.snoc_castSucc, ← i7 c hc f]
      by_cases h : c = slot l
      · simp [h]
      · simp [h, Ne.symm h]
    · intro c hc f g; simp only [stepOld, Fin.sum_univ_castSucc, Fin.snoc_last, Fin.snoc_castSucc, ← i8 c hc f g]
      by_cases h : c = slot l
      · simp [h]
      · simp [h, Ne.symm h]
    · intro f; simp only [stepOld, Fin.sum_univ_castSucc, Fin.snoc_last, Fin.snoc_castSucc, ← i9 f]
  | @new m X L k known slot G h x l hl slot' h1 h2 ih =>
    obtain ⟨i1, i2, i3, i4, i5, i6, i7, i8, i9⟩ := ih
    have hk : ∀ t, slot' (L t) = slot (L t) := fun t => h2 _ ((i1 _).2 ⟨t, rfl⟩)
    have hlt : ∀ t, slot' (L t) < k := fun t => by rw [hk]; exact i2 t
    refine ⟨fun y => ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_⟩
    · simp only [i1 y]
      constructor
      · rintro (⟨t, rfl⟩ | rfl)
        · exact ⟨t.castSucc, by simp⟩
        · exact ⟨Fin.last m, by simp⟩
      · rintro ⟨t, ht⟩
        refine Fin.lastCases (fun ht => ?_) (fun t ht => ?_) t ht
        · exact Or.inr (by simpa using ht.symm)
        · exact Or.inl ⟨t, by simpa using ht⟩
    · intro t; refine Fin.lastCases ?_ (fun t => ?_) t
      · simp [h1]
      · simpa using Nat.lt_succ_of_lt (hlt t)
    · intro c hc
      rcases Nat.lt_succ_iff_lt_or_eq.mp hc with hc | rfl
      · obtain ⟨t, ht⟩ := i3 c hc; exact ⟨t.castSucc, by simp [hk, ht]⟩
      · exact ⟨Fin.last m, by simp [h1]⟩
    · intro t t'
      refine Fin.lastCases (fun t' => ?_) (fun t t' => ?_) t t'
      · refine Fin.lastCases (fun _ => rfl) (fun t' => ?_) t'
        simp only [Fin.snoc_last, Fin.snoc_castSucc]; intro h; have := hlt t'; omega
      · refine Fin.lastCases ?_ (fun t' => ?_) t'
        · simp only [Fin.snoc_last, Fin.snoc_castSucc]; intro h; have := hlt t; omega
        · simp only [Fin.snoc_castSucc, hk]; exact i4 t t'
    · simp [stepNew, i5]
    · intro c hc; simp only [stepNew, Fin.sum_univ_castSucc, Fin.snoc_last, Fin.snoc_castSucc, h1]
      rcases Nat.lt_succ_iff_lt_or_eq.mp hc with hc | rfl
      · simp [hc.ne, hc.ne', i6 c hc, hk]
      · simp [(hlt _).ne]
    · intro c hc f; simp only [stepNew, Fin.sum_univ_castSucc, Fin.snoc_last, Fin.snoc_castSucc, h1]
      rcases Nat.lt_succ_iff_lt_or_eq.mp hc with hc | rfl
      · simp [hc.ne, hc.ne', i7 c hc, hk]
      · simp [(hlt _).ne]
    · intro c hc f g; simp only [stepNew, Fin.sum_univ_castSucc, Fin.snoc_last, Fin.snoc_castSucc, h1]
      rcases Nat.lt_succ_iff_lt_or_eq.mp hc with hc | rfl
      · simp [hc.ne, hc.ne', i8 c hc, hk]
      · simp [(hlt _).ne]
    · intro f; simp only [stepNew, Fin.sum_univ_castSucc, Fin.snoc_last, Fin.snoc_castSucc, ← i9 f]

theorem stream_represents {m X L k known slot G} (h : Reach d m X L k known slot G) :
    Represents (fun t (f : Fin d) => X t f) L (G.at k d) := by
  obtain ⟨i1, i2, i3, i4, i5, i6, i7, i8, i9⟩ := reach_inv h
  have hz : ∀ t (c : Fin k), ((⟨slot (L t), i2 t⟩ : Fin k) = c) = (slot (L t) = c) := fun t c => by simp [Fin.ext_iff]
  refine ⟨fun t => ⟨slot (L t), i2 t⟩, fun c => ?_, fun t t' => ?_, ?_⟩
  · obtain ⟨t, ht⟩ := i3 c c.2; exact ⟨t, Fin.ext ht⟩
  · simp only [Fin.mk.injEq]; exact ⟨i4 t t', fun h => by rw [h]⟩
  · ext
    · simp [NStats.at, ofData, i5]
    · simp [NStats.at, ofData, i6, Fin.ext_iff]
    · simp [NStats.at, ofData, i7, Fin.ext_iff]
    · simp [NStats.at, ofData, i8, Fin.ext_iff]
    · simp [NStats.at, ofData, i9]

/-- Batch: `L t = u (z t)` with `u` injective and every cluster inhabited (the contract of `np.unique`). -/
theorem batch_represents {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (L : ι → ℤ) (z : ι → Fin k) (u : Fin k → ℤ) (hu : Function.Injective u)
    (hz : Function.Surjective z) (hL : ∀ t, L t = u (z t)) : Represents X L (ofData X z) :=
  ⟨z, hz, fun t t' => by rw [hL, hL, hu.eq_iff], rfl⟩

/-- In the statistics of samples the second moments of a single-sample cluster are those of its sample,
so the contracts of rCIP (which say so explicitly) and the other contracts agree. -/
theorem single_ofData {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (z : ι → Fin k) : single (ofData X z) = ofData X z := by
  ext c f g
  · rfl
  · rfl
  · rfl
  · show (if (1:ℝ) = (ofData X z).n c then (ofData X z).s c f * (ofData X z).s c g else (ofData X z).Q c f g) = (ofData X z).Q c f g
    by_cases h : (1:ℝ) = (ofData X z).n c
    · rw [if_pos h]
      have hc : (Finset.univ.filter (fun t => z t = c)).card = 1 := by
        have := h.symm
        simp only [ofData] at this
        rw [Finset.sum_boole] at this
        exact_mod_cast this
      obtain ⟨t0, ht⟩ := Finset.card_eq_one.mp hc
      simp only [ofData]
      rw [← Finset.sum_filter, ← Finset.sum_filter, ← Finset.sum_filter, ht]
      simp only [Finset.sum_singleton]
    · rw [if_neg h]
  · rfl

/-! ### C10, C11, C12 -/

theorem stream_eq_batch (F : ∀ {k : ℕ}, Stats k d → ℝ) (hF : Perm F) {m X L k known slot G} (h : Reach d m X L k known slot G)
    {k' : ℕ} (z : Fin m → Fin k') (u : Fin k' → ℤ) (hu : Function.Injective u) (hz : Function.Surjective z) (hL : ∀ t, L t = u (z t)) :
    k = k' ∧ F (G.at k d) = F (ofData (fun t (f : Fin d) => X t f) z) :=
  value_of_partition F hF _ L L (fun _ _ => Iff.rfl) _ _ (stream_represents h) (batch_represents _ L z u hu hz hL)

theorem stream_rename (F : ∀ {k : ℕ}, Stats k d → ℝ) (hF : Perm F) {m X L L' k k' known known' slot slot' G G'}
    (hL : ∀ t t', L t = L t' ↔ L' t = L' t')
    (h : Reach d m X L k known slot G) (h' : Reach d m X L' k' known' slot' G') : k = k' ∧ F (G.at k d) = F (G'.at k' d) :=
  value_of_partition F hF _ L L' hL _ _ (stream_represents h) (stream_represents h')

theorem batch_rename (F : ∀ {k : ℕ}, Stats k d → ℝ) (hF : Perm F) {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (L L' : ι → ℤ)
    (hL : ∀ t t', L t = L t' ↔ L' t = L' t') {k k' : ℕ} (S : Stats k d) (S' : Stats k' d) (h : Represents X L S) (h' : Represents X L' S') :
    k = k' ∧ F S = F S' := value_of_partition F hF X L L' hL S S' h h'

theorem represents_perm {ι : Type} [Fintype ι] (π : ι ≃ ι) (X : ι → Fin d → ℝ) (L : ι → ℤ) (S : Stats k d)
    (h : Represents (fun t => X (π t)) (fun t => L (π t)) S) : Represents X L S := by
  obtain ⟨z, hz, hk, rfl⟩ := h
  refine ⟨fun t => z (π.symm t), hz.comp π.symm.surjective, fun t t' => ?_, ?_⟩
  · rw [hk]; simp
  · rw [← ofData_samples X (fun t => z (π.symm t)) π]; simp

theorem stream_order (F : ∀ {k : ℕ}, Stats k d → ℝ) (hF : Perm F) {m k k' X L known known' slot slot' G G'} (π : Fin m ≃ Fin m)
    (h : Reach d m X L k known slot G) (h' : Reach d m (fun t => X (π t)) (fun t => L (π t)) k' known' slot' G') :
    k = k' ∧ F (G.at k d) = F (G'.at k' d) :=
  value_of_partition F hF _ L L (fun _ _ => Iff.rfl) _ _ (stream_represents h)
    (represents_perm π (fun t (f : Fin d) => X t f) L _ (stream_represents h'))

theorem batch_order (F : ∀ {k : ℕ}, Stats k d → ℝ) (hF : Perm F) {ι : Type} [Fintype ι] (π : ι ≃ ι) (X : ι → Fin d → ℝ) (L : ι → ℤ)
    {k k' : ℕ} (S : Stats k d) (S' : Stats k' d) (h : Represents X L S)
    (h' : Represents (fun t => X (π t)) (fun t => L (π t)) S') : k = k' ∧ F S = F S' :=
  value_of_partition F hF X L L (fun _ _ => Iff.rfl) _ _ h (represents_perm π X L _ h')

theorem CH_numbering : Perm (d := d) valCH := fun _ S e => CH_perm S e
theorem cSIL_numbering : Perm (d := d) valcSIL := fun _ S e => cSIL_perm S e
theorem DB_numbering : Perm (d := d) valDB := fun _ S e => DB_perm S e
theorem GD43_numbering : Perm (d := d) valGD43 := fun _ S e => GD43_perm S e
theorem GD53_numbering : Perm (d := d) valGD53 := fun _ S e => GD53_perm S e
theorem PS_numbering : Perm (d := d) valPS := fun _ S e => PS_perm S e
theorem rCIP_numbering : Perm (d := d) valrCIP := fun _ S e => rCIP_perm S e
theorem WB_numbering : Perm (d := d) valWB := fun _ S e => WB_perm S e
theorem XB_numbering : Perm (d := d) valXB := fun _ S e => XB_perm S e

/-! ## The statistics of samples: the facts the verifier's contexts use -/

section data
variable {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (z : ι → Fin k)

/-- sum over the members of a cluster -/
def mem (z : ι → Fin k) (c : Fin k) (g : ι → ℝ) : ℝ := ∑ t, if z t = c then g t else 0

theorem mem_add (c) (g h : ι → ℝ) : mem z c (fun t => g t + h t) = mem z c g + mem z c h := by
  unfold mem; rw [← Finset.sum_add_distrib]; exact Finset.sum_congr rfl (fun t _ => by split_ifs <;> simp)
theorem mem_mul (c) (a : ℝ) (g : ι → ℝ) : mem z c (fun t => a * g t) = a * mem z c g := by
  unfold mem; rw [Finset.mul_sum]; exact Finset.sum_congr rfl (fun t _ => by split_ifs <;> simp)
theorem mem_const (c) (a : ℝ) : mem z c (fun _ => a) = a * (ofData X z).n c := by
  have := mem_mul z c a (fun _ => 1); simpa [mem, ofData] using this
theorem mem_sum (c) {κ : Type} [Fintype κ] (g : κ → ι → ℝ) : mem z c (fun t => ∑ f, g f t) = ∑ f, mem z c (g f) := by
  unfold mem; rw [Finset.sum_comm]; exact Finset.sum_congr rfl (fun t _ => by split_ifs <;> simp)
theorem mem_nonneg (c) (g : ι → ℝ) (h : ∀ t, 0 ≤ g t) : 0 ≤ mem z c g :=
  Finset.sum_nonneg (fun t _ => by split_ifs; exacts [h t, le_refl 0])

theorem data_n_pos (hz : Function.Surjective z) (c) : 1 ≤ (ofData X z).n c := by
  obtain ⟨t, ht⟩ := hz c
  simp only [ofData]
  calc (1:ℝ) = if z t = c then 1 else 0 := by simp [ht]
    _ ≤ _ := Finset.single_le_sum (f := fun t => if z t = c then (1:ℝ) else 0) (fun t _ => by split_ifs <;> norm_num) (Finset.mem_univ t)

theorem data_sum_n : ∑ c, (ofData X z).n c = (ofData X z).N := by
  simp only [ofData]; rw [Finset.sum_comm]; simp
theorem data_sum_s (f) : ∑ c, (ofData X z).s c f = (ofData X z).tot f := by
  simp only [ofData]; rw [Finset.sum_comm]; simp
theorem data_Q_symm (c f g) : (ofData X z).Q c f g = (ofData X z).Q c g f := by
  simp only [ofData]; exact Finset.sum_congr rfl (fun t _ => by rw [mul_comm])
theorem data_k_le (hz : Function.Surjective z) : (k:ℝ) ≤ (ofData X z).N := by
  have := Fintype.card_le_of_surjective z hz
  simp only [ofData]; rw [Fintype.card_fin] at this; exact_mod_cast this
/-- the counts the verifier treats as integers are integers, and they count the members -/
theorem data_n_card (c) : (ofData X z).n c = (Finset.univ.filter (fun t => z t = c)).card := by
  simp [ofData]

/-! ### The definitions written in the property statements -/

/-- the arithmetic mean of the members of cluster `c` is `v` -/
theorem v_is_mean (c f) : v (ofData X z) c f = mem z c (fun t => X t f) / (ofData X z).n c := by
  unfold v mem ofData; rfl
/-- `mu` is the mean of all samples -/
theorem mu_is_mean (f) : mu (ofData X z) f = (∑ t, X t f) / Fintype.card ι := rfl

theorem scatter (hz : Function.Surjective z) (c : Fin k) (f g : Fin d) :
    mem z c (fun t => (X t f - v (ofData X z) c f) * (X t g - v (ofData X z) c g))
      = (ofData X z).Q c f g + (-1:ℝ) * (ofData X z).s c f * (ofData X z).s c g * ((ofData X z).n c)⁻¹ := by
  have hn : (ofData X z).n c ≠ 0 := by have := data_n_pos X z hz c; intro h; rw [h] at this; norm_num at this
  have e : (fun t => (X t f - v (ofData X z) c f) * (X t g - v (ofData X z) c g))
      = fun t => ((X t f * X t g) + (- v (ofData X z) c f) * X t g) + ((- v (ofData X z) c g) * X t f + v (ofData X z) c f * v (ofData X z) c g) := by
    funext t; ring
  rw [e, mem_add, mem_add, mem_add, mem_mul, mem_mul, mem_const X]
  have h1 : mem z c (fun t => X t f * X t g) = (ofData X z).Q c f g := rfl
  have h2 : ∀ f, mem z c (fun t => X t f) = (ofData X z).s c f := fun _ => rfl
  rw [h1, h2, h2]
  unfold v
  field_simp
  ring

/-- `CP c` is the sum of squared Euclidean distances of the samples of cluster `c` to their mean. -/
theorem CP_is_scatter (hz : Function.Surjective z) (c) :
    CP (ofData X z) c = mem z c (fun t => ∑ f, (X t f - v (ofData X z) c f) ^ 2) := by
  rw [mem_sum]; unfold CP
  exact Finset.sum_congr rfl (fun f _ => by rw [← scatter X z hz c f f]; congr 1; funext t; ring)

/-- `Ssil j i` is the mean squared distance of the samples of cluster `j` to the mean of cluster `i`. -/
theorem Ssil_is_mean (hz : Function.Surjective z) (j i) :
    Ssil (ofData X z) j i = mem z j (fun t => ∑ f, (X t f - v (ofData X z) i f) ^ 2) / (ofData X z).n j := by
  have hn : (ofData X z).n j ≠ 0 := by have := data_n_pos X z hz j; intro h; rw [h] at this; norm_num at this
  have hf : ∀ f, mem z j (fun t => (X t f - v (ofData X z) i f) ^ 2)
      = (ofData X z).Q j f f + (-2:ℝ) * ((ofData X z).s j f * v (ofData X z) i f) + v (ofData X z) i f * v (ofData X z) i f * (ofData X z).n j := by
    intro f
    have e : (fun t => (X t f - v (ofData X z) i f) ^ 2) = fun t => (X t f * X t f + (-2 * v (ofData X z) i f) * X t f) + v (ofData X z) i f * v (ofData X z) i f := by
      funext t; ring
    rw [e, mem_add, mem_add, mem_mul, mem_const X]
    have h1 : mem z j (fun t => X t f * X t f) = (ofData X z).Q j f f := rfl
    have h2 : mem z j (fun t => X t f) = (ofData X z).s j f := rfl
    rw [h1, h2]; ring
  rw [mem_sum]; simp only [hf]
  rw [Finset.sum_add_distrib, Finset.sum_add_distrib, ← Finset.mul_sum, ← Finset.sum_mul]
  unfold Ssil
  field_simp

/-- a cluster's own mean squared distance is `CP / n` -/
theorem Ssil_own (hz : Function.Surjective z) (c) : Ssil (ofData X z) c c = CP (ofData X z) c * ((ofData X z).n c)⁻¹ := by
  rw [Ssil_is_mean X z hz, CP_is_scatter X z hz, div_eq_mul_inv]

/-- `cov` is the unbiased sample covariance, zero for a single sample. -/
theorem cov_is_covariance (hz : Function.Surjective z) (a b c) :
    cov (ofData X z) a b c = if (2:ℝ) ≤ (ofData X z).n c then
      mem z c (fun t => (X t a - v (ofData X z) c a) * (X t b - v (ofData X z) c b)) / ((ofData X z).n c - 1) else 0 := by
  unfold cov; rw [scatter X z hz]
  congr 1

theorem D2_is_dist (S : Stats k d) (i j) : D2 S i j = ∑ f, (v S i f - v S j f) ^ 2 := by
  unfold D2; exact Finset.sum_congr rfl (fun f _ => by ring)
theorem SEP_is_weighted_dist (S : Stats k d) (c) : SEP S c = S.n c * ∑ f, (v S c f - mu S f) ^ 2 := by
  unfold SEP; congr 1; exact Finset.sum_congr rfl (fun f _ => by ring)

/-- The summands of the GD53 dissimilarity are weighted mean scatters: `(W_i + W_j) / (n_i + n_j)`. -/
theorem D53_is_pooled (S : Stats k d) (i j) : D53 S i j = (CP S i + CP S j) / (S.n i + S.n j) := by
  unfold D53; rw [div_eq_mul_inv]

/-! ### The nine values as the property statements write them -/

/-- within-cluster and between-cluster sums of squares, and mean squared distances, of the samples -/
def W (X : ι → Fin d → ℝ) (z : ι → Fin k) (c : Fin k) : ℝ := mem z c (fun t => ∑ f, (X t f - v (ofData X z) c f) ^ 2)
def B (X : ι → Fin d → ℝ) (z : ι → Fin k) : ℝ := ∑ c, (ofData X z).n c * ∑ f, (v (ofData X z) c f - mu (ofData X z) f) ^ 2
def dist2 (X : ι → Fin d → ℝ) (z : ι → Fin k) (i j : Fin k) : ℝ := ∑ f, (v (ofData X z) i f - v (ofData X z) j f) ^ 2
def msd (X : ι → Fin d → ℝ) (z : ι → Fin k) (j i : Fin k) : ℝ := mem z j (fun t => ∑ f, (X t f - v (ofData X z) i f) ^ 2) / (ofData X z).n j
def size (X : ι → Fin d → ℝ) (z : ι → Fin k) (c : Fin k) : ℝ := ((Finset.univ.filter (fun t => z t = c)).card : ℝ)

theorem CH_textbook (hz : Function.Surjective z) :
    valCH (ofData X z) = (B X z / ∑ c, W X z c) * ((Fintype.card ι - k) / (k - 1)) := by
  unfold valCH B W
  simp only [CP_is_scatter X z hz, SEP_is_weighted_dist, div_eq_mul_inv]
  simp only [ofData]; ring
theorem WB_textbook (hz : Function.Surjective z) : valWB (ofData X z) = k * (∑ c, W X z c) / B X z := by
  unfold valWB B W
  simp only [CP_is_scatter X z hz, SEP_is_weighted_dist, div_eq_mul_inv]
theorem XB_textbook (hz : Function.Surjective z) :
    valXB (ofData X z) = (∑ c, W X z c) / (Fintype.card ι * ⨅ p : Pairs k, dist2 X z p.1.1 p.1.2) := by
  unfold valXB W dist2
  simp only [CP_is_scatter X z hz, D2_is_dist, div_eq_mul_inv]
  rfl
theorem DB_textbook (hz : Function.Surjective z) :
    valDB (ofData X z) = (∑ i, ⨆ j : {j : Fin k // ¬ j = i}, (msd X z i i + msd X z j.1 j.1) / dist2 X z i j.1) / k := by
  unfold valDB dist2 msd
  simp only [CP_is_scatter X z hz, D2_is_dist, div_eq_mul_inv]
theorem GD43_textbook (hz : Function.Surjective z) :
    valGD43 (ofData X z) = (⨅ p : Pairs k, Real.sqrt (dist2 X z p.1.1 p.1.2)) / (2 * ⨆ c, msd X z c c) := by
  unfold valGD43 dist2 msd
  simp only [CP_is_scatter X z hz, D2_is_dist, div_eq_mul_inv]
theorem GD53_textbook (hz : Function.Surjective z) :
    valGD53 (ofData X z) = (⨅ p : Pairs k, (W X z p.1.1 + W X z p.1.2) / (size X z p.1.1 + size X z p.1.2)) / (2 * ⨆ c, W X z c / size X z c) := by
  unfold valGD53 D53 W size
  simp only [CP_is_scatter X z hz, data_n_card, div_eq_mul_inv]
theorem cSIL_textbook (hz : Function.Surjective z) :
    valcSIL (ofData X z) = (∑ i, ((⨅ j : {j : Fin k // ¬ j = i}, msd X z j.1 i) - msd X z i i) /
      max (msd X z i i) (⨅ j : {j : Fin k // ¬ j = i}, msd X z j.1 i)) / k := by
  rw [cSIL_eq, div_eq_mul_inv]
  congr 1
  refine Finset.sum_congr rfl (fun i _ => ?_)
  rw [sil_eq]
  simp only [Ssil_is_mean X z hz]
  rfl
/-- `beta` is the mean squared distance of the cluster means to their unweighted average -/
theorem beta_textbook (S : Stats k d) : beta S = (∑ c, ∑ f, (v S c f - (∑ c', v S c' f) / k) ^ 2) / k := by
  unfold beta; rw [div_eq_mul_inv]; congr 1
  exact Finset.sum_congr rfl (fun c _ => Finset.sum_congr rfl (fun f _ => by ring))
theorem PS_textbook :
    valPS (ofData X z) = ∑ i, (size X z i / (⨆ c, size X z c) - Real.exp (-((⨅ j : {j : Fin k // ¬ j = i}, dist2 X z i j.1) /
      ((∑ c, ∑ f, (v (ofData X z) c f - (∑ c', v (ofData X z) c' f) / k) ^ 2) / k)))) := by
  rw [← beta_textbook, PS_eq]
  refine Finset.sum_congr rfl (fun i _ => ?_)
  simp only [D2_is_dist, data_n_card, size, dist2]
  rw [div_eq_mul_inv, div_eq_mul_inv, neg_one_mul, neg_one_mul, neg_mul]
  rfl
theorem rCIP_textbook (hz : Function.Surjective z) (i j : Fin k) :
    rD (ofData X z) i j = Real.exp (-((fun f => v (ofData X z) i f - v (ofData X z) j f) ⬝ᵥ
        (Matrix.of fun (a b : Fin d) => sigma (ofData X z) a b i + sigma (ofData X z) a b j)⁻¹.mulVec (fun f => v (ofData X z) i f - v (ofData X z) j f)) / 2)
      / (Real.sqrt ((2 * Real.pi) ^ d) * Real.sqrt (Matrix.det (Matrix.of fun (a b : Fin d) => sigma (ofData X z) a b i + sigma (ofData X z) a b j))) := by
  unfold rD cnst
  have h : ∀ (M : Matrix (Fin d) (Fin d) ℝ), (∑ a, ∑ b, (v (ofData X z) i a + (-1:ℝ) * v (ofData X z) j a) * M a b * (v (ofData X z) i b + (-1:ℝ) * v (ofData X z) j b))
      = (fun f => v (ofData X z) i f - v (ofData X z) j f) ⬝ᵥ M.mulVec (fun f => v (ofData X z) i f - v (ofData X z) j f) := by
    intro M
    simp only [dotProduct, Matrix.mulVec, Finset.mul_sum]
    exact Finset.sum_congr rfl (fun a _ => Finset.sum_congr rfl (fun b _ => by ring))
  rw [h, Real.rpow_natCast]
  set q := (fun f => v (ofData X z) i f - v (ofData X z) j f) ⬝ᵥ
        (Matrix.of fun (a b : Fin d) => sigma (ofData X z) a b i + sigma (ofData X z) a b j)⁻¹.mulVec (fun f => v (ofData X z) i f - v (ofData X z) j f)
  rw [show (-1/2:ℝ) * q = -q / 2 by ring]
  rw [div_eq_mul_inv (Real.exp _), mul_inv]
  ring
end data

/-! ## Signs -/

section signs
variable {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (z : ι → Fin k) (hz : Function.Surjective z)
include hz

theorem CP_nonneg (c) : 0 ≤ CP (ofData X z) c := by
  rw [CP_is_scatter X z hz]; exact mem_nonneg z c _ (fun t => Finset.sum_nonneg (fun f _ => sq_nonneg _))
theorem n_nonneg (c) : 0 ≤ (ofData X z).n c := le_trans zero_le_one (data_n_pos X z hz c)
theorem SEP_nonneg (c) : 0 ≤ SEP (ofData X z) c := by
  rw [SEP_is_weighted_dist]; exact mul_nonneg (n_nonneg X z hz c) (Finset.sum_nonneg (fun f _ => sq_nonneg _))
theorem Ssil_nonneg (j i) : 0 ≤ Ssil (ofData X z) j i := by
  rw [Ssil_is_mean X z hz]
  exact div_nonneg (mem_nonneg z j _ (fun t => Finset.sum_nonneg (fun f _ => sq_nonneg _))) (n_nonneg X z hz j)
omit hz in
theorem D2_nonneg (S : Stats k d) (i j) : 0 ≤ D2 S i j := by
  rw [D2_is_dist]; exact Finset.sum_nonneg (fun f _ => sq_nonneg _)
theorem D53_nonneg (i j) : 0 ≤ D53 (ofData X z) i j := by
  unfold D53
  exact mul_nonneg (add_nonneg (CP_nonneg X z hz i) (CP_nonneg X z hz j)) (inv_nonneg.mpr (add_nonneg (n_nonneg X z hz i) (n_nonneg X z hz j)))

omit hz in
theorem delta_pos : 0 < delta d := by unfold delta; exact Real.rpow_pos_of_pos (by norm_num) _

/-- the regularised covariance matrices are positive definite -/
theorem sigma_posDef (c : Fin k) : (Matrix.of fun (a b : Fin d) => sigma (ofData X z) a b c).PosDef := by
  have e : (Matrix.of fun (a b : Fin d) => sigma (ofData X z) a b c)
      = (Matrix.of fun (a b : Fin d) => cov (ofData X z) a b c) + delta d • (1 : Matrix (Fin d) (Fin d) ℝ) := by
    ext a b; simp [sigma, Matrix.one_apply]
  rw [e]
  have h1 : (delta d • (1 : Matrix (Fin d) (Fin d) ℝ)).PosDef := Matrix.PosDef.one.smul delta_pos
  refine Matrix.PosDef.posSemidef_add ?_ h1
  by_cases h2 : (2:ℝ) ≤ (ofData X z).n c
  · have e2 : (Matrix.of fun (a b : Fin d) => cov (ofData X z) a b c)
        = ((ofData X z).n c - 1)⁻¹ • ∑ t, Matrix.vecMulVec (fun a => if z t = c then X t a - v (ofData X z) c a else 0) (fun a => if z t = c then X t a - v (ofData X z) c a else 0) := by
      ext a b
      simp only [Matrix.of_apply, Matrix.smul_apply, Matrix.sum_apply, Matrix.vecMulVec_apply, smul_eq_mul]
      rw [cov_is_covariance X z hz, if_pos h2, div_eq_mul_inv, mul_comm]
      congr 1
      unfold mem
      exact Finset.sum_congr rfl (fun t _ => by split_ifs <;> simp)
    rw [e2]
    refine Matrix.PosSemidef.smul ?_ (inv_nonneg.mpr (by linarith))
    refine Matrix.posSemidef_sum _ (fun t _ => ?_)
    have := Matrix.posSemidef_vecMulVec_self_star (fun a => if z t = c then X t a - v (ofData X z) c a else 0)
    simpa using this
  · have e2 : (Matrix.of fun (a b : Fin d) => cov (ofData X z) a b c) = 0 := by
      ext a b; rw [Matrix.of_apply, cov_is_covariance X z hz, if_neg h2]; rfl
    rw [e2]; exact Matrix.PosSemidef.zero

theorem sigma_sum_det_pos (i j : Fin k) :
    0 < Matrix.det (Matrix.of fun (a b : Fin d) => sigma (ofData X z) a b i + sigma (ofData X z) a b j) := by
  have e : (Matrix.of fun (a b : Fin d) => sigma (ofData X z) a b i + sigma (ofData X z) a b j)
      = (Matrix.of fun (a b : Fin d) => sigma (ofData X z) a b i) + (Matrix.of fun (a b : Fin d) => sigma (ofData X z) a b j) := by
    ext a b; simp
  rw [e]; exact ((sigma_posDef X z hz i).add (sigma_posDef X z hz j)).det_pos

theorem sigma_det_pos (i : Fin k) : 0 < Matrix.det (Matrix.of fun (a b : Fin d) => sigma (ofData X z) a b i) :=
  (sigma_posDef X z hz i).det_pos

theorem sigma_symm (a b c) : sigma (ofData X z) a b c = sigma (ofData X z) b a c := by
  have h1 : cov (ofData X z) a b c = cov (ofData X z) b a c := by
    unfold cov; rw [data_Q_symm]; congr 2; ring
  unfold sigma; rw [h1]; simp [eq_comm]

omit hz in
theorem cnst_pos : 0 < cnst d := by
  unfold cnst
  exact inv_pos.mpr (Real.sqrt_pos.mpr (Real.rpow_pos_of_pos (by positivity) _))

theorem rD_pos (i j) : 0 < rD (ofData X z) i j := by
  unfold rD
  exact mul_pos (mul_pos cnst_pos (inv_pos.mpr (Real.sqrt_pos.mpr (sigma_sum_det_pos X z hz i j)))) (Real.exp_pos _)

/-! ### C19 -/

theorem CH_range (hk : 2 ≤ k) : 0 ≤ valCH (ofData X z) := by
  unfold valCH
  have h1 := data_k_le X z hz
  have h2 : (2:ℝ) ≤ k := by exact_mod_cast hk
  refine mul_nonneg (mul_nonneg (mul_nonneg (Finset.sum_nonneg (fun c _ => SEP_nonneg X z hz c)) (inv_nonneg.mpr (Finset.sum_nonneg (fun c _ => CP_nonneg X z hz c)))) (by linarith)) (inv_nonneg.mpr (by linarith))
theorem WB_range : 0 ≤ valWB (ofData X z) := by
  unfold valWB
  exact mul_nonneg (mul_nonneg (Nat.cast_nonneg k) (Finset.sum_nonneg (fun c _ => CP_nonneg X z hz c))) (inv_nonneg.mpr (Finset.sum_nonneg (fun c _ => SEP_nonneg X z hz c)))
theorem XB_range : 0 ≤ valXB (ofData X z) := by
  unfold valXB
  refine mul_nonneg (Finset.sum_nonneg (fun c _ => CP_nonneg X z hz c)) (inv_nonneg.mpr (mul_nonneg ?_ (Real.iInf_nonneg (fun p => D2_nonneg _ _ _))))
  simp [ofData]
theorem DB_range : 0 ≤ valDB (ofData X z) := by
  unfold valDB
  refine mul_nonneg (Finset.sum_nonneg (fun i _ => Real.iSup_nonneg (fun j => ?_))) (inv_nonneg.mpr (Nat.cast_nonneg k))
  exact mul_nonneg (add_nonneg (mul_nonneg (CP_nonneg X z hz _) (inv_nonneg.mpr (n_nonneg X z hz _))) (mul_nonneg (CP_nonneg X z hz _) (inv_nonneg.mpr (n_nonneg X z hz _)))) (inv_nonneg.mpr (D2_nonneg _ _ _))
theorem GD43_range : 0 ≤ valGD43 (ofData X z) := by
  unfold valGD43
  refine mul_nonneg (Real.iInf_nonneg (fun p => Real.sqrt_nonneg _)) (inv_nonneg.mpr (mul_nonneg (by norm_num) (Real.iSup_nonneg (fun c => ?_))))
  exact mul_nonneg (CP_nonneg X z hz _) (inv_nonneg.mpr (n_nonneg X z hz _))
theorem GD53_range : 0 ≤ valGD53 (ofData X z) := by
  unfold valGD53
  refine mul_nonneg (Real.iInf_nonneg (fun p => D53_nonneg X z hz _ _)) (inv_nonneg.mpr (mul_nonneg (by norm_num) (Real.iSup_nonneg (fun c => ?_))))
  exact mul_nonneg (CP_nonneg X z hz _) (inv_nonneg.mpr (n_nonneg X z hz _))
theorem rCIP_range : 0 ≤ valrCIP (ofData X z) := by
  unfold valrCIP; exact Finset.sum_nonneg (fun p _ => (rD_pos X z hz _ _).le)

omit hz in
theorem sil_range (a b : ℝ) (ha : 0 ≤ a) (hb : 0 ≤ b) : -1 ≤ sil a b ∧ sil a b ≤ 1 := by
  unfold sil
  split_ifs with h
  · rcases ha.eq_or_lt with rfl | ha
    · simp
    · rw [← div_eq_mul_inv, le_div_iff₀ ha, div_le_iff₀ ha]; constructor <;> linarith
  · have hb : 0 < b := lt_of_le_of_lt ha (not_le.mp h)
    rw [← div_eq_mul_inv, le_div_iff₀ hb, div_le_iff₀ hb]; constructor <;> linarith

theorem cSIL_range (hk : 2 ≤ k) : -1 ≤ valcSIL (ofData X z) ∧ valcSIL (ofData X z) ≤ 1 := by
  rw [cSIL_eq]
  have h2 : (0:ℝ) < k := by exact_mod_cast (by omega : 0 < k)
  have hs : ∀ i, -1 ≤ sil (Ssil (ofData X z) i i) (⨅ j : {j : Fin k // ¬ j = i}, Ssil (ofData X z) j.1 i) ∧ sil (Ssil (ofData X z) i i) (⨅ j : {j : Fin k // ¬ j = i}, Ssil (ofData X z) j.1 i) ≤ 1 :=
    fun i => sil_range _ _ (Ssil_nonneg X z hz i i) (Real.iInf_nonneg (fun j => Ssil_nonneg X z hz _ _))
  rw [← div_eq_mul_inv, le_div_iff₀ h2, div_le_iff₀ h2]
  constructor
  · have := Finset.card_nsmul_le_sum Finset.univ _ (-1:ℝ) (fun i _ => (hs i).1)
    simpa using this
  · have := Finset.sum_le_card_nsmul Finset.univ _ (1:ℝ) (fun i _ => (hs i).2)
    simpa using this

omit hz in
theorem beta_nonneg (S : Stats k d) : 0 ≤ beta S := by
  rw [beta_textbook]
  exact div_nonneg (Finset.sum_nonneg (fun c _ => Finset.sum_nonneg (fun f _ => sq_nonneg _))) (Nat.cast_nonneg k)

theorem PS_range : -(k:ℝ) ≤ valPS (ofData X z) ∧ valPS (ofData X z) ≤ k := by
  rw [PS_eq]
  have hs : ∀ i : Fin k, -1 ≤ (ofData X z).n i * (⨆ c, (ofData X z).n c)⁻¹ + (-1:ℝ) * Real.exp ((-1:ℝ) * (⨅ j : {j : Fin k // ¬ j = i}, D2 (ofData X z) i j.1) * (beta (ofData X z))⁻¹) ∧
      (ofData X z).n i * (⨆ c, (ofData X z).n c)⁻¹ + (-1:ℝ) * Real.exp ((-1:ℝ) * (⨅ j : {j : Fin k // ¬ j = i}, D2 (ofData X z) i j.1) * (beta (ofData X z))⁻¹) ≤ 1 := by
    intro i
    have hy : 0 ≤ (⨅ j : {j : Fin k // ¬ j = i}, D2 (ofData X z) i j.1) * (beta (ofData X z))⁻¹ :=
      mul_nonneg (Real.iInf_nonneg (fun j => D2_nonneg _ _ _)) (inv_nonneg.mpr (beta_nonneg _))
    have hi := data_n_pos X z hz i
    have hle : (ofData X z).n i ≤ ⨆ c, (ofData X z).n c := le_ciSup (Set.finite_range _).bddAbove i
    have hM : 0 < ⨆ c, (ofData X z).n c := by linarith
    have q1 : 0 ≤ (ofData X z).n i * (⨆ c, (ofData X z).n c)⁻¹ := mul_nonneg (by linarith) (inv_nonneg.mpr hM.le)
    have q2 : (ofData X z).n i * (⨆ c, (ofData X z).n c)⁻¹ ≤ 1 := by rw [← div_eq_mul_inv]; exact (div_le_one hM).mpr hle
    have q3 := Real.exp_pos ((-1:ℝ) * (⨅ j : {j : Fin k // ¬ j = i}, D2 (ofData X z) i j.1) * (beta (ofData X z))⁻¹)
    have q4 : Real.exp ((-1:ℝ) * (⨅ j : {j : Fin k // ¬ j = i}, D2 (ofData X z) i j.1) * (beta (ofData X z))⁻¹) ≤ 1 :=
      Real.exp_le_one_iff.mpr (by linarith)
    constructor <;> linarith
  constructor
  · have := Finset.card_nsmul_le_sum Finset.univ _ (-1:ℝ) (fun i _ => (hs i).1)
    simpa using this
  · have := Finset.sum_le_card_nsmul Finset.univ _ (1:ℝ) (fun i _ => (hs i).2)
    simpa using this
end signs

/-! ## C18: translation and change of unit -/

def shift (S : Stats k d) (τ : Fin d → ℝ) : Stats k d where
  N := S.N
  n := S.n
  s c f := S.s c f + τ f * S.n c
  Q c f g := S.Q c f g + τ f * S.s c g + τ g * S.s c f + τ f * τ g * S.n c
  tot f := S.tot f + τ f * S.N

def scale (S : Stats k d) (a : ℝ) : Stats k d where
  N := S.N
  n := S.n
  s c f := a * S.s c f
  Q c f g := a ^ 2 * S.Q c f g
  tot f := a * S.tot f

theorem ofData_shift {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (z : ι → Fin k) (τ : Fin d → ℝ) :
    ofData (fun t f => X t f + τ f) z = shift (ofData X z) τ := by
  ext c f g
  · rfl
  · rfl
  · show mem z c (fun t => X t f + τ f) = mem z c (fun t => X t f) + τ f * (ofData X z).n c
    rw [mem_add, mem_const X]
  · show mem z c (fun t => (X t f + τ f) * (X t g + τ g)) = mem z c (fun t => X t f * X t g) + τ f * mem z c (fun t => X t g) + τ g * mem z c (fun t => X t f) + τ f * τ g * (ofData X z).n c
    have e : (fun t => (X t f + τ f) * (X t g + τ g)) = fun t => ((X t f * X t g + τ f * X t g) + τ g * X t f) + τ f * τ g := by funext t; ring
    rw [e, mem_add, mem_add, mem_add, mem_mul, mem_mul, mem_const X]
  · simp only [shift, ofData, Finset.sum_add_distrib, Finset.sum_const, Finset.card_univ, nsmul_eq_mul]; ring

theorem ofData_scale {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (z : ι → Fin k) (a : ℝ) :
    ofData (fun t f => a * X t f) z = scale (ofData X z) a := by
  ext c f g
  · rfl
  · rfl
  · exact mem_mul z c a _
  · show mem z c (fun t => (a * X t f) * (a * X t g)) = a ^ 2 * mem z c (fun t => X t f * X t g)
    rw [← mem_mul]; congr 1; funext t; ring
  · simp only [scale, ofData, Finset.mul_sum]

section shift
variable (S : Stats k d) (τ : Fin d → ℝ) (hn : ∀ c, S.n c ≠ 0) (hN : S.N ≠ 0)
include hn
theorem v_shift (c f) : v (shift S τ) c f = v S c f + τ f := by
  have := hn c
  unfold v shift; field_simp
theorem CP_shift (c) : CP (shift S τ) c = CP S c := by
  have := hn c
  unfold CP shift
  exact Finset.sum_congr rfl (fun f _ => by field_simp; ring)
theorem D2_shift (i j) : D2 (shift S τ) i j = D2 S i j := by
  unfold D2; exact Finset.sum_congr rfl (fun f _ => by rw [v_shift S τ hn, v_shift S τ hn]; ring)
theorem D53_shift (i j) : D53 (shift S τ) i j = D53 S i j := by
  unfold D53; rw [CP_shift S τ hn, CP_shift S τ hn]; rfl
theorem Ssil_shift (j i) : Ssil (shift S τ) j i = Ssil S j i := by
  have := hn j
  have e : ∀ T : Stats k d, Ssil T j i = ∑ f, ((T.Q j f f + (-2:ℝ) * (T.s j f * v T i f)) * (T.n j)⁻¹ + v T i f * v T i f) := by
    intro T; unfold Ssil; rw [Finset.sum_add_distrib, ← Finset.sum_mul, Finset.sum_add_distrib, ← Finset.mul_sum]
  rw [e, e]
  refine Finset.sum_congr rfl (fun f _ => ?_)
  rw [v_shift S τ hn]; simp only [shift]; field_simp; ring
theorem cov_shift (a b c) : cov (shift S τ) a b c = cov S a b c := by
  have := hn c
  unfold cov
  have h : (shift S τ).Q c a b + (-1:ℝ) * (shift S τ).s c a * (shift S τ).s c b * ((shift S τ).n c)⁻¹ = S.Q c a b + (-1:ℝ) * S.s c a * S.s c b * (S.n c)⁻¹ := by
    simp only [shift]; field_simp; ring
  rw [h]; rfl
theorem sigma_shift (a b c) : sigma (shift S τ) a b c = sigma S a b c := by
  unfold sigma; rw [cov_shift S τ hn]
theorem rD_shift (i j) : rD (shift S τ) i j = rD S i j := by
  unfold rD
  simp only [sigma_shift S τ hn, v_shift S τ hn]
  have : ∀ f, v S i f + τ f + (-1:ℝ) * (v S j f + τ f) = v S i f + (-1:ℝ) * v S j f := fun f => by ring
  simp only [this]
include hN
theorem SEP_shift (c) : SEP (shift S τ) c = SEP S c := by
  unfold SEP
  have hm : ∀ f, mu (shift S τ) f = mu S f + τ f := by intro f; unfold mu shift; field_simp
  simp only [v_shift S τ hn, hm]
  show S.n c * _ = S.n c * _
  congr 1
  exact Finset.sum_congr rfl (fun f _ => by ring)

theorem CH_shift : valCH (shift S τ) = valCH S := by
  unfold valCH; simp only [SEP_shift S τ hn hN, CP_shift S τ hn]; rfl
theorem WB_shift : valWB (shift S τ) = valWB S := by
  unfold valWB; simp only [SEP_shift S τ hn hN, CP_shift S τ hn]
omit hN
theorem XB_shift : valXB (shift S τ) = valXB S := by
  unfold valXB; simp only [D2_shift S τ hn, CP_shift S τ hn]; rfl
theorem DB_shift : valDB (shift S τ) = valDB S := by
  unfold valDB; simp only [D2_shift S τ hn, CP_shift S τ hn]; rfl
theorem GD43_shift : valGD43 (shift S τ) = valGD43 S := by
  unfold valGD43; simp only [D2_shift S τ hn, CP_shift S τ hn]; rfl
theorem GD53_shift : valGD53 (shift S τ) = valGD53 S := by
  unfold valGD53; simp only [D53_shift S τ hn, CP_shift S τ hn]; rfl
theorem cSIL_shift : valcSIL (shift S τ) = valcSIL S := by
  rw [cSIL_eq, cSIL_eq]; simp only [Ssil_shift S τ hn]
theorem rCIP_shift : valrCIP (shift S τ) = valrCIP S := by
  unfold valrCIP; simp only [rD_shift S τ hn]
theorem PS_shift (hk : 0 < k) : valPS (shift S τ) = valPS S := by
  have hk' : (k:ℝ) ≠ 0 := by exact_mod_cast hk.ne'
  have hb : beta (shift S τ) = beta S := by
    unfold beta; congr 1
    refine Finset.sum_congr rfl (fun c _ => Finset.sum_congr rfl (fun f _ => ?_))
    simp only [v_shift S τ hn, Finset.sum_add_distrib, Finset.sum_const, Finset.card_univ, Fintype.card_fin, nsmul_eq_mul]
    field_simp
    ring
  rw [PS_eq, PS_eq, hb]; simp only [D2_shift S τ hn]; rfl
end shift

section scale
variable (S : Stats k d) (a : ℝ) (ha : 0 < a)
theorem v_scale (c f) : v (scale S a) c f = a * v S c f := by unfold v scale; ring
theorem mu_scale (f) : mu (scale S a) f = a * mu S f := by unfold mu scale; ring
theorem CP_scale (c) : CP (scale S a) c = a ^ 2 * CP S c := by
  unfold CP; rw [Finset.mul_sum]; exact Finset.sum_congr rfl (fun f _ => by simp only [scale]; ring)
theorem SEP_scale (c) : SEP (scale S a) c = a ^ 2 * SEP S c := by
  unfold SEP; simp only [v_scale, mu_scale]
  show S.n c * _ = _
  have h : (∑ f, (a * v S c f + (-1:ℝ) * (a * mu S f)) * (a * v S c f + (-1:ℝ) * (a * mu S f)))
      = a ^ 2 * ∑ f, (v S c f + (-1:ℝ) * mu S f) * (v S c f + (-1:ℝ) * mu S f) := by
    rw [Finset.mul_sum]; exact Finset.sum_congr rfl (fun f _ => by ring)
  rw [h]; ring
theorem D2_scale (i j) : D2 (scale S a) i j = a ^ 2 * D2 S i j := by
  unfold D2; rw [Finset.mul_sum]; exact Finset.sum_congr rfl (fun f _ => by simp only [v_scale]; ring)
theorem D53_scale (i j) : D53 (scale S a) i j = a ^ 2 * D53 S i j := by
  unfold D53; simp only [CP_scale]; show _ * (S.n i + S.n j)⁻¹ = _; ring
theorem Ssil_scale (j i) : Ssil (scale S a) j i = a ^ 2 * Ssil S j i := by
  unfold Ssil; simp only [v_scale]
  simp only [scale]
  have h1 : (∑ f, a ^ 2 * S.Q j f f) = a ^ 2 * ∑ f, S.Q j f f := (Finset.mul_sum _ _ _).symm
  have h2 : (∑ f, a * S.s j f * (a * v S i f)) = a ^ 2 * ∑ f, S.s j f * v S i f := by
    rw [Finset.mul_sum]; exact Finset.sum_congr rfl (fun f _ => by ring)
  have h3 : (∑ f, a * v S i f * (a * v S i f)) = a ^ 2 * ∑ f, v S i f * v S i f := by
    rw [Finset.mul_sum]; exact Finset.sum_congr rfl (fun f _ => by ring)
  rw [h1, h2, h3]; ring
theorem beta_scale : beta (scale S a) = a ^ 2 * beta S := by
  unfold beta; simp only [v_scale]
  rw [← mul_assoc, Finset.mul_sum]; congr 1
  refine Finset.sum_congr rfl (fun c _ => ?_)
  rw [Finset.mul_sum]
  refine Finset.sum_congr rfl (fun f _ => ?_)
  rw [← Finset.mul_sum]; ring
theorem iInf_scale {κ : Type} (F : κ → ℝ) : (⨅ i, a ^ 2 * F i) = a ^ 2 * ⨅ i, F i := (Real.mul_iInf_of_nonneg (sq_nonneg a) F).symm
theorem iSup_scale {κ : Type} (F : κ → ℝ) : (⨆ i, a ^ 2 * F i) = a ^ 2 * ⨆ i, F i := (Real.mul_iSup_of_nonneg (sq_nonneg a) F).symm
include ha
theorem ratio_scale (x y : ℝ) : (a ^ 2 * x) * (a ^ 2 * y)⁻¹ = x * y⁻¹ := by
  have : a ^ 2 ≠ 0 := pow_ne_zero 2 ha.ne'
  rw [mul_inv]
  calc a ^ 2 * x * ((a ^ 2)⁻¹ * y⁻¹) = (a ^ 2 * (a ^ 2)⁻¹) * (x * y⁻¹) := by ring
    _ = x * y⁻¹ := by rw [mul_inv_cancel₀ this, one_mul]
theorem CH_scale : valCH (scale S a) = valCH S := by
  unfold valCH; simp only [SEP_scale, CP_scale, ← Finset.mul_sum]; rw [ratio_scale a ha]; rfl
theorem WB_scale : valWB (scale S a) = valWB S := by
  unfold valWB; simp only [SEP_scale, CP_scale, ← Finset.mul_sum]; rw [mul_assoc, ratio_scale a ha, mul_assoc]
theorem XB_scale : valXB (scale S a) = valXB S := by
  unfold valXB; simp only [D2_scale, CP_scale, ← Finset.mul_sum, iInf_scale]
  show _ * (S.N * _)⁻¹ = _
  rw [mul_left_comm, ratio_scale a ha]
theorem DB_scale : valDB (scale S a) = valDB S := by
  unfold valDB; simp only [D2_scale, CP_scale]
  congr 1
  refine Finset.sum_congr rfl (fun i _ => iSup_congr (fun j => ?_))
  show (a ^ 2 * CP S i * (S.n i)⁻¹ + a ^ 2 * CP S j.1 * (S.n j.1)⁻¹) * _ = _
  rw [mul_assoc, mul_assoc, ← mul_add, ratio_scale a ha]
theorem GD53_scale : valGD53 (scale S a) = valGD53 S := by
  unfold valGD53; simp only [D53_scale, CP_scale, iInf_scale]
  have h : (⨆ c, a ^ 2 * CP S c * ((scale S a).n c)⁻¹) = a ^ 2 * ⨆ c, CP S c * (S.n c)⁻¹ := by
    rw [← iSup_scale]; exact iSup_congr (fun c => by rw [mul_assoc]; rfl)
  rw [h, mul_left_comm, ratio_scale a ha]
theorem cSIL_scale : valcSIL (scale S a) = valcSIL S := by
  rw [cSIL_eq, cSIL_eq]; simp only [Ssil_scale, iInf_scale]
  congr 1
  refine Finset.sum_congr rfl (fun i _ => ?_)
  rw [sil_eq, sil_eq, ← mul_max_of_nonneg _ _ (sq_nonneg a), ← mul_sub, div_eq_mul_inv, ratio_scale a ha, div_eq_mul_inv]
theorem PS_scale : valPS (scale S a) = valPS S := by
  rw [PS_eq, PS_eq, beta_scale]; simp only [D2_scale, iInf_scale]
  refine Finset.sum_congr rfl (fun i _ => ?_)
  rw [mul_assoc (-1:ℝ), ratio_scale a ha, ← mul_assoc]; rfl
end scale

/-- invariance of a value under translation / change of unit of the samples, whatever the numbering of the clusters -/
def Shift (F : ∀ {k : ℕ}, Stats k d → ℝ) : Prop :=
  ∀ (k : ℕ) (S : Stats k d) (τ : Fin d → ℝ), 0 < k → (∀ c, S.n c ≠ 0) → S.N ≠ 0 → F (shift S τ) = F S
def Scale (F : ∀ {k : ℕ}, Stats k d → ℝ) : Prop := ∀ (k : ℕ) (S : Stats k d) (a : ℝ), 0 < a → F (scale S a) = F S

theorem translation (F : ∀ {k : ℕ}, Stats k d → ℝ) (hF : Perm F) (hS : Shift F) {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (L : ι → ℤ)
    (τ : Fin d → ℝ) {k k' : ℕ} (hk : 0 < k) (S : Stats k d) (S' : Stats k' d) (h : Represents X L S)
    (h' : Represents (fun t f => X t f + τ f) L S') : k = k' ∧ F S = F S' := by
  obtain ⟨z, hz, hzk, rfl⟩ := h
  have h1 := value_of_partition F hF (fun t f => X t f + τ f) L L (fun _ _ => Iff.rfl) (ofData (fun t f => X t f + τ f) z) S' ⟨z, hz, hzk, rfl⟩ h'
  refine ⟨h1.1, ?_⟩
  rw [← h1.2, ofData_shift]
  refine (hS _ _ _ hk (fun c hc => ?_) (fun hN => ?_)).symm
  · have := data_n_pos X z hz c; rw [hc] at this; norm_num at this
  · have := data_k_le X z hz
    rw [hN] at this
    have : (k:ℝ) ≤ 0 := this
    have : k = 0 := by exact_mod_cast le_antisymm this (Nat.cast_nonneg k)
    omega

theorem change_of_unit (F : ∀ {k : ℕ}, Stats k d → ℝ) (hF : Perm F) (hS : Scale F) {ι : Type} [Fintype ι] (X : ι → Fin d → ℝ) (L : ι → ℤ)
    (a : ℝ) (ha : 0 < a) {k k' : ℕ} (S : Stats k d) (S' : Stats k' d) (h : Represents X L S)
    (h' : Represents (fun t f => a * X t f) L S') : k = k' ∧ F S = F S' := by
  obtain ⟨z, hz, hzk, rfl⟩ := h
  have h1 := value_of_partition F hF (fun t f => a * X t f) L L (fun _ _ => Iff.rfl) (ofData (fun t f => a * X t f) z) S' ⟨z, hz, hzk, rfl⟩ h'
  refine ⟨h1.1, ?_⟩
  rw [← h1.2, ofData_scale]
  exact (hS _ _ a ha).symm

theorem CH_translation : Shift (d := d) valCH := fun _ S τ _ hn hN => CH_shift S τ hn hN
theorem cSIL_translation : Shift (d := d) valcSIL := fun _ S τ _ hn _ => cSIL_shift S τ hn
theorem DB_translation : Shift (d := d) valDB := fun _ S τ _ hn _ => DB_shift S τ hn
theorem GD43_translation : Shift (d := d) valGD43 := fun _ S τ _ hn _ => GD43_shift S τ hn
theorem GD53_translation : Shift (d := d) valGD53 := fun _ S τ _ hn _ => GD53_shift S τ hn
theorem PS_translation : Shift (d := d) valPS := fun _ S τ hk hn _ => PS_shift S τ hn hk
theorem rCIP_translation : Shift (d := d) valrCIP := fun _ S τ _ hn _ => rCIP_shift S τ hn
theorem WB_translation : Shift (d := d) valWB := fun _ S τ _ hn hN => WB_shift S τ hn hN
theorem XB_translation : Shift (d := d) valXB := fun _ S τ _ hn _ => XB_shift S τ hn
theorem CH_unit : Scale (d := d) valCH := fun _ S a ha => CH_scale S a ha
theorem cSIL_unit : Scale (d := d) valcSIL := fun _ S a ha => cSIL_scale S a ha
theorem DB_unit : Scale (d := d) valDB := fun _ S a ha => DB_scale S a ha
theorem GD53_unit : Scale (d := d) valGD53 := fun _ S a ha => GD53_scale S a ha
theorem PS_unit : Scale (d := d) valPS := fun _ S a ha => PS_scale S a ha
theorem WB_unit : Scale (d := d) valWB := fun _ S a ha => WB_scale S a ha
theorem XB_unit : Scale (d := d) valXB := fun _ S a ha => XB_scale S a ha
