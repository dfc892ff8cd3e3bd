/-! Factorisation is lossless: the groups partition the products, and every product is its sign times the unique lines of its group. -/

/-! lists -/

theorem len_nat {α : Type} (v : List α) : (len v).toNat = v.length := by simp [len]

theorem get_nat {α : Type} [Inhabited α] (v : List α) (i : ℕ) : get v (i : ℤ) = v.getD i default := by simp [get]

theorem get_lt {α : Type} [Inhabited α] (v : List α) (i : ℕ) (h : i < v.length) : get v (i : ℤ) = v[i] := by
  rw [get_nat, List.getD_eq_getElem _ _ h]

theorem exTo_iff (n : ℤ) (p : ℤ → Prop) : exTo n p ↔ ∃ i : ℕ, (i : ℤ) < n ∧ p i := Iff.rfl

theorem not_exTo_not (n : ℤ) (p : ℤ → Prop) : (¬ exTo n fun i => ¬ p i) ↔ ∀ i : ℕ, (i : ℤ) < n → p i := by
  simp [exTo]

theorem map_get_range {α : Type} [Inhabited α] (v : List α) : (List.range v.length).map (fun (i : ℕ) => get v (i : ℤ)) = v := by
  apply List.ext_getElem
  · simp
  · intro i h1 h2
    simp only [List.getElem_map, List.getElem_range]
    exact get_lt v i h2

theorem sumTo_len {α : Type} [Inhabited α] (v : List α) (f : α → ℂ) : sumTo (len v) (fun i => f (get v i)) = (v.map f).sum := by
  unfold sumTo
  rw [len_nat]
  conv_rhs => rw [← map_get_range v]
  rw [List.map_map, Finset.sum_range, ← List.sum_ofFn]
  congr 1
  apply List.ext_getElem <;> simp

theorem prodTo_len {α : Type} [Inhabited α] (v : List α) (f : α → ℂ) : prodTo (len v) (fun i => f (get v i)) = (v.map f).prod := by
  unfold prodTo
  rw [len_nat]
  conv_rhs => rw [← map_get_range v]
  rw [List.map_map, Finset.prod_range, ← List.prod_ofFn]
  congr 1
  apply List.ext_getElem <;> simp

theorem prodTo_len_int {α : Type} [Inhabited α] (v : List α) (f : α → ℤ) : prodTo (len v) (fun i => f (get v i)) = (v.map f).prod := by
  unfold prodTo
  rw [len_nat]
  conv_rhs => rw [← map_get_range v]
  rw [List.map_map, Finset.prod_range, ← List.prod_ofFn]
  congr 1
  apply List.ext_getElem <;> simp

theorem sumTo_congr (n : ℤ) (f g : ℤ → ℂ) (h : ∀ i : ℕ, (i : ℤ) < n → f i = g i) : sumTo n f = sumTo n g := by
  unfold sumTo
  refine Finset.sum_congr rfl fun i hi => h i ?_
  have := Finset.mem_range.mp hi
  omega

theorem prodTo_congr (n : ℤ) (f g : ℤ → ℂ) (h : ∀ i : ℕ, (i : ℤ) < n → f i = g i) : prodTo n f = prodTo n g := by
  unfold prodTo
  refine Finset.prod_congr rfl fun i hi => h i ?_
  have := Finset.mem_range.mp hi
  omega

theorem flatTo_unit {α : Type} (n : ℤ) (f : ℤ → α) : flatTo n (fun i => [f i]) = (List.range n.toNat).map fun (i : ℕ) => f (i : ℤ) := by
  unfold flatTo
  induction (List.range n.toNat) with
  | nil => rfl
  | cons a l ih => simp [ih]

theorem len_flatTo_unit {α : Type} (n : ℤ) (hn : 0 ≤ n) (f : ℤ → α) : len (flatTo n (fun i => [f i])) = n := by
  rw [flatTo_unit]; simp [len]; omega

theorem get_flatTo_unit {α : Type} [Inhabited α] (n : ℤ) (f : ℤ → α) (i : ℕ) (h : (i : ℤ) < n) : get (flatTo n (fun i => [f i])) (i : ℤ) = f i := by
  rw [flatTo_unit, get_lt _ _ (by simp; omega)]; simp

theorem foldTo_succ {σ : Type} (n : ℕ) (f : ℤ → σ → σ) (s : σ) : foldTo ((n : ℤ) + 1) f s = f n (foldTo n f s) := by
  unfold foldTo
  rw [show ((n : ℤ) + 1).toNat = n + 1 by omega, Int.toNat_natCast, List.range_succ, List.foldl_append]
  rfl

theorem foldTo_zero {σ : Type} (f : ℤ → σ → σ) (s : σ) : foldTo 0 f s = s := by simp [foldTo]

theorem flatTo_succ {α : Type} (n : ℕ) (f : ℤ → List α) : flatTo ((n : ℤ) + 1) f = flatTo n f ++ f n := by
  unfold flatTo
  rw [show ((n : ℤ) + 1).toNat = n + 1 by omega, Int.toNat_natCast, List.range_succ, List.flatMap_append]
  simp

theorem flatTo_zero {α : Type} (f : ℤ → List α) : flatTo 0 f = [] := by simp [flatTo]

/-- a loop that appends -/
theorem fold_append {α : Type} (n : ℕ) (f : ℤ → List α → List α) (s : List α) :
    foldTo (n : ℤ) (fun i s => s ++ f i s) s = s ++ flatTo (n : ℤ) (fun i => f i (foldTo i (fun i s => s ++ f i s) s)) := by
  induction n with
  | zero => simp [foldTo_zero, flatTo_zero]
  | succ n ih =>
    push_cast
    rw [foldTo_succ, flatTo_succ, ← List.append_assoc, ← ih]

/-! values of lines -/

def val (ext : ami_vars) (g : g_struct) : ℂ := (dot_cx g.alpha_ ext.frequency_ + dot_cx g.eps_ ext.energy_)⁻¹

theorem eval_gprod_val (gs : List g_struct) (ext : ami_vars) : eval_gprod gs ext = (ext.prefactor : ℂ) * (gs.map (val ext)).prod := by
  have h : eval_gprod gs ext = (ext.prefactor : ℂ) * prodTo (len gs) (fun i => val ext (get gs i)) := by
    simp only [eval_gprod, val, add_comm, mul_comm]
  rw [h, prodTo_len]

theorem dot_same (x y : List ℤ) (f : List ℂ) (h : len x = len y) (he : ∀ i : ℕ, (i : ℤ) < len x → get x i = get y i) : dot_cx x f = dot_cx y f := by
  unfold dot_cx
  rw [← h]
  exact sumTo_congr _ _ _ fun i hi => by rw [he i hi]

theorem dot_opp (x y : List ℤ) (f : List ℂ) (h : len x = len y) (he : ∀ i : ℕ, (i : ℤ) < len x → get x i = - get y i) : dot_cx x f = - dot_cx y f := by
  unfold dot_cx
  rw [← h]
  unfold sumTo
  rw [← Finset.sum_neg_distrib]
  refine Finset.sum_congr rfl fun i hi => ?_
  have := Finset.mem_range.mp hi
  beta_reduce
  rw [he i (by omega)]
  push_cast; ring

theorem equiv_len {g h : g_struct} (H : g_struct_equiv g h) : len g.eps_ = len h.eps_ ∧ len g.alpha_ = len h.alpha_ := by
  unfold g_struct_equiv at H
  have a : (-1 : ℤ) * len h.eps_ + len g.eps_ = 0 ∨ len g.eps_ + (-1 : ℤ) * len h.eps_ = 0 := by tauto
  have b : (-1 : ℤ) * len h.alpha_ + len g.alpha_ = 0 ∨ len g.alpha_ + (-1 : ℤ) * len h.alpha_ = 0 := by tauto
  omega

theorem equiv_val (ext : ami_vars) {g h : g_struct} (H : g_struct_equiv g h) : val ext g = (g_struct_equiv_sign g h : ℂ) * val ext h := by
  have hl := equiv_len H
  unfold g_struct_equiv_sign
  rw [if_pos H]
  split_ifs with hc
  · simp only [not_exTo_not] at hc
    have a : ∀ i : ℕ, (i : ℤ) < len g.eps_ → get g.eps_ i = get h.eps_ i := fun i hi => by
      have h1 := hc.1 i; have h2 := hc.2 i; omega
    have b : ∀ i : ℕ, (i : ℤ) < len g.alpha_ → get g.alpha_ i = get h.alpha_ i := fun i hi => by
      have h1 := hc.1 i; have h2 := hc.2 i; omega
    unfold val
    rw [dot_same _ _ _ hl.1 a, dot_same _ _ _ hl.2 b]; simp
  · unfold g_struct_equiv at H
    have H' : (∀ i : ℕ, (i : ℤ) < len g.eps_ → get g.eps_ i = - get h.eps_ i) ∧ (∀ i : ℕ, (i : ℤ) < len g.alpha_ → get g.alpha_ i = - get h.alpha_ i) := by
      simp only [not_exTo_not] at H hc
      have H2 : ((∀ i : ℕ, (i : ℤ) < len g.eps_ → get g.eps_ i + get h.eps_ i = 0) ∧ (∀ i : ℕ, (i : ℤ) < len g.alpha_ → get g.alpha_ i + get h.alpha_ i = 0)) := by tauto
      exact ⟨fun i hi => by have := H2.1 i hi; omega, fun i hi => by have := H2.2 i hi; omega⟩
    unfold val
    rw [dot_opp _ _ _ hl.1 H'.1, dot_opp _ _ _ hl.2 H'.2]
    push_cast
    rw [show -dot_cx h.alpha_ ext.frequency_ + -dot_cx h.eps_ ext.energy_ = -(dot_cx h.alpha_ ext.frequency_ + dot_cx h.eps_ ext.energy_) by ring, inv_neg]
    ring

/-! references -/

def step (s : List g_struct) (g : g_struct) : List g_struct := s ++ (if has_equiv s g then ([] : List g_struct) else [g])

def ref (s : List g_struct) (g : g_struct) : pair :=
  ⟨if has_equiv s g then first_equiv s g else len s, if has_equiv s g then g_struct_equiv_sign g (get s (first_equiv s g)) else 1⟩

theorem foldTo_take (gs u : List g_struct) (j : ℕ) (hj : j ≤ gs.length) :
    foldTo (j : ℤ) (fun i s => step s (get gs i)) u = (gs.take j).foldl step u := by
  induction j with
  | zero => simp [foldTo_zero]
  | succ j ih =>
    push_cast
    rw [foldTo_succ, ih (by omega), List.take_succ, List.foldl_append, get_lt gs j (by omega)]
    simp [List.getElem?_eq_getElem (show j < gs.length by omega)]

theorem foldTo_congr {σ : Type} (f g : ℤ → σ → σ) (h : ∀ i s, f i s = g i s) (n : ℤ) (s : σ) : foldTo n f s = foldTo n g s := by
  have : f = g := by funext i s; exact h i s
  rw [this]

theorem add_lines_eq (u gs : List g_struct) : add_lines u gs = gs.foldl step u := by
  have h := foldTo_take gs u gs.length le_rfl
  rw [List.take_length] at h
  rw [← h]
  rfl

theorem prefix_step (s : List g_struct) (g : g_struct) : s <+: step s g := List.prefix_append _ _

theorem prefix_foldl (gs : List g_struct) : ∀ u, u <+: gs.foldl step u := by
  induction gs with
  | nil => intro u; exact List.prefix_rfl
  | cons g gs ih => intro u; exact (prefix_step u g).trans (ih _)

theorem prefix_get {s w : List g_struct} (h : s <+: w) (i : ℕ) (hi : i < s.length) : get w (i : ℤ) = get s (i : ℤ) := by
  have hl := h.length_le
  rw [get_lt _ _ hi, get_lt _ _ (by omega)]
  exact (h.getElem hi).symm

theorem ffFrom_spec (p : ℤ → Prop) : ∀ (n : ℕ) (i : ℤ), (∃ j : ℕ, j < n ∧ p (i + j)) → (∃ j : ℕ, j < n ∧ ffFrom p n i = i + j ∧ p (i + j)) := by
  intro n
  induction n with
  | zero => rintro i ⟨j, hj, _⟩; omega
  | succ n ih =>
    rintro i ⟨j, hj, hp⟩
    unfold ffFrom
    by_cases h : p i
    · exact ⟨0, by omega, by rw [if_pos h]; simp, by simpa using h⟩
    · rw [if_neg h]
      cases j with
      | zero => simp at hp; contradiction
      | succ j =>
        obtain ⟨k, hk, he, hq⟩ := ih (i + 1) ⟨j, by omega, by
          have : i + ((j + 1 : ℕ) : ℤ) = i + 1 + (j : ℤ) := by push_cast; ring
          rwa [← this]⟩
        refine ⟨k + 1, by omega, ?_, ?_⟩
        · rw [he]; push_cast; ring
        · have : i + ((k + 1 : ℕ) : ℤ) = i + 1 + (k : ℤ) := by push_cast; ring
          rwa [this]

theorem first_equiv_spec (s : List g_struct) (g : g_struct) (h : has_equiv s g) :
    ∃ m : ℕ, m < s.length ∧ first_equiv s g = m ∧ g_struct_equiv g (get s (m : ℤ)) := by
  unfold has_equiv exTo at h
  obtain ⟨i, hi, hp⟩ := h
  have hi' : i < s.length := by unfold len at hi; omega
  obtain ⟨k, hk, he, hq⟩ := ffFrom_spec (fun i0 => g_struct_equiv g (get s i0)) s.length 0 ⟨i, hi', by simpa using hp⟩
  refine ⟨k, hk, ?_, by simpa using hq⟩
  unfold first_equiv ffTo
  rw [len_nat]
  simpa using he

theorem ref_good (ext : ami_vars) (s w : List g_struct) (g : g_struct) (hw : step s g <+: w) :
    (∃ m : ℕ, m < w.length ∧ (ref s g).first = m) ∧ val ext g = ((ref s g).second : ℂ) * val ext (get w (ref s g).first) := by
  by_cases h : has_equiv s g
  · obtain ⟨m, hm, he, hq⟩ := first_equiv_spec s g h
    have hs : s <+: w := (prefix_step s g).trans hw
    have hl := hs.length_le
    have e1 : (ref s g).first = (m : ℤ) := by simp only [ref, if_pos h]; exact he
    have e2 : (ref s g).second = g_struct_equiv_sign g (get s (m : ℤ)) := by simp only [ref, if_pos h, he]
    refine ⟨⟨m, by omega, e1⟩, ?_⟩
    rw [e1, e2, prefix_get hs m hm]
    exact equiv_val ext hq
  · have hstep : step s g = s ++ [g] := by simp [step, h]
    rw [hstep] at hw
    have hl := hw.length_le
    simp at hl
    have e1 : (ref s g).first = (s.length : ℤ) := by simp [ref, if_neg h, len]
    have e2 : (ref s g).second = 1 := by simp only [ref, if_neg h]
    refine ⟨⟨s.length, by omega, e1⟩, ?_⟩
    rw [e1, e2, prefix_get hw s.length (by simp), get_lt _ _ (by simp)]
    simp

theorem foldl_take_prefix (gs u : List g_struct) (i : ℕ) (hi : i < gs.length) :
    step ((gs.take i).foldl step u) (get gs (i : ℤ)) <+: gs.foldl step u := by
  have h : gs.foldl step u = (gs.drop (i + 1)).foldl step ((gs.take (i + 1)).foldl step u) := by
    rw [← List.foldl_append, List.take_append_drop]
  rw [h]
  refine List.IsPrefix.trans ?_ (prefix_foldl _ _)
  rw [List.take_succ, List.foldl_append, get_lt gs i hi, List.getElem?_eq_getElem hi]
  exact List.prefix_rfl

theorem product_refs_eq (u gs : List g_struct) :
    product_refs u gs = (List.range gs.length).map fun (i : ℕ) => ref ((gs.take i).foldl step u) (get gs (i : ℤ)) := by
  unfold product_refs
  rw [flatTo_unit, len_nat]
  refine List.map_congr_left fun i hi => ?_
  have hi' := List.mem_range.mp hi
  rw [← foldTo_take gs u i (by omega)]
  rfl

theorem split_prod (l : List ℕ) (a : ℕ → ℂ) (b : ℕ → ℤ) (c : ℕ → ℂ) (h : ∀ i ∈ l, a i = (b i : ℂ) * c i) :
    (l.map a).prod = (((l.map b).prod : ℤ) : ℂ) * (l.map c).prod := by
  induction l with
  | nil => simp
  | cons x l ih =>
    simp only [List.map_cons, List.prod_cons]
    rw [h x (by simp), ih fun i hi => h i (by simp [hi])]
    push_cast; ring

theorem product_refs_value (ext : ami_vars) (u gs w : List g_struct) (hw : gs.foldl step u <+: w) :
    (gs.map (val ext)).prod = (((product_refs u gs).map pair.second).prod : ℤ) * ((product_refs u gs).map fun r => val ext (get w r.first)).prod := by
  rw [product_refs_eq, List.map_map, List.map_map]
  conv_lhs => rw [← map_get_range gs, List.map_map]
  refine split_prod _ _ _ _ fun i hi => ?_
  exact (ref_good ext _ w _ ((foldl_take_prefix gs u i (List.mem_range.mp hi)).trans hw)).2

theorem product_refs_names (u gs w : List g_struct) (hw : gs.foldl step u <+: w) :
    ∀ r ∈ product_refs u gs, ∃ m : ℕ, m < w.length ∧ r.first = m := by
  intro r hr
  rw [product_refs_eq] at hr
  obtain ⟨i, hi, rfl⟩ := List.mem_map.mp hr
  exact (ref_good ⟨[], [], 1, 1, 1⟩ _ w _ ((foldl_take_prefix gs u i (List.mem_range.mp hi)).trans hw)).1

def unique_upto (Rn : List (List g_struct)) (n : ℤ) : List g_struct := foldTo n (fun i s => add_lines s (get Rn i)) []

theorem unique_upto_succ (Rn : List (List g_struct)) (n : ℕ) : unique_upto Rn ((n : ℤ) + 1) = (get Rn (n : ℤ)).foldl step (unique_upto Rn n) := by
  unfold unique_upto
  rw [foldTo_succ, add_lines_eq]

theorem unique_upto_mono (Rn : List (List g_struct)) (i : ℕ) : ∀ d : ℕ, unique_upto Rn (i : ℤ) <+: unique_upto Rn ((i + d : ℕ) : ℤ) := by
  intro d
  induction d with
  | zero => exact List.prefix_rfl
  | succ d ih =>
    have : ((i + (d + 1) : ℕ) : ℤ) = ((i + d : ℕ) : ℤ) + 1 := by push_cast; ring
    rw [this, unique_upto_succ]
    exact ih.trans (prefix_foldl _ _)

theorem unique_lines_eq (Rn : List (List g_struct)) : unique_lines Rn = unique_upto Rn ((Rn.length : ℕ) : ℤ) := rfl

theorem len_all_refs (Rn : List (List g_struct)) : (all_refs Rn).length = Rn.length := by
  unfold all_refs
  rw [flatTo_unit, len_nat]; simp

theorem get_all_refs (Rn : List (List g_struct)) (i : ℕ) (hi : i < Rn.length) :
    get (all_refs Rn) (i : ℤ) = product_refs (unique_upto Rn i) (get Rn (i : ℤ)) := by
  unfold all_refs
  rw [get_flatTo_unit _ _ _ (by unfold len; omega)]
  rfl

theorem all_lines_prefix (Rn : List (List g_struct)) (i : ℕ) (hi : i < Rn.length) :
    (get Rn (i : ℤ)).foldl step (unique_upto Rn (i : ℤ)) <+: unique_lines Rn := by
  rw [← unique_upto_succ, unique_lines_eq]
  have := unique_upto_mono Rn (i + 1) (Rn.length - (i + 1))
  rw [show i + 1 + (Rn.length - (i + 1)) = Rn.length by omega] at this
  push_cast at this ⊢
  exact this

/-- every product is its sign times the product of the unique lines it refers to -/
theorem product_value (ext : ami_vars) (Rn : List (List g_struct)) (i : ℕ) (hi : i < Rn.length) :
    ((get Rn (i : ℤ)).map (val ext)).prod = ((((get (all_refs Rn) (i : ℤ)).map pair.second).prod : ℤ) : ℂ)
      * ((get (all_refs Rn) (i : ℤ)).map fun r => val ext (get (unique_lines Rn) r.first)).prod := by
  rw [get_all_refs Rn i hi]
  exact product_refs_value ext _ _ _ (all_lines_prefix Rn i hi)

/-! products referring to the same lines -/

theorem pair_v_equiv_prod (a b : List pair) (h : pair_v_equiv a b) (F : ℤ → ℂ) :
    (a.map fun r => F r.first).prod = (b.map fun r => F r.first).prod := by
  have hl : a.length = b.length := by
    unfold pair_v_equiv at h
    have : (-1 : ℤ) * len b + len a = 0 ∨ len a + (-1 : ℤ) * len b = 0 := by tauto
    unfold len at this; omega
  have hsub : ∀ i : ℕ, i < a.length → ∃ j : ℕ, j < b.length ∧ (get b (j : ℤ)).first = (get a (i : ℤ)).first := by
    intro i hi
    unfold pair_v_equiv at h
    simp only [not_exTo_not] at h
    have h2 := h
    have : ∀ i : ℕ, (i : ℤ) < len a → exTo (len b) (fun i1 => (get b i1).first + (-1 : ℤ) * (get a (i : ℤ)).first = 0) := by tauto
    obtain ⟨j, hj, he⟩ := this i (by unfold len; omega)
    exact ⟨j, by unfold len at hj; omega, by omega⟩
  have hnd : ∀ i : ℕ, i < a.length → ∀ k : ℕ, k < i → (get a (k : ℤ)).first ≠ (get a (i : ℤ)).first := by
    intro i hi k hk he
    unfold pair_v_equiv at h
    have : ¬ exTo (len a) (fun i0 => exTo i0 (fun i1 => (get a i1).first + (-1 : ℤ) * (get a i0).first = 0)) := by tauto
    exact this ⟨i, by unfold len; omega, k, by omega, by omega⟩
  have e : ∀ v : List pair, (v.map fun r => F r.first) = (v.map pair.first).map F := fun v => by rw [List.map_map]; rfl
  rw [e, e]
  refine List.Perm.prod_eq (List.Perm.map F ?_)
  refine List.Subperm.perm_of_length_le ?_ (by simp [hl])
  refine List.subperm_of_subset ?_ ?_
  · rw [List.nodup_iff_pairwise_ne, List.pairwise_iff_getElem]
    intro k i hk hi hki
    simp only [List.length_map] at hk hi
    have := hnd i hi k hki
    rw [get_lt _ _ hk, get_lt _ _ hi] at this
    simpa using this
  · intro x hx
    obtain ⟨r, hr, rfl⟩ := List.mem_map.mp hx
    obtain ⟨i, hi, rfl⟩ := List.mem_iff_getElem.mp hr
    obtain ⟨j, hj, he⟩ := hsub i hi
    rw [get_lt _ _ hi, get_lt _ _ hj] at he
    rw [← he]
    exact List.mem_map.mpr ⟨b[j], List.getElem_mem hj, rfl⟩

/-! groups -/

theorem mem_iff (s : List ℤ) (x : ℤ) (p : ℤ → Prop) (hp : ∀ k, p k ↔ get s k = x) : exTo (len s) p ↔ x ∈ s := by
  unfold exTo
  constructor
  · rintro ⟨i, hi, h⟩
    have hi' : i < s.length := by unfold len at hi; omega
    have := (hp i).mp h
    rw [get_lt _ _ hi'] at this
    rw [← this]; exact List.getElem_mem hi'
  · intro h
    obtain ⟨i, hi, he⟩ := List.mem_iff_getElem.mp h
    exact ⟨i, by unfold len; omega, (hp i).mpr (by rw [get_lt _ _ hi]; exact he)⟩

def sgn (rr : List (List pair)) (i : ℤ) : ℤ := ((get rr i).map pair.second).prod

def joins (rr : List (List pair)) (i d : ℤ) (s : List ℤ) : Prop := pair_v_equiv (get rr i) (get rr (1 + d + i)) ∧ 1 + d + i ∉ s

def mark (rr : List (List pair)) (i d : ℤ) (s : List ℤ) : List ℤ := s ++ (if joins rr i d s then [1 + d + i] else [])

theorem joins_iff (rr : List (List pair)) (i d : ℤ) (s : List ℤ) (p : ℤ → Prop) (hp : ∀ k, p k ↔ get s k = 1 + d + i) :
    (pair_v_equiv (get rr i) (get rr (1 + d + i)) ∧ (¬ exTo (len s) p)) ↔ joins rr i d s := by
  rw [mem_iff s (1 + d + i) p hp]; unfold joins; tauto

theorem mark_used_eq (rr : List (List pair)) (used : List ℤ) (i : ℤ) :
    mark_used rr used i = foldTo ((-1 : ℤ) + (-1 : ℤ) * i + len rr) (mark rr i) (used ++ [i]) := by
  unfold mark_used
  refine foldTo_congr _ _ (fun d s => ?_) _ _
  unfold mark
  rw [show (1 : ℤ) + d + i = (1 : ℤ) + d + i from rfl]
  congr 1
  exact if_congr (joins_iff rr i d s _ fun k => by constructor <;> intro h <;> omega) rfl rfl

theorem group_of_eq (rr : List (List pair)) (used : List ℤ) (i : ℤ) :
    group_of rr used i = [(⟨i, sgn rr i⟩ : pair)] ++ flatTo ((-1 : ℤ) + (-1 : ℤ) * i + len rr)
      (fun d => if joins rr i d (foldTo d (mark rr i) (used ++ [i])) then [(⟨1 + d + i, sgn rr (1 + d + i)⟩ : pair)] else []) := by
  have hm : ∀ d, foldTo d (fun (i1 : ℤ) i2 => (i2 ++ (if ((pair_v_equiv (get rr i) (get rr ((1 : ℤ) + i1 + i))) ∧ (¬ (exTo (len i2) (fun i3 => (((-1 : ℤ) * (get i2 i3) + (1 : ℤ) + i1 + i) = 0))))) then [((1 : ℤ) + i1 + i)] else ([] : (List ℤ))))) (used ++ [i])
      = foldTo d (mark rr i) (used ++ [i]) := by
    intro d
    refine foldTo_congr _ _ (fun d s => ?_) _ _
    unfold mark
    congr 1
    exact if_congr (joins_iff rr i d s _ fun k => by constructor <;> intro h <;> omega) rfl rfl
  unfold group_of
  simp only [hm]
  congr 1
  · unfold sgn; rw [← prodTo_len_int]
  · congr 1
    funext d
    refine if_congr (joins_iff rr i d _ _ fun k => by constructor <;> intro h <;> omega) ?_ rfl
    unfold sgn; rw [← prodTo_len_int]

/-- the indices a group takes are those of its members -/
theorem mark_used_members (rr : List (List pair)) (used : List ℤ) (i : ℕ) (hi : i < rr.length) :
    mark_used rr used i = used ++ (group_of rr used i).map pair.first := by
  rw [mark_used_eq, group_of_eq]
  obtain ⟨c, hc⟩ : ∃ c : ℕ, (-1 : ℤ) + (-1 : ℤ) * (i : ℤ) + len rr = c := ⟨rr.length - 1 - i, by unfold len; omega⟩
  rw [hc]
  have := fold_append c (fun d s => if joins rr i d s then [1 + d + (i : ℤ)] else []) (used ++ [(i : ℤ)])
  unfold mark
  rw [this, List.append_assoc, List.map_append]
  congr 2
  unfold flatTo
  rw [List.map_flatMap]
  congr 1
  funext d
  beta_reduce
  split_ifs <;> rfl

theorem mark_used_nodup (rr : List (List pair)) (used : List ℤ) (i : ℕ) (hi : i < rr.length) (hn : used.Nodup) (hx : (i : ℤ) ∉ used) :
    (mark_used rr used i).Nodup := by
  rw [mark_used_eq]
  obtain ⟨c, hc⟩ : ∃ c : ℕ, (-1 : ℤ) + (-1 : ℤ) * (i : ℤ) + len rr = c := ⟨rr.length - 1 - i, by unfold len; omega⟩
  rw [hc]
  clear hc
  induction c with
  | zero =>
    rw [show ((0 : ℕ) : ℤ) = 0 from rfl, foldTo_zero]
    exact List.nodup_append.mpr ⟨hn, List.nodup_singleton _, by intro a ha b hb he; rw [List.mem_singleton] at hb; subst hb; subst he; exact hx ha⟩
  | succ c ih =>
    push_cast
    rw [foldTo_succ]
    unfold mark at ih ⊢
    split_ifs with h
    · refine List.nodup_append.mpr ⟨ih, List.nodup_singleton _, ?_⟩
      intro a ha b hb he
      rw [List.mem_singleton] at hb
      subst hb; subst he
      exact h.2 ha
    · simpa using ih

/-- what a group led by product i consists of -/
def good (rr : List (List pair)) (g : List pair) : Prop :=
  ∃ i : ℕ, i < rr.length ∧ g ≠ [] ∧ (get g 0).first = i ∧
    ∀ m ∈ g, (∃ k : ℕ, k < rr.length ∧ m.first = k) ∧ m.second = sgn rr m.first ∧ (m.first = i ∨ pair_v_equiv (get rr i) (get rr m.first))

theorem group_good (rr : List (List pair)) (used : List ℤ) (i : ℕ) (hi : i < rr.length) : good rr (group_of rr used i) := by
  refine ⟨i, hi, by rw [group_of_eq]; simp, by rw [group_of_eq]; simp [get], ?_⟩
  intro m hm
  rw [group_of_eq] at hm
  rcases List.mem_append.mp hm with h | h
  · rw [List.mem_singleton] at h
    subst h
    exact ⟨⟨i, hi, rfl⟩, rfl, Or.inl rfl⟩
  · unfold flatTo at h
    obtain ⟨d, hd, hm⟩ := List.mem_flatMap.mp h
    have hd' := List.mem_range.mp hd
    beta_reduce at hm
    split_ifs at hm with hj
    · rw [List.mem_singleton] at hm
      subst hm
      refine ⟨⟨1 + d + i, ?_, by push_cast; ring⟩, rfl, Or.inr hj.1⟩
      unfold len at hd'; omega
    · simp at hm

def used_upto (rr : List (List pair)) (n : ℤ) : List ℤ := foldTo n (fun i s => if i ∈ s then s else mark_used rr s i) []

theorem groups_eq (rr : List (List pair)) :
    groups rr = flatTo (len rr) (fun i => if i ∈ used_upto rr i then [] else [group_of rr (used_upto rr i) i]) := by
  have hm : ∀ d, foldTo d (fun (i1 : ℤ) i2 => (if (exTo (len i2) (fun i3 => (((-1 : ℤ) * (get i2 i3) + i1) = 0))) then i2 else (mark_used rr i2 i1))) ([] : (List ℤ))
      = used_upto rr d := by
    intro d
    refine foldTo_congr _ _ (fun d s => ?_) _ _
    exact if_congr (mem_iff s d _ fun k => by constructor <;> intro h <;> omega) rfl rfl
  unfold groups
  simp only [hm]
  congr 1
  funext i
  exact if_congr (mem_iff _ i _ fun k => by constructor <;> intro h <;> omega) rfl rfl

theorem groups_invariant (rr : List (List pair)) (n : ℕ) (hn : n ≤ rr.length) :
    (used_upto rr n).Nodup ∧ (∀ x ∈ used_upto rr n, ∃ j : ℕ, j < rr.length ∧ x = j) ∧ (∀ j : ℕ, j < n → (j : ℤ) ∈ used_upto rr n) ∧
    used_upto rr n = ((flatTo (n : ℤ) (fun i => if i ∈ used_upto rr i then [] else [group_of rr (used_upto rr i) i])).flatten).map pair.first ∧
    ∀ g ∈ flatTo (n : ℤ) (fun i => if i ∈ used_upto rr i then [] else [group_of rr (used_upto rr i) i]), good rr g := by
  induction n with
  | zero =>
    have h0 : used_upto rr ((0 : ℕ) : ℤ) = [] := foldTo_zero _ _
    rw [h0, show ((0 : ℕ) : ℤ) = 0 from rfl, flatTo_zero]
    simp
  | succ n ih =>
    obtain ⟨h1, h2, h3, h4, h5⟩ := ih (by omega)
    have hs : used_upto rr ((n + 1 : ℕ) : ℤ) = if (n : ℤ) ∈ used_upto rr n then used_upto rr n else mark_used rr (used_upto rr n) n := by
      push_cast; unfold used_upto; rw [foldTo_succ]
    have hf : ((n + 1 : ℕ) : ℤ) = (n : ℤ) + 1 := by push_cast; rfl
    by_cases hc : (n : ℤ) ∈ used_upto rr n
    · rw [hs, if_pos hc, hf, flatTo_succ, if_pos hc, List.append_nil]
      refine ⟨h1, h2, ?_, h4, h5⟩
      intro j hj
      rcases Nat.lt_succ_iff_lt_or_eq.mp hj with h | h
      · exact h3 j h
      · rw [h]; exact hc
    · have hmm := mark_used_members rr (used_upto rr n) n (by omega)
      have hg := group_good rr (used_upto rr n) n (by omega)
      rw [hs, if_neg hc, hf, flatTo_succ, if_neg hc]
      refine ⟨mark_used_nodup rr _ n (by omega) h1 hc, ?_, ?_, ?_, ?_⟩
      · intro x hx
        rw [hmm] at hx
        rcases List.mem_append.mp hx with h | h
        · exact h2 x h
        · obtain ⟨m, hm, rfl⟩ := List.mem_map.mp h
          obtain ⟨_, _, _, _, hall⟩ := hg
          exact (hall m hm).1
      · intro j hj
        rw [hmm]
        rcases Nat.lt_succ_iff_lt_or_eq.mp hj with h | h
        · exact List.mem_append_left _ (h3 j h)
        · rw [h, group_of_eq]; simp
      · rw [hmm, List.flatten_append, List.map_append, ← h4]; simp
      · intro g hgm
        rcases List.mem_append.mp hgm with h | h
        · exact h5 g h
        · rw [List.mem_singleton] at h; rw [h]; exact hg

/-- every product belongs to exactly one group, once -/
theorem groups_partition (rr : List (List pair)) :
    ((groups rr).flatten.map pair.first).Perm ((List.range rr.length).map fun (i : ℕ) => (i : ℤ)) := by
  obtain ⟨h1, h2, h3, h4, _⟩ := groups_invariant rr rr.length le_rfl
  rw [groups_eq]
  rw [show len rr = ((rr.length : ℕ) : ℤ) from rfl, ← h4]
  refine (List.perm_ext_iff_of_nodup h1 ?_).mpr ?_
  · exact List.Nodup.map (fun a b h => by exact_mod_cast h) List.nodup_range
  · intro x
    constructor
    · intro hx
      obtain ⟨j, hj, rfl⟩ := h2 x hx
      exact List.mem_map.mpr ⟨j, List.mem_range.mpr hj, rfl⟩
    · intro hx
      obtain ⟨j, hj, rfl⟩ := List.mem_map.mp hx
      exact h3 j (List.mem_range.mp hj)

/-- every group consists of its leader and products that refer to the same lines, each with its sign -/
theorem groups_good (rr : List (List pair)) : ∀ g ∈ groups rr, good rr g := by
  obtain ⟨_, _, _, _, h5⟩ := groups_invariant rr rr.length le_rfl
  rw [groups_eq]
  exact h5

/-! the factorised sum is the sum over products -/

theorem sum_flatten (l : List (List pair)) (h : pair → ℂ) : (l.map fun g => (g.map h).sum).sum = (l.flatten.map h).sum := by
  induction l with
  | nil => simp
  | cons g l ih => simp [ih]

def Q (ext : ami_vars) (Rn : List (List g_struct)) (i : ℤ) : ℂ := ((get Rn i).map (val ext)).prod

theorem group_value_eq (w : List g_struct) (refs : List pair) (ext : ami_vars) :
    group_value w refs ext = (refs.map fun r => val ext (get w r.first)).prod := by
  unfold group_value
  rw [← prodTo_len]
  congr 1
  funext i
  rw [eval_gprod_val]
  simp [val]

theorem get_leader (rr ev : List (List pair)) (i : ℕ) (hi : i < ev.length) :
    get (leader_refs rr ev) (i : ℤ) = (get rr (get (get ev (i : ℤ)) 0).first).map fun r => (⟨r.first, 1⟩ : pair) := by
  unfold leader_refs
  rw [get_flatTo_unit _ _ _ (by unfold len; omega), flatTo_unit, len_nat]
  conv_rhs => rw [← map_get_range (get rr _), List.map_map]
  rfl

theorem lossless_sum (ext : ami_vars) (Rn : List (List g_struct)) (h : ℤ → ℂ) :
    sumTo (len (groups (all_refs Rn))) (fun i => group_value (unique_lines Rn) (get (leader_refs (all_refs Rn) (groups (all_refs Rn))) i) ext
        * sumTo (len (get (groups (all_refs Rn)) i)) (fun j => ((get (get (groups (all_refs Rn)) i) j).second : ℂ) * h (get (get (groups (all_refs Rn)) i) j).first))
      = sumTo (len Rn) (fun i => h i * Q ext Rn i) := by
  have hrow : ∀ i : ℕ, (i : ℤ) < len (groups (all_refs Rn)) →
      group_value (unique_lines Rn) (get (leader_refs (all_refs Rn) (groups (all_refs Rn))) i) ext
        * sumTo (len (get (groups (all_refs Rn)) i)) (fun j => ((get (get (groups (all_refs Rn)) i) j).second : ℂ) * h (get (get (groups (all_refs Rn)) i) j).first)
      = ((get (groups (all_refs Rn)) i).map fun m => h m.first * Q ext Rn m.first).sum := by
    intro i hi
    have hi' : i < (groups (all_refs Rn)).length := by unfold len at hi; omega
    obtain ⟨l, hl, hne, hfirst, hall⟩ := groups_good (all_refs Rn) (get (groups (all_refs Rn)) i) (by rw [get_lt _ _ hi']; exact List.getElem_mem hi')
    rw [group_value_eq, get_leader _ _ _ hi', hfirst, List.map_map]
    rw [sumTo_len (get (groups (all_refs Rn)) (i : ℤ)) (fun m => (m.second : ℂ) * h m.first), ← List.sum_map_mul_left]
    congr 1
    refine List.map_congr_left fun m hm => ?_
    obtain ⟨⟨k, hk, hk1⟩, hsec, hpv⟩ := hall m hm
    have hk' : k < Rn.length := by rw [← len_all_refs]; exact hk
    have hv := product_value ext Rn k hk'
    have hp : ((get (all_refs Rn) (l : ℤ)).map fun r => val ext (get (unique_lines Rn) r.first)).prod
        = ((get (all_refs Rn) (k : ℤ)).map fun r => val ext (get (unique_lines Rn) r.first)).prod := by
      rcases hpv with e | e
      · rw [← hk1, e]
      · rw [← hk1]; exact pair_v_equiv_prod _ _ e fun x => val ext (get (unique_lines Rn) x)
    unfold Q
    rw [hsec, hk1, hv]
    unfold sgn
    rw [← hp]
    simp only [Function.comp_def]
    ring
  rw [sumTo_congr _ _ (fun i => ((get (groups (all_refs Rn)) i).map fun m => h m.first * Q ext Rn m.first).sum) hrow, sumTo_len (groups (all_refs Rn)) (fun g => (g.map fun m => h m.first * Q ext Rn m.first).sum), sum_flatten]
  have hperm := (groups_partition (all_refs Rn)).map fun x : ℤ => h x * Q ext Rn x
  rw [List.map_map] at hperm
  have := hperm.sum_eq
  rw [show (fun m : pair => h m.first * Q ext Rn m.first) = (fun x : ℤ => h x * Q ext Rn x) ∘ pair.first from rfl, this, List.map_map, len_all_refs]
  unfold sumTo
  rw [len_nat, Finset.sum_range, ← List.sum_ofFn]
  congr 1
  apply List.ext_getElem <;> simp

/-- the optimised sum with a factorisation of its own products is the plain sum -/
theorem optimized_star_eq (K : List (List ℂ)) (Rn : List (List g_struct)) (ext : ami_vars) (hK : len (get K 0) = len Rn) :
    optimized_star K (unique_lines Rn) (leader_refs (all_refs Rn) (groups (all_refs Rn))) (groups (all_refs Rn)) ext = star K Rn ext := by
  have h := lossless_sum ext Rn fun i => get (get K 0) i
  have hl : optimized_star K (unique_lines Rn) (leader_refs (all_refs Rn) (groups (all_refs Rn))) (groups (all_refs Rn)) ext
      = (ext.prefactor : ℂ) * sumTo (len (groups (all_refs Rn))) (fun i => group_value (unique_lines Rn) (get (leader_refs (all_refs Rn) (groups (all_refs Rn))) i) ext
        * sumTo (len (get (groups (all_refs Rn)) i)) (fun j => ((get (get (groups (all_refs Rn)) i) j).second : ℂ) * get (get K 0) (get (get (groups (all_refs Rn)) i) j).first)) := by
    simp only [optimized_star, mul_comm, Complex.ofReal_intCast]
  have hr : star K Rn ext = (ext.prefactor : ℂ) * sumTo (len Rn) (fun i => get (get K 0) i * Q ext Rn i) := by
    unfold star
    rw [hK]
    unfold sumTo
    rw [Finset.mul_sum]
    refine Finset.sum_congr rfl fun i _ => ?_
    beta_reduce
    rw [eval_gprod_val]
    unfold Q; ring
  rw [hl, hr, h]
