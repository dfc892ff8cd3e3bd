
/-! the pole search: sound, complete, without repetition, in order of first appearance -/

namespace Formats

def key (p : pole_struct) : List ℤ × List ℤ := (p.alpha_, p.eps_)
def head (p : pole_struct) : ℤ := get p.which_g_ 0

theorem list_eq_iff (a b : List ℤ) : (a = b) ↔ (len a = len b ∧ ∀ i : ℕ, (i : ℤ) < len a → get a (i : ℤ) = get b (i : ℤ)) := by
  constructor
  · rintro rfl; exact ⟨rfl, fun _ _ => rfl⟩
  · rintro ⟨hl, h⟩
    simp only [len, Nat.cast_inj] at hl
    apply List.ext_getElem hl
    intro i h1 h2
    have := h i (by simpa [len] using h1)
    rwa [get_lt _ _ h1, get_lt _ _ h2] at this

theorem pole_equiv_iff (p q : pole_struct) : pole_equiv p q ↔ key p = key q := by
  unfold pole_equiv key exTo
  rw [Prod.mk.injEq, list_eq_iff, list_eq_iff]
  constructor
  · rintro ⟨h1, h2, h3, h4⟩
    refine ⟨⟨by omega, fun i hi => ?_⟩, ⟨by omega, fun i hi => ?_⟩⟩
    · by_contra hc; exact h3 ⟨i, hi, by omega⟩
    · by_contra hc; exact h4 ⟨i, hi, by omega⟩
  · rintro ⟨⟨h1, h3⟩, ⟨h2, h4⟩⟩
    refine ⟨by omega, by omega, ?_, ?_⟩
    · rintro ⟨i, hi, hc⟩; have := h3 i hi; omega
    · rintro ⟨i, hi, hc⟩; have := h4 i hi; omega

theorem ffFrom_spec (p : ℤ → Prop) (n : ℕ) : ∀ i : ℤ, (∃ k : ℕ, k < n ∧ p (i + k)) → ∃ k : ℕ, k < n ∧ ffFrom p n i = i + k ∧ p (i + k) := by
  induction n with
  | zero => rintro i ⟨k, hk, _⟩; omega
  | succ n ih =>
    rintro i ⟨k, hk, hp⟩
    unfold ffFrom
    split_ifs with h
    · exact ⟨0, by omega, by simp, by simpa using h⟩
    · have hk0 : k ≠ 0 := by rintro rfl; simp at hp; exact h hp
      obtain ⟨j, hj, he, hpj⟩ := ih (i + 1) ⟨k - 1, by omega, by
        have : i + 1 + ((k - 1 : ℕ) : ℤ) = i + (k : ℤ) := by omega
        rw [this]; exact hp⟩
      refine ⟨j + 1, by omega, by rw [he]; push_cast; ring, ?_⟩
      have : i + ((j + 1 : ℕ) : ℤ) = i + 1 + (j : ℤ) := by push_cast; ring
      rw [this]; exact hpj

theorem ffTo_spec (n : ℤ) (p : ℤ → Prop) (h : exTo n p) : ∃ k : ℕ, (k : ℤ) < n ∧ ffTo n p = k ∧ p k := by
  obtain ⟨i, hi, hp⟩ := h
  obtain ⟨k, hk, he, hpk⟩ := ffFrom_spec p n.toNat 0 ⟨i, by omega, by simpa using hp⟩
  exact ⟨k, by omega, by unfold ffTo; rw [he]; simp, by simpa using hpk⟩

/-- location of line i, and whether the line depends on the frequency -/
def loc (idx : ℤ) (R : List g_struct) (i : ℕ) : pole_struct := pole_of_line i idx R
def dependent (idx : ℤ) (R : List g_struct) (i : ℕ) : Prop := get (get R (i : ℤ)).alpha_ idx ≠ 0

structure Found (idx : ℤ) (R : List g_struct) (d : Prop) (n : ℕ) (p : pole_struct) : Prop where
  mult : p.multiplicity_ = len p.which_g_
  der : p.der_ = 0
  index : p.index_ = idx
  some : p.which_g_ ≠ []
  sorted : p.which_g_.Pairwise (· < ·)
  lines : ∀ a ∈ p.which_g_, ∃ i : ℕ, a = i ∧ i < n ∧ dependent idx R i ∧ key p = key (loc idx R i)
  kept : d → pole_kept p

structure Search (idx : ℤ) (R : List g_struct) (d : Prop) (n : ℕ) (ps : List pole_struct) : Prop where
  found : ∀ p ∈ ps, Found idx R d n p
  complete : ∀ i : ℕ, i < n → dependent idx R i → (d → pole_kept (loc idx R i)) → ∃ p ∈ ps, (i : ℤ) ∈ p.which_g_
  distinct : (ps.map key).Nodup
  order : (ps.map head).Pairwise (· < ·)

theorem Found.mono {idx : ℤ} {R : List g_struct} {d : Prop} {n : ℕ} {p : pole_struct} (h : Found idx R d n p) : Found idx R d (n + 1) p :=
  { h with lines := fun a ha => by obtain ⟨i, e, hi, r⟩ := h.lines a ha; exact ⟨i, e, by omega, r⟩ }

theorem head_lt {idx : ℤ} {R : List g_struct} {d : Prop} {n : ℕ} {p : pole_struct} (h : Found idx R d n p) : head p < n := by
  obtain ⟨a, t, e⟩ := List.exists_cons_of_ne_nil h.some
  obtain ⟨i, ei, hi, _⟩ := h.lines a (by simp [e])
  have : head p = a := by simp [head, e, get]
  omega

theorem search_step (idx : ℤ) (R : List g_struct) (d : Prop) (n : ℕ) (ps : List pole_struct) (h : Search idx R d n ps) (hd : dependent idx R n) :
    Search idx R d (n + 1) (add_pole ps n (loc idx R n) d) := by
  unfold add_pole
  split_ifs with he hk
  · obtain ⟨k, hk, ek, eq⟩ := ffTo_spec _ _ he
    rw [ek]
    have hk : k < ps.length := by simpa [len] using hk
    rw [get_lt _ _ hk] at eq ⊢
    rw [pole_equiv_iff] at eq
    have hf := h.found ps[k] (List.getElem_mem hk)
    set q : pole_struct := ⟨ps[k].eps_, ps[k].alpha_, ps[k].index_, ps[k].multiplicity_ + 1, ps[k].der_, ps[k].which_g_ ++ [(n : ℤ)], ps[k].x_alpha_⟩ with hq
    have hu : upd ps (k : ℤ) q = ps.set k q := by simp [upd]
    rw [hu]
    have hkey : key q = key ps[k] := rfl
    have hhead : head q = head ps[k] := by
      obtain ⟨a, t, e⟩ := List.exists_cons_of_ne_nil hf.some
      simp [head, hq, e, get]
    have hqf : Found idx R d (n + 1) q := by
      refine ⟨?_, hf.der, hf.index, by simp [hq], ?_, ?_, fun hdr => hf.kept hdr⟩
      · have := hf.mult; simp only [hq, len, List.length_append, List.length_singleton] at this ⊢; omega
      · rw [hq]; dsimp only
        rw [List.pairwise_append]
        refine ⟨hf.sorted, List.pairwise_singleton _ _, fun a ha b hb => ?_⟩
        obtain ⟨i, e, hi, _⟩ := hf.lines a ha
        rw [List.mem_singleton] at hb
        omega
      · intro a ha
        rw [hq] at ha; dsimp only at ha
        rcases List.mem_append.mp ha with ha | ha
        · obtain ⟨i, e, hi, r, s⟩ := hf.lines a ha
          exact ⟨i, e, by omega, r, by rw [hkey]; exact s⟩
        · rw [List.mem_singleton] at ha
          exact ⟨n, ha, by omega, hd, by rw [hkey]; exact eq⟩
    refine ⟨?_, ?_, ?_, ?_⟩
    · intro p hp
      rcases List.mem_or_eq_of_mem_set hp with hp | rfl
      · exact (h.found p hp).mono
      · exact hqf
    · intro i hi hdi hki
      have hmem : q ∈ ps.set k q := List.mem_set hk q
      by_cases hin : i < n
      · obtain ⟨p, hp, hw⟩ := h.complete i hin hdi hki
        obtain ⟨j, hj, rfl⟩ := List.getElem_of_mem hp
        by_cases hjk : j = k
        · subst hjk
          exact ⟨q, hmem, by rw [hq]; simp [hw]⟩
        · refine ⟨ps[j], ?_, hw⟩
          rw [List.mem_iff_getElem]
          exact ⟨j, by simpa using hj, by rw [List.getElem_set_ne (Ne.symm hjk)]⟩
      · obtain rfl : i = n := by omega
        exact ⟨q, hmem, by rw [hq]; simp⟩
    · rw [List.map_set, hkey, ← List.getElem_map key (h := by simpa using hk), List.set_getElem_self]
      exact h.distinct
    · rw [List.map_set, hhead, ← List.getElem_map head (h := by simpa using hk), List.set_getElem_self]
      exact h.order
  · -- dropped
    rw [List.append_nil]
    refine ⟨fun p hp => (h.found p hp).mono, ?_, h.distinct, h.order⟩
    intro i hi hdi hki
    by_cases hin : i < n
    · exact h.complete i hin hdi hki
    · obtain rfl : i = n := by omega
      exact absurd (hki hk.2) hk.1
  · -- new
    have hnew : Found idx R d (n + 1) (loc idx R n) := by
      refine ⟨by simp [loc, pole_of_line, len], rfl, rfl, by simp [loc, pole_of_line], by simp [loc, pole_of_line], ?_, ?_⟩
      · intro a ha
        simp only [loc, pole_of_line, List.mem_singleton] at ha
        exact ⟨n, ha, by omega, hd, rfl⟩
      · intro hdr; by_contra hc; exact hk ⟨hc, hdr⟩
    have hh : head (loc idx R n) = n := by simp [head, loc, pole_of_line, get]
    refine ⟨?_, ?_, ?_, ?_⟩
    · intro p hp
      rcases List.mem_append.mp hp with hp | hp
      · exact (h.found p hp).mono
      · rw [List.mem_singleton] at hp; subst hp; exact hnew
    · intro i hi hdi hki
      by_cases hin : i < n
      · obtain ⟨p, hp, hw⟩ := h.complete i hin hdi hki
        exact ⟨p, by simp [hp], hw⟩
      · obtain rfl : i = n := by omega
        exact ⟨loc idx R i, by simp, by simp [loc, pole_of_line]⟩
    · rw [List.map_append, List.nodup_append]
      refine ⟨h.distinct, by simp, ?_⟩
      intro a ha b hb
      simp only [List.map_cons, List.map_nil, List.mem_singleton] at hb
      subst hb
      rintro rfl
      obtain ⟨p, hp, hpk⟩ := List.mem_map.mp ha
      obtain ⟨j, hj, rfl⟩ := List.getElem_of_mem hp
      exact he ⟨j, by simpa [len] using hj, by beta_reduce; rw [get_lt _ _ hj, pole_equiv_iff]; exact hpk⟩
    · rw [List.map_append, List.pairwise_append]
      refine ⟨h.order, by simp, ?_⟩
      intro a ha b hb
      simp only [List.map_cons, List.map_nil, List.mem_singleton] at hb
      subst hb
      obtain ⟨p, hp, rfl⟩ := List.mem_map.mp ha
      rw [hh]; exact head_lt (h.found p hp)

/-- every pole reported: multiplicity = number of its lines, no derivative yet, its lines depend on the frequency and vanish at that location;
    every dependent line whose location is kept is reported; locations are distinct and in order of first appearance -/
theorem search (idx : ℤ) (R : List g_struct) (d : Prop) (hR : R ≠ []) (hi : idx < len (get R 0).alpha_) : Search idx R d R.length (find_poles idx R d) := by
  have hl : len R ≠ 0 := by simpa [len] using hR
  unfold find_poles
  rw [if_pos ⟨by omega, hl⟩]
  have : ∀ n : ℕ, Search idx R d n (foldTo (n : ℤ) (fun i0 i1 => (if ((get ((get R i0)).alpha_ idx) = 0) then i1 else (add_pole i1 i0 (pole_of_line i0 idx R) d))) ([] : (List pole_struct))) := by
    intro n
    induction n with
    | zero =>
      rw [Nat.cast_zero, foldTo_zero]
      exact ⟨by simp, by intro i hi; omega, by simp, by simp⟩
    | succ n ih =>
      push_cast
      rw [foldTo_succ]
      beta_reduce
      split_ifs with h0
      · refine ⟨fun p hp => (ih.found p hp).mono, ?_, ih.distinct, ih.order⟩
        intro i hi hdi hki
        by_cases hin : i < n
        · exact ih.complete i hin hdi hki
        · obtain rfl : i = n := by omega
          exact absurd h0 hdi
      · exact search_step idx R d n _ ih h0
  exact this R.length

/-- outside: no poles -/
theorem search_outside (idx : ℤ) (R : List g_struct) (d : Prop) (h : R = [] ∨ len (get R 0).alpha_ ≤ idx) : find_poles idx R d = [] := by
  unfold find_poles
  rw [if_neg]
  rintro ⟨h1, h2⟩
  rcases h with rfl | h
  · exact h2 rfl
  · omega

/-- no line is reported twice -/
theorem once {idx : ℤ} {R : List g_struct} {d : Prop} {n : ℕ} {ps : List pole_struct} (h : Search idx R d n ps) (p q : pole_struct)
    (hp : p ∈ ps) (hq : q ∈ ps) (a : ℤ) (ha : a ∈ p.which_g_) (hb : a ∈ q.which_g_) : p = q := by
  obtain ⟨i, ei, _, _, k1⟩ := (h.found p hp).lines a ha
  obtain ⟨j, ej, _, _, k2⟩ := (h.found q hq).lines a hb
  obtain rfl : i = j := by omega
  exact List.inj_on_of_nodup_map h.distinct hp hq (by rw [k1, k2])

theorem kept_key (p q : pole_struct) (h : key p = key q) : pole_kept p = pole_kept q := by
  unfold key at h
  rw [Prod.mk.injEq] at h
  unfold pole_kept; rw [h.1, h.2]

/-- a pole lists every line with its location -/
theorem all_lines {idx : ℤ} {R : List g_struct} {d : Prop} {n : ℕ} {ps : List pole_struct} (h : Search idx R d n ps) (p : pole_struct)
    (hp : p ∈ ps) (i : ℕ) (hi : i < n) (hd : dependent idx R i) (hk : key p = key (loc idx R i)) : (i : ℤ) ∈ p.which_g_ := by
  obtain ⟨q, hq, hw⟩ := h.complete i hi hd (fun hdr => by rw [← kept_key _ _ hk]; exact (h.found p hp).kept hdr)
  obtain ⟨j, ej, _, _, k2⟩ := (h.found q hq).lines _ hw
  obtain rfl : i = j := by omega
  rw [List.inj_on_of_nodup_map h.distinct hp hq (by rw [hk, k2])]
  exact hw

/-- the location of a line with coefficient +-1 is where it vanishes, and does not involve the integrated frequency -/
theorem loc_vanishes (X : ami_vars) (i : ℕ) (R : List g_struct) (j : ℕ) (hi : i < (get R (j : ℤ)).alpha_.length) (hX : i < X.frequency_.length)
    (h1 : get (get R (j : ℤ)).alpha_ (i : ℤ) = 1 ∨ get (get R (j : ℤ)).alpha_ (i : ℤ) = -1) :
    value (get R (j : ℤ)) (at' X i (location' (loc i R j) X)) = 0 ∧ get (loc i R j).alpha_ (i : ℤ) = 0 := by
  have hfree : get (loc i R j).alpha_ (i : ℤ) = 0 := by
    unfold loc pole_of_line; dsimp only
    rw [get_flatTo_unit _ _ _ (by simpa [len] using hi), if_pos (by omega)]
  refine ⟨?_, hfree⟩
  rw [value_at _ _ _ _ hi hX]
  generalize hg : get R (j : ℤ) = g at *
  have la : (loc i R j).alpha_.length = g.alpha_.length := by unfold loc pole_of_line; dsimp only; rw [flatTo_unit, hg]; simp [len]
  have le' : (loc i R j).eps_.length = g.eps_.length := by unfold loc pole_of_line; dsimp only; rw [flatTo_unit, hg]; simp [len]
  unfold location' rest
  simp only [dot_cx_sum, la, le']
  rw [← Finset.add_sum_erase (Finset.range g.alpha_.length) (fun k => ((get (loc i R j).alpha_ (k : ℤ) : ℤ) : ℂ) * get X.frequency_ (k : ℤ)) (Finset.mem_range.mpr hi)]
  have e1 : ∀ k ∈ (Finset.range g.alpha_.length).erase i, ((get (loc i R j).alpha_ (k : ℤ) : ℤ) : ℂ) * get X.frequency_ (k : ℤ)
      = (-((get g.alpha_ (i : ℤ) : ℤ) : ℂ)) * (((get g.alpha_ (k : ℤ) : ℤ) : ℂ) * get X.frequency_ (k : ℤ)) := by
    intro k hk
    unfold loc pole_of_line; dsimp only
    rw [hg, get_flatTo_unit _ _ _ (by simpa [len] using Finset.mem_range.mp (Finset.mem_of_mem_erase hk)), if_neg (by have := Finset.ne_of_mem_erase hk; omega)]
    push_cast; ring
  have e2 : ∀ k ∈ Finset.range g.eps_.length, ((get (loc i R j).eps_ (k : ℤ) : ℤ) : ℂ) * get X.energy_ (k : ℤ)
      = (-((get g.alpha_ (i : ℤ) : ℤ) : ℂ)) * (((get g.eps_ (k : ℤ) : ℤ) : ℂ) * get X.energy_ (k : ℤ)) := by
    intro k hk
    unfold loc pole_of_line; dsimp only
    rw [hg, get_flatTo_unit _ _ _ (by simpa [len] using Finset.mem_range.mp hk)]
    push_cast; ring
  rw [Finset.sum_congr rfl e1, Finset.sum_congr rfl e2, hfree, ← Finset.mul_sum, ← Finset.mul_sum]
  rcases h1 with h | h <;> rw [h] <;> push_cast <;> ring

theorem location_key (p q : pole_struct) (X : ami_vars) (h : key p = key q) : location' p X = location' q X := by
  unfold key at h
  rw [Prod.mk.injEq] at h
  unfold location'; rw [h.1, h.2]

/-- every line of a reported pole vanishes there -/
theorem lines_vanish (X : ami_vars) (i : ℕ) (R : List g_struct) (d : Prop) (hR : R ≠ []) (hi : ∀ g ∈ R, i < g.alpha_.length) (hX : i < X.frequency_.length)
    (hc : ∀ g ∈ R, get g.alpha_ (i : ℤ) = 0 ∨ get g.alpha_ (i : ℤ) = 1 ∨ get g.alpha_ (i : ℤ) = -1) (p : pole_struct) (hp : p ∈ find_poles i R d) :
    get p.alpha_ (i : ℤ) = 0 ∧ ∀ a ∈ p.which_g_, value (get R a) (at' X i (location' p X)) = 0 := by
  have h0 : (0 : ℕ) < R.length := List.length_pos_of_ne_nil hR
  have s := search i R d hR (by
    have := hi (get R 0) (by rw [show (0 : ℤ) = ((0 : ℕ) : ℤ) by rfl, get_lt _ _ h0]; exact List.getElem_mem _)
    simpa [len] using this)
  have f := s.found p hp
  have key_of : ∀ a ∈ p.which_g_, get p.alpha_ (i : ℤ) = 0 ∧ value (get R a) (at' X i (location' p X)) = 0 := by
    intro a ha
    obtain ⟨j, rfl, hj, hdep, hk⟩ := f.lines a ha
    have hm : get R (j : ℤ) ∈ R := by rw [get_lt _ _ hj]; exact List.getElem_mem _
    have c : get (get R (j : ℤ)).alpha_ (i : ℤ) = 1 ∨ get (get R (j : ℤ)).alpha_ (i : ℤ) = -1 := by
      rcases hc _ hm with h | h
      · exact absurd h hdep
      · exact h
    obtain ⟨v, fr⟩ := loc_vanishes X i R j (hi _ hm) hX c
    refine ⟨?_, by rw [location_key _ _ X hk]; exact v⟩
    have : p.alpha_ = (loc i R j).alpha_ := (Prod.mk.injEq _ _ _ _ ▸ hk).1
    rw [this]; exact fr
  refine ⟨?_, fun a ha => (key_of a ha).2⟩
  obtain ⟨a, t, e⟩ := List.exists_cons_of_ne_nil f.some
  exact (key_of a (by simp [e])).1

end Formats
