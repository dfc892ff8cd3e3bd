
/-! the term format and the array format hold the same products with the same coefficients, so both evaluators return the same number -/

namespace Formats

theorem get_lt {α : Type} [Inhabited α] (v : List α) (i : ℕ) (h : i < v.length) : get v (i : ℤ) = v[i] := by
  simp [get, List.getD_eq_getElem?_getD, h]

theorem flatTo_zero {α : Type} (f : ℤ → List α) : flatTo 0 f = [] := by simp [flatTo]

theorem flatTo_cast {α : Type} (n : ℕ) (f : ℤ → List α) : flatTo (n : ℤ) f = (List.range n).flatMap fun (i : ℕ) => f (i : ℤ) := by
  simp [flatTo]

theorem foldTo_succ {σ : Type} (n : ℕ) (f : ℤ → σ → σ) (s : σ) : foldTo ((n : ℤ) + 1) f s = f n (foldTo n f s) := by
  unfold foldTo
  rw [show ((n : ℤ) + 1).toNat = n + 1 by omega, Int.toNat_natCast, List.range_succ, List.foldl_append]
  rfl

theorem foldTo_zero {σ : Type} (f : ℤ → σ → σ) (s : σ) : foldTo 0 f s = s := by simp [foldTo]

theorem flatTo_unit {α : Type} (n : ℤ) (f : ℤ → α) : flatTo n (fun i => [f i]) = (List.range n.toNat).map fun i : ℕ => f i := by
  unfold flatTo
  induction n.toNat with
  | zero => rfl
  | succ k ih => rw [List.range_succ, List.flatMap_append, ih]; simp

theorem flatTo_congr {α : Type} (n : ℤ) (f g : ℤ → List α) (h : ∀ i : ℕ, (i : ℤ) < n → f i = g i) : flatTo n f = flatTo n g := by
  unfold flatTo
  refine List.flatMap_congr fun i hi => h i ?_
  have := List.mem_range.mp hi
  omega

/-- loops over a list -/
theorem flatTo_list {α β : Type} [Inhabited α] (v : List α) (F : α → List β) : flatTo (len v) (fun i => F (get v i)) = v.flatMap F := by
  induction v using List.reverseRecOn with
  | nil => simp [len, flatTo]
  | append_singleton v x ih =>
    have hl : len (v ++ [x]) = ((v.length + 1 : ℕ) : ℤ) := by simp [len]
    rw [hl, flatTo_cast, List.range_succ, List.flatMap_append, List.flatMap_append, ← ih]
    congr 1
    · rw [show len v = ((v.length : ℕ) : ℤ) from rfl, flatTo_cast]
      refine List.flatMap_congr fun i hi => ?_
      have hi := List.mem_range.mp hi
      rw [get_lt _ _ (by simp; omega), get_lt _ _ hi, List.getElem_append_left hi]
    · simp only [List.flatMap_cons, List.flatMap_nil, List.append_nil]
      rw [get_lt _ _ (by simp)]
      simp

theorem flatTo_list_unit {α β : Type} [Inhabited α] (v : List α) (F : α → β) : flatTo (len v) (fun i => [F (get v i)]) = v.map F := by
  rw [flatTo_list v (fun x => [F x])]
  induction v with
  | nil => rfl
  | cons a t ih => simp [List.flatMap_cons, ih]

/-- parallel lists -/
theorem get_map {α β : Type} [Inhabited α] [Inhabited β] (v : List α) (f : α → β) (i : ℕ) (h : (i : ℤ) < len v) :
    get (v.map f) (i : ℤ) = f (get v (i : ℤ)) := by
  have h : i < v.length := by simpa [len] using h
  rw [get_lt _ _ (by simpa using h), get_lt _ _ h]
  simp

theorem len_map {α β : Type} (v : List α) (f : α → β) : len (v.map f) = len v := by simp [len]

theorem map_flatTo {α β : Type} (n : ℤ) (F : ℤ → List α) (f : α → β) : (flatTo n F).map f = flatTo n fun i => (F i).map f := by
  unfold flatTo; rw [List.map_flatMap]

theorem prodTo_list {α : Type} [Inhabited α] (v : List α) (F : α → ℂ) : prodTo (len v) (fun i => F (get v i)) = (v.map F).prod := by
  unfold prodTo len
  rw [Int.toNat_natCast, Finset.prod_range, ← List.prod_ofFn]
  congr 1
  apply List.ext_getElem
  · simp
  · intro i h1 h2
    simp at h1
    simp [get_lt v i h1]

theorem sumTo_list {α : Type} [Inhabited α] (v : List α) (F : α → ℂ) : sumTo (len v) (fun i => F (get v i)) = (v.map F).sum := by
  unfold sumTo len
  rw [Int.toNat_natCast, Finset.sum_range, ← List.sum_ofFn]
  congr 1
  apply List.ext_getElem
  · simp
  · intro i h1 h2
    simp at h1
    simp [get_lt v i h1]

theorem sumTo_congr (n : ℤ) (f g : ℤ → ℂ) (h : ∀ i : ℕ, (i : ℤ) < n → f i = g i) : sumTo n f = sumTo n g := by
  unfold sumTo
  refine Finset.sum_congr rfl fun i hi => h i ?_
  have := Finset.mem_range.mp hi
  omega

/-! one level -/

/-- array format: the products, poles and signs that location p contributes -/
def prods (k : ℤ) (g : List g_struct) (p : pole_struct) : List (List g_struct) :=
  if p.multiplicity_ = 1 then [simple_residue g p] else general_residue_products g p
def poles (_k : ℤ) (g : List g_struct) (p : pole_struct) : List pole_struct :=
  if p.multiplicity_ = 1 then [p] else general_residue_poles g p
def signs (k : ℤ) (g : List g_struct) (p : pole_struct) : List ℝ :=
  if p.multiplicity_ = 1 then [get_simple_sign k g p] else general_residue_signs g p
/-- term format -/
def terms (k : ℤ) (t : term) (p : pole_struct) : List term :=
  if p.multiplicity_ = 1 then [⟨t.sign * get_simple_sign k t.g_list p, t.p_list ++ [p], simple_residue t.g_list p⟩] else terms_general_residue t p

theorem one_iff (m : ℤ) : ((-1 : ℤ) * m + 1 = 0) = (m = 1) := by
  apply propext; constructor <;> intro h <;> omega

theorem next_eq (k : ℤ) (R : List (List g_struct)) (d : Prop) :
    next_products k R d = R.flatMap fun g => (find_poles k g d).flatMap (prods k g) := by
  unfold next_products
  simp only [one_iff]
  rw [flatTo_list R (fun g => flatTo (len (find_poles k g d)) fun j => if (get (find_poles k g d) j).multiplicity_ = 1 then
    [simple_residue g (get (find_poles k g d) j)] else general_residue_products g (get (find_poles k g d) j))]
  refine List.flatMap_congr fun g _ => ?_
  exact flatTo_list (find_poles k g d) (prods k g)

theorem level_poles_eq (k : ℤ) (R : List (List g_struct)) (d : Prop) :
    level_poles k R d = R.map fun g => (find_poles k g d).flatMap (poles k g) := by
  unfold level_poles
  simp only [one_iff]
  rw [flatTo_list_unit R (fun g => flatTo (len (find_poles k g d)) fun j => if (get (find_poles k g d) j).multiplicity_ = 1 then
    [get (find_poles k g d) j] else general_residue_poles g (get (find_poles k g d) j))]
  refine List.map_congr_left fun g _ => ?_
  exact flatTo_list (find_poles k g d) (poles k g)

theorem level_signs_eq (k : ℤ) (R : List (List g_struct)) (d : Prop) :
    level_signs k R d = R.map fun g => (find_poles k g d).flatMap (signs k g) := by
  unfold level_signs
  simp only [one_iff]
  rw [flatTo_list_unit R (fun g => flatTo (len (find_poles k g d)) fun j => if (get (find_poles k g d) j).multiplicity_ = 1 then
    [get_simple_sign k g (get (find_poles k g d) j)] else general_residue_signs g (get (find_poles k g d) j))]
  refine List.map_congr_left fun g _ => ?_
  exact flatTo_list (find_poles k g d) (signs k g)

theorem step_eq (k : ℤ) (T : List term) (d : Prop) :
    integrate_step k T d = T.flatMap fun t => (find_poles k t.g_list d).flatMap (terms k t) := by
  unfold integrate_step
  simp only [one_iff]
  rw [flatTo_list T (fun t => flatTo (len (find_poles k t.g_list d)) fun j => if (get (find_poles k t.g_list d) j).multiplicity_ = 1 then
    [(⟨t.sign * get_simple_sign k t.g_list (get (find_poles k t.g_list d) j), t.p_list ++ [get (find_poles k t.g_list d) j],
      simple_residue t.g_list (get (find_poles k t.g_list d) j)⟩ : term)] else terms_general_residue t (get (find_poles k t.g_list d) j))]
  refine List.flatMap_congr fun t _ => ?_
  exact flatTo_list (find_poles k t.g_list d) (terms k t)

/-! the product rule: both formats run through the same (product, location, sign) triples -/

structure triple where
  g : List g_struct
  q : pole_struct
  s : ℝ

instance : Inhabited triple := ⟨⟨[], default, 0⟩⟩

def raised (q : pole_struct) : pole_struct := ⟨q.eps_, q.alpha_, q.index_, q.multiplicity_, 1 + q.der_, q.which_g_, q.x_alpha_⟩

def expand (x : triple) : List triple :=
  [⟨x.g, raised x.q, x.s⟩] ++ flatTo (len x.g) fun i => if (get (get x.g i).alpha_ x.q.index_) = 0 then []
    else [⟨double_line x.g i, x.q, (-1 : ℝ) * ((((get (get x.g i).alpha_ x.q.index_ : ℤ)) : ℝ) * x.s)⟩]

theorem expand_g (x : triple) : (expand x).map triple.g = derivative_products x.g x.q := by
  unfold expand derivative_products
  rw [List.map_append, map_flatTo]
  congr 1
  refine flatTo_congr _ _ _ fun i _ => ?_
  beta_reduce
  split_ifs <;> rfl

theorem expand_q (x : triple) : (expand x).map triple.q = derivative_poles x.g x.q := by
  unfold expand derivative_poles
  rw [List.map_append, map_flatTo]
  congr 1
  refine flatTo_congr _ _ _ fun i _ => ?_
  beta_reduce
  split_ifs <;> rfl

theorem expand_s (x : triple) : (expand x).map triple.s = derivative_signs x.g x.q x.s := by
  unfold expand derivative_signs
  rw [List.map_append, map_flatTo]
  congr 1
  refine flatTo_congr _ _ _ fun i _ => ?_
  beta_reduce
  split_ifs <;> rfl

theorem expand_index (x y : triple) (h : y ∈ expand x) : y.q.index_ = x.q.index_ := by
  unfold expand flatTo at h
  rw [List.mem_append, List.mem_singleton, List.mem_flatMap] at h
  rcases h with h | ⟨i, _, h⟩
  · rw [h]; rfl
  · beta_reduce at h
    split_ifs at h
    · simp at h
    · rw [List.mem_singleton] at h; rw [h]

/-- the term with coefficient c that a triple stands for -/
def as_term (c : ℝ) (x : triple) : term := ⟨x.s * c, [x.q], x.g⟩

theorem expand_term (c : ℝ) (p : pole_struct) (x : triple) (h : x.q.index_ = p.index_) :
    term_derivative (as_term c x) p = (expand x).map (as_term c) := by
  unfold term_derivative expand as_term
  rw [List.map_append, map_flatTo]
  congr 1
  · simp [len, flatTo, get, upd, raised, add_comm]
  · refine flatTo_congr _ _ _ fun i _ => ?_
    beta_reduce
    rw [h]
    split_ifs
    · rfl
    · simp [mul_assoc]

/-- after k differentiations -/
def triples (g : List g_struct) (p : pole_struct) : ℕ → List triple
  | 0 => [⟨reduce_gprod g p, p, get_starting_sign g p⟩]
  | k + 1 => (triples g p k).flatMap expand

theorem residue_triples (g : List g_struct) (p : pole_struct) (c : ℝ) (k : ℕ) : 
    (∀ x ∈ triples g p k, x.q.index_ = p.index_) ∧
    foldTo (k : ℤ) (fun i0 i1 => ((flatTo (len (i1).1) (fun i2 => (derivative_products (get (i1).1 i2) (get (i1).2 i2)))), (flatTo (len (i1).1) (fun i2 => (derivative_poles (get (i1).1 i2) (get (i1).2 i2)))))) (([(reduce_gprod g p)], [p]) : List (List g_struct) × List pole_struct)
      = ((triples g p k).map triple.g, (triples g p k).map triple.q) ∧
    foldTo (k : ℤ) (fun i0 i1 => (flatTo (len ((foldTo i0 (fun i2 i3 => ((flatTo (len (i3).1) (fun i4 => (derivative_products (get (i3).1 i4) (get (i3).2 i4)))), (flatTo (len (i3).1) (fun i4 => (derivative_poles (get (i3).1 i4) (get (i3).2 i4)))))) (([(reduce_gprod g p)], [p]) : List (List g_struct) × List pole_struct))).1) (fun i2 => (derivative_signs (get ((foldTo i0 (fun i3 i4 => ((flatTo (len (i4).1) (fun i5 => (derivative_products (get (i4).1 i5) (get (i4).2 i5)))), (flatTo (len (i4).1) (fun i5 => (derivative_poles (get (i4).1 i5) (get (i4).2 i5)))))) (([(reduce_gprod g p)], [p]) : List (List g_struct) × List pole_struct))).1 i2) (get ((foldTo i0 (fun i3 i4 => ((flatTo (len (i4).1) (fun i5 => (derivative_products (get (i4).1 i5) (get (i4).2 i5)))), (flatTo (len (i4).1) (fun i5 => (derivative_poles (get (i4).1 i5) (get (i4).2 i5)))))) (([(reduce_gprod g p)], [p]) : List (List g_struct) × List pole_struct))).2 i2) (get i1 i2))))) [(get_starting_sign g p)]
      = (triples g p k).map triple.s ∧
    foldTo (k : ℤ) (fun i0 i1 => (flatTo (len i1) (fun i2 => (term_derivative (get i1 i2) p)))) [(⟨((get_starting_sign g p) * c), [p], (reduce_gprod g p)⟩ : term)]
      = (triples g p k).map (as_term c) := by
  induction k with
  | zero => exact ⟨by simp [triples], by simp [foldTo_zero, triples], by simp [foldTo_zero, triples], by simp [foldTo_zero, as_term, triples]⟩
  | succ k ih =>
    obtain ⟨hi, h1, h2, h3⟩ := ih
    rw [show triples g p (k + 1) = (triples g p k).flatMap expand from rfl]
    push_cast
    simp only [foldTo_succ, h1, h2, h3]
    clear h1 h2 h3
    generalize triples g p k = L at hi ⊢
    refine ⟨?_, ?_, ?_, ?_⟩
    · intro x hx
      obtain ⟨y, hy, hx⟩ := List.mem_flatMap.mp hx
      rw [expand_index _ _ hx, hi y hy]
    · rw [List.map_flatMap, List.map_flatMap]
      simp only [expand_g, expand_q]
      rw [← flatTo_list L (fun x => derivative_products x.g x.q), ← flatTo_list L (fun x => derivative_poles x.g x.q), len_map]
      refine congrArg₂ Prod.mk ?_ ?_
      · exact flatTo_congr _ _ _ fun i h => by rw [get_map _ _ _ h, get_map _ _ _ h]
      · exact flatTo_congr _ _ _ fun i h => by rw [get_map _ _ _ h, get_map _ _ _ h]
    · rw [List.map_flatMap]
      simp only [expand_s]
      rw [← flatTo_list L (fun x => derivative_signs x.g x.q x.s), len_map]
      exact flatTo_congr _ _ _ fun i h => by rw [get_map _ _ _ h, get_map _ _ _ h, get_map _ _ _ h]
    · rw [flatTo_list (L.map (as_term c)) (fun t => term_derivative t p), List.map_flatMap, List.flatMap_map]
      exact List.flatMap_congr fun x hx => expand_term c p x (hi x hx)

/-! values -/

def val (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) (t : term) : ℂ := (t.sign : ℂ) * eval_fprod t.p_list parms ext b db dd

theorem eval_fprod_list (l : List pole_struct) (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) :
    eval_fprod l parms ext b db dd = (l.map fun q => fermi_pole q parms ext b db dd).prod := by
  unfold eval_fprod; exact prodTo_list l fun q => fermi_pole q parms ext b db dd

/-- sign times occupation -/
def weight (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) (s : ℝ) (q : pole_struct) : ℂ := (s : ℂ) * fermi_pole q parms ext b db dd

/-- one pole location: same products, and term coefficient = coefficient times sign times occupation -/
theorem location (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) (k : ℤ) (t : term) (p : pole_struct) :
    (terms k t p).map term.g_list = prods k t.g_list p ∧ (signs k t.g_list p).length = (poles k t.g_list p).length ∧
    (terms k t p).map (val parms ext b db dd) = (List.zipWith (weight parms ext b db dd) (signs k t.g_list p) (poles k t.g_list p)).map (val parms ext b db dd t * ·) := by
  unfold terms prods signs poles
  split_ifs with hm
  · refine ⟨rfl, rfl, ?_⟩
    simp [val, weight, eval_fprod_list]
    ring
  · unfold terms_general_residue general_residue_products general_residue_poles general_residue_signs substitute_all
    have hk : ∀ {σ : Type} (f : ℤ → σ → σ) (s : σ), foldTo (-1 + p.multiplicity_) f s = foldTo (((-1 + p.multiplicity_).toNat : ℕ) : ℤ) f s := by
      intro σ f s; unfold foldTo; rw [Int.toNat_natCast]
    obtain ⟨hi, h1, h2, h3⟩ := residue_triples t.g_list p t.sign (-1 + p.multiplicity_).toNat
    generalize triples t.g_list p (-1 + p.multiplicity_).toNat = L at hi h1 h2 h3
    simp only [hk, h1, h2, h3]
    rw [flatTo_list_unit (L.map (as_term t.sign)) (fun x => (⟨x.sign, x.p_list ++ t.p_list, flatTo (len x.g_list) (fun i1 => [update_G_pole (get x.g_list i1) p])⟩ : term)),
      flatTo_list_unit (L.map triple.g) (fun x => flatTo (len x) (fun i1 => [update_G_pole (get x i1) p]))]
    refine ⟨?_, by simp, ?_⟩
    · simp [as_term]
    · clear h1 h2 h3 hi
      induction L with
      | nil => rfl
      | cons x L ih =>
        simp only [List.map_cons, List.zipWith_cons_cons, ih]
        congr 1
        simp [val, weight, eval_fprod_list, as_term]
        ring

theorem zipWith_flatMap {α β γ δ : Type} (f : β → γ → δ) (v : List α) (a : α → List β) (c : α → List γ) (h : ∀ x ∈ v, (a x).length = (c x).length) :
    List.zipWith f (v.flatMap a) (v.flatMap c) = v.flatMap fun x => List.zipWith f (a x) (c x) := by
  induction v with
  | nil => rfl
  | cons x v ih =>
    rw [List.flatMap_cons, List.flatMap_cons, List.flatMap_cons, List.zipWith_append (h x (by simp)), ih fun y hy => h y (by simp [hy])]

theorem dot_row (s : List ℝ) (q : List pole_struct) (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) (h : s.length = q.length) :
    flatTo (len s) (fun j => [((((get s j) : ℝ) : ℂ) * (get (q.map fun x => fermi_pole x parms ext b db dd) j))]) = List.zipWith (weight parms ext b db dd) s q := by
  rw [flatTo_unit]
  apply List.ext_getElem
  · simp [len, h]
  · intro i h1 h2
    simp [len] at h1
    have hq : i < q.length := by omega
    simp [get_lt s i h1, get_lt (q.map fun x => fermi_pole x parms ext b db dd) i (by simpa using hq), weight]

/-- coefficients of the locations of one product -/
def row (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) (d : Prop) (k : ℤ) (g : List g_struct) : List ℂ :=
  List.zipWith (weight parms ext b db dd) ((find_poles k g d).flatMap (signs k g)) ((find_poles k g d).flatMap (poles k g))

theorem fermi_map (P : List (List pole_struct)) (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) :
    fermi P parms ext b db dd = P.map fun r => r.map fun x => fermi_pole x parms ext b db dd := by
  unfold fermi
  rw [flatTo_list_unit P (fun r => flatTo (len r) fun i1 => [fermi_pole (get r i1) parms ext b db dd])]
  exact List.map_congr_left fun r _ => flatTo_list_unit r fun x => fermi_pole x parms ext b db dd

theorem signs_poles_length (k : ℤ) (g : List g_struct) (p : pole_struct) (parms : ami_parms) (ext : ami_vars) :
    (signs k g p).length = (poles k g p).length :=
  (location parms ext True True True k ⟨1, [], g⟩ p).2.1

theorem level_eq (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) (d : Prop) (k : ℤ) (R : List (List g_struct)) :
    dot (level_signs k R d) (fermi (level_poles k R d) parms ext b db dd) = R.map (row parms ext b db dd d k) := by
  unfold dot
  rw [fermi_map, level_signs_eq, level_poles_eq, len_map, List.map_map, ← flatTo_list_unit R (row parms ext b db dd d k)]
  refine flatTo_congr _ _ _ fun i hi => ?_
  rw [get_map _ _ _ hi, get_map _ _ _ hi]
  congr 1
  refine dot_row _ _ parms ext b db dd ?_
  simp [List.length_flatMap, signs_poles_length k _ _ parms ext]

theorem cross_eq (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) (d : Prop) (k : ℤ) (T : List term) :
    cross [T.map (val parms ext b db dd)] ((T.map term.g_list).map (row parms ext b db dd d k)) =
      [(integrate_step k T d).map (val parms ext b db dd)] := by
  unfold cross
  congr 1
  rw [show get [T.map (val parms ext b db dd)] 0 = T.map (val parms ext b db dd) by simp [get], step_eq, List.map_flatMap, len_map, List.map_map,
    ← flatTo_list T (fun t => ((find_poles k t.g_list d).flatMap (terms k t)).map (val parms ext b db dd))]
  refine flatTo_congr _ _ _ fun i hi => ?_
  rw [get_map _ _ _ hi, get_map _ _ _ hi]
  generalize get T (i : ℤ) = t
  rw [flatTo_list_unit _ (fun x => val parms ext b db dd t * x)]
  simp only [Function.comp, row]
  rw [zipWith_flatMap _ _ _ _ (fun p _ => signs_poles_length k _ p parms ext), List.map_flatMap, List.map_flatMap]
  exact List.flatMap_congr fun p _ => ((location parms ext b db dd k t p).2.2).symm

/-- the products of the terms are the products of the level -/
theorem step_products (parms : ami_parms) (ext : ami_vars) (k : ℤ) (T : List term) (d : Prop) :
    (integrate_step k T d).map term.g_list = next_products k (T.map term.g_list) d := by
  rw [step_eq, next_eq, List.map_flatMap, List.flatMap_map]
  refine List.flatMap_congr fun t _ => ?_
  rw [List.map_flatMap]
  exact List.flatMap_congr fun p _ => (location parms ext True True True k t p).1

/-! all levels -/

theorem construct_at (R0 : List g_struct) (d : Prop) (parms : ami_parms) (ext : ami_vars) (n : ℕ) :
    (construct_R n R0 d).length = n + 1 ∧ ∀ k : ℕ, k ≤ n → get (construct_R n R0 d) (k : ℤ) = (construct_terms k R0 d).map term.g_list := by
  induction n with
  | zero =>
    refine ⟨by simp [construct_R, foldTo_zero], fun k hk => ?_⟩
    obtain rfl : k = 0 := by omega
    simp [construct_R, construct_terms, foldTo_zero, get]
  | succ n ih =>
    obtain ⟨hl, hg⟩ := ih
    have e : construct_R ((n + 1 : ℕ) : ℤ) R0 d = construct_R n R0 d ++ [next_products n (get (construct_R n R0 d) n) d] := by
      unfold construct_R; push_cast; rw [foldTo_succ]
    rw [e]
    refine ⟨by simp [hl], fun k hk => ?_⟩
    by_cases h : k ≤ n
    · rw [← hg k h, get_lt _ _ (by simp; omega), get_lt (construct_R n R0 d) k (by omega), List.getElem_append_left (by omega)]
    · obtain rfl : k = n + 1 := by omega
      rw [get_lt _ _ (by simp [hl])]
      rw [List.getElem_append_right (by omega)]
      simp only [hl, Nat.sub_self, List.getElem_cons_zero]
      rw [hg n le_rfl]
      have : construct_terms ((n + 1 : ℕ) : ℤ) R0 d = integrate_step n (construct_terms n R0 d) d := by
        unfold construct_terms; push_cast; rw [foldTo_succ]
      rw [this, step_products parms ext]

theorem get_flatTo_unit {α : Type} [Inhabited α] (n : ℤ) (f : ℤ → α) (i : ℕ) (h : (i : ℤ) < n) : get (flatTo n (fun i => [f i])) (i : ℤ) = f i := by
  rw [flatTo_unit, get_lt _ _ (by simp; omega)]; simp

theorem coeffs_at (R0 : List g_struct) (d : Prop) (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) (n k : ℕ) (hk : k < n) :
    level_coeffs parms (construct_P n R0 d) (construct_S n R0 d) ext b db dd (k : ℤ) =
      ((construct_terms k R0 d).map term.g_list).map (row parms ext b db dd d k) := by
  unfold level_coeffs construct_P construct_S
  rw [get_flatTo_unit _ _ _ (by omega), get_flatTo_unit _ _ _ (by omega)]
  have := (construct_at R0 d parms ext k).2 k le_rfl
  unfold construct_R at this
  rw [this]
  exact level_eq parms ext b db dd d k _

theorem path_eq (R0 : List g_struct) (d : Prop) (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) (n k : ℕ) (hk : k < n) :
    path_coeffs parms (construct_P n R0 d) (construct_S n R0 d) ext b db dd ((k : ℤ) + 1) =
      [(construct_terms ((k : ℤ) + 1) R0 d).map (val parms ext b db dd)] := by
  have st : ∀ j : ℕ, construct_terms ((j : ℤ) + 1) R0 d = integrate_step j (construct_terms j R0 d) d := by
    intro j; unfold construct_terms; rw [foldTo_succ]
  unfold path_coeffs
  rw [show (-1 : ℤ) + ((k : ℤ) + 1) = (k : ℤ) by ring]
  induction k with
  | zero =>
    have c := coeffs_at R0 d parms ext b db dd n 0 hk
    have x := cross_eq parms ext b db dd d 0 (construct_terms 0 R0 d)
    simp only [Nat.cast_zero] at c
    have s := st 0
    simp only [Nat.cast_zero] at s ⊢
    rw [foldTo_zero, c, s, ← x]
    unfold cross
    simp [construct_terms, foldTo_zero, get, val, eval_fprod_list, len, flatTo]
    simp [← List.map_eq_flatMap]
    apply List.ext_getElem
    · simp
    · intro i h1 h2
      simp [List.getElem?_eq_getElem h1]
  | succ k ih =>
    have ih' := ih (by omega)
    push_cast
    rw [foldTo_succ, ih']
    have c := coeffs_at R0 d parms ext b db dd n (k + 1) hk
    have x := cross_eq parms ext b db dd d ((k : ℤ) + 1) (construct_terms ((k : ℤ) + 1) R0 d)
    have s := st (k + 1)
    push_cast at c s
    rw [show (1 : ℤ) + (k : ℤ) = (k : ℤ) + 1 by ring, c, s, ← x]

/-- an empty level stays empty -/
theorem empty_stays (R0 : List g_struct) (d : Prop) (k j : ℕ) (h : construct_terms (k : ℤ) R0 d = []) : construct_terms ((k + j : ℕ) : ℤ) R0 d = [] := by
  induction j with
  | zero => exact h
  | succ j ih =>
    have : construct_terms ((k + (j + 1) : ℕ) : ℤ) R0 d = integrate_step ((k + j : ℕ) : ℤ) (construct_terms ((k + j : ℕ) : ℤ) R0 d) d := by
      unfold construct_terms
      rw [show ((k + (j + 1) : ℕ) : ℤ) = ((k + j : ℕ) : ℤ) + 1 by push_cast; ring, foldTo_succ]
    rw [this, ih, step_eq]; rfl

theorem terms_equal_arrays (R0 : List g_struct) (d : Prop) (parms : ami_parms) (ext : ami_vars) (b db dd : Prop) (hN : 0 ≤ parms.N_INT_) :
    evaluate_terms (construct_terms parms.N_INT_ R0 d) parms ext b db dd =
      evaluate_spr parms (construct_R parms.N_INT_ R0 d) (construct_P parms.N_INT_ R0 d) (construct_S parms.N_INT_ R0 d) ext b db dd := by
  obtain ⟨n, hn⟩ : ∃ n : ℕ, parms.N_INT_ = n := ⟨parms.N_INT_.toNat, by omega⟩
  have ev : evaluate_terms (construct_terms parms.N_INT_ R0 d) parms ext b db dd =
      ((construct_terms parms.N_INT_ R0 d).map fun t => evaluate_term t parms ext b db dd).sum := by
    unfold evaluate_terms; exact sumTo_list _ fun t => evaluate_term t parms ext b db dd
  rw [ev]
  unfold evaluate_spr
  rw [hn]
  split_ifs with h0 he
  · rw [h0]
    simp [construct_terms, construct_R, foldTo_zero, get, evaluate_term, eval_fprod_list]
  · obtain ⟨i, hi, he⟩ := he
    have hs : get (construct_S (n : ℤ) R0 d) ((i : ℤ) + 1) = level_signs ((i : ℤ) + 1) ((construct_terms ((i : ℤ) + 1) R0 d).map term.g_list) d := by
      unfold construct_S
      have h1 := get_flatTo_unit (n : ℤ) (fun i0 => level_signs i0 (get (foldTo i0 (fun i1 i2 => (i2 ++ [(next_products i1 (get i2 i1) d)])) [[R0]]) i0) d) (i + 1) (by push_cast; omega)
      push_cast at h1
      rw [h1]
      have := (construct_at R0 d parms ext (i + 1)).2 (i + 1) le_rfl
      unfold construct_R at this
      push_cast at this
      rw [this]
    have he' : len (get (construct_S (n : ℤ) R0 d) ((i : ℤ) + 1)) = 0 := by rw [add_comm]; exact he
    rw [hs, level_signs_eq] at he'
    have hz : construct_terms (((i + 1 : ℕ)) : ℤ) R0 d = [] := by
      push_cast
      apply List.eq_nil_of_length_eq_zero
      simpa [len] using he'
    have := empty_stays R0 d (i + 1) (n - (i + 1)) hz
    rw [show i + 1 + (n - (i + 1)) = n by omega] at this
    rw [this]; rfl
  · have hp : ∃ k, n = k + 1 := ⟨n - 1, by omega⟩
    obtain ⟨k, rfl⟩ := hp
    have pe := path_eq R0 d parms ext b db dd (k + 1) k (by omega)
    have cr := (construct_at R0 d parms ext (k + 1)).2 (k + 1) le_rfl
    push_cast at pe cr ⊢
    rw [pe, cr]
    unfold star
    rw [show ∀ l : List ℂ, get [l] 0 = l by intro l; simp [get], len_map]
    rw [← sumTo_list (construct_terms ((k : ℤ) + 1) R0 d) fun t => evaluate_term t parms ext b db dd]
    refine sumTo_congr _ _ _ fun i hi => ?_
    rw [get_map _ _ _ hi, get_map _ _ _ hi]
    simp only [evaluate_term, val]
    ring

end Formats
