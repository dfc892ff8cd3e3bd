
/-! differentiation of a factorised solution -/

namespace Formats

def refLines (U : List g_struct) (v : List pair) : List g_struct := v.map fun r => get U r.first
def weightOf (K : List (List ℂ)) (g : List pair) : ℂ := (g.map fun m => ((m.second : ℤ) : ℂ) * get (get K 0) m.first).sum

theorem group_value_eq (U : List g_struct) (v : List pair) (X : ami_vars) (i : ℤ) (w : ℂ) : group_value U v (at' X i w) = prodAt (refLines U v) X i w := by
  unfold group_value prodAt refLines
  rw [prodTo_list v (fun r => eval_gprod [get U r.first] _), List.map_map]
  congr 1
  refine List.map_congr_left fun r _ => ?_
  rw [eval_gprod_value]
  simp [value, at']

theorem weight_eq (K : List (List ℂ)) (g : List pair) :
    sumTo (len g) (fun i1 => ((((((((get g i1)).second : ℤ) : ℝ) : ℝ) : ℂ) * (get (get K (0 : ℤ)) ((get g i1)).first)))) = weightOf K g := by
  unfold weightOf
  rw [← sumTo_list g fun m => ((m.second : ℤ) : ℂ) * get (get K 0) m.first]
  refine sumTo_congr _ _ _ fun i _ => ?_
  push_cast; rfl

theorem star_eq (K : List (List ℂ)) (U : List g_struct) (refs groups : List (List pair)) (X : ami_vars) (i : ℤ) (w : ℂ) :
    optimized_star K U refs groups (at' X i w) =
      (X.prefactor : ℂ) * ∑ n ∈ Finset.range groups.length, prodAt (refLines U (get refs (n : ℤ))) X i w * weightOf K (get groups (n : ℤ)) := by
  unfold optimized_star
  unfold sumTo
  congr 1
  refine Finset.sum_congr (by simp [len]) fun n _ => ?_
  beta_reduce
  rw [group_value_eq]
  congr 1
  exact weight_eq K _

/-- the new groups, by group and reference -/
def coeff (U : List g_struct) (refs : List (List pair)) (n t : ℤ) : ℤ :=
  get (get U (get (get refs n) t).first).alpha_ (-1 + len (get U (get (get refs n) t).first).alpha_)

def places (U : List g_struct) (refs : List (List pair)) : List (ℤ × ℤ) :=
  flatTo (len refs) fun n => flatTo (len (get refs n)) fun t => if coeff U refs n t = 0 then [] else [(n, t)]

def newRef (U : List g_struct) (refs : List (List pair)) (x : ℤ × ℤ) : List pair :=
  flatTo (len (get refs x.1)) fun i2 => if (-1 : ℤ) * x.2 + i2 = 0 then [get (get refs x.1) x.2] ++ [(⟨(get (get refs x.1) x.2).first, (-1 : ℤ) * ((get (get refs x.1) x.2).second * coeff U refs x.1 x.2)⟩ : pair)]
    else [get (get refs x.1) i2]

def newGroup (U : List g_struct) (refs groups : List (List pair)) (x : ℤ × ℤ) : List pair :=
  (get groups x.1).map fun m => (⟨m.first, (-1 : ℤ) * (m.second * coeff U refs x.1 x.2)⟩ : pair)

theorem refs_places (U : List g_struct) (refs : List (List pair)) : derivative_opt_refs U refs = (places U refs).map (newRef U refs) := by
  unfold derivative_opt_refs places
  rw [map_flatTo]
  refine flatTo_congr _ _ _ fun n _ => ?_
  rw [map_flatTo]
  refine flatTo_congr _ _ _ fun t _ => ?_
  beta_reduce
  unfold coeff
  split_ifs <;> rfl

theorem groups_places (U : List g_struct) (refs groups : List (List pair)) : derivative_opt_groups U refs groups = (places U refs).map (newGroup U refs groups) := by
  unfold derivative_opt_groups places
  rw [map_flatTo]
  refine flatTo_congr _ _ _ fun n _ => ?_
  rw [map_flatTo]
  refine flatTo_congr _ _ _ fun t _ => ?_
  beta_reduce
  unfold coeff
  split_ifs
  · rfl
  · simp only [List.map_cons, List.map_nil]
    congr 1
    exact flatTo_list_unit (get groups (n : ℤ)) fun m => (⟨m.first, (-1 : ℤ) * (m.second * _)⟩ : pair)

theorem weight_new (K : List (List ℂ)) (U : List g_struct) (refs groups : List (List pair)) (x : ℤ × ℤ) :
    weightOf K (newGroup U refs groups x) = -((coeff U refs x.1 x.2 : ℤ) : ℂ) * weightOf K (get groups x.1) := by
  unfold weightOf newGroup
  rw [List.map_map, ← List.sum_map_mul_left]
  congr 1
  refine List.map_congr_left fun m _ => ?_
  simp only [Function.comp]
  push_cast; ring

theorem value_new (U : List g_struct) (refs : List (List pair)) (X : ami_vars) (i : ℤ) (w : ℂ) (n t : ℕ) (ht : t < (get refs (n : ℤ)).length) :
    prodAt (refLines U (newRef U refs ((n : ℤ), (t : ℤ)))) X i w =
      (value (get U (get (get refs (n : ℤ)) (t : ℤ)).first) (at' X i w))⁻¹ * prodAt (refLines U (get refs (n : ℤ))) X i w := by
  unfold prodAt refLines newRef
  rw [List.map_map, prod_flatTo, List.map_map, prod_range]
  have : ∀ j ∈ Finset.range (len (get refs (n : ℤ))).toNat, (((if (-1 : ℤ) * (t : ℤ) + (j : ℤ) = 0 then [get (get refs (n : ℤ)) (t : ℤ)] ++ [(⟨(get (get refs (n : ℤ)) (t : ℤ)).first, (-1 : ℤ) * ((get (get refs (n : ℤ)) (t : ℤ)).second * coeff U refs (n : ℤ) (t : ℤ))⟩ : pair)]
      else [get (get refs (n : ℤ)) (j : ℤ)]).map ((fun g => (value g (at' X i w))⁻¹) ∘ fun r => get U r.first))).prod
      = (if j = t then (value (get U (get (get refs (n : ℤ)) (j : ℤ)).first) (at' X i w))⁻¹ else 1) * ((fun g => (value g (at' X i w))⁻¹) ∘ fun r => get U r.first) (get (get refs (n : ℤ)) (j : ℤ)) := by
    intro j _
    by_cases e : j = t
    · rw [if_pos (by omega), if_pos e, e]; simp
    · rw [if_neg (by omega), if_neg e]; simp
  rw [Finset.prod_congr rfl this, Finset.prod_mul_distrib, Finset.prod_ite_eq']
  simp only [len, Int.toNat_natCast, Finset.mem_range, ht, if_true]

theorem derivative_opt_is_derivative (K : List (List ℂ)) (U : List g_struct) (refs groups : List (List pair)) (X : ami_vars) (na : ℕ) (hna : 0 < na)
    (hU : ∀ g ∈ U, g.alpha_.length = na) (hX : X.frequency_.length = na)
    (hr : ∀ v ∈ refs, ∀ r ∈ v, ∃ k : ℕ, r.first = k ∧ k < U.length) (hlen : refs.length = groups.length) (w : ℂ)
    (h0 : ∀ g ∈ U, value g (at' X ((na - 1 : ℕ) : ℤ) w) ≠ 0) :
    HasDerivAt (fun w => optimized_star K U refs groups (at' X ((na - 1 : ℕ) : ℤ) w))
      (optimized_star K U (derivative_opt_refs U refs) (derivative_opt_groups U refs groups) (at' X ((na - 1 : ℕ) : ℤ) w)) w := by
  set i : ℕ := na - 1 with hi
  have mem : ∀ n : ℕ, n < refs.length → ∀ r ∈ get refs (n : ℤ), get U r.first ∈ U := by
    intro n hn r hr'
    obtain ⟨k, e, hk⟩ := hr (get refs (n : ℤ)) (by rw [get_lt _ _ hn]; exact List.getElem_mem _) r hr'
    rw [e, get_lt _ _ hk]; exact List.getElem_mem _
  simp only [star_eq]
  refine HasDerivAt.const_mul (X.prefactor : ℂ) ?_
  rw [groups_places, refs_places, List.length_map]
  have hs : ∑ n ∈ Finset.range (places U refs).length, prodAt (refLines U (get ((places U refs).map (newRef U refs)) (n : ℤ))) X i w * weightOf K (get ((places U refs).map (newGroup U refs groups)) (n : ℤ))
      = ((places U refs).map fun x => prodAt (refLines U (newRef U refs x)) X i w * weightOf K (newGroup U refs groups x)).sum := by
    rw [sum_range (places U refs)]
    refine Finset.sum_congr rfl fun n hn => ?_
    have hn : (n : ℤ) < len (places U refs) := by simpa [len] using Finset.mem_range.mp hn
    rw [get_map _ _ _ hn, get_map _ _ _ hn]
  rw [hs]
  unfold places
  rw [sum_flatTo]
  simp only [len, Int.toNat_natCast, hlen]
  refine HasDerivAt.fun_sum fun n hn => ?_
  have hn : n < refs.length := by rw [hlen]; exact Finset.mem_range.mp hn
  have d := (deriv_prodAt (X := X) (i := i) (refLines U (get refs (n : ℤ)))
    (fun g hg => by
      obtain ⟨r, hr', rfl⟩ := List.mem_map.mp hg
      rw [hU _ (mem n hn r hr')]; omega)
    (by rw [hX]; omega) w
    (fun g hg => by
      obtain ⟨r, hr', rfl⟩ := List.mem_map.mp hg
      exact h0 _ (mem n hn r hr'))).mul_const (weightOf K (get groups (n : ℤ)))
  refine d.congr_deriv ?_
  rw [show ((get refs (n : ℤ)).length : ℤ) = len (get refs (n : ℤ)) from rfl, sum_flatTo]
  unfold refLines
  rw [List.map_map, sum_range (get refs (n : ℤ)), Finset.sum_mul, Finset.sum_mul]
  refine Finset.sum_congr (by simp [len]) fun t ht => ?_
  have ht : t < (get refs (n : ℤ)).length := by simpa [len] using Finset.mem_range.mp ht
  have hc : coeff U refs (n : ℤ) (t : ℤ) = get (get U (get (get refs (n : ℤ)) (t : ℤ)).first).alpha_ (i : ℤ) := by
    unfold coeff
    have := hU _ (mem n hn (get (get refs (n : ℤ)) (t : ℤ)) (by rw [get_lt _ _ ht]; exact List.getElem_mem _))
    congr 1
    simp only [len, this]; omega
  have vn := value_new U refs X i w n t ht
  have wn := weight_new K U refs groups ((n : ℤ), (t : ℤ))
  unfold refLines at vn
  split_ifs with hz
  · rw [hc] at hz
    simp [Function.comp, hz]
  · simp only [List.map_cons, List.map_nil, List.sum_cons, List.sum_nil, add_zero, vn, wn]
    rw [hc]
    simp only [Function.comp]
    ring

end Formats
