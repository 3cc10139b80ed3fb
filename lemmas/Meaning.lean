/-
Laws of the boolean meaning of a list of conditions used by the verifier (gover/cond.go,
meaningLemmas and mkMeaning). `meaning` transcribes ghMeaning of contracts/c03.go: `mark c` is
c.JoinType() == LogicalOR and `truth c` is ghTruth(c, seed); both are arbitrary functions here.
-/
variable {C : Type} (mark truth : C → Bool)

/-- The body of the loop of ghMeaning for a condition that is not the first. -/
def step (st : Bool × Bool) (c : C) : Bool × Bool :=
  let st := if mark c then (st.1 || st.2, true) else st
  (st.1, st.2 && truth c)

/-- ghMeaning: the mark of the first condition is ignored. -/
def meaning : List C → Bool
  | [] => true
  | c :: cs =>
    let st := cs.foldl (step mark truth) (false, truth c)
    st.1 || st.2

theorem meaning_nil : meaning mark truth [] = true := rfl

theorem meaning_single (c : C) : meaning mark truth [c] = truth c := by
  simp [meaning]

theorem foldl_and (cs : List C) (s a : Bool) (h : ∀ c ∈ cs, mark c = false) :
    cs.foldl (step mark truth) (s, a) = (s, a && cs.all truth) := by
  induction cs generalizing a with
  | nil => simp
  | cons c cs ih =>
    have hc : mark c = false := h c (by simp)
    rw [List.foldl_cons]
    have : step mark truth (s, a) c = (s, a && truth c) := by simp [step, hc]
    rw [this, ih _ (fun d hd => h d (by simp [hd]))]
    simp [Bool.and_assoc]

/-- All later conditions marked AND: the conjunction. -/
theorem meaning_and (c : C) (cs : List C) (h : ∀ d ∈ cs, mark d = false) :
    meaning mark truth (c :: cs) = (c :: cs).all truth := by
  simp [meaning, foldl_and mark truth cs _ _ h]

theorem foldl_or (cs : List C) (s a : Bool) (h : ∀ c ∈ cs, mark c = true) :
    ((cs.foldl (step mark truth) (s, a)).1 || (cs.foldl (step mark truth) (s, a)).2)
      = (s || a || cs.any truth) := by
  induction cs generalizing s a with
  | nil => simp
  | cons c cs ih =>
    have hc : mark c = true := h c (by simp)
    rw [List.foldl_cons]
    have : step mark truth (s, a) c = (s || a, truth c) := by simp [step, hc]
    rw [this, ih _ _ (fun d hd => h d (by simp [hd]))]
    simp [Bool.or_assoc]

/-- All later conditions marked OR: the disjunction (of a list that is not empty). -/
theorem meaning_or (c : C) (cs : List C) (h : ∀ d ∈ cs, mark d = true) :
    meaning mark truth (c :: cs) = (c :: cs).any truth := by
  simp only [meaning]
  rw [foldl_or mark truth cs _ _ h]
  simp

/-- A condition marked OR after a list that is not empty is an alternative to all of the list. -/
theorem meaning_snoc_or (cs : List C) (y : C) (hne : cs ≠ []) (hy : mark y = true) :
    meaning mark truth (cs ++ [y]) = (meaning mark truth cs || truth y) := by
  cases cs with
  | nil => exact absurd rfl hne
  | cons c cs =>
    simp [meaning, List.foldl_append, step, hy]

#print axioms meaning_and
#print axioms meaning_or
#print axioms meaning_snoc_or
