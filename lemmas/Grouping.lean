/-
C04: the text specified for a group (specGroupText and specGroupSQL of contracts/c04.go), read with
the precedence of SQL (NOT over AND over OR), means what the group means (ghMeaning and ghTruth of
contracts/c03.go). Conditions that are not groups are single tokens here: their own text is a closed
expression.
-/
inductive Tok | atom (a : Nat) | not | and | or | lp | rp
deriving DecidableEq

/- A condition; groups are not empty, `mark` is the AND/OR mark of a condition that is not the first. -/
mutual
inductive Cnd | leaf (a : Nat) | group (neg br : Bool) (first : Cnd) (rest : Lst)
inductive Lst | nil | cons (mark : Bool) (c : Cnd) (tl : Lst)
end

def Lst.multi : Lst → Bool | .nil => false | .cons .. => true

/-- specOpen -/
def opn : Cnd → Bool
  | .leaf _ => false
  | .group neg br f r => !br && !neg && (r.multi || opn f)

def encl (b : Bool) (t : List Tok) : List Tok := if b then .lp :: (t ++ [.rp]) else t

/- specGroupText -/
mutual
def text : Cnd → List Tok
  | .leaf a => [.atom a]
  | .group neg br f r =>
    let body := encl (opn f && (r.multi || neg)) (text f) ++ textL r
    let body := encl (br || neg && r.multi) body
    if neg then .not :: body else body
def textL : Lst → List Tok
  | .nil => []
  | .cons m c tl => (if m then .or else .and) :: (encl (opn c) (text c) ++ textL tl)
end

/- truth: ghTruth; meanT: ghMeaning of a list whose first condition means b. -/
mutual
def truth (v : Nat → Bool) : Cnd → Bool
  | .leaf a => v a
  | .group neg _ f r => xor (meanT v (truth v f) r) neg
def meanT (v : Nat → Bool) (b : Bool) : Lst → Bool
  | .nil => b
  | .cons m c tl => if m then b || meanT v (truth v c) tl else meanT v (b && truth v c) tl
end

/-- `meanT` is the loop of ghMeaning (some, all) of contracts/c03.go. -/
def loop (v : Nat → Bool) (s a : Bool) : Lst → Bool
  | .nil => s || a
  | .cons m c tl => if m then loop v (s || a) (truth v c) tl else loop v s (a && truth v c) tl

theorem loop_eq (v : Nat → Bool) : (r : Lst) → ∀ s a, loop v s a r = (s || meanT v a r)
  | .nil, s, a => by simp [loop, meanT]
  | .cons m c tl, s, a => by
    cases m <;> simp [loop, meanT, loop_eq v tl, Bool.or_assoc]

/- Reading a text with SQL precedence. -/
mutual
def pF (v : Nat → Bool) : Nat → List Tok → Option (Bool × List Tok)
  | 0, _ => none
  | _ + 1, .atom a :: r => some (v a, r)
  | n + 1, .not :: r => match pF v n r with
    | some (b, r') => some (!b, r')
    | none => none
  | n + 1, .lp :: r => match pE v n r with
    | some (b, .rp :: r') => some (b, r')
    | _ => none
  | _ + 1, _ => none
def pT (v : Nat → Bool) : Nat → List Tok → Option (Bool × List Tok)
  | 0, _ => none
  | n + 1, ts => match pF v n ts with
    | some (b, .and :: r) => match pT v n r with
      | some (b', r') => some (b && b', r')
      | none => none
    | x => x
def pE (v : Nat → Bool) : Nat → List Tok → Option (Bool × List Tok)
  | 0, _ => none
  | n + 1, ts => match pT v n ts with
    | some (b, .or :: r) => match pE v n r with
      | some (b', r') => some (b || b', r')
      | none => none
    | x => x
end

/-- From some depth on. -/
def Ev (p : Nat → Prop) : Prop := ∃ n, ∀ m, n ≤ m → p m

theorem Ev.map {p q : Nat → Prop} (h : Ev p) (f : ∀ m, p m → q (m + 1)) : Ev q := by
  obtain ⟨n, hn⟩ := h
  refine ⟨n + 1, fun m hm => ?_⟩
  obtain ⟨k, rfl⟩ : ∃ k, m = k + 1 := ⟨m - 1, by omega⟩
  exact f k (hn k (by omega))

theorem Ev.map2 {p q s : Nat → Prop} (h : Ev p) (h' : Ev q) (f : ∀ m, p m → q m → s (m + 1)) : Ev s := by
  obtain ⟨n, hn⟩ := h
  obtain ⟨k, hk⟩ := h'
  exact Ev.map (p := fun m => p m ∧ q m) ⟨n + k, fun m hm => ⟨hn m (by omega), hk m (by omega)⟩⟩
    (fun m hm => f m hm.1 hm.2)

def IsF (v : Nat → Bool) (t : List Tok) (b : Bool) : Prop :=
  ∀ rest, Ev fun m => pF v m (t ++ rest) = some (b, rest)

/-- What follows an expression: its end or a closing bracket. -/
def Stop : List Tok → Prop
  | [] => True
  | t :: _ => t = .rp

def IsE (v : Nat → Bool) (t : List Tok) (b : Bool) : Prop :=
  ∀ rest, Stop rest → Ev fun m => pE v m (t ++ rest) = some (b, rest)

theorem isF_paren {v t b} (h : IsE v t b) : IsF v (.lp :: (t ++ [.rp])) b := by
  intro rest
  have := h (.rp :: rest) rfl
  refine this.map fun m hm => ?_
  simp [pF, hm]

theorem isF_not {v t b} (h : IsF v t b) : IsF v (.not :: t) (!b) := by
  intro rest
  refine (h rest).map fun m hm => ?_
  simp [pF, hm]

/-- The conditions read together with the first: value, and what is left (after an OR). -/
def pre (v : Nat → Bool) : Lst → Bool × Option (Cnd × Lst)
  | .nil => (true, none)
  | .cons true c tl => (true, some (c, tl))
  | .cons false c tl => (truth v c && (pre v tl).1, (pre v tl).2)

def left : Option (Cnd × Lst) → List Tok
  | none => []
  | some (c, tl) => .or :: (encl (opn c) (text c) ++ textL tl)

def Parts (v : Nat → Bool) : Lst → Prop
  | .nil => True
  | .cons _ c tl => IsF v (encl (opn c) (text c)) (truth v c) ∧ Parts v tl

theorem readT {v : Nat → Bool} : (r : Lst) → Parts v r → ∀ t b, IsF v t b → ∀ rest, Stop rest →
    Ev fun m => pT v m (t ++ (textL r ++ rest)) = some (b && (pre v r).1, left (pre v r).2 ++ rest)
  | .nil, _, t, b, ht, rest, hr => by
    refine (ht rest).map fun m hm => ?_
    cases rest with
    | nil => simp [textL, pT, pre, left] at *; simp [hm]
    | cons x xs =>
      have : x = .rp := hr
      subst this
      simp [textL, pT, pre, left, hm]
  | .cons true c tl, _, t, b, ht, rest, _ => by
    refine (ht (textL (.cons true c tl) ++ rest)).map fun m hm => ?_
    simp [textL] at hm
    simp [textL, pT, pre, left, hm]
  | .cons false c tl, hp, t, b, ht, rest, hr => by
    have h1 := ht (textL (.cons false c tl) ++ rest)
    have h2 := readT tl hp.2 _ _ hp.1 rest hr
    refine h1.map2 h2 fun m hm hm2 => ?_
    simp [textL] at hm
    try simp only [List.append_assoc] at hm2
    simp [textL, pT, pre, hm, hm2]

theorem mean_pre (v : Nat → Bool) : (r : Lst) → ∀ b, meanT v b r =
    (b && (pre v r).1 || match (pre v r).2 with
      | none => false
      | some (c, tl) => meanT v (truth v c) tl)
  | .nil, b => by simp [meanT, pre]
  | .cons true c tl, b => by simp [meanT, pre]
  | .cons false c tl, b => by simp [meanT, pre, mean_pre v tl, Bool.and_assoc]

def Lst.len : Lst → Nat | .nil => 0 | .cons _ _ tl => tl.len + 1

theorem pre_len (v : Nat → Bool) : (r : Lst) → ∀ c tl, (pre v r).2 = some (c, tl) → tl.len < r.len
  | .nil, c, tl, h => by simp [pre] at h
  | .cons true d tl', c, tl, h => by
    simp [pre] at h; obtain ⟨rfl, rfl⟩ := h; simp [Lst.len]
  | .cons false d tl', c, tl, h => by
    simp [pre] at h; have := pre_len v tl' c tl h; simp [Lst.len]; omega

theorem pre_parts {v : Nat → Bool} : (r : Lst) → Parts v r → ∀ c tl, (pre v r).2 = some (c, tl) →
    IsF v (encl (opn c) (text c)) (truth v c) ∧ Parts v tl
  | .nil, _, c, tl, h => by simp [pre] at h
  | .cons true d tl', hp, c, tl, h => by
    simp [pre] at h; obtain ⟨rfl, rfl⟩ := h; exact hp
  | .cons false d tl', hp, c, tl, h => by
    simp [pre] at h; exact pre_parts tl' hp.2 c tl h

theorem readE {v : Nat → Bool} : (k : Nat) → ∀ r, r.len ≤ k → Parts v r → ∀ t b, IsF v t b →
    IsE v (t ++ textL r) (meanT v b r) := by
  intro k
  induction k with
  | zero =>
    intro r hk hp t b ht rest hr
    cases r with
    | cons => simp [Lst.len] at hk
    | nil =>
      have h := readT .nil hp t b ht rest hr
      refine h.map fun m hm => ?_
      simp [textL, pre, left] at hm
      cases rest with
      | nil => simp at hm; simp [textL, pE, hm, meanT]
      | cons x xs =>
        have : x = .rp := hr
        subst this
        simp [textL, pE, hm, meanT]
  | succ k ih =>
    intro r hk hp t b ht rest hr
    have h := readT r hp t b ht rest hr
    rw [mean_pre]
    cases hl : (pre v r).2 with
    | none =>
      refine h.map fun m hm => ?_
      rw [hl] at hm
      simp [left] at hm
      cases rest with
      | nil => simp at hm; simp [pE, hm]
      | cons x xs =>
        have : x = .rp := hr
        subst this
        simp [pE, hm]
    | some p =>
      obtain ⟨c, tl⟩ := p
      have hlen := pre_len v r c tl hl
      have hq := pre_parts r hp c tl hl
      have h2 := ih tl (by omega) hq.2 _ _ hq.1 rest hr
      refine h.map2 h2 fun m hm hm2 => ?_
      rw [hl] at hm
      simp [left] at hm
      simp at hm2
      simp [pE, hm, hm2]

theorem isE_of_isF {v t b} (h : IsF v t b) : IsE v t b := by
  have := readE (v := v) 0 .nil (by simp [Lst.len]) trivial t b h
  simpa [textL, meanT] using this

/-- What is shown of every condition: it reads as its meaning, and as a single factor when not open. -/
def Good (v : Nat → Bool) (c : Cnd) : Prop :=
  (opn c = false → IsF v (text c) (truth v c)) ∧ IsE v (text c) (truth v c)

theorem good_part {v c} (h : Good v c) : IsF v (encl (opn c) (text c)) (truth v c) := by
  cases ho : opn c with
  | false => simpa [encl, ho] using h.1 ho
  | true => simpa [encl, ho] using isF_paren h.2

mutual
theorem good (v : Nat → Bool) : (c : Cnd) → Good v c
  | .leaf a => by
    have : IsF v (text (.leaf a)) (truth v (.leaf a)) := by
      intro rest
      exact ⟨1, fun m hm => by
        obtain ⟨k, rfl⟩ : ∃ k, m = k + 1 := ⟨m - 1, by omega⟩
        simp [text, truth, pF]⟩
    exact ⟨fun _ => this, isE_of_isF this⟩
  | .group neg br f r => by
    have hf := good v f
    have hr := goodL v r
    -- the conditions side by side, with the first enclosed where specified
    have hbody : IsE v (encl (opn f && (r.multi || neg)) (text f) ++ textL r) (meanT v (truth v f) r) := by
      cases r with
      | nil =>
        cases neg with
        | false => simpa [Lst.multi, encl, textL, meanT] using hf.2
        | true => simpa [Lst.multi, textL, meanT] using isE_of_isF (good_part hf)
      | cons m c tl => simpa [Lst.multi] using readE _ _ (Nat.le_refl _) hr _ _ (good_part hf)
    cases neg with
    | false =>
      cases br with
      | true =>
        have : IsF v (text (.group false true f r)) (truth v (.group false true f r)) := by
          simpa [text, truth, encl] using isF_paren hbody
        exact ⟨fun _ => this, isE_of_isF this⟩
      | false =>
        refine ⟨fun ho => ?_, by simpa [text, truth, encl] using hbody⟩
        cases r with
        | cons => simp [opn, Lst.multi] at ho
        | nil =>
          have ho' : opn f = false := by simpa [opn, Lst.multi] using ho
          simpa [text, truth, textL, encl, ho', meanT] using hf.1 ho'
    | true =>
      have : IsF v (text (.group true br f r)) (truth v (.group true br f r)) := by
        have hin : IsF v (encl (br || r.multi) (encl (opn f && (r.multi || true)) (text f) ++ textL r)) (meanT v (truth v f) r) := by
          cases hb : (br || r.multi) with
          | true => simpa [encl] using isF_paren hbody
          | false =>
            cases r with
            | cons => simp [Lst.multi] at hb
            | nil => simpa [encl, textL, meanT, Lst.multi] using good_part hf
        simpa [text, truth] using isF_not hin
      exact ⟨fun _ => this, isE_of_isF this⟩
theorem goodL (v : Nat → Bool) : (r : Lst) → Parts v r
  | .nil => trivial
  | .cons _ c tl => ⟨good_part (good v c), goodL v tl⟩
end

/-- The text of a condition, read as a whole with SQL precedence, means what the condition means. -/
theorem reads_back (v : Nat → Bool) (c : Cnd) : Ev fun m => pE v m (text c) = some (truth v c, []) := by
  simpa using (good v c).2 [] trivial

#print axioms reads_back
