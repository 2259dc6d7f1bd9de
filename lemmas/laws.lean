import Mathlib.NumberTheory.LegendreSymbol.JacobiSymbol
/-! The laws of the mathematical functions that the contracts of C13 and C07 use. -/

/-- modular power, by squaring -/
theorem pow_law (b e m : ℕ) :
    b ^ e % m = if e % 2 = 1 then b * ((b * b % m) ^ (e / 2) % m) % m else (b * b % m) ^ (e / 2) % m := by
  have h : e = 2 * (e / 2) + e % 2 := (Nat.div_add_mod e 2).symm
  have sq : b ^ (2 * (e / 2)) % m = (b * b % m) ^ (e / 2) % m := by
    rw [pow_mul, pow_two, Nat.pow_mod (b * b), Nat.pow_mod (b * b % m), Nat.mod_mod]
  split
  · rename_i h1
    conv_lhs => rw [h, h1, pow_succ, mul_comm, Nat.mul_mod, sq]
    exact (Nat.mod_modEq b m).mul_right _
  · rename_i h1
    have h0 : e % 2 = 0 := by omega
    conv_lhs => rw [h, h0, add_zero, sq]

theorem pow_zero_law (b m : ℕ) (h : 1 < m) : b ^ 0 % m = 1 := by simp [Nat.mod_eq_of_lt h]

/-- the product modulo m is associative -/
theorem mulmod_assoc (a b c m : ℕ) : (a * b % m) * c % m = a * (b * c % m) % m := by
  have h1 : a * b % m * c ≡ a * b * c [MOD m] := (Nat.mod_modEq _ m).mul_right c
  have h2 : a * (b * c % m) ≡ a * (b * c) [MOD m] := (Nat.mod_modEq _ m).mul_left a
  rw [mul_assoc] at h1
  exact h1.trans h2.symm

theorem gcd_law (a b : ℕ) : Nat.gcd a b = Nat.gcd b (a % b) := by
  rw [Nat.gcd_comm a b, Nat.gcd_rec, Nat.gcd_comm]

theorem gcd_zero_law (a : ℕ) : Nat.gcd a 0 = a ∧ Nat.gcd 0 a = a := by simp

open jacobiSym in
theorem jacobi_one (n : ℤ) : jacobiSym n 1 = 1 := jacobiSym.one_right n

theorem jacobi_zero (m : ℕ) (h : 1 < m) : jacobiSym 0 m = 0 := jacobiSym.zero_left h

theorem jacobi_even (n : ℤ) (m : ℕ) (hm : m % 2 = 1) :
    jacobiSym (2 * n) m = (if m % 8 = 3 ∨ m % 8 = 5 then -1 else 1) * jacobiSym n m := by
  have ho : Odd m := Nat.odd_iff.mpr hm
  rw [jacobiSym.mul_left, jacobiSym.at_two ho, ZMod.χ₈_nat_eq_if_mod_eight]
  have : m % 8 = 1 ∨ m % 8 = 3 ∨ m % 8 = 5 ∨ m % 8 = 7 := by omega
  rcases this with h | h | h | h <;> simp [h] <;> omega

theorem jacobi_neg (n : ℤ) (m : ℕ) (hm : m % 2 = 1) :
    jacobiSym (-n) m = (if m % 4 = 3 then -1 else 1) * jacobiSym n m := by
  have ho : Odd m := Nat.odd_iff.mpr hm
  rw [jacobiSym.neg n ho, ZMod.χ₄_nat_eq_if_mod_four]
  have : m % 4 = 1 ∨ m % 4 = 3 := by omega
  rcases this with h | h <;> simp [h] <;> omega

theorem jacobi_recip (n m : ℕ) (hn : n % 2 = 1) (hm : m % 2 = 1) :
    jacobiSym n m = (if n % 4 = 3 ∧ m % 4 = 3 then -1 else 1) * jacobiSym (m % n : ℕ) n := by
  have h := jacobiSym.quadratic_reciprocity_if (a := n) (b := m) hn hm
  rw [← h]
  have e : jacobiSym ((m % n : ℕ) : ℤ) n = jacobiSym (m : ℤ) n := by
    rw [jacobiSym.mod_left (m : ℤ) n]; push_cast; rfl
  rw [e]; split <;> simp
