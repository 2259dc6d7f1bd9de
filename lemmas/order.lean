/- Orders in the multiplicative group of a field. -/
import Mathlib.GroupTheory.OrderOfElement

/-- an element of which no power h/p is 1, p prime, has order h -/
theorem generator_test {G : Type*} [Group G] (g : G) (h : ℕ) (h0 : 0 < h) (h1 : g ^ h = 1)
    (hp : ∀ p : ℕ, p.Prime → p ∣ h → g ^ (h / p) ≠ 1) : orderOf g = h :=
  orderOf_eq_of_pow_and_pow_div_prime h0 h1 hp

/-- the power h/d of an element of order h has order d -/
theorem nth_root_order {G : Type*} [Group G] (g : G) (h d : ℕ) (h0 : 0 < h) (hd : d ∣ h)
    (hg : orderOf g = h) : orderOf (g ^ (h / d)) = d := by
  have e : h / d ∣ orderOf g := by rw [hg]; exact Nat.div_dvd_of_dvd hd
  have n0 : h / d ≠ 0 := (Nat.div_pos (Nat.le_of_dvd h0 hd) (Nat.pos_of_dvd_of_pos hd h0)).ne'
  rw [orderOf_pow_of_dvd n0 e, hg]
  exact Nat.div_div_self hd h0.ne'

/-- a power is 1 exactly when its exponent is a multiple of the order -/
theorem power_is_one {G : Type*} [Group G] (g : G) (e : ℕ) : g ^ e = 1 ↔ orderOf g ∣ e :=
  (orderOf_dvd_iff_pow_eq_one).symm
