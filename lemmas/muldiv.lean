/-- the facts about products and quotients of 64-bit numbers used by the contracts with ufarith=1 -/
theorem division_algorithm (x y : Nat) (h : 0 < y) : x / y * y ≤ x ∧ x - x / y * y < y := by
  have a := Nat.div_mul_le_self x y
  have b := Nat.mod_lt x h
  have c := Nat.div_add_mod x y
  rw [Nat.mul_comm] at c
  constructor
  · exact a
  · omega
theorem remainder (x y : Nat) : x % y = x - x / y * y := by
  have c := Nat.div_add_mod x y
  rw [Nat.mul_comm] at c
  omega
theorem quotient_of_multiple (c p : Nat) (h : 0 < p) : c * p / p = c := Nat.mul_div_cancel c h
theorem quotient_of_next_multiple (x p : Nat) (h : 0 < p) : (x / p * p + p) / p = x / p + 1 := by
  rw [Nat.add_div_right _ h, Nat.mul_div_cancel _ h]
theorem next_multiple (q p : Nat) : (q + 1) * p = q * p + p := Nat.succ_mul q p
theorem no_wrap (c p m : Nat) (h : c ≤ m / p) : c * p ≤ m :=
  Nat.le_trans (Nat.mul_le_mul_right p h) (Nat.div_mul_le_self m p)
theorem gcd_of_multiple (a d : Nat) (h : a % d = 0) : Nat.gcd a d = d := Nat.gcd_eq_right (Nat.dvd_of_mod_eq_zero h)
theorem divides_product (n x d : Nat) (h : x % d = 0) : (n * x) % d = 0 := by
  rw [Nat.mul_mod, h]; simp
theorem lcm_is_multiple (a b : Nat) : Nat.lcm a b % a = 0 ∧ Nat.lcm a b % b = 0 :=
  ⟨Nat.mod_eq_zero_of_dvd (Nat.dvd_lcm_left a b), Nat.mod_eq_zero_of_dvd (Nat.dvd_lcm_right a b)⟩
theorem divides_trans (a b c : Nat) (h : b % a = 0) (k : c % b = 0) : c % a = 0 :=
  Nat.mod_eq_zero_of_dvd (Nat.dvd_trans (Nat.dvd_of_mod_eq_zero h) (Nat.dvd_of_mod_eq_zero k))
/-- multiplication mod 2^64 keeps the identity (q+1)*p = q*p + p -/
theorem next_multiple_bv (q p : BitVec 64) : (q + 1#64) * p = q * p + p := by
  rw [BitVec.add_mul]; simp
