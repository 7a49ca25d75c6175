/-- the facts about the greatest common divisor assumed by contracts/math.cpp -/
theorem gcd_pow_two_factor (s U V : Nat) : Nat.gcd (2^s*U) (2^s*V) = 2^s * Nat.gcd U V := Nat.gcd_mul_left ..
theorem gcd_drop_twos (k u w : Nat) (h : u % 2 = 1) : Nat.gcd u (2^k*w) = Nat.gcd u w := by
  have c : Nat.Coprime u (2^k) := by
    apply Nat.Coprime.pow_right
    rw [Nat.coprime_comm]
    unfold Nat.Coprime
    have : Nat.gcd 2 u ∣ 2 := Nat.gcd_dvd_left ..
    have d : Nat.gcd 2 u ∣ u := Nat.gcd_dvd_right ..
    have le : Nat.gcd 2 u ≤ 2 := Nat.le_of_dvd (by decide) this
    rcases h2 : Nat.gcd 2 u with _ | _ | _ | n
    · rw [h2] at this; simp at this
    · rfl
    · rw [h2] at d; omega
    · omega
  exact Nat.Coprime.gcd_mul_left_cancel_right w c.symm
theorem gcd_swap (u v : Nat) : Nat.gcd u v = Nat.gcd v u := Nat.gcd_comm ..
theorem gcd_sub_self (lo hi : Nat) (h : lo ≤ hi) : Nat.gcd lo (hi - lo) = Nat.gcd lo hi := by
  conv => rhs; rw [← Nat.sub_add_cancel h]
  simp
theorem gcd_zero (u : Nat) : Nat.gcd u 0 = u := Nat.gcd_zero_right u
