/// without span locations every position is 0
#[verifier::inline]
pub open spec fn step(off: int, n: int) -> int { 0 }
