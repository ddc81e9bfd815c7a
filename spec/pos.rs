/// `n` characters on
#[verifier::inline]
pub open spec fn step(off: int, n: int) -> int { off + n }
