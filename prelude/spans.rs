verus! {
use core::cmp::Ordering;

// ---- positions in a text, in characters
/// the line (from 1) that character position `off` is on
pub open spec fn line_no(t: Seq<char>, off: int) -> int
    decreases off,
{
    if off <= 0 { 1 } else { line_no(t, off - 1) + if t[off - 1] == '\n' { 1int } else { 0 } }
}
/// characters between the start of that line and `off`
pub open spec fn line_col(t: Seq<char>, off: int) -> int
    decreases off,
{
    if off <= 0 || t[off - 1] == '\n' { 0 } else { line_col(t, off - 1) + 1 }
}
/// where the lines of the first `n` characters start
pub open spec fn line_starts(t: Seq<char>, n: int) -> Seq<int>
    decreases n,
{
    if n <= 0 { seq![0int] } else if t[n - 1] == '\n' { line_starts(t, n - 1).push(n) } else { line_starts(t, n - 1) }
}
pub proof fn lemma_line_starts(t: Seq<char>, off: int, n: int)
    requires 0 <= off <= n,
    ensures
        ({ let v = line_starts(t, n); let k = line_no(t, off);
           1 <= k <= v.len() && v[k - 1] == off - line_col(t, off) && 0 <= line_col(t, off) <= off && v[0] == 0
           && (forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] v[i] <= n)
           && (forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] < #[trigger] v[j])
           && (forall|i: int| k <= i < v.len() ==> off < #[trigger] v[i]) }),
        line_starts(t, n).len() == line_no(t, n),
    decreases n,
{
    if n > 0 {
        if off < n { lemma_line_starts(t, off, n - 1); } else { lemma_line_starts(t, off - 1, n - 1); }
        lemma_line_starts(t, n - 1, n - 1);
    }
}
pub open spec fn ints(v: Seq<usize>) -> Seq<int> { v.map(|i: int, x: usize| x as int) }
pub broadcast proof fn lemma_ints_push(v: Seq<usize>, x: usize)
    ensures #[trigger] ints(v.push(x)) == ints(v).push(x as int),
{ assert(ints(v.push(x)) =~= ints(v).push(x as int)); }

/// characters `a..b` of a text
pub open spec fn part(t: Seq<char>, a: int, b: int) -> Seq<char> { t.subrange(a, b) }
pub proof fn lemma_byte_part(t: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= t.len(),
    ensures blen(t.take(a)) <= blen(t.take(b)), bdry(t, blen(t.take(a))), bdry(t, blen(t.take(b))),
        rest_at(take_b(t, blen(t.take(b))), blen(t.take(a))) == part(t, a, b),
        blen(t.take(b)) == blen(t.take(a)) + blen(part(t, a, b)), blen(t.take(b)) <= blen(t),
{
    lemma_at_skip(t, a);
    lemma_at_skip(t, b);
    lemma_at_rest(t, t.skip(a), blen(t.take(a)));
    lemma_at_rest(t, t.skip(b), blen(t.take(b)));
    let u = t.take(b);
    assert(take_b(t, blen(u)) =~= u);
    lemma_at_skip(u, a);
    assert(u.take(a) =~= t.take(a));
    lemma_at_rest(u, u.skip(a), blen(t.take(a)));
    assert(u.skip(a) =~= part(t, a, b));
    lemma_blen_nonneg(u.skip(a));
    lemma_blen_nonneg(t.skip(b));
}

/// byte position of character `k`
pub proof fn lemma_pos(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(),
    ensures at(t, t.skip(k), blen(t.take(k))), rest_at(t, blen(t.take(k))) == t.skip(k), take_b(t, blen(t.take(k))) == t.take(k), 0 <= blen(t.take(k)) <= blen(t),
        k == 0 ==> blen(t.take(k)) == 0, k == t.len() ==> blen(t.take(k)) == blen(t),
{
    lemma_byte_part(t, k, k);
    lemma_at_skip(t, k);
    lemma_at_rest(t, t.skip(k), blen(t.take(k)));
    assert(take_b(t, blen(t.take(k))) =~= t.take(k));
    lemma_blen_nonneg(t.take(k));
    if k == t.len() { assert(t.take(k) =~= t); }
}
/// the same, without the `at` that would start lemma_at_take again
pub broadcast proof fn lemma_pos_b(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(),
    ensures bdry(t, #[trigger] blen(t.take(k))), rest_at(t, blen(t.take(k))) == t.skip(k), take_b(t, blen(t.take(k))) == t.take(k), 0 <= blen(t.take(k)) <= blen(t),
        k == 0 ==> blen(t.take(k)) == 0, k == t.len() ==> blen(t.take(k)) == blen(t),
{
    lemma_pos(t, k);

}
pub broadcast proof fn lemma_skip_take(t: Seq<char>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= t.len(),
    ensures blen(t.take(a)) + blen(#[trigger] t.skip(a).take(b)) == blen(t.take(a + b)),
{
    lemma_byte_part(t, a, a + b);
    assert(part(t, a, a + b) =~= t.skip(a).take(b));
}
pub broadcast proof fn lemma_at_take(t: Seq<char>, r: Seq<char>, p: int)
    requires #[trigger] at(t, r, p),
    ensures p == blen(t.take(t.len() - r.len())),
{
    reveal(at); reveal(sfx);
    lemma_at_skip(t, t.len() - r.len());
    lemma_at_rest(t, t.skip(t.len() - r.len()), blen(t.take(t.len() - r.len())));
}
pub broadcast proof fn lemma_take_take(t: Seq<char>, a: int, b: int)
    requires 0 <= b <= a <= t.len(),
    ensures #[trigger] t.take(a).take(b) == t.take(b),
{ assert(t.take(a).take(b) =~= t.take(b)); }
pub broadcast axiom fn axiom_string_len(s: &String)
    ensures #[trigger] blen(s@) <= isize::MAX;
pub broadcast group vx_pos { axiom_string_len, lemma_pos_b, lemma_skip_take, lemma_at_take, lemma_take_take }

// ---- BTreeMap<usize, usize>
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VMap<K, V> { m: alloc::collections::BTreeMap<K, V> }
#[verifier::external_body]
pub struct VMapRange<'a> { it: alloc::collections::btree_map::Range<'a, usize, usize> }
impl<K, V> View for VMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl VMap<usize, usize> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<usize, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_range_upto<'a>(&'a self, k: usize) -> (r: VMapRange<'a>)
        ensures forall|x: usize| #![trigger r.m().contains_key(x)] #![trigger self@.contains_key(x)] r.m().contains_key(x) == (self@.contains_key(x) && x <= k), forall|x: usize| r.m().contains_key(x) ==> #[trigger] r.m()[x] == self@[x],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_range_from<'a>(&'a self, k: usize) -> (r: VMapRange<'a>)
        ensures forall|x: usize| #![trigger r.m().contains_key(x)] #![trigger self@.contains_key(x)] r.m().contains_key(x) == (self@.contains_key(x) && x >= k), forall|x: usize| r.m().contains_key(x) ==> #[trigger] r.m()[x] == self@[x],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_insert(&mut self, k: usize, v: usize) -> (r: Option<usize>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl<'a> VMapRange<'a> {
    pub uninterp spec fn m(&self) -> Map<usize, usize>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a usize, &'a usize)>)
        ensures match r {
            None => forall|x: usize| !old(self).m().contains_key(x),
            Some((k, v)) => old(self).m().contains_key(*k) && old(self).m()[*k] == *v && (forall|x: usize| #[trigger] old(self).m().contains_key(x) ==> *k <= x),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_next_back(&mut self) -> (r: Option<(&'a usize, &'a usize)>)
        ensures match r {
            None => forall|x: usize| !old(self).m().contains_key(x),
            Some((k, v)) => old(self).m().contains_key(*k) && old(self).m()[*k] == *v && (forall|x: usize| #[trigger] old(self).m().contains_key(x) ==> x <= *k),
        },
    { unimplemented!() }
}

// ---- slices
pub open spec fn ord_no(o: Ordering) -> int { match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 } }
pub trait VSearch<T> {
    spec fn wv(&self) -> Seq<T>;
    /// the answer is only meaningful when the predicate orders the slice
    fn v_binary_search_by<F: Fn(&T) -> Ordering>(&self, f: F) -> (r: Result<usize, usize>)
        requires
            forall|i: int| #![auto] 0 <= i < self.wv().len() ==> f.requires((&self.wv()[i],)),
            forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i <= j < self.wv().len() && #[trigger] f.ensures((&self.wv()[i],), a) && #[trigger] f.ensures((&self.wv()[j],), b) ==> ord_no(a) <= ord_no(b),
        ensures match r {
            Ok(i) => i < self.wv().len() && f.ensures((&self.wv()[i as int],), Ordering::Equal),
            Err(i) => i <= self.wv().len()
                && (forall|j: int| #![auto] 0 <= j < i ==> f.ensures((&self.wv()[j],), Ordering::Less))
                && (forall|j: int| #![auto] i <= j < self.wv().len() ==> f.ensures((&self.wv()[j],), Ordering::Greater)),
        };
}
impl<T> VSearch<T> for Vec<T> {
    open spec fn wv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_binary_search_by<F: Fn(&T) -> Ordering>(&self, f: F) -> Result<usize, usize> { self.binary_search_by(f) }
}
pub trait VSearchU {
    spec fn uv(&self) -> Seq<usize>;
    fn v_binary_search(&self, x: &usize) -> (r: Result<usize, usize>)
        requires forall|i: int, j: int| 0 <= i < j < self.uv().len() ==> #[trigger] self.uv()[i] <= #[trigger] self.uv()[j],
        ensures match r {
            Ok(i) => i < self.uv().len() <= isize::MAX && self.uv()[i as int] == *x,
            Err(i) => i <= self.uv().len() && (forall|j: int| 0 <= j < i ==> #[trigger] self.uv()[j] < *x) && (forall|j: int| i <= j < self.uv().len() ==> #[trigger] self.uv()[j] > *x),
        };
}
impl VSearchU for Vec<usize> {
    open spec fn uv(&self) -> Seq<usize> { self@ }
    #[verifier::external_body] fn v_binary_search(&self, x: &usize) -> Result<usize, usize> { self.binary_search(x) }
}
pub trait VTrunc<T> {
    spec fn xv(&self) -> Seq<T>;
    fn v_truncate(&mut self, n: usize) ensures final(self).xv() == (if n <= old(self).xv().len() { old(self).xv().take(n as int) } else { old(self).xv() });
}
impl<T> VTrunc<T> for Vec<T> {
    open spec fn xv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_truncate(&mut self, n: usize) { self.truncate(n) }
}

// ---- integers
pub trait VNum: Sized + Copy { spec fn nv(self) -> int; }
impl VNum for u8 { open spec fn nv(self) -> int { self as int } }
impl VNum for u16 { open spec fn nv(self) -> int { self as int } }
impl VNum for u32 { open spec fn nv(self) -> int { self as int } }
impl VNum for u64 { open spec fn nv(self) -> int { self as int } }
impl VNum for usize { open spec fn nv(self) -> int { self as int } }
impl VNum for i32 { open spec fn nv(self) -> int { self as int } }
#[verifier::external_body]
pub fn v_min<T: VNum>(a: T, b: T) -> (r: T) ensures r == if a.nv() <= b.nv() { a } else { b } { unimplemented!() }
#[verifier::external_body]
pub fn v_max<T: VNum>(a: T, b: T) -> (r: T) ensures r == if a.nv() <= b.nv() { b } else { a } { unimplemented!() }
#[verifier::external_body]
pub fn v_u32_try_from(a: usize) -> (r: Result<u32, ()>) ensures match r { Ok(x) => x == a, Err(_) => a > u32::MAX } { unimplemented!() }
/// RangeBounds<usize>: what its two methods answer
#[verifier::external_body]
pub struct VBounds { a: core::ops::Bound<usize> }
pub use core::ops::Bound;
impl VBounds {
    pub uninterp spec fn from(&self) -> Bound<usize>;
    pub uninterp spec fn to(&self) -> Bound<usize>;
    #[verifier::external_body]
    pub fn v_start_bound(&self) -> (r: Bound<&usize>) ensures match r { Bound::Included(x) => self.from() == Bound::Included(*x), Bound::Excluded(x) => self.from() == Bound::Excluded(*x), Bound::Unbounded => self.from() == Bound::<usize>::Unbounded } { unimplemented!() }
    #[verifier::external_body]
    pub fn v_end_bound(&self) -> (r: Bound<&usize>) ensures match r { Bound::Included(x) => self.to() == Bound::Included(*x), Bound::Excluded(x) => self.to() == Bound::Excluded(*x), Bound::Unbounded => self.to() == Bound::<usize>::Unbounded } { unimplemented!() }
}
/// std::cell::RefCell as an initialiser makes it
pub struct RefCell<T> { pub v: T }
impl<T> RefCell<T> { pub fn new(v: T) -> (r: Self) ensures r.v == v { RefCell { v } } }

// ---- decimal numbers
pub open spec fn digit(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
pub open spec fn dec(n: int) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
pub assume_specification [core::cmp::Ordering::then] (a: core::cmp::Ordering, b: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == if a == core::cmp::Ordering::Equal { b } else { a };
} // verus!
