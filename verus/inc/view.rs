// ---- assumed: std's ranges ---------------------------------------------------------------------
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
pub use Bound::*;
/// a range of positions, given by its two bounds
pub trait RangeBounds<T> {
    spec fn lo(&self) -> Bound<T>;
    spec fn hi(&self) -> Bound<T>;
    fn start_bound(&self) -> (r: Bound<&T>)
        ensures (match r { Included(x) => self.lo() == Included(*x), Excluded(x) => self.lo() == Excluded(*x), Unbounded => self.lo() == Unbounded::<T> });
    fn end_bound(&self) -> (r: Bound<&T>)
        ensures (match r { Included(x) => self.hi() == Included(*x), Excluded(x) => self.hi() == Excluded(*x), Unbounded => self.hi() == Unbounded::<T> });
}
/// is position i in the range?
pub open spec fn contains<B: RangeBounds<usize>>(b: B, i: int) -> bool {
    (match b.lo() { Included(s) => s <= i, Excluded(s) => s < i, Unbounded => true })
    && (match b.hi() { Included(e) => i <= e, Excluded(e) => i < e, Unbounded => true })
}

// ---- assumed: a read-only memory map, and pointers into it --------------------------------------
#[verifier::external_body]
pub struct Mmap { m: Vec<u8> }
impl View for Mmap { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// a pointer into an allocation: the allocation's bytes (shared, never written) and a position in it
#[verifier::external_body]
pub struct Ptr { p: *const u8 }
pub uninterp spec fn mem(p: Ptr) -> Seq<u8>;
pub uninterp spec fn pos(p: Ptr) -> int;
impl Copy for Ptr {}
impl Clone for Ptr {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Mmap {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: Ptr) ensures mem(r) == self@, pos(r) == 0 { unimplemented!() }
}
impl Ptr {
    /// stays inside the allocation (the safety condition of pointer::add is an obligation)
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: Ptr)
        requires 0 <= pos(self), pos(self) + n <= mem(self).len()
        ensures mem(r) == mem(self), pos(r) == pos(self) + n
    { unimplemented!() }
}
pub mod slice {
    use super::*;
    /// the safety condition of slice::from_raw_parts is an obligation
    #[verifier::external_body]
    pub fn from_raw_parts<'a>(p: Ptr, len: usize) -> (r: &'a [u8])
        requires 0 <= pos(p), pos(p) + len <= mem(p).len()
        ensures r@ == mem(p).subrange(pos(p), pos(p) + len)
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arc<T> { t: T }
pub uninterp spec fn held<T>(a: Arc<T>) -> T;
impl<T> Arc<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Arc<T>) ensures held(r) == t { unimplemented!() }
}
impl<T> Clone for Arc<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub mod std { pub mod cmp {
    use vstd::prelude::*;
    pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
    pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
}}

//@rules ptr
* const u8 => Ptr
unsafe { $x } => { $x }
//@end

//@item fraos/src/shared_mmap.rs | struct | SharedMmap
//@rewrite mmap : => pub mmap:
//@rewrite len : => pub len:
//@rewrite slice : * const u8 => pub slice: Ptr
//@end
impl Clone for SharedMmap {
    // derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl SharedMmap {
    /// the view is a part of the map it keeps alive
    pub open spec fn inv(self) -> bool {
        &&& mem(self.slice) == held(self.mmap)@
        &&& 0 <= pos(self.slice)
        &&& pos(self.slice) + self.len <= mem(self.slice).len()
    }
    /// the bytes of the view
    pub open spec fn bytes(self) -> Seq<u8> { mem(self.slice).subrange(pos(self.slice), pos(self.slice) + self.len) }
}
/// the first position of the range, and the one after its last, as far as there are bytes
pub open spec fn first<B: RangeBounds<usize>>(b: B, n: int) -> int {
    let s = match b.lo() { Included(s) => s as int, Excluded(s) => s + 1, Unbounded => 0 };
    if s <= n { s } else { n }
}
pub open spec fn after<B: RangeBounds<usize>>(b: B, n: int) -> int {
    let e = match b.hi() { Included(e) => e + 1, Excluded(e) => e as int, Unbounded => n };
    let e = if e <= n { e } else { n };
    if first(b, n) <= e { e } else { first(b, n) }
}
/// `sub` is exactly the part of `whole` at the positions in the range, in order
pub open spec fn exactly<B: RangeBounds<usize>>(sub: Seq<u8>, whole: Seq<u8>, b: B) -> bool {
    sub =~= whole.subrange(first(b, whole.len() as int), after(b, whole.len() as int))
}
/// those are the positions in the range, and no others are
pub proof fn exactly_the_range<B: RangeBounds<usize>>(b: B, n: int, i: int)
    requires 0 <= i < n
    ensures contains(b, i) <==> first(b, n) <= i < after(b, n), 0 <= first(b, n) <= after(b, n) <= n
{}
impl SharedMmap {
    //@fn fraos/src/shared_mmap.rs | impl SharedMmap | new
    //@spec
        ensures r.inv(), r.bytes() == mmap@
    //@end
    //@fn fraos/src/shared_mmap.rs | impl SharedMmap | len
    //@spec
        ensures r == self.len, self.inv() ==> r == self.bytes().len()
    //@end
    //@fn fraos/src/shared_mmap.rs | impl SharedMmap | is_empty
    //@spec
        ensures r == (self.len == 0), self.inv() ==> r == (self.bytes().len() == 0)
    //@end
    //@fn fraos/src/shared_mmap.rs | impl SharedMmap | slice
    //@use ptr
    //@sig pub fn slice ( & self , bounds : impl RangeBounds < usize > ) => pub fn slice<RB: RangeBounds<usize>>(&self, bounds: RB)
    //@spec
        requires self.inv()
        ensures r.inv(), r.mmap == self.mmap, exactly(r.bytes(), self.bytes(), bounds)
    //@end
    //@fn fraos/src/shared_mmap.rs | impl SharedMmap | get_ref
    //@use ptr
    //@spec
        requires self.inv()
        ensures r@ == self.bytes()
    //@end
    //@fn fraos/src/shared_mmap.rs | impl AsRef<[u8]> for SharedMmap | as_ref
    //@spec
        requires self.inv()
        ensures r@ == self.bytes()
    //@end
}
