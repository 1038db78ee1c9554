// ---- assumed: the operating system's files and memory maps --------------------------------------
pub mod io {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error { e: u8 }
}
#[verifier::external_body]
pub struct PathBuf { p: u8 }
/// the bytes of the file at that path, when it is opened (none when there is no file yet)
pub uninterp spec fn disk(p: PathBuf) -> Seq<u8>;
/// a file's length is a 64-bit number
pub broadcast axiom fn disk_size(p: PathBuf) ensures #[trigger] disk(p).len() <= u64::MAX;
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn joined_path(p: PathBuf, name: Seq<char>) -> PathBuf;
impl PathBuf {
    #[verifier::external_body]
    pub fn join(&self, name: &str) -> (r: PathBuf) ensures r == joined_path(*self, name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> bool { unimplemented!() }
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { self.clone() }
}
#[verifier::external_body]
pub fn create_dir(p: &PathBuf) -> Result<(), io::Error> { unimplemented!() }
/// an open file: its bytes, and whether it was opened for writing
#[verifier::external_body]
pub struct File { f: u8 }
pub uninterp spec fn can_write(f: File) -> bool;
impl View for File { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub struct Metadata { pub n: u64 }
impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.n { self.n } }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// the bytes after the length of a file was set
pub open spec fn resized(s: Seq<u8>, n: int) -> Seq<u8> { if n <= s.len() { s.take(n) } else { s + zeros(n - s.len()) } }
impl File {
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Result<Metadata, io::Error>) ensures r matches Ok(m) ==> m.n == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(&mut self, n: u64) -> (r: Result<(), io::Error>)
        ensures
            can_write(*final(self)) == can_write(*old(self)),
            r is Ok ==> final(self)@ == resized(old(self)@, n as int),
            r is Err ==> *final(self) == *old(self),
            !can_write(*old(self)) ==> r is Err,
    { unimplemented!() }
}
pub struct OpenOptions { pub r: bool, pub w: bool, pub c: bool }
impl OpenOptions {
    pub fn new() -> (r: Self) ensures r == (OpenOptions { r: false, w: false, c: false }) { OpenOptions { r: false, w: false, c: false } }
    #[verifier::external_body]
    pub fn read(&mut self, b: bool) -> (r: &mut Self) ensures *r == (OpenOptions { r: b, ..*old(self) }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, b: bool) -> (r: &mut Self) ensures *r == (OpenOptions { w: b, ..*old(self) }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn create(&mut self, b: bool) -> (r: &mut Self) ensures *r == (OpenOptions { c: b, ..*old(self) }), *final(self) == *final(r) { unimplemented!() }
    /// opening does not change what is in the file
    #[verifier::external_body]
    pub fn open(&self, p: &PathBuf) -> (r: Result<File, io::Error>)
        ensures r matches Ok(f) ==> f@ == disk(*p) && can_write(f) == self.w && self.r
    { unimplemented!() }
}
/// a map's options: reading past the end of the file through a map is not allowed (it is a fault), so
/// that the map lies inside the file is an obligation
pub struct MmapOptions { pub n: usize, pub at: u64 }
/// a writable map: its bytes, where in its file it lies, and whether it has one
#[verifier::external_body]
pub struct MmapMut { m: u8 }
pub uninterp spec fn map_at(m: MmapMut) -> int;
pub uninterp spec fn map_backed(m: MmapMut) -> bool;
impl View for MmapMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl MmapOptions {
    pub fn new() -> (r: Self) ensures r == (MmapOptions { n: 0, at: 0 }) { MmapOptions { n: 0, at: 0 } }
    pub fn len(self, n: usize) -> (r: Self) ensures r == (MmapOptions { n, at: self.at }) { MmapOptions { n, at: self.at } }
    pub fn offset(self, at: u64) -> (r: Self) ensures r == (MmapOptions { n: self.n, at }) { MmapOptions { n: self.n, at } }
    #[verifier::external_body]
    pub fn map(self, f: &File) -> (r: Result<Mmap, io::Error>)
        requires self.n > 0, self.at + self.n <= f@.len()
        ensures r matches Ok(m) ==> m@ == f@.subrange(self.at as int, self.at + self.n)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map_mut(self, f: &File) -> (r: Result<MmapMut, io::Error>)
        requires self.n > 0, self.at + self.n <= f@.len()
        ensures
            r matches Ok(m) ==> m@ == f@.subrange(self.at as int, self.at + self.n) && map_at(m) == self.at && map_backed(m),
            !can_write(*f) ==> r is Err,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map_anon(self) -> (r: Result<MmapMut, io::Error>)
        requires self.n > 0
        ensures r matches Ok(m) ==> m@ == zeros(self.n as int) && !map_backed(m)
    { unimplemented!() }
}
pub open spec fn overlaid(f: Seq<u8>, at: int, m: Seq<u8>) -> Seq<u8> { f.take(at) + m + f.skip(at + m.len()) }
impl MmapMut {
    #[verifier::external_body]
    pub fn as_mut(&mut self) -> (r: &mut [u8])
        ensures r@ == old(self)@, final(self)@ == final(r)@, final(r)@.len() == r@.len(),
            map_at(*final(self)) == map_at(*old(self)), map_backed(*final(self)) == map_backed(*old(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn make_read_only(self) -> (r: Result<Mmap, io::Error>) ensures r matches Ok(m) ==> m@ == self@ { unimplemented!() }
    /// what was written through the map is in its file (that the file still reaches to the map's end is an obligation)
    #[verifier::external_body]
    pub fn flush(&self, file: &mut Option<File>) -> (r: Result<(), io::Error>)
        requires map_backed(*self) ==> (*old(file) matches Some(f) && 0 <= map_at(*self) && map_at(*self) + self@.len() <= f@.len())
        ensures
            *old(file) is None ==> *final(file) is None,
            *old(file) matches Some(f) ==> {
                &&& *final(file) matches Some(g)
                &&& can_write(f) == can_write(g)
                &&& g@ == (if map_backed(*self) { overlaid(f@, map_at(*self), self@) } else { f@ })
            },
    { unimplemented!() }
}
// ---- assumed: std -------------------------------------------------------------------------------
pub use core::mem::swap;
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@;
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { None => Ok::<Option<T>, E>(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub assume_specification<T, E>[ Result::<Option<T>, E>::transpose ](o: Result<Option<T>, E>) -> (r: Option<Result<T, E>>)
    ensures r == (match o { Ok(None) => None, Ok(Some(x)) => Some(Ok::<T, E>(x)), Err(e) => Some(Err(e)) });
impl RangeBounds<usize> for core::ops::Range<usize> {
    open spec fn lo(&self) -> Bound<usize> { Included(self.start) }
    open spec fn hi(&self) -> Bound<usize> { Excluded(self.end) }
    #[verifier::external_body] fn start_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
    #[verifier::external_body] fn end_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
}
impl RangeBounds<usize> for core::ops::RangeTo<usize> {
    open spec fn lo(&self) -> Bound<usize> { Unbounded }
    open spec fn hi(&self) -> Bound<usize> { Excluded(self.end) }
    #[verifier::external_body] fn start_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
    #[verifier::external_body] fn end_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
}
/// a number's eight little-endian bytes, read back
pub uninterp spec fn of_le(b: Seq<u8>) -> usize;
pub mod le {
    use super::*;
    pub broadcast axiom fn zero(b: Seq<u8>)
        requires b == zeros(8)
        ensures #[trigger] of_le(b) == 0;
    pub broadcast axiom fn back(x: usize)
        ensures (#[trigger] le_of(x)).len() == 8, of_le(le_of(x)) == x;
}
pub uninterp spec fn le_of(x: usize) -> Seq<u8>;
/// copy_from_slice into an array
#[verifier::external_body]
pub fn fill<const N: usize>(a: &mut [u8; N], s: &[u8])
    requires s@.len() == N
    ensures final(a)@ == s@
{ a.copy_from_slice(s) }
/// copy_from_slice of an array
#[verifier::external_body]
pub fn put(s: &mut [u8], a: [u8; 8])
    requires old(s)@.len() == 8
    ensures final(s)@ == a@
{ s.copy_from_slice(&a) }
/// usize::to_le_bytes, from_le_bytes
#[verifier::external_body]
pub fn to_le(x: usize) -> (r: [u8; 8]) ensures r@ == le_of(x) { unimplemented!() }
#[verifier::external_body]
pub fn from_le(b: [u8; 8]) -> (r: usize) ensures r == of_le(b@) { unimplemented!() }
/// `&mut s[n..]`
#[verifier::external_body]
pub fn tail_mut<'a>(s: &'a mut [u8], n: usize) -> (r: &'a mut [u8])
    requires n <= old(s)@.len()
    ensures r@ == old(s)@.skip(n as int), final(r)@.len() == r@.len(), final(s)@ == old(s)@.take(n as int) + final(r)@
{ &mut s[n..] }
/// `s[a..b]`, to be written
#[verifier::external_body]
pub fn part_mut<'a>(s: &'a mut [u8], a: usize, b: usize) -> (r: &'a mut [u8])
    requires a <= b <= old(s)@.len()
    ensures r@ == old(s)@.subrange(a as int, b as int), final(r)@.len() == r@.len(), final(s)@ == old(s)@.take(a as int) + final(r)@ + old(s)@.skip(b as int)
{ &mut s[a..b] }
