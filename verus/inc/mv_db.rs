// ---- assumed: the database and the encoding of blocks ----
pub mod sled {
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 }
    #[verifier::external_body] pub struct Db { d: u8 }
    #[verifier::external_body] pub struct Tree { d: u8 }
    #[verifier::external_body] pub struct IVec { v: u8 }
    impl View for IVec { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl IVec { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() } }
    impl Db {
        /// the contents of the tree of that name
        pub uninterp spec fn tree(&self, name: Seq<char>) -> Map<Seq<u8>, Seq<u8>>;
        /// (opening a tree of an open database is taken not to fail)
        #[verifier::external_body] pub fn open_tree(&self, name: &str) -> (r: Result<Tree, Error>) ensures r matches Ok(t) && t@ == self.tree(name@) { unimplemented!() }
    }
    pub struct Config { pub at: Option<PathBuf>, pub temporary: bool }
    impl Config {
        pub fn new() -> (r: Config) ensures r.at is None, !r.temporary { Config { at: None, temporary: false } }
        pub fn temporary(self, b: bool) -> (r: Config) ensures r.at == self.at, r.temporary == b { Config { at: self.at, temporary: b } }
        pub fn path(self, p: &PathBuf) -> (r: Config) ensures r.at == Some(*p), r.temporary == self.temporary { Config { at: Some(p.clone()), temporary: self.temporary } }
        #[verifier::external_body] pub fn open(self) -> (r: Result<Db, Error>)
            ensures
                self.at matches Some(p) ==> (r matches Ok(d) ==> forall|n: Seq<char>| #[trigger] d.tree(n) == kept_at(p, n)),
                self.at is None && self.temporary ==> (r matches Ok(d) ==> forall|n: Seq<char>| #[trigger] d.tree(n) == Map::<Seq<u8>, Seq<u8>>::empty()),
        { unimplemented!() }
    }
    /// what is in the database at that path
    pub uninterp spec fn kept_at(p: PathBuf, n: Seq<char>) -> Map<Seq<u8>, Seq<u8>>;
    impl View for Tree { type V = Map<Seq<u8>, Seq<u8>>; uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>; }
    impl Tree {
        /// after an error the change may have been made, or not
        #[verifier::external_body] pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) -> (r: Result<Option<IVec>, Error>)
            ensures
                r matches Ok(o) ==> final(self)@ == old(self)@.insert(k@, v@) && (o is Some <==> old(self)@.contains_key(k@)),
                r is Err ==> final(self)@ == old(self)@ || final(self)@ == old(self)@.insert(k@, v@),
        { unimplemented!() }
        #[verifier::external_body] pub fn remove(&mut self, k: Vec<u8>) -> (r: Result<Option<IVec>, Error>)
            ensures
                r matches Ok(o) ==> final(self)@ == old(self)@.remove(k@) && (o is Some <==> old(self)@.contains_key(k@)),
                r is Err ==> final(self)@ == old(self)@ || final(self)@ == old(self)@.remove(k@),
        { unimplemented!() }
        #[verifier::external_body] pub fn clear(&mut self) -> (r: Result<(), Error>)
            ensures r is Ok ==> final(self)@ == Map::<Seq<u8>, Seq<u8>>::empty()
        { unimplemented!() }
        #[verifier::external_body] pub fn iter(&self) -> (r: Iter) ensures r.of() == self@ { unimplemented!() }
    }
    #[verifier::external_body] pub struct Iter { d: u8 }
    impl Iter {
        pub uninterp spec fn of(&self) -> Map<Seq<u8>, Seq<u8>>;
        /// the values, in the byte order of their keys
        #[verifier::external_body] pub fn values(self) -> (r: It<Result<IVec, Error>>)
            ensures exists|ks: Seq<Seq<u8>>| #[trigger] in_key_order(self.of(), ks, r@)
        { unimplemented!() }
    }
    pub open spec fn in_key_order(m: Map<Seq<u8>, Seq<u8>>, ks: Seq<Seq<u8>>, s: Seq<Result<IVec, Error>>) -> bool {
        &&& ks.len() == s.len() && (forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i]))
        &&& (forall|i: int, j: int| 0 <= i < j < ks.len() ==> less(#[trigger] ks[i], #[trigger] ks[j]))
        &&& (forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k)
        &&& forall|i: int| 0 <= i < ks.len() ==> ((#[trigger] s[i]) matches Ok(v) ==> v@ == m[ks[i]])
    }
}
#[verifier::external_body] pub struct PathBuf { p: u8 }
impl PathBuf { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the first difference decides
pub open spec fn less(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] != b[0] { a[0] < b[0] } else { less(a.drop_first(), b.drop_first()) }
}
/// a block's JSON text, read back
pub uninterp spec fn json<V>(v: V) -> Seq<u8>;
pub mod serde_json {
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 }
    #[verifier::external_body] pub fn to_vec<V>(v: &V) -> (r: Result<Vec<u8>, Error>) ensures r matches Ok(b) ==> b@ == json(*v) { unimplemented!() }
    #[verifier::external_body] pub fn from_slice<V>(b: &sled::IVec) -> (r: Result<V, Error>) ensures forall|v: V| #[trigger] json(v) == b@ ==> r == Ok::<V, Error>(v) { unimplemented!() }
}
// the enum of errors, and the conversions its #[from] attributes make
#[allow(inconsistent_fields)]
pub enum MultiverseError { Storage { source: sled::Error }, Encoding { source: serde_json::Error }, NotFound }
impl From<sled::Error> for MultiverseError { fn from(source: sled::Error) -> Self { MultiverseError::Storage { source } } }
impl From<serde_json::Error> for MultiverseError { fn from(source: serde_json::Error) -> Self { MultiverseError::Encoding { source } } }
impl vstd::std_specs::convert::FromSpecImpl<sled::Error> for MultiverseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(source: sled::Error) -> Self { MultiverseError::Storage { source } }
}
impl vstd::std_specs::convert::FromSpecImpl<serde_json::Error> for MultiverseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(source: serde_json::Error) -> Self { MultiverseError::Encoding { source } }
}
/// `?` converts with them
pub broadcast axiom fn from_storage(e: sled::Error, m: MultiverseError) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<MultiverseError, sled::Error>(e, m) ==> m is Storage;
pub broadcast axiom fn from_encoding(e: serde_json::Error, m: MultiverseError) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<MultiverseError, serde_json::Error>(e, m) ==> m is Encoding;
/// identifiers: bytes that tell them apart
pub trait Ident: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    proof fn told_apart(a: Self, b: Self) requires a.bytes() == b.bytes() ensures a == b;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes();
    fn clone(&self) -> (r: Self) ensures r == *self;
}
/// multiverse/src/variant.rs, whose answers are the block's own
pub trait Variant: Sized {
    type Key: Ident;
    spec fn id_of(&self) -> Self::Key;
    spec fn parent_of(&self) -> Self::Key;
    spec fn number_of(&self) -> u64;
    fn id(&self) -> (r: &Self::Key) ensures *r == self.id_of();
    fn parent_id(&self) -> (r: &Self::Key) ensures *r == self.parent_of();
    fn block_number(&self) -> (r: BlockNumber) ensures r.0 == self.number_of();
}
