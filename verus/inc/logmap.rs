// ---- assumed: the encodings ------------------------------------------------------------------------
pub use anyhow::Result as Res;
pub trait Serialize: Sized {}
pub trait DeserializeOwned: Sized {}
/// a value's CBOR encoding: not empty, and read back as the value
pub uninterp spec fn enc<T>(t: T) -> Seq<u8>;
pub broadcast axiom fn enc_some<T>(t: T) ensures #[trigger] enc(t).len() > 0;
pub mod ciborium {
    use super::*;
    /// an encoding is written, or there is an error (and nothing is said about what was written)
    #[verifier::external_body]
    pub fn into_writer<T>(t: &T, to: &mut Vec<u8>) -> (r: anyhow::Result<()>)
        ensures r is Ok ==> final(to)@ == old(to)@ + enc(*t)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_reader<T>(b: &[u8]) -> (r: anyhow::Result<T>)
        ensures forall|t: T| #[trigger] enc(t) == b@ ==> r == Ok::<T, anyhow::Error>(t)
    { unimplemented!() }
}
/// a number's JSON text, read back
pub uninterp spec fn json(n: usize) -> Seq<u8>;
pub mod serde_json {
    use super::*;
    #[verifier::external_body]
    pub fn to_vec(n: &usize) -> (r: anyhow::Result<Vec<u8>>) ensures r matches Ok(v) ==> v@ == json(*n) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice(b: &sled::IVec) -> (r: anyhow::Result<usize>) ensures forall|n: usize| #[trigger] json(n) == b@ ==> r == Ok::<usize, anyhow::Error>(n) { unimplemented!() }
}
/// assumed: the key index's database is a map from bytes to bytes
pub mod sled {
    use super::*;
    #[verifier::external_body]
    pub struct Db { d: u8 }
    #[verifier::external_body]
    pub struct IVec { v: u8 }
    impl View for Db { type V = Map<Seq<u8>, Seq<u8>>; uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>; }
    impl View for IVec { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    /// what is in the database at that path, when it is opened
    pub uninterp spec fn kept_at(p: PathBuf) -> Map<Seq<u8>, Seq<u8>>;
    impl Db {
        #[verifier::external_body]
        pub fn insert(&mut self, k: &[u8], v: Vec<u8>) -> (r: anyhow::Result<Option<IVec>>)
            ensures r is Ok ==> final(self)@ == old(self)@.insert(k@, v@), r is Err ==> final(self)@ == old(self)@
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get(&self, k: Vec<u8>) -> (r: anyhow::Result<Option<IVec>>)
            ensures
                r matches Ok(Some(v)) ==> self@.contains_key(k@) && self@[k@] == v@,
                r matches Ok(None) ==> !self@.contains_key(k@),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == forall|k: Seq<u8>| !self@.contains_key(k) { unimplemented!() }
    }
    pub enum Mode { HighThroughput, LowSpace }
    pub struct Config { pub at: Option<PathBuf>, pub temporary: bool }
    impl Config {
        pub fn default() -> (r: Config) ensures r.at is None { Config { at: None, temporary: false } }
        pub fn new() -> (r: Config) ensures r.at is None { Config { at: None, temporary: false } }
        pub fn temporary(self, b: bool) -> (r: Config) ensures r.at == self.at, r.temporary == b { Config { at: self.at, temporary: b } }
        pub fn path(self, p: PathBuf) -> (r: Config) ensures r.at == Some(p), r.temporary == self.temporary { Config { at: Some(p), temporary: self.temporary } }
        pub fn mode(self, m: Mode) -> (r: Config) ensures r == self { self }
        #[verifier::external_body]
        pub fn open(self) -> (r: anyhow::Result<Db>)
            ensures
                r matches Ok(d) ==> (self.at matches Some(p) ==> d@ == kept_at(p)),
                r matches Ok(d) ==> (self.at is None && self.temporary ==> d@ == Map::<Seq<u8>, Seq<u8>>::empty()),
        { unimplemented!() }
    }
}
impl From<FraosError> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: FraosError) -> anyhow::Error { unimplemented!() }
}
/// std's Map: an iterator's items, through a function
pub struct Mapped<F> { pub it: SeqNoIter, pub f: F }
impl<V, F: Fn(Result<Vec<u8>, FraosError>) -> anyhow::Result<V>> Mapped<F> {
    pub fn next(&mut self) -> (r: Option<anyhow::Result<V>>)
        requires decodes::<V, F>(*old(self))
        ensures
            decodes::<V, F>(*final(self)), final(self).f == old(self).f, final(self).it.records() == old(self).it.records(),
            old(self).it.seqno >= old(self).it.records().len() ==> r is None && final(self).it.seqno == old(self).it.seqno,
            old(self).it.seqno < old(self).it.records().len() ==> {
                &&& final(self).it.seqno == old(self).it.seqno + 1
                &&& forall|v: V| #[trigger] enc(v) == old(self).it.records()[old(self).it.seqno as int] ==> r == Some(Ok::<V, anyhow::Error>(v))
            },
    { match self.it.next() { Some(x) => Some((self.f)(x)), None => None } }
}
/// the function decodes records
pub open spec fn decodes<V, F: Fn(Result<Vec<u8>, FraosError>) -> anyhow::Result<V>>(m: Mapped<F>) -> bool {
    &&& m.it.wf()
    &&& forall|x: Result<Vec<u8>, FraosError>| #[trigger] m.f.requires((x,))
    &&& forall|x: Result<Vec<u8>, FraosError>, y: anyhow::Result<V>| #[trigger] m.f.ensures((x,), y) && x is Ok ==> forall|v: V| #[trigger] enc(v) == x->Ok_0@ ==> y == Ok::<V, anyhow::Error>(v)
}
//@rules logmap
. context ( $x ) =>
anyhow ! ( $x* ) => anyhow::error()
ciborium :: ser :: into_writer => ciborium::into_writer
ciborium :: de :: from_reader => ciborium::from_reader
bail ! ( $x* ) => return Err(anyhow::error())
$i! . map ( | $p | -> Result < Value > { $x~ } ) => Mapped { it: $i, f: |$p: Result<Vec<u8>, FraosError>| -> (y: anyhow::Result<Value>) ensures $p is Ok ==> forall|v: Value| #[trigger] enc(v) == $p->Ok_0@ ==> y == Ok::<Value, anyhow::Error>(v) { $x } }
deps :: serde_json => serde_json
fraos :: Database => Database
. as_ref ( ) . unwrap ( ) . insert => .as_mut().unwrap().insert
//@end
// ---- the log map ------------------------------------------------------------------------------------
//@item indexed-log-map/src/config.rs | struct | IndexedLogMapConfig
//@end
//@item indexed-log-map/src/storage.rs | struct | IndexedLogMap
//@rewrite storage : fraos :: Database => pub storage: Database
//@rewrite key_to_seqno : => pub key_to_seqno:
//@rewrite phantom_data : => pub phantom_data:
//@end
/// the position of the last insertion under a key (keys are their encodings), if there is one
pub open spec fn latest<K, V>(h: Seq<(K, V)>, k: Seq<u8>) -> Option<usize>
    decreases h.len()
{ if h.len() == 0 { None } else if enc(h.last().0) == k { Some((h.len() - 1) as usize) } else { latest(h.drop_last(), k) } }
pub proof fn lemma_latest<K, V>(h: Seq<(K, V)>, k: Seq<u8>)
    requires h.len() <= usize::MAX
    ensures
        latest(h, k) matches Some(i) ==> i < h.len() && enc(h[i as int].0) == k && forall|j: int| i < j < h.len() ==> enc((#[trigger] h[j]).0) != k,
        latest(h, k) is None ==> forall|j: int| 0 <= j < h.len() ==> enc((#[trigger] h[j]).0) != k,
    decreases h.len()
{ if h.len() > 0 { lemma_latest(h.drop_last(), k); assert forall|j: int| 0 <= j < h.len() - 1 implies h[j] == h.drop_last()[j] by {} } }
pub open spec fn values<K, V>(h: Seq<(K, V)>) -> Seq<Seq<u8>> { Seq::new(h.len(), |i: int| enc(h[i].1)) }
/// the index has each key's last position, and no other keys
pub open spec fn positions<K, V>(x: Map<Seq<u8>, Seq<u8>>, h: Seq<(K, V)>) -> bool {
    forall|k: Seq<u8>| #![trigger x.contains_key(k)] #![trigger latest(h, k)] x.contains_key(k) == latest(h, k) is Some && (x.contains_key(k) ==> x[k] == json(latest(h, k)->0))
}
impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned> IndexedLogMap<Key, Value> {
    /// what was inserted, in order
    pub open spec fn holds(self, h: Seq<(Key, Value)>) -> bool {
        &&& self.storage.wf()
        &&& self.storage.records() == values(h)
        &&& self.key_to_seqno matches Some(db) ==> positions(db@, h)
    }
    /// what was inserted is in its files at all times: opened again, the map holds the same (new's contract)
    pub proof fn lemma_durable(self, h: Seq<(Key, Value)>)
        requires self.holds(h), self.storage.flatfile.file() is Some
        ensures stored(self.storage.seqno_index.file()->0@, self.storage.flatfile.file()->0@, values(h)), self.key_to_seqno matches Some(db) ==> positions(db@, h)
    { self.storage.lemma_on_disk(); }
    pub proof fn lemma_reads(self)
        ensures
            forall|h: Seq<(Key, Value)>| #[trigger] self.holds(h) ==> h.len() <= usize::MAX
                && (forall|i: int| 0 <= i < h.len() ==> #[trigger] self.storage.records()[i] == enc(h[i].1))
                && (forall|x: Seq<u8>| #![trigger latest(h, x)] latest(h, x) is Some ==> latest(h, x)->0 < h.len() && enc(h[latest(h, x)->0 as int].0) == x && self.storage.records()[latest(h, x)->0 as int] == enc(h[latest(h, x)->0 as int].1))
                && (h.len() > 0 ==> latest(h, enc(h.last().0)) is Some)
    {
        assert forall|h: Seq<(Key, Value)>| #[trigger] self.holds(h) implies h.len() <= usize::MAX
                && (forall|i: int| 0 <= i < h.len() ==> #[trigger] self.storage.records()[i] == enc(h[i].1)) 
                && (forall|x: Seq<u8>| #![trigger latest(h, x)] latest(h, x) is Some ==> latest(h, x)->0 < h.len() && enc(h[latest(h, x)->0 as int].0) == x && self.storage.records()[latest(h, x)->0 as int] == enc(h[latest(h, x)->0 as int].1))
                && (h.len() > 0 ==> latest(h, enc(h.last().0)) is Some) by
        {
            assert(self.storage.seqno_index.inner.actual_size == self.storage.seqno_index.content().len());
            assert(h.len() == values(h).len());
            assert forall|x: Seq<u8>| #![trigger latest(h, x)] latest(h, x) is Some implies latest(h, x)->0 < h.len() && enc(h[latest(h, x)->0 as int].0) == x && self.storage.records()[latest(h, x)->0 as int] == enc(h[latest(h, x)->0 as int].1) by { lemma_latest(h, x); }
        }
    }
    //@fn indexed-log-map/src/storage.rs | impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned> IndexedLogMap<Key, Value> | new
    //@sig Result < Self > => anyhow::Result<Self>
    //@use logmap
    //@rewrite Default :: default ( ) => PhantomData
    //@spec
        requires
            config.storage_path matches Some(p) ==> exists|rs: Seq<Seq<u8>>| at_path(p, rs),
        ensures
            r matches Ok(m) ==> {
                &&& m.key_to_seqno is Some == config.use_key_indexing
                &&& config.storage_path matches Some(p) ==> m.storage.can_write() == !config.readonly && forall|h: Seq<(Key, Value)>| #[trigger] kept_in(p, h) ==> m.holds(h)
                &&& config.storage_path is None ==> m.storage.can_write() && m.holds(Seq::<(Key, Value)>::empty())
            }
    //@hint start
        proof {
            assert(values(Seq::<(Key, Value)>::empty()) =~= Seq::<Seq<u8>>::empty());
            assert(positions(Map::<Seq<u8>, Seq<u8>>::empty(), Seq::<(Key, Value)>::empty()));
        }
    //@end
    //@fn indexed-log-map/src/storage.rs | impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned> IndexedLogMap<Key, Value> | append
    //@sig & self => &mut self
    //@sig Result < ( ) > => anyhow::Result<()>
    //@use logmap
    //@spec
        requires
            old(self).storage.flatfile.inner.room(enc(value).len() as int), old(self).storage.seqno_index.inner.room(16),
            exists|h: Seq<(Key, Value)>| old(self).holds(h),
        ensures
            r is Ok ==> forall|h: Seq<(Key, Value)>| #[trigger] old(self).holds(h) ==> final(self).holds(h.push((key, value))),
            old(self).key_to_seqno is None || !old(self).storage.can_write() ==> r is Err && final(self).key_to_seqno == old(self).key_to_seqno && final(self).storage.unchanged(old(self).storage),
    //@hint start
        broadcast use enc_some;
        proof {
            reveal_with_fuel(cat, 3);
            let v = enc(value);
            assert forall|rs: Seq<&[u8]>| #![trigger bytes_of(rs)] #![trigger any_empty(rs)] rs.len() == 1 && rs[0]@ == v
                implies bytes_of(rs) == seq![v] && any_empty(rs) == (v.len() == 0) && cat(bytes_of(rs)) == v by
            {
                lemma_one(rs[0]);
            }
            assert forall|h: Seq<(Key, Value)>| #[trigger] old(self).holds(h) implies values(h.push((key, value))) == old(self).storage.records() + seq![v]
                && (old(self).key_to_seqno is Some ==> positions(old(self).key_to_seqno->0@.insert(enc(key), json(h.len() as usize)), h.push((key, value)))) by
            {
                assert(values(h.push((key, value))) =~= old(self).storage.records() + seq![v]);
                old(self).lemma_reads();
                lemma_pushed(h, key, value);
            }
        }
    //@end
    //@fn indexed-log-map/src/storage.rs | impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned> IndexedLogMap<Key, Value> | iter_from
    //@sig Result < Option < impl Iterator < Item = Result < Value > > > > => anyhow::Result<Option<Mapped<impl Fn(Result<Vec<u8>, FraosError>) -> anyhow::Result<Value>>>>
    //@use logmap
    //@spec
        requires exists|h: Seq<(Key, Value)>| self.holds(h)
        ensures
            r matches Ok(None) ==> forall|h: Seq<(Key, Value)>| #[trigger] self.holds(h) ==> latest(h, enc(*key)) is None,
            r matches Ok(Some(m)) ==> decodes(m) && m.it.records() == self.storage.records()
                && forall|h: Seq<(Key, Value)>| #[trigger] self.holds(h) ==> latest(h, enc(*key)) == Some(m.it.seqno),
            self.key_to_seqno is None ==> r is Err,
    //@end
    //@fn indexed-log-map/src/storage.rs | impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned> IndexedLogMap<Key, Value> | get
    //@sig Result < Option < Value > > => anyhow::Result<Option<Value>>
    //@spec
        requires exists|h: Seq<(Key, Value)>| self.holds(h)
        ensures
            r matches Ok(x) ==> forall|h: Seq<(Key, Value)>| #[trigger] self.holds(h) ==> x == value_at(h, latest(h, enc(*key))),
            self.key_to_seqno is None ==> r is Err,
    //@hint start
        proof { self.lemma_reads(); }
    //@end
    //@fn indexed-log-map/src/storage.rs | impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned> IndexedLogMap<Key, Value> | contains
    //@sig Result < bool > => anyhow::Result<bool>
    //@spec
        requires exists|h: Seq<(Key, Value)>| self.holds(h)
        ensures
            r matches Ok(b) ==> forall|h: Seq<(Key, Value)>| #[trigger] self.holds(h) ==> b == latest(h, enc(*key)) is Some,
            self.key_to_seqno is None ==> r is Err,
    //@hint start
        proof { self.lemma_reads(); }
    //@end
    //@fn indexed-log-map/src/storage.rs | impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned> IndexedLogMap<Key, Value> | is_empty
    //@sig Result < bool > => anyhow::Result<bool>
    //@use logmap
    //@spec
        requires exists|h: Seq<(Key, Value)>| self.holds(h)
        ensures
            r matches Ok(b) ==> forall|h: Seq<(Key, Value)>| #[trigger] self.holds(h) ==> b == (h.len() == 0),
            self.key_to_seqno is None ==> r is Err,
    //@hint start
        proof { self.lemma_reads(); }
    //@end
    //@fn indexed-log-map/src/storage.rs | impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned> IndexedLogMap<Key, Value> | iter
    //@sig Option < impl Iterator < Item = Result < Value > > > => Option<Mapped<impl Fn(Result<Vec<u8>, FraosError>) -> anyhow::Result<Value>>>
    //@use logmap
    //@spec
        requires self.storage.wf()
        ensures r matches Some(m) && decodes(m) && m.it.records() == self.storage.records() && m.it.seqno == 0
    //@end
    //@fn indexed-log-map/src/storage.rs | impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned> IndexedLogMap<Key, Value> | last
    //@sig Result < Option < Value > > => anyhow::Result<Option<Value>>
    //@use logmap
    //@desugar res.map_err
    //@spec
        requires exists|h: Seq<(Key, Value)>| self.holds(h)
        ensures r matches Ok(x) ==> forall|h: Seq<(Key, Value)>| #[trigger] self.holds(h) ==> x == (if h.len() == 0 { None } else { Some(h.last().1) })
    //@end
}
pub open spec fn value_at<K, V>(h: Seq<(K, V)>, i: Option<usize>) -> Option<V> { match i { Some(i) => Some(h[i as int].1), None => None } }
pub proof fn lemma_pushed<K, V>(h: Seq<(K, V)>, k: K, v: V)
    requires h.len() <= usize::MAX
    ensures forall|x: Seq<u8>| #[trigger] latest(h.push((k, v)), x) == (if enc(k) == x { Some(h.len() as usize) } else { latest(h, x) })
{ assert(h.push((k, v)).drop_last() =~= h); }

/// std's and_then / map on the iterator type here
//@fn indexed-log-map/src/storage.rs | | get_next
//@sig Result < Option < Value > > => anyhow::Result<Option<Value>>
//@desugar opt.and_then opt.map
//@spec
    requires exists|h: Seq<(Key, Value)>| storage.holds(h)
    ensures
        r matches Ok(x) ==> forall|h: Seq<(Key, Value)>| #[trigger] storage.holds(h) ==> x == following(h, match key { None => Some(-1int), Some(k) => match latest(h, enc(*k)) { Some(i) => Some(i as int), None => None } }),
//@hint start
    proof { storage.lemma_reads(); }
//@end
/// the value inserted after position i
pub open spec fn following<K, V>(h: Seq<(K, V)>, i: Option<int>) -> Option<V> {
    match i { Some(i) => if i + 1 < h.len() { Some(h[i + 1].1) } else { None }, None => None }
}

/// what a log map keeps in its directory
pub open spec fn kept_in<K, V>(p: PathBuf, h: Seq<(K, V)>) -> bool {
    at_path(p, values(h)) && positions(sled::kept_at(joined_path(p, "key_index"@)), h)
}
