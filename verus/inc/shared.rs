// ---- the store, shared by threads ------------------------------------------------------------------
// Handles and iterators of any number of threads share the data file and the index (Arc's, erased). What a thread finds there is what it
// last saw, moved on by the others (`step`): they only ever add (`grew`), and what they add leaves the store sound. Every function that
// changes something is shown to do only that, step by step, and only while its thread holds the write lock.
//@item fraos/src/database.rs | struct | Database
//@rewrite Arc < FlatFile > => FlatFile
//@rewrite Arc < SeqNoIndex > => SeqNoIndex
//@rewrite Arc < Mutex < ( ) > > => WriteLock
//@rewrite flatfile : => pub flatfile:
//@rewrite seqno_index : => pub seqno_index:
//@rewrite write_lock : => pub write_lock:
//@end
//@item fraos/src/seqno_iter.rs | struct | SeqNoIter
//@rewrite Arc < FlatFile > => FlatFile
//@rewrite Arc < SeqNoIndex > => SeqNoIndex
//@rewrite data : => pub data:
//@rewrite index : => pub index:
//@rewrite seqno : => pub seqno:
//@end
pub struct WriteLock {}
//@rules joint
let _ = self . write_lock . lock ( ) . unwrap ( ) ; => self.take_lock(&mut held); self.leave_lock(&mut held);
let $g! = self . write_lock . lock ( ) . unwrap ( ) ; => self.take_lock(&mut held);
drop ( $g! ) ; => self.leave_lock(&mut held);
self . flatfile . memory_size ( ) => self.data_size(&held)
self . flatfile . append ( $a ) => self.data_append($a, &held)
self . flatfile . get_record_at_offset ( $a , $b ) => self.data_get($a, $b, &held)
self . data . get_record_at_offset ( $a , $b ) => self.data_get($a, $b)
self . seqno_index . append ( $a ) => self.index_append($a, &held)
self . seqno_index . get_offset_and_length ( $a ) => self.index_get($a, &held)
self . index . get_offset_and_length ( $a ) => self.index_get($a)
self . seqno_index . len ( ) => self.index_len(&held)
//@end
impl Clone for FlatFile {
    // Arc's
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for SeqNoIndex {
    // Arc's
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// whether this thread holds the write lock
pub struct Held { pub g: Ghost<bool> }
impl Held {
    pub open spec fn yes(self) -> bool { self.g@ }
    pub fn none() -> (r: Held) ensures !r.yes() { Held { g: Ghost(false) } }
    /// only its holder may change anything
    pub fn mine(&self) -> Mine requires self.yes() { Mine { g: Ghost(()) } }
}
/// every entry of the index describes a record that is in the data, as a whole
pub open spec fn sound(d: FlatFile, i: SeqNoIndex) -> bool {
    &&& d.wf() && i.wf()
    &&& laid_out(i.entries(), d.content().len() as int)
    &&& forall|k: int| 0 <= k < i.entries().len() ==> uncut(d.inner.mmap, (#[trigger] i.entries()[k]).0 as int, i.entries()[k].1 as int)
}
pub open spec fn records_in(d: FlatFile, i: SeqNoIndex) -> Seq<Seq<u8>> { recs(i.entries(), d.content()) }
#[verifier::opaque]
pub open spec fn later(d: FlatFile, i: SeqNoIndex, e: FlatFile, j: SeqNoIndex) -> bool { grew(d.inner, e.inner) && grew(i.inner, j.inner) }
/// assumed: the files stay smaller than the address space
pub open spec fn small(d: FlatFile, i: SeqNoIndex) -> bool { d.content().len() <= 0x1000_0000_0000_0000 && i.content().len() <= 0x1000_0000_0000_0000 }
pub mod moving {
use super::*;
/// what was there stays as it was
pub broadcast proof fn lemma_later(d: FlatFile, i: SeqNoIndex, e: FlatFile, j: SeqNoIndex)
    requires sound(d, i), sound(e, j), #[trigger] later(d, i, e, j)
    ensures
        i.entries().len() <= j.entries().len(), j.entries().take(i.entries().len() as int) == i.entries(),
        records_in(e, j).take(records_in(d, i).len() as int) == records_in(d, i),
        i.shown() <= j.shown() <= j.entries().len(),
{
    reveal(later);
    let (x, y) = (i.content(), j.content());
    let n = i.entries().len() as int;
    assert(y.take(x.len() as int) == x);
    assert forall|k: int| 0 <= k < n implies j.entries()[k] == i.entries()[k] by {
        assert(y.subrange(16 * k, 16 * k + 8) =~= x.subrange(16 * k, 16 * k + 8));
        assert(y.subrange(16 * k + 8, 16 * k + 16) =~= x.subrange(16 * k + 8, 16 * k + 16));
    }
    assert(j.entries().take(n) =~= i.entries());
    let (a, b) = (d.content(), e.content());
    assert forall|k: int| 0 <= k < n implies records_in(e, j)[k] == records_in(d, i)[k] by {
        lemma_laid(i.entries(), a.len() as int, k);
        assert(at(b, i.entries()[k]) =~= at(b.take(a.len() as int), i.entries()[k]));
    }
    assert(records_in(e, j).take(n) =~= records_in(d, i));
}
pub broadcast proof fn lemma_trans(d: FlatFile, i: SeqNoIndex, e: FlatFile, j: SeqNoIndex, f: FlatFile, k: SeqNoIndex)
    requires #[trigger] later(d, i, e, j), #[trigger] later(e, j, f, k)
    ensures later(d, i, f, k)
{
    reveal(later);
    assert(f.content().take(d.content().len() as int) =~= f.content().take(e.content().len() as int).take(d.content().len() as int));
    assert(k.content().take(i.content().len() as int) =~= k.content().take(j.content().len() as int).take(i.content().len() as int));
}
pub broadcast proof fn lemma_same(d: FlatFile, i: SeqNoIndex)
    ensures #[trigger] later(d, i, d, i)
{
    reveal(later);
    assert(d.content().take(d.content().len() as int) =~= d.content());
    assert(i.content().take(i.content().len() as int) =~= i.content());
}
pub broadcast group all { lemma_later, lemma_trans, lemma_same }
}
pub use moving::lemma_later;
/// whatever is added to the data, the store stays sound: at every moment of an append of data, too
pub proof fn lemma_data(d: FlatFile, e: FlatFile, i: SeqNoIndex)
    requires sound(d, i), grew(d.inner, e.inner), e.wf()
    ensures sound(e, i)
{
    assert forall|k: int| 0 <= k < i.entries().len() implies uncut(e.inner.mmap, (#[trigger] i.entries()[k]).0 as int, i.entries()[k].1 as int) by {
        lemma_laid(i.entries(), d.content().len() as int, k);
        assert(uncut(d.inner.mmap, i.entries()[k].0 as int, i.entries()[k].1 as int));
    }
}
/// a record that is there, as a whole
pub open spec fn whole(d: FlatFile, e: Entry) -> bool { e.0 + e.1 <= d.content().len() && e.1 > 0 && uncut(d.inner.mmap, e.0 as int, e.1 as int) }
pub proof fn lemma_whole(d: FlatFile, i: SeqNoIndex, k: int)
    requires sound(d, i), 0 <= k < i.entries().len()
    ensures whole(d, i.entries()[k]), at(d.content(), i.entries()[k]) == records_in(d, i)[k]
{ lemma_laid(i.entries(), d.content().len() as int, k); }
pub proof fn lemma_read(d: FlatFile, i: SeqNoIndex, e: FlatFile, j: SeqNoIndex, x: Entry)
    requires sound(d, i), sound(e, j), later(d, i, e, j), whole(d, x)
    ensures whole(e, x), at(e.content(), x) == at(d.content(), x)
{
    reveal(later);
    assert(at(e.content(), x) =~= at(e.content().take(d.content().len() as int), x));
}
/// the new entries describe records that are in the data already
pub open spec fn fits(d: FlatFile, i: SeqNoIndex, es: Seq<Entry>) -> bool {
    &&& laid_out(i.entries() + es, d.content().len() as int)
    &&& forall|k: int| 0 <= k < es.len() ==> uncut(d.inner.mmap, (#[trigger] es[k]).0 as int, es[k].1 as int)
}
impl Database {
    pub open spec fn sound(self) -> bool { sound(self.flatfile, self.seqno_index) }
    pub open spec fn records(self) -> Seq<Seq<u8>> { records_in(self.flatfile, self.seqno_index) }
    /// how many records there are, at least: those of every append that returned
    pub open spec fn shown(self) -> int { self.seqno_index.shown() }
    /// no append is under way
    pub open spec fn settled(self) -> bool { self.flatfile.settled() && self.seqno_index.settled() }
    pub open spec fn later(self, o: Database) -> bool { later(self.flatfile, self.seqno_index, o.flatfile, o.seqno_index) }
    pub open spec fn small(self) -> bool { small(self.flatfile, self.seqno_index) }
    pub open spec fn moved(self, o: Database) -> bool { self.later(o) && o.sound() && o.small() }
    /// assumed: what other threads do before this thread's next look; nothing, while it holds the write lock
    #[verifier::external_body]
    pub fn step(&mut self, held: &Held) -> (r: Steps)
        requires old(self).sound()
        ensures held.yes() ==> *final(self) == *old(self), old(self).moved(*final(self)), r.left() == 1
    { unimplemented!() }
    /// assumed: Mutex::lock: the thread that held the lock before left the store with no append under way
    #[verifier::external_body]
    pub fn take_lock(&mut self, held: &mut Held)
        requires old(self).sound(), !old(held).yes()
        ensures old(self).moved(*final(self)), final(self).settled(), final(held).yes()
    { unimplemented!() }
    pub fn leave_lock(&mut self, held: &mut Held)
        requires old(held).yes(), old(self).settled(), old(self).sound()
        ensures !final(held).yes(), *final(self) == *old(self)
    { held.g = Ghost(false); }
    // one look, or one change, each
    pub fn data_size(&mut self, held: &Held) -> (r: usize)
        requires old(self).sound()
        ensures old(self).moved(*final(self)), held.yes() ==> *final(self) == *old(self), r == final(self).flatfile.inner.actual_size
    { let mut st = self.step(held); self.flatfile.memory_size(&mut st) }
    pub fn data_get(&mut self, offset: usize, length: usize, held: &Held) -> (r: Result<Option<Vec<u8>>, FraosError>)
        requires old(self).sound(), whole(old(self).flatfile, (offset, length))
        ensures
            old(self).moved(*final(self)), held.yes() ==> *final(self) == *old(self),
            r matches Ok(Some(v)) && v@ == at(old(self).flatfile.content(), (offset, length)),
    {
        let ghost b = *self;
        let mut st = self.step(held);
        proof { lemma_read(b.flatfile, b.seqno_index, self.flatfile, self.seqno_index, (offset, length)); }
        self.flatfile.get_record_at_offset(&mut st, offset, length)
    }
    pub fn index_get(&mut self, seqno: usize, held: &Held) -> (r: Result<Option<Entry>, FraosError>)
        requires old(self).sound()
        ensures
            old(self).moved(*final(self)), held.yes() ==> *final(self) == *old(self),
            seqno < final(self).records().len() ==> (r matches Ok(Some(e)) && whole(final(self).flatfile, e) && at(final(self).flatfile.content(), e) == final(self).records()[seqno as int]),
            seqno >= final(self).records().len() ==> r == Ok::<Option<Entry>, FraosError>(None),
    {
        let mut st = self.step(held);
        proof { if seqno < self.records().len() { lemma_whole(self.flatfile, self.seqno_index, seqno as int); } }
        self.seqno_index.get_offset_and_length(&mut st, seqno)
    }
    pub fn index_len(&mut self, held: &Held) -> (r: usize)
        requires old(self).sound()
        ensures old(self).moved(*final(self)), held.yes() ==> *final(self) == *old(self), r == final(self).shown()
    { let mut st = self.step(held); self.seqno_index.len(&mut st) }
    pub fn data_append(&mut self, records: &[&[u8]], held: &Held) -> (r: Result<(), FraosError>)
        requires old(self).sound(), held.yes(), old(self).settled(), cat(bytes_of(records@)).len() <= 0x1000_0000_0000_0000
        ensures
            any_empty(records@) ==> r is Err && *final(self) == *old(self),
            r is Ok ==> old(self).later(*final(self)) && final(self).sound() && final(self).settled() && final(self).seqno_index == old(self).seqno_index
                && final(self).flatfile.content() == old(self).flatfile.content() + cat(bytes_of(records@))
                && forall|c: int| #[trigger] final(self).flatfile.inner.mmap.cut(c) ==> old(self).flatfile.inner.mmap.cut(c) || c == final(self).flatfile.content().len(),
            r matches Err(e) ==> io_error(e) || any_empty(records@),
    {
        broadcast use moving::all;
        let mut st = self.step(held);
        let ghost before = *self;
        let r = self.flatfile.append(&held.mine(), records);
        proof {
            if r is Ok {
                assert(self.flatfile.content().take(before.flatfile.content().len() as int) =~= before.flatfile.content());
                if records@.len() > 0 { lemma_slot(bytes_of(records@), 0); assert(records@[0]@.len() > 0); }
                reveal(later);
                assert(grew(before.flatfile.inner, self.flatfile.inner));
                lemma_data(before.flatfile, self.flatfile, before.seqno_index);
                assert(before.seqno_index.content().take(before.seqno_index.content().len() as int) =~= before.seqno_index.content());
                // between its two steps
                let mid = FlatFile { inner: Appender { mmap: self.flatfile.inner.mmap, actual_size: before.flatfile.inner.actual_size } };
                assert(mid.content() == self.flatfile.content());
                assert(self.flatfile.content().take(mid.content().len() as int) =~= mid.content());
                lemma_data(before.flatfile, mid, before.seqno_index);
                assert(sound(mid, before.seqno_index));
                assert(later(before.flatfile, before.seqno_index, mid, before.seqno_index));
                assert(later(mid, before.seqno_index, self.flatfile, self.seqno_index));
            }
        }
        r
    }
    pub fn index_append(&mut self, es: &[Entry], held: &Held) -> (r: Result<Option<usize>, FraosError>)
        requires
            old(self).sound(), held.yes(), old(self).settled(), 0 < es@.len() <= 0x100_0000_0000_0000,
            fits(old(self).flatfile, old(self).seqno_index, es@),
        ensures
            r is Ok ==> old(self).later(*final(self)) && final(self).sound() && final(self).settled() && final(self).flatfile == old(self).flatfile
                && final(self).seqno_index.entries() == old(self).seqno_index.entries() + es@
                && r == Ok::<Option<usize>, FraosError>(Some(old(self).records().len() as usize)),
            r matches Err(e) ==> io_error(e),
    {
        broadcast use moving::all;
        let mut st = self.step(held);
        let ghost before = *self;
        let ghost all = self.seqno_index.entries() + es@;
        proof {
            assert forall|k: int| 0 <= k < es@.len() implies (#[trigger] es@[k]).1 != 0 by {
                let j = self.seqno_index.entries().len() + k;
                assert(all[j] == es@[k]);
                lemma_laid(all, self.flatfile.content().len() as int, j);
            }
            assert(!some_empty(es@));
        }
        let r = self.seqno_index.append(&held.mine(), es);
        proof {
            if r is Ok {
                reveal(later);
                lemma_pack(es@, es@.len() as int);
                assert forall|k: int| 0 <= k < all.len() implies uncut(self.flatfile.inner.mmap, (#[trigger] all[k]).0 as int, all[k].1 as int) by {
                    let n = before.seqno_index.entries().len();
                    if k < n { assert(all[k] == before.seqno_index.entries()[k]); } else { assert(all[k] == es@[k - n]); }
                }
                assert(before.flatfile.content().take(before.flatfile.content().len() as int) =~= before.flatfile.content());
                assert(self.seqno_index.content().take(before.seqno_index.content().len() as int) =~= before.seqno_index.content());
                // between its two steps
                let mid = SeqNoIndex { inner: Appender { mmap: self.seqno_index.inner.mmap, actual_size: before.seqno_index.inner.actual_size } };
                assert(self.seqno_index.content().take(mid.content().len() as int) =~= mid.content());
                assert(mid.wf() && sound(self.flatfile, mid) && later(before.flatfile, before.seqno_index, self.flatfile, mid) && later(self.flatfile, mid, self.flatfile, self.seqno_index));
            }
        }
        r
    }
    //@fn fraos/src/database.rs | impl Database | len
    //@use joint
    //@sig & self => &mut self
    //@hint start
        broadcast use moving::all;
        let held = Held::none();
    //@spec
        requires old(self).sound()
        ensures old(self).moved(*final(self)), r == final(self).shown()
    //@end
    //@fn fraos/src/database.rs | impl Database | is_empty
    //@sig & self => &mut self
    //@hint start
        broadcast use moving::all;
    //@spec
        requires old(self).sound()
        ensures old(self).moved(*final(self)), r == (final(self).shown() == 0)
    //@end
    //@fn fraos/src/database.rs | impl Database | get_by_seqno
    //@use joint
    //@sig & self => &mut self
    //@hint start
        broadcast use moving::all;
        let held = Held::none();
    //@spec
        requires old(self).sound()
        ensures
            old(self).moved(*final(self)),
            r is Ok,
            r matches Ok(Some(v)) ==> seqno < final(self).records().len() && v@ == final(self).records()[seqno as int],
            r matches Ok(None) ==> seqno >= old(self).shown(),
    //@end
    //@fn fraos/src/database.rs | impl Database | last
    //@sig & self => &mut self
    //@rewrite self . get_by_seqno ( $a ) => { let n_ = $a; self.get_by_seqno(n_) }
    //@hint start
        broadcast use moving::all;
    //@spec
        requires old(self).sound()
        ensures
            old(self).moved(*final(self)),
            r is Ok,
            r matches Ok(None) ==> old(self).shown() == 0,
            r matches Ok(Some(v)) ==> exists|k: int| old(self).shown() <= k + 1 && 0 <= k < final(self).records().len() && v@ == #[trigger] final(self).records()[k],
    //@end
    /// an append that returned: its records follow those before, at the position it returned, which no other append gets
    pub open spec fn appended(self, o: Database, rs: Seq<Seq<u8>>, k: int) -> bool {
        &&& o.settled()
        &&& self.shown() <= k
        &&& k + rs.len() == o.records().len()
        &&& o.records() == o.records().take(k) + rs
    }
    pub proof fn lemma_appended(before: Database, mid: Database, now: Database, rs: Seq<Seq<u8>>, es: Seq<Entry>)
        requires
            before.sound(), before.settled(), mid.sound(),
            before.later(mid), mid.seqno_index == before.seqno_index, mid.flatfile.content() == before.flatfile.content() + cat(rs),
            forall|c: int| #[trigger] mid.flatfile.inner.mmap.cut(c) ==> before.flatfile.inner.mmap.cut(c) || c == mid.flatfile.content().len(),
            forall|j: int| 0 <= j < rs.len() ==> (#[trigger] rs[j]).len() > 0,
            places(es, rs, before.flatfile.content().len() as int, rs.len() as int),
        ensures
            fits(mid.flatfile, mid.seqno_index, es),
            now.sound() && now.flatfile == mid.flatfile && now.seqno_index.entries() == mid.seqno_index.entries() + es ==> now.records() == before.records() + rs && now.records().take(before.records().len() as int) == before.records(),
    {
        broadcast use moving::all;
        let (old_es, d0, d) = (before.seqno_index.entries(), before.flatfile.content(), mid.flatfile.content());
        let all = old_es + es;
        let n = old_es.len() as int;
        assert(rs.take(0) =~= Seq::empty());
        assert forall|j: int| 0 <= j < all.len() implies #[trigger] in_place(all, j) by {
            if j < n { assert(in_place(old_es, j)); }
            else { lemma_slot(rs, j - n); if j > n { lemma_slot(rs, j - n - 1); assert(all[j - 1] == es[j - n - 1]); } assert(all[j] == es[j - n]); }
        }
        if rs.len() > 0 { lemma_slot(rs, rs.len() - 1); assert(all[all.len() - 1] == es[rs.len() - 1]); }
        assert(laid_out(all, d.len() as int));
        assert forall|j: int| 0 <= j < es.len() implies uncut(mid.flatfile.inner.mmap, (#[trigger] es[j]).0 as int, es[j].1 as int) by {
            lemma_slot(rs, j);
            assert forall|c: int| #[trigger] mid.flatfile.inner.mmap.cut(c) && c > es[j].0 implies c >= es[j].0 + es[j].1 by {
                if before.flatfile.inner.mmap.cut(c) { before.flatfile.inner.mmap.cut_within(c); }
            }
        }
        if now.sound() && now.flatfile == mid.flatfile && now.seqno_index.entries() == mid.seqno_index.entries() + es {
            assert forall|j: int| 0 <= j < all.len() implies at(d, all[j]) == (before.records() + rs)[j] by {
                if j < n { lemma_laid(old_es, d0.len() as int, j); assert(at(d, all[j]) =~= at(d0, old_es[j])); }
                else { lemma_slot(rs, j - n); assert(all[j] == es[j - n]); assert(at(d, all[j]) =~= cat(rs).subrange(ends(rs, j - n), ends(rs, j - n + 1))); }
            }
            assert(now.records() =~= before.records() + rs);
            assert(now.records().take(n) =~= before.records());
        }
    }
    /// F05: appends get distinct positions, one after the other: what an append at k wrote is there ever after, and an append after it comes after it
    pub proof fn lemma_distinct(a: Database, b: Database, c: Database, d: Database, rs: Seq<Seq<u8>>, qs: Seq<Seq<u8>>, k: int, l: int)
        requires
            b.sound(), c.sound(), d.sound(),
            a.appended(b, rs, k), k >= 0, b.later(c), c.later(d),
            c.appended(d, qs, l),
        ensures
            k + rs.len() <= l,
            d.records().subrange(k, k + rs.len()) == rs,
            d.records().subrange(l, l + qs.len()) == qs,
    {
        broadcast use moving::all;
        assert(b.shown() == b.records().len());
        lemma_later(b.flatfile, b.seqno_index, d.flatfile, d.seqno_index);
        lemma_later(b.flatfile, b.seqno_index, c.flatfile, c.seqno_index);
        assert(d.records().take(b.records().len() as int) == b.records());
        assert(d.records().subrange(k, k + rs.len()) =~= b.records().subrange(k, k + rs.len()));
        assert(b.records().subrange(k, k + rs.len()) =~= rs);
        assert(d.records().subrange(l, l + qs.len()) =~= qs);
    }
    //@fn fraos/src/database.rs | impl Database | append_get_seqno
    //@use joint
    //@sig & self => &mut self
    //@rewrite records . iter ( ) => slice_iter(records)
    //@desugar for.it
    //@spec
        requires old(self).sound(), cat(bytes_of(records@)).len() <= 0x1000_0000_0000_0000, records@.len() <= 0x100_0000_0000_0000
        ensures
            records@.len() == 0 ==> r == Ok::<Option<usize>, FraosError>(None) && *final(self) == *old(self),
            any_empty(records@) ==> r is Err && old(self).later(*final(self)) && final(self).sound() && final(self).settled(),
            r is Ok && records@.len() > 0 ==> {
                &&& old(self).later(*final(self)) && final(self).sound()
                &&& r matches Ok(Some(k)) && old(self).appended(*final(self), bytes_of(records@), k as int)
            },
            r matches Err(e) ==> io_error(e) || any_empty(records@),
    //@hint start
        broadcast use moving::all;
        let mut held = Held::none();
        let ghost mut k: int = 0;
        let ghost rs = bytes_of(records@);
        proof {
            assert(rs.take(0) =~= Seq::empty());
            if !any_empty(records@) {
                assert forall|j: int| 0 <= j < rs.len() implies (#[trigger] rs[j]).len() > 0 by { assert(records@[j]@.len() > 0); }
                assert forall|a: Database, b: Database, es: Seq<Entry>| #![trigger a.later(b), places(es, rs, a.flatfile.content().len() as int, rs.len() as int)]
                    a.sound() && a.settled() && b.sound() && a.later(b) && b.seqno_index == a.seqno_index && b.flatfile.content() == a.flatfile.content() + cat(rs)
                    && (forall|c: int| #[trigger] b.flatfile.inner.mmap.cut(c) ==> a.flatfile.inner.mmap.cut(c) || c == b.flatfile.content().len())
                    && places(es, rs, a.flatfile.content().len() as int, rs.len() as int)
                    implies fits(b.flatfile, b.seqno_index, es)
                    && (forall|c: Database| #[trigger] c.sound() && c.flatfile == b.flatfile && c.seqno_index.entries() == b.seqno_index.entries() + es ==> c.records() == a.records() + rs && c.records().take(a.records().len() as int) == a.records()) by
                {
                    assert forall|c: Database| #[trigger] c.sound() && c.flatfile == b.flatfile && c.seqno_index.entries() == b.seqno_index.entries() + es implies c.records() == a.records() + rs && c.records().take(a.records().len() as int) == a.records() by { Self::lemma_appended(a, b, c, rs, es); }
                    Self::lemma_appended(a, b, b, rs, es);
                }
            }
        }
    //@loop 0
        invariant_except_break
            0 <= k <= rs.len(),
            __it0@ == refs(records@).skip(k),
            offset == initial_size + ends(rs, k),
            places(seqno_index_update@, rs, initial_size as int, k),
        invariant
            rs == bytes_of(records@), initial_size <= 0x1000_0000_0000_0000, cat(rs).len() <= 0x1000_0000_0000_0000,
        ensures
            places(seqno_index_update@, rs, initial_size as int, rs.len() as int),
        decreases rs.len() - k
    //@hint loop-start 0
            proof { if k < rs.len() { lemma_slot(rs, k); } }
    //@hint loop-end 0
            proof { k = k + 1; }
    //@end
    //@fn fraos/src/database.rs | impl Database | append
    //@sig & self => &mut self
    //@desugar res.map
    //@spec
        requires old(self).sound(), cat(bytes_of(records@)).len() <= 0x1000_0000_0000_0000, records@.len() <= 0x100_0000_0000_0000
        ensures
            records@.len() == 0 ==> r is Ok && *final(self) == *old(self),
            r is Ok && records@.len() > 0 ==> old(self).later(*final(self)) && final(self).sound() && exists|k: int| #[trigger] old(self).appended(*final(self), bytes_of(records@), k),
            r matches Err(e) ==> io_error(e) || any_empty(records@),
    //@end
    //@fn fraos/src/database.rs | impl Database | put
    //@sig & self => &mut self
    //@spec
        requires old(self).sound(), record@.len() <= 0x1000_0000_0000_0000
        ensures
            r is Ok ==> old(self).later(*final(self)) && final(self).sound() && exists|k: int| #[trigger] old(self).appended(*final(self), seq![record@], k),
            r matches Err(e) ==> io_error(e) || record@.len() == 0,
    //@hint start
        proof { lemma_one(record); }
    //@end
    //@fn fraos/src/database.rs | impl Database | put_seqno
    //@sig & self => &mut self
    //@spec
        requires old(self).sound(), record@.len() <= 0x1000_0000_0000_0000
        ensures
            r matches Ok(k) ==> old(self).later(*final(self)) && final(self).sound() && old(self).appended(*final(self), seq![record@], k as int),
            r matches Err(e) ==> io_error(e) || record@.len() == 0,
    //@hint start
        proof { lemma_one(record); }
    //@end
    //@fn fraos/src/database.rs | impl Database | iter_from_seqno
    //@spec
        requires self.sound()
        ensures r matches Some(it) && it.data == self.flatfile && it.index == self.seqno_index && it.seqno == seqno
    //@end
}
impl SeqNoIter {
    pub open spec fn sound(self) -> bool { sound(self.data, self.index) }
    pub open spec fn records(self) -> Seq<Seq<u8>> { records_in(self.data, self.index) }
    pub open spec fn shown(self) -> int { self.index.shown() }
    pub open spec fn moved(self, o: SeqNoIter) -> bool { later(self.data, self.index, o.data, o.index) && o.sound() && small(o.data, o.index) }
    /// assumed: as Database::step
    #[verifier::external_body]
    pub fn step(&mut self) -> (r: Steps)
        requires old(self).sound()
        ensures old(self).moved(*final(self)), r.left() == 1, final(self).seqno == old(self).seqno
    { unimplemented!() }
    pub fn data_get(&mut self, offset: usize, length: usize) -> (r: Result<Option<Vec<u8>>, FraosError>)
        requires old(self).sound(), whole(old(self).data, (offset, length))
        ensures
            old(self).moved(*final(self)), final(self).seqno == old(self).seqno,
            r matches Ok(Some(v)) && v@ == at(old(self).data.content(), (offset, length)),
    {
        let ghost b = *self;
        let mut st = self.step();
        proof { lemma_read(b.data, b.index, self.data, self.index, (offset, length)); }
        self.data.get_record_at_offset(&mut st, offset, length)
    }
    pub fn index_get(&mut self, seqno: usize) -> (r: Result<Option<Entry>, FraosError>)
        requires old(self).sound()
        ensures
            old(self).moved(*final(self)), final(self).seqno == old(self).seqno,
            seqno < final(self).records().len() ==> (r matches Ok(Some(e)) && whole(final(self).data, e) && at(final(self).data.content(), e) == final(self).records()[seqno as int]),
            seqno >= final(self).records().len() ==> r == Ok::<Option<Entry>, FraosError>(None),
    {
        let mut st = self.step();
        proof { if seqno < self.records().len() { lemma_whole(self.data, self.index, seqno as int); } }
        self.index.get_offset_and_length(&mut st, seqno)
    }
    //@fn fraos/src/seqno_iter.rs | impl SeqNoIter | new
    //@sig Arc < FlatFile > => FlatFile
    //@sig Arc < SeqNoIndex > => SeqNoIndex
    //@spec
        ensures r.data == data, r.index == index, r.seqno == seqno
    //@end
    //@fn fraos/src/seqno_iter.rs | impl SeqNoIter | next_impl
    //@use joint
    //@hint start
        broadcast use moving::all;
    //@spec
        requires old(self).sound()
        ensures
            old(self).moved(*final(self)),
            r is Ok,
            r matches Ok(Some(v)) ==> old(self).seqno < final(self).records().len() && v@ == final(self).records()[old(self).seqno as int] && final(self).seqno == old(self).seqno + 1,
            r matches Ok(None) ==> old(self).seqno >= old(self).shown() && final(self).seqno == old(self).seqno,
    //@end
    //@fn fraos/src/seqno_iter.rs | impl Iterator for SeqNoIter | next
    //@sig Self :: Item => Result<Vec<u8>, FraosError>
    //@hint start
        broadcast use moving::all;
    //@spec
        requires old(self).sound()
        ensures
            old(self).moved(*final(self)),
            r matches Some(x) ==> (x matches Ok(v) && old(self).seqno < final(self).records().len() && v@ == final(self).records()[old(self).seqno as int] && final(self).seqno == old(self).seqno + 1),
            r is None ==> old(self).seqno >= old(self).shown() && final(self).seqno == old(self).seqno,
    //@end
}
