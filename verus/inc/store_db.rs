// ---- the store ------------------------------------------------------------------------------------
// handles share one store: the reference counts of its parts are erased, and with them the lock under
// which an append runs (each operation below is one critical section)
#[verifier::external_body]
pub struct Handles { h: u8 }
impl Handles {
    pub uninterp spec fn count(self) -> usize;
    /// Arc::strong_count: the number of handles, with the one asking
    #[verifier::external_body]
    pub fn strong_count(&self) -> (r: usize) ensures r == self.count() { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Handles) ensures r.count() == 1 { unimplemented!() }
}
//@item fraos/src/database.rs | struct | Database
//@rewrite Arc < FlatFile > => FlatFile
//@rewrite Arc < SeqNoIndex > => SeqNoIndex
//@rewrite Arc < Mutex < ( ) > > => Handles
//@rewrite flatfile : => pub flatfile:
//@rewrite seqno_index : => pub seqno_index:
//@rewrite write_lock : => pub write_lock:
//@end
//@item fraos/src/seqno_iter.rs | struct | SeqNoIter
//@rewrite Arc < FlatFile > => FlatFile
//@rewrite Arc < SeqNoIndex > => SeqNoIndex
//@rewrite data : => pub data:
//@rewrite index : => pub index:
//@rewrite seqno : => pub seqno:
//@end
//@rules handles
Arc :: new ( Mutex :: new ( ( ) ) ) => Handles::one()
Arc :: new ( $x ) => $x
Arc :: strong_count ( & $x ) => $x.strong_count()
let _write_guard = $x ; =>
let _ = $x ; => { let _r = $x; }
//@end
impl Clone for FlatFile {
    // Arc's
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for SeqNoIndex {
    // Arc's
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// the files hold those records, in that order
pub open spec fn stored_as(index: Seq<u8>, data: Seq<u8>, rs: Seq<Seq<u8>>, es: Seq<Entry>) -> bool {
    indexed(index, es) && laid_out(es, data.len() as int) && recs(es, data) == rs
}
pub open spec fn stored(index: Seq<u8>, data: Seq<u8>, rs: Seq<Seq<u8>>) -> bool { exists|es: Seq<Entry>| stored_as(index, data, rs, es) }
pub open spec fn store_ok(data: FlatFile, index: SeqNoIndex) -> bool {
    &&& data.wf() && index.wf() && index.tidy()
    &&& laid_out(index.entries(), data.content().len() as int)
    &&& forall|i: int| 0 <= i < index.entries().len() ==> uncut(data.inner.mmap, (#[trigger] index.entries()[i]).0 as int, index.entries()[i].1 as int)
}
pub open spec fn records_in(data: FlatFile, index: SeqNoIndex) -> Seq<Seq<u8>> { recs(index.entries(), data.content()) }
impl SeqNoIter {
    pub open spec fn wf(self) -> bool { store_ok(self.data, self.index) }
    pub open spec fn records(self) -> Seq<Seq<u8>> { records_in(self.data, self.index) }
    //@fn fraos/src/seqno_iter.rs | impl SeqNoIter | new
    //@sig Arc < FlatFile > => FlatFile
    //@sig Arc < SeqNoIndex > => SeqNoIndex
    //@spec
        ensures r.data == data, r.index == index, r.seqno == seqno
    //@end
    //@fn fraos/src/seqno_iter.rs | impl SeqNoIter | next_impl
    //@hint start
        proof { if self.seqno < self.index.entries().len() { lemma_laid(self.index.entries(), self.data.content().len() as int, self.seqno as int); } }
    //@spec
        requires old(self).wf()
        ensures
            final(self).data == old(self).data, final(self).index == old(self).index,
            old(self).seqno < old(self).records().len() ==> (r matches Ok(Some(v)) && v@ == old(self).records()[old(self).seqno as int]) && final(self).seqno == old(self).seqno + 1,
            old(self).seqno >= old(self).records().len() ==> r == Ok::<Option<Vec<u8>>, FraosError>(None) && final(self).seqno == old(self).seqno,
    //@end
    //@fn fraos/src/seqno_iter.rs | impl Iterator for SeqNoIter | next
    //@sig Self :: Item => Result<Vec<u8>, FraosError>
    //@spec
        requires old(self).wf()
        ensures
            final(self).data == old(self).data, final(self).index == old(self).index,
            old(self).seqno < old(self).records().len() ==> (r matches Some(Ok(v)) && v@ == old(self).records()[old(self).seqno as int]) && final(self).seqno == old(self).seqno + 1,
            old(self).seqno >= old(self).records().len() ==> r is None && final(self).seqno == old(self).seqno,
    //@end
}
impl Database {
    pub open spec fn wf(self) -> bool { store_ok(self.flatfile, self.seqno_index) && (self.flatfile.file() is Some == self.seqno_index.file() is Some) }
    pub open spec fn records(self) -> Seq<Seq<u8>> { records_in(self.flatfile, self.seqno_index) }
    pub open spec fn can_write(self) -> bool { self.flatfile.inner.mmap.can_write() }
    pub open spec fn unchanged(self, o: Database) -> bool { self.flatfile == o.flatfile && self.seqno_index == o.seqno_index }
    /// room in the address space for those records
    pub open spec fn room(self, rs: Seq<&[u8]>) -> bool {
        self.flatfile.inner.room(cat(bytes_of(rs)).len() as int) && self.seqno_index.inner.room(16 * rs.len() as int)
    }
    /// files that hold the content, and unused space
    pub open spec fn holds(self, fi: Seq<u8>, fd: Seq<u8>) -> bool {
        let (ci, cd) = (self.seqno_index.content(), self.flatfile.content());
        &&& ci.len() <= fi.len() && fi.take(ci.len() as int) == ci && all_zero(fi, ci.len() as int) && fi.len() % 16 == 0
        &&& cd.len() <= fd.len() && fd.take(cd.len() as int) == cd
    }
    pub proof fn lemma_holds(self, fi: Seq<u8>, fd: Seq<u8>)
        requires self.wf(), self.holds(fi, fd)
        ensures stored_as(fi, fd, self.records(), self.seqno_index.entries()), stored(fi, fd, self.records())
    {
        let (ci, cd) = (self.seqno_index.content(), self.flatfile.content());
        let es = self.seqno_index.entries();
        assert forall|i: int| 0 <= i < es.len() implies entries(fi)[i] == es[i] by {
            assert(fi.subrange(16 * i, 16 * i + 8) =~= ci.subrange(16 * i, 16 * i + 8));
            assert(fi.subrange(16 * i + 8, 16 * i + 16) =~= ci.subrange(16 * i + 8, 16 * i + 16));
        }
        assert(entries(fi).take(es.len() as int) =~= es);
        assert forall|i: int| 0 <= i < es.len() implies (#[trigger] es[i]).1 != 0 by { lemma_laid(es, cd.len() as int, i); }
        assert forall|i: int| 0 <= i < es.len() implies at(fd, es[i]) == at(cd, es[i]) by {
            lemma_laid(es, cd.len() as int, i);
            assert(at(fd, es[i]) =~= at(cd, es[i]));
        }
        assert(recs(es, fd) =~= recs(es, cd));
    }
    /// what a crash between operations leaves in the files is what a store opened on them has
    pub proof fn lemma_on_disk(self)
        requires self.wf(), self.flatfile.file() is Some
        ensures stored(self.seqno_index.file()->0@, self.flatfile.file()->0@, self.records())
    { self.lemma_holds(self.seqno_index.file()->0@, self.flatfile.file()->0@); }
    /// the files, when the store has any, hold its records
    pub open spec fn kept(self, rs: Seq<Seq<u8>>) -> bool {
        self.flatfile.file() is Some == self.seqno_index.file() is Some
        && (self.flatfile.file() matches Some(f) ==> stored(self.seqno_index.file()->0@, f@, rs))
    }
    //@fn fraos/src/database.rs | impl Drop for Database | drop
    //@as close
    //@use handles
    //@spec
        requires old(self).wf()
        ensures
            old(self).write_lock.count() > 1 ==> *final(self) == *old(self),
            final(self).kept(old(self).records()),
    //@hint start
        let ghost before = *self;
        proof {
            assert forall|fi: Seq<u8>, fd: Seq<u8>| before.holds(fi, fd) implies #[trigger] stored(fi, fd, before.records()) by { before.lemma_holds(fi, fd); }
            assert forall|s: Seq<u8>, n: int| #![trigger s.take(n)] 0 <= n <= s.len() implies s.take(n).take(n) =~= s.take(n) by {}
        }
    //@end
    /// the parts after an append
    pub open spec fn appended(self, f: FlatFile, i: SeqNoIndex, rs: Seq<Seq<u8>>, es: Seq<Entry>) -> bool {
        &&& f.wf() && i.wf() && i.tidy()
        &&& f.content() == self.flatfile.content() + cat(rs)
        &&& i.entries() == self.seqno_index.entries() + es
        &&& places(es, rs, self.flatfile.content().len() as int, rs.len() as int)
        &&& forall|c: int| #[trigger] f.inner.mmap.cut(c) ==> self.flatfile.inner.mmap.cut(c) || c == f.content().len()
    }
    pub proof fn lemma_appended(self, f: FlatFile, i: SeqNoIndex, rs: Seq<Seq<u8>>, es: Seq<Entry>)
        requires self.wf(), self.appended(f, i, rs, es), forall|j: int| 0 <= j < rs.len() ==> (#[trigger] rs[j]).len() > 0
        ensures store_ok(f, i), records_in(f, i) == self.records() + rs
    {
        let (old_es, all) = (self.seqno_index.entries(), i.entries());
        let (d0, d) = (self.flatfile.content(), f.content());
        let n = old_es.len() as int;
        assert(rs.take(0) =~= Seq::empty());
        assert forall|j: int| 0 <= j < all.len() implies #[trigger] in_place(all, j) by {
            if j < n { assert(in_place(old_es, j)); }
            else { lemma_slot(rs, j - n); if j > n { lemma_slot(rs, j - n - 1); assert(all[j - 1] == es[j - n - 1]); } assert(all[j] == es[j - n]); }
        }
        if rs.len() > 0 { lemma_slot(rs, rs.len() - 1); assert(all[all.len() - 1] == es[rs.len() - 1]); }
        assert(laid_out(all, d.len() as int));
        assert forall|j: int| 0 <= j < all.len() implies uncut(f.inner.mmap, (#[trigger] all[j]).0 as int, all[j].1 as int) && at(d, all[j]) == (self.records() + rs)[j] by {
            lemma_laid(all, d.len() as int, j);
            if j < n {
                lemma_laid(old_es, d0.len() as int, j);
                assert(uncut(self.flatfile.inner.mmap, old_es[j].0 as int, old_es[j].1 as int));
                assert(at(d, all[j]) =~= at(d0, old_es[j]));
            } else {
                assert(all[j] == es[j - n]);
                lemma_slot(rs, j - n);
                assert forall|c: int| #[trigger] f.inner.mmap.cut(c) && c > all[j].0 implies c >= all[j].0 + all[j].1 by {
                    if self.flatfile.inner.mmap.cut(c) { self.flatfile.inner.mmap.cut_within(c); }
                }
                assert(at(d, all[j]) =~= cat(rs).subrange(ends(rs, j - n), ends(rs, j - n + 1)));
            }
        }
        assert(recs(all, d) =~= self.records() + rs);
    }
    //@fn fraos/src/database.rs | impl Database | len
    //@spec
        requires self.wf()
        ensures r == self.records().len()
    //@end
    //@fn fraos/src/database.rs | impl Database | is_empty
    //@spec
        requires self.wf()
        ensures r == (self.records().len() == 0)
    //@end
    //@fn fraos/src/database.rs | impl Database | get_by_seqno
    //@hint start
        proof { if seqno < self.records().len() { lemma_laid(self.seqno_index.entries(), self.flatfile.content().len() as int, seqno as int); } }
    //@spec
        requires self.wf()
        ensures
            seqno < self.records().len() ==> (r matches Ok(Some(v)) && v@ == self.records()[seqno as int]),
            seqno >= self.records().len() ==> r == Ok::<Option<Vec<u8>>, FraosError>(None),
    //@end
    //@fn fraos/src/database.rs | impl Database | last
    //@spec
        requires self.wf()
        ensures
            self.records().len() > 0 ==> (r matches Ok(Some(v)) && v@ == self.records().last()),
            self.records().len() == 0 ==> r == Ok::<Option<Vec<u8>>, FraosError>(None),
    //@end
    //@fn fraos/src/database.rs | impl Database | iter_from_seqno
    //@spec
        requires self.wf()
        ensures r matches Some(it) && it.wf() && it.records() == self.records() && it.seqno == seqno
    //@end
    //@fn fraos/src/database.rs | impl Database | append_get_seqno
    //@use handles
    //@sig & self => &mut self
    //@rewrite records . iter ( ) => slice_iter(records)
    //@desugar for.it
    //@spec
        requires old(self).wf(), old(self).room(records@)
        ensures
            records@.len() == 0 ==> r == Ok::<Option<usize>, FraosError>(None) && *final(self) == *old(self),
            any_empty(records@) ==> r is Err && final(self).unchanged(*old(self)),
            records@.len() > 0 && !old(self).can_write() ==> r is Err && final(self).unchanged(*old(self)),
            r is Ok && records@.len() > 0 ==> {
                &&& final(self).wf() && final(self).can_write()
                &&& r == Ok::<Option<usize>, FraosError>(Some(old(self).records().len() as usize))
                &&& final(self).records() == old(self).records() + bytes_of(records@)
                &&& final(self).flatfile.file() is Some == old(self).flatfile.file() is Some
            },
            r matches Err(e) ==> io_error(e) || any_empty(records@),
    //@hint start
        let ghost before = *self;
        let ghost mut k: int = 0;
        let ghost rs = bytes_of(records@);
        proof {
            assert(rs.take(0) =~= Seq::empty());
            let n = before.flatfile.content().len() as int;
            assert forall|f: FlatFile, i: SeqNoIndex, es: Seq<Entry>| #![trigger store_ok(f, i), places(es, rs, n, rs.len() as int)]
                before.appended(f, i, rs, es) && !any_empty(records@) implies store_ok(f, i) && records_in(f, i) == before.records() + rs by
            {
                assert forall|j: int| 0 <= j < rs.len() implies (#[trigger] rs[j]).len() > 0 by { assert(records@[j]@.len() > 0); }
                before.lemma_appended(f, i, rs, es);
            }
        }
    //@loop 0
        invariant_except_break
            0 <= k <= rs.len(),
            __it0@ == refs(records@).skip(k),
            offset == initial_size + ends(rs, k),
            places(seqno_index_update@, rs, initial_size as int, k),
        invariant
            *self == before, rs == bytes_of(records@), initial_size == before.flatfile.content().len(), before.room(records@),
        ensures
            places(seqno_index_update@, rs, initial_size as int, rs.len() as int),
        decreases rs.len() - k
    //@hint loop-start 0
            proof { if k < rs.len() { lemma_slot(rs, k); } }
    //@hint loop-end 0
            proof { k = k + 1; }
    //@hint before Ok ( seqno )
        proof { assert(self.wf()); }
    //@end
    //@fn fraos/src/database.rs | impl Database | append
    //@sig & self => &mut self
    //@desugar res.map
    //@spec
        requires old(self).wf(), old(self).room(records@)
        ensures
            records@.len() == 0 ==> r is Ok && *final(self) == *old(self),
            any_empty(records@) ==> r is Err && final(self).unchanged(*old(self)),
            records@.len() > 0 && !old(self).can_write() ==> r is Err && final(self).unchanged(*old(self)),
            r is Ok ==> final(self).wf() && final(self).records() =~= old(self).records() + bytes_of(records@),
            r matches Err(e) ==> io_error(e) || any_empty(records@),
    //@end
    //@fn fraos/src/database.rs | impl Database | put
    //@sig & self => &mut self
    //@spec
        requires old(self).wf(), old(self).flatfile.inner.room(record@.len() as int), old(self).seqno_index.inner.room(16)
        ensures
            record@.len() == 0 || !old(self).can_write() ==> r is Err && final(self).unchanged(*old(self)),
            r is Ok ==> final(self).wf() && final(self).records() =~= old(self).records().push(record@),
            r matches Err(e) ==> io_error(e) || record@.len() == 0,
    //@hint start
        proof { lemma_one(record); }
    //@end
    //@fn fraos/src/database.rs | impl Database | put_seqno
    //@sig & self => &mut self
    //@spec
        requires old(self).wf(), old(self).flatfile.inner.room(record@.len() as int), old(self).seqno_index.inner.room(16)
        ensures
            record@.len() == 0 || !old(self).can_write() ==> r is Err && final(self).unchanged(*old(self)),
            r matches Ok(k) ==> final(self).wf() && k == old(self).records().len() && final(self).records() =~= old(self).records().push(record@),
            r matches Err(e) ==> io_error(e) || record@.len() == 0,
    //@hint start
        proof { lemma_one(record); }
    //@end
    //@fn fraos/src/database.rs | impl Database | new
    //@use handles
    //@hint start
        broadcast use disk_size;
        let ghost rs = Seq::<Seq<u8>>::empty();
        proof {
            if seqno_index_path is Some && flatfile_path is Some {
                assert forall|rs: Seq<Seq<u8>>, es: Seq<Entry>| #[trigger] stored_as(disk(seqno_index_path->0), disk(flatfile_path->0), rs, es) implies opens(es, disk(flatfile_path->0), rs) by {
                    lemma_opens(es, disk(flatfile_path->0), rs);
                }
            }
        }
    //@spec
        requires
            seqno_index_path is Some == flatfile_path is Some,
            seqno_index_path matches Some(i) ==> (flatfile_path matches Some(d) && openable(i, d)),
        ensures
            r matches Ok(db) ==> {
                &&& db.wf() && db.write_lock.count() == 1
                &&& seqno_index_path is None ==> db.records() =~= Seq::<Seq<u8>>::empty() && db.can_write() && db.flatfile.file() is None
                &&& seqno_index_path matches Some(i) ==> flatfile_path matches Some(d) && {
                    &&& db.flatfile.file() is Some && db.can_write() == writable
                    &&& forall|rs: Seq<Seq<u8>>| stored(disk(i), disk(d), rs) ==> db.records() == rs
                }
            },
            r matches Err(e) ==> io_error(e),
    //@end
    //@fn fraos/src/database.rs | impl Database | memory
    //@spec
        ensures r matches Ok(db) ==> db.wf() && db.write_lock.count() == 1 && db.records() =~= Seq::<Seq<u8>>::empty() && db.can_write() && db.flatfile.file() is None, r matches Err(e) ==> io_error(e)
    //@end
    //@fn fraos/src/database.rs | impl Database | file_inner
    //@sig < P : AsRef < Path > > ( path : P => (path: PathBuf
    //@rewrite path . as_ref ( ) => &path
    //@rewrite std :: fs :: create_dir => create_dir
    //@desugar res.map_err
    //@hint start
        proof {
            let rs = choose|rs: Seq<Seq<u8>>| at_path(path, rs);
            assert(stored(disk(joined_path(path, "seqno"@)), disk(joined_path(path, "data"@)), rs));
            assert(openable(joined_path(path, "seqno"@), joined_path(path, "data"@)));
        }
    //@spec
        requires exists|rs: Seq<Seq<u8>>| at_path(path, rs)
        ensures opened(r, path, writable)
    //@end
    //@fn fraos/src/database.rs | impl Database | file
    //@sig < P : AsRef < Path > > ( path : P => (path: PathBuf
    //@spec
        requires exists|rs: Seq<Seq<u8>>| at_path(path, rs)
        ensures opened(r, path, true)
    //@end
    //@fn fraos/src/database.rs | impl Database | file_readonly
    //@sig < P : AsRef < Path > > ( path : P => (path: PathBuf
    //@spec
        requires exists|rs: Seq<Seq<u8>>| at_path(path, rs)
        ensures opened(r, path, false)
    //@end
}
/// the files of a store, in its directory
pub open spec fn at_path(p: PathBuf, rs: Seq<Seq<u8>>) -> bool { stored(disk(joined_path(p, "seqno"@)), disk(joined_path(p, "data"@)), rs) }
pub open spec fn opened(r: Result<Database, FraosError>, p: PathBuf, writable: bool) -> bool {
    &&& r matches Ok(db) ==> {
        &&& db.wf() && db.write_lock.count() == 1 && db.flatfile.file() is Some
        &&& db.can_write() == writable
        &&& forall|rs: Seq<Seq<u8>>| #[trigger] at_path(p, rs) ==> db.records() == rs
    }
    &&& r matches Err(e) ==> io_error(e)
}
/// a directory without files yet
pub proof fn lemma_fresh(p: PathBuf)
    requires disk(joined_path(p, "seqno"@)).len() == 0
    ensures at_path(p, Seq::empty())
{
    let (fi, fd) = (disk(joined_path(p, "seqno"@)), disk(joined_path(p, "data"@)));
    let es = Seq::<Entry>::empty();
    assert(entries(fi).take(0) =~= es);
    assert(recs(es, fd) =~= Seq::empty());
    assert(stored_as(fi, fd, Seq::empty(), es));
}
pub open spec fn openable(i: PathBuf, d: PathBuf) -> bool { exists|rs: Seq<Seq<u8>>| #[trigger] stored(disk(i), disk(d), rs) }
/// opened with the data up to the end of the last record
pub open spec fn opens(es: Seq<Entry>, data: Seq<u8>, rs: Seq<Seq<u8>>) -> bool {
    &&& from(es, es.len() as int) <= data.len()
    &&& laid_out(es, from(es, es.len() as int))
    &&& recs(es, data.take(from(es, es.len() as int))) == rs
    &&& forall|i: int| 0 <= i < es.len() ==> 0 <= (#[trigger] es[i]).0 + es[i].1 <= from(es, es.len() as int)
}
pub proof fn lemma_opens(es: Seq<Entry>, data: Seq<u8>, rs: Seq<Seq<u8>>)
    requires laid_out(es, data.len() as int), recs(es, data) == rs
    ensures opens(es, data, rs)
{
    let n = from(es, es.len() as int);
    assert forall|i: int| 0 <= i < es.len() implies 0 <= (#[trigger] es[i]).0 + es[i].1 <= n && at(data.take(n), es[i]) == rs[i] by {
        lemma_laid(es, data.len() as int, i);
        assert(at(data.take(n), es[i]) =~= at(data, es[i]));
        assert(rs[i] == at(data, es[i]));
    }
    assert(recs(es, data.take(n)) =~= rs);
    if es.len() == 0 {} else { lemma_laid(es, data.len() as int, es.len() - 1); }
}
