// ---- the data file --------------------------------------------------------------------------------
pub open spec fn cat(rs: Seq<Seq<u8>>) -> Seq<u8>
    decreases rs.len()
{ if rs.len() == 0 { Seq::empty() } else { cat(rs.drop_last()) + rs.last() } }
pub open spec fn bytes_of(rs: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(rs.len(), |i: int| rs[i]@) }
pub open spec fn any_empty(rs: Seq<&[u8]>) -> bool { exists|i: int| 0 <= i < rs.len() && #[trigger] rs[i]@.len() == 0 }
pub open spec fn lens(rs: Seq<&[u8]>) -> Seq<usize> { Seq::new(rs.len(), |i: int| rs[i]@.len() as usize) }
pub proof fn lemma_cat(rs: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= rs.len()
    ensures
        cat(rs.take(n)).len() <= cat(rs).len(),
        cat(rs.take(n)) == cat(rs).take(cat(rs.take(n)).len() as int),
        n < rs.len() ==> cat(rs.take(n + 1)) == cat(rs.take(n)) + rs[n],
    decreases rs.len() - n
{
    if n < rs.len() {
        lemma_cat(rs, n + 1);
        assert(rs.take(n + 1).drop_last() =~= rs.take(n));
        assert(cat(rs.take(n)) =~= cat(rs).take(cat(rs.take(n)).len() as int));
    } else { assert(rs.take(n) =~= rs); }
}
pub open spec fn ends(rs: Seq<Seq<u8>>, n: int) -> int { cat(rs.take(n)).len() as int }
/// record n lies between where the records before it end, and where they end with it
pub proof fn lemma_slot(rs: Seq<Seq<u8>>, n: int)
    requires 0 <= n < rs.len()
    ensures
        0 <= ends(rs, n), ends(rs, n + 1) == ends(rs, n) + rs[n].len(), ends(rs, n + 1) <= cat(rs).len(),
        cat(rs).subrange(ends(rs, n), ends(rs, n + 1)) == rs[n],
{
    lemma_cat(rs, n);
    lemma_cat(rs, n + 1);
    assert(cat(rs).subrange(ends(rs, n), ends(rs, n + 1)) =~= cat(rs.take(n + 1)).subrange(ends(rs, n), ends(rs, n + 1)));
    assert(cat(rs).subrange(ends(rs, n), ends(rs, n + 1)) =~= rs[n]);
}
pub proof fn lemma_total(rs: Seq<&[u8]>)
    requires cat(bytes_of(rs)).len() <= usize::MAX
    ensures total(lens(rs)) == cat(bytes_of(rs)).len()
    decreases rs.len()
{
    if rs.len() > 0 {
        assert(bytes_of(rs).drop_last() =~= bytes_of(rs.drop_last()));
        assert(lens(rs).drop_last() =~= lens(rs.drop_last()));
        lemma_total(rs.drop_last());
    }
}
/// assumed: iterating over a slice, `.any`, `.sum`, `Write for &mut [u8]`
#[verifier::external_body]
pub fn slice_iter<'a, T>(v: &'a [T]) -> (r: It<&'a T>) ensures r@ == refs(v@), forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> r@[i] == &v@[i] { unimplemented!() }
pub open spec fn total(s: Seq<usize>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last() } }
impl<T> It<T> {
    #[verifier::external_body] pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures
            r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
}
impl It<usize> {
    /// a sum may not overflow
    #[verifier::external_body] pub fn sum(self) -> (r: usize)
        requires total(self@) <= usize::MAX
        ensures r == total(self@)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn write_all<'a>(s: &'a mut [u8], r: &[u8]) -> (x: Result<&'a mut [u8], io::Error>)
    ensures
        old(s)@.len() >= r@.len() ==> (x matches Ok(rest)
            && rest@ == old(s)@.skip(r@.len() as int) && final(rest)@.len() == rest@.len() && final(s)@ == r@ + final(rest)@)
{ unimplemented!() }
//@item fraos/src/flatfile.rs | struct | FlatFile
//@rewrite pub ( crate ) struct => pub struct
//@rewrite inner : => pub inner:
//@end
/// the locations of records are not in the middle of what an append wrote
pub open spec fn uncut(m: GrowableMmap, offset: int, length: int) -> bool { forall|c: int| #[trigger] m.cut(c) && c > offset ==> c >= offset + length }
impl FlatFile {
    pub open spec fn wf(self) -> bool { self.inner.wf() }
    pub open spec fn settled(self) -> bool { self.wf() && self.inner.settled() }
    pub open spec fn content(self) -> Seq<u8> { self.inner.content() }
    pub open spec fn file(self) -> Option<File> { self.inner.file() }
//@if !shared
    //@fn fraos/src/flatfile.rs | impl FlatFile | new
    //@desugar res.map
    //@spec
        ensures
            r matches Ok(a) ==> {
                &&& a.wf()
                &&& path is None ==> a.file() is None && a.content() =~= Seq::<u8>::empty()
                &&& path matches Some(p) ==> {
                    &&& a.file() matches Some(f)
                    &&& f@ == disk(p) && can_write(f) == writable
                    &&& existing_length <= disk(p).len()
                    &&& a.content() =~= disk(p).take(existing_length as int)
                }
                &&& forall|c: int| #[trigger] a.inner.mmap.cut(c) ==> c == a.content().len()
            },
            r matches Err(e) ==> io_error(e) || (e is DataFileDamaged && (path matches Some(p) && existing_length > disk(p).len())),
    //@end
//@fi
    //@fn fraos/src/flatfile.rs | impl FlatFile | append
//@if shared
    //@sig & self , => &mut self, mine: &Mine,
//@else
    //@sig & self => &mut self
//@fi
    //@rewrite records . iter ( ) => slice_iter(records)
    //@rewrite . any ( | $r! | $x ) => .any(|$r: &&[u8]| -> (b: bool) ensures b == ($r@.len() == 0) { $x })
    //@rewrite . map ( | $r! | $r! . len ( ) ) => .map(|$r: &&[u8]| -> (n: usize) ensures n == $r@.len() { $r.len() })
    //@rewrite slice_iter ( records ) . map ( $x ) . sum ( ) => { let ns_ = slice_iter(records).map($x); proof { assert(ns_@ =~= lens(records@)); } ns_.sum() }
    //@rewrite self . inner . append ( $n , move | mut mmap | { $x~ } ) => { let n_ = $n; let f_ = |m0: &mut [u8]| -> (r: Result<(), FraosError>) requires m0@.len() >= cat(bytes_of(records@)).len() ensures r is Ok, final(m0)@ == cat(bytes_of(records@)) + old(m0)@.skip(cat(bytes_of(records@)).len() as int) { let mut mmap = m0; $x }; proof { assert(writes(f_, cat(bytes_of(records@)))); } self.inner.append(n_, f_) }
    //@rewrite record in records => record in slice_iter(records)
    //@rewrite mmap . write_all ( $x ) . map_err ( $y ) ? => mmap = write_all(mmap, $x).map_err($y)?
//@if shared
    //@rewrite self . inner . append ( n_ , f_ ) => self.inner.append(mine, n_, f_)
    //@rewrite self . len ( ) => self.len(&mut mine.step())
//@fi
    //@desugar for.it res.map_err
    //@spec
        requires old(self).settled(), old(self).inner.room(cat(bytes_of(records@)).len() as int)
        ensures
            records@.len() == 0 ==> r is Ok && *final(self) == *old(self),
            any_empty(records@) ==> r is Err && *final(self) == *old(self),
            records@.len() > 0 && !old(self).inner.mmap.can_write() ==> r is Err && *final(self) == *old(self),
            r is Ok && records@.len() > 0 ==> {
                &&& final(self).settled() && !any_empty(records@)
                &&& final(self).file() is Some == old(self).file() is Some
                &&& final(self).content() == old(self).content() + cat(bytes_of(records@))
                &&& forall|c: int| #[trigger] final(self).inner.mmap.cut(c) ==> old(self).inner.mmap.cut(c) || c == final(self).content().len()
                &&& final(self).inner.mmap.can_write() && old(self).inner.mmap.can_write()
            },
            r matches Err(e) ==> io_error(e) || any_empty(records@),
    //@hint start
        proof {
            if cat(bytes_of(records@)).len() <= usize::MAX { lemma_total(records@); }
            if records@.len() > 0 { lemma_slot(bytes_of(records@), 0); assert(records@[0]@.len() > 0 || any_empty(records@)); }
        }
    //@hint before-loop 0
            let ghost old0 = mmap@;
            let ghost f0 = final(mmap)@;
            let ghost mut k: int = 0;
            let ghost rs = bytes_of(records@);
            proof { assert(mmap@ =~= old0.skip(0)); assert(rs.take(0) =~= Seq::empty()); assert(f0 =~= cat(rs.take(0)) + final(mmap)@); }
    //@loop 0
            invariant_except_break
                0 <= k <= rs.len(), rs == bytes_of(records@), old0.len() >= cat(rs).len(),
                __it0@ == refs(records@).skip(k),
                mmap@ == old0.skip(ends(rs, k)),
                f0 == cat(rs.take(k)) + final(mmap)@,
            ensures
                mmap@ == old0.skip(cat(rs).len() as int), f0 == cat(rs) + final(mmap)@,
            decreases rs.len() - k
    //@hint loop-start 0
                proof { if k == rs.len() { assert(rs.take(k) =~= rs); } else { lemma_slot(rs, k); lemma_cat(rs, k); } }
    //@hint after mmap = ( $x ) ? ;
                proof {
                    assert(mmap@ =~= old0.skip(ends(rs, k + 1)));
                    assert(f0 =~= cat(rs.take(k + 1)) + final(mmap)@);
                    k = k + 1;
                }
    //@end
    //@fn fraos/src/flatfile.rs | impl FlatFile | get_record_at_offset
    //@rewrite move | mmap | { $x~ } => |mmap: &[u8]| -> (r: Result<Option<Vec<u8>>, FraosError>) ensures mmap@.len() >= length ==> (r matches Ok(Some(v)) && v@ == mmap@.take(length as int)) { $x }
    //@rewrite mmap [ .. $b ] . to_vec ( ) => (&mmap[0..$b]).to_vec()
//@if shared
    //@sig & self , => &self, st: &mut Steps,
    //@rewrite self . inner . get_data ( $a , $b ) => self.inner.get_data(st, $a, $b)
//@fi
    //@spec
        requires
            self.wf(), uncut(self.inner.mmap, offset as int, length as int),
//@if shared
            old(st).left() >= 1,
//@fi
        ensures
            offset >= self.content().len() ==> r == Ok::<Option<Vec<u8>>, FraosError>(None),
            offset < self.content().len() ==> (r matches Ok(Some(v)) && offset + length <= self.content().len() && v@ =~= self.content().subrange(offset as int, offset + length)),
    //@end
    //@fn fraos/src/flatfile.rs | impl FlatFile | memory_size
//@if shared
    //@sig & self => &self, st: &mut Steps
    //@rewrite self . inner . memory_size ( ) => self.inner.memory_size(st)
//@fi
    //@spec
        requires
            self.wf(),
//@if shared
            old(st).left() >= 1,
//@fi
        ensures r == self.inner.actual_size
    //@end
//@if !shared
    //@fn fraos/src/flatfile.rs | impl FlatFile | shrink_to_size
    //@sig & self => &mut self
    //@spec
        requires old(self).wf()
        ensures shrunk(old(self).inner, final(self).inner, r)
    //@end
//@fi
}
/// closing: a file is cut to its content
pub open spec fn shrunk(before: Appender, after: Appender, r: Result<(), FraosError>) -> bool {
    &&& after.mmap.storage == before.mmap.storage && after.actual_size == before.actual_size
    &&& before.file() is None ==> after.file() is None && r is Ok
    &&& before.file() matches Some(f) ==> {
        &&& after.file() matches Some(g)
        &&& can_write(f) == can_write(g)
        &&& r is Ok ==> g@ =~= f@.take(before.content().len() as int)
        &&& r is Err ==> g == f
    }
}
// ---- the index file -------------------------------------------------------------------------------
//@item fraos/src/seqno.rs | struct | SeqNoIndex
//@rewrite pub ( crate ) struct => pub struct
//@rewrite inner : => pub inner:
//@end
//@item fraos/src/seqno.rs | const | impl SeqNoIndex ::> SIZE_OF_USIZE
//@rewrite const SIZE_OF_USIZE => pub const SIZE_OF_USIZE
//@rewrite size_of :: < usize > ( ) => 8
//@end
//@rules index
Self :: SIZE_OF_USIZE => SIZE_OF_USIZE
//@end
pub type Entry = (usize, usize);
pub open spec fn entry(s: Seq<u8>, i: int) -> Entry { (of_le(s.subrange(16 * i, 16 * i + 8)), of_le(s.subrange(16 * i + 8, 16 * i + 16))) }
pub open spec fn entries(s: Seq<u8>) -> Seq<Entry> { Seq::new((s.len() / 16) as nat, |i: int| entry(s, i)) }
pub open spec fn some_empty(es: Seq<Entry>) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).1 == 0 }
/// the first n entries are used, the others are not
pub open spec fn used(es: Seq<Entry>, n: int) -> bool {
    &&& 0 <= n <= es.len()
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] es[i]).1 != 0
    &&& forall|i: int| n <= i < es.len() ==> (#[trigger] es[i]).1 == 0
}
/// an index file: those entries, and unused space
pub open spec fn indexed(s: Seq<u8>, es: Seq<Entry>) -> bool {
    s.len() % 16 == 0 && es.len() <= s.len() / 16 && !some_empty(es) && entries(s).take(es.len() as int) == es && all_zero(s, 16 * es.len() as int)
}
pub proof fn lemma_indexed(s: Seq<u8>, es: Seq<Entry>)
    requires indexed(s, es)
    ensures used(entries(s), es.len() as int), entries(s.take(16 * es.len() as int)) == es
{
    broadcast use le::zero;
    assert forall|i: int| 0 <= i < es.len() implies (#[trigger] entries(s)[i]).1 != 0 by { assert(entries(s).take(es.len() as int)[i] == es[i]); }
    assert forall|i: int| es.len() <= i < entries(s).len() implies (#[trigger] entries(s)[i]).1 == 0 by {
        let b = s.subrange(16 * i + 8, 16 * i + 16);
        assert forall|j: int| 0 <= j < 8 implies #[trigger] b[j] == 0u8 by { assert(s[16 * i + 8 + j] == 0); }
        assert(b =~= zeros(8));
    }
    let t = s.take(16 * es.len() as int);
    assert forall|i: int| 0 <= i < es.len() implies entries(t)[i] == es[i] by {
        assert(entries(s).take(es.len() as int)[i] == es[i]);
        assert(t.subrange(16 * i, 16 * i + 8) =~= s.subrange(16 * i, 16 * i + 8));
        assert(t.subrange(16 * i + 8, 16 * i + 16) =~= s.subrange(16 * i + 8, 16 * i + 16));
    }
    assert(entries(t) =~= es);
}
pub open spec fn pack(rs: Seq<Entry>) -> Seq<u8>
    decreases rs.len()
{ if rs.len() == 0 { Seq::empty() } else { pack(rs.drop_last()) + (le_of(rs.last().0) + le_of(rs.last().1)) } }
pub proof fn lemma_pack(rs: Seq<Entry>, n: int)
    requires 0 <= n <= rs.len()
    ensures
        pack(rs.take(n)).len() == 16 * n, pack(rs).len() == 16 * rs.len(),
        pack(rs.take(n)) == pack(rs).take(16 * n),
        n < rs.len() ==> pack(rs.take(n + 1)) == pack(rs.take(n)) + (le_of(rs[n].0) + le_of(rs[n].1)),
    decreases 2 * rs.len() - n
{
    broadcast use le::back;
    if n < rs.len() {
        lemma_pack(rs, n + 1);
        assert(rs.take(n + 1).drop_last() =~= rs.take(n));
        assert(pack(rs.take(n)) =~= pack(rs).take(16 * n));
    } else {
        assert(rs.take(n) =~= rs);
        if n > 0 { lemma_pack(rs.drop_last(), n - 1); assert(rs.drop_last().take(n - 1) =~= rs.drop_last()); }
        assert(pack(rs) =~= pack(rs).take(16 * n));
    }
}
/// entries written after others
pub proof fn lemma_entries(s: Seq<u8>, rs: Seq<Entry>)
    requires s.len() % 16 == 0
    ensures entries(s + pack(rs)) =~= entries(s) + rs
{
    broadcast use le::back;
    lemma_pack(rs, rs.len() as int);
    let t = s + pack(rs);
    let k = s.len() / 16;
    assert forall|i: int| 0 <= i < k + rs.len() implies entry(t, i) == (entries(s) + rs)[i] by {
        if i < k {
            assert(t.subrange(16 * i, 16 * i + 8) =~= s.subrange(16 * i, 16 * i + 8));
            assert(t.subrange(16 * i + 8, 16 * i + 16) =~= s.subrange(16 * i + 8, 16 * i + 16));
        } else {
            let j = i - k;
            lemma_pack(rs, j);
            lemma_pack(rs, j + 1);
            assert(t.subrange(16 * i, 16 * i + 8) =~= pack(rs.take(j + 1)).subrange(16 * j, 16 * j + 8));
            assert(t.subrange(16 * i, 16 * i + 8) =~= le_of(rs[j].0));
            assert(t.subrange(16 * i + 8, 16 * i + 16) =~= pack(rs.take(j + 1)).subrange(16 * j + 8, 16 * j + 16));
            assert(t.subrange(16 * i + 8, 16 * i + 16) =~= le_of(rs[j].1));
        }
    }
}
impl SeqNoIndex {
    pub open spec fn wf(self) -> bool {
        &&& self.inner.wf()
        &&& self.content().len() % 16 == 0
        &&& forall|c: int| #[trigger] self.inner.mmap.cut(c) ==> c % 16 == 0
    }
    pub open spec fn settled(self) -> bool { self.wf() && self.inner.settled() }
    pub open spec fn content(self) -> Seq<u8> { self.inner.content() }
    pub open spec fn entries(self) -> Seq<Entry> { entries(self.content()) }
    /// how many entries other threads know of
    pub open spec fn shown(self) -> int { self.inner.actual_size as int / 16 }
    pub open spec fn file(self) -> Option<File> { self.inner.file() }
    /// what is in its file, and nothing else is
    pub open spec fn tidy(self) -> bool { self.inner.mmap.clean() && (self.file() matches Some(f) ==> f@.len() % 16 == 0) }
    //@fn fraos/src/seqno.rs | impl SeqNoIndex | len
    //@use index
//@if shared
    //@sig & self => &self, st: &mut Steps
    //@rewrite self . inner . memory_size ( ) => self.inner.memory_size(st)
    //@spec
        requires self.wf(), old(st).left() >= 1
        ensures r == self.shown(), self.inner.settled() ==> r == self.entries().len()
//@else
    //@spec
        requires self.wf()
        ensures r == self.entries().len(), 16 * r == self.content().len(), 16 * r <= usize::MAX
//@fi
    //@end
//@if !shared
    //@fn fraos/src/seqno.rs | impl SeqNoIndex | is_empty
    //@spec
        requires self.wf()
        ensures r == (self.entries().len() == 0)
    //@end
//@fi
//@if !shared
    //@fn fraos/src/seqno.rs | impl SeqNoIndex | is_correct
    //@use index
    //@spec
        requires self.inner.wf()
        ensures r is Ok <==> self.content().len() % 16 == 0, r is Ok || r->Err_0 is IndexFileDamaged
    //@end
//@fi
    //@fn fraos/src/seqno.rs | impl SeqNoIndex | get_offset_and_length
    //@use index
    //@rewrite $x! . copy_from_slice ( $y ) => fill(&mut $x, $y)
    //@rewrite mmap [ .. $b ] => mmap[0..$b]
    //@rewrite usize :: from_le_bytes => from_le
    //@rewrite | mmap | { $x~ } => |mmap: &[u8]| -> (r: Result<Option<Entry>, FraosError>) requires mmap@.len() >= 16 ensures r == Ok::<Option<Entry>, FraosError>(Some((of_le(mmap@.subrange(0, 8)), of_le(mmap@.subrange(8, 16))))) { $x }
//@if shared
    //@sig & self , => &self, st: &mut Steps,
    //@rewrite self . inner . get_data ( $a , $b ) => self.inner.get_data(st, $a, $b)
//@fi
    //@spec
        requires
            self.wf(),
//@if shared
            old(st).left() >= 1,
//@fi
        ensures
            seqno < self.entries().len() ==> r == Ok::<Option<Entry>, FraosError>(Some(self.entries()[seqno as int])),
            seqno >= self.entries().len() ==> r == Ok::<Option<Entry>, FraosError>(None),
    //@hint start
        proof {
            self.inner.mmap.fits();
            assert forall|s: &[u8]| #[trigger] self.inner.mmap.piece(16 * seqno, s@) implies s@.len() >= 16
                && s@.subrange(0, 8) =~= self.content().subrange(16 * seqno, 16 * seqno + 8) && s@.subrange(8, 16) =~= self.content().subrange(16 * seqno + 8, 16 * seqno + 16) by {}
        }
    //@end
//@if !shared
    //@fn fraos/src/seqno.rs | impl SeqNoIndex | get_length_at
    //@spec
        requires self.wf()
        ensures
            at < self.entries().len() ==> r == Ok::<usize, FraosError>(self.entries()[at as int].1),
            at >= self.entries().len() ==> r is Err && r->Err_0 is IndexFileDamaged,
    //@end
//@fi
//@if !shared
    //@fn fraos/src/seqno.rs | impl SeqNoIndex | last
    //@spec
        requires self.wf()
        ensures
            self.entries().len() == 0 ==> r == Ok::<Option<Entry>, FraosError>(None),
            self.entries().len() > 0 ==> r == Ok::<Option<Entry>, FraosError>(Some(self.entries().last())),
    //@end
//@fi
//@if !shared
    //@fn fraos/src/seqno.rs | impl SeqNoIndex | find_actual_end
    //@spec
        requires self.wf(), self.entries().len() > 0, exists|n: int| used(self.entries(), n)
        ensures r matches Ok(n) && used(self.entries(), n as int) && 16 * n <= self.content().len() <= usize::MAX
    //@hint start
        let ghost n = choose|n: int| used(self.entries(), n);
    //@loop 0
        invariant
            self.wf(), len == self.entries().len(), 16 * len <= usize::MAX, used(self.entries(), n),
            start < n <= end <= len, n < len,
        decreases end - start
    //@end
//@fi
//@if !shared
    //@fn fraos/src/seqno.rs | impl SeqNoIndex | shrink_to_size
    //@sig & self => &mut self
    //@spec
        requires old(self).wf()
        ensures shrunk(old(self).inner, final(self).inner, r)
    //@end
//@fi
    //@fn fraos/src/seqno.rs | impl SeqNoIndex | append
    //@use index
//@if shared
    //@sig & self , => &mut self, mine: &Mine,
//@else
    //@sig & self => &mut self
//@fi
    //@rewrite Err ( EmptyRecordAppended ) => Err(FraosError::EmptyRecordAppended)
    //@rewrite records . iter ( ) => slice_iter(records)
    //@rewrite . any ( | $p | $x ) => .any(|e: &Entry| -> (b: bool) ensures b == (e.1 == 0) { let $p = e; $x })
    //@rewrite self . inner . append ( $n , move | mut mmap | { $x~ } ) => { let n_ = $n; let f_ = |m0: &mut [u8]| -> (r: Result<(), FraosError>) requires m0@.len() >= 16 * records@.len(), n_ == 16 * records@.len() ensures r is Ok, final(m0)@ == pack(records@) + old(m0)@.skip(16 * records@.len() as int) { let mut mmap = m0; $x }; proof { assert(writes(f_, pack(records@))); } self.inner.append(n_, f_) }
    //@rewrite mmap [ .. $b ] . copy_from_slice ( & $x! . to_le_bytes ( ) [ .. ] ) => put(part_mut(mmap, 0, $b), to_le(*$x))
    //@rewrite mmap [ $a .. $b ] . copy_from_slice ( & $x! . to_le_bytes ( ) [ .. ] ) => put(part_mut(mmap, $a, $b), to_le(*$x))
    //@rewrite mmap = & mut mmap [ $a .. ] => mmap = tail_mut(mmap, $a)
    //@rewrite $p in records => $p in slice_iter(records)
//@if shared
    //@rewrite self . inner . append ( n_ , f_ ) => self.inner.append(mine, n_, f_)
    //@rewrite self . len ( ) => self.len(&mut mine.step())
//@fi
    //@desugar for.it
    //@spec
        requires old(self).settled(), old(self).inner.room(16 * records@.len() as int)
        ensures
            records@.len() == 0 ==> r == Ok::<Option<usize>, FraosError>(None) && *final(self) == *old(self),
            some_empty(records@) ==> r is Err && *final(self) == *old(self),
            records@.len() > 0 && !old(self).inner.mmap.can_write() ==> r is Err && *final(self) == *old(self),
            r is Ok && records@.len() > 0 ==> {
                &&& final(self).settled() && !some_empty(records@)
                &&& r == Ok::<Option<usize>, FraosError>(Some(old(self).entries().len() as usize))
                &&& final(self).entries() == old(self).entries() + records@
                &&& final(self).content() == old(self).content() + pack(records@)
                &&& forall|c: int| #[trigger] final(self).inner.mmap.cut(c) ==> old(self).inner.mmap.cut(c) || c == final(self).content().len()
                &&& final(self).file() is Some == old(self).file() is Some
                &&& final(self).inner.mmap.can_write() && old(self).inner.mmap.can_write()
                &&& old(self).tidy() ==> final(self).tidy()
            },
            r matches Err(e) ==> io_error(e) || some_empty(records@),
    //@hint start
        proof { broadcast use le::back; lemma_pack(records@, 0); lemma_entries(self.content(), records@); }
    //@hint before-loop 0
            let ghost old0 = mmap@;
            let ghost f0 = final(mmap)@;
            let ghost mut k: int = 0;
            let ghost rs = records@;
            proof { assert(mmap@ =~= old0.skip(0)); assert(rs.take(0) =~= Seq::empty()); assert(f0 =~= pack(rs.take(0)) + final(mmap)@); }
    //@loop 0
            invariant_except_break
                0 <= k <= rs.len(), rs == records@, old0.len() >= 16 * rs.len(),
                __it0@ == refs(records@).skip(k),
                mmap@ == old0.skip(16 * k),
                f0 == pack(rs.take(k)) + final(mmap)@,
            ensures
                mmap@ == old0.skip(16 * rs.len() as int), f0 == pack(rs) + final(mmap)@,
            decreases rs.len() - k
    //@hint loop-start 0
                proof { lemma_pack(rs, k); broadcast use le::back; if k == rs.len() { assert(rs.take(k) =~= rs); } }
    //@hint after mmap = tail_mut ( $x ) ;
                proof {
                    assert(mmap@ =~= old0.skip(16 * (k + 1)));
                    assert(f0 =~= pack(rs.take(k + 1)) + final(mmap)@);
                    k = k + 1;
                }
    //@end
//@if !shared
    //@fn fraos/src/seqno.rs | impl SeqNoIndex | new
    //@use index
    //@desugar res.map
    //@spec
        requires path matches Some(p) ==> exists|es: Seq<Entry>| #[trigger] indexed(disk(p), es)
        ensures
            r matches Ok(a) ==> {
                &&& a.wf() && a.tidy()
                &&& path is None ==> a.file() is None && a.entries() =~= Seq::<Entry>::empty()
                &&& path matches Some(p) ==> {
                    &&& a.file() matches Some(f)
                    &&& f@ == disk(p) && can_write(f) == writable
                    &&& forall|es: Seq<Entry>| #[trigger] indexed(disk(p), es) ==> a.entries() == es
                }
            },
            r matches Err(e) ==> io_error(e),
    //@hint start
        let ghost d = if path is Some { disk(path->0) } else { Seq::empty() };
        proof {
            assert forall|es: Seq<Entry>| #[trigger] indexed(d, es) implies used(entries(d), es.len() as int) && entries(d.take(16 * es.len() as int)) == es by { lemma_indexed(d, es); }
            assert(d.take(d.len() as int) =~= d);
            assert forall|a: int, b: int| #[trigger] used(entries(d), a) && #[trigger] used(entries(d), b) implies a == b by {
                if a < b { assert(entries(d)[a].1 != 0); }
                if b < a { assert(entries(d)[b].1 != 0); }
            }
        }
    //@end
//@fi
}
// ---- where records are ----------------------------------------------------------------------------
/// the bytes an entry points at
pub open spec fn at(d: Seq<u8>, e: Entry) -> Seq<u8> { d.subrange(e.0 as int, e.0 + e.1) }
pub open spec fn recs(es: Seq<Entry>, d: Seq<u8>) -> Seq<Seq<u8>> { Seq::new(es.len(), |i: int| at(d, es[i])) }
/// where a record may start, at the earliest
pub open spec fn from(es: Seq<Entry>, i: int) -> int { if i == 0 { 0 } else { es[i - 1].0 + es[i - 1].1 } }
/// one record after the other, none of them empty, all of them inside the data
pub open spec fn laid_out(es: Seq<Entry>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> #[trigger] in_place(es, i)
    &&& from(es, es.len() as int) <= n
}
pub open spec fn in_place(es: Seq<Entry>, i: int) -> bool { from(es, i) <= es[i].0 && es[i].1 > 0 }
pub proof fn lemma_laid(es: Seq<Entry>, n: int, i: int)
    requires laid_out(es, n), 0 <= i < es.len()
    ensures 0 <= es[i].0, es[i].1 > 0, es[i].0 + es[i].1 <= from(es, es.len() as int) <= n
    decreases es.len() - i
{
    assert(in_place(es, i));
    if i + 1 < es.len() { lemma_laid(es, n, i + 1); assert(in_place(es, i + 1)); }
}
pub open spec fn places(es: Seq<Entry>, rs: Seq<Seq<u8>>, n: int, k: int) -> bool {
    es.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] es[i]).0 == n + ends(rs, i) && es[i].1 == rs[i].len()
}pub proof fn lemma_one(record: &[u8])
    ensures
        forall|rs: Seq<&[u8]>| #![trigger bytes_of(rs)] #![trigger any_empty(rs)] rs.len() == 1 && rs[0] == record
            ==> bytes_of(rs) == seq![record@] && any_empty(rs) == (record@.len() == 0) && cat(bytes_of(rs)) == record@,
{
    assert forall|rs: Seq<&[u8]>| #![trigger bytes_of(rs)] #![trigger any_empty(rs)] rs.len() == 1 && rs[0] == record
        implies bytes_of(rs) == seq![record@] && any_empty(rs) == (record@.len() == 0) && cat(bytes_of(rs)) == record@ by
    {
        assert(bytes_of(rs) =~= seq![record@]);
        assert(bytes_of(rs).drop_last() =~= Seq::empty());
        reveal_with_fuel(cat, 3);
        assert(cat(bytes_of(rs)) =~= record@);
        assert(rs[0]@.len() == record@.len());
    }
}
