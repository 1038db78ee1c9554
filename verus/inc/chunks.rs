// ---- positions inside the maps ------------------------------------------------------------------
//@item fraos/src/error.rs | enum | FileError
//@end
//@item fraos/src/error.rs | enum | MmapError
//@end
//@item fraos/src/index_on_mmaps.rs | enum | MmapIndexError
//@end
//@item fraos/src/error.rs | enum | FraosError
//@end
//@item fraos/src/index_on_mmaps.rs | struct | IndexDescriptor
//@end
//@item fraos/src/index_on_mmaps.rs | struct | MmapChunkAddressMapper
//@rewrite relative_internal_bounds => pub relative_internal_bounds
//@rewrite global_chunk_start => pub global_chunk_start
//@end
//@item fraos/src/index_on_mmaps.rs | struct | IndexOnMmaps
//@rewrite mmaps => pub mmaps
//@end
/// assumed: a vector's binary searches
pub trait Search {
    spec fn items(&self) -> Seq<usize>;
    fn binary_search(&self, x: &usize) -> (r: Result<usize, usize>)
        requires increasing(self.items())
        ensures
            self.items().len() <= usize::MAX,
            r matches Ok(i) ==> i < self.items().len() && self.items()[i as int] == *x,
            r matches Err(i) ==> i <= self.items().len()
                && (forall|j: int| 0 <= j < i ==> #[trigger] self.items()[j] < *x)
                && (forall|j: int| i <= j < self.items().len() ==> #[trigger] self.items()[j] > *x);
}
impl Search for Vec<usize> {
    open spec fn items(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn binary_search(&self, x: &usize) -> (r: Result<usize, usize>) { unimplemented!() }
}
pub open spec fn other<T, F: Fn(&T) -> usize>(t: T, k: usize, f: F) -> bool { exists|x: usize| x != k && #[trigger] f.ensures((&t,), x) }
#[verifier::external_body]
pub fn search_by_key<T, F: Fn(&T) -> usize>(v: &Vec<T>, k: &usize, f: F) -> (r: Result<usize, usize>)
    requires
        forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
        forall|i: int, j: int, x: usize, y: usize| 0 <= i < j < v@.len() && f.ensures((&#[trigger] v@[i],), x) && f.ensures((&#[trigger] v@[j],), y) ==> x <= y,
    ensures
        r matches Ok(i) ==> i < v@.len() && f.ensures((&v@[i as int],), *k),
        r is Err ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> other(v@[i], *k, f),
{ unimplemented!() }

pub open spec fn increasing(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
impl MmapChunkAddressMapper {
    pub open spec fn wf(self) -> bool {
        &&& increasing(self.relative_internal_bounds@)
        &&& forall|i: int| 0 <= i < self.relative_internal_bounds@.len() ==> self.relative_internal_bounds@[i] > 0
        &&& self.stop() <= usize::MAX
    }
    pub open spec fn bytes(self) -> int { if self.relative_internal_bounds@.len() == 0 { 0 } else { self.relative_internal_bounds@.last() as int } }
    pub open spec fn begin(self) -> int { self.global_chunk_start as int }
    pub open spec fn stop(self) -> int { self.begin() + self.bytes() }
    /// a position at which an append ended
    pub open spec fn cut(self, c: int) -> bool { exists|i: int| 0 <= i < self.relative_internal_bounds@.len() && c == self.begin() + #[trigger] self.relative_internal_bounds@[i] }
    /// the piece from an address to the end of an append after it
    pub open spec fn piece(self, d: IndexDescriptor, address: int) -> bool {
        &&& d.mmap_offset == address - self.begin()
        &&& 0 < d.len
        &&& d.mmap_offset + d.len <= self.bytes()
        &&& self.cut(address + d.len)
    }
    //@fn fraos/src/index_on_mmaps.rs | impl MmapChunkAddressMapper | new
    //@spec
        ensures r.relative_internal_bounds@.len() == 0, r.begin() == global_chunk_start, r.wf()
    //@end
    //@fn fraos/src/index_on_mmaps.rs | impl MmapChunkAddressMapper | global_chunk_end
    //@spec
        requires self.wf()
        ensures r == self.stop()
    //@end
    //@fn fraos/src/index_on_mmaps.rs | impl MmapChunkAddressMapper | global_chunk_start
    //@spec
        ensures r == self.begin()
    //@end
    //@fn fraos/src/index_on_mmaps.rs | impl MmapChunkAddressMapper | size
    //@spec
        ensures r == self.bytes()
    //@end
    //@fn fraos/src/index_on_mmaps.rs | impl MmapChunkAddressMapper | is_empty
    //@spec
        ensures r == (self.bytes() == 0)
    //@end
    //@fn fraos/src/index_on_mmaps.rs | impl MmapChunkAddressMapper | append_relative_end
    //@spec
        requires old(self).wf(), old(self).begin() + relative_end <= usize::MAX
        ensures
            final(self).wf(), final(self).begin() == old(self).begin(),
            r is Ok <==> relative_end > old(self).bytes(),
            r is Ok ==> final(self).relative_internal_bounds@ == old(self).relative_internal_bounds@.push(relative_end),
            r is Err ==> *final(self) == *old(self),
    //@end
    //@fn fraos/src/index_on_mmaps.rs | impl MmapChunkAddressMapper | find
    //@desugar opt.map
    //@rewrite format! ( $x* ) => text()
    //@spec
        requires self.wf()
        ensures
            r is Ok,
            self.begin() <= address < self.stop() ==> (r matches Ok(Some(d)) && d.mmap_number == 0 && self.piece(d, address as int)),
            !(self.begin() <= address < self.stop()) ==> r == Ok::<Option<IndexDescriptor>, MmapIndexError>(None),
    //@end
}
#[verifier::external_body]
pub fn text() -> String { unimplemented!() }

impl IndexOnMmaps {
    pub open spec fn wf(self) -> bool {
        &&& forall|i: int| #![trigger self.mmaps@[i]] 0 <= i < self.mmaps@.len() ==> self.mmaps@[i].wf() && self.mmaps@[i].bytes() > 0
        &&& forall|i: int| 0 <= i < self.mmaps@.len() ==> #[trigger] self.follows(i)
    }
    /// chunk i begins where the one before it stops
    pub open spec fn follows(self, i: int) -> bool { self.mmaps@[i].begin() == (if i == 0 { 0 } else { self.mmaps@[i - 1].stop() }) }
    pub open spec fn bytes(self) -> int { if self.mmaps@.len() == 0 { 0 } else { self.mmaps@.last().stop() } }
    pub open spec fn cut(self, c: int) -> bool { exists|i: int| 0 <= i < self.mmaps@.len() && #[trigger] self.mmaps@[i].cut(c) }
    /// chunks follow each other
    pub proof fn ordered(self, i: int, j: int)
        requires self.wf(), 0 <= i < j < self.mmaps@.len()
        ensures self.mmaps@[i].stop() <= self.mmaps@[j].begin()
        decreases j - i
    { if i + 1 < j { self.ordered(i, j - 1); assert(self.mmaps@[j - 1].wf()); assert(self.follows(j)); } else { assert(self.follows(j)); } }
    /// every address lies in a chunk
    pub proof fn covered(self, n: int, address: int) -> (k: int)
        requires self.wf(), 0 < n <= self.mmaps@.len(), 0 <= address < self.mmaps@[n - 1].stop()
        ensures 0 <= k < n, self.mmaps@[k].begin() <= address < self.mmaps@[k].stop()
        decreases n
    {
        assert(self.mmaps@[n - 1].wf());
        if self.mmaps@[n - 1].begin() <= address { n - 1 } else { assert(self.follows(n - 1)); self.covered(n - 1, address) }
    }
    //@fn fraos/src/index_on_mmaps.rs | impl IndexOnMmaps | new
    //@spec
        ensures r.wf(), r.mmaps@.len() == 0
    //@end
    //@fn fraos/src/index_on_mmaps.rs | impl IndexOnMmaps | len
    //@desugar opt.map
    //@spec
        requires self.wf()
        ensures r == self.bytes()
    //@end
    //@fn fraos/src/index_on_mmaps.rs | impl IndexOnMmaps | is_empty
    //@spec
        requires self.wf()
        ensures r == (self.bytes() == 0)
    //@end
    //@fn fraos/src/index_on_mmaps.rs | impl IndexOnMmaps | append
    //@hint start
        proof {
            assert forall|n: Self, i: int| n.mmaps@ == self.mmaps@.push(next_mmap) && next_mmap.begin() == self.bytes() && 0 <= i < n.mmaps@.len() implies #[trigger] n.follows(i) by {
                if i < self.mmaps@.len() { assert(self.follows(i)); }
            }
        }
    //@spec
        requires old(self).wf(), next_mmap.wf()
        ensures
            final(self).wf(),
            r is Ok <==> next_mmap.bytes() == 0 || next_mmap.begin() == old(self).bytes(),
            r is Ok && next_mmap.bytes() > 0 ==> final(self).mmaps@ == old(self).mmaps@.push(next_mmap),
            r is Err || next_mmap.bytes() == 0 ==> *final(self) == *old(self),
    //@end
    //@fn fraos/src/index_on_mmaps.rs | impl IndexOnMmaps | find
    //@desugar opt.map
    //@rewrite self.mmaps.binary_search_by_key($k, |$p| -> usize { $x }) => search_by_key(&self.mmaps, $k, |$p: &MmapChunkAddressMapper| -> (r: usize) requires $p.wf() ensures r == (if $p.begin() <= address && address < $p.stop() { address as int } else { $p.begin() }) { $x })
    //@hint start
        proof {
            assert forall|i: int, j: int| 0 <= i < j < self.mmaps@.len() implies #[trigger] self.mmaps@[i].stop() <= #[trigger] self.mmaps@[j].begin() by { self.ordered(i, j); };
            if self.mmaps@.len() > 0 && address < self.bytes() { let k = self.covered(self.mmaps@.len() as int, address as int); assert(self.mmaps@[k].wf()); }
        }
    //@spec
        requires self.wf()
        ensures
            r is Ok,
            address < self.bytes() ==> (r matches Ok(Some(d)) && d.mmap_number < self.mmaps@.len() && self.mmaps@[d.mmap_number as int].begin() <= address
                && self.mmaps@[d.mmap_number as int].piece(IndexDescriptor { mmap_number: 0, ..d }, address as int)),
            address >= self.bytes() ==> r == Ok::<Option<IndexDescriptor>, MmapIndexError>(None),
    //@end
}
