// ---- the growing list of maps --------------------------------------------------------------------
//@item fraos/src/growable_mmap.rs | const | MIN_MMAP_BYTES
//@rewrite const MIN_MMAP_BYTES => pub const MIN_MMAP_BYTES
//@end
//@item fraos/src/growable_mmap.rs | const | MAX_MMAPS_COUNT
//@rewrite const MAX_MMAPS_COUNT => pub const MAX_MMAPS_COUNT
//@end
//@item fraos/src/growable_mmap.rs | struct | InactiveMmaps
//@rewrite struct => pub struct
//@rewrite index : => pub index:
//@rewrite maps : => pub maps:
//@end
//@item fraos/src/growable_mmap.rs | struct | ActiveMmap
//@rewrite struct => pub struct
//@rewrite len : => pub len:
//@rewrite mmap : => pub mmap:
//@rewrite bounds : => pub bounds:
//@end
//@item fraos/src/growable_mmap.rs | struct | Storage
//@rewrite struct => pub struct
//@rewrite inactive_mmaps : => pub inactive_mmaps:
//@rewrite active_map : => pub active_map:
//@end
// the lock around the maps is erased: each operation below is one critical section (F05 shows that it is)
//@if shared
/// how many more times what all threads use may be looked at: once each, other threads act in between
pub struct Steps { pub g: Ghost<nat> }
impl Steps {
    pub open spec fn left(self) -> nat { self.g@ }
    /// a guard is taken, or an atomic is read
    pub fn enter(&mut self)
        requires old(self).left() >= 1
        ensures final(self).left() == old(self).left() - 1
    { let ghost n = (self.g@ - 1) as nat; self.g = Ghost(n); }
}
//@fi
//@item fraos/src/growable_mmap.rs | struct | GrowableMmap
//@rewrite pub ( crate ) struct => pub struct
//@rewrite RwLock < Storage > => Storage
//@rewrite storage : => pub storage:
//@rewrite file : => pub file:
//@end
//@rules maps
//@if shared
self . rearrange_mmaps ( storage_guard ) => self.rearrange_mmaps(st)
let mut storage_guard = $x ; => st.enter();
let storage_guard = $x ; => st.enter();
drop ( storage_guard ) ; =>
//@else
self . rearrange_mmaps ( storage_guard ) => self.rearrange_mmaps()
let mut storage_guard = $x ; =>
let storage_guard = $x ; =>
//@fi
storage_guard => self.storage
self . create_mmap ( $a , $b ) => Self::create_mmap(&mut self.file, $a, $b)
self . get_new_mmap_size ( $a ) => Self::get_new_mmap_size(&self.file, $a)
& mut $m . as_mut ( ) [ $a .. ] => tail_mut($m.as_mut(), $a)
. flush ( ) => .flush(&mut self.file)
unsafe { $x } => ( $x )
. map_err ( FraosError :: IndexError ) => .map_err(|x| FraosError::IndexError(x))
RwLock :: new ( $x ) => $x
//@end

pub open spec fn joined(maps: Seq<SharedMmap>) -> Seq<u8>
    decreases maps.len()
{ if maps.len() == 0 { Seq::empty() } else { joined(maps.drop_last()) + maps.last().bytes() } }

impl InactiveMmaps {
    pub open spec fn wf(self) -> bool {
        &&& self.index.wf()
        &&& self.maps@.len() == self.index.mmaps@.len()
        &&& forall|i: int| #![trigger self.maps@[i]] 0 <= i < self.maps@.len() ==> self.maps@[i].inv() && self.maps@[i].bytes().len() == self.index.mmaps@[i].bytes()
    }
    pub open spec fn content(self) -> Seq<u8> { joined(self.maps@) }
    pub proof fn sized(self, n: int)
        requires self.wf(), 0 <= n <= self.maps@.len()
        ensures joined(self.maps@.take(n)).len() == (if n == 0 { 0 } else { self.index.mmaps@[n - 1].stop() })
        decreases n
    {
        if n > 0 {
            self.sized(n - 1);
            assert(self.maps@.take(n).drop_last() =~= self.maps@.take(n - 1));
            assert(self.index.follows(n - 1));
            assert(self.maps@[n - 1].inv());
        }
    }
    /// all of it
    pub proof fn whole(self)
        requires self.wf()
        ensures self.content().len() == self.index.bytes()
    { self.sized(self.maps@.len() as int); assert(self.maps@.take(self.maps@.len() as int) =~= self.maps@); }
    pub proof fn stable(self, n: int, m: int)
        requires self.wf(), 0 <= n <= m <= self.maps@.len()
        ensures joined(self.maps@.take(n)) == joined(self.maps@.take(m)).take(joined(self.maps@.take(n)).len() as int), joined(self.maps@.take(n)).len() <= joined(self.maps@.take(m)).len()
        decreases m - n
    {
        if n < m {
            self.stable(n, m - 1);
            assert(self.maps@.take(m).drop_last() =~= self.maps@.take(m - 1));
        }
        assert(joined(self.maps@.take(n)) =~= joined(self.maps@.take(m)).take(joined(self.maps@.take(n)).len() as int));
    }
    /// its end is the end of an append
    pub proof fn ends(self)
        requires self.wf()
        ensures self.maps@.len() > 0 ==> self.index.cut(self.content().len() as int) && self.content().len() > 0
    {
        self.whole();
        if self.maps@.len() > 0 {
            let k = self.maps@.len() - 1;
            let m = self.index.mmaps@[k];
            assert(m.wf() && m.bytes() > 0);
            assert(m.relative_internal_bounds@[m.relative_internal_bounds@.len() - 1] == m.relative_internal_bounds@.last());
            assert(m.cut(self.content().len() as int));
            assert(self.index.follows(k));
            if k > 0 { assert(self.index.mmaps@[k - 1].wf()); }
        }
    }
    /// map k holds the content from its chunk's begin to its end
    pub proof fn map(self, k: int)
        requires self.wf(), 0 <= k < self.maps@.len()
        ensures
            0 <= self.index.mmaps@[k].begin() <= self.index.mmaps@[k].stop() <= self.content().len(),
            self.maps@[k].bytes() == self.content().subrange(self.index.mmaps@[k].begin(), self.index.mmaps@[k].stop()),
    {
        let n = self.maps@.len() as int;
        self.whole();
        self.sized(k);
        self.sized(k + 1);
        self.stable(k + 1, n);
        assert(self.maps@.take(n) =~= self.maps@);
        assert(self.maps@.take(k + 1).drop_last() =~= self.maps@.take(k));
        assert(self.index.mmaps@[k].wf());
        assert(self.index.follows(k));
        assert(self.maps@[k].inv());
        assert(self.maps@[k].bytes() =~= joined(self.maps@.take(k + 1)).subrange(self.index.mmaps@[k].begin(), self.index.mmaps@[k].stop()));
        assert(self.maps@[k].bytes() =~= self.content().subrange(self.index.mmaps@[k].begin(), self.index.mmaps@[k].stop()));
    }
}
/// a single map: one append, from nothing to its end
pub proof fn single()
    ensures
        joined(Seq::empty()) == Seq::<u8>::empty(),
        forall|ms: Seq<SharedMmap>| ms.len() == 1 ==> #[trigger] joined(ms) == ms[0].bytes(),
        forall|x: IndexOnMmaps, c: int| x.mmaps@.len() == 0 ==> !#[trigger] x.cut(c),
        forall|x: IndexOnMmaps, c: int| x.mmaps@.len() == 1 && x.mmaps@[0].relative_internal_bounds@.len() == 1 && #[trigger] x.cut(c) ==> c == x.mmaps@[0].stop(),
{
    assert forall|ms: Seq<SharedMmap>| ms.len() == 1 implies #[trigger] joined(ms) == ms[0].bytes() by {
        assert(ms.drop_last() =~= Seq::empty());
        assert(joined(ms.drop_last()) + ms.last().bytes() =~= ms[0].bytes());
    }
    assert forall|x: IndexOnMmaps, c: int| x.mmaps@.len() == 1 && x.mmaps@[0].relative_internal_bounds@.len() == 1 && #[trigger] x.cut(c) implies c == x.mmaps@[0].stop() by {
        let i = choose|i: int| 0 <= i < x.mmaps@.len() && #[trigger] x.mmaps@[i].cut(c);
        assert(i == 0);
        let m = x.mmaps@[0];
        let j = choose|j: int| 0 <= j < m.relative_internal_bounds@.len() && c == m.begin() + #[trigger] m.relative_internal_bounds@[j];
        assert(j == 0);
        assert(m.relative_internal_bounds@.last() == m.relative_internal_bounds@[0]);
    }
}
impl ActiveMmap {
    pub open spec fn wf(self, file: Option<File>) -> bool {
        &&& self.bounds.wf()
        &&& self.bounds.bytes() <= self.len
        &&& self.bounds.begin() + self.len <= usize::MAX
        &&& self.len == self.mmap@.len()
        &&& map_backed(self.mmap) == file is Some
        &&& file matches Some(f) ==> {
            &&& can_write(f)
            &&& map_at(self.mmap) == self.bounds.begin()
            &&& self.bounds.begin() + self.len <= f@.len()
            &&& self.mmap@ == f@.subrange(self.bounds.begin(), self.bounds.begin() + self.len)
        }
    }
    pub open spec fn content(self) -> Seq<u8> { self.mmap@.take(self.bounds.bytes()) }
}
pub open spec fn active_content(a: Option<ActiveMmap>) -> Seq<u8> { match a { None => Seq::empty(), Some(a) => a.content() } }
/// f writes exactly those bytes, at the start of what it is given
#[verifier::prophetic]
pub open spec fn writes<F: Fn(&mut [u8]) -> Result<(), FraosError>>(f: F, out: Seq<u8>) -> bool {
    &&& forall|s: &mut [u8]| s@.len() >= out.len() ==> #[trigger] f.requires((s,))
    &&& forall|s: &mut [u8], r: Result<(), FraosError>| #[trigger] f.ensures((s,), r) && s@.len() >= out.len() ==> r is Ok && final(s)@ == out + s@.skip(out.len() as int)
}
pub open spec fn all_zero(s: Seq<u8>, from: int) -> bool { forall|i: int| from <= i < s.len() ==> #[trigger] s[i] == 0 }
/// how much a file grows by, for an append of that many bytes
pub open spec fn grown(ext: int) -> int { if ext < MIN_MMAP_BYTES { MIN_MMAP_BYTES as int } else { ext } }
impl GrowableMmap {
    /// appends end inside the content
    pub proof fn cut_within(self, c: int)
        requires self.wf(), self.cut(c)
        ensures 0 < c <= self.content().len()
    {
        let x = self.storage.inactive_mmaps;
        x.whole();
        if x.index.cut(c) {
            let i = choose|i: int| 0 <= i < x.index.mmaps@.len() && #[trigger] x.index.mmaps@[i].cut(c);
            let m = x.index.mmaps@[i];
            let j = choose|j: int| 0 <= j < m.relative_internal_bounds@.len() && c == m.begin() + #[trigger] m.relative_internal_bounds@[j];
            assert(m.wf());
            let n = m.relative_internal_bounds@.len() - 1;
            if j < n { assert(m.relative_internal_bounds@[j] < m.relative_internal_bounds@[n]); }
            assert(c <= m.stop());
            if i < x.index.mmaps@.len() - 1 { x.index.ordered(i, x.index.mmaps@.len() - 1); }
            assert(x.index.mmaps@.last().wf());
        } else {
            let m = self.storage.active_map->0.bounds;
            let j = choose|j: int| 0 <= j < m.relative_internal_bounds@.len() && c == m.begin() + #[trigger] m.relative_internal_bounds@[j];
            let n = m.relative_internal_bounds@.len() - 1;
            if j < n { assert(m.relative_internal_bounds@[j] < m.relative_internal_bounds@[n]); }
        }
    }
    pub open spec fn content(self) -> Seq<u8> { self.storage.inactive_mmaps.content() + active_content(self.storage.active_map) }
    pub open spec fn wf(self) -> bool {
        &&& self.storage.inactive_mmaps.wf()
        &&& self.storage.active_map matches Some(a) ==> a.wf(self.file) && a.bounds.begin() == self.storage.inactive_mmaps.index.bytes() && a.bounds.bytes() > 0
        &&& self.file matches Some(f) ==> self.content().len() <= f@.len() && f@.take(self.content().len() as int) =~= self.content()
    }
    /// the content is in the address space
    pub proof fn fits(self)
        requires self.wf()
        ensures self.content().len() <= usize::MAX
    { self.storage.inactive_mmaps.whole(); }
    pub open spec fn can_write(self) -> bool { self.file matches Some(f) ==> can_write(f) }
    /// the bytes of the file after the content are zero
    pub open spec fn clean(self) -> bool { self.file matches Some(f) ==> all_zero(f@, self.content().len() as int) }
    pub open spec fn cut(self, c: int) -> bool {
        self.storage.inactive_mmaps.index.cut(c) || (self.storage.active_map matches Some(a) && a.bounds.cut(c))
    }
    /// the piece of the content from an address to the end of an append after it
    pub open spec fn piece(self, address: int, s: Seq<u8>) -> bool {
        s.len() > 0 && address + s.len() <= self.content().len() && s == self.content().subrange(address, address + s.len()) && self.cut(address + s.len())
    }
    pub proof fn pieces(self, address: int)
        requires self.wf()
        ensures
            forall|k: int, d: IndexDescriptor| 0 <= k < self.storage.inactive_mmaps.maps@.len() && #[trigger] self.storage.inactive_mmaps.index.mmaps@[k].piece(d, address) && self.storage.inactive_mmaps.index.mmaps@[k].begin() <= address
                ==> self.piece(address, self.storage.inactive_mmaps.maps@[k].bytes().subrange(d.mmap_offset as int, d.mmap_offset + d.len)) && self.storage.inactive_mmaps.maps@[k].inv() && d.mmap_offset + d.len <= self.storage.inactive_mmaps.maps@[k].bytes().len(),
            forall|d: IndexDescriptor| self.storage.active_map is Some && #[trigger] self.storage.active_map->0.bounds.piece(d, address) && self.storage.active_map->0.bounds.begin() <= address
                ==> self.piece(address, self.storage.active_map->0.mmap@.subrange(d.mmap_offset as int, d.mmap_offset + d.len)) && d.mmap_offset + d.len <= self.storage.active_map->0.mmap@.len(),
    {
        let im = self.storage.inactive_mmaps;
        im.whole();
        assert forall|k: int, d: IndexDescriptor| 0 <= k < im.maps@.len() && #[trigger] im.index.mmaps@[k].piece(d, address) && im.index.mmaps@[k].begin() <= address
            implies self.piece(address, im.maps@[k].bytes().subrange(d.mmap_offset as int, d.mmap_offset + d.len)) && im.maps@[k].inv() && d.mmap_offset + d.len <= im.maps@[k].bytes().len() by
        {
            im.map(k);
            let x = im.maps@[k];
            assert(x.inv());
            assert(x.bytes().subrange(d.mmap_offset as int, d.mmap_offset + d.len) =~= self.content().subrange(address, address + d.len));
            assert(im.index.cut(address + d.len));
        }
        assert forall|d: IndexDescriptor| self.storage.active_map is Some && #[trigger] self.storage.active_map->0.bounds.piece(d, address) && self.storage.active_map->0.bounds.begin() <= address
            implies self.piece(address, self.storage.active_map->0.mmap@.subrange(d.mmap_offset as int, d.mmap_offset + d.len)) && d.mmap_offset + d.len <= self.storage.active_map->0.mmap@.len() by
        {
            let a = self.storage.active_map->0;
            assert(a.mmap@.subrange(d.mmap_offset as int, d.mmap_offset + d.len) =~= self.content().subrange(address, address + d.len));
        }
    }
//@if !shared
    //@fn fraos/src/growable_mmap.rs | impl GrowableMmap | new
    //@use maps
    //@desugar res.map_err
    //@hint start
        proof { single(); }
    //@spec
        ensures
            r matches Ok(g) ==> {
                &&& g.wf() && g.file == file && g.storage.active_map is None
                &&& file is None ==> g.content() =~= Seq::<u8>::empty()
                &&& file matches Some(f) ==> (existing_length matches Some(n) ==> n <= f@.len()) && g.content() =~= f@.take(match existing_length { Some(n) => n as int, None => f@.len() as int })
                &&& forall|c: int| #[trigger] g.cut(c) ==> c == g.content().len()
            },
            r matches Err(e) ==> io_error(e) || (e is DataFileDamaged && (file matches Some(f) && existing_length matches Some(n) && n > f@.len())),
    //@end
//@fi
    //@fn fraos/src/growable_mmap.rs | impl GrowableMmap | len
    //@use maps
//@if shared
    //@sig & self => &self, st: &mut Steps
//@fi
    //@spec
        requires
            self.wf(),
//@if shared
            old(st).left() >= 1,
//@fi
        ensures r == Ok::<usize, FraosError>(self.content().len() as usize), self.content().len() <= usize::MAX
    //@hint start
        proof { self.storage.inactive_mmaps.whole(); }
    //@end
    //@fn fraos/src/growable_mmap.rs | impl GrowableMmap | get_new_mmap_size
    //@sig & self , => file_: &Option<File>,
    //@rewrite self . file => *file_
    //@spec
        ensures r == (if file_ is Some && add < MIN_MMAP_BYTES { MIN_MMAP_BYTES } else { add })
    //@end
    //@fn fraos/src/growable_mmap.rs | impl GrowableMmap | create_mmap
    //@sig & self , => file_: &mut Option<File>,
    //@rewrite & self . file => file_
    //@rewrite unsafe { $x } => ( $x )
    //@desugar res.map_err
    //@spec
        requires new_mmap_size > 0, offset + new_mmap_size <= usize::MAX
        ensures
            *old(file_) is None ==> *final(file_) is None && (r matches Ok(m) ==> m@ == zeros(new_mmap_size as int) && !map_backed(m)),
            *old(file_) matches Some(f) ==> {
                &&& *final(file_) matches Some(g)
                &&& can_write(f) == can_write(g)
                &&& !can_write(f) ==> r is Err && f == g
                &&& r matches Ok(m) ==> g@ == resized(f@, offset + new_mmap_size) && m@ == g@.subrange(offset as int, offset + new_mmap_size) && map_backed(m) && map_at(m) == offset
            },
            r matches Err(e) ==> io_error(e),
    //@end
    //@fn fraos/src/growable_mmap.rs | impl GrowableMmap | rearrange_mmaps
//@if shared
    //@sig & self , mut storage_guard : RwLockWriteGuard < Storage > , => &mut self, st: &mut Steps
//@else
    //@sig & self , mut storage_guard : RwLockWriteGuard < Storage > , => &mut self
//@fi
    //@use maps
    //@desugar res.map_err
    //@hint start
        proof { single(); self.storage.inactive_mmaps.whole(); self.storage.inactive_mmaps.ends(); }
    //@spec
        requires old(self).wf()
        ensures
            final(self).file == old(self).file, final(self).storage.active_map == old(self).storage.active_map,
            final(self).wf(),
            final(self).content() == old(self).content(),
            forall|c: int| #[trigger] final(self).cut(c) ==> old(self).cut(c),
            r matches Err(e) ==> io_error(e),
    //@end
//@if !shared
    //@fn fraos/src/growable_mmap.rs | impl GrowableMmap | shrink_to_size
    //@sig & self => &mut self
    //@use maps
    //@rewrite & self . file => &mut self.file
    //@desugar res.map_err opt.map
    //@hint start
        proof { self.storage.inactive_mmaps.whole(); }
    //@spec
        requires old(self).wf()
        ensures
            final(self).storage == old(self).storage,
            old(self).file is None ==> final(self).file is None && r is Ok,
            old(self).file matches Some(f) ==> {
                &&& final(self).file matches Some(g)
                &&& can_write(f) == can_write(g)
                &&& r is Ok ==> g@ =~= f@.take(old(self).content().len() as int)
                &&& r is Err ==> g == f
            },
    //@end
//@fi
    //@fn fraos/src/growable_mmap.rs | impl GrowableMmap | get_ref_and_apply
    //@use maps
//@if shared
    //@sig & self , => &self, st: &mut Steps,
//@fi
    //@desugar res.map_err
    //@rewrite & $m . as_ref ( ) [ $a .. $b ] => &$m.as_ref()[$a..$b]
    //@hint start
        proof { self.storage.inactive_mmaps.whole(); self.pieces(address as int); }
    //@spec
        requires
            self.wf(),
//@if shared
            old(st).left() >= 1,
//@fi
            forall|s: &[u8]| self.piece(address as int, s@) ==> #[trigger] f.requires((s,)),
        ensures
            address >= self.content().len() ==> r == Ok::<Option<U>, FraosError>(None),
            address < self.content().len() ==> exists|s: &[u8]| #[trigger] f.ensures((s,), r) && self.piece(address as int, s@),
    //@end
    /// room for the append was made, nothing is written yet
    pub open spec fn primed(self, before: GrowableMmap, ext: int, at: int) -> bool {
        &&& self.storage.inactive_mmaps.wf()
        &&& self.storage.active_map is Some
        &&& self.storage.active_map->0.wf(self.file)
        &&& self.storage.active_map->0.bounds.begin() == self.storage.inactive_mmaps.index.bytes()
        &&& self.storage.active_map->0.bounds.bytes() == at + ext
        &&& self.storage.inactive_mmaps.content() + self.storage.active_map->0.mmap@.take(at) == before.content()
        &&& forall|c: int| #[trigger] self.cut(c) ==> before.cut(c) || c == before.content().len() + ext
        &&& self.file is Some == before.file is Some
        &&& before.can_write()
        &&& self.file matches Some(f) ==> before.content().len() <= f@.len() && f@.take(before.content().len() as int) == before.content()
        &&& before.clean() && self.file is Some ==> all_zero(self.file->0@, before.content().len() as int)
        &&& self.file is Some ==> self.file->0@.len() == before.file->0@.len() || self.file->0@.len() == before.content().len() + grown(ext)
    }
    /// a map made for the append
    pub open spec fn mapped(a: ActiveMmap, before: Option<File>, file: Option<File>, off: int, ext: int) -> bool {
        &&& a.bounds.relative_internal_bounds@ == seq![ext as usize]
        &&& 0 < ext <= a.len == a.mmap@.len()
        &&& a.bounds.wf() && a.bounds.begin() == off
        &&& off + a.len <= usize::MAX
        &&& map_backed(a.mmap) == file is Some
        &&& file is Some ==> a.len == grown(ext)
        &&& before is None ==> file is None
        &&& before matches Some(f) ==> file is Some && can_write(f) && can_write(file->0) && map_at(a.mmap) == off && file->0@ == resized(f@, off + a.len) && a.mmap@ == file->0@.subrange(off, off + a.len)
    }
    pub proof fn file_grown(f: Seq<u8>, g: Seq<u8>, c: Seq<u8>, n: int)
        requires g == resized(f, n), c.len() <= f.len(), c.len() <= n, f.take(c.len() as int) == c
        ensures g.len() == n, g.take(c.len() as int) == c, all_zero(f, c.len() as int) ==> all_zero(g, c.len() as int)
    { assert(g.take(c.len() as int) =~= c); }
    pub proof fn start_fresh(self, before: GrowableMmap, ext: int)
        requires
            before.wf(), before.storage.active_map is None,
            self.storage.inactive_mmaps == before.storage.inactive_mmaps,
            self.storage.active_map is Some,
            Self::mapped(self.storage.active_map->0, before.file, self.file, before.content().len() as int, ext),
        ensures self.primed(before, ext, 0)
    {
        let a = self.storage.active_map->0;
        before.storage.inactive_mmaps.whole();
        assert(self.storage.inactive_mmaps.content() + a.mmap@.take(0) =~= before.content());
        if before.file is Some { Self::file_grown(before.file->0@, self.file->0@, before.content(), before.content().len() + a.len); }
        assert(a.bounds.relative_internal_bounds@.last() == ext);
        assert forall|c: int| #[trigger] self.cut(c) implies before.cut(c) || c == before.content().len() + ext by {
            if !self.storage.inactive_mmaps.index.cut(c) {
                assert(a.bounds.cut(c));
                let j = choose|j: int| 0 <= j < a.bounds.relative_internal_bounds@.len() && c == a.bounds.begin() + #[trigger] a.bounds.relative_internal_bounds@[j];
                assert(j == 0);
            }
        }
    }
    pub proof fn start_same(self, before: GrowableMmap, ext: int)
        requires
            before.wf(), before.storage.active_map is Some, self.storage.active_map is Some,
            self.storage.inactive_mmaps == before.storage.inactive_mmaps, self.file == before.file,
            ({
                let (a, b) = (self.storage.active_map->0, before.storage.active_map->0);
                &&& a.mmap == b.mmap && a.len == b.len && a.bounds.wf() && a.bounds.begin() == b.bounds.begin()
                &&& a.bounds.relative_internal_bounds@ == b.bounds.relative_internal_bounds@.push((b.bounds.bytes() + ext) as usize)
                &&& b.bounds.bytes() + ext <= a.len && 0 < ext
            }),
        ensures self.primed(before, ext, before.storage.active_map->0.bounds.bytes())
    {
        let (a, b) = (self.storage.active_map->0, before.storage.active_map->0);
        before.storage.inactive_mmaps.whole();
        assert(a.bounds.relative_internal_bounds@.last() == b.bounds.bytes() + ext);
        assert forall|c: int| #[trigger] self.cut(c) implies before.cut(c) || c == before.content().len() + ext by {
            if !self.storage.inactive_mmaps.index.cut(c) {
                assert(a.bounds.cut(c));
                let j = choose|j: int| 0 <= j < a.bounds.relative_internal_bounds@.len() && c == a.bounds.begin() + #[trigger] a.bounds.relative_internal_bounds@[j];
                if j < b.bounds.relative_internal_bounds@.len() { assert(c == b.bounds.begin() + b.bounds.relative_internal_bounds@[j]); assert(b.bounds.cut(c)); }
            }
        }
    }
    pub proof fn start_next(self, before: GrowableMmap, ext: int)
        requires
            before.wf(), before.storage.active_map is Some, self.storage.active_map is Some,
            ({
                let (x, y, b) = (self.storage.inactive_mmaps, before.storage.inactive_mmaps, before.storage.active_map->0);
                &&& x.index.wf()
                &&& x.index.mmaps@ == y.index.mmaps@.push(b.bounds)
                &&& x.maps@.len() == y.maps@.len() + 1 && x.maps@ == y.maps@.push(x.maps@.last())
                &&& x.maps@.last().inv() && x.maps@.last().bytes() == b.mmap@.take(b.bounds.bytes())
            }),
            Self::mapped(self.storage.active_map->0, before.file, self.file, before.content().len() as int, ext),
        ensures self.primed(before, ext, 0)
    {
        let (x, y, b, a) = (self.storage.inactive_mmaps, before.storage.inactive_mmaps, before.storage.active_map->0, self.storage.active_map->0);
        y.whole();
        assert forall|i: int| #![trigger x.maps@[i]] 0 <= i < x.maps@.len() implies x.maps@[i].inv() && x.maps@[i].bytes().len() == x.index.mmaps@[i].bytes() by {
            if i < y.maps@.len() { assert(y.maps@[i].inv()); assert(x.index.mmaps@[i] == y.index.mmaps@[i]); }
        }
        assert(x.maps@.drop_last() =~= y.maps@);
        assert(x.content() + a.mmap@.take(0) =~= before.content());
        x.whole();
        if before.file is Some { Self::file_grown(before.file->0@, self.file->0@, before.content(), before.content().len() + a.len); }
        assert(a.bounds.relative_internal_bounds@.last() == ext);
        assert forall|c: int| #[trigger] self.cut(c) implies before.cut(c) || c == before.content().len() + ext by {
            if x.index.cut(c) {
                let i = choose|i: int| 0 <= i < x.index.mmaps@.len() && #[trigger] x.index.mmaps@[i].cut(c);
                if i < y.index.mmaps@.len() { assert(y.index.mmaps@[i].cut(c)); assert(y.index.cut(c)); } else { assert(b.bounds.cut(c)); }
            } else {
                assert(a.bounds.cut(c));
                let j = choose|j: int| 0 <= j < a.bounds.relative_internal_bounds@.len() && c == a.bounds.begin() + #[trigger] a.bounds.relative_internal_bounds@[j];
                assert(j == 0);
            }
        }
    }
    /// the append is written and in the file
    pub proof fn written(self, ready: GrowableMmap, before: GrowableMmap, out: Seq<u8>, at: int)
        requires
            before.wf(), 0 <= at, out.len() > 0,
            ready.primed(before, out.len() as int, at),
            self.storage.inactive_mmaps == ready.storage.inactive_mmaps,
            self.storage.active_map is Some,
            ({
                let (a, b) = (self.storage.active_map->0, ready.storage.active_map->0);
                &&& a.bounds == b.bounds && a.len == b.len
                &&& a.mmap@ == b.mmap@.take(at) + (out + b.mmap@.skip(at).skip(out.len() as int))
                &&& map_at(a.mmap) == map_at(b.mmap) && map_backed(a.mmap) == map_backed(b.mmap)
                &&& ready.file is None ==> self.file is None
                &&& ready.file matches Some(f) ==> self.file is Some && can_write(self.file->0) == can_write(f) && self.file->0@ == overlaid(f@, map_at(a.mmap), a.mmap@)
            }),
        ensures
            self.wf(),
            self.content() == before.content() + out,
            self.file is Some == before.file is Some,
            self.can_write(),
            before.clean() ==> self.clean(),
            self.file is Some ==> self.file->0@.len() == before.file->0@.len() || self.file->0@.len() == before.content().len() + grown(out.len() as int),
            forall|c: int| #[trigger] self.cut(c) ==> before.cut(c) || c == self.content().len(),
    {
        let (a, b) = (self.storage.active_map->0, ready.storage.active_map->0);
        ready.storage.inactive_mmaps.whole();
        assert(a.content() =~= b.mmap@.take(at) + out);
        assert(self.content() =~= before.content() + out);
        if self.file is Some {
            let (f, g) = (ready.file->0@, self.file->0@);
            assert(g.len() == f.len());
            assert(a.mmap@ =~= g.subrange(a.bounds.begin(), a.bounds.begin() + a.len));
            assert forall|i: int| 0 <= i < self.content().len() implies g[i] == self.content()[i] by {
                if i < a.bounds.begin() { assert(g[i] == f[i]); assert(f.take(before.content().len() as int)[i] == before.content()[i]); }
                else { assert(g[i] == a.mmap@[i - a.bounds.begin()]); }
            }
            assert(g.take(self.content().len() as int) =~= self.content());
            if before.clean() {
                assert forall|i: int| self.content().len() <= i < g.len() implies #[trigger] g[i] == 0 by {
                    let k = i - a.bounds.begin();
                    assert(f[i] == 0);
                    if k < a.len { assert(g[i] == a.mmap@[k]); assert(b.mmap@[k] == f[i]); assert(a.mmap@[k] == b.mmap@[k]); } else { assert(g[i] == f[i]); }
                }
            }
        }
        assert forall|c: int| #[trigger] self.cut(c) implies before.cut(c) || c == self.content().len() by { assert(ready.cut(c)); }
    }
    //@fn fraos/src/growable_mmap.rs | impl GrowableMmap | grow_and_apply
//@if shared
    //@sig & self , => &mut self, st: &mut Steps,
//@else
    //@sig & self => &mut self
//@fi
    //@use maps
    //@desugar res.map_err
    //@hint start
        let ghost before = *self;
        proof { self.storage.inactive_mmaps.whole(); }
    //@hint after self.storage.active_map = Some ( $x ) ;
        proof { assert(self.storage.active_map->0.bounds.relative_internal_bounds@ =~= seq![extension]); self.start_fresh(before, extension as int); }
    //@hint after let start_write_from = $x ;
        let ghost ready = *self;
        proof {
            if before.storage.active_map is Some {
                if start_write_from > 0 { ready.start_same(before, extension as int); }
                else { assert(ready.storage.active_map->0.bounds.relative_internal_bounds@ =~= seq![extension]); ready.start_next(before, extension as int); }
            }
        }
    //@hint after f ( $x ) ? ;
        proof {
            assert forall|o: Seq<u8>| #[trigger] writes(f, o) && o.len() == extension implies
                active_mmap.mmap@ == ready.storage.active_map->0.mmap@.take(start_write_from as int) + (o + ready.storage.active_map->0.mmap@.skip(start_write_from as int).skip(o.len() as int)) by {}
        }
//@if shared
    //@hint before self.rearrange_mmaps ( st )
//@else
    //@hint before self.rearrange_mmaps ( )
//@fi
        proof {
            assert forall|o: Seq<u8>| #[trigger] writes(f, o) && o.len() == extension implies self.content() == before.content() + o && self.wf()
                && self.file is Some == before.file is Some && self.can_write() && (before.clean() ==> self.clean()) && (self.file is Some ==> self.file->0@.len() == before.file->0@.len() || self.file->0@.len() == before.content().len() + grown(extension as int)) && (forall|c: int| #[trigger] self.cut(c) ==> before.cut(c) || c == self.content().len()) by {
                self.written(ready, before, o, start_write_from as int);
            }
        }
    //@spec
        requires
            old(self).wf(),
//@if shared
            old(st).left() >= 1,
//@fi
            old(self).content().len() + extension + MIN_MMAP_BYTES <= usize::MAX,
            exists|out: Seq<u8>| #[trigger] writes(f, out) && out.len() == extension,
        ensures
            r is Ok ==> {
                &&& final(self).wf()
                &&& final(self).file is Some == old(self).file is Some
                &&& forall|out: Seq<u8>| #[trigger] writes(f, out) && out.len() == extension ==> final(self).content() == old(self).content() + out
                &&& final(self).content().len() == old(self).content().len() + extension
                &&& forall|c: int| #[trigger] final(self).cut(c) ==> old(self).cut(c) || c == final(self).content().len()
                &&& final(self).can_write() && old(self).can_write()
                &&& old(self).clean() ==> final(self).clean()
                &&& final(self).file is Some ==> final(self).file->0@.len() == old(self).file->0@.len() || final(self).file->0@.len() == old(self).content().len() + grown(extension as int)
            },
            r matches Err(e) ==> io_error(e) || extension == 0,
            extension == 0 || !old(self).can_write() ==> r is Err && *final(self) == *old(self),
    //@end
}
pub open spec fn io_error(e: FraosError) -> bool { e matches FraosError::FileError(_) || e matches FraosError::MmapError(_) }
