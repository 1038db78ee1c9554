// ---- append-only files ----------------------------------------------------------------------------
// the cell and the atomic length are erased: an append and its length update are one step (in F05 they are two)
//@item fraos/src/appender.rs | struct | Appender
//@rewrite pub ( crate ) struct => pub struct
//@rewrite UnsafeCell < GrowableMmap > => GrowableMmap
//@rewrite AtomicUsize => usize
//@rewrite mmap : => pub mmap:
//@rewrite actual_size : => pub actual_size:
//@end
//@rules cell
UnsafeCell :: new ( $x ) => $x
AtomicUsize :: from ( $x , ) => $x
AtomicUsize :: from ( $x ) => $x
unsafe { mmap . get ( ) . as_ref ( ) } . ok_or ( $x ) ? => mmap
unsafe { self . mmap . get ( ) . as_mut ( ) } . ok_or ( $x ) ? => &mut self.mmap
unsafe { self . mmap . get ( ) . as_ref ( ) } . ok_or ( $x ) ? => &self.mmap
. load ( Ordering :: SeqCst ) =>
//@if shared
self . actual_size . store ( $x , Ordering :: SeqCst ) => publish(&mut self.actual_size, Ghost(mmap.content()), $x)
mmap . grow_and_apply ( $a , $b ) => mmap.grow_and_apply(&mut mine.step(), $a, $b)
mmap . get_ref_and_apply ( $a , $b ) => mmap.get_ref_and_apply(st, $a, $b)
//@else
self . actual_size . store ( $x , Ordering :: SeqCst ) => self.actual_size = $x
//@fi
//@end
//@if shared
/// what the thread that appends shows: no other thread changes anything
pub struct Mine { pub g: Ghost<()> }
impl Mine {
    pub fn step(&self) -> (r: Steps) ensures r.left() == 1 { Steps { g: Ghost(1nat) } }
}
/// other threads see the new length from here on: what it covers must be there
pub fn publish(size: &mut usize, content: Ghost<Seq<u8>>, n: usize)
    requires *old(size) <= n <= content@.len()
    ensures *final(size) == n
{ *size = n; }
/// e is a later state of d
pub open spec fn grew(d: Appender, e: Appender) -> bool {
    &&& d.content().len() <= e.content().len() && e.content().take(d.content().len() as int) == d.content()
    &&& d.actual_size <= e.actual_size
    &&& forall|c: int| #[trigger] e.mmap.cut(c) ==> d.mmap.cut(c) || c > d.content().len()
}
//@fi
impl Appender {
//@if shared
    /// at any time: the length that other threads see is that of bytes that are there
    pub open spec fn wf(self) -> bool { self.mmap.wf() && self.actual_size <= self.mmap.content().len() }
//@else
    pub open spec fn wf(self) -> bool { self.mmap.wf() && self.actual_size == self.mmap.content().len() }
//@fi
    /// no append is under way
    pub open spec fn settled(self) -> bool { self.mmap.wf() && self.actual_size == self.mmap.content().len() }
    pub open spec fn content(self) -> Seq<u8> { self.mmap.content() }
    pub open spec fn file(self) -> Option<File> { self.mmap.file }
    /// room for n more bytes in the address space
    pub open spec fn room(self, n: int) -> bool { self.content().len() + n + MIN_MMAP_BYTES <= usize::MAX }
//@if !shared
    //@fn fraos/src/appender.rs | impl Appender | new
    //@use cell
    //@desugar res.map_err
    //@spec
        ensures
            r matches Ok(a) ==> {
                &&& a.wf()
                &&& path is None ==> a.file() is None && a.content() =~= Seq::<u8>::empty()
                &&& path matches Some(p) ==> {
                    &&& a.file() matches Some(f)
                    &&& f@ == disk(p) && can_write(f) == writable
                    &&& (existing_length matches Some(n) ==> n <= disk(p).len())
                    &&& a.content() =~= disk(p).take(match existing_length { Some(n) => n as int, None => disk(p).len() as int })
                }
                &&& forall|c: int| #[trigger] a.mmap.cut(c) ==> c == a.content().len()
            },
            r matches Err(e) ==> io_error(e) || (e is DataFileDamaged && (path matches Some(p) && existing_length matches Some(n) && n > disk(p).len())),
    //@end
//@fi
    //@fn fraos/src/appender.rs | impl Appender | append
    //@use cell
//@if shared
    //@sig & self , => &mut self, mine: &Mine,
    //@hint before publish ( $x )
        proof {
            // what other threads find between the two steps
            let shown = Appender { mmap: *mmap, actual_size: before.actual_size };
            let out = choose|out: Seq<u8>| #[trigger] writes(f, out) && out.len() == size_inc;
            assert(shown.content() == before.content() + out);
            assert(shown.content().take(before.content().len() as int) =~= before.content());
            assert(shown.wf() && grew(before, shown));
        }
    //@hint start
        let ghost before = *self;
//@else
    //@sig & self => &mut self
//@fi
    //@spec
        requires
            old(self).settled(), old(self).room(size_inc as int),
            exists|out: Seq<u8>| #[trigger] writes(f, out) && out.len() == size_inc,
        ensures
            size_inc == 0 ==> *final(self) == *old(self) && r is Ok,
            r is Ok && size_inc > 0 ==> {
                &&& final(self).settled()
                &&& final(self).file() is Some == old(self).file() is Some
                &&& forall|out: Seq<u8>| #[trigger] writes(f, out) && out.len() == size_inc ==> final(self).content() == old(self).content() + out
                &&& final(self).content().len() == old(self).content().len() + size_inc
                &&& forall|c: int| #[trigger] final(self).mmap.cut(c) ==> old(self).mmap.cut(c) || c == final(self).content().len()
                &&& final(self).mmap.can_write() && old(self).mmap.can_write()
                &&& old(self).mmap.clean() ==> final(self).mmap.clean()
                &&& final(self).file() is Some ==> final(self).file()->0@.len() == old(self).file()->0@.len() || final(self).file()->0@.len() == old(self).content().len() + grown(size_inc as int)
            },
            r matches Err(e) ==> io_error(e),
            size_inc > 0 && !old(self).mmap.can_write() ==> r is Err && *final(self) == *old(self),
    //@end
    //@fn fraos/src/appender.rs | impl Appender | get_data
    //@use cell
//@if shared
    //@sig & self , => &self, st: &mut Steps,
//@fi
    //@spec
        requires
            self.wf(),
//@if shared
            old(st).left() >= 1,
//@fi
            forall|s: &[u8]| self.mmap.piece(offset as int, s@) ==> #[trigger] f.requires((s,)),
        ensures
            offset >= self.content().len() ==> r == Ok::<Option<U>, FraosError>(None),
            offset < self.content().len() ==> exists|s: &[u8]| #[trigger] f.ensures((s,), r) && self.mmap.piece(offset as int, s@),
    //@end
    //@fn fraos/src/appender.rs | impl Appender | memory_size
//@if shared
    //@sig & self => &self, st: &mut Steps
    //@rewrite self . actual_size . load ( Ordering :: SeqCst ) => { st.enter(); self.actual_size }
//@fi
    //@use cell
    //@spec
        requires
            self.wf(),
//@if shared
            old(st).left() >= 1,
//@fi
        ensures r == self.actual_size
    //@end
//@if !shared
    //@fn fraos/src/appender.rs | impl Appender | shrink_to_size
    //@use cell
    //@sig & self => &mut self
    //@rewrite let mmap = & self . mmap => let mmap = &mut self.mmap
    //@spec
        requires old(self).wf()
        ensures
            final(self).mmap.storage == old(self).mmap.storage, final(self).actual_size == old(self).actual_size,
            old(self).file() is None ==> final(self).file() is None && r is Ok,
            old(self).file() matches Some(f) ==> {
                &&& final(self).file() matches Some(g)
                &&& can_write(f) == can_write(g)
                &&& r is Ok ==> g@ =~= f@.take(old(self).content().len() as int)
                &&& r is Err ==> g == f
            },
    //@end
//@fi
}
