// ---- identifiers (C09), numbers (C01), eras (D01), places (D03): their contracts, for use here ----
#[derive(Clone, Copy, PartialEq, Eq)] pub struct BlockNumber(pub u64);
#[derive(Clone, Copy, PartialEq, Eq)] pub struct SlotNumber(pub u64);
impl BlockNumber { #[verifier::external_body] pub fn new(n: u64) -> (r: Self) ensures r.0 == n { unimplemented!() } }
impl SlotNumber {
    #[verifier::external_body] pub fn new(n: u64) -> (r: Self) ensures r.0 == n { unimplemented!() }
    #[verifier::external_body] pub fn from(n: u64) -> (r: Self) ensures r.0 == n { unimplemented!() }
}
#[verifier::external_body] pub struct BlockId { s: String }
impl View for BlockId { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl BlockId {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn new(s: String) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn new_static(s: &'static str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
}
//@item blockchain-source/src/cardano/point.rs | enum | Point
//@end
impl Point { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the peer's form of a place, if its block id is a hash (D03)
pub uninterp spec fn as_place(p: Point) -> Option<Place>;
#[verifier::external_body] pub fn to_places(from: Vec<Point>) -> (r: Result<Vec<Place>>)
    ensures
        r matches Ok(v) ==> v@.len() == from@.len() && forall|i: int| 0 <= i < v@.len() ==> as_place(from@[i]) == Some(#[trigger] v@[i]),
        r is Err ==> exists|i: int| 0 <= i < from@.len() && as_place(#[trigger] from@[i]) is None,
{ unimplemented!() }
#[verifier::external_body] pub fn copy_of(v: &Vec<Point>) -> (r: Vec<Point>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn same_points(a: &Vec<Point>, b: Vec<Point>) -> (r: bool) ensures r == (a@ =~= b@) { unimplemented!() }
pub open spec fn slot_of() -> spec_fn(Place) -> u64 { |p: Place| p.slot() }
/// std's stable sort by a key: in descending (`Reverse`) or ascending order
pub open spec fn rearranged<T>(a: Seq<T>, b: Seq<T>) -> bool { a.to_multiset() =~= b.to_multiset() }
#[verifier::external_body] pub fn sort_down<T, F: Fn(&T) -> u64>(v: &mut Vec<T>, g: Ghost<spec_fn(T) -> u64>, key: F)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> key.requires((&#[trigger] old(v)@[i],)), forall|x: &T, k: u64| key.ensures((x,), k) ==> k == (g@)(*x)
    ensures rearranged(old(v)@, final(v)@), final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (g@)(#[trigger] final(v)@[i]) >= (g@)(#[trigger] final(v)@[j]),
{ unimplemented!() }
#[verifier::external_body] pub fn sort_up<T, F: Fn(&T) -> u64>(v: &mut Vec<T>, g: Ghost<spec_fn(T) -> u64>, key: F)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> key.requires((&#[trigger] old(v)@[i],)), forall|x: &T, k: u64| key.ensures((x,), k) ==> k == (g@)(*x)
    ensures rearranged(old(v)@, final(v)@), final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (g@)(#[trigger] final(v)@[i]) <= (g@)(#[trigger] final(v)@[j]),
{ unimplemented!() }
//@item blockchain-source/src/cardano/time.rs | struct | Era
//@end
impl Era {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    /// so that no epoch is too large to be counted
    pub open spec fn usable(self) -> bool { self.epoch_length_seconds >= 2 && self.start_epoch < 0x8000_0000_0000_0000 }
    pub open spec fn epoch_of(self, slot: u64) -> Option<u64> {
        if slot < self.first_slot { None } else { Some((self.start_epoch + (slot - self.first_slot) as int / self.epoch_length_seconds as int) as u64) }
    }
    //@fn blockchain-source/src/cardano/time.rs | impl Era | absolute_slot_to_epoch
    //@desugar opt.map
    //@spec
        requires self.usable()
        ensures r == self.epoch_of(slot)
    //@hint start
        proof {
            if slot >= self.first_slot {
                let (n, d) = (slot - self.first_slot, self.epoch_length_seconds as int);
                assert(0 <= n / d <= 0x7fff_ffff_ffff_ffff) by (nonlinear_arith) requires 0 <= n <= 0xffff_ffff_ffff_ffff, d >= 2;
            }
        }
    //@end
}
// ---- a block, as CML reads it ----
pub mod cml_multi_era {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct Hash { h: u8 }
    impl Hash {
        /// in hexadecimal
        pub uninterp spec fn text(&self) -> Seq<char>;
        #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    }
    pub struct Header { pub number: u64, pub slot: u64, pub previous: Option<Hash> }
    impl Header {
        #[verifier::external_body] pub fn prev_hash(&self) -> (r: Option<Hash>) ensures r == self.previous { unimplemented!() }
        #[verifier::external_body] pub fn block_number(&self) -> (r: u64) ensures r == self.number { unimplemented!() }
        #[verifier::external_body] pub fn slot(&self) -> (r: u64) ensures r == self.slot { unimplemented!() }
    }
    pub mod utils { pub use super::Header as MultiEraBlockHeader; }
    pub struct BoundaryData { pub epoch_id: u64 }
    pub struct BoundaryHeader { pub consensus_data: BoundaryData }
    pub struct Boundary { pub header: BoundaryHeader }
    pub struct SlotId { pub epoch: u64 }
    pub struct MainData { pub byron_slot_id: SlotId }
    pub struct MainHeader { pub consensus_data: MainData }
    pub struct Main { pub header: MainHeader }
    pub mod byron { pub mod block { pub enum ByronBlock { EpochBoundary(super::super::Boundary), Main(super::super::Main) } } }
    #[verifier::external_body] pub struct Later { b: u8 }
    pub enum MultiEraBlock { Byron(byron::block::ByronBlock), Other(Later) }
    #[verifier::external_body] #[derive(Debug)] pub struct DeserializeError { e: u8 }
    /// what the bytes of a block say
    pub uninterp spec fn read(raw: Seq<u8>) -> Option<MultiEraBlock>;
    impl MultiEraBlock {
        pub uninterp spec fn head(&self) -> Header;
        pub uninterp spec fn hash_bytes(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn from_explicit_network_cbor_bytes(raw: &[u8]) -> (r: core::result::Result<MultiEraBlock, DeserializeError>)
            ensures match r { Ok(b) => read(raw@) == Some(b), Err(_) => read(raw@) is None }
        { unimplemented!() }
        #[verifier::external_body] pub fn header(&self) -> (r: Header) ensures r == self.head() { unimplemented!() }
        #[verifier::external_body] pub fn hash(&self) -> (r: [u8; 32]) ensures r@ == self.hash_bytes() { unimplemented!() }
    }
}
pub mod hex {
    use vstd::prelude::*;
    pub uninterp spec fn text(b: Seq<u8>) -> Seq<char>;
    #[verifier::external_body] pub fn encode(b: [u8; 32]) -> (r: String) ensures r@ == text(b@) { unimplemented!() }
}
#[verifier::external_body] pub fn to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
//@item blockchain-source/src/cardano/event.rs | enum | CardanoNetworkEvent
//@end
//@item blockchain-source/src/cardano/event.rs | struct | BlockEvent
//@end
//@item blockchain-source/src/cardano/mod.rs | type | Event
//@rewrite type Event => pub type Event
//@end
pub use cml_multi_era::{MultiEraBlock, read};
pub use cml_multi_era::byron::block::ByronBlock;
pub open spec fn readable(raw: RawBlock) -> bool { read(raw@) is Some }
pub open spec fn all_readable(s: Seq<RawBlock>) -> bool { forall|i: int| 0 <= i < s.len() ==> readable(#[trigger] s[i]) }
/// the epoch: the block's own in Byron, the era's count afterwards
pub open spec fn epoch_of(b: MultiEraBlock, era: Era) -> Option<u64> {
    match b {
        MultiEraBlock::Byron(ByronBlock::EpochBoundary(x)) => Some(x.header.consensus_data.epoch_id),
        MultiEraBlock::Byron(ByronBlock::Main(x)) => Some(x.header.consensus_data.byron_slot_id.epoch),
        MultiEraBlock::Other(_) => era.epoch_of(b.head().slot),
    }
}
/// an event says of a block what its bytes say
pub open spec fn tells(e: BlockEvent, raw: Seq<u8>, era: Era) -> bool {
    read(raw) matches Some(b) && {
        &&& e.raw_block@ == raw && e.id@ == hex::text(b.hash_bytes()) && e.block_number.0 == b.head().number && e.slot_number.0 == b.head().slot
        &&& (b.head().previous matches Some(p) ==> e.parent_id@ == p.text())
        &&& e.is_boundary_block == (b matches MultiEraBlock::Byron(ByronBlock::EpochBoundary(_)))
        &&& epoch_of(b, era) == Some(e.epoch)
    }
}
//@fn blockchain-source/src/cardano/event.rs | | get_parent_id
//@desugar opt.map opt.unwrap_or_else
//@sig cml_multi_era :: utils :: MultiEraBlockHeader => cml_multi_era::Header
//@rewrite . as_ref ( ) . map => .as_ref().map
//@spec
    ensures header.previous matches Some(p) ==> r@ == p.text()
//@end
impl BlockEvent {
    //@fn blockchain-source/src/cardano/event.rs | impl BlockEvent | from_serialized_block
    //@use peer
    //@sig anyhow :: Result => Result
    //@rewrite raw_block . to_vec ( ) => to_vec(raw_block)
    //@spec
        requires era.usable(), read(raw_block@) is Some
        ensures
            r matches Ok(e) ==> tells(e, raw_block@, *era),
            r is Err ==> epoch_of(read(raw_block@)->Some_0, *era) is None,
    //@end
}
// ---- the source ----
#[verifier::external_body] pub struct ChainInfo { c: u8 }
#[verifier::external_body] pub struct Magic { m: u8 }
pub uninterp spec fn main_network() -> ChainInfo;
impl ChainInfo {
    pub uninterp spec fn magic(self) -> u64;
    pub uninterp spec fn id(self) -> u8;
    #[verifier::external_body] pub fn protocol_magic(&self) -> (r: Magic) ensures r.number() == self.magic() { unimplemented!() }
    #[verifier::external_body] pub fn network_id(&self) -> (r: u8) ensures r == self.id() { unimplemented!() }
    #[verifier::external_body] pub fn mainnet() -> (r: Self) ensures r == main_network() { unimplemented!() }
    #[verifier::external_body] pub fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
impl Magic { pub uninterp spec fn number(self) -> u64; }
#[verifier::external_body] pub fn magic_number(m: Magic) -> (r: u32) ensures r as u64 == m.number() { unimplemented!() }
#[verifier::external_body] pub struct CowStr { c: u8 }
impl CowStr {
    pub uninterp spec fn text(self) -> Seq<char>;
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
//@item blockchain-source/src/cardano/configuration.rs | struct | NetworkConfiguration
//@rewrite cml_chain :: genesis :: network_info :: NetworkInfo => ChainInfo
//@rewrite Cow < 'static , str > => CowStr
//@end
impl NetworkConfiguration { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Item = Result<Event>;
/// the message stands for that block: the event, or an error when its epoch can't be told
pub open spec fn stands_for(m: Item, raw: RawBlock, era: Era) -> bool {
    match m { Ok(CardanoNetworkEvent::Block(e)) => tells(e, raw@, era), Ok(CardanoNetworkEvent::Tip(_)) => false, Err(_) => epoch_of(read(raw@)->Some_0, era) is None }
}
pub open spec fn stand_for(ms: Seq<Item>, bs: Seq<RawBlock>, era: Era) -> bool {
    ms.len() == bs.len() && forall|i: int| 0 <= i < ms.len() ==> stands_for(#[trigger] ms[i], bs[i], era)
}
/// nothing, or the news of where the peer's chain ends
pub open spec fn news(t: Seq<Item>, tip: Tip) -> bool { t.len() == 0 || t =~= seq![Ok(CardanoNetworkEvent::Tip(tip))] }
/// put in: the news, and of the blocks the first n (in order, each once)
pub open spec fn put_in(before: Seq<Item>, after: Seq<Item>, tip: Tip, bs: Seq<RawBlock>, era: Era, n: int) -> bool {
    0 <= n <= bs.len() && exists|t: Seq<Item>, ms: Seq<Item>| after == before + t + ms && #[trigger] news(t, tip) && #[trigger] stand_for(ms, bs.take(n), era)
}
/// the blocks to be served of a batch: all but the place asked from, unless that is to be served too
pub open spec fn wanted(bs: Seq<RawBlock>, ignore: bool) -> Seq<RawBlock> { if ignore && bs.len() > 0 { bs.drop_first() } else { bs } }
/// the peer was asked for all of these places, the newest first
pub open spec fn newest_first(s: Seq<Place>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).slot() >= (#[trigger] s[j]).slot() }
pub open spec fn asked_for(s: Seq<Place>, from: Seq<Point>) -> bool {
    newest_first(s) && exists|u: Seq<Place>| #[trigger] rearranged(u, s) && u.len() == from.len() && forall|i: int| 0 <= i < u.len() ==> as_place(from[i]) == Some(#[trigger] u[i])
}
/// a request was served to the end: everything the peer has after the place where the chains meet
pub open spec fn served(h: NetworkHandle, from: Seq<Point>, ignore: bool, era: Era, before: Seq<Item>, after: Seq<Item>) -> bool {
    &&& asked_for(h.chainsync.asked(), from)
    &&& match h.chainsync.answer() {
        ChainIntersection::NotFound(_) => after == before,
        ChainIntersection::Found(place, tip) => if tip.point == place { after == before } else {
            h.blockfetch.range() == (place, tip.point) && match h.blockfetch.batch() {
                None => put_in(before, after, tip, Seq::empty(), era, 0),
                Some(bs) => put_in(before, after, tip, wanted(bs, ignore), era, wanted(bs, ignore).len() as int),
            }
        },
    }
}
/// or given up on the way
pub open spec fn cut_short(h: NetworkHandle, from: Seq<Point>, ignore: bool, era: Era, before: Seq<Item>, after: Seq<Item>) -> bool {
    after == before || (h.chainsync.answer() matches ChainIntersection::Found(place, tip) && asked_for(h.chainsync.asked(), from) && h.blockfetch.range() == (place, tip.point) && match h.blockfetch.batch() {
        None => put_in(before, after, tip, Seq::empty(), era, 0),
        Some(bs) => partly(before, after, tip, wanted(bs, ignore), era),
    })
}
pub open spec fn partly(before: Seq<Item>, after: Seq<Item>, tip: Tip, bs: Seq<RawBlock>, era: Era) -> bool { exists|n: int| #[trigger] put_in(before, after, tip, bs, era, n) }
//@fn blockchain-source/src/cardano/mod.rs | | block_fetch
//@use peer
//@sig async fn => fn
//@sig channel : & mpsc :: Sender < Result < Event , anyhow :: Error > > => channel: &mut mpsc::Sender<Item>
//@rewrite from . into_iter ( ) . map ( cardano_sdk :: protocol :: Point :: try_from ) . collect ( ) => to_places(from)
//@rewrite points . sort_by_key ( | $b : $t | std :: cmp :: Reverse ( $e ) ) => sort_down(&mut points, Ghost(slot_of()), |$b: $t| -> (k: u64) ensures k == $b.slot() { $e })
//@rewrite points . sort_by_key ( | $b : $t | $e ) => sort_up(&mut points, Ghost(slot_of()), |$b: $t| -> (k: u64) ensures k == $b.slot() { $e })
//@rewrite tip . point == from => tip.point.eq(&from)
//@rewrite . map ( CardanoNetworkEvent :: Block ) => .map(|__x| CardanoNetworkEvent::Block(__x))
//@rewrite raw_block . as_ref ( ) => raw_block.as_slice()
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@attr #[verifier::spinoff_prover]
//@desugar res.map while.let
//@spec
    requires old(handle).blockfetch.idle(), network_config.shelley_era_config.usable()
    ensures
        final(channel).id() == old(channel).id(), final(handle).with == old(handle).with,
        r is Ok ==> final(handle).blockfetch.idle() && served(*final(handle), from@, ignore_first_block, network_config.shelley_era_config, old(channel).sent(), final(channel).sent()),
        r is Err ==> cut_short(*final(handle), from@, ignore_first_block, network_config.shelley_era_config, old(channel).sent(), final(channel).sent()),
//@hint start
    let ghost from0 = from@;
    let ghost (sent0, era) = (channel.sent(), network_config.shelley_era_config);
    let ghost mut t0 = Seq::<Item>::empty();
    let ghost mut ms = Seq::<Item>::empty();
//@hint before let mut points
    let ghost us = points->Ok_0@;
//@hint before let ( from , tip ) = match
    proof { assert(rearranged(us, points@)); assert(asked_for(points@, from0)); }
//@hint before let mut block_fetcher
    let ghost (place0, tip0) = (from, tip);
    proof {
        t0 = channel.sent().skip(sent0.len() as int);
        assert(news(t0, tip)); assert(channel.sent() =~= sent0 + t0 + ms);
        assert(stand_for(ms, Seq::<RawBlock>::empty().take(0), era));
        assert(put_in(sent0, channel.sent(), tip, Seq::empty(), era, 0));
    }
//@hint before if ignore_first_block
    let ghost bs = block_fetcher.left@;
    let ghost bf0 = block_fetcher;
    let ghost want = wanted(bs, ignore_first_block);
    proof { assert(stand_for(ms, want.take(0), era)); assert(put_in(sent0, channel.sent(), tip0, want, era, 0)); assert(partly(sent0, channel.sent(), tip0, want, era)); }
//@hint loop-start 0
    proof { assert(put_in(sent0, channel.sent(), tip0, want, era, ms.len() as int)); assert(partly(sent0, channel.sent(), tip0, want, era)); }
//@hint loop-end 0
    proof {
        let m = channel.sent().last();
        assert(stands_for(m, want[ms.len() as int], era));
        let ms2 = ms.push(m);
        assert(sent0 + t0 + ms2 =~= (sent0 + t0 + ms).push(m));
        assert(stand_for(ms2, want.take(ms2.len() as int), era)) by {
            assert forall|i: int| 0 <= i < ms2.len() implies stands_for(#[trigger] ms2[i], want.take(ms2.len() as int)[i], era) by { if i < ms.len() { assert(stands_for(ms[i], want.take(ms.len() as int)[i], era)); } }
        }
        assert(want.skip(ms.len() as int).drop_first() =~= want.skip(ms2.len() as int));
        ms = ms2;
    }
//@hint before-loop 0
    proof { assert(want.skip(0) =~= want); }
//@loop 0
    invariant_except_break
        channel.sent() == sent0 + t0 + ms, ms.len() <= want.len(), stand_for(ms, want.take(ms.len() as int), era), block_fetcher.left@ == want.skip(ms.len() as int),
    invariant
        channel.id() == old(channel).id(), all_readable(block_fetcher.left@),
        block_fetcher.channel.range() == (place0, tip0.point), block_fetcher.channel.batch() == Some(bs), *final(block_fetcher.channel) == *final(bf0.channel),
    ensures put_in(sent0, channel.sent(), tip0, want, era, want.len() as int), block_fetcher.channel.idle(),
    decreases block_fetcher.left@.len()
//@end
/// a request from the block above the genesis block is for everything; any other is for what comes after the place asked from
pub open spec fn from_start(from: Seq<Point>, c: NetworkConfiguration) -> bool { from =~= seq![Point::BlockHeader { slot_nb: SlotNumber(0), hash: c.genesis_parent }] }
pub open spec fn start_of(from: Seq<Point>, c: NetworkConfiguration) -> Seq<Point> { if from_start(from, c) { seq![c.genesis] } else { from } }
pub type Request = (Vec<Point>, mpsc::Sender<Item>);
//@fn blockchain-source/src/cardano/mod.rs | | request_handler
//@use peer
//@sig async fn => fn
//@sig mut requests : mpsc :: Receiver < $x* > => mut requests: mpsc::Receiver<Request>
//@rewrite from == vec ! [ $x* ] => same_points(&from, vec![$x])
//@rewrite 0 . into ( ) => SlotNumber::from(0)
//@rewrite handle . replace ( new_handle ) => handle = Some(new_handle)
//@rewrite & channel => &mut channel
//@rewrite Some ( ( from , channel ) ) => Some((from, mut channel))
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::spinoff_prover]
//@desugar while.let
//@spec
    requires handle.blockfetch.idle(), handle.with@ == config, network_config.shelley_era_config.usable()
//@hint start
    let ghost mut before = requests.coming();
    let ghost mut asked = Seq::<Point>::empty();
    let ghost mut sent0 = Seq::<Item>::empty();
    let ghost handle0 = handle;
//@hint before if handle . is_none
    proof { assert(channel == before[0].1 && from == before[0].0); asked = from@; sent0 = channel.sent(); }
//@hint before current_handle . stop
    proof { assert(cut_short(current_handle, start_of(asked, network_config), !from_start(asked, network_config), network_config.shelley_era_config, sent0, channel.sent())); }
//@hint before handle = Some ( current_handle )
    proof { assert(served(current_handle, start_of(asked, network_config), !from_start(asked, network_config), network_config.shelley_era_config, sent0, channel.sent())); }
//@hint loop-start 0
    proof { before = requests.coming(); }
//@loop 0
    invariant
        handle matches Some(h) ==> h.blockfetch.idle() && h.with@ == config,
    decreases requests.coming().len()
//@end
//@item blockchain-source/src/cardano/mod.rs | const | TX_PROCESSING_CHANNEL_BOUND
//@end
//@item blockchain-source/src/cardano/mod.rs | struct | CardanoSource
//@rewrite service : => pub service:
//@rewrite current : => pub current:
//@rewrite exit_rx : => pub exit_rx:
//@rewrite default_from : => pub default_from:
//@end
/// the channel at hand still had something: that came out, and nobody was asked anything
pub open spec fn from_the_buffer(o: CardanoSource, n: CardanoSource, r: Result<Option<Event>>) -> bool {
    &&& o.current matches Some(c) && c.coming().len() > 0 && (n.current matches Some(d) && d.id() == c.id() && d.coming() == c.coming().drop_first() && came_out(c.coming()[0], r))
    &&& n.service == o.service
}
pub open spec fn came_out(x: Item, r: Result<Option<Event>>) -> bool { r == (match x { Ok(e) => Ok::<_, anyhow::Error>(Some(e)), Err(e) => Err(e) }) }
/// what a source asks from when told nothing
pub open spec fn origin(from: Seq<Point>, default: Point) -> Seq<Point> { if from.len() == 0 { seq![default] } else { from } }
pub open spec fn that_asked(q: Request, from: Seq<Point>) -> bool { q.0@ =~= from && q.1.sent().len() == 0 }
/// a new request was made, and the first of its answers came out
pub open spec fn from_the_peer(o: CardanoSource, n: CardanoSource, from: Seq<Point>, r: Result<Option<Event>>) -> bool {
    &&& o.current matches Some(c) ==> c.coming().len() == 0
    &&& (n.service.sent() == o.service.sent() && r is Err) || {
        let q = n.service.sent().last();
        &&& n.service.sent() =~= o.service.sent().push(q) && that_asked(q, origin(from, o.default_from))
        &&& (n.current matches Some(c) && c.id() == q.1.id() && (if c.all().len() == 0 { r is Ok && r->Ok_0 is None } else { c.coming() == c.all().drop_first() && came_out(c.all()[0], r) }))
    }
}
/// the peer is the one configured, on the network configured
pub open spec fn same_peer(d: NetworkDescription, c: NetworkConfiguration) -> bool {
    &&& d.anchor_hosts@.len() == 1 && d.anchor_hosts@[0].0@ == c.relay.0.text() && d.anchor_hosts@[0].1 == c.relay.1
    &&& d.chain_info.protocol_magic == c.chain_info.magic() && d.chain_info.network_id == c.chain_info.id()
    &&& d.chain_info.bech32_hrp_address@ == (if c.chain_info == main_network() { "addr"@ } else { "addr_test"@ })
}
impl CardanoSource {
    //@fn blockchain-source/src/cardano/mod.rs | impl Source for CardanoSource | pull
    //@use peer
    //@sig async fn => fn
    //@sig Self :: From => Vec<Point>
    //@sig Self :: Event => Event
    //@rewrite from . clone ( ) => copy_of(from)
    //@spec
        ensures
            from_the_buffer(*old(self), *final(self), r) || from_the_peer(*old(self), *final(self), from@, r),
            final(self).default_from == old(self).default_from,
    //@end
    //@fn blockchain-source/src/cardano/mod.rs | impl CardanoSource | clear_buffers
    //@spec
        ensures final(self).current is None, final(self).service == old(self).service, final(self).default_from == old(self).default_from,
    //@end
    //@fn blockchain-source/src/cardano/mod.rs | impl CardanoSource | connect
    //@use peer
    //@sig async fn => fn
    //@sig -> Result < Self > => -> Result<CardanoSource>
    //@rewrite cardano_sdk :: chaininfo :: ChainInfo => PeerInfo
    //@rewrite cardano_sdk :: protocol :: Magic ( u32 :: from ( $x* ) as u64 ) => magic_number($x) as u64
    //@rewrite cml_chain :: genesis :: network_info :: NetworkInfo :: => ChainInfo::
    //@rewrite network_config . chain_info == $x* { => network_config.chain_info.eq(&$x) {
    //@rewrite tokio :: task :: spawn ( request_handler ( $x* ) . instrument ( $y* ) , ) => start_handler($x)
    //@hint before start_handler
        proof { assert(tx.id() == rx.id()); }
    //@spec
        requires network_config.shelley_era_config.usable()
        ensures r matches Ok(s) ==> s.current is None && s.default_from == network_config.from && s.service.sent().len() == 0
    //@end
}
/// a task of its own, which serves the requests (`request_handler`)
#[verifier::external_body]
pub fn start_handler(handle: NetworkHandle, requests: mpsc::Receiver<Request>, exit_signal: oneshot::Sender<()>, tip_update_pace: Duration, network_config: NetworkConfiguration, config: NetworkDescription)
    requires handle.blockfetch.idle(), handle.with@ == config, same_peer(config, network_config), network_config.shelley_era_config.usable()
{ unimplemented!() }
