// ---- assumed: the peer, the channels and the clock (cardano-net, tokio) ----
pub mod anyhow {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct Error { e: u8 }
    pub type Result<T, E = Error> = core::result::Result<T, E>;
    #[verifier::external_body]
    pub fn error() -> Error { unimplemented!() }
}
use anyhow::Result;
//@rules peer
anyhow :: Result => Result
anyhow :: anyhow ! ( $x* ) => anyhow::error()
anyhow ! ( $x* ) => anyhow::error()
info ! ( $x* ) ; =>
warn ! ( $x* ) ; =>
debug ! ( $x* ) ; =>
error ! ( $x* ) ; =>
. context ( $x* ) =>
. await =>
cardano_net :: ChainIntersection => ChainIntersection
//@end
pub mod cardano_sdk { pub mod protocol {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct HeaderHash { b: [u8; 32] }
    pub enum Point { Origin, BlockHeader { slot_nb: u64, hash: HeaderHash } }
    pub struct Tip { pub point: Point, pub block_number: u64 }
    impl Point {
        pub open spec fn slot(self) -> u64 { match self { Point::Origin => 0, Point::BlockHeader { slot_nb, .. } => slot_nb } }
        #[verifier::external_body] pub fn slot_nb(&self) -> (r: u64) ensures r == self.slot() { unimplemented!() }
        #[verifier::external_body] pub fn eq(&self, o: &Point) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
    }
    impl Tip { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
} }
pub use cardano_sdk::protocol::Tip;
pub type Place = cardano_sdk::protocol::Point;
pub type RawBlock = Vec<u8>;
#[verifier::external_body] pub struct ProtocolError { e: u8 }
#[verifier::external_body] pub struct NetworkError { e: u8 }
impl From<ProtocolError> for anyhow::Error { #[verifier::external_body] fn from(e: ProtocolError) -> Self { unimplemented!() } }
impl From<NetworkError> for anyhow::Error { #[verifier::external_body] fn from(e: NetworkError) -> Self { unimplemented!() } }
pub enum ChainIntersection { Found(Place, Tip), NotFound(Tip) }
/// the conversation about where the chains meet: what was asked last, and the answer
#[verifier::external_body] pub struct ChainSync { c: u8 }
impl ChainSync {
    pub uninterp spec fn asked(&self) -> Seq<Place>;
    pub uninterp spec fn answer(&self) -> ChainIntersection;
    #[verifier::external_body] pub fn intersect(&mut self, points: Vec<Place>) -> (r: Result<ChainIntersection, ProtocolError>)
        ensures final(self).asked() == points@, r matches Ok(a) ==> a == final(self).answer()
    { unimplemented!() }
}
/// the conversation in which blocks are sent: the range asked for last, the blocks of the answer, and whether it is over
#[verifier::external_body] pub struct BlockFetch { c: u8 }
impl BlockFetch {
    pub uninterp spec fn range(&self) -> (Place, Place);
    pub uninterp spec fn batch(&self) -> Option<Seq<RawBlock>>;
    pub uninterp spec fn idle(&self) -> bool;
    #[verifier::external_body] pub fn request_range<'b>(&'b mut self, from: Place, to: Place) -> (r: Result<Option<BlockFetcher<'b>>, ProtocolError>)
        requires old(self).idle()
        ensures
            r matches Ok(Some(f)) ==> f.channel.range() == (from, to) && f.channel.batch() == Some(f.left@) && all_readable(f.left@) && *final(f.channel) == *final(self),
            r matches Ok(None) ==> final(self).range() == (from, to) && final(self).batch() is None && final(self).idle(),
            r matches Err(e) ==> final(self).range() == (from, to) && final(self).batch() is None,
    { unimplemented!() }
}
pub struct BlockFetcher<'b> { pub channel: &'b mut BlockFetch, pub left: Ghost<Seq<RawBlock>> }
impl<'b> BlockFetcher<'b> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Result<Option<RawBlock>, ProtocolError>)
        ensures
            final(self).channel.range() == old(self).channel.range(), final(self).channel.batch() == old(self).channel.batch(),
            *final(old(self).channel) == *final(final(self).channel),
            r matches Ok(Some(b)) ==> old(self).left@.len() > 0 && b == old(self).left@[0] && final(self).left@ == old(self).left@.drop_first(),
            r matches Ok(None) ==> old(self).left@.len() == 0 && final(self).left@ == old(self).left@ && final(self).channel.idle(),
            r is Err ==> final(self).left@ == old(self).left@,
    { unimplemented!() }
}
#[derive(Clone, Copy)] pub enum Version { V6, V7, V8 }
pub struct NetworkDescription { pub anchor_hosts: Vec<(String, u16)>, pub chain_info: PeerInfo, pub net_versions: Vec<Version>, pub known_points: Vec<(u64, Place)> }
pub struct PeerInfo { pub protocol_magic: u64, pub network_id: u8, pub bech32_hrp_address: &'static str }
pub struct NetworkHandle { pub chainsync: ChainSync, pub blockfetch: BlockFetch, pub with: Ghost<NetworkDescription> }
impl NetworkHandle {
    /// a new conversation with the peer described
    #[verifier::external_body] pub fn start(d: &NetworkDescription) -> (r: Result<NetworkHandle, NetworkError>) ensures r matches Ok(h) ==> h.blockfetch.idle() && h.with@ == *d { unimplemented!() }
    #[verifier::external_body] pub fn stop(self) { unimplemented!() }
}
// tokio's channels: what is put in at one end comes out at the other, in order, once
pub mod mpsc {
    use vstd::prelude::*;
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { t: core::marker::PhantomData<T> }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
    #[verifier::external_body] pub struct SendError { e: u8 }
    impl<T> Sender<T> {
        pub uninterp spec fn id(&self) -> int;
        /// what was put in through this end
        pub uninterp spec fn sent(&self) -> Seq<T>;
        #[verifier::external_body] pub fn send(&mut self, x: T) -> (r: core::result::Result<(), SendError>)
            ensures final(self).id() == old(self).id(), final(self).sent() == (if r is Ok { old(self).sent().push(x) } else { old(self).sent() })
        { unimplemented!() }
    }
    impl<T> Receiver<T> {
        pub uninterp spec fn id(&self) -> int;
        /// what is still to come out of this end, up to the other end's being dropped
        pub uninterp spec fn coming(&self) -> Seq<T>;
        /// all that ever comes out of it
        pub uninterp spec fn all(&self) -> Seq<T>;
        #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<T>)
            ensures
                final(self).id() == old(self).id(), final(self).all() == old(self).all(),
                r is None ==> old(self).coming().len() == 0 && final(self).coming() == old(self).coming(),
                r matches Some(x) ==> old(self).coming().len() > 0 && x == old(self).coming()[0] && final(self).coming() == old(self).coming().drop_first(),
        { unimplemented!() }
    }
    #[verifier::external_body] pub fn channel<T>(bound: usize) -> (r: (Sender<T>, Receiver<T>))
        ensures r.0.id() == r.1.id(), r.0.sent().len() == 0, r.1.coming() == r.1.all()
    { unimplemented!() }
}
pub mod oneshot {
    use vstd::prelude::*;
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { t: core::marker::PhantomData<T> }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { t: core::marker::PhantomData<T> }
    impl<T> Sender<T> { #[verifier::external_body] pub fn send(self, x: T) -> core::result::Result<(), T> { unimplemented!() } }
    #[verifier::external_body] pub fn channel<T>() -> (Sender<T>, Receiver<T>) { unimplemented!() }
}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { d: u8 }
#[verifier::external_body] pub struct Instant { i: u8 }
impl Instant {
    #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> Duration { unimplemented!() }
    /// (the clock started earlier than that)
    #[verifier::external_body] pub fn checked_sub(&self, d: Duration) -> (r: Option<Instant>) ensures r is Some { unimplemented!() }
}
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { unimplemented!() } }
pub assume_specification<T, E>[ Option::<core::result::Result<T, E>>::transpose ](o: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures r == (match o { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures *final(o) == Some(x), r == *old(o);
