//! Stand-ins for what blockchain-source needs of cml-chain, cml-core, cml-multi-era and cardano-net: just
//! enough to run the source against a scripted peer. In the workspace copy of blockchain-source this
//! crate goes by all four names.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

// ---- cml-chain, cml-core ----
pub mod network {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ProtocolMagic(u32);
    impl From<u32> for ProtocolMagic { fn from(n: u32) -> Self { Self(n) } }
    impl From<ProtocolMagic> for u32 { fn from(m: ProtocolMagic) -> u32 { m.0 } }
}
pub mod genesis {
    pub mod network_info {
        use crate::network::ProtocolMagic;
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct NetworkInfo { id: u8, magic: ProtocolMagic }
        impl NetworkInfo {
            pub fn new(id: u8, magic: ProtocolMagic) -> Self { Self { id, magic } }
            pub fn network_id(&self) -> u8 { self.id }
            pub fn protocol_magic(&self) -> ProtocolMagic { self.magic }
            pub fn mainnet() -> Self { Self::new(1, 764824073.into()) }
            pub fn testnet() -> Self { Self::new(0, 1097911063.into()) }
            pub fn preprod() -> Self { Self::new(0, 1.into()) }
            pub fn preview() -> Self { Self::new(0, 2.into()) }
        }
    }
}
// ---- cml-multi-era: a block of its own kind, with the same readings ----
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hash(pub [u8; 32]);
impl std::fmt::Display for Hash {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.iter().try_for_each(|b| write!(f, "{b:02x}")) }
}
pub mod utils {
    use super::Hash;
    #[derive(Clone, Debug)]
    pub struct MultiEraBlockHeader { pub(crate) number: u64, pub(crate) slot: u64, pub(crate) previous: Option<Hash> }
    impl MultiEraBlockHeader {
        pub fn prev_hash(&self) -> Option<Hash> { self.previous.clone() }
        pub fn block_number(&self) -> u64 { self.number }
        pub fn slot(&self) -> u64 { self.slot }
    }
}
#[derive(Clone, Debug)] pub struct Parts { header: utils::MultiEraBlockHeader, hash: [u8; 32] }
pub mod byron {
    pub mod block {
        #[derive(Clone, Debug)] pub struct BoundaryData { pub epoch_id: u64 }
        #[derive(Clone, Debug)] pub struct BoundaryHeader { pub consensus_data: BoundaryData }
        #[derive(Clone, Debug)] pub struct EbBlock { pub header: BoundaryHeader, pub parts: crate::Parts }
        #[derive(Clone, Debug)] pub struct SlotId { pub epoch: u64 }
        #[derive(Clone, Debug)] pub struct MainData { pub byron_slot_id: SlotId }
        #[derive(Clone, Debug)] pub struct MainHeader { pub consensus_data: MainData }
        #[derive(Clone, Debug)] pub struct MainBlock { pub header: MainHeader, pub parts: crate::Parts }
        #[derive(Clone, Debug)] pub enum ByronBlock { EpochBoundary(EbBlock), Main(MainBlock) }
    }
}
use byron::block::*;
#[derive(Clone, Debug)] pub enum MultiEraBlock { Byron(ByronBlock), Later(Parts) }
/// how a block of the scripted peer is written: kind, number, slot, epoch, hash, previous hash, padding
pub fn write_block(kind: u8, number: u64, slot: u64, epoch: u64, hash: [u8; 32], previous: Option<[u8; 32]>, padding: &[u8]) -> Vec<u8> {
    let mut v = vec![kind, previous.is_some() as u8];
    for n in [number, slot, epoch] { v.extend(n.to_be_bytes()); }
    v.extend(hash);
    v.extend(previous.unwrap_or([0; 32]));
    v.extend(padding);
    v
}
impl MultiEraBlock {
    pub fn from_explicit_network_cbor_bytes(b: &[u8]) -> Result<Self, String> {
        if b.len() < 90 { return Err("too short".into()); }
        let n = |i: usize| u64::from_be_bytes(b[i..i + 8].try_into().unwrap());
        let h = |i: usize| -> [u8; 32] { b[i..i + 32].try_into().unwrap() };
        let parts = Parts { header: utils::MultiEraBlockHeader { number: n(2), slot: n(10), previous: (b[1] == 1).then(|| Hash(h(58))) }, hash: h(26) };
        let epoch = n(18);
        match b[0] {
            0 => Ok(Self::Byron(ByronBlock::EpochBoundary(EbBlock { header: BoundaryHeader { consensus_data: BoundaryData { epoch_id: epoch } }, parts }))),
            1 => Ok(Self::Byron(ByronBlock::Main(MainBlock { header: MainHeader { consensus_data: MainData { byron_slot_id: SlotId { epoch } } }, parts }))),
            2 => Ok(Self::Later(parts)),
            _ => Err("unknown kind".into()),
        }
    }
    fn parts(&self) -> &Parts {
        match self { Self::Byron(ByronBlock::EpochBoundary(b)) => &b.parts, Self::Byron(ByronBlock::Main(b)) => &b.parts, Self::Later(p) => p }
    }
    pub fn header(&self) -> utils::MultiEraBlockHeader { self.parts().header.clone() }
    pub fn hash(&self) -> [u8; 32] { self.parts().hash }
}
// ---- cardano-net: connections to a peer of the script, found by its host name ----
use cardano_sdk::chaininfo::ChainInfo;
use cardano_sdk::protocol::{Point, Tip, Version};
#[derive(Clone, Debug)]
pub struct NetworkDescription { pub anchor_hosts: Vec<(String, u16)>, pub chain_info: ChainInfo, pub net_versions: Vec<Version>, pub known_points: Vec<(u64, Point)> }
#[derive(Debug)] pub struct ProtocolError(pub String);
impl std::fmt::Display for ProtocolError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl std::error::Error for ProtocolError {}
#[derive(Debug)] pub struct NetworkError(pub String);
impl std::fmt::Display for NetworkError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl std::error::Error for NetworkError {}
/// the script
#[derive(Default)]
pub struct Peer {
    /// the chain, with a block to come after each of these places
    pub chain: Vec<(Point, Vec<u8>)>,
    /// what it does next, once each: refuse a connection, refuse to say where the chains meet, have no blocks, stop after so many
    pub refuse: bool,
    pub silent: bool,
    pub no_blocks: bool,
    pub cut: Option<usize>,
    /// between any two blocks, let others run
    pub slow: bool,
    // what it saw
    pub connected: Vec<NetworkDescription>,
    pub asked: Vec<Vec<Point>>,
    pub ranges: Vec<(Point, Point)>,
    /// a request came on a connection on which another had not finished
    pub misused: bool,
}
static PEERS: Mutex<BTreeMap<String, Arc<Mutex<Peer>>>> = Mutex::new(BTreeMap::new());
pub fn peer(name: &str) -> Arc<Mutex<Peer>> { PEERS.lock().unwrap().entry(name.to_string()).or_default().clone() }
pub fn forget(name: &str) { PEERS.lock().unwrap().remove(name); }
impl Peer {
    pub fn tip(&self) -> Tip {
        match self.chain.last() { Some((p, b)) => Tip { point: p.clone(), block_number: MultiEraBlock::from_explicit_network_cbor_bytes(b).unwrap().header().block_number() }, None => Tip::ORIGIN }
    }
}
pub enum ChainIntersection { Found(Point, Tip), NotFound(Tip) }
pub struct ChainSyncChannel { peer: Arc<Mutex<Peer>> }
impl ChainSyncChannel {
    pub async fn intersect(&mut self, points: Vec<Point>) -> Result<ChainIntersection, ProtocolError> {
        tokio::task::yield_now().await;
        let mut p = self.peer.lock().unwrap();
        p.asked.push(points.clone());
        if std::mem::take(&mut p.silent) { return Err(ProtocolError("no answer".into())); }
        let tip = p.tip();
        // the first of the places that is on its chain
        Ok(match points.into_iter().find(|x| p.chain.iter().any(|(y, _)| x == y)) { Some(x) => ChainIntersection::Found(x, tip), None => ChainIntersection::NotFound(tip) })
    }
}
pub struct BlockFetchChannel { peer: Arc<Mutex<Peer>>, busy: bool }
pub struct BlockFetcher<'b> { channel: &'b mut BlockFetchChannel, left: std::vec::IntoIter<Vec<u8>>, cut: Option<usize>, slow: bool }
impl BlockFetchChannel {
    pub async fn request_range<'b>(&'b mut self, from: Point, to: Point) -> Result<Option<BlockFetcher<'b>>, ProtocolError> {
        tokio::task::yield_now().await;
        let (left, cut, slow) = {
            let mut p = self.peer.lock().unwrap();
            p.misused |= self.busy;
            p.ranges.push((from.clone(), to.clone()));
            if std::mem::take(&mut p.no_blocks) { return Ok(None); }
            let (Some(i), Some(j)) = (p.chain.iter().position(|x| x.0 == from), p.chain.iter().position(|x| x.0 == to)) else { return Ok(None) };
            if i > j { return Ok(None); }
            (p.chain[i..=j].iter().map(|x| x.1.clone()).collect::<Vec<_>>(), p.cut.take(), p.slow)
        };
        self.busy = true;
        Ok(Some(BlockFetcher { channel: self, left: left.into_iter(), cut, slow }))
    }
}
impl BlockFetcher<'_> {
    pub async fn next(&mut self) -> Result<Option<Vec<u8>>, ProtocolError> {
        if self.slow { tokio::task::yield_now().await; }
        match &mut self.cut { Some(0) => return Err(ProtocolError("cut".into())), Some(n) => *n -= 1, None => {} }
        let b = self.left.next();
        if b.is_none() { self.channel.busy = false; }
        Ok(b)
    }
    pub fn done(self) -> bool { !self.channel.busy }
}
pub struct NetworkHandle { pub chainsync: ChainSyncChannel, pub blockfetch: BlockFetchChannel }
impl NetworkHandle {
    pub async fn start(d: &NetworkDescription) -> Result<NetworkHandle, NetworkError> {
        tokio::task::yield_now().await;
        let Some((host, _)) = d.anchor_hosts.first() else { return Err(NetworkError("no hosts".into())) };
        let peer = peer(host);
        let mut p = peer.lock().unwrap();
        if std::mem::take(&mut p.refuse) { return Err(NetworkError("refused".into())); }
        p.connected.push(d.clone());
        drop(p);
        Ok(NetworkHandle { chainsync: ChainSyncChannel { peer: peer.clone() }, blockfetch: BlockFetchChannel { peer, busy: false } })
    }
    pub async fn stop(self) {}
}
