// D03: chain points and the protocol form
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
verus! {

// ---- assumed: cardano-sdk's protocol point and header hash -------------------------------------
pub mod cardano_sdk { pub mod protocol {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::PartialEqSpecImpl;

    #[verifier::external_body]
    pub struct HeaderHash { b: [u8; 32] }
    /// the lower-case hexadecimal form of a header hash
    pub uninterp spec fn text(h: HeaderHash) -> Seq<char>;
    /// reading a header hash from text
    pub uninterp spec fn parsed(s: Seq<char>) -> Option<HeaderHash>;
    pub open spec fn lower_hex(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') }
    pub open spec fn any_hex(c: char) -> bool { lower_hex(c) || ('A' <= c && c <= 'F') }
    /// 64 lower-case hexadecimal digits
    pub open spec fn is_hash_text(s: Seq<char>) -> bool { s.len() == 64 && forall|i: int| 0 <= i < 64 ==> lower_hex(#[trigger] s[i]) }
    /// 64 hexadecimal digits of any case
    pub open spec fn is_hex64(s: Seq<char>) -> bool { s.len() == 64 && forall|i: int| 0 <= i < 64 ==> any_hex(#[trigger] s[i]) }

    pub broadcast axiom fn ax_parse_text(h: HeaderHash)
        ensures #[trigger] parsed(text(h)) == Some(h), is_hash_text(text(h));
    pub broadcast axiom fn ax_text_parse(s: Seq<char>)
        ensures
            is_hash_text(s) ==> (#[trigger] parsed(s)).is_some() && text(parsed(s).unwrap()) == s,
            parsed(s).is_some() <==> is_hex64(s);

    pub enum Point { Origin, BlockHeader { slot_nb: u64, hash: HeaderHash } }
    impl PartialEqSpecImpl for Point {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Point) -> bool { self == o }
    }
    impl PartialEq for Point {
        #[verifier::external_body]
        fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
    }
    impl HeaderHash {
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String) ensures r@ == text(*self) { unimplemented!() }
    }
    impl Point {
        pub const ORIGIN: Self = Point::Origin;
        #[verifier::external_body]
        pub fn from_raw(slot_nb: u64, s: &str) -> (r: Option<Self>)
            ensures
                parsed(s@).is_none() ==> r.is_none(),
                parsed(s@).is_some() ==> r == Some(Point::BlockHeader { slot_nb, hash: parsed(s@).unwrap() }),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn hash(&self) -> (r: HeaderHash)
            ensures self matches Point::BlockHeader { hash, .. } ==> r == hash
        { unimplemented!() }
        #[verifier::external_body]
        pub fn slot_nb(&self) -> (r: u64)
            ensures self matches Point::BlockHeader { slot_nb, .. } ==> r == slot_nb
        { unimplemented!() }
    }
} }
use cardano_sdk::protocol::{text, parsed, is_hash_text, is_hex64};
broadcast use {cardano_sdk::protocol::ax_parse_text, cardano_sdk::protocol::ax_text_parse};

//@include inc/anyhow.rs

// ---- assumed: the string inside a block id (Cow<'static, str>) ---------------------------------
#[verifier::external_body]
pub struct BlockId { s: String }
impl View for BlockId { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl BlockId {
    #[verifier::external_body]
    pub fn new(b: String) -> (r: Self) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}

// ---- the real code ----------------------------------------------------------------------------
//@item core/src/slot_number.rs | struct | SlotNumber
//@attr #[derive(Clone, Copy)]
//@rewrite ( u64 ) => (pub u64)
//@end
impl SlotNumber {
    //@fn core/src/slot_number.rs | impl SlotNumber | new
    //@spec
        ensures r.0 == block_number
    //@end
    // `.into()` on a slot number resolves to this From implementation
    //@fn core/src/slot_number.rs | impl From<SlotNumber> for u64 | from
    //@as into
    //@sig ( SlotNumber ( $x ) : SlotNumber ) -> Self => (self) -> u64
    //@rewrite { $b } => { let SlotNumber(block_number) = self; $b }
    //@spec
        ensures r == self.0
    //@end
}

//@item blockchain-source/src/cardano/point.rs | enum | Point
//@end

impl cardano_sdk::protocol::Point {
    //@fn blockchain-source/src/cardano/point.rs | impl TryFrom<Point> for cardano_sdk::protocol::Point | try_from
    //@desugar opt.ok_or_else
    //@use anyhow
    //@spec
        ensures
            point is Origin ==> r == Ok::<Self, anyhow::Error>(cardano_sdk::protocol::Point::Origin),
            point matches Point::BlockHeader { slot_nb, hash } ==> (r.is_ok() <==> is_hex64(hash@)),
            point matches Point::BlockHeader { slot_nb, hash } ==> (r matches Ok(p) ==>
                p == (cardano_sdk::protocol::Point::BlockHeader { slot_nb: slot_nb.0, hash: parsed(hash@).unwrap() })),
    //@end
}
impl Point {
    /// equality of points (the block id is its text)
    pub open spec fn same(self, o: Point) -> bool {
        match (self, o) {
            (Point::Origin, Point::Origin) => true,
            (Point::BlockHeader { slot_nb: a, hash: x }, Point::BlockHeader { slot_nb: b, hash: y }) => a == b && x@ == y@,
            _ => false,
        }
    }
    //@fn blockchain-source/src/cardano/point.rs | impl From<cardano_sdk::protocol::Point> for Point | from
    //@spec
        ensures
            point is Origin ==> r is Origin,
            point matches cardano_sdk::protocol::Point::BlockHeader { slot_nb, hash } ==>
                (r matches Point::BlockHeader { slot_nb: s, hash: h } && s.0 == slot_nb && h@ == text(hash)),
    //@end
}

// ---- the property, over the two contracts -----------------------------------------------------
fn there_and_back(p: Point, Ghost(g): Ghost<Point>)
    requires p == g, p matches Point::BlockHeader { hash, .. } ==> is_hash_text(hash@),
{
    let s = cardano_sdk::protocol::Point::try_from(p);
    assert(g matches Point::BlockHeader { hash, .. } ==> is_hex64(hash@));
    assert(s.is_ok());
    match s {
        Ok(x) => { let q = Point::from(x); assert(q.same(g)); }
        Err(_) => {}
    }
}
fn back_and_there(s: cardano_sdk::protocol::Point, Ghost(g): Ghost<cardano_sdk::protocol::Point>)
    requires s == g,
{
    let p = Point::from(s);
    let t = cardano_sdk::protocol::Point::try_from(p);
    assert(t == Ok::<cardano_sdk::protocol::Point, anyhow::Error>(g));
}
fn distinct(p: Point, q: Point, Ghost(gp): Ghost<Point>, Ghost(gq): Ghost<Point>)
    requires p == gp, q == gq, !gp.same(gq),
        p matches Point::BlockHeader { hash, .. } ==> is_hash_text(hash@),
        q matches Point::BlockHeader { hash, .. } ==> is_hash_text(hash@),
{
    let s = cardano_sdk::protocol::Point::try_from(p);
    let t = cardano_sdk::protocol::Point::try_from(q);
    assert(s.is_ok() && t.is_ok() ==> s.unwrap() != t.unwrap());
}

} // verus!
