// C02: chain counters through text and JSON
use vstd::prelude::*;
verus! {

// ---- assumed: decimal text of a u64 and serde's data model -------------------------------------
pub mod txt {
    use vstd::prelude::*;
    /// the decimal text of a number (Display for u64)
    pub uninterp spec fn dec(n: u64) -> Seq<char>;
    /// reading a number from text (FromStr for u64)
    pub uninterp spec fn num_of(s: Seq<char>) -> Option<u64>;
    pub broadcast axiom fn ax_num_of_dec(n: u64) ensures num_of(#[trigger] dec(n)) == Some(n);
}
pub use txt::{dec, num_of};
broadcast use txt::ax_num_of_dec;
#[verifier::external_body] #[derive(Debug)] pub struct ParseIntError { e: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 }
#[verifier::external_body] pub fn parse_u64(s: &str) -> (r: Result<u64, ParseIntError>)
    ensures r.is_ok() <==> num_of(s@).is_some(), r matches Ok(n) ==> Some(n) == num_of(s@)
{ unimplemented!() }
#[verifier::external_body] pub fn custom<T>(e: T) -> Error { unimplemented!() }
pub mod fmt {
    use vstd::prelude::*;
    #[derive(Debug)] pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    #[verifier::external_body] pub struct Formatter<'a> { s: &'a u8 }
    impl<'a> View for Formatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    #[verifier::external_body] pub fn fmt_u64(n: &u64, f: &mut Formatter<'_>) -> (r: Result)
        ensures r is Ok, final(f)@ == old(f)@ + super::dec(*n)
    { unimplemented!() }
}
/// what a JSON text holds, as far as serde_json's deserialize_any distinguishes it here
pub enum Json { Num(u64), Text(Seq<char>), Other }
pub enum Deserializer { Num(u64), Text(String), Other }
impl Deserializer {
    pub open spec fn json(self) -> Json { match self { Deserializer::Num(n) => Json::Num(n), Deserializer::Text(s) => Json::Text(s@), Deserializer::Other => Json::Other } }
    /// assumed: serde_json hands unsigned integers to visit_u64, strings to visit_str and the rest to
    /// visitor methods that NumberVisitor leaves at their default, an error
    fn deserialize_any<T: TryFromU64>(self, v: NumberVisitor<T>) -> (r: Result<T, Error>)
        ensures
            self.json() matches Json::Num(n) ==> (r.is_ok() <==> T::made(n).is_some()) && (r matches Ok(x) ==> Some(x) == T::made(n)),
            self.json() matches Json::Text(s) ==> (r.is_ok() <==> num_of(s).is_some() && T::made(num_of(s).unwrap()).is_some())
                && (r matches Ok(x) ==> Some(x) == T::made(num_of(s).unwrap())),
            self.json() is Other ==> r is Err,
    {
        match self {
            Deserializer::Num(n) => v.visit_u64(n),
            Deserializer::Text(s) => v.visit_str(s.as_str()),
            Deserializer::Other => Err(custom(0u8)),
        }
    }
}
pub trait TryFromU64: Sized {
    spec fn made(n: u64) -> Option<Self>;
    fn try_from(n: u64) -> (r: Result<Self, Error>)
        ensures r.is_ok() <==> Self::made(n).is_some(), r matches Ok(x) ==> Some(x) == Self::made(n);
}
//@rules text
self . 0 . fmt ( $f ) => fmt::fmt_u64(&self.0, $f)
$s! . parse ( ) => parse_u64($s)
$s! . parse :: < u64 > ( ) => parse_u64($s)
. map ( Self ) => .map(|__x| Self(__x))
. map_err ( E :: custom ) => .map_err(|__e| custom(__e))
//@end

// ---- the visitor ------------------------------------------------------------------------------
use core::marker::PhantomData;
pub struct NumberVisitor<T> { _marker: PhantomData<T> }
#[verifier::external_body] fn number_visitor<T>() -> NumberVisitor<T> { NumberVisitor { _marker: PhantomData } }
impl<T: TryFromU64> NumberVisitor<T> {
    //@fn core/src/number_visitor.rs | impl<'de, T> serde::de::Visitor<'de> for NumberVisitor<T> where T: TryFrom<u64>, <T as TryFrom<u64>>::Error: std::fmt::Display, | visit_u64
    //@use text
    //@sig visit_u64 < E > => visit_u64
    //@sig where E : serde :: de :: Error , =>
    //@sig Self :: Value , E => T, Error
    //@desugar res.map_err
    //@spec
        ensures r.is_ok() <==> T::made(value).is_some(), r matches Ok(x) ==> Some(x) == T::made(value)
    //@end
    //@fn core/src/number_visitor.rs | impl<'de, T> serde::de::Visitor<'de> for NumberVisitor<T> where T: TryFrom<u64>, <T as TryFrom<u64>>::Error: std::fmt::Display, | visit_str
    //@use text
    //@sig visit_str < E > => visit_str
    //@sig where E : serde :: de :: Error , =>
    //@sig Self :: Value , E => T, Error
    //@desugar res.map_err
    //@spec
        ensures
            r.is_ok() <==> num_of(value@).is_some() && T::made(num_of(value@).unwrap()).is_some(),
            r matches Ok(x) ==> Some(x) == T::made(num_of(value@).unwrap())
    //@end
}

//@item core/src/block_number.rs | struct | BlockNumber
//@attr #[derive(Clone, Copy)]
//@rewrite ( u64 ) => (pub u64)
//@end
impl BlockNumber {
    //@fn core/src/block_number.rs | impl fmt::Display for BlockNumber | fmt
    //@use text
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + dec(self.0)
    //@end
    //@fn core/src/block_number.rs | impl str::FromStr for BlockNumber | from_str
    //@use text
    //@sig Self::Err => ParseIntError
    //@desugar res.map
    //@spec
        ensures r.is_ok() <==> num_of(s@).is_some(), r matches Ok(x) ==> Some(x.0) == num_of(s@)
    //@end
    //@fn core/src/block_number.rs | impl From<u64> for BlockNumber | from
    //@spec
        ensures r.0 == block_number
    //@end
}
// TryFrom<u64> comes from From<u64> (core's blanket implementation)
impl TryFromU64 for BlockNumber {
    open spec fn made(n: u64) -> Option<Self> { Some(BlockNumber(n)) }
    fn try_from(n: u64) -> (r: Result<Self, Error>) { Ok(BlockNumber::from(n)) }
}
impl BlockNumber {
    //@fn core/src/block_number.rs | impl<'de> serde::de::Deserialize<'de> for BlockNumber | deserialize
    //@sig deserialize < D > => deserialize
    //@sig where D : serde :: de :: Deserializer < 'de > , =>
    //@sig deserializer : D => deserializer: Deserializer
    //@sig D :: Error => Error
    //@rewrite NumberVisitor :: < $x! > :: default ( ) => number_visitor::<$x>()
    //@spec
        ensures
            deserializer.json() matches Json::Num(n) ==> r == Ok::<Self, Error>(BlockNumber(n)),
            deserializer.json() matches Json::Text(s) ==> (r.is_ok() <==> num_of(s).is_some()) && (r matches Ok(x) ==> Some(x.0) == num_of(s)),
            deserializer.json() is Other ==> r is Err,
    //@end
}

//@item core/src/slot_number.rs | struct | SlotNumber
//@attr #[derive(Clone, Copy)]
//@rewrite ( u64 ) => (pub u64)
//@end
impl SlotNumber {
    //@fn core/src/slot_number.rs | impl fmt::Display for SlotNumber | fmt
    //@use text
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + dec(self.0)
    //@end
    //@fn core/src/slot_number.rs | impl str::FromStr for SlotNumber | from_str
    //@use text
    //@sig Self::Err => ParseIntError
    //@desugar res.map
    //@spec
        ensures r.is_ok() <==> num_of(s@).is_some(), r matches Ok(x) ==> Some(x.0) == num_of(s@)
    //@end
    //@fn core/src/slot_number.rs | impl From<u64> for SlotNumber | from
    //@spec
        ensures r.0 == block_number
    //@end
}
// TryFrom<u64> comes from From<u64> (core's blanket implementation)
impl TryFromU64 for SlotNumber {
    open spec fn made(n: u64) -> Option<Self> { Some(SlotNumber(n)) }
    fn try_from(n: u64) -> (r: Result<Self, Error>) { Ok(SlotNumber::from(n)) }
}
impl SlotNumber {
    //@fn core/src/slot_number.rs | impl<'de> serde::de::Deserialize<'de> for SlotNumber | deserialize
    //@sig deserialize < D > => deserialize
    //@sig where D : serde :: de :: Deserializer < 'de > , =>
    //@sig deserializer : D => deserializer: Deserializer
    //@sig D :: Error => Error
    //@rewrite NumberVisitor :: < $x! > :: default ( ) => number_visitor::<$x>()
    //@spec
        ensures
            deserializer.json() matches Json::Num(n) ==> r == Ok::<Self, Error>(SlotNumber(n)),
            deserializer.json() matches Json::Text(s) ==> (r.is_ok() <==> num_of(s).is_some()) && (r matches Ok(x) ==> Some(x.0) == num_of(s)),
            deserializer.json() is Other ==> r is Err,
    //@end
}

//@item core/src/timestamp.rs | struct | Timestamp
//@attr #[derive(Clone, Copy)]
//@rewrite ( u64 ) => (pub u64)
//@end
impl Timestamp {
    //@fn core/src/timestamp.rs | impl fmt::Display for Timestamp | fmt
    //@use text
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + dec(self.0)
    //@end
    //@fn core/src/timestamp.rs | impl str::FromStr for Timestamp | from_str
    //@use text
    //@sig Self::Err => ParseIntError
    //@desugar res.map
    //@spec
        ensures r.is_ok() <==> num_of(s@).is_some(), r matches Ok(x) ==> Some(x.0) == num_of(s@)
    //@end
    //@fn core/src/timestamp.rs | impl From<u64> for Timestamp | from
    //@spec
        ensures r.0 == timestamp
    //@end
}
// TryFrom<u64> comes from From<u64> (core's blanket implementation)
impl TryFromU64 for Timestamp {
    open spec fn made(n: u64) -> Option<Self> { Some(Timestamp(n)) }
    fn try_from(n: u64) -> (r: Result<Self, Error>) { Ok(Timestamp::from(n)) }
}
impl Timestamp {
    //@fn core/src/timestamp.rs | impl<'de> serde::de::Deserialize<'de> for Timestamp | deserialize
    //@sig deserialize < D > => deserialize
    //@sig where D : serde :: de :: Deserializer < 'de > , =>
    //@sig deserializer : D => deserializer: Deserializer
    //@sig D :: Error => Error
    //@rewrite NumberVisitor :: < $x! > :: default ( ) => number_visitor::<$x>()
    //@spec
        ensures
            deserializer.json() matches Json::Num(n) ==> r == Ok::<Self, Error>(Timestamp(n)),
            deserializer.json() matches Json::Text(s) ==> (r.is_ok() <==> num_of(s).is_some()) && (r matches Ok(x) ==> Some(x.0) == num_of(s)),
            deserializer.json() is Other ==> r is Err,
    //@end
}

//@item core/src/output_index.rs | struct | OutputIndex
//@attr #[derive(Clone, Copy)]
//@rewrite ( u64 ) => (pub u64)
//@end
impl OutputIndex {
    //@fn core/src/output_index.rs | impl fmt::Display for OutputIndex | fmt
    //@use text
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + dec(self.0)
    //@end
    //@fn core/src/output_index.rs | impl str::FromStr for OutputIndex | from_str
    //@use text
    //@sig Self::Err => ParseIntError
    //@desugar res.map
    //@spec
        ensures r.is_ok() <==> num_of(s@).is_some(), r matches Ok(x) ==> Some(x.0) == num_of(s@)
    //@end
}

// ---- timestamps as system times ---------------------------------------------------------------
#[derive(Clone, Copy)] pub struct Duration { pub secs: u64 }
impl Duration { pub fn from_secs(secs: u64) -> (r: Self) ensures r.secs == secs { Duration { secs } } }
/// assumed: seconds since the Unix epoch, representable up to i64::MAX
#[derive(Clone, Copy)] pub struct SystemTime { pub secs: u64 }
impl SystemTime { pub const UNIX_EPOCH: Self = SystemTime { secs: 0 }; }
impl vstd::std_specs::ops::AddSpecImpl<Duration> for SystemTime {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { self.secs + d.secs <= i64::MAX }
    open spec fn add_spec(self, d: Duration) -> SystemTime { SystemTime { secs: (self.secs + d.secs) as u64 } }
}
impl core::ops::Add<Duration> for SystemTime {
    type Output = SystemTime;
    fn add(self, d: Duration) -> SystemTime { SystemTime { secs: self.secs + d.secs } }
}
impl Timestamp {
    //@fn core/src/timestamp.rs | impl Timestamp | into_unix_time
    //@spec
        requires self.0 <= i64::MAX
        ensures r.secs == self.0
    //@end
}

// ---- the property, over the contracts: print then parse, write then read -----------------------
fn text(b: BlockNumber, s: SlotNumber, t: Timestamp, o: OutputIndex, x: &str)
{
    assert(num_of(dec(b.0)) == Some(b.0) && num_of(dec(s.0)) == Some(s.0) && num_of(dec(t.0)) == Some(t.0) && num_of(dec(o.0)) == Some(o.0));
    let r = BlockNumber::from_str(x); assert(x@ == dec(b.0) ==> (r matches Ok(v) && v == b));
    let r = SlotNumber::from_str(x); assert(x@ == dec(s.0) ==> (r matches Ok(v) && v == s));
    let r = Timestamp::from_str(x); assert(x@ == dec(t.0) ==> (r matches Ok(v) && v == t));
    let r = OutputIndex::from_str(x); assert(x@ == dec(o.0) ==> (r matches Ok(v) && v == o));
}
// the derived transparent Serialize writes the number itself
fn json(b: BlockNumber, s: SlotNumber, t: Timestamp, q: String)
{
    let r = BlockNumber::deserialize(Deserializer::Num(b.0)); assert(r matches Ok(v) && v == b);
    let r = SlotNumber::deserialize(Deserializer::Num(s.0)); assert(r matches Ok(v) && v == s);
    let r = Timestamp::deserialize(Deserializer::Num(t.0)); assert(r matches Ok(v) && v == t);
    assert(num_of(dec(b.0)) == Some(b.0));
    let ghost qq = q@;
    let r = BlockNumber::deserialize(Deserializer::Text(q)); assert(qq == dec(b.0) ==> (r matches Ok(v) && v == b));
}
} // verus!
