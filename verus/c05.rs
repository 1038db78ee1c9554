// C05: parsing amounts
use vstd::prelude::*;
verus! {
//@include inc/decimal.rs
//@include inc/value.rs

pub mod cardano {
    //@item core/src/value.rs | struct | Ada
    //@end
    //@item core/src/value.rs | struct | Lovelace
    //@end
    //@item core/src/value.rs | const | ADA_LOVELACE_SCALE_FACTOR
    //@end
}
pub mod evm {
    //@item core/src/value.rs | struct | Ether
    //@end
    //@item core/src/value.rs | struct | Wei
    //@end
    //@item core/src/value.rs | const | ETH_WEI_SCALE_FACTOR
    //@end
}
pub mod algo {
    //@item core/src/value.rs | struct | Algo
    //@end
    //@item core/src/value.rs | struct | MicroAlgo
    //@end
    //@item core/src/value.rs | const | ALGO_MICRO_SCALE_FACTOR
    //@end
}
//@item core/src/value.rs | struct | Normalized
//@end
//@item core/src/value.rs | struct | Regulated
//@end
pub mod deps { pub mod bigdecimal { pub use super::super::ParseBigDecimalError; } }
//@item core/src/value.rs | enum | ValueFromStrError
//@end

// ---- assumed: decimal text ----------------------------------------------------------------------
#[verifier::external_body] #[derive(Debug)] pub struct ParseBigDecimalError { e: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 }
pub mod txt {
    use vstd::prelude::*;
    use super::BigDecimal;
    /// the decimal number written in a text: its digits and the number of decimals it is written with
    pub uninterp spec fn written(s: Seq<char>) -> Option<BigDecimal>;
    /// the text BigDecimal's Display writes
    pub uninterp spec fn text(d: BigDecimal) -> Seq<char>;
    /// reading a printed number gives an equal number with no more decimals
    pub axiom fn ax_written_text(d: BigDecimal)
        ensures written(text(d)).is_some(), written(text(d)).unwrap().val() == d.val(),
            d.scale() >= 0 ==> written(text(d)).unwrap().scale() <= d.scale(), d.scale() < 0 ==> written(text(d)).unwrap().scale() <= 0;
}
pub use txt::{written, text};
#[verifier::external_body] pub fn parse_decimal(s: &str) -> (r: Result<BigDecimal, ParseBigDecimalError>)
    ensures r.is_ok() <==> written(s@).is_some(), r matches Ok(d) ==> Some(d) == written(s@)
{ unimplemented!() }
#[verifier::external_body] pub fn custom<T>(e: T) -> Error { unimplemented!() }
pub mod fmt {
    use vstd::prelude::*;
    #[derive(Debug)] pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    #[verifier::external_body] pub struct Formatter<'a> { s: &'a u8 }
    impl<'a> View for Formatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    #[verifier::external_body] pub fn write_decimal(f: &mut Formatter<'_>, d: &super::BigDecimal) -> (r: Result)
        ensures r is Ok, final(f)@ == old(f)@ + super::text(*d)
    { unimplemented!() }
}
//@rules dec
$s! . parse ( ) ? => (match parse_decimal($s) { Ok(__v) => __v, Err(__e) => return Err(ValueFromStrError::InvalidDecimal(__e)) })
$s! . parse :: < BigDecimal > ( ) => parse_decimal($s)
write ! ( $f , "{}" , $d ) => fmt::write_decimal($f, &$d)
. map_err ( E :: custom ) => .map_err(|__e| custom(__e))
//@end

impl Value<Normalized> {
    //@fn core/src/value.rs | impl FromStr for Value<Normalized> | from_str
    //@use dec
    //@sig Self :: Err => ValueFromStrError
    //@spec
        ensures
            r.is_ok() <==> written(s@).is_some() && written(s@).unwrap().scale() <= 18 && written(s@).unwrap().val() >= 0real,
            r matches Ok(v) ==> Some(v.value) == written(s@),
    //@end
}
impl Value<Regulated> {
    //@fn core/src/value.rs | impl FromStr for Value<Regulated> | from_str
    //@use dec
    //@sig Self :: Err => ValueFromStrError
    //@spec
        ensures
            r.is_ok() <==> written(s@).is_some() && written(s@).unwrap().scale() <= 18 && written(s@).unwrap().val() >= 0real,
            r matches Ok(v) ==> Some(v.value) == written(s@),
    //@end
}
impl Value<cardano::Lovelace> {
    //@fn core/src/value.rs | impl FromStr for Value<cardano::Lovelace> | from_str
    //@use dec
    //@sig Self :: Err => ValueFromStrError
    //@spec
        ensures
            r.is_ok() <==> written(s@).is_some() && written(s@).unwrap().scale() <= 0 && written(s@).unwrap().val() >= 0real,
            r matches Ok(v) ==> Some(v.value) == written(s@),
    //@end
}
impl Value<cardano::Ada> {
    //@fn core/src/value.rs | impl FromStr for Value<cardano::Ada> | from_str
    //@use dec
    //@sig Self :: Err => ValueFromStrError
    //@spec
        ensures
            r.is_ok() <==> written(s@).is_some() && written(s@).unwrap().scale() <= 6 && written(s@).unwrap().val() >= 0real,
            r matches Ok(v) ==> Some(v.value) == written(s@),
    //@end
}
impl Value<evm::Wei> {
    //@fn core/src/value.rs | impl FromStr for Value<evm::Wei> | from_str
    //@use dec
    //@sig Self :: Err => ValueFromStrError
    //@spec
        ensures
            r.is_ok() <==> written(s@).is_some() && written(s@).unwrap().scale() <= 0 && written(s@).unwrap().val() >= 0real,
            r matches Ok(v) ==> Some(v.value) == written(s@),
    //@end
}
impl Value<evm::Ether> {
    //@fn core/src/value.rs | impl FromStr for Value<evm::Ether> | from_str
    //@use dec
    //@sig Self :: Err => ValueFromStrError
    //@spec
        ensures
            r.is_ok() <==> written(s@).is_some() && written(s@).unwrap().scale() <= 18 && written(s@).unwrap().val() >= 0real,
            r matches Ok(v) ==> Some(v.value) == written(s@),
    //@end
}
impl Value<algo::MicroAlgo> {
    //@fn core/src/value.rs | impl FromStr for Value<algo::MicroAlgo> | from_str
    //@use dec
    //@sig Self :: Err => ValueFromStrError
    //@spec
        ensures
            r.is_ok() <==> written(s@).is_some() && written(s@).unwrap().scale() <= 0 && written(s@).unwrap().val() >= 0real,
            r matches Ok(v) ==> Some(v.value) == written(s@),
    //@end
}
impl Value<algo::Algo> {
    //@fn core/src/value.rs | impl FromStr for Value<algo::Algo> | from_str
    //@use dec
    //@sig Self :: Err => ValueFromStrError
    //@spec
        ensures
            r.is_ok() <==> written(s@).is_some() && written(s@).unwrap().scale() <= 6 && written(s@).unwrap().val() >= 0real,
            r matches Ok(v) ==> Some(v.value) == written(s@),
    //@end
}

impl<Rep> Value<Rep> {
    //@fn core/src/value.rs | impl<Rep> fmt::Display for Value<Rep> | fmt
    //@use dec
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + text(self.value)
    //@end
    // ToString is Display into an empty string
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == text(self.value) { unimplemented!() }
    //@fn core/src/value.rs | impl<Rep> Serialize for Value<Rep> | serialize
    //@sig serialize < S > => serialize
    //@sig where S : serde :: Serializer , =>
    //@sig serializer : S => serializer: Serializer
    //@sig S :: Ok , S :: Error => Json, Error
    //@spec
        ensures r matches Ok(j) && j@ == JsonV::Text(text(self.value))
    //@end
    //@fn core/src/value.rs | impl<'de, Rep> Deserialize<'de> for Value<Rep> where Value<Rep>: FromStr, <Value<Rep> as FromStr>::Err: std::error::Error, | deserialize
    //@sig deserialize < D > => deserialize
    //@sig where D : serde :: Deserializer < 'de > , =>
    //@sig deserializer : D => deserializer: Json
    //@sig D :: Error => Error
    //@rewrite BigDecimalVisitor :: < Value < Rep > > :: default ( ) => visitor::<Value<Rep>>()
    //@spec
        ensures
            deserializer@ matches JsonV::Num(n) ==> (r matches Ok(v) && v.val() == (n as int as real)),
            deserializer@ matches JsonV::Text(s) ==> (r.is_ok() <==> written(s).is_some()) && (r matches Ok(v) ==> Some(v.value) == written(s)),
    //@end
}
// TryFrom<BigDecimal> comes from From<BigDecimal> (core's blanket implementation)
pub trait TryFromDecimal: Sized {
    spec fn decimal(self) -> BigDecimal;
    fn try_from(d: BigDecimal) -> (r: Result<Self, Error>) ensures r matches Ok(x) && x.decimal() == d;
}
impl<Rep> TryFromDecimal for Value<Rep> {
    open spec fn decimal(self) -> BigDecimal { self.value }
    fn try_from(d: BigDecimal) -> (r: Result<Self, Error>) { Ok(Value::from_decimal(d)) }
}
/// JSON as far as serde's data model distinguishes it here
pub enum Json { Num(u64), Text(String), Other }
pub enum JsonV { Num(u64), Text(Seq<char>), Other }
impl View for Json {
    type V = JsonV;
    open spec fn view(&self) -> JsonV { match self { Json::Num(n) => JsonV::Num(*n), Json::Text(s) => JsonV::Text(s@), Json::Other => JsonV::Other } }
}
pub struct Serializer;
impl Serializer {
    /// assumed: serde_json writes a newtype struct as its content
    #[verifier::external_body] pub fn serialize_newtype_struct(self, name: &str, v: &String) -> (r: Result<Json, Error>) ensures r matches Ok(j) && j@ == JsonV::Text(v@) { unimplemented!() }
}
impl Json {
    /// assumed: serde_json hands unsigned integers to visit_u64 and strings to visit_str
    fn deserialize_any<T: TryFromDecimal>(self, v: BigDecimalVisitor<T>) -> (r: Result<T, Error>)
        ensures
            self@ matches JsonV::Num(n) ==> (r matches Ok(x) && x.decimal().val() == (n as int as real)),
            self@ matches JsonV::Text(s) ==> (r.is_ok() <==> written(s).is_some()) && (r matches Ok(x) ==> Some(x.decimal()) == written(s)),
    {
        match self { Json::Num(n) => v.visit_u64(n), Json::Text(s) => v.visit_str(s.as_str()), Json::Other => Err(custom(0u8)) }
    }
}
pub struct BigDecimalVisitor<T> { _marker: PhantomData<T> }
#[verifier::external_body] fn visitor<T>() -> BigDecimalVisitor<T> { BigDecimalVisitor { _marker: PhantomData } }
impl<T: TryFromDecimal> BigDecimalVisitor<T> {
    //@fn core/src/number_visitor.rs | impl<'de, T> serde::de::Visitor<'de> for BigDecimalVisitor<T> where T: TryFrom<BigDecimal>, <T as TryFrom<BigDecimal>>::Error: std::fmt::Display, | visit_u64
    //@use dec
    //@sig visit_u64 < E > => visit_u64
    //@sig where E : serde :: de :: Error , =>
    //@sig Self :: Value , E => T, Error
    //@desugar res.map_err
    //@spec
        ensures r matches Ok(x) && x.decimal().val() == (v as int as real)
    //@end
    //@fn core/src/number_visitor.rs | impl<'de, T> serde::de::Visitor<'de> for BigDecimalVisitor<T> where T: TryFrom<BigDecimal>, <T as TryFrom<BigDecimal>>::Error: std::fmt::Display, | visit_str
    //@use dec
    //@sig visit_str < E > => visit_str
    //@sig where E : serde :: de :: Error , =>
    //@sig Self :: Value , E => T, Error
    //@desugar res.map_err
    //@spec
        ensures r.is_ok() <==> written(value@).is_some(), r matches Ok(x) ==> Some(x.decimal()) == written(value@)
    //@end
}

// ---- the property, over the contracts: an accepted amount survives text and JSON ----------------
fn round_trip_a(s: &str) {
    match Value::<Normalized>::from_str(s) {
        Ok(v) => {
            let ghost x = v.val(); proof { txt::ax_written_text(v.value); }
            let t = v.to_string();
            let w = Value::<Normalized>::from_str(t.as_str());
            assert(w matches Ok(u) && u.val() == x);
            match v.serialize(Serializer) {
                Ok(j) => { let w = Value::<Normalized>::deserialize(j); assert(w matches Ok(u) && u.val() == x); }
                Err(_) => { assert(false); }
            }
        }
        Err(_) => {}
    }
}
fn round_trip_b(s: &str) {
    match Value::<Regulated>::from_str(s) {
        Ok(v) => {
            let ghost x = v.val(); proof { txt::ax_written_text(v.value); }
            let t = v.to_string();
            let w = Value::<Regulated>::from_str(t.as_str());
            assert(w matches Ok(u) && u.val() == x);
            match v.serialize(Serializer) {
                Ok(j) => { let w = Value::<Regulated>::deserialize(j); assert(w matches Ok(u) && u.val() == x); }
                Err(_) => { assert(false); }
            }
        }
        Err(_) => {}
    }
}
fn round_trip_c(s: &str) {
    match Value::<cardano::Lovelace>::from_str(s) {
        Ok(v) => {
            let ghost x = v.val(); proof { txt::ax_written_text(v.value); }
            let t = v.to_string();
            let w = Value::<cardano::Lovelace>::from_str(t.as_str());
            assert(w matches Ok(u) && u.val() == x);
            match v.serialize(Serializer) {
                Ok(j) => { let w = Value::<cardano::Lovelace>::deserialize(j); assert(w matches Ok(u) && u.val() == x); }
                Err(_) => { assert(false); }
            }
        }
        Err(_) => {}
    }
}
fn round_trip_d(s: &str) {
    match Value::<cardano::Ada>::from_str(s) {
        Ok(v) => {
            let ghost x = v.val(); proof { txt::ax_written_text(v.value); }
            let t = v.to_string();
            let w = Value::<cardano::Ada>::from_str(t.as_str());
            assert(w matches Ok(u) && u.val() == x);
            match v.serialize(Serializer) {
                Ok(j) => { let w = Value::<cardano::Ada>::deserialize(j); assert(w matches Ok(u) && u.val() == x); }
                Err(_) => { assert(false); }
            }
        }
        Err(_) => {}
    }
}
fn round_trip_e(s: &str) {
    match Value::<evm::Wei>::from_str(s) {
        Ok(v) => {
            let ghost x = v.val(); proof { txt::ax_written_text(v.value); }
            let t = v.to_string();
            let w = Value::<evm::Wei>::from_str(t.as_str());
            assert(w matches Ok(u) && u.val() == x);
            match v.serialize(Serializer) {
                Ok(j) => { let w = Value::<evm::Wei>::deserialize(j); assert(w matches Ok(u) && u.val() == x); }
                Err(_) => { assert(false); }
            }
        }
        Err(_) => {}
    }
}
fn round_trip_f(s: &str) {
    match Value::<evm::Ether>::from_str(s) {
        Ok(v) => {
            let ghost x = v.val(); proof { txt::ax_written_text(v.value); }
            let t = v.to_string();
            let w = Value::<evm::Ether>::from_str(t.as_str());
            assert(w matches Ok(u) && u.val() == x);
            match v.serialize(Serializer) {
                Ok(j) => { let w = Value::<evm::Ether>::deserialize(j); assert(w matches Ok(u) && u.val() == x); }
                Err(_) => { assert(false); }
            }
        }
        Err(_) => {}
    }
}
fn round_trip_g(s: &str) {
    match Value::<algo::MicroAlgo>::from_str(s) {
        Ok(v) => {
            let ghost x = v.val(); proof { txt::ax_written_text(v.value); }
            let t = v.to_string();
            let w = Value::<algo::MicroAlgo>::from_str(t.as_str());
            assert(w matches Ok(u) && u.val() == x);
            match v.serialize(Serializer) {
                Ok(j) => { let w = Value::<algo::MicroAlgo>::deserialize(j); assert(w matches Ok(u) && u.val() == x); }
                Err(_) => { assert(false); }
            }
        }
        Err(_) => {}
    }
}
fn round_trip_h(s: &str) {
    match Value::<algo::Algo>::from_str(s) {
        Ok(v) => {
            let ghost x = v.val(); proof { txt::ax_written_text(v.value); }
            let t = v.to_string();
            let w = Value::<algo::Algo>::from_str(t.as_str());
            assert(w matches Ok(u) && u.val() == x);
            match v.serialize(Serializer) {
                Ok(j) => { let w = Value::<algo::Algo>::deserialize(j); assert(w matches Ok(u) && u.val() == x); }
                Err(_) => { assert(false); }
            }
        }
        Err(_) => {}
    }
}
} // verus!
