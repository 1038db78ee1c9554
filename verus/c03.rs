// C03: unit conversions are exact
use vstd::prelude::*;
verus! {
//@include inc/decimal.rs
//@include inc/value.rs

pub mod cardano {
    //@item core/src/value.rs | struct | Ada
    //@end
    //@item core/src/value.rs | struct | Lovelace
    //@end
    //@item core/src/value.rs | const | ADA_LOVELACE_SCALE_FACTOR
    //@end
}
pub mod evm {
    //@item core/src/value.rs | struct | Ether
    //@end
    //@item core/src/value.rs | struct | Wei
    //@end
    //@item core/src/value.rs | const | ETH_WEI_SCALE_FACTOR
    //@end
}
pub mod algo {
    //@item core/src/value.rs | struct | Algo
    //@end
    //@item core/src/value.rs | struct | MicroAlgo
    //@end
    //@item core/src/value.rs | const | ALGO_MICRO_SCALE_FACTOR
    //@end
}
//@item core/src/value.rs | struct | Normalized
//@end
//@item core/src/value.rs | struct | Regulated
//@end
pub struct TokenId;
//@item core/src/value.rs | struct | Rule
//@end

proof fn pow10_zero() ensures pow10(0) == 1real {}

//@rules sc
scale ( $x ) => scale_($x)
//@end
//@fn core/src/value.rs | | scale
//@as scale_
//@rewrite { $v! * $x } => { $v.mul($x) }
//@spec
    ensures r.val() == value.val() * pow10(-scale)
//@hint start
    proof { assert((1 as real) * pow10(-scale) == pow10(-scale)); }
//@end

impl Value<cardano::Ada> {
    //@fn core/src/value.rs | impl Value<cardano::Ada> | normalize
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<cardano::Ada> | from_normalized
    //@use sc
    //@spec
        ensures r.val() == normalized.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<cardano::Ada> | to_lovelace
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(6)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<cardano::Lovelace> {
    //@fn core/src/value.rs | impl Value<cardano::Lovelace> | normalize
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(-6)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<cardano::Lovelace> | to_regulated
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<cardano::Lovelace> | from_regulated
    //@use sc
    //@spec
        ensures r.val() == regulated.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<cardano::Lovelace> | from_normalized
    //@use sc
    //@spec
        ensures r.val() == normalized.val() * pow10(6)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<cardano::Lovelace> | to_ada
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(-6)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<evm::Ether> {
    //@fn core/src/value.rs | impl Value<evm::Ether> | normalize
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<evm::Ether> | from_normalized
    //@use sc
    //@spec
        ensures r.val() == normalized.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<evm::Ether> | to_wei
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(18)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<evm::Wei> {
    //@fn core/src/value.rs | impl Value<evm::Wei> | normalize
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(-18)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<evm::Wei> | from_normalized
    //@use sc
    //@spec
        ensures r.val() == normalized.val() * pow10(18)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<evm::Wei> | to_ether
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(-18)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<algo::Algo> {
    //@fn core/src/value.rs | impl Value<algo::Algo> | normalize
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<algo::Algo> | from_normalized
    //@use sc
    //@spec
        ensures r.val() == normalized.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<algo::Algo> | to_microalgo
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(6)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<algo::MicroAlgo> {
    //@fn core/src/value.rs | impl Value<algo::MicroAlgo> | normalize
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(-6)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<algo::MicroAlgo> | from_normalized
    //@use sc
    //@spec
        ensures r.val() == normalized.val() * pow10(6)
    //@hint start
        proof { pow10_zero(); }
    //@end
    //@fn core/src/value.rs | impl Value<algo::MicroAlgo> | to_algo
    //@use sc
    //@spec
        ensures r.val() == self.val() * pow10(-6)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<Regulated> {
    //@fn core/src/value.rs | impl Value<Regulated> | normalize_from_mainchain
    //@use sc
    //@spec
        requires rule.mainchain_decimal_precision > i64::MIN
        ensures r.val() == self.val() * pow10(-(rule.mainchain_decimal_precision as int))
    //@end
    //@fn core/src/value.rs | impl Value<Regulated> | normalize_from_sidechain
    //@use sc
    //@spec
        requires rule.sidechain_decimal_precision > i64::MIN
        ensures r.val() == self.val() * pow10(-(rule.sidechain_decimal_precision as int))
    //@end
    //@fn core/src/value.rs | impl Value<Regulated> | from_normalized_to_mainchain
    //@use sc
    //@spec
        requires rule.mainchain_decimal_precision > i64::MIN
        ensures r.val() == normalized.val() * pow10((rule.mainchain_decimal_precision as int))
    //@end
    //@fn core/src/value.rs | impl Value<Regulated> | from_normalized_to_sidechain
    //@use sc
    //@spec
        requires rule.sidechain_decimal_precision > i64::MIN
        ensures r.val() == normalized.val() * pow10((rule.sidechain_decimal_precision as int))
    //@end
}
// From implementations between representations
impl Value<Normalized> {
    //@fn core/src/value.rs | impl From<Value<cardano::Lovelace>> for Value<Normalized> | from
    //@as conv_from_cardano_lovelace
    //@use sc
    //@spec
        ensures r.val() == lovelace.val() * pow10(-6)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<cardano::Lovelace> {
    //@fn core/src/value.rs | impl From<Value<cardano::Ada>> for Value<cardano::Lovelace> | from
    //@as conv_from_cardano_ada
    //@use sc
    //@spec
        ensures r.val() == ada.val() * pow10(6)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<cardano::Lovelace> {
    //@fn core/src/value.rs | impl From<Value<Normalized>> for Value<cardano::Lovelace> | from
    //@as conv_from_normalized
    //@use sc
    //@spec
        ensures r.val() == normalized.val() * pow10(6)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<Normalized> {
    //@fn core/src/value.rs | impl From<Value<cardano::Ada>> for Value<Normalized> | from
    //@as conv_from_cardano_ada
    //@use sc
    //@spec
        ensures r.val() == cardano.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<cardano::Ada> {
    //@fn core/src/value.rs | impl From<Value<Normalized>> for Value<cardano::Ada> | from
    //@as conv_from_normalized
    //@use sc
    //@spec
        ensures r.val() == normalized.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<Normalized> {
    //@fn core/src/value.rs | impl From<Value<evm::Wei>> for Value<Normalized> | from
    //@as conv_from_evm_wei
    //@use sc
    //@spec
        ensures r.val() == evm.val() * pow10(-18)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<evm::Wei> {
    //@fn core/src/value.rs | impl From<Value<Normalized>> for Value<evm::Wei> | from
    //@as conv_from_normalized
    //@use sc
    //@spec
        ensures r.val() == normalized.val() * pow10(18)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<Normalized> {
    //@fn core/src/value.rs | impl From<Value<evm::Ether>> for Value<Normalized> | from
    //@as conv_from_evm_ether
    //@use sc
    //@spec
        ensures r.val() == evm.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<Normalized> {
    //@fn core/src/value.rs | impl From<Value<algo::MicroAlgo>> for Value<Normalized> | from
    //@as conv_from_algo_microalgo
    //@use sc
    //@spec
        ensures r.val() == algo.val() * pow10(-6)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<algo::MicroAlgo> {
    //@fn core/src/value.rs | impl From<Value<Normalized>> for Value<algo::MicroAlgo> | from
    //@as conv_from_normalized
    //@use sc
    //@spec
        ensures r.val() == normalized.val() * pow10(6)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<Normalized> {
    //@fn core/src/value.rs | impl From<Value<algo::Algo>> for Value<Normalized> | from
    //@as conv_from_algo_algo
    //@use sc
    //@spec
        ensures r.val() == algorand.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
}
impl Value<evm::Ether> {
    //@fn core/src/value.rs | impl From<Value<Normalized>> for Value<evm::Ether> | from
    //@as conv_from_normalized
    //@use sc
    //@spec
        ensures r.val() == normalized.val() * pow10(0)
    //@hint start
        proof { pow10_zero(); }
    //@end
}

// ---- the property, over the contracts -----------------------------------------------------------
proof fn ratios()
    ensures pow10(6) == 1_000_000real, pow10(18) == 1_000_000_000_000_000_000real,
{
    reveal_with_fuel(pow10, 20);
}
proof fn back(x: real, n: int) ensures (x * pow10(n)) * pow10(-n) == x
{
    pow10_inverse(n);
    let (a, b) = (pow10(n), pow10(-n));
    assert((x * a) * b == x * (a * b)) by (nonlinear_arith);
}
fn there_and_back(ada: Value<cardano::Ada>, lov: Value<cardano::Lovelace>, eth: Value<evm::Ether>, wei: Value<evm::Wei>, al: Value<algo::Algo>, mal: Value<algo::MicroAlgo>, n: Value<Normalized>, g: Value<Regulated>, rule: Rule)
    requires rule.mainchain_decimal_precision > i64::MIN, rule.sidechain_decimal_precision > i64::MIN
{
    proof { ratios(); pow10_zero(); back(lov.val(), -6); back(wei.val(), -18); back(mal.val(), -6); }
    let x = ada.to_lovelace(); assert(x.val() == ada.val() * 1_000_000real); let y = x.to_ada();
    proof { back(ada.val(), 6); } assert(y.val() == ada.val());
    let x = lov.to_ada().to_lovelace(); proof { back(lov.val(), -6); } assert(x.val() == lov.val());
    let x = eth.to_wei(); assert(x.val() == eth.val() * 1_000_000_000_000_000_000real); let y = x.to_ether();
    proof { back(eth.val(), 18); } assert(y.val() == eth.val());
    let x = wei.to_ether().to_wei(); proof { back(wei.val(), -18); } assert(x.val() == wei.val());
    let x = al.to_microalgo(); assert(x.val() == al.val() * 1_000_000real); let y = x.to_algo();
    proof { back(al.val(), 6); } assert(y.val() == al.val());
    let x = mal.to_algo().to_microalgo(); proof { back(mal.val(), -6); } assert(x.val() == mal.val());
    let x = Value::<cardano::Ada>::from_normalized(&ada.normalize()); assert(x.val() == ada.val());
    let x = Value::<cardano::Lovelace>::from_normalized(&lov.normalize()); assert(x.val() == lov.val());
    let x = Value::<evm::Wei>::from_normalized(&wei.normalize()); assert(x.val() == wei.val());
    let x = Value::<algo::MicroAlgo>::from_normalized(&mal.normalize()); assert(x.val() == mal.val());
    let x = Value::<cardano::Lovelace>::from_regulated(&lov.to_regulated()); assert(x.val() == lov.val());
    let ghost (p, q) = (rule.mainchain_decimal_precision as int, rule.sidechain_decimal_precision as int);
    let x = Value::<Regulated>::from_normalized_to_mainchain(&g.normalize_from_mainchain(&rule), &rule);
    proof { back(g.val(), -p); } assert(x.val() == g.val());
    let x = Value::<Regulated>::from_normalized_to_sidechain(&g.normalize_from_sidechain(&rule), &rule);
    proof { back(g.val(), -q); } assert(x.val() == g.val());
}
} // verus!
