//! Stands in for cardano-multiplatform-lib, which cannot be fetched here: 64-bit amounts, values as maps, the
//! encoding of native scripts (to the byte), and a builder that charges by simple lengths.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct JsError(pub String);
impl std::fmt::Display for JsError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for JsError {}
fn err<T>(s: &str) -> Result<T, JsError> {
    Err(JsError(s.to_string()))
}

macro_rules! bytes {
    ($($T:ident $len:expr),*) => {$(
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
        pub struct $T(pub Vec<u8>);
        impl $T {
            pub fn from_bytes(b: Vec<u8>) -> Result<Self, JsError> {
                if $len != 0 && b.len() != $len { err("wrong length") } else { Ok(Self(b)) }
            }
            pub fn from_hex(s: &str) -> Result<Self, JsError> {
                hex::decode(s).map_err(|e| JsError(e.to_string())).and_then(Self::from_bytes)
            }
            pub fn to_bytes(&self) -> Vec<u8> { self.0.clone() }
        }
        impl std::fmt::Display for $T {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", hex::encode(&self.0)) }
        }
    )*};
}
bytes!(PolicyID 28);
macro_rules! lists {
    ($($T:ident of $E:ty),*) => {$(
        #[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
        pub struct $T(pub Vec<$E>);
        impl $T {
            pub fn new() -> Self { Self::default() }
            pub fn len(&self) -> usize { self.0.len() }
            pub fn is_empty(&self) -> bool { self.0.is_empty() }
            pub fn get(&self, i: usize) -> $E { self.0[i].clone() }
            pub fn add(&mut self, e: &$E) { self.0.push(e.clone()) }
        }
    )*};
}
lists!(NativeScripts of NativeScript, PolicyIDs of PolicyID, AssetNames of AssetName, RequiredSigners of crypto::Ed25519KeyHash);

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct AssetName(Vec<u8>);
impl AssetName {
    pub fn new(name: Vec<u8>) -> Result<Self, JsError> {
        if name.len() > 32 { err("asset name too long") } else { Ok(Self(name)) }
    }
    /// as in CML: the encoding of the name
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = head(0x40, self.0.len() as u64);
        v.extend(&self.0);
        v
    }
    pub fn name(&self) -> Vec<u8> {
        self.0.clone()
    }
}
impl Serialize for AssetName {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de> Deserialize<'de> for AssetName {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Vec::deserialize(d).map(Self)
    }
}

pub(crate) fn head(major: u8, n: u64) -> Vec<u8> {
    match n {
        0..=23 => vec![major | n as u8],
        24..=255 => vec![major | 24, n as u8],
        256..=65535 => [vec![major | 25], (n as u16).to_be_bytes().to_vec()].concat(),
        65536..=0xffff_ffff => [vec![major | 26], (n as u32).to_be_bytes().to_vec()].concat(),
        _ => [vec![major | 27], n.to_be_bytes().to_vec()].concat(),
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum NativeScript {
    Pubkey(ScriptPubkey),
    NOfK(ScriptNOfK),
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct ScriptPubkey(crypto::Ed25519KeyHash);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct ScriptNOfK(u32, NativeScripts);
impl ScriptPubkey {
    pub fn new(k: &crypto::Ed25519KeyHash) -> Self {
        Self(k.clone())
    }
}
impl ScriptNOfK {
    pub fn new(n: u32, scripts: &NativeScripts) -> Self {
        Self(n, scripts.clone())
    }
}
impl NativeScript {
    pub fn new_script_pubkey(s: &ScriptPubkey) -> Self {
        Self::Pubkey(s.clone())
    }
    pub fn new_script_n_of_k(s: &ScriptNOfK) -> Self {
        Self::NOfK(s.clone())
    }
    fn encode(&self) -> Vec<u8> {
        match self {
            Self::Pubkey(k) => [vec![0x82, 0], head(0x40, k.0 .0.len() as u64), k.0 .0.clone()].concat(),
            Self::NOfK(ScriptNOfK(n, l)) => [vec![0x83, 3], head(0, *n as u64), head(0x80, l.len() as u64), l.0.iter().flat_map(|s| s.encode()).collect()].concat(),
        }
    }
    /// not the ledger's hash: 28 bytes made from the encoding
    pub fn hash(&self) -> crypto::ScriptHash {
        let mut h = vec![0u8; 28];
        for (i, b) in self.encode().into_iter().enumerate() {
            h[i % 28] = h[i % 28].wrapping_mul(31).wrapping_add(b);
        }
        crypto::ScriptHash(h)
    }
}
#[derive(Debug, Clone, Default)]
pub struct TransactionWitnessSet(Option<NativeScripts>);
impl TransactionWitnessSet {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_native_scripts(&mut self, s: &NativeScripts) {
        self.0 = Some(s.clone())
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        match &self.0 {
            None => vec![0xa0],
            Some(l) => [vec![0xa1, 1], head(0x80, l.len() as u64), l.0.iter().flat_map(|s| s.encode()).collect()].concat(),
        }
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Assets(BTreeMap<AssetName, BigNum>);
impl Assets {
    pub fn keys(&self) -> AssetNames {
        AssetNames(self.0.keys().cloned().collect())
    }
    pub fn get(&self, n: &AssetName) -> Option<BigNum> {
        self.0.get(n).copied()
    }
}
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct MultiAsset(BTreeMap<PolicyID, Assets>);
impl MultiAsset {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn keys(&self) -> PolicyIDs {
        PolicyIDs(self.0.keys().cloned().collect())
    }
    pub fn get(&self, p: &PolicyID) -> Option<Assets> {
        self.0.get(p).cloned()
    }
    pub fn get_asset(&self, p: &PolicyID, n: &AssetName) -> BigNum {
        self.0.get(p).and_then(|a| a.get(n)).unwrap_or(BigNum(0))
    }
    pub fn set_asset(&mut self, p: &PolicyID, n: &AssetName, v: &BigNum) -> Option<BigNum> {
        self.0.entry(p.clone()).or_default().0.insert(n.clone(), *v)
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Datum(pub u64);
#[derive(Debug, Clone)]
pub struct TransactionInput(crypto::TransactionHash, BigNum);
impl TransactionInput {
    pub fn new(h: &crypto::TransactionHash, i: &BigNum) -> Self {
        Self(h.clone(), *i)
    }
    pub fn transaction_id(&self) -> crypto::TransactionHash {
        self.0.clone()
    }
    pub fn index(&self) -> BigNum {
        self.1
    }
}
#[derive(Debug, Clone)]
pub struct TransactionOutput {
    address: address::Address,
    amount: ledger::common::value::Value,
    datum: Option<Datum>,
    script_ref: Option<plutus::ScriptRef>,
}
impl TransactionOutput {
    pub fn new(a: &address::Address, v: &ledger::common::value::Value) -> Self {
        Self { address: a.clone(), amount: v.clone(), datum: None, script_ref: None }
    }
    pub fn address(&self) -> address::Address {
        self.address.clone()
    }
    pub fn amount(&self) -> ledger::common::value::Value {
        self.amount.clone()
    }
    pub fn datum(&self) -> Option<Datum> {
        self.datum.clone()
    }
    pub fn script_ref(&self) -> Option<plutus::ScriptRef> {
        self.script_ref.clone()
    }
    pub fn set_datum(&mut self, d: &Datum) {
        self.datum = Some(d.clone())
    }
    pub fn set_script_ref(&mut self, s: &plutus::ScriptRef) {
        self.script_ref = Some(s.clone())
    }
    fn size(&self) -> u64 {
        let ma = self.amount.multiasset().map_or(0, |m| m.0.values().map(|a| 34 + a.0.len() as u64 * 43).sum());
        12 + self.address.0.len() as u64 + ma
    }
}
use ledger::common::value::BigNum;

pub mod address {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Address(pub Vec<u8>);
    impl Address {
        pub fn from_bech32(s: &str) -> Result<Self, JsError> {
            use bech32::FromBase32;
            let (_, d, _) = bech32::decode(s).map_err(|e| JsError(e.to_string()))?;
            Vec::from_base32(&d).map(Self).map_err(|e| JsError(e.to_string()))
        }
        pub fn to_bech32(&self, prefix: Option<String>) -> Result<String, JsError> {
            use bech32::ToBase32;
            let p = prefix.unwrap_or(if self.0.first().map_or(false, |b| b & 15 == 0) { "addr_test".into() } else { "addr".into() });
            bech32::encode(&p, self.0.to_base32(), bech32::Variant::Bech32).map_err(|e| JsError(e.to_string()))
        }
    }
    #[derive(Debug, Clone)]
    pub struct StakeCredential(Vec<u8>);
    impl StakeCredential {
        pub fn from_scripthash(h: &crypto::ScriptHash) -> Self {
            Self(h.0.clone())
        }
    }
    pub struct EnterpriseAddress(Vec<u8>);
    impl EnterpriseAddress {
        pub fn new(network: u8, c: &StakeCredential) -> Self {
            Self([vec![0x70 | network], c.0.clone()].concat())
        }
        pub fn to_address(&self) -> Address {
            Address(self.0.clone())
        }
    }
    pub struct NetworkInfo(u8, u32);
    impl NetworkInfo {
        pub fn new(id: u8, magic: u32) -> Self {
            Self(id, magic)
        }
        pub fn mainnet() -> Self {
            Self(1, 764824073)
        }
        pub fn testnet() -> Self {
            Self(0, 1097911063)
        }
        pub fn network_id(&self) -> u8 {
            self.0
        }
        pub fn protocol_magic(&self) -> u32 {
            self.1
        }
    }
}
pub mod crypto {
    use super::*;
    bytes!(Ed25519KeyHash 28, ScriptHash 28, TransactionHash 32);
}
pub mod plutus {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct ScriptRef(pub u64);
    #[derive(Debug, Clone)]
    pub struct PlutusData(pub u64);
    #[derive(Debug, Clone)]
    pub struct ExUnitPrices;
    impl ExUnitPrices {
        pub fn new(_: &UnitInterval, _: &UnitInterval) -> Self {
            Self
        }
    }
}
pub struct UnitInterval;
impl UnitInterval {
    pub fn new(_: &BigNum, _: &BigNum) -> Self {
        Self
    }
}
pub mod ledger {
    pub mod common {
        pub mod value {
            use crate::*;
            #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
            pub struct BigNum(pub(crate) u64);
            pub type Coin = BigNum;
            impl BigNum {
                #[allow(clippy::should_implement_trait)]
                pub fn from_str(s: &str) -> Result<Self, JsError> {
                    s.parse().map(Self).map_err(|e: std::num::ParseIntError| JsError(e.to_string()))
                }
                pub fn to_str(&self) -> String {
                    self.0.to_string()
                }
                pub fn zero() -> Self {
                    Self(0)
                }
                pub fn checked_mul(&self, o: &BigNum) -> Result<BigNum, JsError> {
                    self.0.checked_mul(o.0).map(Self).ok_or(JsError("overflow".into()))
                }
                pub fn checked_add(&self, o: &BigNum) -> Result<BigNum, JsError> {
                    self.0.checked_add(o.0).map(Self).ok_or(JsError("overflow".into()))
                }
            }
            impl From<u64> for BigNum {
                fn from(n: u64) -> Self {
                    Self(n)
                }
            }
            impl From<BigNum> for u64 {
                fn from(n: BigNum) -> u64 {
                    n.0
                }
            }
            impl std::fmt::Display for BigNum {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "{}", self.0)
                }
            }
            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct Value(Coin, Option<MultiAsset>);
            impl Value {
                pub fn new(c: &Coin) -> Self {
                    Self(*c, None)
                }
                pub fn coin(&self) -> Coin {
                    self.0
                }
                pub fn multiasset(&self) -> Option<MultiAsset> {
                    self.1.clone()
                }
                pub fn set_multiasset(&mut self, m: &MultiAsset) {
                    self.1 = Some(m.clone())
                }
            }
        }
    }
    pub mod alonzo {
        pub mod fees {
            use crate::*;
            #[derive(Debug, Clone)]
            pub struct LinearFee(BigNum, BigNum);
            impl LinearFee {
                pub fn new(coefficient: &BigNum, constant: &BigNum) -> Self {
                    Self(*coefficient, *constant)
                }
                pub fn coefficient(&self) -> BigNum {
                    self.0
                }
                pub fn constant(&self) -> BigNum {
                    self.1
                }
            }
        }
    }
    pub mod babbage {
        pub mod min_ada {
            use crate::*;
            pub fn min_pure_ada(per_byte: &BigNum, a: &address::Address, d: &Option<Datum>, s: &Option<plutus::ScriptRef>) -> Result<BigNum, JsError> {
                let extra = if d.is_some() { 40 } else { 0 } + if s.is_some() { 60 } else { 0 };
                per_byte.checked_mul(&BigNum(160 + 12 + a.0.len() as u64 + extra))
            }
        }
    }
}
pub mod builders {
    pub mod input_builder {
        use crate::*;
        #[derive(Debug, Clone)]
        pub struct InputBuilderResult {
            pub input: TransactionInput,
            pub utxo: TransactionOutput,
            /// by what right, as told
            pub by: String,
        }
        pub struct SingleInputBuilder(TransactionInput, TransactionOutput);
        impl SingleInputBuilder {
            pub fn new(i: &TransactionInput, o: &TransactionOutput) -> Self {
                Self(i.clone(), o.clone())
            }
            fn done(self, by: String) -> Result<InputBuilderResult, JsError> {
                Ok(InputBuilderResult { input: self.0, utxo: self.1, by })
            }
            pub fn payment_key(self) -> Result<InputBuilderResult, JsError> {
                self.done("key".into())
            }
            pub fn plutus_script(self, w: &super::witness_builder::PartialPlutusWitness, s: &RequiredSigners, d: &plutus::PlutusData) -> Result<InputBuilderResult, JsError> {
                self.done(format!("plutus {w:?} {s:?} {d:?}"))
            }
            pub fn native_script(self, s: &NativeScript, w: &super::witness_builder::NativeScriptWitnessInfo) -> Result<InputBuilderResult, JsError> {
                self.done(format!("native {s:?} {w:?}"))
            }
        }
    }
    pub mod output_builder {
        use crate::*;
        #[derive(Debug, Clone)]
        pub struct SingleOutputBuilderResult(pub TransactionOutput);
        impl SingleOutputBuilderResult {
            pub fn new(o: &TransactionOutput) -> Self {
                Self(o.clone())
            }
        }
    }
    pub mod witness_builder {
        #[derive(Debug, Clone)]
        pub struct PartialPlutusWitness(pub u64);
        #[derive(Debug, Clone)]
        pub struct NativeScriptWitnessInfo(pub u64);
    }
    pub mod tx_builder {
        use super::input_builder::InputBuilderResult;
        use super::output_builder::SingleOutputBuilderResult;
        use crate::ledger::alonzo::fees::LinearFee;
        use crate::*;
        #[derive(Debug, Clone)]
        pub struct TransactionBuilderConfig(LinearFee);
        #[derive(Default)]
        pub struct TransactionBuilderConfigBuilder(Option<LinearFee>);
        macro_rules! ignored {
            ($($f:ident: $T:ty),*) => {$(pub fn $f(self, _: $T) -> Self { self })*};
        }
        impl TransactionBuilderConfigBuilder {
            pub fn new() -> Self {
                Self::default()
            }
            pub fn fee_algo(self, f: &LinearFee) -> Self {
                Self(Some(f.clone()))
            }
            ignored!(coins_per_utxo_word: &BigNum, coins_per_utxo_byte: &BigNum, pool_deposit: &BigNum, key_deposit: &BigNum, max_value_size: u32,
                max_tx_size: u32, ex_unit_prices: &plutus::ExUnitPrices, collateral_percentage: u32, max_collateral_inputs: u32);
            pub fn build(self) -> Result<TransactionBuilderConfig, JsError> {
                self.0.map(TransactionBuilderConfig).ok_or(JsError("no fee".into()))
            }
        }
        #[derive(Debug, Clone)]
        pub struct TransactionBuilder {
            fees: LinearFee,
            ins: Vec<InputBuilderResult>,
            outs: Vec<TransactionOutput>,
            fee: Option<BigNum>,
        }
        impl TransactionBuilder {
            pub fn new(c: &TransactionBuilderConfig) -> Self {
                Self { fees: c.0.clone(), ins: vec![], outs: vec![], fee: None }
            }
            pub fn full_size(&self) -> Result<usize, JsError> {
                Ok(15 + self.ins.len() * 137 + self.outs.iter().map(|o| o.size() as usize).sum::<usize>())
            }
            pub fn min_fee(&self, scripts: bool) -> Result<BigNum, JsError> {
                self.fees.coefficient().checked_mul(&BigNum(self.full_size()? as u64 + scripts as u64))?.checked_add(&self.fees.constant())
            }
            pub fn set_fee(&mut self, f: &BigNum) {
                self.fee = Some(*f)
            }
            pub fn fee_for_input(&self, _: &InputBuilderResult) -> Result<BigNum, JsError> {
                self.fees.coefficient().checked_mul(&BigNum(137))
            }
            pub fn fee_for_output(&self, o: &SingleOutputBuilderResult) -> Result<BigNum, JsError> {
                self.fees.coefficient().checked_mul(&BigNum(o.0.size()))
            }
            pub fn add_input(&mut self, i: &InputBuilderResult) -> Result<(), JsError> {
                self.ins.push(i.clone());
                Ok(())
            }
            pub fn add_output(&mut self, o: &SingleOutputBuilderResult) -> Result<(), JsError> {
                self.outs.push(o.0.clone());
                Ok(())
            }
        }
    }
}
