// what a transaction costs by its size (cardano-utils/src/network_id.rs)
global size_of usize == 8;
//@item cardano-utils/src/network_id.rs | const | ASSUMED_OVERHEAD
//@rewrite const => pub const
//@end
//@item cardano-utils/src/network_id.rs | const | ASSUMED_SIZE_EMPTY_TX
//@rewrite const => pub const
//@end
//@item cardano-utils/src/network_id.rs | const | ASSUMED_SIZE_OF_ONE_INPUT
//@rewrite const => pub const
//@end
//@item cardano-utils/src/network_id.rs | const | ASSUMED_SIZE_OF_ONE_OUTPUT
//@rewrite const => pub const
//@end
//@item cardano-utils/src/network_id.rs | const | ASSUMED_SIZE_OF_ONE_WITNESS
//@rewrite const => pub const
//@end
//@item cardano-utils/src/network_id.rs | const | DEFAULT_MAX_TX_SIZE
//@rewrite const => pub const
//@end
//@item cardano-utils/src/network_id.rs | enum | NetworkInfo
//@end
//@rules cml
BigNum :: from_str ( & $e . to_string ( ) ) => BigNum::from_str(text_of($e).as_str())
$p! . as_ref ( ) . as_bytes ( ) . len ( ) => byte_len($p)
$p! . as_ref ( ) . len ( ) => byte_len($p)
//@end
/// the length of a text in bytes
pub open spec fn bytes_of(s: Seq<char>) -> int { utf8(s).len() as int }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body] pub fn byte_len(s: &str) -> (r: usize) ensures r == bytes_of(s@), r <= isize::MAX { unimplemented!() }
impl NetworkInfo {
    /// the price of a byte
    pub open spec fn per_byte(&self) -> int { match self { NetworkInfo::Custom { linear_fee_coefficient, .. } => number(linear_fee_coefficient@), _ => 44 } }
    /// the price of any transaction
    pub open spec fn base(&self) -> int { match self { NetworkInfo::Custom { linear_fee_constant, .. } => number(linear_fee_constant@), _ => 155381 } }
    /// its settings are numbers
    pub open spec fn usable(&self) -> bool { self matches NetworkInfo::Custom { linear_fee_coefficient, linear_fee_constant, .. } ==> numeral(linear_fee_coefficient@) && numeral(linear_fee_constant@) }
    /// a transaction this long has a price of 64 bits
    pub open spec fn affords(&self, bytes: int) -> bool { self.usable() && self.per_byte() * bytes + self.base() <= u64::MAX }
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | linear_fee
    //@spec
        requires self.usable()
        ensures r.coefficient.int() == self.per_byte(), r.constant.int() == self.base()
    //@hint start
        proof {
            reveal_strlit("44"); reveal_strlit("155381");
            lemma_two("44"@); lemma_six("155381"@);
        }
    //@end
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | max_tx_size
    //@spec
        ensures r == (match self { NetworkInfo::Custom { max_tx_size, .. } => *max_tx_size as usize, _ => 16384usize })
    //@end
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | assumed_empty_transaction
    //@use cml
    //@spec
        requires self.affords(EMPTY)
        ensures r.int() == self.per_byte() * EMPTY + self.base()
    //@end
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | assumed_cost_one_input
    //@use cml
    //@spec
        requires self.affords(INPUT)
        ensures r.int() == self.per_byte() * INPUT
    //@end
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | assumed_cost_one_output
    //@use cml
    //@spec
        requires self.affords(OUTPUT)
        ensures r.int() == self.per_byte() * OUTPUT
    //@end
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | assumed_cost_one_witness
    //@use cml
    //@spec
        requires self.affords(WITNESS)
        ensures r.int() == self.per_byte() * WITNESS
    //@end
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | estimated_size_empty
    //@spec
        ensures r == EMPTY
    //@end
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | estimated_size_input
    //@spec
        ensures r == INPUT
    //@end
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | estimated_size_output
    //@spec
        ensures r == OUTPUT
    //@end
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | estimate_size_overhead
    //@spec
        ensures r == OVERHEAD + script_len(script_of(*plan)) + plan.quorum * WITNESS, r < 0xf000_0000_0000_0000
    //@hint start
        proof {
            assert(WITNESS < 1000 && OVERHEAD < 1000);
            let (q, w) = (plan.quorum as usize, ASSUMED_SIZE_OF_ONE_WITNESS);
            assert(0 <= q * w <= 0xffff_ffff * 1000) by (nonlinear_arith) requires 0 <= q <= 0xffff_ffff, 0 <= w < 1000;
        }
    //@end
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | assumed_cost_native_script
    //@use cml
    //@spec
        requires self.affords(script_len(script_of(*plan)))
        ensures r.int() == self.per_byte() * script_len(script_of(*plan))
    //@end
    //@fn cardano-utils/src/network_id.rs | impl NetworkInfo | assumed_cost_metadata_protocol_magic
    //@use cml
    //@sig impl AsRef < str > => &str
    //@spec
        requires self.affords(bytes_of(protocol_magic@) + 5)
        ensures r.int() == self.per_byte() * (bytes_of(protocol_magic@) + 5)
    //@end
}
/// the sizes a transaction is reckoned with (67, 38, 152, 108 and 50 bytes), at least what the ledger needs
pub spec const EMPTY: int = ASSUMED_SIZE_EMPTY_TX as int;
pub spec const INPUT: int = ASSUMED_SIZE_OF_ONE_INPUT as int;
pub spec const OUTPUT: int = ASSUMED_SIZE_OF_ONE_OUTPUT as int;
pub spec const WITNESS: int = ASSUMED_SIZE_OF_ONE_WITNESS as int;
pub spec const OVERHEAD: int = ASSUMED_OVERHEAD as int;
proof fn lemma_two(s: Seq<char>)
    requires s =~= seq!['4', '4']
    ensures numeral(s), number(s) == 44
{ reveal_with_fuel(number, 3); assert(s.drop_last() =~= seq!['4']); assert(s.drop_last().drop_last() =~= Seq::<char>::empty()); }
proof fn lemma_six(s: Seq<char>)
    requires s =~= seq!['1', '5', '5', '3', '8', '1']
    ensures numeral(s), number(s) == 155381
{
    let a = s.drop_last(); let b = a.drop_last(); let c = b.drop_last(); let d = c.drop_last(); let e = d.drop_last();
    assert(e.drop_last() =~= Seq::<char>::empty());
    assert(number(e.drop_last()) == 0); assert(number(e) == 1); assert(number(d) == 15); assert(number(c) == 155); assert(number(b) == 1553); assert(number(a) == 15538);
}
/// the length of the CBOR head of a string, list, map or number of this size
pub open spec fn head(n: int) -> int { if n < 24 { 1 } else if n < 256 { 2 } else if n < 65536 { 3 } else if n < 0x1_0000_0000 { 5 } else { 9 } }
/// the sizes reckoned with are at least what the ledger's encoding takes: of an input whose index is a byte, of an output
/// to a base address with an amount and one asset (each of any size), of a signature with its key, of a transaction of none of these
proof fn lemma_enough()
    ensures
        INPUT >= head(2) + (head(32) + 32) + head(255),
        OUTPUT >= head(2) + (head(57) + 57) + head(2) + head(u64::MAX as int) + head(1) + (head(28) + 28) + head(1) + (head(32) + 32) + head(u64::MAX as int),
        WITNESS >= head(2) + (head(32) + 32) + (head(64) + 64),
        EMPTY >= 15,
{}
