// the sums over concatenated lists, and of all coins
/// the main amounts and the assets add up to all coins
pub proof fn lemma_coins_in(s: Seq<&UTxODetails>, t: TokenId)
    ensures coins_in(s, t) == assets_in(s, t) + (if t == main_token() { values_in(s) } else { 0real })
    decreases s.len()
{ if s.len() > 0 { lemma_coins_in(s.drop_first(), t); } }
pub proof fn lemma_coins_out(s: Seq<&UTxOBuilder>, t: TokenId)
    ensures coins_out(s, t) == assets_out(s, t) + (if t == main_token() { values_out(s) } else { 0real })
    decreases s.len()
{ if s.len() > 0 { lemma_coins_out(s.drop_first(), t); } }
pub proof fn lemma_out_cat(a: Seq<&UTxOBuilder>, b: Seq<&UTxOBuilder>, t: TokenId)
    ensures coins_out(a + b, t) == coins_out(a, t) + coins_out(b, t)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_out_cat(a.drop_first(), b, t); }
}
