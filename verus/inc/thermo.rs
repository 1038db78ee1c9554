// the thermostat, extracted
//@item utxo-selection/src/algorithms/thermostat.rs | struct | ThermostatAlgoConfig
//@end
//@item utxo-selection/src/algorithms/thermostat.rs | struct | Thermostat
//@end
//@rules thermo
anyhow ! ( $x* ) => anyhow::error()
. with_context ( || $x ) =>
vec ! [ ] => Vec::new()
vec ! [ false ; $x ] => all_false($x)
Default :: default ( ) => UTxOStore::default()
Entry :: Occupied => Entry::Occupied
//@end
// ---- what the thermostat keeps the sum of ----
/// one amount: of the main token (None) or of an asset
pub type What = Option<TokenId>;
pub open spec fn of_out(o: UTxOBuilder, w: What) -> real { match w { None => o.value.val(), Some(t) => listed(refs(o.assets@), t) } }
pub open spec fn of_in(u: UTxODetails, w: What) -> real { match w { None => u.value.val(), Some(t) => listed(refs(u.assets@), t) } }
pub open spec fn sum_out(s: Seq<UTxOBuilder>, w: What) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { sum_out(s.drop_last(), w) + of_out(s.last(), w) } }
pub open spec fn sum_in(s: Seq<UTxODetails>, w: What) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { sum_in(s.drop_last(), w) + of_in(s.last(), w) } }
pub type Changes = Map<TokenId, UTxOBuilder>;
pub open spec fn sum_held(m: Changes, w: What) -> real
    decreases m.dom().len()
{
    if m.dom().len() == 0 { 0real }
    else { let p = m.dom().choose(); of_out(m[p], w) + sum_held(m.remove(p), w) }
}
pub open spec fn at(m: Changes, k: TokenId, w: What) -> real { if m.contains_key(k) { of_out(m[k], w) } else { 0real } }
proof fn lemma_held_remove(m: Changes, w: What, p: TokenId)
    requires m.contains_key(p)
    ensures sum_held(m, w) == of_out(m[p], w) + sum_held(m.remove(p), w)
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(p));
    if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); }
    assert(m.dom().contains(c));
    assert(m.remove(p).dom() =~= m.dom().remove(p));
    assert(m.remove(c).dom() =~= m.dom().remove(c));
    if c != p {
        lemma_held_remove(m.remove(c), w, p);
        lemma_held_remove(m.remove(p), w, c);
        assert(m.remove(c).remove(p) =~= m.remove(p).remove(c));
    }
}
/// setting one change
proof fn lemma_held_set(m: Changes, k: TokenId)
    ensures forall|c: UTxOBuilder, w: What| #[trigger] sum_held(m.insert(k, c), w) == sum_held(m, w) - at(m, k, w) + of_out(c, w)
{
    assert forall|c: UTxOBuilder, w: What| #[trigger] sum_held(m.insert(k, c), w) == sum_held(m, w) - at(m, k, w) + of_out(c, w) by {
        let n = m.insert(k, c);
        lemma_held_remove(n, w, k);
        if m.contains_key(k) { lemma_held_remove(m, w, k); assert(n.remove(k) =~= m.remove(k)); }
        else { assert(n.remove(k) =~= m); }
    }
}
proof fn lemma_sum_out()
    ensures forall|s: Seq<UTxOBuilder>, c: UTxOBuilder, w: What| #[trigger] sum_out(s.push(c), w) == sum_out(s, w) + of_out(c, w)
{ assert forall|s: Seq<UTxOBuilder>, c: UTxOBuilder, w: What| #[trigger] sum_out(s.push(c), w) == sum_out(s, w) + of_out(c, w) by { assert(s.push(c).drop_last() =~= s); } }
proof fn lemma_held_none(w: What)
    ensures sum_held(Map::<TokenId, UTxOBuilder>::empty(), w) == 0real
{ let m: Changes = Map::empty(); assert(m.dom() =~= Set::empty()); }
pub open spec fn bal(b: Balance<Regulated>, m: Balances, w: What) -> real { match w { None => b.val(), Some(t) => signed(m, t) } }
/// a change output: no negative amount, and of the assets only the one it is kept under
pub open spec fn change_ok(k: TokenId, c: UTxOBuilder) -> bool {
    c.value.val() >= 0real && c.assets@.len() <= 1 && (c.assets@.len() == 1 ==> c.assets@[0].fingerprint == k && c.assets@[0].quantity.val() >= 0real)
}
pub open spec fn changes_ok(m: Changes) -> bool { forall|k: TokenId| #[trigger] m.contains_key(k) ==> change_ok(k, m[k]) }
pub open spec fn outputs_ok(s: Seq<UTxOBuilder>) -> bool { forall|i: int| 0 <= i < s.len() ==> out_ok(#[trigger] s[i]) }
impl ThermostatAlgoConfig {
    /// for the default main token; the thermostat's bounds are amounts
    pub closed spec fn ok(self) -> bool {
        self.main_token == main_token() && 0real <= self.native_utxo_thermostat_min.val() <= self.native_utxo_thermostat_max.val()
    }
}
impl Thermostat {
    /// what is left over, counting what was put in the changes, before the chosen inputs
    pub closed spec fn surplus(self, w: What) -> real {
        bal(self.balance, self.asset_balance@, w) + sum_held(self.changes@, w) + sum_out(self.extra_changes@, w) - sum_in(self.selected_inputs@, w)
    }
    pub closed spec fn ok(self) -> bool {
        self.balance.wf() && canonical(self.asset_balance@) && !self.asset_balance@.contains_key(main_token())
        && changes_ok(self.changes@) && outputs_ok(self.extra_changes@) && self.config.ok()
    }
    /// in the midst of a selection: rest is what is available and not yet chosen
    pub closed spec fn at_work(self, rest: UTxOStore) -> bool {
        self.ok() && rest.wf() && held_ok(self.available_utxos.held())
        && picked(self.available_utxos.held(), self.selected_inputs@) && left(rest.held(), self.available_utxos.held(), self.selected_inputs@)
    }
    /// nothing is lost or created, and what the selection is about stays the same
    pub closed spec fn conserves(self, n: Thermostat) -> bool {
        &&& forall|w: What| #[trigger] n.surplus(w) == self.surplus(w)
        &&& n.outputs == self.outputs && n.optional_change_address == self.optional_change_address && n.config == self.config && n.available_utxos == self.available_utxos
        &&& n.asset_balance@.dom() == self.asset_balance@.dom()
    }
}
pub open spec fn pure(u: UTxODetails, t: TokenId) -> bool { u.assets@.len() <= 1 && forall|i: int| 0 <= i < u.assets@.len() ==> (#[trigger] refs(u.assets@)[i]).fingerprint == t }

impl Thermostat {
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | new
    //@use thermo
    //@spec
        ensures r.settings() == config, r.store().wf(), r.store().held() == Map::<UtxoPointer, Arc<UTxODetails>>::empty()
    //@end
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | remaining_number_inputs_allowed
    //@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
    //@attr #[verifier::external_body]
    //@use thermo
    //@end
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | add_input
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@use thermo
    //@desugar for.it
    //@spec
        requires old(self).balance.wf(), canonical(old(self).asset_balance@), utxo_ok(input)
        ensures
            final(self).balance.wf(), final(self).balance.val() == old(self).balance.val() + input.value.val(),
            canonical(final(self).asset_balance@), final(self).selected_inputs@ == old(self).selected_inputs@.push(input),
            forall|t: TokenId| #[trigger] signed(final(self).asset_balance@, t) == signed(old(self).asset_balance@, t) + listed(refs(input.assets@), t),
            forall|t: TokenId| #[trigger] final(self).asset_balance@.contains_key(t) ==> old(self).asset_balance@.contains_key(t) || exists|i: int| 0 <= i < input.assets@.len() && (#[trigger] refs(input.assets@)[i]).fingerprint == t,
            forall|t: TokenId| #[trigger] old(self).asset_balance@.contains_key(t) ==> final(self).asset_balance@.contains_key(t),
            final(self).changes == old(self).changes, final(self).extra_changes == old(self).extra_changes, final(self).config == old(self).config,
            final(self).outputs == old(self).outputs, final(self).optional_change_address == old(self).optional_change_address, final(self).available_utxos == old(self).available_utxos,
    //@hint start
        proof { lemma_steps(); }
        let ghost o = *self;
    //@hint before-loop 0
        let ghost m = *self;
    //@loop 0
        invariant_except_break
            o == *old(self), *self == (Thermostat { asset_balance: self.asset_balance, ..m }),
            canonical(self.asset_balance@), assets_ok(__it0@), __it0@.len() <= input.assets@.len(), __it0@ == refs(input.assets@).skip(input.assets@.len() - __it0@.len()),
            forall|t: TokenId| #![trigger signed(self.asset_balance@, t)] #![trigger listed(__it0@, t)] signed(self.asset_balance@, t) + listed(__it0@, t) == signed(o.asset_balance@, t) + listed(refs(input.assets@), t),
            forall|t: TokenId| #[trigger] self.asset_balance@.contains_key(t) ==> o.asset_balance@.contains_key(t) || exists|i: int| 0 <= i < input.assets@.len() && (#[trigger] refs(input.assets@)[i]).fingerprint == t,
            forall|t: TokenId| #[trigger] o.asset_balance@.contains_key(t) ==> self.asset_balance@.contains_key(t),
        ensures
            *self == (Thermostat { asset_balance: self.asset_balance, ..m }),
            canonical(self.asset_balance@), 
            forall|t: TokenId| #[trigger] signed(self.asset_balance@, t) == signed(o.asset_balance@, t) + listed(refs(input.assets@), t),
            forall|t: TokenId| #[trigger] self.asset_balance@.contains_key(t) ==> o.asset_balance@.contains_key(t) || exists|i: int| 0 <= i < input.assets@.len() && (#[trigger] refs(input.assets@)[i]).fingerprint == t,
            forall|t: TokenId| #[trigger] o.asset_balance@.contains_key(t) ==> self.asset_balance@.contains_key(t),
        decreases __it0@.len()
    //@end
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | current_balance
    //@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
    //@use thermo
    //@rewrite & self . balance - & estimate . min_required_fee ( ) ? => (&self.balance).sub(&estimate.min_required_fee()?)
    //@spec
        requires self.balance.wf()
        ensures r matches Ok(b) ==> b.wf() && b.val() <= self.balance.val()
    //@end
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | current_balance_of
    //@use thermo
    //@rewrite debug_assert_ne ! ( $x ) ; =>
    //@spec
        requires canonical(self.asset_balance@), self.asset_balance@.contains_key(*asset)
        ensures r.wf(), r.val() == signed(self.asset_balance@, *asset)
    //@end
}
/// one more input chosen among those left
pub closed spec fn took(o: Thermostat, n: Thermostat, rest: UTxOStore, rest2: UTxOStore, asset: TokenId) -> bool {
    &&& n.at_work(rest2) && o.conserves(n) && n.changes == o.changes && n.extra_changes == o.extra_changes
    &&& rest2.held().dom().len() < rest.held().dom().len()
    &&& forall|t: TokenId| #[trigger] signed(n.asset_balance@, t) >= signed(o.asset_balance@, t)
    &&& forall|t: TokenId| t != asset ==> #[trigger] signed(n.asset_balance@, t) == signed(o.asset_balance@, t)
}
proof fn lemma_left_ok(m: Held, rest: Held, c: Seq<UTxODetails>)
    requires held_ok(m), left(rest, m, c)
    ensures held_ok(rest)
{ assert forall|p: UtxoPointer| #[trigger] rest.contains_key(p) implies utxo_ok(*rest[p]) by { assert(m.contains_key(p)); assert(utxo_ok(*m[p])); } }
/// a UTxO with nothing but the asset
proof fn lemma_pure(u: UTxODetails, asset: TokenId)
    requires pure(u, asset), plain(u), utxo_ok(u)
    ensures
        forall|t: TokenId| #[trigger] listed(refs(u.assets@), t) >= 0real,
        forall|t: TokenId| t != asset ==> #[trigger] listed(refs(u.assets@), t) == 0real,
        asset == main_token() ==> u.assets@.len() == 0,
{
    assert forall|t: TokenId| #[trigger] listed(refs(u.assets@), t) >= 0real by { lemma_listed_ok(refs(u.assets@), t); }
    assert forall|t: TokenId| t != asset implies #[trigger] listed(refs(u.assets@), t) == 0real by { lemma_absent(refs(u.assets@), t); }
    if asset == main_token() && u.assets@.len() > 0 { assert(refs(u.assets@)[0].fingerprint == main_token()); assert(u.assets@[0].fingerprint != main_token()); }
}
proof fn lemma_took(o: Thermostat, n: Thermostat, rest: UTxOStore, asset: TokenId, u: UTxODetails)
    requires
        o.at_work(rest), asset == main_token() || o.asset_balance@.contains_key(asset), pure(u, asset), rest.held().contains_key(ptr(u)), *rest.held()[ptr(u)] == u,
        n.balance.wf(), n.balance.val() == o.balance.val() + u.value.val(), canonical(n.asset_balance@), n.selected_inputs@ == o.selected_inputs@.push(u),
        forall|t: TokenId| #[trigger] signed(n.asset_balance@, t) == signed(o.asset_balance@, t) + listed(refs(u.assets@), t),
        forall|t: TokenId| #[trigger] n.asset_balance@.contains_key(t) ==> o.asset_balance@.contains_key(t) || exists|i: int| 0 <= i < u.assets@.len() && (#[trigger] refs(u.assets@)[i]).fingerprint == t,
        forall|t: TokenId| #[trigger] o.asset_balance@.contains_key(t) ==> n.asset_balance@.contains_key(t),
        n.changes == o.changes, n.extra_changes == o.extra_changes, n.config == o.config,
        n.outputs == o.outputs, n.optional_change_address == o.optional_change_address, n.available_utxos == o.available_utxos,
    ensures forall|rest2: UTxOStore| rest2.wf() && rest2.held() == rest.held().remove(ptr(u)) ==> #[trigger] took(o, n, rest, rest2, asset)
{
    let m = o.available_utxos.held();
    lemma_left_ok(m, rest.held(), o.selected_inputs@);
    assert(plain(*rest.held()[ptr(u)]));
    assert(utxo_ok(*rest.held()[ptr(u)]));
    lemma_pure(u, asset);
    lemma_pick(m, rest.held(), o.selected_inputs@, u);
    assert(n.selected_inputs@.drop_last() =~= o.selected_inputs@);
    assert forall|w: What| #[trigger] n.surplus(w) == o.surplus(w) by {}
    assert(n.asset_balance@.dom() =~= o.asset_balance@.dom());
    assert(rest.held().remove(ptr(u)).dom() =~= rest.held().dom().remove(ptr(u)));
    assert(rest.held().dom().contains(ptr(u)));
}
proof fn lemma_took_more(o: Thermostat, m: Thermostat, n: Thermostat, r0: UTxOStore, r1: UTxOStore, r2: UTxOStore, asset: TokenId)
    requires took(o, m, r0, r1, asset), took(m, n, r1, r2, asset)
    ensures took(o, n, r0, r2, asset)
{
    assert forall|t: TokenId| #[trigger] signed(n.asset_balance@, t) >= signed(o.asset_balance@, t) by { assert(signed(m.asset_balance@, t) >= signed(o.asset_balance@, t)); }
    assert forall|t: TokenId| t != asset implies #[trigger] signed(n.asset_balance@, t) == signed(o.asset_balance@, t) by { assert(signed(m.asset_balance@, t) == signed(o.asset_balance@, t)); }
    assert forall|w: What| #[trigger] n.surplus(w) == o.surplus(w) by { assert(m.surplus(w) == o.surplus(w)); }
}
impl Thermostat {
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | select_input_for
    //@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
    //@use thermo
    //@rewrite & tx_asset . fingerprint == asset => tx_asset.fingerprint == *asset
    //@rewrite . all ( | tx_asset | $x ) => .all(|tx_asset: &TransactionAsset| -> (b: bool) ensures b ==> tx_asset.fingerprint == *asset { $x })
    //@rewrite . find ( | utxo | { $x } ) => .find(|utxo: &&UTxODetails| -> (b: bool) ensures b ==> pure(**utxo, *asset) { $x })
    //@desugar opt.ok_or_else
    //@spec
        requires old(self).at_work(utxos), *asset == main_token() || old(self).asset_balance@.contains_key(*asset)
        ensures r matches Ok(rest) ==> took(*old(self), *final(self), utxos, rest, *asset), r is Err ==> *final(self) == *old(self)
    //@hint start
        proof { lemma_left_ok(self.available_utxos.held(), utxos.held(), self.selected_inputs@); }
        let ghost (o, r0) = (*self, utxos);
    //@hint before estimate . add_input
        proof { assert(holding(r0.held(), *asset).contains_key(ptr(utxo))); assert(utxo_ok(*r0.held()[ptr(utxo)])); }
    //@hint after self . add_input ( utxo . clone ( ) ) ;
        proof { lemma_took(o, *self, r0, *asset, utxo); }
    //@end
}
/// any number of inputs chosen among those left
pub closed spec fn took_some(o: Thermostat, n: Thermostat, rest: UTxOStore, rest2: UTxOStore, asset: TokenId) -> bool {
    (n == o && rest2 == rest) || took(o, n, rest, rest2, asset)
}
impl Thermostat {
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | select_input_for_asset_until_balanced
    //@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
    //@use thermo
    //@desugar while.let
    //@spec
        requires old(self).at_work(utxos), old(self).asset_balance@.contains_key(*asset)
        ensures r matches Ok(rest) ==> took_some(*old(self), *final(self), utxos, rest, *asset) && signed(final(self).asset_balance@, *asset) >= 0real
    //@hint start
        let ghost (o, r0) = (*self, utxos);
    //@loop 0
        invariant
            o == *old(self), o.at_work(r0), self.at_work(utxos), took_some(o, *self, r0, utxos, *asset), self.asset_balance@.contains_key(*asset),
        ensures signed(self.asset_balance@, *asset) >= 0real
        decreases utxos.held().dom().len()
    //@hint loop-start 0
        let ghost (m, r1) = (*self, utxos);
    //@hint after utxos = $x ;
        proof { if m != o || r1 != r0 { lemma_took_more(o, m, *self, r0, r1, utxos, *asset); } assert(o.asset_balance@.dom().contains(*asset)); assert(self.asset_balance@.dom().contains(*asset)); }
    //@end
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | select_input_for_main_until_balanced
    //@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
    //@attr #[verifier::loop_isolation(false)]
    //@use thermo
    //@desugar while.let
    //@spec
        requires old(self).at_work(utxos)
        ensures r matches Ok(rest) ==> took_some(*old(self), *final(self), utxos, rest, main_token())
    //@hint start
        let ghost (o, r0) = (*self, utxos);
    //@loop 0
        invariant
            o == *old(self), o.at_work(r0), self.at_work(utxos), took_some(o, *self, r0, utxos, o.config.main_token),
        decreases utxos.held().dom().len()
    //@hint loop-start 0
        let ghost (m, r1) = (*self, utxos);
    //@hint after utxos = $x ;
        proof { if m != o || r1 != r0 { lemma_took_more(o, m, *self, r0, r1, utxos, o.config.main_token); } }
    //@end
}
/// what a change output with at most one asset holds
pub open spec fn single(c: UTxOBuilder, w: What) -> real {
    match w { None => c.value.val(), Some(t) => if c.assets@.len() == 1 && c.assets@[0].fingerprint == t { c.assets@[0].quantity.val() } else { 0real } }
}
proof fn lemma_single()
    ensures forall|c: UTxOBuilder, w: What| c.assets@.len() <= 1 ==> #[trigger] of_out(c, w) == single(c, w)
{
    assert forall|c: UTxOBuilder, w: What| c.assets@.len() <= 1 implies #[trigger] of_out(c, w) == single(c, w) by {
        if let Some(t) = w {
            let s = refs(c.assets@);
            if s.len() == 1 { assert(s.drop_first().len() == 0); assert(listed(s.drop_first(), t) == 0real); assert(s[0].fingerprint == c.assets@[0].fingerprint); assert(s[0].quantity == c.assets@[0].quantity); }
        }
    }
}
/// an excess moved into the changes
pub closed spec fn moved(o: Thermostat, n: Thermostat) -> bool {
    n.ok() && o.conserves(n) && n.selected_inputs@ == o.selected_inputs@
}
proof fn lemma_moved(o: Thermostat, n: Thermostat, rest: UTxOStore)
    requires o.at_work(rest), moved(o, n)
    ensures n.at_work(rest)
{}
impl Thermostat {
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | balance_excess_of_asset
    //@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
    //@attr #[verifier::rlimit(60)]
    //@use thermo
    //@rewrite . cloned ( ) . expect ( "Always expect to retrieve the policy_id/asset_name" ) => .cloned().or_panic()
    //@desugar opt.ok_or_else
    //@rewrite . map_err ( | err | { $x } ) =>
    //@spec
        requires old(self).ok(), old(self).asset_balance@.contains_key(asset)
        ensures r is Ok ==> {
            &&& moved(*old(self), *final(self))
            &&& forall|t: TokenId| t != asset ==> #[trigger] signed(final(self).asset_balance@, t) == signed(old(self).asset_balance@, t)
            &&& signed(final(self).asset_balance@, asset) == (if signed(old(self).asset_balance@, asset) > 0real { 0real } else { signed(old(self).asset_balance@, asset) })
        }
    //@hint start
        let ghost o = *self;
        proof { lemma_held_set(self.changes@, asset); lemma_single(); }
    //@hint before let entry = self . changes . get_mut
        let ghost m = *self;
        proof {
            lemma_held_set(self.changes@, asset);
            assert(m.changes@.contains_key(asset));
            let c = m.changes@[asset];
            assert(m.changes@ =~= o.changes@.insert(asset, c));
            assert(forall|w: What| sum_held(m.changes@, w) == sum_held(o.changes@, w) - at(o.changes@, asset, w) + of_out(c, w));
            assert(change_ok(asset, c));
            assert(changes_ok(m.changes@));
            assert(m.asset_balance@.dom() =~= o.asset_balance@.dom());
            assert(m.surplus(None) == o.surplus(None));
            assert forall|t: TokenId| m.surplus(Some(t)) == o.surplus(Some(t)) by { if t == asset {} else {} }
        }
    //@hint after self . balance += difference ; }
        proof {
            let c = self.changes@[asset];
            assert(self.changes@ =~= m.changes@.insert(asset, c));
            assert(change_ok(asset, c));
            assert forall|w: What| #[trigger] self.surplus(w) == o.surplus(w) by { assert(m.surplus(w) == o.surplus(w)); }
        }
    //@end
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | balance_excess
    //@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
    //@attr #[verifier::rlimit(60)]
    //@use thermo
    //@desugar opt.ok_or_else
    //@rewrite . map_err ( | err | { $x } ) =>
    //@spec
        requires old(self).ok()
        ensures r is Ok ==> moved(*old(self), *final(self)) && final(self).asset_balance == old(self).asset_balance
    //@hint start
        let ghost o = *self;
        proof { lemma_held_set(self.changes@, self.config.main_token); lemma_single(); }
    //@hint before Ok ( ( ) ) }
        proof {
            let k = o.config.main_token;
            if self.changes@ != o.changes@ {
                let c = self.changes@[k];
                assert(self.changes@ =~= o.changes@.insert(k, c));
                assert(forall|w: What| sum_held(self.changes@, w) == sum_held(o.changes@, w) - at(o.changes@, k, w) + of_out(c, w));
                assert(change_ok(k, c));
            }
            assert forall|w: What| #[trigger] self.surplus(w) == o.surplus(w) by {}
        }
    //@end
}
/// one change and nothing else altered, or split in two with the fee for the second left over
pub closed spec fn split(m: Thermostat, n: Thermostat, k: TokenId) -> bool {
    let (a, b) = (m.changes@[k], n.changes@[k]);
    &&& n == (Thermostat { changes: n.changes, balance: n.balance, extra_changes: n.extra_changes, ..m })
    &&& n.balance.wf() && n.changes@.dom() =~= m.changes@.dom() && (forall|j: TokenId| j != k && #[trigger] m.changes@.contains_key(j) ==> n.changes@[j] == m.changes@[j])
    &&& change_ok(k, b)
    &&& if n.extra_changes@ == m.extra_changes@ { a.value.val() == b.value.val() && a.assets@ =~= b.assets@ && n.balance == m.balance } else {
        let c = n.extra_changes@.last();
        &&& n.extra_changes@ == m.extra_changes@.push(c) && change_ok(k, c)
        &&& b.value.val() + c.value.val() + n.balance.val() == a.value.val() + m.balance.val()
        &&& a.assets@.len() == b.assets@.len() && a.assets@.len() == c.assets@.len()
        &&& a.assets@.len() > 0 ==> b.assets@[0].quantity.val() + c.assets@[0].quantity.val() == a.assets@[0].quantity.val()
    }
}
proof fn lemma_split(o: Thermostat, m: Thermostat, k: TokenId)
    requires moved(o, m), m.changes@.contains_key(k)
    ensures forall|n: Thermostat| split(m, n, k) ==> #[trigger] moved(o, n)
{
    assert forall|n: Thermostat| split(m, n, k) implies #[trigger] moved(o, n) by {
        let (a, b) = (m.changes@[k], n.changes@[k]);
        lemma_single(); lemma_sum_out(); lemma_held_set(m.changes@, k);
        assert(n.changes@ =~= m.changes@.insert(k, b));
        assert(change_ok(k, a));
        if n.extra_changes@ != m.extra_changes@ {
            let c = n.extra_changes@.last();
            assert(n.extra_changes@.drop_last() =~= m.extra_changes@);
            assert forall|i: int| 0 <= i < n.extra_changes@.len() implies out_ok(#[trigger] n.extra_changes@[i]) by {
                if i < m.extra_changes@.len() { assert(n.extra_changes@[i] == m.extra_changes@[i]); }
            }
        }
        assert forall|w: What| #[trigger] n.surplus(w) == o.surplus(w) by { assert(m.surplus(w) == o.surplus(w)); assert(of_out(b, w) == single(b, w)); assert(of_out(a, w) == single(a, w)); }
    }
}
impl Thermostat {
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | split_accumulators
    //@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
    //@attr #[verifier::rlimit(100)]
    //@use thermo
    //@rewrite for ( token_id , change ) in self . changes . iter_mut ( ) { $x~ } => for __key in into_it(self.changes.key_list()) { let token_id = &__key; let change = self.changes.get_mut(&__key).or_panic(); $x }
    //@desugar for.it
    //@spec
        requires old(self).ok(), utxos.wf()
        ensures r is Ok ==> moved(*old(self), *final(self)) && final(self).asset_balance == old(self).asset_balance
    //@hint start
        let ghost o = *self;
    //@loop 0
        invariant
            o == *old(self), o.ok(), utxos.wf(), moved(o, *self), self.asset_balance == o.asset_balance, self.changes@.dom() =~= o.changes@.dom(),
            forall|i: int| 0 <= i < __it0@.len() ==> o.changes@.contains_key(#[trigger] __it0@[i]),
        decreases __it0@.len()
    //@hint before let token_id = & __key
        let ghost m = *self;
        proof { lemma_split(o, m, __key); lemma_single(); assert(m.changes@.contains_key(__key)); assert(change_ok(__key, m.changes@[__key])); }
    //@end
}
pub open spec fn among(s: Seq<&TokenId>, t: TokenId) -> bool { exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == t }
proof fn lemma_among(s: Seq<&TokenId>)
    requires s.len() > 0
    ensures forall|t: TokenId| #[trigger] among(s, t) ==> *s[0] == t || among(s.drop_first(), t)
{
    assert forall|t: TokenId| #[trigger] among(s, t) implies *s[0] == t || among(s.drop_first(), t) by {
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == t;
        if i > 0 { assert(*s.drop_first()[i - 1] == t); }
    }
}
proof fn lemma_contains(s: Seq<TokenId>)
    requires s.len() > 0
    ensures forall|t: TokenId| #[trigger] s.contains(t) ==> s[0] == t || s.drop_first().contains(t)
{
    assert forall|t: TokenId| #[trigger] s.contains(t) implies s[0] == t || s.drop_first().contains(t) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == t;
        if i > 0 { assert(s.drop_first()[i - 1] == t); }
    }
}
proof fn lemma_among_refs(s: Seq<TokenId>)
    ensures forall|t: TokenId| #![trigger s.contains(t)] #![trigger among(refs(s), t)] s.contains(t) == among(refs(s), t)
{
    assert forall|t: TokenId| #![trigger s.contains(t)] #![trigger among(refs(s), t)] s.contains(t) == among(refs(s), t) by {
        if s.contains(t) { let i = choose|i: int| 0 <= i < s.len() && s[i] == t; assert(*refs(s)[i] == t); }
        if among(refs(s), t) { let i = choose|i: int| 0 <= i < refs(s).len() && *(#[trigger] refs(s)[i]) == t; assert(s[i] == t); }
    }
}
/// in the midst of a selection that began with o: what is owed is owed still, but of the assets in done nothing is left over
pub closed spec fn going(o: Thermostat, n: Thermostat, rest: UTxOStore) -> bool { n.at_work(rest) && o.conserves(n) }
proof fn lemma_took_going(o: Thermostat, m: Thermostat, n: Thermostat, r1: UTxOStore, r2: UTxOStore, asset: TokenId)
    requires going(o, m, r1), took_some(m, n, r1, r2, asset)
    ensures
        going(o, n, r2),
        forall|t: TokenId| #[trigger] signed(n.asset_balance@, t) >= signed(m.asset_balance@, t),
        forall|t: TokenId| t != asset ==> #[trigger] signed(n.asset_balance@, t) == signed(m.asset_balance@, t),
        n.asset_balance@.dom() == m.asset_balance@.dom(), n.config == m.config,
{ assert forall|w: What| #[trigger] n.surplus(w) == o.surplus(w) by { assert(m.surplus(w) == o.surplus(w)); } }
proof fn lemma_moved_going(o: Thermostat, m: Thermostat, n: Thermostat, rest: UTxOStore)
    requires going(o, m, rest), moved(m, n)
    ensures going(o, n, rest), n.asset_balance@.dom() == m.asset_balance@.dom(), n.config == m.config
{ assert forall|w: What| #[trigger] n.surplus(w) == o.surplus(w) by { assert(m.surplus(w) == o.surplus(w)); } }
pub open spec fn nothing_left(m: Balances) -> bool { forall|t: TokenId| #[trigger] signed(m, t) == 0real }
impl Thermostat {
    /// ready to select
    pub closed spec fn ready(self) -> bool {
        self.ok() && self.available_utxos.wf() && held_ok(self.available_utxos.held()) && self.selected_inputs@.len() == 0
    }
    /// the selection is done
    pub closed spec fn selected(self, n: Thermostat) -> bool {
        going(self, Thermostat { available_utxos: self.available_utxos, ..n }, n.available_utxos) && nothing_left(n.asset_balance@)
    }
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | select
    //@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
    //@attr #[verifier::rlimit(100)]
    //@attr #[verifier::exec_allows_no_decreases_clause]
    //@attr #[verifier::loop_isolation(false)]
    //@use thermo
    //@rewrite self . asset_balance . keys ( ) . cloned ( ) . collect ( ) => self.asset_balance.key_list()
    //@rewrite for asset in & assets { $x~ } => for asset in assets.iter() { $x }
    //@rewrite for asset in assets { $x~ } => for asset in into_it(assets) { $x }
    //@rewrite . unwrap_or_else ( || $x ) ; => .unwrap();
    //@rewrite empty . iter ( ) . copied ( ) . all ( | b | b ) => all_true(&empty)
    //@desugar for.it
    //@spec
        requires old(self).ready()
        ensures r is Ok ==> old(self).selected(*final(self))
    //@hint start
        let ghost o = *self;
        let ghost dom = self.asset_balance@.dom();
    //@hint before-loop 0
        proof { lemma_among_refs(assets@); }
    //@loop 0
        invariant
            going(o, *self, utxos), self.asset_balance@.dom() == dom, self.config == o.config,
            forall|i: int| 0 <= i < __it0@.len() ==> dom.contains(*#[trigger] __it0@[i]),
            forall|t: TokenId| #[trigger] dom.contains(t) ==> signed(self.asset_balance@, t) == 0real || among(__it0@, t),
        decreases __it0@.len()
    //@hint loop-start 0
        let ghost (m, r1) = (*self, utxos);
        proof { if __it0@.len() > 0 { lemma_among(__it0@); } }
    //@hint after utxos = self . select_input_for_asset_until_balanced $x ;
        let ghost (m2, r2) = (*self, utxos);
        proof { lemma_took_going(o, m, *self, r1, utxos, *asset); }
    //@hint after self . balance_excess_of_asset ( & utxos , asset . clone ( ) , estimator ) ? ;
        proof { lemma_moved_going(o, m2, *self, utxos); }
    //@hint before utxos = self . select_input_for_main_until_balanced
        let ghost (m, r1) = (*self, utxos);
    //@hint after utxos = self . select_input_for_main_until_balanced $x ;
        proof { lemma_took_going(o, m, *self, r1, utxos, main_token()); }
    //@loop 1
        invariant
            going(o, *self, utxos), self.asset_balance@.dom() == dom, self.config == o.config, empty@.len() == assets@.len(), index < assets@.len(),
            forall|i: int| 0 <= i < assets@.len() ==> dom.contains(#[trigger] assets@[i]) || assets@[i] == main_token(),
            forall|t: TokenId| #[trigger] signed(self.asset_balance@, t) >= 0real,
    //@hint loop-start 1
        let ghost (m, r1) = (*self, utxos);
    //@hint after utxos = u ;
        proof { lemma_took_going(o, m, *self, r1, utxos, *asset); }
    //@loop 2
        invariant
            going(o, *self, utxos), self.asset_balance@.dom() == dom, self.config == o.config,
            forall|i: int| 0 <= i < __it1@.len() ==> dom.contains(#[trigger] __it1@[i]),
            forall|t: TokenId| #[trigger] signed(self.asset_balance@, t) >= 0real,
            forall|t: TokenId| #[trigger] dom.contains(t) ==> signed(self.asset_balance@, t) == 0real || __it1@.contains(t),
        decreases __it1@.len()
    //@hint loop-start 2
        let ghost m = *self;
        proof { if __it1@.len() > 0 { lemma_contains(__it1@); } }
    //@hint after self . balance_excess_of_asset ( & utxos , asset , estimator ) ? ;
        proof { lemma_moved_going(o, m, *self, utxos); }
    //@hint before self . balance_excess ( estimator ) ? ;
        let ghost m = *self;
    //@hint after self . balance_excess ( estimator ) ? ;
        let ghost m2 = *self;
        proof { lemma_moved_going(o, m, *self, utxos); }
    //@hint after self . split_accumulators ( & utxos , estimator ) ? ;
        proof { lemma_moved_going(o, m2, *self, utxos); }
    //@end
}
// ---- the result -----------------------------------------------------------------------------------
pub open spec fn outs_of(s: Seq<&UTxOBuilder>, w: What) -> real { match w { None => values_out(s), Some(t) => assets_out(s, t) } }
pub open spec fn ins_of(s: Seq<&UTxODetails>, w: What) -> real { match w { None => values_in(s), Some(t) => assets_in(s, t) } }
proof fn lemma_outs_cat(a: Seq<&UTxOBuilder>, b: Seq<&UTxOBuilder>, w: What)
    ensures outs_of(a + b, w) == outs_of(a, w) + outs_of(b, w)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_outs_cat(a.drop_first(), b, w); }
}
proof fn lemma_ins_cat(a: Seq<&UTxODetails>, b: Seq<&UTxODetails>, w: What)
    ensures ins_of(a + b, w) == ins_of(a, w) + ins_of(b, w)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_ins_cat(a.drop_first(), b, w); }
}
proof fn lemma_outs_refs(s: Seq<UTxOBuilder>, w: What)
    ensures outs_of(refs(s), w) == sum_out(s, w)
    decreases s.len()
{
    if s.len() > 0 {
        let l = seq![s.last()];
        lemma_outs_refs(s.drop_last(), w);
        lemma_outs_cat(refs(s.drop_last()), refs(l), w);
        assert(refs(s) =~= refs(s.drop_last()) + refs(l));
        assert(refs(l).drop_first() =~= Seq::empty());
        assert(outs_of(Seq::<&UTxOBuilder>::empty(), w) == 0real);
        assert(*refs(l)[0] == s.last());
    }
}
proof fn lemma_ins_refs(s: Seq<UTxODetails>, w: What)
    ensures ins_of(refs(s), w) == sum_in(s, w)
    decreases s.len()
{
    if s.len() > 0 {
        let l = seq![s.last()];
        lemma_ins_refs(s.drop_last(), w);
        lemma_ins_cat(refs(s.drop_last()), refs(l), w);
        assert(refs(s) =~= refs(s.drop_last()) + refs(l));
        assert(refs(l).drop_first() =~= Seq::empty());
        assert(ins_of(Seq::<&UTxODetails>::empty(), w) == 0real);
        assert(*refs(l)[0] == s.last());
    }
}
proof fn lemma_outs_held(m: Changes, ks: Seq<TokenId>, s: Seq<&UTxOBuilder>, w: What)
    requires lists_values(m, ks, s)
    ensures outs_of(s, w) == sum_held(m, w)
    decreases s.len()
{
    if s.len() == 0 {
        assert forall|k: TokenId| !m.contains_key(k) by { assert(ks.contains(k) == m.contains_key(k)); }
        assert(m.dom() =~= Set::empty());
    } else {
        let k = ks[0];
        let (n, kd, sd) = (m.remove(k), ks.drop_first(), s.drop_first());
        assert(m.contains_key(k));
        lemma_contains(ks);
        assert forall|i: int| 0 <= i < kd.len() implies n.contains_key(kd[i]) && *(#[trigger] sd[i]) == n[kd[i]] by { assert(kd[i] == ks[i + 1]); assert(*s[i + 1] == m[ks[i + 1]]); assert(ks[i + 1] != ks[0]); }
        assert forall|j: TokenId| kd.contains(j) <==> #[trigger] n.contains_key(j) by {
            assert(ks.contains(j) == m.contains_key(j));
            if kd.contains(j) { let i = choose|i: int| 0 <= i < kd.len() && kd[i] == j; assert(ks[i + 1] == j); assert(n.contains_key(kd[i])) by { assert(*sd[i] == n[kd[i]]); } }
        }
        assert(kd.no_duplicates());
        lemma_outs_held(n, kd, sd, w);
        lemma_held_remove(m, w, k);
        assert(*s[0] == m[k]);
    }
}
/// what a selection is given: the exact sums of its fixed inputs and outputs, none negative, and the main token not among the assets
pub open spec fn workable(s: Setup) -> bool {
    s.exact() && s.input_balance.val() >= 0real && s.output_balance.val() >= 0real && no_debts(s.input_asset_balance@) && no_debts(s.output_asset_balance@)
    && !s.input_asset_balance@.contains_key(main_token()) && !s.output_asset_balance@.contains_key(main_token())
}
/// the reported totals are the sums over what is reported
pub open spec fn exact_totals(x: Selected) -> bool {
    &&& x.input_balance.val() == values_in(x.ins()) && x.output_balance.val() == values_out(x.outs())
    &&& forall|t: TokenId| #[trigger] amount(x.input_asset_balance@, t) == assets_in(x.ins(), t)
    &&& forall|t: TokenId| #[trigger] amount(x.output_asset_balance@, t) == assets_out(x.outs(), t)
}
proof fn lemma_exact_balance(x: Selected)
    requires exact_totals(x), x.totals_balance()
    ensures x.entries_balance()
{
    assert forall|t: TokenId| #[trigger] x.left_over(t) == 0real by {
        lemma_coins_in(x.ins(), t);
        lemma_coins_out(x.outs(), t);
        assert(amount(x.input_asset_balance@, t) == amount(x.output_asset_balance@, t));
    }
}
impl Thermostat {
    /// as before a selection, with the same UTxOs, outputs and settings
    pub closed spec fn cleared(self, n: Thermostat) -> bool {
        &&& n.outputs == self.outputs && n.config == self.config && n.available_utxos == self.available_utxos && n.optional_change_address is None
        &&& n.changes@ == Map::<TokenId, UTxOBuilder>::empty() && n.extra_changes@.len() == 0 && n.selected_inputs@.len() == 0
        &&& n.balance.wf() && n.balance.val() == 0real && n.asset_balance@ == Map::<TokenId, Balance<Regulated>>::empty()
    }
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Thermostat | reset
    //@use thermo
    //@spec
        ensures old(self).cleared(*final(self))
    //@end
}
/// the tables of a setup, with nothing chosen yet
pub closed spec fn begun(n: Thermostat, s: Setup) -> bool {
    &&& n.changes@ == Map::<TokenId, UTxOBuilder>::empty() && n.extra_changes@.len() == 0 && n.selected_inputs@.len() == 0
    &&& n.balance.wf() && n.balance.val() == s.input_balance.val() - s.output_balance.val()
    &&& canonical(n.asset_balance@) && !n.asset_balance@.contains_key(main_token())
    &&& difference(n.asset_balance@, s.input_asset_balance@, s.output_asset_balance@)
}
pub open spec fn of_setup(s: Setup, w: What) -> real {
    match w { None => s.input_balance.val() - s.output_balance.val(), Some(t) => amount(s.input_asset_balance@, t) - amount(s.output_asset_balance@, t) }
}
proof fn lemma_begun(n: Thermostat, s: Setup)
    requires begun(n, s), n.config.ok(), n.available_utxos.wf(), held_ok(n.available_utxos.held())
    ensures n.ready(), forall|w: What| #[trigger] n.surplus(w) == of_setup(s, w)
{
    assert forall|w: What| #[trigger] n.surplus(w) == of_setup(s, w) by { lemma_held_none(w); }
}
/// what is known once the selection is done
pub open spec fn outcome(m: Held, n: Held, b: Balance<Regulated>, changes: Changes, extra: Seq<UTxOBuilder>, chosen: Seq<UTxODetails>, s: Setup) -> bool {
    &&& b.wf() && changes_ok(changes) && outputs_ok(extra) && picked(m, chosen) && left(n, m, chosen)
    &&& b.val() + sum_held(changes, None) + sum_out(extra, None) - sum_in(chosen, None) == of_setup(s, None)
    &&& forall|t: TokenId| #![trigger sum_held(changes, Some(t))] #![trigger sum_in(chosen, Some(t))] sum_held(changes, Some(t)) + sum_out(extra, Some(t)) - sum_in(chosen, Some(t)) == of_setup(s, Some(t))
}
proof fn lemma_outcome(o: Thermostat, n: Thermostat, s: Setup)
    requires begun(o, s), o.ready(), o.selected(n)
    ensures outcome(o.available_utxos.held(), n.available_utxos.held(), n.balance, n.changes@, n.extra_changes@, n.selected_inputs@, s), n.available_utxos.wf()
{
    lemma_begun(o, s);
    let k = Thermostat { available_utxos: o.available_utxos, ..n };
    assert(k.surplus(None) == o.surplus(None));
    assert forall|t: TokenId| #![trigger sum_held(n.changes@, Some(t))] #![trigger sum_in(n.selected_inputs@, Some(t))] sum_held(n.changes@, Some(t)) + sum_out(n.extra_changes@, Some(t)) - sum_in(n.selected_inputs@, Some(t)) == of_setup(s, Some(t)) by {
        assert(k.surplus(Some(t)) == o.surplus(Some(t)));
        assert(signed(n.asset_balance@, t) == 0real);
    }
}
/// the outputs of a result, in the order they are summed in
pub open spec fn listed_outs(s: Seq<&UTxOBuilder>, changes: Changes, extra: Seq<UTxOBuilder>, fixed: Seq<UTxOBuilder>) -> bool {
    exists|ks: Seq<TokenId>, vs: Seq<&UTxOBuilder>| #![trigger lists_values(changes, ks, vs)] lists_values(changes, ks, vs) && s == vs + refs(extra) + refs(fixed)
}
pub open spec fn listed_changes(s: Seq<UTxOBuilder>, changes: Changes, extra: Seq<UTxOBuilder>) -> bool {
    exists|ks: Seq<TokenId>, vs: Seq<&UTxOBuilder>| #![trigger lists_values(changes, ks, vs)] lists_values(changes, ks, vs) && refs(s) =~= vs + refs(extra)
}
/// the result of a selection that succeeds
pub open spec fn settled(x: Selected, s: Setup) -> bool {
    x.fixed_inputs == s.fixed_inputs && x.fixed_outputs == s.fixed_outputs && x.no_negative_totals() && x.totals_balance() && exact_totals(x) && outs_ok(refs(x.changes@))
}
proof fn lemma_settled(m: Held, n: Held, b: Balance<Regulated>, changes: Changes, extra: Seq<UTxOBuilder>, s: Setup, outs: Seq<&UTxOBuilder>)
    requires workable(s), held_ok(m), listed_outs(outs, changes, extra, s.fixed_outputs@)
    ensures forall|x: Selected| #![trigger settled(x, s)] outcome(m, n, b, changes, extra, x.chosen_inputs@, s) && x.fixed_inputs == s.fixed_inputs && x.fixed_outputs == s.fixed_outputs
        && x.input_balance.val() == values_in(refs(x.chosen_inputs@) + refs(s.fixed_inputs@)) && (forall|t: TokenId| #[trigger] amount(x.input_asset_balance@, t) == assets_in(refs(x.chosen_inputs@) + refs(s.fixed_inputs@), t))
        && x.output_balance.val() == values_out(outs) && (forall|t: TokenId| #[trigger] amount(x.output_asset_balance@, t) == assets_out(outs, t))
        && listed_changes(x.changes@, changes, extra) && x.fee.val() == b.val() && x.fee.val() >= 0real
        ==> settled(x, s)
{
    assert forall|x: Selected| #![trigger settled(x, s)] outcome(m, n, b, changes, extra, x.chosen_inputs@, s) && x.fixed_inputs == s.fixed_inputs && x.fixed_outputs == s.fixed_outputs
        && x.input_balance.val() == values_in(refs(x.chosen_inputs@) + refs(s.fixed_inputs@)) && (forall|t: TokenId| #[trigger] amount(x.input_asset_balance@, t) == assets_in(refs(x.chosen_inputs@) + refs(s.fixed_inputs@), t))
        && x.output_balance.val() == values_out(outs) && (forall|t: TokenId| #[trigger] amount(x.output_asset_balance@, t) == assets_out(outs, t))
        && listed_changes(x.changes@, changes, extra) && x.fee.val() == b.val() && x.fee.val() >= 0real
        implies settled(x, s) by
    {
        lemma_settle(m, n, b, changes, extra, s, outs, x);
    }
}
proof fn lemma_settle(m: Held, n: Held, b: Balance<Regulated>, changes: Changes, extra: Seq<UTxOBuilder>, s: Setup, outs: Seq<&UTxOBuilder>, x: Selected)
    requires workable(s), held_ok(m), listed_outs(outs, changes, extra, s.fixed_outputs@), outcome(m, n, b, changes, extra, x.chosen_inputs@, s), x.fixed_inputs == s.fixed_inputs, x.fixed_outputs == s.fixed_outputs,
        x.input_balance.val() == values_in(refs(x.chosen_inputs@) + refs(s.fixed_inputs@)), forall|t: TokenId| #[trigger] amount(x.input_asset_balance@, t) == assets_in(refs(x.chosen_inputs@) + refs(s.fixed_inputs@), t),
        x.output_balance.val() == values_out(outs), forall|t: TokenId| #[trigger] amount(x.output_asset_balance@, t) == assets_out(outs, t),
        listed_changes(x.changes@, changes, extra), x.fee.val() == b.val(), x.fee.val() >= 0real,
    ensures settled(x, s)
{
    let c = x.chosen_inputs@;
    let (ks, vs) = choose|ks: Seq<TokenId>, vs: Seq<&UTxOBuilder>| #![trigger lists_values(changes, ks, vs)] lists_values(changes, ks, vs) && outs == vs + refs(extra) + refs(s.fixed_outputs@);
    let (kc, vc) = choose|kc: Seq<TokenId>, vc: Seq<&UTxOBuilder>| #![trigger lists_values(changes, kc, vc)] lists_values(changes, kc, vc) && refs(x.changes@) == vc + refs(extra);
    // what is negative
    assert forall|i: int| 0 <= i < refs(x.changes@).len() implies out_ok(*#[trigger] refs(x.changes@)[i]) by {
        if i < vc.len() { assert(*vc[i] == changes[kc[i]]); assert(change_ok(kc[i], changes[kc[i]])); } else { assert(out_ok(extra[i - vc.len()])); }
    }
    assert forall|i: int| 0 <= i < c.len() implies utxo_ok(#[trigger] c[i]) by { assert(utxo_ok(*m[ptr(c[i])])); }
    // the sums
    assert forall|w: What| #![trigger ins_of(x.ins(), w)] #![trigger outs_of(x.outs(), w)]
        ins_of(x.ins(), w) == ins_of(refs(c) + refs(s.fixed_inputs@), w) && outs_of(x.outs(), w) == outs_of(outs, w)
        && ins_of(x.ins(), w) == sum_in(c, w) + ins_of(refs(s.fixed_inputs@), w) && outs_of(outs, w) == sum_held(changes, w) + sum_out(extra, w) + outs_of(refs(s.fixed_outputs@), w)
        && sum_in(c, w) >= 0real && sum_held(changes, w) + sum_out(extra, w) >= 0real by
    {
        let (fi, fo) = (refs(s.fixed_inputs@), refs(s.fixed_outputs@));
        lemma_ins_cat(refs(c), fi, w);
        lemma_ins_cat(fi, refs(c), w);
        lemma_ins_refs(c, w);
        lemma_outs_held(changes, ks, vs, w);
        lemma_outs_held(changes, kc, vc, w);
        lemma_outs_refs(extra, w);
        lemma_outs_cat(vs, refs(extra), w);
        lemma_outs_cat(vs + refs(extra), fo, w);
        lemma_outs_cat(vc, refs(extra), w);
        lemma_outs_cat(fo, refs(x.changes@), w);
        lemma_sum_in_ok(c, w);
        lemma_outs_ok(refs(x.changes@), w);
    }
    assert(ins_of(x.ins(), None) == values_in(x.ins()));
    assert(outs_of(x.outs(), None) == values_out(x.outs()));
    assert(outs_of(outs, None) == values_out(outs));
    assert forall|t: TokenId| #![trigger amount(x.input_asset_balance@, t)] #![trigger amount(x.output_asset_balance@, t)]
        amount(x.input_asset_balance@, t) == assets_in(x.ins(), t) && amount(x.output_asset_balance@, t) == assets_out(x.outs(), t)
        && amount(x.input_asset_balance@, t) >= 0real && amount(x.output_asset_balance@, t) >= 0real && amount(x.input_asset_balance@, t) == amount(x.output_asset_balance@, t) by
    {
        let w = Some(t);
        assert(ins_of(x.ins(), w) == assets_in(x.ins(), t));
        assert(outs_of(x.outs(), w) == assets_out(x.outs(), t));
        assert(outs_of(outs, w) == assets_out(outs, t));
        assert(sum_held(changes, w) + sum_out(extra, w) - sum_in(c, w) == of_setup(s, w));
        assert(amount(s.input_asset_balance@, t) == assets_in(refs(s.fixed_inputs@), t));
        assert(amount(s.output_asset_balance@, t) == assets_out(refs(s.fixed_outputs@), t));
    }
    assert forall|t: TokenId| #[trigger] x.input_asset_balance@.contains_key(t) implies x.input_asset_balance@[t].quantity.val() >= 0real by { assert(amount(x.input_asset_balance@, t) >= 0real); }
    assert forall|t: TokenId| #[trigger] x.output_asset_balance@.contains_key(t) implies x.output_asset_balance@[t].quantity.val() >= 0real by { assert(amount(x.output_asset_balance@, t) >= 0real); }
}
proof fn lemma_sum_in_ok(s: Seq<UTxODetails>, w: What)
    requires forall|i: int| 0 <= i < s.len() ==> utxo_ok(#[trigger] s[i])
    ensures sum_in(s, w) >= 0real
    decreases s.len()
{
    if s.len() > 0 {
        assert(utxo_ok(s[s.len() - 1]));
        if let Some(t) = w { lemma_listed_ok(refs(s.last().assets@), t); }
        lemma_sum_in_ok(s.drop_last(), w);
    }
}
proof fn lemma_outs_ok(s: Seq<&UTxOBuilder>, w: What)
    requires outs_ok(s)
    ensures outs_of(s, w) >= 0real
    decreases s.len()
{
    if s.len() > 0 {
        assert(out_ok(*s[0]));
        if let Some(t) = w { lemma_listed_ok(refs(s[0].assets@), t); }
        assert forall|i: int| 0 <= i < s.drop_first().len() implies out_ok(*#[trigger] s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_outs_ok(s.drop_first(), w);
    }
}

impl Thermostat {
    pub closed spec fn store(self) -> UTxOStore { self.available_utxos }
    pub closed spec fn settings(self) -> ThermostatAlgoConfig { self.config }
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl InputSelectionAlgorithm for Thermostat | select_inputs
    //@sig Estimate : TransactionFeeEstimator < InputUtxo = Self :: InputUtxo , OutputUtxo = Self :: OutputUtxo > , => Estimate: TransactionFeeEstimator
    //@sig InputOutputSetup < Self :: InputUtxo , Self :: OutputUtxo > => InputOutputSetup<UTxODetails, UTxOBuilder>
    //@sig InputSelectionResult < Self :: InputUtxo , Self :: OutputUtxo > => InputSelectionResult<UTxODetails, UTxOBuilder>
    //@attr #[verifier::rlimit(100)]
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@use thermo
    //@rewrite . or_insert_with ( Balance :: zero ) => .or_insert(Balance::<Regulated>::zero())
    //@rewrite . cloned ( ) . collect ( ) => .collect_cloned()
    //@rewrite Ok ( InputSelectionResult { $x } ) => let __r = InputSelectionResult { $x }; Ok(__r)
    //@desugar for.it
    //@spec
        requires old(self).settings().ok(), old(self).store().wf(), held_ok(old(self).store().held()), workable(input_output_setup)
        ensures r matches Ok(x) ==> {
            &&& settled(x, input_output_setup)
            &&& picked(old(self).store().held(), x.chosen_inputs@)
            &&& final(self).store().wf() && left(final(self).store().held(), old(self).store().held(), x.chosen_inputs@)
        }
    //@hint start
        let ghost s = input_output_setup;
        let ghost m = self.available_utxos.held();
        proof { lemma_steps(); lemma_named_step(); lemma_named(s.input_asset_balance@); lemma_named(s.output_asset_balance@); }
    //@hint before-loop 0
        let ghost a = *self;
    //@loop 0
        invariant_except_break
            *self == (Thermostat { asset_balance: self.asset_balance, ..a }), quantities_ok(__it0@), canonical(self.asset_balance@), !self.asset_balance@.contains_key(main_token()),
            forall|i: int| 0 <= i < __it0@.len() ==> s.input_asset_balance@.contains_key(*(#[trigger] __it0@[i]).0),
            forall|t: TokenId| #![trigger signed(self.asset_balance@, t)] #![trigger named(__it0@, t)] signed(self.asset_balance@, t) + named(__it0@, t) == amount(s.input_asset_balance@, t),
        ensures
            *self == (Thermostat { asset_balance: self.asset_balance, ..a }), canonical(self.asset_balance@), !self.asset_balance@.contains_key(main_token()),
            forall|t: TokenId| #[trigger] signed(self.asset_balance@, t) == amount(s.input_asset_balance@, t),
        decreases __it0@.len()
    //@loop 1
        invariant_except_break
            *self == (Thermostat { asset_balance: self.asset_balance, ..a }), quantities_ok(__it1@), canonical(self.asset_balance@), !self.asset_balance@.contains_key(main_token()),
            forall|i: int| 0 <= i < __it1@.len() ==> s.output_asset_balance@.contains_key(*(#[trigger] __it1@[i]).0),
            forall|t: TokenId| #![trigger signed(self.asset_balance@, t)] #![trigger named(__it1@, t)] signed(self.asset_balance@, t) - named(__it1@, t) == amount(s.input_asset_balance@, t) - amount(s.output_asset_balance@, t),
        ensures
            *self == (Thermostat { asset_balance: self.asset_balance, ..a }), canonical(self.asset_balance@), !self.asset_balance@.contains_key(main_token()),
            difference(self.asset_balance@, s.input_asset_balance@, s.output_asset_balance@),
        decreases __it1@.len()
    //@hint before self . select ( estimator ) ? ;
        let ghost b = *self;
        proof { lemma_begun(b, s); }
    //@hint after self . select ( estimator ) ? ;
        let ghost n = *self;
        proof { lemma_outcome(b, n, s); }
        let ghost ins = refs(n.selected_inputs@) + refs(s.fixed_inputs@);
    //@loop 2
        invariant_except_break *self == n, input_balance.val() + values_in(__it2@) == values_in(ins),
            forall|t: TokenId| #![trigger amount(input_asset_balance@, t)] #![trigger assets_in(__it2@, t)] amount(input_asset_balance@, t) + assets_in(__it2@, t) == assets_in(ins, t),
        ensures *self == n, input_balance.val() == values_in(ins), forall|t: TokenId| #[trigger] amount(input_asset_balance@, t) == assets_in(ins, t),
        decreases __it2@.len()
    //@loop 3
        invariant_except_break
            forall|t: TokenId| #![trigger amount(input_asset_balance@, t)] #![trigger listed(__it3@, t)] amount(input_asset_balance@, t) + listed(__it3@, t) + assets_in(__it2@, t) == assets_in(ins, t),
        ensures
            forall|t: TokenId| #![trigger amount(input_asset_balance@, t)] #![trigger assets_in(__it2@, t)] amount(input_asset_balance@, t) + assets_in(__it2@, t) == assets_in(ins, t),
        decreases __it3@.len()
    //@hint before-loop 4
        let ghost outs = __it4@;
        proof { assert(listed_outs(outs, n.changes@, n.extra_changes@, s.fixed_outputs@)); }
    //@loop 4
        invariant_except_break *self == n, output_balance.val() + values_out(__it4@) == values_out(outs),
            forall|t: TokenId| #![trigger amount(output_asset_balance@, t)] #![trigger assets_out(__it4@, t)] amount(output_asset_balance@, t) + assets_out(__it4@, t) == assets_out(outs, t),
        ensures *self == n, output_balance.val() == values_out(outs), forall|t: TokenId| #[trigger] amount(output_asset_balance@, t) == assets_out(outs, t),
        decreases __it4@.len()
    //@loop 5
        invariant_except_break
            forall|t: TokenId| #![trigger amount(output_asset_balance@, t)] #![trigger listed(__it5@, t)] amount(output_asset_balance@, t) + listed(__it5@, t) + assets_out(__it4@, t) == assets_out(outs, t),
        ensures
            forall|t: TokenId| #![trigger amount(output_asset_balance@, t)] #![trigger assets_out(__it4@, t)] amount(output_asset_balance@, t) + assets_out(__it4@, t) == assets_out(outs, t),
        decreases __it5@.len()
    //@hint before Ok ( __r )
        proof {
            lemma_settled(m, n.available_utxos.held(), n.balance, n.changes@, n.extra_changes@, s, outs);
            assert(__r.fee.val() == n.balance.val() && __r.fee.val() >= 0real);
            assert(outcome(m, n.available_utxos.held(), n.balance, n.changes@, n.extra_changes@, __r.chosen_inputs@, s));
            assert(listed_changes(__r.changes@, n.changes@, n.extra_changes@));
        }
    //@end
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl InputSelectionAlgorithm for Thermostat | set_available_inputs
    //@sig Vec < Self :: InputUtxo > => Vec<UTxODetails>
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@rewrite available_inputs . into_iter ( ) => into_it(available_inputs)
    //@desugar for.it
    //@spec
        requires forall|i: int| 0 <= i < available_inputs@.len() ==> plain(#[trigger] available_inputs@[i])
        ensures
            made_of(r is Ok, available_inputs@), final(self).settings() == old(self).settings(),
            r is Ok ==> final(self).store().wf() && holds_list(final(self).store().held(), available_inputs@),
            r is Err ==> *final(self) == *old(self),
    //@loop 0
        invariant_except_break ({ let n = available_inputs@.len() - __it0@.len(); utxos.wf() && 0 <= n && __it0@ == available_inputs@.skip(n) && holds_list(utxos.held(), available_inputs@.take(n)) })
        ensures utxos.wf() && holds_list(utxos.held(), available_inputs@)
        decreases __it0@.len()
    //@hint loop-start 0
        proof {
            let n = available_inputs@.len() - __it0@.len();
            if n < available_inputs@.len() { lemma_step(utxos.held(), available_inputs@, n); }
            assert(available_inputs@.take(available_inputs@.len() as int) =~= available_inputs@);
        }
    //@end
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl InputSelectionAlgorithm for Thermostat | available_inputs
    //@sig Vec < Self :: InputUtxo > => Vec<UTxODetails>
    //@rewrite | ( _ , utxo ) | utxo . as_ref ( ) . clone ( ) => |e: (&UtxoPointer, &Arc<UTxODetails>)| -> (r: UTxODetails) ensures r == **e.1 { (**e.1).clone() }
    //@rewrite . collect ( ) => .collect_vec()
    //@spec
        requires plain_held(self.store().held())
        ensures holds_list(self.store().held(), r@)
    //@hint start
        proof { lemma_listing(self.available_utxos.held()); }
    //@end
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl UTxOStoreSupport for Thermostat | set_available_utxos
    //@spec
        ensures r is Ok, final(self).store() == utxos, final(self).settings() == old(self).settings()
    //@end
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl UTxOStoreSupport for Thermostat | get_available_utxos
    //@spec
        ensures *final(self) == *old(self), r matches Ok(s) && s.held() == old(self).store().held()
    //@end
}
impl ThermostatAlgoConfig {
    //@fn utxo-selection/src/algorithms/thermostat.rs | impl Default for ThermostatAlgoConfig | default
    //@rewrite Value :: < Regulated > :: from ( $x ) => Value::<Regulated>::from_u64($x)
    //@spec
        ensures r.ok()
    //@end
}
