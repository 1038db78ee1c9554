"""What decides each property: Verus units, harness, budgets (seconds), assumptions."""
REG = {}
REG["D01"] = dict(units=["d01.rs"], harness="h-cardano", level="proof", quick=5, thorough=60,
    bounded="the executable contract on generated eras and slots (validation only; the proof decides)",
    assumptions=["values whose exact result does not fit in 64 bits are outside the property (precondition)"])

REG["D02"] = dict(units=["d02.rs"], harness="h-cardano", level="proof", quick=5, thorough=60,
    bounded="the executable contract on generated policy ids and names, plus three CIP-14 vectors (validates the assumed contracts of hex, Blake2b and the padding format)",
    assumptions=["hex::decode_to_slice, hex::encode, cryptoxide Blake2b and the format string {:0<64} satisfy the contracts stated in verus/d02.rs", "the bech32 rendering of the hash is not in the code under test (only in its tests)"])
REG["D03"] = dict(units=["d03.rs"], harness="h-cardano", level="proof", quick=5, thorough=60,
    bounded="the executable contract on generated points (validates the assumed contracts of cardano-sdk)",
    assumptions=["cardano-sdk's Point::from_raw, hash, slot_nb and HeaderHash's text form satisfy the contracts stated in verus/d03.rs", "a BlockId is identified with the text it wraps; `.into()` on a SlotNumber resolves to its From implementation"])

REG["D04"] = dict(units=["d04.rs"], harness="h-source", level="proof", quick=5, thorough=60,
    bounded="the executable contract on generated events (validation only; the proof decides)",
    assumptions=["making the event from a block's bytes (BlockEvent::from_serialized_block) is B03's"])

CMLS = "cardano-multiplatform-lib (not available here) is as stated in verus/inc/%s: %s"
REG["D06"] = dict(units=["d06.rs"], harness="h-fees", level="proof", quick=5, thorough=60,
    bounded="the executable contract on generated plans read from files, run with a stand-in for cardano-multiplatform-lib (harness/cml-stub)",
    assumptions=[CMLS % ("multisig.rs", "scripts are what they are made of, their hash has 28 bytes, an enterprise address is made of a network and a hash"), "reading a plan from its file (serde's derive and serde_json in MultisigPlan::load) is checked by the harness only; hex::decode and String's Deserialize are as documented", "anyhow's context changes nothing but an error's text"])
DEC = "bigdecimal's operations are exact as stated in verus/inc/decimal.rs and decimal_ops.rs (numbers as mathematical reals)"
REG["D05"] = dict(units=["d05.rs"], harness="h-fees", level="proof", quick=6, thorough=90, not_fns=["fingerprint"],
    bounded="the executable contract on generated UTxOs, run with a stand-in for cardano-multiplatform-lib (harness/cml-stub)",
    assumptions=[DEC, CMLS % ("cml_values.rs", "amounts are 64-bit numbers, ids and names byte strings (AssetName::to_bytes gives the name's encoding, name() its bytes), multi-assets maps, inputs and outputs records; bech32 texts stand for addresses"),
        "hex reads back what it writes; serde's derive for CardanoUTxOExtra reads back what it writes (checked by the harness); std's HashMap is a mathematical map", "an amount without a fraction is written as its digits (C05); a token id is its text",
        "the body of multiasset_iter is put where it is called, and the closure's body where that calls it"])
REG["C01"] = dict(units=["c01.rs"], harness="h-core", level="proof", quick=4, thorough=60,
    bounded="the executable contract on generated pairs (validation only; the proof decides)",
    assumptions=["derive(PartialEq, Eq, PartialOrd, Ord) on a one-field struct compares that field (checked by the harness)"])
REG["C02"] = dict(units=["c02.rs"], harness="h-core", level="proof", quick=6, thorough=90,
    bounded="the executable contract on generated values, texts and JSON (validates the assumed contracts of u64's text form, serde and serde_json)",
    assumptions=["u64's Display and FromStr are inverse; serde_json hands unsigned integers to visit_u64, strings to visit_str and refuses the rest; SystemTime + Duration is exact while representable", "serde(transparent) derives are serde's (checked by the harness)"])
REG["C09"] = dict(units=["c09.rs"], harness="h-core", level="proof", quick=6, thorough=60,
    bounded="the executable contract on generated texts (validates the assumed contracts of Cow and str; the derived comparison, hashing and JSON forms are decided here only)",
    assumptions=["Cow<'static, str> holds the text it is made from; str::starts_with, as_bytes and to_owned, and Display of text and numbers without width, are std's", "derive(PartialEq, Ord, Hash, Serialize, Deserialize) act on the wrapped text (checked by the harness)"])
REG["C03"] = dict(units=["c03.rs"], harness="h-core", level="proof", quick=6, thorough=90,
    bounded="the executable contract on generated amounts (validates the assumed contracts of bigdecimal)", assumptions=[DEC])
REG["C04"] = dict(units=["c04.rs"], harness="h-core", level="proof", quick=6, thorough=90,
    bounded="the executable contract on generated amounts (validates the assumed contracts of bigdecimal)",
    assumptions=[DEC, "an iterator of amounts is the vector it yields, and `.map(f).sum()` is the loop over it", "bigdecimal feeds equal hasher input for equal numbers and its integer conversions cut the fraction (validated)", "division is not in the property"])
REG["C05"] = dict(units=["c05.rs"], harness="h-core", level="proof", quick=6, thorough=90,
    bounded="the executable contract on generated texts for all eight currencies (validates the assumed contracts of bigdecimal's text form and serde)",
    assumptions=[DEC, "bigdecimal's FromStr reads the number written and its Display writes a text that reads back as an equal number with no more decimals; serde_json's treatment of a newtype struct, strings and integers as stated in verus/c05.rs"])
REG["C06"] = dict(units=["c06.rs"], harness="h-core", level="proof", quick=6, thorough=90,
    bounded="the executable contract on generated operation sequences (validates the assumed contracts of bigdecimal)", assumptions=[DEC])

IMBL = "imbl::HashMap, std::collections::BTreeMap, their entry APIs and iterators are mathematical maps and sequences as stated in verus/inc/maps.rs, bmap.rs and iters.rs; identifier equality is text equality; Arc::new and derive(Clone, Default) are transparent"
REG["C07"] = dict(units=["c07.rs"], harness="h-core", level="proof", quick=8, thorough=120,
    bounded="the executable contract on generated histories against a plain list of UTxOs (validates the assumed contracts of the maps and iterators)",
    assumptions=[DEC, IMBL, "UTxOs list each asset at most once and not the main token (precondition)"])
REG["C08"] = dict(units=["c07.rs"], harness="h-core", level="proof", quick=8, thorough=120, fns=["insert", "remove", "thaw", "freeze", "clone", "default", "new"],
    bounded="the executable contract on generated histories over several copies of a store (validates that the maps have value semantics)",
    assumptions=[DEC, IMBL, "independence of copies is the value semantics of imbl's persistent maps, assumed in the proof and exercised by the harness"])

REG["F04"] = dict(units=["f04.rs"], harness="h-fraos", level="proof", quick=10, thorough=90,
    bounded="the executable contract on generated files and ranges (validates the assumed contracts of the map and of RangeBounds)",
    assumptions=["memmap2::Mmap is an immutable byte sequence and pointer::add / slice::from_raw_parts behave as stated in verus/f04.rs (their safety conditions are obligations, discharged)", "std::ops::RangeBounds is its two bounds; Arc and derive(Clone) are transparent; that no write happens inside a region already handed out is F03's append discipline"])

FR = ["files, memory maps and OpenOptions behave as stated in verus/inc/files.rs and view.rs: a map shows its file's bytes, what is flushed is in the file, a file opened read-only cannot be mapped for writing; that every map lies inside its file is an obligation, discharged",
      "the RwLock, Mutex, atomic length, UnsafeCell and Arc are erased: each operation is one critical section on one store (interleavings are F05's)",
      "I/O errors end the history: after an operation that reported one, nothing is promised",
      "contents stay below the size of the address space (precondition); usize is 64 bits",
      "Vec::binary_search, iterators, copy_from_slice, Write for &mut [u8], to_vec and usize's little-endian bytes as stated in verus/inc/chunks.rs, iters.rs, files.rs, store.rs"]
REG["F01"] = dict(units=["fraos.rs"], harness="h-fraos", level="proof", quick=12, thorough=180,
    not_fns=["find_actual_end", "shrink_to_size", "drop", "SeqNoIndex :: new", "file_inner", "Database :: file", "is_correct"],
    bounded="the executable contract on generated histories (validates the assumed contracts of files, maps and std)", assumptions=FR)
REG["F02"] = dict(units=["fraos.rs"], harness="h-fraos", level="proof", quick=12, thorough=180, not_fns=["SeqNoIter ", "iter_from_seqno"],
    bounded="the executable contract on generated histories with reopening, padding and closing of handles (validates the assumed contracts of files, maps and std)",
    assumptions=FR + ["a crash is a stop between operations: what was flushed is in the file, and the file's length is the last one set"])
REG["F03"] = dict(units=["fraos.rs"], harness="h-fraos", level="proof", quick=12, thorough=180, not_fns=["find_actual_end", "shrink_to_size", "drop", "SeqNoIter ", "iter_from_seqno"],
    bounded="the executable contract on generated histories with refused appends (validates the assumed contracts of files, maps and std)", assumptions=FR)

REG["F05"] = dict(units=["f05.rs"], harness="h-fraos", level="proof", quick=15, thorough=240,
    bounded="the executable contract on generated plans run by real threads: writers and readers on clones of one store (schedules as the machine gives them; validates the assumed step of other threads)",
    assumptions=[FR[0], FR[2], FR[4],
      "rely-guarantee: what other threads do before a thread's next look is any growth that leaves the store sound (Database::step, SeqNoIter::step, Database::take_lock are assumed; that this code's own changes are only such growth, made one by one under the write lock, and that each look is one critical section, are obligations, discharged)",
      "std's RwLock, Mutex and SeqCst atomics are mutually exclusive and sequentially consistent; a Mutex's next holder sees what the last one left; guards live to the end of their scope, or to an explicit drop",
      "UnsafeCell in Appender: the two `&mut` it hands out at a time are used through &self methods only (aliasing rules of unsafe Rust are not checked)",
      "the derived Clone of the handles shares the files and the lock (Arc); files stay under 2^60 bytes"])

REG["L01"] = dict(units=["l01.rs"], harness="h-fraos", level="proof", quick=12, thorough=180, fns=["IndexedLogMap", "get_next"],
    bounded="the executable contract on generated histories with reopening (validates the assumed contracts of sled, the encodings, files and std)",
    assumptions=FR + ["sled's database is a map from bytes to bytes whose contents survive reopening", "an encoded key, value (CBOR) or position (JSON) reads back as what was encoded, and no CBOR encoding is empty; keys are the same when their encodings are", "an insertion that returns an error is no insertion (nothing is claimed about later reads if sled itself fails half way)"])

SEL = "std::collections::HashMap, its entry API, Vec and their iterators are mathematical maps and sequences as stated in verus/inc/maps.rs and iters.rs; derive(Clone) is transparent; identifier equality is text equality"
REG["U04"] = dict(units=["u04.rs"], harness="h-utxo", level="proof", quick=10, thorough=120,
    bounded="the executable contract on generated selections (validates the assumed contracts of the maps, iterators and bigdecimal)",
    assumptions=[DEC, SEL, "amounts, reported totals and fees are not negative (precondition of Balance's operators)"])

PICK = "a fee estimator's answers depend only on what it was told so far, its fees are not negative and its errors are told apart from the selection's own (verus/inc/estimator.rs)"
SETUP = "setups carry no negative amounts, keep each asset under its own name and no asset named as the main token; available UTxOs carry no negative amounts and list each asset once (precondition)"
REG["U01"] = dict(units=["u01.rs"], harness="h-utxo", level="proof", quick=10, thorough=120, fns=["LargestFirst", "select_", "calculate_main_token_balance"],
    bounded="the executable contract on generated stores, setups and estimators (validates the assumed contracts of the maps, iterators and bigdecimal)",
    assumptions=[DEC, SEL, PICK, SETUP])

REG["U02"] = dict(units=["u02.rs"], harness="h-utxo", level="proof", quick=10, thorough=120,
    bounded="the executable contract on generated setups and estimators (validates the assumed contracts of the maps, iterators and bigdecimal)",
    assumptions=[DEC, SEL, "a fee estimator's fees are not negative (verus/inc/estimator.rs); setups carry no negative amounts and keep each asset under its own name (precondition)"])

REG["U05"] = dict(units=["u05.rs"], harness="h-utxo", level="proof", quick=10, thorough=120, fns=["RandomImprove", "select_input_and_update_balances", "distance", "calculate_main_token_balance", "lemma_"],
    bounded="the executable contract on generated UTxOs, setups and estimators (validates the assumed contracts of the sets, iterators and bigdecimal)",
    assumptions=[DEC, SEL, PICK, "setups carry the exact sums of their fixed inputs and outputs, no negative amounts, and keep each asset under its own name; available UTxOs carry no negative amounts; UTxOs and outputs list each asset once (precondition)",
        "the random source is any source of numbers below the bound asked for (every outcome is covered)", "std's BTreeSet, HashSet, filter, filter_map, enumerate, nth, sort, sort_by_key and mem::swap are as stated in verus/inc/random_std.rs; a loop over iter_mut() moves each element out for the body and in again after it"])

REG["U06"] = dict(units=["u06.rs"], harness="h-fees", level="proof", quick=8, thorough=90, fns=["ThermostatFeeEstimator", "CmlFeeEstimator", "DummyFeeEstimate", "NetworkInfo", "output_to_builder_result", "from_str", "lemma_enough", "lemma_price"],
    bounded="the executable contract on generated histories, run with a stand-in for cardano-multiplatform-lib (harness/cml-stub)",
    assumptions=[DEC, "cardano-multiplatform-lib (not available here): BigNum is a 64-bit number written in decimal with checked arithmetic, LinearFee keeps its two numbers, a witness set's bytes are those of its scripts, the transaction builder answers for what it was given (verus/inc/cml.rs, fee_others.rs); conversions of inputs and outputs to its types, the script of a plan and min_pure_ada are functions of their arguments",
        "a network's settings are 64-bit numbers and its prices stay below 2^64; sizes stay below 2^64 (assumed where sizes are added); no negative amounts (precondition)", "an estimator is only made by its constructor and changed by its own functions (its fields are private), so the invariant they keep holds of every estimator"])

REG["U03"] = dict(units=["u03.rs"], harness="h-utxo", level="proof", quick=12, thorough=180, fns=["Thermostat", "lemma_", "change_ok", "balance_excess", "split_accumulators", "select", "current_balance", "add_input", "reset"],
    bounded="the executable contract on generated stores, setups, settings and estimators (validates the assumed contracts of the maps, iterators and bigdecimal)",
    assumptions=[DEC, SEL, PICK, "setups carry the exact sums of their fixed inputs and outputs, no negative amounts, and do not list the main token as an asset; UTxOs list each asset once and never the main token; the thermostat's settings name the default main token and 0 <= min <= max (precondition; its default settings are proved to)",
        "halving an amount of the sizes in use is exact; other divisions and the number of further inputs allowed (remaining_number_inputs_allowed) may be anything", "iter_mut() over a map visits each of its entries once; a panic gives no result (verus/inc/thermo_std.rs)"])

MV = ["std's Arc/Weak, HashMap, HashSet, BTreeMap and their entry APIs are mathematical maps and sets as stated in verus/inc/mv_std.rs; a weak reference upgrades while the map it is looked up in holds the key it was made from",
    "sled's tree is a map from bytes to bytes iterated in the byte order of its keys; an operation that fails made its change or did not; opening a tree of an open database does not fail (verus/inc/mv_db.rs)",
    "a block reads back from its JSON text; identifiers' bytes tell them apart and their own equality and hash are those of their value; an identifier always names the same block",
    "tracing calls are dropped; assert! is an obligation"]
for _p, _f, _n in [("M01", None, ["ancestor", "select_best", "prefer", "DepthOrdered", "iter", "traverse", "load_from", "open", "mk_sled_key", "lemma_order", "lemma_reopened", "lemma_read"]),
        ("M02", ["ancestor", "select_best", "BestBlock", "saturating_sub"], []), ("M03", ["prefer", "DepthOrdered", "iter", "traverse"], []),
        ("M04", ["load_from", "open", "db_insert", "db_remove", "new_with", "mk_sled_key", "insert", "remove", "lemma"], [])]:
    REG[_p] = dict(units=["m01.rs"], harness="h-multiverse", level="proof", quick=12, thorough=180, not_fns=_n, assumptions=MV,
        bounded="the executable contract on generated histories with reopening (validates the assumed contracts of sled, serde and std)", **(dict(fns=_f) if _f else {}))

SRC = MV + ["the peer answers with its tip, nothing, an error, or a block whose identifier names it, whose place is known and whose parent is further back on the chain (no cycles); it is asked through the source's `pull`",
    "one consumer at a time: it begins with an empty multiverse or stands at the last block the multiverse visits (the one the source asks for), and handles each event before pulling the next",
    "an error of the multiverse's storage ends the history", "async/await is erased (a pull is one call), tracing is dropped, anyhow's errors carry only whether they come from storage",
    "std's HashSet of places or references, Iterator and Option adapters as stated in verus/inc/src_std.rs"]
REG["B01"] = dict(units=["b01.rs"], harness="h-source", level="proof", quick=12, thorough=180, fns=["ForkHandlingSource", "multiverse_insert_and_gc", "DepthOrderedIterator :: last"],
    bounded="the executable contract on generated histories of a scripted peer (validates the assumed contracts of the peer, sled, serde and std)", assumptions=SRC)
REG["B02"] = dict(units=["b01.rs"], harness="h-source", level="proof", quick=12, thorough=180, fns=["MultiverseSource", "multiverse_insert_and_gc"],
    bounded="the executable contract on generated histories of a scripted peer (validates the assumed contracts of the peer, sled, serde and std)",
    assumptions=SRC + ["that confirmed blocks form one chain is for histories whose forks stay shallower than the confirmation depth, whose block numbers are consecutive along the chain and whose blocks reach the peer's after their parents (lemma in_order)"])
REG["B03"] = dict(units=["b03.rs"], harness="h-network", level="proof", quick=12, thorough=180, fns=["CardanoSource", "request_handler", "block_fetch", "BlockEvent", "get_parent_id"],
    bounded="the executable contract on generated histories of a scripted peer, run with stand-ins for cardano-net and cardano-multiplatform-lib (harness/peer-stub)",
    assumptions=["cardano-net and tokio (verus/inc/peer.rs): intersect and request_range ask what they are told and hand on the peer's answer, a fetcher gives the blocks of the batch in order and each once and leaves the conversation idle after the last, a channel's messages come out in order and each once; request_range is only allowed on an idle conversation",
        "cardano-multiplatform-lib (not available here): what a block's bytes say is a function of the bytes, and every block the peer sends can be read (the code panics otherwise)",
        "async code is verified as if it were sequential: each function awaits what it calls, and shares nothing but the channels", "std's sort_by_key sorts stably; the machine's clock started earlier than the tip update pace",
        "Point's conversion to the protocol's form is D03's, Era's count of epochs is D01's"])

for _p, _h in dict(F01="h-fraos", F02="h-fraos", F03="h-fraos", F04="h-fraos", L01="h-fraos", M01="h-multiverse", M02="h-multiverse", M03="h-multiverse", M04="h-multiverse", U01="h-utxo", U02="h-utxo", U04="h-utxo", U05="h-utxo").items():
    REG.setdefault(_p, dict(units=[], harness=_h, level="exploration", quick=12, thorough=180, bounded="the executable contract on generated histories", explanation="not yet under contract: bounded stand-in only", assumptions=[]))

NOT_APPLICABLE = {}
