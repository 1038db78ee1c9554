#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that it can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, obs, hook=False):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=state, meaning=state, where=files[0])], mechanism=[dict(name=mech, where=files[0])], observe_at=[obs], hook_needed=None)))

p("F01", "A record store returns exactly the records appended, in order, forever",
  "After any sequence of successful single and batch appends to a sequence-number store, the number of records equals the number appended, record i reads back byte for byte as the i-th appended record, reading past the end gives nothing, the last record is the last appended, and iterating from any position yields exactly the records from there on, in order. Later appends, including ones that make the files grow and be remapped, never change a record already appended or a slice already handed out. This holds for records of any non-zero size, including ones far larger than the initial mapping.",
  ["inputs", "histories"], "all sequences of appends and batch appends of non-empty records, all record sizes, all read positions",
  "tests append a handful of records of a few sizes; growth and chunk-boundary arithmetic depends on the exact sizes and on the history of remaps",
  ["fraos/src/seqno.rs", "fraos/src/database.rs", "fraos/src/growable_mmap.rs", "fraos/src/index_on_mmaps.rs", "fraos/src/appender.rs", "fraos/src/seqno_iter.rs", "fraos/src/flatfile.rs"],
  "the bounds of each mapped chunk, the chunk index and the (offset, length) records of the position index",
  "SeqNoIndexedDatabase::append/append_multiple -> Appender/GrowableMmap::append -> MmapChunkAddressMapper; get_by_seqno -> SeqNoIndex::get_pointer_to -> GrowableMmap::get",
  "SeqNoIndexedDatabase::{append, append_multiple, get_by_seqno, len, last, iter, iter_from_seqno}")
p("F02", "Reopening a record store recovers exactly the committed records",
  "Opening a store's directory again, after a clean close or with the files exactly as they were left when the process stopped between operations, yields the same records in the same order, and further appends continue after them. Index files padded with any number of unused (zero) entries are recognised as such, so that no record is lost, invented or shifted; data bytes that were written but never indexed are ignored. Closing any of several handles on the same store loses nothing that any handle has appended or later appends.",
  ["crash_points", "histories", "inputs"], "all append histories, all positions at which the process stops between operations, all amounts of trailing unused space, all subsets of handles closed",
  "tests reopen after one or two clean shutdowns; the end-of-data search and the shrink on close depend on the content and padding of the files",
  ["fraos/src/seqno.rs", "fraos/src/database.rs", "fraos/src/growable_mmap.rs"],
  "the actual end of the index and data files, file length at close and open",
  "SeqNoIndex::find_actual_end, GrowableMmap::new with an existing length, Database::new, Drop for Database/GrowableMmap::shrink",
  "SeqNoIndexedDatabase::new followed by get_by_seqno/len/iter")
p("F03", "A refused append leaves the record store exactly as it was",
  "An append that returns an error (an empty record, a batch containing an empty record, or any append to a read-only store) leaves the number of records and every record unchanged, in memory and after reopening, and the next successful append gets the position it would have got without the refused one. A batch append is all or nothing: either all of its records become visible in order at consecutive positions or none does.",
  ["inputs", "histories"], "all interleavings of valid appends, valid batches, refused appends and refused batches with the empty record at any position",
  "tests check one refused append each, not refused appends inside arbitrary histories followed by more appends and a reopen",
  ["fraos/src/seqno.rs", "fraos/src/database.rs", "fraos/src/appender.rs"],
  "the write position of the data and index files",
  "SeqNoIndexedDatabase::append_multiple, SeqNoIndex::append/append_multiple validation, Appender commit",
  "SeqNoIndexedDatabase::{append, append_multiple} results, len and get_by_seqno afterwards")
p("F04", "A sub-range of a shared memory view is exactly that range or nothing",
  "Taking a sub-range, given by any combination of included, excluded and open ends, of a shared view over mapped memory yields exactly the bytes of the view whose positions lie in the range: the part of the range inside the view, and nothing when there is none. It never panics, and never exposes bytes outside the view it was taken from, also for sub-ranges of sub-ranges.",
  ["inputs"], "all view lengths, all start and end bounds of the three kinds over the whole machine range, nested to any depth",
  "tests try a few ranges; the boundary arithmetic (excluded start, included end, overflow) has corner values at both ends of the machine range",
  ["fraos/src/shared_mmap.rs"], "offset and length of a view", "SharedMmap::get_sub_range / range normalisation", "SharedMmap::{get_sub_range, as_ref, len}")
p("F05", "Concurrent readers see only whole records while appends run",
  "While threads append to and read from clones of one store (and no I/O error occurs): whatever a reader obtains by position, as the last record, or by iterating is, complete and unaltered, the record that has that position from then on; a reader finds every record whose append had returned and every record that a length it saw covers; lengths never shrink; the records of an append have consecutive positions from the one it returned, and no two appends get the same position.",
  ["schedules"], "all interleavings of appenders and readers on clones of one store",
  "tests run few schedules; the window between publishing a length and its bytes is narrow",
  ["fraos/src/database.rs", "fraos/src/growable_mmap.rs", "fraos/src/appender.rs", "fraos/src/seqno.rs", "fraos/src/seqno_iter.rs"], "write lock, mapped-region lock, published lengths",
  "Database::append_get_seqno holding write_lock; GrowableMmap's RwLock; Appender's atomic length", "fraos::Database clones and SeqNoIter used from several threads")

p("L01", "A log map returns the latest value per key and the whole history in order",
  "After any sequence of insertions, looking a key up returns the most recently inserted value for that key or nothing if there is none; full iteration yields every insertion ever made, in order; iterating from a key yields exactly the insertions from that key's latest one onwards; and asking for the first item, or for the item following a key's latest one, agrees with that history. The last inserted pair and the containment test agree with the same history, and all of it is the same after the map is closed and opened again.",
  ["histories", "inputs"], "all insertion histories with repeated keys, all keys and positions, across reopenings",
  "tests insert a few distinct keys; re-insertion of keys, batches with repeats and reopen after re-insertion are not sampled",
  ["indexed-log-map/src/storage.rs"], "the key to position index and the underlying append-only log",
  "IndexedLogMap::append updates the index after the append; get/iter_from/get_next read through it; the index is rebuilt at open",
  "IndexedLogMap::{append, get, last, contains, iter, iter_from, is_empty}, get_next")

p("M01", "Tips, roots and membership of a multiverse match its blocks and parent links",
  "After any sequence of insertions and removals, a block is a member iff it was inserted and not removed since; the tips are exactly the member blocks that are not the parent of a member block, and the roots exactly the member blocks whose parent is not a member (parents counting as linked when they were members at the time the child was inserted and have not been removed since). Every member is returned by lookup with the value it was inserted with; removing a block that is not there changes nothing, and no operation panics. (An identifier is assumed always to name the same block.)",
  ["histories"], "all histories of insertions and removals over any block graph, in any order, with handles to removed blocks kept or dropped",
  "tests build two or three fixed trees; consistency must survive arbitrary interleavings of insertions and removals, including removal of inner blocks and re-insertion",
  ["multiverse/src/lib.rs", "multiverse/src/entry.rs"], "the entry table, parent and children links, ordered index, tips and roots",
  "Multiverse::insert, insert_in_memory, remove and the EntryRef/EntryWeakRef link maintenance", "Multiverse::{insert, remove, tips, contains, get, len, is_empty} and ancestor links through select_best_block")
p("M02", "Best-block selection picks the depth-th ancestor and lists exactly stale blocks",
  "Selecting the best block starts from a block with the highest number and follows parent links the configured number of times; it selects the block reached, or nothing when the chain is shorter than that. The blocks reported for discarding are exactly those whose number lies below the selected block's number minus the configured age gap (never below zero), and the selected block is never among them.",
  ["histories", "inputs"], "all block graphs reachable by insertions and removals, all depths and age gaps",
  "tests use a few fixed chains and the default depth",
  ["multiverse/src/lib.rs", "multiverse/src/variant.rs", "multiverse/src/entry.rs"], "ordered index by number, parent links",
  "Multiverse::select_best_block, ancestor with BestBlockSelectionRule::LongestChain", "Multiverse::select_best_block result")
p("M03", "Fork choice picks a highest tip; traversal visits each block once in order",
  "The preferred fork's tip is a current tip and no tip has a higher number, so that no block has where numbers grow along the links. Iterating over the multiverse visits every member block exactly once, in non-decreasing order of block number.",
  ["histories"], "all block graphs reachable by insertions and removals",
  "tests check one tree; ties, gaps in numbering and removed blocks are not sampled",
  ["multiverse/src/lib.rs", "multiverse/src/visitor/depth_ordered.rs"], "ordered index by number", "Multiverse::preferred_fork_tip, DepthOrderedIterator", "Multiverse::{preferred_fork_tip, iter}")
p("M04", "Reopening a multiverse restores the same blocks, links, tips and roots",
  "When blocks were inserted parent before child and number upwards along the links, opening a persisted multiverse again gives the same members with the same values, links, tips and best-block selection as before it was closed, whatever removals took place. A multiverse that stores only from a given block number on restores exactly the members with at least that number, and removed blocks never come back.",
  ["histories", "crash_points"], "all insertion and removal histories in which parents precede children, all starting block numbers",
  "tests reopen one tree; ordering of stored keys depends on the byte encoding of the number for every number",
  ["multiverse/src/lib.rs"], "stored key (big-endian number then identifier) and stored value", "Multiverse::insert/remove database writes; load_from reads in key order", "Multiverse::open and its accessors")

p("C01", "Chain counters never wrap: checked operations fail, saturating ones clamp",
  "For block numbers, slot numbers and output indices, checked addition (and 'next') returns the mathematical sum when it fits and nothing otherwise; saturating addition returns the smaller of the sum and the maximum; saturating subtraction of block numbers returns the larger of the difference and zero. Wrapping a number and unwrapping it, and conversion to and from plain integers including for timestamps, return the same number, and ordering and equality are those of the numbers.",
  ["inputs"], "all pairs of 64-bit values", "sampled values rarely sit on the overflow boundary",
  ["core/src/block_number.rs", "core/src/slot_number.rs", "core/src/output_index.rs", "core/src/timestamp.rs"], "the wrapped integer",
  "checked_add/checked_next/saturating_add/saturating_next/saturating_sub/From", "the returned values")
p("C02", "Chain counters round-trip through text and JSON, numbers or strings",
  "Printing a block number, slot number, output index or timestamp and parsing the text gives it back, and serialising to JSON and deserialising gives it back. Block numbers, slot numbers and timestamps are also accepted from a JSON string of decimal digits with the same meaning; text or JSON that is not an unsigned 64-bit integer is refused rather than altered. Converting a timestamp to a system time gives the time that many seconds after the Unix epoch, wherever the system can represent it.",
  ["inputs"], "all 64-bit values, all texts and JSON scalars", "tests sample few values and few malformed texts",
  ["core/src/number_visitor.rs", "core/src/block_number.rs", "core/src/slot_number.rs", "core/src/output_index.rs", "core/src/timestamp.rs"], "the wrapped integer",
  "FromStr, Display, Serialize, Deserialize via NumberVisitor", "parse and serde results")
p("C03", "Unit conversions of amounts are exact and mutually inverse",
  "Converting an amount between a currency's smallest unit and its display unit (ADA and lovelace, ALGO and micro-ALGO, ether and wei, regulated and normalised) multiplies or divides by exactly the unit ratio, with no rounding, for every amount, and converting there and back gives the original amount.",
  ["inputs"], "all amounts of any magnitude and any number of decimals", "tests convert a few sample amounts",
  ["core/src/value.rs"], "the decimal amount", "Value::{to_lovelace, to_ada, to_algo, to_micro_algo, to_wei, to_ether, ...} via scale", "the converted amount")
p("C04", "Amount arithmetic is exact decimal arithmetic",
  "Addition, subtraction, multiplication, negation-free comparison, summation, and their assigning and by-reference forms on amounts equal the exact mathematical operations on the decimal numbers; equality and ordering are numeric (independent of trailing zeros), and the minimum, the maximum and equality with zero agree with them. Truncation removes exactly the fractional part, for any magnitude and sign. Equal amounts hash alike, and conversion to a 64-bit integer gives the part before the point when it fits (and, for the unsigned one, the amount is not negative) and nothing otherwise.",
  ["inputs"], "all finite decimal amounts and all pairs and sequences of them", "tests use a few small amounts; scientific notation, negative scales and huge magnitudes are not sampled",
  ["core/src/value.rs"], "the decimal amount", "impl Add/Sub/Mul/Sum/Ord/PartialEq for Value, truncate", "the resulting amount")
p("C05", "Amount parsing enforces each currency's decimal limit and round-trips",
  "Parsing text as an amount of a currency accepts exactly the non-negative decimal numbers written with at most that currency's number of decimals (0 for lovelace, wei and micro-ALGO, 6 for ADA and ALGO, 18 for ether, regulated and normalised amounts) and gives exactly the number written; anything else is refused. Printing an accepted amount, or serialising it to JSON, and reading it back gives an equal amount.",
  ["inputs"], "all texts and all amounts of every currency", "tests parse a few texts per currency",
  ["core/src/value.rs", "core/src/number_visitor.rs"], "the decimal amount", "derive_from_str macro, Display, Serialize/Deserialize via BigDecimalVisitor", "parse and serde results")
p("C06", "A balance is exact signed arithmetic in canonical form",
  "A balance built by any sequence of adding and subtracting non-negative amounts and other balances equals the exact signed sum: in debt by its magnitude when negative, in excess by its magnitude when positive, and balanced exactly when zero. The predicates for balanced, in debt and in excess hold accordingly, exactly one at a time, the magnitude is never negative, and a value and its negation cancel.",
  ["inputs", "histories"], "all sequences of operations over all non-negative amounts", "each of the nine sign combinations per operator has its own code; tests cover a few with small amounts",
  ["core/src/balance.rs"], "the debt/balanced/excess variant and its magnitude", "impl Add/Sub/AddAssign/SubAssign for Balance with Value and Balance", "Balance::{is_balanced, in_debt, in_excess, balanced} and the variant")
p("C07", "UTxO store totals and indexes always match the UTxOs it holds",
  "After any sequence of insertions and removals the store holds exactly the UTxOs inserted and not removed; for the main token and every asset the reported total is the exact sum over the held UTxOs, tokens no longer held report none, and for each token the ordered enumeration yields exactly the held UTxOs containing that token, each once, in order of the amount of that token. Lookup by pointer returns the UTxO that was inserted under it. (UTxOs are assumed to list each asset at most once, and not the main token.)",
  ["histories", "inputs"], "all histories of insertions and removals, all amounts and asset lists without repeats",
  "tests insert and remove a few UTxOs; the indexes must stay in step across arbitrary histories, equal amounts and shared assets",
  ["core/src/utxo_store.rs", "core/src/tx/utxo.rs"], "UTxO map, per-token ordered index, per-token balance", "UTxOBuilder/UTxOStore insert and remove", "UTxOStore::{get, iter, get_balance_of, iter_token_ordered_by_value, ...}")
p("C08", "Refused UTxO operations change nothing, and snapshots are independent",
  "Inserting a UTxO whose pointer is already held, or removing a pointer that is not held, returns an error and leaves the store's content, totals and enumerations unchanged. Freezing, thawing and cloning a store give an equal store, and changing one copy afterwards never changes another.",
  ["histories"], "all histories of operations on any number of copies of a store", "tests check one refused operation on one store",
  ["core/src/utxo_store.rs"], "UTxO map, per-token ordered index, per-token balance", "UTxOStoreMut::{insert, remove}, thaw, freeze, Clone", "operation results and the copies' content")
p("C09", "Identifiers hold exactly the text they were made from",
  "A block, transaction, policy or token identifier, an address or an asset name made from any text, in whatever way it is made (from an owned or a static text, by parsing, or from JSON), shows exactly that text as text, as bytes and when printed or written to JSON; two of them are equal exactly when their texts are, ordered as their texts are, and one starts with a prefix exactly when its text does. The main token is the identifier of 64 zeros and the default one. A UTxO pointer prints as its transaction identifier, '@' and its output index, so that different pointers print differently, and pointers and new outputs and assets keep the parts they are made of, also through JSON.",
  ["inputs"], "all texts", "tests look at one prefix of one text per identifier",
  ["core/src/block_id.rs", "core/src/address.rs", "core/src/token_id.rs", "core/src/policy_id.rs", "core/src/asset_name.rs", "core/src/tx/transaction_id.rs", "core/src/tx/utxo.rs", "core/src/tx/transaction_asset.rs"], "the wrapped text",
  "new, new_static, starts_with, AsRef, Deref, Display, FromStr, Default", "the text given back")
p("D01", "Slot, epoch and time conversions of an era are exact",
  "For any era description with non-zero epoch length, an absolute slot not before the era's first slot maps to epoch start_epoch + q and relative slot r where slot - first_slot = q * epoch_length + r and r < epoch_length, and slots before the era map to nothing. The timestamp of a slot is the era's known time plus the slots since its first slot times the slot length, and the absolute Byron slot of an epoch and slot within it is epoch * 21600 + slot; all wherever the exact result fits in 64 bits. The eras of the named networks begin at slot start_epoch * 21600, at the published system start plus the Byron slots of 20 seconds, with slots of one second and the published epoch lengths (432000 slots; 86400 for preview and sancho).",
  ["inputs"], "all eras and all slots for which the exact result fits", "tests check a few slots of the named networks",
  ["blockchain-source/src/cardano/time.rs"], "none (pure)", "Era::{compute_timestamp, absolute_slot_to_epoch, absolute_slot_to_relative}, epoch_slot_to_absolute_byron", "the returned values")
p("D02", "An asset fingerprint is the CIP-14 hash of policy id and asset name",
  "For every policy id and asset name given in hexadecimal, the fingerprint is the 20-byte Blake2b hash of the concatenation of the decoded policy id and the decoded asset name, given as 40 lower-case hexadecimal digits followed by zeros to a width of 64, so that it depends on nothing else; a policy id that is not 56 hexadecimal digits or a name that is not hexadecimal is refused with an error.",
  ["inputs"], "all policy ids and asset names", "tests check the CIP-14 sample vectors",
  ["cardano-utils/src/cip14.rs"], "none (pure)", "cip14 fingerprint computation", "the returned fingerprint")
p("D03", "Chain points convert to and from the protocol form without loss",
  "Converting a chain point to the network protocol's form and back gives the same point: the origin maps to the origin, and a point with a slot number and a 64-digit lower-case hexadecimal block hash keeps both. A block hash that is not 32 bytes in hexadecimal is refused, and distinct points have distinct protocol forms.",
  ["inputs"], "all slots and block hashes", "tests convert no points or a few",
  ["blockchain-source/src/cardano/point.rs", "core/src/block_id.rs"], "none (pure)", "TryFrom<Point> / From<protocol::Point>", "the converted point")

p("D04", "Cardano events expose exactly the block they carry",
  "To whoever follows the chain, a block event has the identifier, the parent and the number of the block it carries, and the place to go on from after it is that block's slot and identifier. A tip, and only a tip, counts as the chain's tip, and has no place to go on from. Mapping an event's block or tip keeps its kind, applies the mapping to that part alone, and fails only when the mapping does. A source holding one event gives it once and then nothing.",
  ["inputs"], "all events and mappings", "no test looks at events",
  ["blockchain-source/src/cardano/event.rs", "blockchain-source/src/source.rs"], "the event",
  "id, parent_id, block_number, next_from, is_blockchain_tip, map_block, map_tip, Option::pull", "the values handed on")
p("D05", "Converting a UTxO to the Cardano library's types and back preserves it",
  "An output or input made from a UTxO holds its address, its amount of the main token, for each asset the policy, name and quantity, and the script reference and datum of its extra text; an input also points to the transaction and index the UTxO's pointer gives and is spent by the right passed in. Reading an output or input gives back the same address, amounts, assets, script reference, datum and pointer, each asset with the fingerprint of its policy and name. What the Cardano types cannot hold (an amount that is negative or not below 2^64, an identifier or name that is not the hexadecimal text of a proper one, an extra text that does not parse) is refused with an error and never altered. (Amounts are whole numbers; a UTxO lists each asset at most once and never the main token.)",
  ["inputs"], "all UTxOs, extra texts and rights to spend", "no test converts a UTxO",
  ["cardano-utils/src/utxo.rs", "cardano-utils/src/payment_credentials.rs"], "none (pure)", "utxo_details_to_cml_input, utxo_builder_to_cml_output, utxo_details_from_io, utxo_builder_from_output and their helpers", "the converted UTxO")
p("D06", "A multi-signature plan's script, hash and address are those of its keys",
  "For every quorum and list of keys, a plan's script is exactly one script that is met when its quorum of its keys have signed, listing the keys in the plan's order with repetitions kept; the plan's hash is that script's hash, and its address on a network is the address of that hash on that network without a stake part. A plan read from a file has the quorum and the keys written there, and a file that lacks them or holds a key that is not 28 bytes in hexadecimal is refused.",
  ["inputs"], "all quorums, key lists and networks", "no test builds a plan",
  ["cardano-utils/src/multisig_plan.rs"], "the plan's quorum and keys", "MultisigPlan::{load, to_script, hash, address}", "the script, hash and address")
p("U01", "Largest-first selection accounts for every input, output and fee exactly",
  "When largest-first selection succeeds, the chosen inputs are distinct UTxOs that were available, together with the fixed inputs they cover the fixed outputs and the estimated fee for the main token and every asset, the reported input, output, fee and asset balances are exactly the sums over what was selected, and the UTxOs reported as remaining are exactly the available ones not chosen. Each input is chosen, in the order reported, for a token that the fixed inputs and the inputs chosen before it leave short, and nothing that remains holds more of that token. When it fails without an error of the fee estimator, all available UTxOs together with the fixed inputs fall short of some output amount or of the outputs and their fees, and the available UTxOs are unchanged. (Setups carry the exact sums of their fixed inputs and outputs; a UTxO or output lists each asset at most once and never the main token; amounts and fees are not negative.)",
  ["inputs"], "all sets of available UTxOs, fixed inputs and outputs, and fee estimators", "tests run a few small selections",
  ["utxo-selection/src/algorithms/largest_first.rs", "utxo-selection/src/common.rs"], "available inputs, per-asset balances, selected inputs", "LargestFirst::select_inputs and its select_input_for", "InputSelectionAlgorithm results")
p("U02", "Change balancing adds exactly the missing change or fails",
  "When a change balancer (change to fee, or change to a single output) succeeds, inputs minus outputs minus fee is zero for the main token and for every asset, counting the change output with its own fee where one is made, and no amount in the result is negative. The change output goes to the setup's change address, carries the extra text set on the balancer, and its assets keep the policy and name they have in the inputs; the fee is what the estimator requires, with the change's own fee or with all of the excess. It fails only when the estimator does, when something is short, when no change address is given for a change output or what is left does not pay that output's fee, or when assets are left over and the change goes to the fee; it never drops or creates value. (Setups carry the exact sums of their fixed inputs and outputs; amounts and fees are not negative.)",
  ["inputs"], "all balances of inputs, outputs, fees and assets, and all fee estimators", "tests balance a few fixed cases",
  ["utxo-selection/src/algorithms/balance_change_fee.rs", "utxo-selection/src/algorithms/balance_change_single_output.rs", "utxo-selection/src/common.rs"], "the intermediate selection state (balances, changes, fee)", "FeeChangeBalancer, SingleOutputChangeBalancer ::balance_change", "the returned InputSelectorResult")
p("U03", "Thermostat selection conserves value between inputs, outputs, change and fee",
  "Whenever thermostat selection or balancing succeeds, for the main token and for every asset the inputs equal outputs plus change plus fee, every chosen input was available and is chosen once, and no change amount is negative. Splitting accumulated amounts into change outputs preserves the total of every asset. (For the default main token, and setups that carry the exact sums of their fixed inputs and outputs; amounts and fees are not negative.)",
  ["inputs"], "all sets of UTxOs, outputs and split configurations", "tests for this part are not even compiled here and cover fixed cases",
  ["utxo-selection/src/algorithms/thermostat.rs", "utxo-selection/src/common.rs"], "accumulated balances and changes", "Thermostat::{select_inputs, balance_change, split_accumulators}", "the returned result")
p("U04", "Transaction balance reports equal the exact per-token sums",
  "For any inputs, outputs, changes and fee, the reported main-token balance is the exact signed difference of what comes in and what goes out including the fee, the reported balance of each asset is the exact signed difference over all entries naming that asset, and a transaction is reported balanced exactly when all of those are zero.",
  ["inputs"], "all lists of inputs and outputs with any assets, repeated or not", "tests check a few lists",
  ["utxo-selection/src/common.rs"], "none (pure)", "calculate_main_token_balance, calculate_asset_balance, are_assets_balanced, are_utxos_balanced, is_balanced", "the returned balances and verdicts")
p("U05", "Random-improve selection accounts for every input, output and fee exactly",
  "When random-improve selection succeeds, for every outcome of its random choices, the chosen inputs are distinct UTxOs that were available, they cover the outputs and the estimated fee for the main token and every asset requested, and the reported balances are exactly the sums over what was selected. (Same assumptions as for largest-first selection.)",
  ["inputs", "schedules"], "all available UTxOs and outputs and all random choices", "tests run one random seed on a few cases",
  ["utxo-selection/src/algorithms/random_improve.rs", "utxo-selection/src/common.rs"], "available indices, per-token balances, selected inputs", "RandomImprove::select_inputs (three phases)", "InputSelectionAlgorithm results")
p("U06", "A fee estimator charges for exactly what it was told of",
  "After any sequence of inputs, outputs and metadata, the thermostat's fee estimator answers with a fee that is the price of an empty transaction (script and signatures included) plus that of its metadata, of each output and of each input, and with a size that is the sum of the same parts; the fee it quotes for an input or output is what adding it adds, each part costs its size times the network's price per byte (the price of any transaction added once), and the sizes reckoned with are at least what the ledger's encoding takes. Asking changes nothing. The estimator over a transaction builder answers what the builder does for the same inputs and outputs, and the one for tests charges nothing.",
  ["histories", "inputs"], "all sequences of additions, networks, plans and inputs and outputs", "tests use one plan and a short history each",
  ["utxo-selection/src/estimators/thermostat_estimator.rs", "utxo-selection/src/estimators/cml_fee_estimator.rs", "utxo-selection/src/estimators/dummy_estimator.rs", "cardano-utils/src/network_id.rs"], "the estimator's inputs, outputs, costs and size", "TransactionFeeEstimator for ThermostatFeeEstimator, CmlFeeEstimator and DummyFeeEstimate; ThermostatFeeEstimator::{new, add_protocol_magic}; NetworkInfo's costs and sizes", "fees and sizes answered")
p("B01", "Events of a fork-handling source always form one walkable chain",
  "Whatever history of blocks, repetitions, forks, tips and failures a peer presents, each event a fork-handling source delivers follows from the last: a delivered block is a child of the block the consumer stands at (or the first one, when it stands nowhere), and a rollback names the place of an ancestor of that block, where the consumer stands next. On a change of branch the rollback names the last block both branches share, and the new branch's blocks follow one by one, each once. A block already delivered on the current branch is not delivered again, a block that connects to nothing the source holds is refused by an error that leaves what was delivered intact, and a pull never panics. The peer is asked from the places of all held branch tips, of the last confirmed block and of the caller's own starting point.",
  ["histories"], "all sequences of answers of a peer, confirmation depths and reopened stores",
  "tests drive no or one short scripted history", ["blockchain-source/src/multiverse/rollback.rs", "blockchain-source/src/multiverse/mod.rs"], "the multiverse, the last confirmed block, the queued events and the last block delivered", "ForkHandlingSource::{new, pull}", "events returned by pull, and what the peer is asked")
p("B02", "A multiverse source delivers confirmed blocks only, once each, in chain order",
  "A multiverse source delivers a block only when the selection rule confirms it (the ancestor `depth` blocks under the best tip) and each once; it repeats the last confirmed block only to a caller that asks from the place of that block's parent. As long as forks stay shallower than the confirmation depth, block numbers are consecutive and the peer's blocks come after their parents, each delivered block is the child of the one delivered before, and none is taken back. A tip is passed through as it is. The peer is asked from the places of all held branch tips and of the caller's own starting point.",
  ["histories"], "all sequences of answers of a peer, confirmation depths and reopened stores",
  "tests drive no or one short scripted history", ["blockchain-source/src/multiverse/mod.rs"], "the multiverse and the last confirmed block", "MultiverseSource::{new, pull}", "blocks returned by pull, and what the peer is asked")
p("B03", "The Cardano source serves exactly the peer's blocks after the place asked from",
  "A pull hands out the next message of the request at hand, in order and each once; when that has none left it makes a new request from the places given, or from the configured place when none is given, and hands out its first message, or nothing when the peer's chain holds none of the places or does not go on from there. A request asks the peer for all of the places, the newest first, and then for the blocks from where the chains meet up to the peer's tip; its messages are at most one tip (the peer's, first), and then every block the peer sends after the place where the chains meet, in order and each once, up to the first failure — with the genesis block itself when asked from the place of the genesis block's parent. A block event has the bytes, identifier, parent, number and slot of the block, its own epoch before the Shelley era and the era's epoch of its slot afterwards (an error when it has none), and is a boundary block only if the block is one. A connection is used again only after a request on it came to its end; otherwise a new one is made, to the configured peer and network. Clearing the buffers drops the request at hand and nothing else.",
  ["histories", "faults"], "all histories of a peer, failures at any point, and sequences of pulls", "no test connects the source to a peer",
  ["blockchain-source/src/cardano/mod.rs", "blockchain-source/src/cardano/event.rs"], "the request at hand, the connection, what the peer was asked", "CardanoSource::{connect, pull, clear_buffers}, request_handler, block_fetch, BlockEvent::from_serialized_block", "events pulled, and what the peer is asked")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
