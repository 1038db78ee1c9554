// D01: slot, epoch and time conversions of an era
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
verus! {

//@item blockchain-source/src/cardano/time.rs | const | EPOCH_LENGTH_IN_SECONDS
//@end
//@item blockchain-source/src/cardano/time.rs | const | BYRON_SLOT_DURATION
//@end
//@item blockchain-source/src/cardano/time.rs | struct | Era
//@end

/// slots elapsed since the era began
pub open spec fn rel(e: &Era, slot: u64) -> int { slot as int - e.first_slot as int }

/// the era begins with epoch `epoch`, after that many Byron epochs of 21600 slots of 20 seconds from `genesis` on
pub open spec fn follows_byron(e: Era, epoch: int, genesis: int) -> bool {
    &&& e.start_epoch == epoch
    &&& e.first_slot == epoch * 21600
    &&& e.known_time == genesis + epoch * 21600 * 20
    &&& e.slot_length == 1
}

impl Era {
    //@item blockchain-source/src/cardano/time.rs | const | impl Era ::> SHELLEY_MAINNET
    //@rewrite pub const SHELLEY_MAINNET : Self = $x ; => pub exec const SHELLEY_MAINNET: Self ensures follows_byron(Self::SHELLEY_MAINNET, 208, 1506203091), Self::SHELLEY_MAINNET.epoch_length_seconds == 432000 { $x }
    //@end
    //@item blockchain-source/src/cardano/time.rs | const | impl Era ::> SHELLEY_TESTNET
    //@rewrite pub const SHELLEY_TESTNET : Self = $x ; => pub exec const SHELLEY_TESTNET: Self ensures follows_byron(Self::SHELLEY_TESTNET, 74, 1563999616), Self::SHELLEY_TESTNET.epoch_length_seconds == 432000 { $x }
    //@end
    //@item blockchain-source/src/cardano/time.rs | const | impl Era ::> SHELLEY_PREPROD
    //@rewrite pub const SHELLEY_PREPROD : Self = $x ; => pub exec const SHELLEY_PREPROD: Self ensures follows_byron(Self::SHELLEY_PREPROD, 4, 1654041600), Self::SHELLEY_PREPROD.epoch_length_seconds == 432000 { $x }
    //@end
    //@item blockchain-source/src/cardano/time.rs | const | impl Era ::> SHELLEY_PREVIEW
    //@rewrite pub const SHELLEY_PREVIEW : Self = $x ; => pub exec const SHELLEY_PREVIEW: Self ensures follows_byron(Self::SHELLEY_PREVIEW, 0, 1666656000), Self::SHELLEY_PREVIEW.epoch_length_seconds == 86400 { $x }
    //@end
    //@item blockchain-source/src/cardano/time.rs | const | impl Era ::> SHELLEY_SANCHO
    //@rewrite pub const SHELLEY_SANCHO : Self = $x ; => pub exec const SHELLEY_SANCHO: Self ensures follows_byron(Self::SHELLEY_SANCHO, 0, 1686789000), Self::SHELLEY_SANCHO.epoch_length_seconds == 86400 { $x }
    //@end

    //@fn blockchain-source/src/cardano/time.rs | impl Era | compute_timestamp
    //@spec
        requires
            slot >= self.first_slot,
            self.known_time + rel(self, slot) * self.slot_length <= u64::MAX,
        ensures
            r as int == self.known_time + rel(self, slot) * self.slot_length,
    //@hint start
        proof {
            assert(0 <= rel(self, slot) * self.slot_length) by (nonlinear_arith)
                requires rel(self, slot) >= 0, self.slot_length >= 0;
        }
    //@end

    //@fn blockchain-source/src/cardano/time.rs | impl Era | absolute_slot_to_epoch
    //@desugar opt.map
    //@spec
        requires
            self.epoch_length_seconds > 0,
            slot >= self.first_slot ==> self.start_epoch + rel(self, slot) / self.epoch_length_seconds as int <= u64::MAX,
        ensures
            slot < self.first_slot ==> r.is_none(),
            slot >= self.first_slot ==> r.is_some() && ({
                let q = r.unwrap() - self.start_epoch;
                &&& q == rel(self, slot) / self.epoch_length_seconds as int
                // the defining property of the epoch: the slot lies in [q, q+1) epoch lengths
                &&& q * self.epoch_length_seconds <= rel(self, slot) < (q + 1) * self.epoch_length_seconds
            }),
    //@hint start
        proof {
            if slot >= self.first_slot {
                lemma_fundamental_div_mod(rel(self, slot), self.epoch_length_seconds as int);
                lemma_mod_bound(rel(self, slot), self.epoch_length_seconds as int);
                let q = rel(self, slot) / self.epoch_length_seconds as int;
                assert(q * self.epoch_length_seconds == self.epoch_length_seconds * q) by (nonlinear_arith);
                assert((q + 1) * self.epoch_length_seconds == self.epoch_length_seconds * q + self.epoch_length_seconds) by (nonlinear_arith);
            }
        }
    //@end

    //@fn blockchain-source/src/cardano/time.rs | impl Era | absolute_slot_to_relative
    //@desugar opt.map
    //@spec
        requires
            self.epoch_length_seconds > 0,
        ensures
            slot < self.first_slot ==> r.is_none(),
            slot >= self.first_slot ==> r.is_some()
                && r.unwrap() as int == rel(self, slot) % self.epoch_length_seconds as int
                && r.unwrap() < self.epoch_length_seconds
                // slot - first_slot == q * epoch_length + r, with q the epochs elapsed
                && rel(self, slot) == self.epoch_length_seconds * (rel(self, slot) / self.epoch_length_seconds as int) + r.unwrap(),
    //@hint start
        proof {
            if slot >= self.first_slot {
                lemma_fundamental_div_mod(rel(self, slot), self.epoch_length_seconds as int);
                lemma_mod_bound(rel(self, slot), self.epoch_length_seconds as int);
            }
        }
    //@end
}

//@fn blockchain-source/src/cardano/time.rs | | epoch_slot_to_absolute_byron
//@spec
    requires epoch * 21600 + epoch_slot <= u64::MAX,
    ensures r == epoch * 21600 + epoch_slot,
//@end

} // verus!
