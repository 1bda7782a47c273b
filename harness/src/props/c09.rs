//! C09 circuit prices are the exact ceilings of cost per circuit unit.
//! `gen` is the text of src/circuit_pricing_generator/main.rs, copied by the driver in every run, with three
//! accessors appended (`vp_main`, `vp_ceil_div`, `vp_units`). Where an accessor does not compile any more the driver
//! leaves its feature out (gen, ceil, units), and what needs it is reported as undecided.
use zkevm_opcode_defs::circuit_prices as published;
use zkevm_opcode_defs::system_params::*;

#[cfg(feature = "gen")]
#[allow(unused, clippy::all)]
mod gen {
    include!(concat!(env!("VP_GEN_DIR"), "/pricing.rs"));
}

macro_rules! names {
    ($($i:literal $n:ident)*) => {
        /// published constant number i
        pub fn price(i: u16) -> u32 {
            match i {
                $($i => published::$n,)*
                _ => unreachable!(),
            }
        }
        pub const NAMES: [&str; 18] = [$(stringify!($n)),*];
    };
}

names! {
    0 VM_CYCLE_COST_IN_ERGS
    1 RAM_PERMUTATION_COST_IN_ERGS
    2 CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS
    3 STORAGE_APPLICATION_COST_IN_ERGS
    4 CODE_DECOMMITTER_SORTER_COST_IN_ERGS
    5 LOG_DEMUXER_COST_IN_ERGS
    6 STORAGE_SORTER_COST_IN_ERGS
    7 EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS
    8 INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS
    9 REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS
    10 CODE_DECOMMITMENT_SORTER_COST_IN_ERGS
    11 L1_MESSAGE_MIN_COST_IN_ERGS
    12 KECCAK256_CIRCUIT_COST_IN_ERGS
    13 SHA256_CIRCUIT_COST_IN_ERGS
    14 ECRECOVER_CIRCUIT_COST_IN_ERGS
    15 INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS
    16 REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS
    17 STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS
}

/// (cost of the circuit, units it takes)
#[cfg(feature = "units")]
fn circuit(i: u16) -> (u32, u64) {
    let single = matches!(i, 11 | 15 | 16);
    (if single { MAX_TX_ERGS_LIMIT } else { ERGS_PER_CIRCUIT }, gen::vp_units(i))
}

/// pubdata alone limits the number of units below what the single circuit takes
#[cfg(feature = "units")]
fn limited_by_pubdata(i: u16) -> bool {
    let bytes = if i == 15 { INITIAL_STORAGE_WRITE_PUBDATA_BYTES } else { REPEATED_STORAGE_WRITE_PUBDATA_BYTES };
    MAX_PUBDATA_PER_BLOCK as u64 <= circuit(i).1 * bytes as u64
}

fn least_ceiling(price: u32, cost: u32, units: u64) -> bool {
    price as u64 * units >= cost as u64 && (price == 0 || (price as u64 - 1) * units < cost as u64)
}

#[cfg(all(feature = "ceil", feature = "units"))]
contract! {
    fn ceil_div_by_unit(a: u32, i: u16) -> u32;
    requires i < 18;
    requires a as u64 + circuit(i).1 <= u32::MAX as u64;
    ensures |r| least_ceiling(*r, a, circuit(i).1);
    { gen::vp_ceil_div(a, circuit(i).1 as u32) }
}

/// What running the generator published for constant `i`.
#[cfg(all(kani, feature = "tables", feature = "gen"))]
pub fn generated(i: u16) -> Option<u32> {
    crate::tables::GENERATED[i as usize]
}

#[cfg(all(not(kani), feature = "gen"))]
pub fn generated(i: u16) -> Option<u32> {
    generated_all()[i as usize]
}

/// Runs the real generator inside a scratch directory and reads the file it writes.
#[cfg(all(not(kani), feature = "gen"))]
pub fn generated_all() -> &'static Vec<Option<u32>> {
    static ALL: std::sync::OnceLock<Vec<Option<u32>>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let back = std::env::current_dir().unwrap();
        let dir = std::path::Path::new(concat!(env!("VP_GEN_DIR"), "/scratch")).join(std::process::id().to_string());
        std::fs::create_dir_all(dir.join("src")).unwrap();
        std::env::set_current_dir(&dir).unwrap();
        let r = std::panic::catch_unwind(gen::vp_main);
        std::env::set_current_dir(back).unwrap();
        let text = std::fs::read_to_string(dir.join("src/circuit_prices.rs"));
        let _ = std::fs::remove_dir_all(&dir);
        r.expect("the generator panics");
        let text = text.expect("the generator writes src/circuit_prices.rs");
        NAMES
            .iter()
            .map(|n| {
                let mut values = text.lines().filter_map(|l| {
                    l.trim().strip_prefix("pub const ")?.strip_prefix(n)?.trim().strip_prefix(": u32 =")?.trim().strip_suffix(';')?.replace('_', "").trim().parse().ok()
                });
                let v = values.next();
                if values.next().is_some() { None } else { v }
            })
            .collect()
    })
}

suite! {
    #[kani::proof]
    fn storage_write_price(s) {
        let _ = s.u8();
        let m = if price(15) > price(16) { price(15) } else { price(16) };
        assert!(price(17) == m, "storage writes pay the larger of the two minimal prices");
    }
}

#[cfg(feature = "units")]
pub mod units {
    use super::*;
    suite! {
        #[kani::proof]
        fn published_prices(s) {
            let i = s.below(15);
            let (cost, units) = circuit(i);
            assert!(units > 0, "a circuit takes some units");
            assert!(least_ceiling(price(i), cost, units), "published price is the least one that covers the circuit");
            reach!(i == 14, "last circuit");
        }

        #[kani::proof]
        fn single_instance_prices(s) {
            let i = 15 + s.below(2);
            let (cost, units) = circuit(i);
            if limited_by_pubdata(i) {
                assert!(price(i) == 0, "pubdata alone limits the units: no minimal price");
            } else {
                assert!(least_ceiling(price(i), cost, units), "minimal price covers the single circuit");
            }
        }
    }
}

#[cfg(feature = "gen")]
pub mod generator {
    use super::*;
    suite! {
        #[kani::proof]
        fn reproduces_prices(s) {
            let i = s.below(18);
            assert!(generated(i) == Some(price(i)), "running the generator reproduces the published constant");
        }
    }
}

#[cfg(feature = "ceil")]
pub mod ceil {
    use super::*;
    suite! {
        // bounded: every pair of operands below 2^7
        #[kani::proof]
        fn small_operands(s) {
            let (a, b) = (s.below(128) as u32, s.below(128) as u32);
            given!(s, b > 0);
            let r = gen::vp_ceil_div(a, b);
            assert!(least_ceiling(r, a, b as u64), "rounding division is the mathematical ceiling");
            reach!(a > b && r * b > a, "rounded up");
        }

        // any pair: proved by Verus; evaluated natively, and searched by Kani when Verus refutes the contract
        #[cfg(feature = "hunt")]
        #[kani::proof]
        fn any_operands(s) {
            let (a, b) = (s.u32(), s.u32());
            given!(s, b > 0 && a.checked_add(b).is_some());
            let r = gen::vp_ceil_div(a, b);
            assert!(least_ceiling(r, a, b as u64), "rounding division is the mathematical ceiling");
        }
    }
}

#[cfg(all(feature = "ceil", feature = "units"))]
pub mod per_unit {
    use super::*;

    macro_rules! per_unit {
        ($($n:ident $i:literal)*) => {
            suite! {
                // for each circuit: every cost, divided by the units of that circuit
                $(#[cfg(feature = "thorough")]
                #[kani::proof]
                fn $n(s) {
                    let a = s.u32();
                    given!(s, a as u64 + circuit($i).1 <= u32::MAX as u64);
                    ceil_div_by_unit(a, $i);
                    reach!(a == 0, "nothing to divide");
                })*
            }
        };
    }
    per_unit! { unit_0 0 unit_1 1 unit_2 2 unit_3 3 unit_4 4 unit_5 5 unit_6 6 unit_7 7 unit_8 8 unit_9 9 unit_11 11 unit_12 12 unit_13 13 unit_14 14 }
}
