//! Input source of a harness. Under Kani every draw is a fresh unconstrained value (all values at once);
//! natively the same harness body is driven by a recorded counterexample, by enumeration or by a seeded
//! generator, so a counterexample found by the verifier is replayed on the real code by the same text.

pub struct Src {
    #[cfg(not(kani))]
    pub mode: Mode,
    #[cfg(not(kani))]
    pub rejected: bool,
    #[cfg(not(kani))]
    pub log: Vec<(&'static str, u128)>,
}

#[cfg(not(kani))]
pub enum Mode {
    /// byte vectors in drawing order, as printed by Kani's concrete playback
    Replay { values: Vec<Vec<u8>>, at: usize },
    /// odometer over all `below` draws, seeded values for the full-width draws
    Enumerate {
        digits: Vec<(u64, u64)>,
        at: usize,
        rng: u64,
        /// full-width values of the previous run; in a near repetition most of them are drawn again
        last: Vec<u128>,
        drawn: usize,
        repeat: bool,
    },
}

macro_rules! ints {
    ($($t:ident)*) => {
        $(pub fn $t(&mut self) -> $t {
            #[cfg(kani)]
            { kani::any() }
            #[cfg(not(kani))]
            { let v = self.word(std::mem::size_of::<$t>()) as $t; self.log.push((stringify!($t), v as u128)); v }
        })*
    };
}

impl Src {
    #[cfg(kani)]
    pub fn new() -> Self {
        Src {}
    }

    ints!(u16 u32 u64 u128);

    pub fn u8(&mut self) -> u8 {
        #[cfg(kani)]
        {
            kani::any()
        }
        #[cfg(not(kani))]
        {
            let v = match self.mode {
                Mode::Replay { .. } => self.word(1) as u8,
                Mode::Enumerate { .. } => self.digit(256) as u8,
            };
            self.log.push(("byte", v as u128));
            v
        }
    }

    pub fn bool(&mut self) -> bool {
        #[cfg(kani)]
        {
            kani::any()
        }
        #[cfg(not(kani))]
        {
            let v = match self.mode {
                Mode::Replay { .. } => self.word(1) & 1,
                Mode::Enumerate { .. } => self.digit(2) as u128,
            };
            self.log.push(("bool", v));
            v != 0
        }
    }

    /// A number below `n`.
    pub fn below(&mut self, n: u16) -> u16 {
        #[cfg(kani)]
        {
            let v: u16 = kani::any();
            kani::assume(v < n);
            v
        }
        #[cfg(not(kani))]
        {
            let v = match self.mode {
                Mode::Replay { .. } => {
                    let v = self.word(2) as u16;
                    if v >= n {
                        self.rejected = true;
                    }
                    v % n
                }
                Mode::Enumerate { .. } => self.digit(n as u64) as u16,
            };
            self.log.push(("below", v as u128));
            v
        }
    }

    pub fn words(&mut self) -> [u64; 4] {
        [self.u64(), self.u64(), self.u64(), self.u64()]
    }

    pub fn bytes32(&mut self) -> [u8; 32] {
        let w = self.words();
        let mut r = [0u8; 32];
        let (a, b, c, d) = (w[0].to_be_bytes(), w[1].to_be_bytes(), w[2].to_be_bytes(), w[3].to_be_bytes());
        let mut i = 0;
        while i < 8 {
            r[i] = a[i];
            r[8 + i] = b[i];
            r[16 + i] = c[i];
            r[24 + i] = d[i];
            i += 1;
        }
        r
    }
}

#[cfg(not(kani))]
impl Src {
    pub fn replay(values: Vec<Vec<u8>>) -> Self {
        Src {
            mode: Mode::Replay { values, at: 0 },
            rejected: false,
            log: vec![],
        }
    }

    pub fn enumerate(seed: u64) -> Self {
        Src {
            mode: Mode::Enumerate {
                digits: vec![],
                at: 0,
                rng: seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x5851f42d4c957f2d,
                last: vec![],
                drawn: 0,
                repeat: false,
            },
            rejected: false,
            log: vec![],
        }
    }

    fn next(rng: &mut u64) -> u64 {
        // splitmix64
        *rng = rng.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = *rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }

    fn word(&mut self, size: usize) -> u128 {
        match &mut self.mode {
            Mode::Replay { values, at } => {
                let mut b = [0u8; 16];
                if let Some(v) = values.get(*at) {
                    let n = v.len().min(16);
                    b[..n].copy_from_slice(&v[..n]);
                }
                *at += 1;
                u128::from_le_bytes(b)
            }
            Mode::Enumerate { rng, last, drawn, repeat, .. } => {
                let bits = size as u32 * 8;
                let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                let at = *drawn;
                *drawn += 1;
                let r = (Self::next(rng) as u128) << 64 | Self::next(rng) as u128;
                let known = at < last.len();
                let v = match Self::next(rng) % 16 {
                    // near repetition of the previous run
                    0..=12 if *repeat && known => last[at],
                    13 if *repeat && known => last[at] ^ 1u128 << (r % bits as u128),
                    0 | 1 => 0,
                    2 | 3 => u128::MAX,
                    4 => 1u128 << (r % bits as u128),
                    5 => !(1u128 << (r % bits as u128)),
                    6 => r % 5,
                    7 => u128::MAX - r % 5,
                    // related to an earlier value of this run
                    8 if at > 0 => last[r as usize % at],
                    9 if at > 0 => (!last[r as usize % at]).wrapping_add((r >> 64) % 3),
                    _ => r,
                } & mask;
                if known {
                    last[at] = v;
                } else {
                    last.push(v);
                }
                v
            }
        }
    }

    fn digit(&mut self, n: u64) -> u64 {
        match &mut self.mode {
            Mode::Enumerate { digits, at, rng, .. } => {
                if *at == digits.len() {
                    digits.push((0, n));
                }
                // a data-dependent domain is sampled, not enumerated
                let v = if digits[*at].1 == n {
                    digits[*at].0
                } else {
                    Self::next(rng) % n
                };
                *at += 1;
                v
            }
            _ => unreachable!(),
        }
    }

    /// Go to the next point of the odometer; false once every point was visited.
    pub fn advance(&mut self) -> bool {
        self.rejected = false;
        self.log.clear();
        self.next_run();
        match &mut self.mode {
            Mode::Enumerate { digits, at, .. } => {
                *at = 0;
                for d in digits.iter_mut() {
                    d.0 += 1;
                    if d.0 < d.1 {
                        return true;
                    }
                    d.0 = 0;
                }
                false
            }
            _ => false,
        }
    }

    /// Jump to a random point of the odometer.
    pub fn scatter(&mut self) {
        self.rejected = false;
        self.log.clear();
        self.next_run();
        if let Mode::Enumerate { digits, at, rng, repeat, .. } = &mut self.mode {
            *at = 0;
            for d in digits.iter_mut() {
                if !*repeat || Self::next(rng) % 4 == 0 {
                    d.0 = Self::next(rng) % d.1;
                }
            }
        }
    }

    /// every other run nearly repeats the one before it, so that state kept between calls shows
    fn next_run(&mut self) {
        if let Mode::Enumerate { rng, drawn, repeat, .. } = &mut self.mode {
            *drawn = 0;
            *repeat = Self::next(rng) % 2 == 0;
        }
    }

    /// values of a replay file that are still unused
    pub fn more(&self) -> bool {
        matches!(&self.mode, Mode::Replay { values, at } if *at < values.len())
    }

    pub fn points(&self) -> f64 {
        match &self.mode {
            Mode::Enumerate { digits, .. } => digits.iter().map(|d| d.1 as f64).product(),
            _ => 1.0,
        }
    }

    pub fn drew_words(&self) -> bool {
        self.log.iter().any(|(k, _)| *k != "below" && *k != "bool" && *k != "byte")
    }
}

/// Restrict the inputs of a harness (precondition).
#[macro_export]
macro_rules! given {
    ($s:ident, $c:expr) => {
        #[cfg(kani)]
        kani::assume($c);
        #[cfg(not(kani))]
        if !$c {
            $s.rejected = true;
            return;
        }
    };
}

/// Reachability witness: must be satisfiable, otherwise the harness is vacuous.
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $m);
    };
}

/// A function of the crate under verification together with its contract. The body only forwards to the
/// real function; Kani checks the contract (`proof_for_contract`) or uses it (`stub_verified`), natively
/// it is evaluated on every call.
#[macro_export]
macro_rules! contract {
    ($(#[$m:meta])* fn $name:ident($($a:ident : $t:ty),* $(,)?) -> $ret:ty;
        $(requires $req:expr;)*
        $(ensures |$r:ident| $post:expr;)*
        $body:block) => {
        $(#[$m])*
        $(#[cfg_attr(kani, kani::requires($req))])*
        $(#[cfg_attr(kani, kani::ensures(|$r: &$ret| $post))])*
        pub fn $name($($a: $t),*) -> $ret {
            $(#[cfg(not(kani))]
            assert!($req, "{}", concat!("precondition of ", stringify!($name), ": ", stringify!($req)));
            #[cfg(all(kani, feature = "history"))]
            assert!($req, concat!("precondition of ", stringify!($name)));)*
            let result: $ret = $body;
            $(#[cfg(not(kani))]
            { let $r = &result; assert!($post, "{}", concat!("postcondition of ", stringify!($name), ": ", stringify!($post))); }
            #[cfg(all(kani, feature = "history"))]
            { let $r = &result; assert!($post, concat!("postcondition of ", stringify!($name))); })*
            result
        }
    };
}

/// Proof harnesses of one property.
#[macro_export]
macro_rules! suite {
    ($($(#[$m:meta])* fn $name:ident($s:ident) $(checks $($f:ident)::+)? $body:block)*) => {
        $(
            #[allow(unused_imports)]
            pub mod $name {
                use super::*;
                pub fn body($s: &mut $crate::src::Src) $body
                #[cfg(kani)]
                $(#[cfg_attr(feature = "history", kani::proof)]
                #[cfg_attr(not(feature = "history"), kani::proof_for_contract($($f)::+))])?
                $(#[$m])*
                pub fn proof() {
                    body(&mut $crate::src::Src::new());
                    // the same obligations again, with fresh inputs, in whatever state the first round left
                    #[cfg(feature = "history")]
                    body(&mut $crate::src::Src::new());
                }
            }
        )*
        #[cfg(not(kani))]
        pub const SUITE: &[(&str, fn(&mut $crate::src::Src))] = &[$((stringify!($name), $name::body)),*];
    };
}

/// As `suite!`, for code that reads the lazily built globals: each global is replaced by its contract
/// (the value its real initializer produced in this run, see `real::stubs`).
/// Without the stubs (feature `bare`) there is nothing to prove in such a suite.
#[cfg(all(kani, feature = "bare"))]
#[macro_export]
macro_rules! suite_with_tables {
    ($($t:tt)*) => {};
}
#[cfg(not(all(kani, feature = "bare")))]
#[macro_export]
macro_rules! suite_with_tables {
    ($($(#[$m:meta])* fn $name:ident($s:ident) $(checks $($f:ident)::+)? $body:block)*) => {
        suite! {
            $(
            $(#[$m])*
            #[kani::stub(<zkevm_opcode_defs::OPCODES_TABLE as std::ops::Deref>::deref, crate::real::stubs::opcodes_table)]
            #[kani::stub(<zkevm_opcode_defs::NOP_OPCODE_VARIANT as std::ops::Deref>::deref, crate::real::stubs::nop)]
            #[kani::stub(<zkevm_opcode_defs::PANIC_OPCODE_VARIANT as std::ops::Deref>::deref, crate::real::stubs::panic)]
            #[kani::stub(<zkevm_opcode_defs::OPCODES_PROPS_INTEGER_BITMASKS as std::ops::Deref>::deref, crate::real::stubs::bitmasks)]
            #[kani::stub(<zkevm_opcode_defs::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP as std::ops::Deref>::deref, crate::real::stubs::map_canonical)]
            #[kani::stub(<zkevm_opcode_defs::OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP as std::ops::Deref>::deref, crate::real::stubs::map_monotonic)]
            #[kani::stub(std::collections::HashMap::get, crate::real::stubs::Map::get)]
            #[kani::stub(std::collections::HashMap::contains_key, crate::real::stubs::Map::contains)]
            fn $name($s) $(checks $($f)::+)? $body
            )*
        }
    };
}
