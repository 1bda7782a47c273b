//! C16 bytecode hash accepts exactly legal lengths and commits to every word.
//! The hasher is replaced by its contract (vendor/sha2): an arbitrary digest of the byte string it was fed.
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

/// what a successful hash of `n` words with digest `d` looks like
fn is_hash(r: &[u8; 32], n: usize, d: &[u8]) -> bool {
    let mut same = r[0] == 1 && r[1] == 0 && r[2] == (n >> 8) as u8 && r[3] == n as u8;
    let mut i = 4;
    while i < 32 {
        same = same && r[i] == d[i];
        i += 1;
    }
    same
}

fn legal_production(n: usize) -> bool {
    n % 2 == 1 && n <= 65535
}

/// `n` words nobody may read, for lengths that have to be refused
#[cfg(kani)]
fn unreadable(n: usize) -> &'static [[u8; 32]] {
    // a fat pointer assembled from its parts: nothing is claimed about the memory behind it
    unsafe { std::mem::transmute::<[usize; 2], &'static [[u8; 32]]>([1, n]) }
}

macro_rules! refused {
    ($s:ident, $n:ident, $f:expr) => {{
        #[cfg(kani)]
        let words = unreadable($n);
        #[cfg(kani)]
        unsafe {
            sha2::GHOST.forbidden = true;
        }
        #[cfg(not(kani))]
        given!($s, $n <= 1 << 20);
        #[cfg(not(kani))]
        let words = &vec![[0u8; 32]; $n][..];
        assert!($f(words) == Err(()), "an illegal number of words is refused");
    }};
}

/// Hash `n` of `WORDS` arbitrary words and check the result against the contract of the hasher.
macro_rules! accepted {
    ($s:ident, $n:literal, $f:expr) => {{
        let mut words = [[0u8; 32]; $n];
        let mut i = 0;
        while i < $n {
            words[i] = $s.bytes32();
            i += 1;
        }
        #[cfg(kani)]
        {
            unsafe {
                sha2::GHOST.digest = $s.bytes32();
                sha2::GHOST.finalized = 0;
                sha2::GHOST.forbidden = false;
            }
            let r = $f(&words[..]);
            let (length, times, digest) = unsafe { (sha2::GHOST.length, sha2::GHOST.finalized, sha2::GHOST.digest) };
            assert!(r.is_ok(), "a legal number of words is hashed");
            assert!(times == 1 && length == 32 * $n, "exactly the words are hashed");
            let mut same = true;
            let mut i = 0;
            while i < 32 * $n {
                same = same && unsafe { sha2::GHOST.data[i] } == words[i / 32][i % 32];
                i += 1;
            }
            assert!(same, "every byte is hashed at its position");
            assert!(is_hash(&r.unwrap(), $n, &digest), "the hash carries version, zero marker, word count and the digest's last 28 bytes");
            reach!(words[$n - 1][31] == 7 && digest[31] == 9, "a successful hash");
        }
        #[cfg(not(kani))]
        {
            let r = $f(&words[..]);
            assert!(r.is_ok(), "a legal number of words is hashed");
            let digest = <sha2::Sha256 as sha2::Digest>::digest(words.concat());
            assert!(is_hash(&r.unwrap(), $n, &digest), "the hash carries version, zero marker, word count and the digest's last 28 bytes");
        }
    }};
}

/// legal lengths 1, 3, 5, .. in the given part of four
#[cfg(kani)]
fn some_lengths(_: &mut crate::src::Src, _: usize) {}
#[cfg(not(kani))]
fn some_lengths(s: &mut crate::src::Src, part: usize) {
    const MOST: usize = 65537;
    static WORDS: std::sync::OnceLock<Vec<[u8; 32]>> = std::sync::OnceLock::new();
    // deterministic words without a period
    let all = WORDS.get_or_init(|| {
        let mut x = 1u64;
        (0..MOST + 255).map(|_| {
            let mut w = [0u8; 32];
            w.iter_mut().for_each(|b| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                *b = (x >> 56) as u8;
            });
            w
        }).collect()
    });
    // in an order that spreads a run that is cut short
    let n = (s.below(0x2000) as usize * 4051 % 0x2000) * 8 + 2 * part + 1;
    let from = s.u8() as usize;
    let words = &all[from..from + n];
    let r = bytecode_to_code_hash(words);
    assert!(r.is_ok() == legal_production(n), "exactly the legal lengths are accepted");
    let digest = <sha2::Sha256 as sha2::Digest>::digest(words.as_flattened());
    assert!(r.is_err() || is_hash(&r.unwrap(), n, &digest), "the hash carries version, zero marker, word count and the digest's last 28 bytes");
}

suite! {
    #[kani::proof]
    #[kani::unwind(4)]
    fn refused_lengths_production(s) {
        let n = s.u64() as usize;
        given!(s, n <= (1 << 58) - 1 && !legal_production(n));
        refused!(s, n, bytecode_to_code_hash);
        reach!(n == 65537, "odd but too long");
        reach!(n == 0, "empty");
    }

    #[kani::proof]
    #[kani::unwind(4)]
    fn refused_lengths_testing(s) {
        let n = s.u64() as usize;
        given!(s, n <= (1 << 58) - 1 && !(n % 2 == 1 && n <= u32::MAX as usize));
        refused!(s, n, bytecode_to_code_hash_for_mode::<16, EncodingModeTesting>);
        reach!(n == (1 << 32) + 1, "odd but too long");
    }

    #[kani::proof]
    fn accepted_1_words_production(s) {
        accepted!(s, 1, bytecode_to_code_hash);
    }

    #[kani::proof]
    fn accepted_1_words_testing(s) {
        accepted!(s, 1, bytecode_to_code_hash_for_mode::<16, EncodingModeTesting>);
    }

    #[kani::proof]
    fn accepted_3_words_production(s) {
        accepted!(s, 3, bytecode_to_code_hash);
    }

    #[kani::proof]
    fn accepted_3_words_testing(s) {
        accepted!(s, 3, bytecode_to_code_hash_for_mode::<16, EncodingModeTesting>);
    }

    #[kani::proof]
    fn accepted_5_words_production(s) {
        accepted!(s, 5, bytecode_to_code_hash);
    }

    #[kani::proof]
    fn accepted_9_words_production(s) {
        accepted!(s, 9, bytecode_to_code_hash);
    }

    // every length up to the limit in four parts, hashed for real (concrete evaluation only)
    #[cfg(not(kani))]
    fn every_length_0(s) { some_lengths(s, 0); }
    #[cfg(not(kani))]
    fn every_length_1(s) { some_lengths(s, 1); }
    #[cfg(not(kani))]
    fn every_length_2(s) { some_lengths(s, 2); }
    #[cfg(not(kani))]
    fn every_length_3(s) { some_lengths(s, 3); }

    // lengths around the limit, hashed for real (concrete evaluation only)
    #[cfg(not(kani))]
    fn boundary_lengths(s) {
        #[cfg(not(kani))]
        {
            const LENGTHS: [usize; 20] = [0, 1, 2, 3, 64, 65, 255, 256, 257, 511, 513, 4097, 32767, 32769, 65533, 65534, 65535, 65536, 65537, 131071];
            let n = LENGTHS[s.below(20) as usize];
            let seed = s.u8() as usize;
            let words: Vec<[u8; 32]> = (0..n).map(|i| { let mut w = [seed as u8; 32]; w[..8].copy_from_slice(&((i + seed) as u64).to_be_bytes()); w }).collect();
            let r = bytecode_to_code_hash(&words);
            assert!(r.is_ok() == legal_production(n), "exactly the legal lengths are accepted");
            let digest = <sha2::Sha256 as sha2::Digest>::digest(words.concat());
            assert!(r.is_err() || is_hash(&r.unwrap(), n, &digest), "the hash carries version, zero marker, word count and the digest's last 28 bytes");
            let t = bytecode_to_code_hash_for_mode::<16, EncodingModeTesting>(&words);
            assert!(t.is_ok() == (n % 2 == 1), "testing mode accepts every odd length here");
            assert!(t.is_err() || is_hash(&t.unwrap(), n, &digest), "the testing-mode hash has the same form");
        }
        let _ = s;
    }
}
