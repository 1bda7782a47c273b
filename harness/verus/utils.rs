// Contract of utils.rs for Verus. check.py replaces the capitalised marks between at signs by text cut out of /repo/src on every run:
//   PC_IMPLS   the two `impl AllowedPcOrImm for ..` blocks of decoding/mod.rs, verbatim, with the two spec functions put in front
//   PC_*       the associated counter types of the two encoding modes
//   ..._ARG, ..._BODY  argument name and body of the two hashing functions, verbatim but for a ghost iterator name and
//                the loop invariant put into `for` loops
// Assumed, not proved here: the contracts of the Digest methods (SHA-256 of the concatenation of what was fed), and those of
// VersionedHashGeneric (proved by Kani in C15).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod decoding {
    use vstd::prelude::*;
    pub trait AllowedPcOrImm: Sized + Copy {
        spec fn value(&self) -> u64;
        spec fn modulus() -> int;
        fn from_u64_clipped(value: u64) -> (r: Self);  // contract proved by Kani in C17
        fn as_u64(self) -> (r: u64) ensures r == self.value();
        fn wrapping_add(self, other: Self) -> (r: Self) ensures r.value() == (self.value() + other.value()) % Self::modulus();
        fn wrapping_sub(self, other: Self) -> (r: Self) ensures r.value() == (self.value() - other.value()) % Self::modulus();
        fn max() -> (r: Self) ensures r.value() == Self::modulus() - 1;
    }
    @PC_IMPLS@
    pub trait VmEncodingMode<const N: usize>: Sized {
        type PcOrImm: AllowedPcOrImm;
    }
    pub struct EncodingModeProduction;
    impl VmEncodingMode<8> for EncodingModeProduction {
        type PcOrImm = @PC_PRODUCTION@;
    }
    pub struct EncodingModeTesting;
    impl VmEncodingMode<16> for EncodingModeTesting {
        type PcOrImm = @PC_TESTING@;
    }
}
pub mod sha2 {
    use vstd::prelude::*;
    pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
    pub trait Bytes { spec fn bytes(&self) -> Seq<u8>; }
    impl Bytes for &[u8; 32] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
    impl Bytes for &&[u8; 32] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
    impl Bytes for [u8; 32] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
    impl Bytes for &[u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
    pub trait Digest: Sized {
        spec fn fed(&self) -> Seq<u8>;
        fn new() -> (r: Self) ensures r.fed() == Seq::<u8>::empty();
        fn update<D: Bytes>(&mut self, d: D) ensures final(self).fed() == old(self).fed() + d.bytes();
        fn finalize(self) -> (r: Output) ensures r.bytes() == sha256(self.fed()), r.bytes().len() == 32;
    }
    #[verifier::external_body]
    pub struct Output { x: [u8; 32] }
    impl Output {
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
        #[verifier::external_body]
        pub fn into(self) -> (r: [u8; 32]) ensures r@ == self.bytes() { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Sha256 { x: u8 }
    impl Digest for Sha256 {
        uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body]
        fn new() -> (r: Self) { unimplemented!() }
        #[verifier::external_body]
        fn update<D: Bytes>(&mut self, d: D) { unimplemented!() }
        #[verifier::external_body]
        fn finalize(self) -> (r: Output) { unimplemented!() }
    }
}
pub struct ContractCodeSha256;
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct VersionedHashGeneric<V> { v: V }
impl VersionedHashGeneric<ContractCodeSha256> {
    pub uninterp spec fn serialized(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_digest_and_preimage_num_words(digest: [u8; 32], num_words: u16) -> (r: Self)
        ensures r.serialized() == seq![1u8, 0u8, (num_words / 256) as u8, (num_words % 256) as u8] + digest@.subrange(4, 32)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize(self) -> (r: Option<[u8; 32]>) ensures r is Some, r.unwrap()@ == self.serialized() { unimplemented!() }
}
pub open spec fn concat(w: Seq<[u8; 32]>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { concat(w, (n - 1) as nat) + w[n - 1]@ }
}

use decoding::{AllowedPcOrImm, EncodingModeProduction, EncodingModeTesting, VmEncodingMode};

/// the hash of a program, as the property states it
pub open spec fn code_hash(w: Seq<[u8; 32]>) -> Seq<u8> {
    seq![1u8, 0u8, (w.len() / 256 % 256) as u8, (w.len() % 256) as u8]
        + sha2::sha256(concat(w, w.len())).subrange(4, 32)
}
pub open spec fn legal(n: nat, largest: int) -> bool { n % 2 == 1 && n <= largest }

proof fn truncation(n: usize)
    ensures (n as u16) as nat == n as nat % 0x1_0000,
{
    assert((n as u16) as usize == n % 0x1_0000usize) by(bit_vector);
}
// called only where the text has bit operations
proof fn bits(n: usize)
    ensures n & 1 == n % 2, 1 & n == n % 2, n & 0xffff == n % 0x1_0000,
            (n as u8) & 1 == n % 2, (n as u64) & 1 == n % 2, (n as u16) & 1 == n % 2, (n as u32) & 1 == n % 2,
{
    assert(n & 1 == n % 2usize && 1 & n == n % 2usize && n & 0xffff == n % 0x1_0000usize) by(bit_vector);
    assert((n as u8) & 1 == n % 2usize && (n as u64) & 1 == n % 2usize && (n as u16) & 1 == n % 2usize
        && (n as u32) & 1 == n % 2usize) by(bit_vector);
}

pub fn bytecode_to_code_hash(@ENTRY_ARG@: &[[u8; 32]]) -> (res: Result<[u8; 32], ()>)
    ensures res is Ok <==> legal(@ENTRY_ARG@@.len(), 65535),
            res is Ok ==> res.unwrap()@ == code_hash(@ENTRY_ARG@@),
{@ENTRY_BODY@}

#[verifier::loop_isolation(false)]
pub fn bytecode_to_code_hash_for_mode<const N: usize, E: VmEncodingMode<N>>(@ARG@: &[[u8; 32]]) -> (res: Result<[u8; 32], ()>)
    ensures res is Ok <==> legal(@ARG@@.len(), <E::PcOrImm as AllowedPcOrImm>::modulus() - 1),
            res is Ok ==> res.unwrap()@ == code_hash(@ARG@@),
{
    proof { truncation(@ARG@.len()); @BITS@ }
@BODY@}

// the testing mode accepts up to the largest 32-bit counter
fn testing_mode(words: &[[u8; 32]]) -> (res: Result<[u8; 32], ()>)
    ensures res is Ok <==> legal(words@.len(), 0xffff_ffff),
            res is Ok ==> res.unwrap()@ == code_hash(words@),
{
    bytecode_to_code_hash_for_mode::<16, EncodingModeTesting>(words)
}

// two programs with the same fed bytes and the same length are the same program
proof fn concat_is_injective(a: Seq<[u8; 32]>, b: Seq<[u8; 32]>, n: nat)
    requires n <= a.len(), n <= b.len(), concat(a, n) == concat(b, n),
    ensures forall|i: int| 0 <= i < n ==> a[i]@ == b[i]@,
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        lengths(a, m);
        lengths(b, m);
        let x = concat(a, n);
        assert(x.subrange(0, 32 * m as int) =~= concat(a, m));
        assert(x.subrange(0, 32 * m as int) =~= concat(b, m));
        assert(x.subrange(32 * m as int, 32 * n as int) =~= a[n - 1]@);
        assert(x.subrange(32 * m as int, 32 * n as int) =~= b[n - 1]@);
        concat_is_injective(a, b, m);
    }
}
proof fn lengths(a: Seq<[u8; 32]>, n: nat)
    requires n <= a.len(),
    ensures concat(a, n).len() == 32 * n,
    decreases n,
{
    if n > 0 { lengths(a, (n - 1) as nat); }
}
} // verus!
fn main() {}
