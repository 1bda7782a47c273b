//! C15 versioned code hashes serialize and parse losslessly.
use zkevm_opcode_defs::*;

type Hash = VersionedHashGeneric<ContractCodeSha256>;

/// the serialized form of (marker, length, digest)
fn is_serial(r: &Option<[u8; 32]>, marker: u8, words: u16, digest: &[u8; 28]) -> bool {
    match r {
        None => false,
        Some(b) => {
            b[0] == 1 && b[1] == marker && b[2] == (words >> 8) as u8 && b[3] == words as u8 && tail_is(b, digest)
        }
    }
}

fn tail_is(b: &[u8; 32], digest: &[u8; 28]) -> bool {
    let mut same = true;
    let mut i = 0;
    while i < 28 {
        same = same && b[4 + i] == digest[i];
        i += 1;
    }
    same
}

fn storage(marker: u8, words: u16, digest: [u8; 28]) -> ContractCodeSha256Storage {
    ContractCodeSha256Storage { code_length_in_words: words, extra_marker: marker, partial_hash: digest }
}

contract! {
    fn serialize(marker: u8, words: u16, digest: [u8; 28]) -> Option<[u8; 32]>;
    ensures |r| is_serial(r, marker, words, &digest);
    { ContractCodeSha256::serialize(storage(marker, words, digest)) }
}

contract! {
    fn serialize_stored(marker: u8, words: u16, digest: [u8; 28]) -> Option<[u8; 32]>;
    ensures |r| is_serial(r, 0, words, &digest);
    { ContractCodeSha256::serialize_to_stored(storage(marker, words, digest)) }
}

contract! {
    fn parse(b: [u8; 32]) -> Option<ContractCodeSha256Storage>;
    ensures |r| r.is_some() == (b[0] == 1);
    ensures |r| match r {
        None => true,
        Some(s) => s.extra_marker == b[1] && s.code_length_in_words == (b[2] as u16) << 8 | b[3] as u16 && tail_is(&b, &s.partial_hash),
    };
    { ContractCodeSha256::try_deserialize(b) }
}

contract! {
    fn parse_generic(b: [u8; 32]) -> Option<Hash>;
    ensures |r| r.is_some() == (b[0] == 1);
    ensures |r| match r {
        None => true,
        Some(h) => {
            let s = h.layout_ref();
            s.extra_marker == b[1] && s.code_length_in_words == (b[2] as u16) << 8 | b[3] as u16 && tail_is(&b, &s.partial_hash)
        }
    };
    { Hash::try_create_from_raw(b) }
}

contract! {
    fn build(b: [u8; 32], words: u16) -> Hash;
    ensures |r| r.layout_ref().code_length_in_words == words;
    ensures |r| r.layout_ref().extra_marker == 0;
    ensures |r| tail_is(&b, &r.layout_ref().partial_hash);
    { Hash::from_digest_and_preimage_num_words(b, words) }
}

fn digest(s: &mut crate::src::Src) -> [u8; 28] {
    let b = s.bytes32();
    let mut d = [0u8; 28];
    let mut i = 0;
    while i < 28 {
        d[i] = b[4 + i];
        i += 1;
    }
    d
}

suite! {
    fn serialize_fields(s) checks super::serialize {
        let (m, n, d) = (s.u8(), s.u16(), digest(s));
        super::serialize(m, n, d);
    }

    fn stored_form(s) checks super::serialize_stored {
        let (m, n, d) = (s.u8(), s.u16(), digest(s));
        super::serialize_stored(m, n, d);
    }

    fn parse_bytes(s) checks super::parse {
        let mut b = s.bytes32();
        b[0] = s.u8();
        super::parse(b);
    }

    fn parse_bytes_generic(s) checks super::parse_generic {
        let mut b = s.bytes32();
        b[0] = s.u8();
        super::parse_generic(b);
    }

    fn build_from_digest(s) checks super::build {
        let (b, n) = (s.bytes32(), s.u16());
        super::build(b, n);
    }

    #[kani::proof]
    fn markers(s) {
        assert!(<ContractCodeSha256 as VersionedHashDef>::VERSION_BYTE == 1, "version byte");
        assert!(ContractCodeSha256::CODE_AT_REST_MARKER == 0 && ContractCodeSha256::YET_CONSTRUCTED_MARKER == 1, "markers");
        let _ = s;
    }

    #[kani::proof]
    fn lemma_serialize_of_parse(s) {
        let mut b = s.bytes32();
        b[0] = 1;
        let h = Hash::try_create_from_raw(b);
        assert!(h.is_some(), "version byte 1 parses");
        let h = h.unwrap();
        assert!(h.serialize() == Some(b), "parse then serialize is the identity");
        let stored = h.serialize_to_stored();
        let mut at_rest = b;
        at_rest[1] = 0;
        assert!(stored == Some(at_rest), "the stored form differs only in a zero marker");
        let again = Hash::try_create_from_raw(at_rest);
        assert!(again.is_some() && again.unwrap().layout_ref().extra_marker == ContractCodeSha256::CODE_AT_REST_MARKER, "the stored form is code at rest");
    }

    #[kani::proof]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::serialize))]
    fn lemma_parse_of_serialize(s) {
        let (m, n, d) = (s.u8(), s.u16(), digest(s));
        let b = super::serialize(m, n, d);
        let r = super::parse(b.unwrap());
        let same = match r {
            None => false,
            Some(t) => {
                let mut same = t.extra_marker == m && t.code_length_in_words == n;
                let mut i = 0;
                while i < 28 {
                    same = same && t.partial_hash[i] == d[i];
                    i += 1;
                }
                same
            }
        };
        assert!(same, "serialize then parse is the identity");
    }

    #[kani::proof]
    fn lemma_built_hash(s) {
        let (b, n) = (s.bytes32(), s.u16());
        let h = super::build(b, n);
        let r = h.serialize();
        let mut e = b;
        e[0] = 1;
        e[1] = 0;
        e[2] = (n >> 8) as u8;
        e[3] = n as u8;
        assert!(r == Some(e) && h.serialize_to_stored() == Some(e), "a built hash serializes as code at rest");
    }
}
