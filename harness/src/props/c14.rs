//! C14 precompile-call and VM-metadata words are packed losslessly.
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

fn pair(lo: u32, hi: u32) -> u64 {
    lo as u64 | (hi as u64) << 32
}

contract! {
    fn inner_pack(i: (u32, u32), o: (u32, u32), p: (u32, u32), data: u64) -> [u64; 4];
    ensures |r| r[0] == pair(i.0, i.1) && r[1] == pair(o.0, o.1) && r[2] == pair(p.0, p.1) && r[3] == data;
    {
        PrecompileCallInnerABI {
            input_memory_offset: i.0,
            input_memory_length: i.1,
            output_memory_offset: o.0,
            output_memory_length: o.1,
            memory_page_to_read: p.0,
            memory_page_to_write: p.1,
            precompile_interpreted_data: data,
        }
        .to_u256()
        .0
    }
}

contract! {
    fn inner_unpack(w: [u64; 4]) -> PrecompileCallInnerABI;
    ensures |r| pair(r.input_memory_offset, r.input_memory_length) == w[0];
    ensures |r| pair(r.output_memory_offset, r.output_memory_length) == w[1];
    ensures |r| pair(r.memory_page_to_read, r.memory_page_to_write) == w[2];
    ensures |r| r.precompile_interpreted_data == w[3];
    { PrecompileCallInnerABI::from_u256(U256(w)) }
}

contract! {
    fn user_unpack(w: [u64; 4]) -> PrecompileCallABI;
    ensures |r| pair(r.input_memory_offset, r.input_memory_length) == w[0];
    ensures |r| pair(r.output_memory_offset, r.output_memory_length) == w[1];
    ensures |r| r.per_precompile_interpreted == w[3];
    { PrecompileCallABI::from_u256(U256(w)) }
}

contract! {
    fn meta_pack(ergs: u32, heap: u32, aux: u32, this: u8, caller: u8, code: u8) -> [u64; 4];
    ensures |r| r[0] == ergs as u64;
    ensures |r| r[1] == pair(heap, aux);
    ensures |r| r[2] == 0;
    ensures |r| r[3] as u32 == 0;
    ensures |r| (r[3] >> 32) as u8 == this && (r[3] >> 40) as u8 == caller && (r[3] >> 48) as u8 == code && r[3] >> 56 == 0;
    {
        VmMetaParameters {
            ergs_per_pubdata_byte: ergs,
            heap_size: heap,
            aux_heap_size: aux,
            this_shard_id: this,
            caller_shard_id: caller,
            code_shard_id: code,
        }
        .to_u256()
        .0
    }
}

suite! {
    fn pack_inner(s) checks super::inner_pack {
        let (a, b, c, d, e, f, g) = (s.u32(), s.u32(), s.u32(), s.u32(), s.u32(), s.u32(), s.u64());
        super::inner_pack((a, b), (c, d), (e, f), g);
    }

    fn unpack_inner(s) checks super::inner_unpack {
        let w = s.words();
        super::inner_unpack(w);
    }

    fn unpack_user(s) checks super::user_unpack {
        let w = s.words();
        super::user_unpack(w);
    }

    fn pack_meta(s) checks super::meta_pack {
        let (a, b, c, d, e, f) = (s.u32(), s.u32(), s.u32(), s.u8(), s.u8(), s.u8());
        super::meta_pack(a, b, c, d, e, f);
    }

    #[kani::proof]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::inner_pack))]
    fn lemma_unpack_of_pack(s) {
        let (a, b, c, d, e, f, g) = (s.u32(), s.u32(), s.u32(), s.u32(), s.u32(), s.u32(), s.u64());
        let w = super::inner_pack((a, b), (c, d), (e, f), g);
        let r = super::inner_unpack(w);
        assert!(r.input_memory_offset == a && r.input_memory_length == b, "input survives packing");
        assert!(r.output_memory_offset == c && r.output_memory_length == d, "output survives packing");
        assert!(r.memory_page_to_read == e && r.memory_page_to_write == f, "pages survive packing");
        assert!(r.precompile_interpreted_data == g, "data survives packing");
        let u = super::user_unpack(w);
        assert!(u.input_memory_offset == a && u.input_memory_length == b && u.output_memory_offset == c && u.output_memory_length == d && u.per_precompile_interpreted == g, "user-facing parameters read the same positions");
    }

    #[kani::proof]
    #[cfg_attr(not(feature = "history"), kani::stub_verified(super::inner_pack))]
    fn lemma_pack_of_unpack(s) {
        let w = s.words();
        let r = super::inner_unpack(w);
        let v = super::inner_pack(
            (r.input_memory_offset, r.input_memory_length),
            (r.output_memory_offset, r.output_memory_length),
            (r.memory_page_to_read, r.memory_page_to_write),
            r.precompile_interpreted_data,
        );
        assert!(v == w, "packing the unpacked word gives the word back");
    }
}
