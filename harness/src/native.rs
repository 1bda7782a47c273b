//! Native driver: evaluates the input-free globals, replays counterexamples, samples harnesses.
//!   vpnative dump DIR                      write DIR/tables.rs from the real code
//!   vpnative replay HARNESS FILE           replay one counterexample (lines of hex byte vectors)
//!   vpnative sample SEED LIMIT_MS [NAME..] run harnesses natively on enumerated and seeded inputs
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use vp_contracts::dense::*;
use vp_contracts::props;
use vp_contracts::real;
use vp_contracts::src::Src;

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
        .replace('\n', " ")
}

fn item<T>(missing: &mut Vec<String>, name: &str, default: T, f: impl FnOnce() -> T) -> T {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            println!("MISSING {name}: {}", panic_text(e));
            missing.push(name.into());
            default
        }
    }
}

fn array<T: std::fmt::Debug>(out: &mut String, name: &str, ty: &str, v: &[T]) {
    let _ = writeln!(out, "pub static {name}: [{ty}; {}] = {v:?};", v.len());
}

fn fit(v: &[u16], n: usize) -> Vec<u16> {
    assert_eq!(v.len(), n, "table length");
    v.to_vec()
}

fn dump(dir: &str) {
    let mut o = String::from("// values of the input-free globals of /repo, evaluated natively in this run\n");
    let m = &mut vec![];
    let bad = |n: usize| vec![UNKNOWN; n];
    let t = item(m, "OPCODES_TABLE", bad(2048), || fit(&real::default_rows(), 2048));
    array(&mut o, "DEFAULT", "u16", &t);
    for v in 0..2u8 {
        let t = item(m, "synthesize_opcode_decoding_tables(11)", bad(2048), || fit(real::synthesized(v), 2048));
        array(&mut o, &format!("SYN{v}"), "u16", &t);
        let t = item(m, "synthesize_opcode_decoding_tables(12)", bad(4096), || fit(real::wide(v), 4096));
        array(&mut o, &format!("WIDE{v}"), "u16", &t);
        let (f, c) = item(m, "synthesize_opcode_decoding_tables(11)", (bad(VARIANTS), bad(VARIANTS)), || real::inverse(v).clone());
        array(&mut o, &format!("FIRST{v}"), "u16", &f);
        array(&mut o, &format!("COUNT{v}"), "u16", &c);
    }
    let t = item(m, "synthesize_opcode_decoding_tables_legacy(11)", bad(2048), || fit(real::legacy(), 2048));
    array(&mut o, "LEGACY0", "u16", &t);
    let t = item(m, "OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP", bad(VARIANTS), || (0..VARIANTS as u16).map(real::lookup_canonical).collect());
    array(&mut o, "MAP_CANONICAL", "usize", &t);
    let t = item(m, "OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP", bad(VARIANTS), || (0..VARIANTS as u16).map(real::lookup_monotonic).collect());
    array(&mut o, "MAP_MONOTONIC", "usize", &t);
    let t = item(m, "OPCODES_PRICES", vec![0; 2048], || (0..2048).map(real::published_price).collect());
    array(&mut o, "PRICES", "u32", &t);
    let t = item(m, "OPCODES_PROPS_INTEGER_BITMASKS", vec![0; 2048], || (0..2048).map(real::published_bitmask).collect());
    array(&mut o, "BITMASKS", "u64", &t);
    let ok = |d: u16| if (d as usize) < VARIANTS { d } else { 0 };
    let v = item(m, "NOP_OPCODE_VARIANT", 0, || ok(real::nop_variant()));
    let _ = writeln!(o, "pub const NOP_VARIANT: u16 = {v};");
    let v = item(m, "PANIC_OPCODE_VARIANT", 0, || ok(real::panic_variant()));
    let _ = writeln!(o, "pub const PANIC_VARIANT: u16 = {v};");
    let v = item(m, "NOP_BITSPREAD_U64", 0, real::nop_bitspread);
    let _ = writeln!(o, "pub const NOP_BITSPREAD: u64 = {v};");
    let v = item(m, "PANIC_BITSPREAD_U64", 0, real::panic_bitspread);
    let _ = writeln!(o, "pub const PANIC_BITSPREAD: u64 = {v};");
    for (n, f) in [
        ("NUM_LOGICAL_OPCODES", real::num_logical_opcodes as fn() -> usize),
        ("NUM_INPUT_VARIANTS", real::num_input_variants),
        ("NUM_OUTPUT_VARIANTS", real::num_output_variants),
    ] {
        let v = item(m, n, 0, f);
        let _ = writeln!(o, "pub const {n}: usize = {v};\npub static {n}_REF: usize = {v};");
    }
    let a: Vec<[u8; 20]> = (0..7)
        .map(|i| item(m, "formal address", [0xff; 20], || real::formal_address(i)))
        .collect();
    array(&mut o, "FORMAL_ADDRESSES", "[u8; 20]", &a);
    #[cfg(any(feature = "c04", feature = "c05"))]
    {
        let a: Vec<[[u32; 3]; 10]> = (0..3)
            .map(|v| item(m, "synthesize_opcode_decoding_tables(11..=20)", [[0; 3]; 10], || std::array::from_fn(|w| real::wide_summary(v, w + 11))))
            .collect();
        array(&mut o, "WIDTHS", "[[u32; 3]; 10]", &a);
    }
    #[cfg(feature = "c20")]
    {
        let a: Vec<[u32; 11]> = (0..16)
            .map(|i| item(m, "OPCODE_PROTOTYPES", [u32::MAX; 11], || real::prototype(i)))
            .collect();
        array(&mut o, "PROTOTYPES", "[u32; 11]", &a);
        let a: Vec<[u32; 6]> = (0..2)
            .map(|v| item(m, "compute_decoding_format", [u32::MAX; 6], || real::format_numbers(v)))
            .collect();
        array(&mut o, "FORMAT", "[u32; 6]", &a);
    }
    #[cfg(all(feature = "c09", feature = "gen"))]
    {
        let g = item(m, "circuit price generator", vec![None; 18], || props::c09::generated_all().clone());
        array(&mut o, "GENERATED", "Option<u32>", &g);
    }
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(format!("{dir}/tables.rs"), o).unwrap();
}

fn find(name: &str) -> fn(&mut Src) {
    props::all()
        .into_iter()
        .find(|(n, _)| n == name)
        .unwrap_or_else(|| panic!("no harness {name}"))
        .1
}

fn replay(name: &str, file: &str) {
    let text = std::fs::read_to_string(file).unwrap();
    let values = text
        .lines()
        .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
        .map(|l| l.split_whitespace().map(|b| u8::from_str_radix(b, 16).unwrap()).collect())
        .collect();
    let mut s = Src::replay(values);
    let f = find(name);
    let mut r = catch_unwind(AssertUnwindSafe(|| f(&mut s)));
    // a proof over two rounds leaves the values of the second
    if r.is_ok() && !s.rejected && s.more() {
        r = catch_unwind(AssertUnwindSafe(|| f(&mut s)));
    }
    let inputs: Vec<String> = s.log.iter().map(|(t, v)| format!("{t}={v:#x}")).collect();
    println!("INPUTS {}", inputs.join(" "));
    match r {
        Err(e) if !s.rejected => println!("CONFIRMED {}", panic_text(e)),
        _ if s.rejected => println!("REJECTED input outside the precondition"),
        _ => println!("PASSED"),
    }
}

fn sample(seed: u64, limit: Duration, names: &[String]) {
    for (name, f) in props::all() {
        if !names.is_empty() && !names.contains(&name) {
            continue;
        }
        let start = Instant::now();
        let mut s = Src::enumerate(seed);
        let (mut runs, mut rejected, mut complete) = (0u64, 0u64, false);
        let mut fail = None;
        let mut scatter = false;
        loop {
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut s)));
            runs += 1;
            if s.rejected {
                rejected += 1;
            } else if let Err(e) = r {
                let inputs: Vec<String> = s.log.iter().map(|(t, v)| format!("{t}={v:#x}")).collect();
                fail = Some((panic_text(e), inputs.join(" ")));
                break;
            }
            let words = s.drew_words();
            if scatter || s.points() > 3e5 {
                scatter = true;
                s.scatter();
            } else if !s.advance() {
                if !words {
                    complete = true;
                    // a run of named harnesses lasts until its time is up: all inputs again and again
                    if names.is_empty() {
                        break;
                    }
                }
            }
            if runs % 64 == 0 && start.elapsed() > limit {
                break;
            }
        }
        println!("RAN {name} runs={runs} rejected={rejected} exhaustive={complete}");
        if let Some((m, i)) = fail {
            println!("FAILED {name} | {m} | {i}");
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "dump" => dump(&a[2]),
        "replay" => replay(&a[2], &a[3]),
        "sample" => sample(a[2].parse().unwrap(), Duration::from_millis(a[3].parse().unwrap()), &a[4..]),
        _ => panic!("usage"),
    }
}
