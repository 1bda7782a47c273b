#!/usr/bin/env python3
"""Decides one property of /repo:  check.py PROPERTY [quick|thorough]

Steps, all from /repo's current working tree:
  1. build the harness crate natively against /repo and evaluate the input-free globals (tables.rs);
  2. discharge the contracts with Kani (and, for C09, Verus on the extracted ceil_div);
  3. run the same harness bodies natively on enumerated and seeded inputs;
  4. replay every counterexample on the real code, report, and write evidence/<PROPERTY>.json.
Exit 0: nothing violated; 1: VIOLATION; 2: the machinery itself could not run (e.g. /repo does not build).
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF / "tools"))
from registry import PROPERTIES, COMMON_TRUSTED

HARNESS = VERIF / "harness"
TARGET = VERIF / "target"
GEN = TARGET / "gen"
REPO = Path("/repo")

PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
P = PROPERTIES[PID]
MOD = PID.lower()
START = time.time()
LIMIT = {"quick": 780, "thorough": 6 * 3600}[TIER]
HARNESS_LIMIT = {"quick": 240, "thorough": 3600}[TIER]

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", VP_GEN_DIR=str(GEN), CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)


def left():
    return LIMIT - (time.time() - START)


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout, cwd=HARNESS):
    """(exit code or None on timeout, output); the whole process group is ended on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(5, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def write_if_changed(path, text):
    if not path.exists() or path.read_text() != text:
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(text)


class Broken(Exception):
    pass


# ------------------------------------------------------------------ native side

def features(extra=()):
    f = [MOD, *extra]
    if TIER == "thorough":
        f.append("thorough")
    return f


def native_build(feats):
    rc, out = run(["cargo", "build", "--offline", "-q", "--bin", "vpnative", "--target-dir", str(TARGET / "native"),
                   "--features", ",".join(feats)], min(600, left()))
    if rc != 0:
        raise Broken("the harness crate does not build against /repo:\n" + out[-6000:])
    exe = TARGET / "native/debug/vpnative"
    keep = TARGET / "bin" / MOD
    keep.parent.mkdir(parents=True, exist_ok=True)
    shutil.copy2(exe, keep)
    return keep


def native(exe, *args, timeout=120):
    rc, out = run([str(exe), *map(str, args)], min(timeout, max(10, left())), cwd=TARGET)
    return rc, out


def native_parallel(exe, names, ms):
    """[(harness, exit code, output)] of a longer native run of several harnesses at once"""
    todo, running, done = list(names), [], []
    end = time.time() + max(20, left() - 30)
    while (todo or running) and time.time() < end:
        while todo and len(running) < 8:
            n = todo.pop()
            o = open(TARGET / "log" / f"{PID}.{n.replace('::', '.')}.native", "w+")
            running.append((n, subprocess.Popen([str(exe), "sample", str(SEED + 2), str(ms), n], cwd=TARGET, env=ENV, stdout=o,
                                                stderr=subprocess.STDOUT, text=True, start_new_session=True), o))
        for r in list(running):
            if r[1].poll() is not None:
                running.remove(r)
                r[2].seek(0)
                done.append((r[0], r[1].returncode, r[2].read()))
        time.sleep(0.2)
    for n, p, o in running:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        o.seek(0)
        done.append((n, None, o.read()))
    return done


# ------------------------------------------------------------------ C09: mechanical extraction

def braces(text, at):
    """index after the brace block that starts at text[at] == '{' (comments and strings skipped)"""
    depth, i = 0, at
    while i < len(text):
        c = text[i]
        if text.startswith("//", i):
            i = text.find("\n", i)
            if i < 0:
                return None
            continue
        if text.startswith("/*", i):
            i = text.find("*/", i) + 2
            continue
        if c == '"':
            i += 1
            while i < len(text) and text[i] != '"':
                i += 2 if text[i] == "\\" else 1
        elif c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    return None


UNITS = ["CYCLES_PER_VM_SNAPSHOT", "CYCLES_PER_RAM_PERMUTATION", "2 * CYCLES_PER_CODE_DECOMMITTER", "CYCLES_PER_STORAGE_APPLICATION",
         "CYCLES_FOR_CODE_DECOMMITTER_SORTER", "CYCLES_FOR_LOG_DEMUXER", "CYCLES_FOR_STORAGE_SORTER",
         "CYCLES_FOR_EVENTS_OR_L1_MESSAGES_SORTER", "LIMIT_FOR_INITIAL_WRITES_PUBDATA_HASHER",
         "LIMIT_FOR_REPEATED_WRITES_PUBDATA_HASHER", "CYCLES_FOR_CODE_DECOMMITTER_SORTER", "LIMIT_FOR_L1_MESSAGES_MERKLIZER",
         "CYCLES_PER_KECCAK256_CIRCUIT", "CYCLES_PER_SHA256_CIRCUIT", "CYCLES_PER_ECRECOVER_CIRCUIT",
         "LIMIT_FOR_INITIAL_WRITES_PUBDATA_HASHER", "LIMIT_FOR_REPEATED_WRITES_PUBDATA_HASHER", "LIMIT_FOR_REPEATED_WRITES_PUBDATA_HASHER"]


def extract_pricing():
    """pricing.rs = text of the generator without its leading inner attributes, plus three accessors, each under its feature"""
    src = REPO / "src/circuit_pricing_generator/main.rs"
    text = src.read_text() if src.exists() else ""
    lines = [l for l in text.split("\n") if not re.match(r"\s*(#!\[|//!)", l)]
    body = "\n".join(lines)
    # a code decommitment round outputs two words
    arms = "".join(f" {i} => {u.replace('* ', '* (') + ' as u64)' if '*' in u else u + ' as u64'}," for i, u in enumerate(UNITS))
    tail = ("\npub fn vp_main() { let _ = main(); }\n"
            '#[cfg(feature = "ceil")]\npub fn vp_ceil_div(a: u32, b: u32) -> u32 { ceil_div(a, b) }\n'
            f'#[cfg(feature = "units")]\npub fn vp_units(i: u16) -> u64 {{ match i {{{arms} _ => unreachable!() }} }}\n')
    write_if_changed(GEN / "pricing.rs", body + tail)
    return body


PRICING = [("ceil", "units"), ("units",), ("ceil",), ("gen",), ()]


def pricing_build(undecided):
    """(binary, features) of the first combination of accessors that compiles"""
    for i, extra in enumerate(PRICING):
        try:
            exe = native_build([*features(), *extra])
        except Broken:
            if i == len(PRICING) - 1:
                raise
            continue
        for f in ("ceil", "units"):
            if f not in extra:
                undecided.append(f"the generator has no accessible {dict(ceil='ceil_div', units='circuit units')[f]}: what needs it is not checked")
        return exe, [*features(), *extra]


VERUS = """// extracted mechanically from /repo/src/circuit_pricing_generator/main.rs by check.py
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
verus! {
proof fn quotient(x: int, b: int)
    requires b > 0, x >= 0,
    ensures (x / b) * b <= x, x < (x / b) * b + b, (x / b) * b == b * (x / b), x / b >= 0,
            (x / b + 1) * b == (x / b) * b + b, (x / b - 1) * b == (x / b) * b - b,
            x % b == x - (x / b) * b,
{
    lemma_fundamental_div_mod(x, b);
    lemma_mod_bound(x, b);
    lemma_div_pos_is_pos(x, b);
    assert((x / b) * b == b * (x / b)) by(nonlinear_arith);
    assert((x / b + 1) * b == (x / b) * b + b) by(nonlinear_arith);
    assert((x / b - 1) * b == (x / b) * b - b) by(nonlinear_arith);
}
fn ceil_div(@A@: u32, @B@: u32) -> (r: u32)
    requires @B@ > 0, @A@ + @B@ <= u32::MAX,
    ensures r * @B@ >= @A@, r == 0 || (r - 1) * @B@ < @A@,
{
    proof {
        quotient(@A@ + @B@ - 1, @B@ as int);
        quotient(@A@ as int, @B@ as int);
        if @A@ > 0 { quotient(@A@ - 1, @B@ as int); }
    }
@BODY@
}
} // verus!
fn main() {}
"""


def verus_ceil_div(body):
    """{'status': proved|undecided, ...} for the real text of ceil_div"""
    m = re.search(r"(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?fn\s+ceil_div\s*\(\s*(\w+)\s*:\s*u32\s*,\s*(\w+)\s*:\s*u32\s*,?\s*\)\s*->\s*u32\s*(?=\{)", body)
    if not m:
        return dict(status="undecided", why="ceil_div(u32, u32) -> u32 not found in the generator")
    end = braces(body, m.end())
    if end is None:
        return dict(status="undecided", why="end of ceil_div not found")
    text = VERUS.replace("@A@", m.group(1)).replace("@B@", m.group(2)).replace("@BODY@", body[m.end() + 1:end - 1])
    return run_verus(text, "ceil_div.rs", 2, ["ceil_div"], body[m.end():end])


# bit operations are uninterpreted to Verus: a contract that fails on a text with them may still hold
BITS = r"(?:>>|<<|\^|&|\|)\s*\(*\s*[0-9]|\bas\s+(?:u8|u32|u128|i\w+)\b|>>|<<|\^"
REFUTED = r"postcondition not satisfied|invariant not satisfied at end of loop body"


def run_verus(text, name, at_least, functions, bodies):
    f = GEN / name
    write_if_changed(f, text)
    t = time.time()
    rc, out = run(["sh", "-c", 'verus "$0" --output-json --rlimit 60 2>"$0.err"', str(f)], min(200, left()), cwd=TARGET)
    try:
        j = json.loads(out)
        out = Path(f"{f}.err").read_text()
        v = j["verification-results"]
        named = all(any(d.endswith("::" + n) for d in j["func-details"]) for n in functions)
        ok = rc == 0 and v["success"] and v["verified"] >= at_least and v["errors"] == 0 and named
        # refuted: the text is within Verus's reach, and nothing but the stated contracts fails
        reasons = [l for l in re.findall(r"^error(?:\[\w+\])?: (.*)$", out, re.M) if not l.startswith("aborting")]
        refuted = v["errors"] > 0 and named and reasons and not re.search(BITS, bodies) and all(re.match(REFUTED, l) for l in reasons)
        return dict(status="proved" if ok else "refuted" if refuted else "undecided", verified=v.get("verified", 0), errors=v.get("errors", 0),
                    file=name, time_s=round(time.time() - t, 2), output="" if ok else out[-3000:])
    except (ValueError, KeyError):
        return dict(status="undecided", why="no verdict from Verus", file=name, output=out[-3000:], time_s=round(time.time() - t, 2))


def block(text, head):
    """(match, text between the braces) of the first item whose head matches"""
    m = re.search(head + r"\s*(?=\{)", text)
    end = m and braces(text, m.end())
    return (m, text[m.end() + 1:end - 1]) if end else (None, None)


def verus_hashing():
    """contract on the real text of bytecode_to_code_hash and bytecode_to_code_hash_for_mode, for any number of words"""
    src = REPO / "src"
    try:
        text = (HARNESS / "verus/utils.rs").read_text()
        utils, counters = (src / "utils.rs").read_text(), (src / "decoding/mod.rs").read_text()
        modes = {k: (src / f"decoding/encoding_mode_{k}.rs").read_text() for k in ("production", "testing")}
    except OSError as e:
        return dict(status="undecided", why=str(e))
    impls = []
    for ty, modulus in (("u16", "0x1_0000"), ("u32", "0x1_0000_0000")):
        m, b = block(counters, rf"impl\s+AllowedPcOrImm\s+for\s+{ty}\b")
        if not m:
            return dict(status="undecided", why=f"impl AllowedPcOrImm for {ty} not found")
        impls.append(f"impl AllowedPcOrImm for {ty} {{\nopen spec fn value(&self) -> u64 {{ *self as u64 }}\n"
                     f"open spec fn modulus() -> int {{ {modulus} }}\n{b}}}\n")
    put = {"PC_IMPLS": "".join(impls)}
    for k, t in modes.items():
        m = re.search(r"\btype\s+PcOrImm\s*=\s*(\w+)\s*;", t)
        if not m:
            return dict(status="undecided", why=f"counter type of the {k} mode not found")
        put["PC_" + k.upper()] = m.group(1)
    arg = r"\s*\(\s*(\w+)\s*:\s*&\s*\[\s*\[\s*u8\s*;\s*32\s*\]\s*\]\s*,?\s*\)\s*->\s*Result\s*<\s*\[\s*u8\s*;\s*32\s*\]\s*,\s*\(\s*\)\s*>"
    m, b = block(utils, r"\bpub\s+fn\s+bytecode_to_code_hash" + arg)
    n, d = block(utils, r"\bpub\s+fn\s+bytecode_to_code_hash_for_mode\s*<\s*const\s+N\s*:\s*usize\s*,\s*E\s*:\s*VmEncodingMode\s*<\s*N\s*>\s*>" + arg)
    h = d and re.search(r"let\s+mut\s+(\w+)\s*=\s*(?:\w+::)*Sha256::(?:new|default)\(\)", d)
    if not m or not n or not h:
        return dict(status="undecided", why="the hashing functions do not have the expected heads")
    put.update(ENTRY_ARG=m.group(1), ENTRY_BODY=b, ARG=n.group(1))
    fed = lambda n: f"{h.group(1)}.fed() == concat({put['ARG']}@, {n} as nat)"
    loops = [(r"for\s+(\w+)\s+in\s+0\s*\.\.([^{;]*?)\s*$", lambda m: f"for {m[1]} in 0..{m[2]} invariant {fed(m[1])},"),
             (r"for\s+(&?\s*\w+)\s+in\s+([^{;]*?)\s*$", lambda m: f"for {m[1]} in vp_it: {m[2]} invariant {fed('vp_it.index@')},"),
             (r"while\s+(\w+)\s*(<|!=)([^{;]*?)\s*$",
              lambda m: f"while {m[1]} {m[2]}{m[3]} invariant {fed(m[1])}, {m[1]} <= {put['ARG']}@.len(), decreases {put['ARG']}@.len() - {m[1]},")]
    out, at = "", 0
    for k in re.finditer(r"\b(?:for|while|loop)\b[^{;]*(?=\{)", re.sub(r"//.*", lambda c: " " * len(c[0]), d)):
        end = braces(d, k.end())
        m, form = next(((m, f) for pattern, f in loops if (m := re.match(pattern, k[0]))), (None, None))
        if not m or not end or f"{h.group(1)}.update(" not in d[k.end():end] and "update(&mut" not in d[k.end():end]:
            return dict(status="undecided", why="a loop of an unknown form")
        out, at = out + d[at:k.start()] + form(m) + " ", k.end()
    d = out + d[at:]
    put.update(BODY=d, BITS=f"bits({put['ARG']}.len());" if re.search(BITS, d) else "")
    for k, v in put.items():
        text = text.replace(f"@{k}@", v)
    return run_verus(text, "utils_contract.rs", 15, ["bytecode_to_code_hash", "bytecode_to_code_hash_for_mode"], put["ENTRY_BODY"] + put["BODY"])


# ------------------------------------------------------------------ Kani

UNDECIDABLE = re.compile(
    r"unwinding assertion|not currently supported|unsupported|is not supported|vp-internal|recursion unwinding|"
    r"timed out|out of memory|Kani does not|call to foreign|assigns clause|is assignable|is freeable|"
    r"ptr NULL|no-body", re.I)


def kani_cmd(feats, extra):
    return ["cargo", "kani", "--target-dir", str(TARGET / "kani"), "--lib", "-Z", "stubbing", "-Z", "function-contracts",
            "-Z", "unstable-options", "--harness-timeout", f"{HARNESS_LIMIT}s",
            "--features", ",".join(["tables", *feats]), *extra]


def parse_kani(out):
    """harness -> dict(ok, checks, failed, undetermined, covers, satisfied, time_s, messages)"""
    res, cur, of = {}, None, {}
    for line in out.split("\n"):
        m = re.match(r"^(Thread \d+: ?)?(.*)$", line)
        th, text = (m.group(1) or "").strip(), m.group(2)
        h = re.search(r"Checking harness (\S+?)\.\.\.", text)
        if h:
            of[th] = h.group(1)
            res.setdefault(h.group(1), dict(ok=None, checks=0, failed=0, undetermined=0, covers=0, satisfied=0, time_s=0.0, messages=[]))
            cur = h.group(1)
            continue
        if th:
            cur = of.get(th, cur)
        if cur is None:
            continue
        r = res[cur]
        if k := re.search(r"\*\* (\d+) of (\d+) failed(.*)", text):
            r["failed"], r["checks"] = int(k.group(1)), int(k.group(2))
            if u := re.search(r"(\d+) undetermined", k.group(3)):
                r["undetermined"] = int(u.group(1))
        elif k := re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", text):
            r["satisfied"], r["covers"] = int(k.group(1)), int(k.group(2))
        elif k := re.search(r"Verification Time: ([\d.]+)s", text):
            r["time_s"] = float(k.group(1))
        elif "VERIFICATION:- SUCCESSFUL" in text:
            r["ok"] = True
        elif "VERIFICATION:- FAILED" in text:
            r["ok"] = False
        elif k := re.search(r"Failed Checks: (.*)", text):
            r["messages"].append(k.group(1).strip())
        elif re.search(r"timed out|CBMC failed|out of memory|exceeded", text, re.I):
            r["messages"].append("tool: " + text.strip())
    return res


def playback(feats, harness):
    """counterexample vectors Kani prints for a failing harness: list of byte-vector lists"""
    rc, out = run(kani_cmd(feats, ["--harness", harness, "--exact", "--no-assertion-reach-checks", "-Z", "concrete-playback",
                                   "--concrete-playback=print"]), min(HARNESS_LIMIT * 1.5, left()))
    vectors = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        vectors.append([[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([\d,\s]*)\]", block)])
    if not vectors and re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[\];", out):
        vectors.append([])
    return vectors, out


def verdict(r):
    """('ok' | 'failed' | 'undecided', messages) of one harness"""
    if r["ok"]:
        if r["covers"] > r["satisfied"]:
            return "undecided", [f"{r['covers'] - r['satisfied']} reachability witnesses not satisfied"]
        return ("ok", []) if r["checks"] else ("undecided", ["no obligations"])
    if r["ok"] is None:
        return "undecided", ["no verdict within the time limit"]
    real = [m for m in r["messages"] if not UNDECIDABLE.search(m)]
    if real and not r["messages"][0].startswith("tool:"):
        return "failed", real
    return "undecided", r["messages"] or ["failed without a failed check"]


STATE = re.compile(r"(?<!')\bstatic\b(?!\s+ref\b)|\bthread_local\b|\bAtomic\w+|\w*Cell\b|\bOnce\w*|\bLazyLock\b|\bMutex\b|\bRwLock\b")


def keeps_state():
    """whether a function of the crate could remember an earlier call (only decides how much is run)"""
    for f in sorted((REPO / "src").rglob("*.rs")):
        if STATE.search(re.sub(r"//.*", "", f.read_text(errors="replace"))):
            return True
    return False


# ------------------------------------------------------------------ main

def replay_file(harness, head, vector, verifier=""):
    d = TARGET / "replay"
    d.mkdir(parents=True, exist_ok=True)
    f = d / f"{PID}-{harness.replace('::', '.')}.txt"
    text = "".join(f"# {l}\n" for l in head)
    if vector is not None:
        text += "".join(" ".join(f"{b:02x}" for b in v) + "\n" for v in vector)
    text += "".join(f"# {l}\n" for l in verifier.split("\n")) if verifier else ""
    f.write_text(text)
    return f


def main():
    notes, undecided, violations = [], [], []
    feats = features()
    verus = None
    if PID == "C09":
        body = extract_pricing()
        exe, feats = pricing_build(undecided)
    else:
        exe = native_build(feats)
    rc, out = native(exe, "dump", GEN, timeout=120)
    if rc != 0:
        raise Broken("dump failed:\n" + out[-3000:])
    missing = re.findall(r"^MISSING (.*)$", out, re.M)
    for m in missing:
        notes.append("not evaluable: " + m)

    # native side of the same harnesses (a bounded stand-in wherever the proof is undecided)
    per_ms = int({"quick": 1500, "thorough": 60000}[TIER])
    rc, out = native(exe, "sample", SEED, per_ms, timeout=min(300 if TIER == "quick" else 3600, left()))
    if rc != 0:
        raise Broken(f"native run ended with {rc}:\n" + out[-3000:])
    ran = {m[0]: dict(runs=int(m[1]), rejected=int(m[2]), exhaustive=m[3] == "true")
           for m in re.findall(r"^RAN (\S+) runs=(\d+) rejected=(\d+) exhaustive=(\w+)$", out, re.M)}
    native_failed = {}
    for name, msg, inputs in re.findall(r"^FAILED (\S+) \| (.*) \| (.*)$", out, re.M):
        native_failed[name] = (msg, inputs)

    if PID == "C09":
        verus = verus_ceil_div(body)
    elif PID == "C16":
        verus = verus_hashing()
    if verus and verus["status"] == "undecided":
        undecided.append(f"Verus, {verus.get('file', '')}: " + verus.get("why", "not proved: " + verus.get("output", "")[:500]))

    known = [l.strip() for l in (VERIF / "known-findings.txt").read_text().split("\n") if l.startswith("known: ") and f"property={PID} " in l]
    listed = lambda n, msg: any(f"harness={n} " in l and msg in l for l in known)
    replayed, hunted = {}, None

    def confirm(n, rounds):
        """replay the verifier's counterexamples on the real code"""
        passed, pout = False, ""
        for h, messages, with_feats, _ in rounds:
            if h in replayed:
                passed, pout = replayed[h]
                continue
            vectors, pout = playback(with_feats, h)
            for v in vectors:
                f = replay_file(n, [f"property {PID}, harness {n}", "failed obligations: " + "; ".join(messages),
                                    f"rerun: {exe} replay {n} <this file>"], v)
                rc, o = native(exe, "replay", n, f)
                if "CONFIRMED" in o:
                    with open(f, "a") as fh:
                        fh.write("".join("# " + l + "\n" for l in o.split("\n")))
                    violations.append((n, messages[0], f, True))
                    return True
                passed = passed or "PASSED" in o
            replayed[h] = passed, pout
        return False

    def give_up(n, rounds):
        """no counterexample that fails on the real code: look harder there, then report or leave undecided"""
        messages = [m for r in rounds for m in r[1]]
        passed, pout = any(replayed[r[0]][0] for r in rounds), replayed[rounds[-1][0]][1]
        rc, o = native(exe, "sample", SEED + 1, 15000, n, timeout=120)
        k = re.search(r"^FAILED (\S+) \| (.*) \| (.*)$", o, re.M)
        if k:
            f = replay_file(n, [f"property {PID}, harness {n}", f"fails on the real code: {k.group(2)}", f"inputs: {k.group(3)}"], None)
            violations.append((n, k.group(2), f, True))
        elif n == hunted and verus["status"] != "refuted":
            pass  # already listed as undecided
        elif passed or missing:
            undecided.append(f"{n}: the verifier's counterexample does not fail on the real code ({'; '.join(messages[:3])})")
        else:
            f = replay_file(n, [f"property {PID}, harness {n}", "failed obligations: " + "; ".join(messages)], None, pout[-6000:])
            violations.append((n, messages[0], f, False))

    # proofs
    t = time.time()
    cmd = kani_cmd(feats, ["--output-format", "terse", "-j", "8"])
    rc, kout = run(cmd, min(left() - 60, LIMIT))
    (TARGET / "log").mkdir(exist_ok=True)
    (TARGET / "log" / f"{PID}.kani").write_text(kout)
    results = parse_kani(kout)
    if not results and rc is not None and left() > 300:
        # the globals may be of other types than the stubs expect: prove what does not need them
        undecided.append("the proofs that see the lazily built globals do not build: " + kout[-700:])
        feats = [*feats, "bare"]
        cmd = kani_cmd(feats, ["--output-format", "terse", "-j", "8"])
        rc, kout = run(cmd, min(left() - 60, LIMIT))
        (TARGET / "log" / f"{PID}.kani").write_text(kout)
        results = parse_kani(kout)
    if not results:
        undecided.append("Kani did not run any harness: " + (kout[-1500:] if rc is not None else "timeout"))
    name_of = lambda h: re.sub(r"^props::(.*)::proof$", r"\1", h)
    verdicts = {name_of(h): verdict(r) for h, r in results.items()}
    skip = set(P["native_only"]) | (set() if TIER == "thorough" else set(P["thorough_only"]))
    for n in ran:
        if n.split("::")[-1] not in skip:
            verdicts.setdefault(n, ("undecided", ["not reached by the verifier in this run"]))
    # quick tier: once a violation is established, the remaining obligations are not waited for
    settled = TIER == "quick" and any(not listed(n, msg) for n, (msg, _) in native_failed.items())
    for h, r in results.items():
        n = name_of(h)
        if TIER == "quick" and not settled and verdicts[n][0] == "failed":
            settled = confirm(n, [(h, verdicts[n][1], feats, "failed")]) and not listed(n, verdicts[n][1][0])
    # second round: the obligations again as plain assertions, each harness run twice in a row, so that they are also
    # discharged in whatever state a first call leaves. Always in the thorough tier; in the quick tier for what the first
    # round left open, and for everything when the crate keeps state
    stateful = keeps_state()
    again = sorted(verdicts) if TIER == "thorough" or stateful else sorted(n for n, v in verdicts.items() if v[0] == "undecided")
    history, hist_feats = {}, [*feats, "history"]
    if results and again and left() > 200 and not settled:
        only = [x for n in again for x in ("--harness", f"props::{n}::proof")] + ["--exact"] if len(again) < len(verdicts) else []
        rc, hout = run(kani_cmd(hist_feats, ["--output-format", "terse", "-j", "8", *only]), min(left() - 120, LIMIT))
        (TARGET / "log" / f"{PID}.history").write_text(hout)
        history = parse_kani(hout)
    kani_s = time.time() - t
    proved, bounded_ok, failing, twice = [], [], [], []
    second = {name_of(h): (h, verdict(r)) for h, r in history.items()}
    first = {name_of(h): h for h in results}
    for n, (v, why) in sorted(verdicts.items()):
        h2, (v2, why2) = second.get(n, (None, (None, None)))
        if "failed" in (v, v2):
            failing.append((n, [x for x in ((first.get(n), why, feats, v), (h2, why2, hist_feats, v2)) if x[3] == "failed"]))
        elif v == "ok" or v2 == "ok":
            (bounded_ok if any(b in n for b in P.get("bounded", ())) else proved).append(n)
            if v != "ok":
                notes.append(f"{n}: discharged by the second round only; first round: " + "; ".join(why[:2])[:200])
                results[h2] = history[h2]
            if v2 == "ok":
                twice.append(n)
        else:
            undecided.append(f"{n}: " + "; ".join(why[:4]))

    # a longer native run of everything left open
    opened = [n for n, (v, _) in verdicts.items() if v == "undecided" and second.get(n, (0, (0, 0)))[1][0] not in ("ok", "failed")]
    if verus and verus["status"] != "proved":
        opened += [n for n in ran if n.split("::")[-1] in P["native_only"]]
    opened = sorted(n for n in opened if n in ran and (stateful or not ran[n]["exhaustive"]) and n not in native_failed)
    if opened and left() > 60 and not settled:
        ms = int(min(60, (left() - 50) * 8 / max(8, len(opened))) * 1000)
        for n, rc, o in native_parallel(exe, opened, ms):
            for name, msg, inputs in re.findall(r"^FAILED (\S+) \| (.*) \| (.*)$", o, re.M):
                native_failed[name] = (msg, inputs)

    # a contract Verus does not prove: for ceil_div, Kani searches all pairs of operands for one that fails; for the hashing
    # functions a refuted contract is reported, with or without an input
    if verus and verus["status"] != "proved" and not settled:
        if PID == "C09" and "ceil" in feats:
            hunted = "c09::ceil::any_operands"
            failing.append((hunted, [(f"props::{hunted}::proof", ["contract of ceil_div, not proved by Verus"], [*feats, "hunt"], "failed")]))
        elif PID == "C16" and verus["status"] == "refuted":
            f = replay_file(verus["file"], [f"property {PID}, obligation of {verus['file']} refused by Verus"], None, verus["output"])
            violations.append((verus["file"], "contract of the hashing functions, refuted by Verus", f, False))

    # violations found natively: the input itself is the counterexample on the real code
    for n, (msg, inputs) in native_failed.items():
        f = replay_file(n, [f"property {PID}, harness {n}", f"fails on the real code: {msg}", f"inputs in drawing order: {inputs}",
                            f"rerun: VP_GEN_DIR={GEN} {exe} sample {SEED} {per_ms} {n}"], None)
        violations.append((n, msg, f, True))

    for n, rounds in failing:
        if n in native_failed or n in (v[0] for v in violations):
            continue
        if settled:
            notes.append(f"{n}: failed ({'; '.join(m for r in rounds for m in r[1])[:200]}), not replayed")
        elif not confirm(n, rounds):
            give_up(n, rounds)

    # evidence
    obligations = sum(r["checks"] for r in results.values()) + (verus.get("verified", 0) + verus.get("errors", 0) if verus else 0)
    # a harness without a verdict counts as one obligation that is not discharged
    obligations += sum(1 for r in results.values() if r["checks"] == 0) + (0 if results else 1)
    good = set(proved) | set(bounded_ok)
    discharged = sum(r["checks"] - r["failed"] - r["undetermined"] for h, r in results.items() if name_of(h) in good) + (verus.get("verified", 0) if verus else 0)
    b_obl = sum(r["checks"] for h, r in results.items() if any(b in name_of(h) for b in P.get("bounded", ())))
    coverage = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=" ".join(cmd) + (f" ; verus target/gen/{verus.get('file')} --output-json" if verus else ""),
        trusted_base=COMMON_TRUSTED + P.get("trusted", []),
        obligations_of_bounded_harnesses=b_obl,
        functions_under_contract=P["functions"],
        proved_harnesses=proved, proved_for_a_second_call=twice, bounded_harnesses=bounded_ok, bound=P.get("bound", "none"), undecided=undecided,
        back_ends="Kani 0.68 (CBMC 6 with CaDiCaL)" + (f"; Verus (Z3) for {verus.get('file')}: {verus['status']}, {verus.get('verified', 0)} obligations" if verus else ""),
        solver_time_s=round(sum(r["time_s"] for r in results.values()) + (verus.get("time_s", 0) if verus else 0), 1),
        reachability_witnesses=f"{sum(r['satisfied'] for r in results.values())} of {sum(r['covers'] for r in results.values())} satisfied",
        native_evaluations=sum(r["runs"] - r["rejected"] for r in ran.values()),
        natively_exhaustive_harnesses=sorted(n for n, r in ran.items() if r["exhaustive"]),
        kani_wall_s=round(kani_s, 1),
        slowest=sorted(((round(r["time_s"], 1), name_of(h)) for h, r in results.items()), reverse=True)[:5],
        notes=notes,
    )
    reported = []
    for n, msg, f, confirmed in violations:
        if listed(n, msg):
            say(f"KNOWN-FINDING: property={PID} {n}: {msg}")
        else:
            reported.append((n, msg, f, confirmed))
    evidence(coverage, len(reported))
    say(f"{PID} {TIER}: {len(proved)} harnesses proved, {len(bounded_ok)} bounded, {len(undecided)} undecided, "
        f"{discharged}/{obligations} obligations, {coverage['native_evaluations']} native evaluations, {time.time() - START:.0f}s")
    for u in undecided:
        say("UNDECIDED " + u[:600].replace("\n", " "))
    # one line per property; a counterexample confirmed on the real code goes first
    reported.sort(key=lambda v: not v[3])
    for n, msg, f, confirmed in reported:
        say(f"failed: {n}: {msg}" + ("" if confirmed else " (no failing input found)"))
    if reported:
        n, msg, f, confirmed = reported[0]
        say(f"VIOLATION property={PID} replay={f}" + ("" if confirmed else " no-failing-input-found"))
        return 1
    return 0


def evidence(coverage, violations):
    (VERIF / "evidence").mkdir(exist_ok=True)
    e = dict(property=PID, tier=TIER, seed=SEED, level=P["level"], coverage=coverage,
             assumptions=P.get("assumptions", []), wall_s=round(time.time() - START, 1), violations=violations)
    (VERIF / "evidence" / f"{PID}.json").write_text(json.dumps(e, indent=1) + "\n")


if __name__ == "__main__":
    TARGET.mkdir(exist_ok=True)
    with open(TARGET / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        START = time.time()
        try:
            sys.exit(main())
        except Broken as e:
            say("ERROR", e)
            sys.exit(2)
