//! C23: the command-line prover and verifier agree with the library.
//! Every execution runs the real command in a scratch directory of its own.
#[path = "../../kit/cairo.rs"]
mod cairo;
use cairo::*;
use harness::{guard, Ch, Level};
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as S;
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, PublicInputs};
use lambdaworks_stark::cairo::runner::run::{generate_prover_args, CairoVersion};
use lambdaworks_stark::starks::proof::{options::ProofOptions, stark::StarkProof};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, limit: *const RLimit) -> i32;
}
const CPU: i32 = 0;
const CORE: i32 = 4;
const AS: i32 = 9;

static NEXT: AtomicUsize = AtomicUsize::new(0);
/// A scratch directory that goes away with the execution.
struct Scratch(PathBuf);
impl Scratch {
    fn new(root: &Path) -> Scratch {
        let p = root.join(format!("x{}", NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    fn put(&self, name: &str, bytes: &[u8]) -> String {
        let p = self.0.join(name);
        std::fs::write(&p, bytes).unwrap();
        p.to_str().unwrap().to_string()
    }
    fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
    fn listing(&self) -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(&self.0).unwrap().map(|e| e.unwrap().file_name().to_str().unwrap().to_string()).collect();
        v.sort();
        v
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug)]
struct Said {
    /// ended by a signal or by a panic
    crash: Option<String>,
    success: bool,
    complaint: bool,
    wrote: bool,
    text: String,
}
fn run(cli: &Path, dir: &Path, args: &[String]) -> Said {
    let mut c = Command::new(cli);
    c.args(args).current_dir(dir).stdin(Stdio::null()).env("RUST_BACKTRACE", "0");
    // SAFETY: setrlimit is async-signal-safe
    unsafe {
        c.pre_exec(|| {
            for (what, n) in [(CPU, 60u64), (CORE, 0), (AS, 4 << 30)] {
                setrlimit(what, &RLimit { cur: n, max: n });
            }
            Ok(())
        });
    }
    let o = c.output().unwrap_or_else(|e| panic!("cannot run {}: {e}", cli.display()));
    let (out, err) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
    let crash = match (o.status.signal(), o.status.code()) {
        (Some(s), _) => Some(format!("signal {s}")),
        (_, Some(101)) => Some("panic".to_string()),
        _ => None,
    };
    let low = format!("{out}\n{err}").to_lowercase();
    Said {
        crash,
        success: low.contains("verification succe"),
        complaint: ["error", "fail", "usage", "unknown", "invalid"].iter().any(|w| low.contains(w)),
        wrote: low.contains("proof written"),
        text: format!("{} | {}", out.trim().replace('\n', " / "), err.trim().lines().take(3).collect::<Vec<_>>().join(" / ")).chars().take(300).collect(),
    }
}

type Parts = (StarkProof<S>, PublicInputs);
/// What a proof file contains, by its documented layout.
fn read(bytes: &[u8]) -> Option<Parts> {
    let n = u64::from_be_bytes(bytes.get(..8)?.try_into().unwrap());
    let n = usize::try_from(n).ok()?;
    let rest = &bytes[8..];
    if n > rest.len() {
        return None;
    }
    let p = guard(|| StarkProof::<S>::deserialize(&rest[..n]).ok()).ok().flatten()?;
    let i = guard(|| PublicInputs::deserialize(&rest[n..]).ok()).ok().flatten()?;
    Some((p, i))
}
fn accepted(bytes: &[u8]) -> Option<bool> {
    let (p, i) = read(bytes)?;
    Some(guard(|| verify_cairo_proof(&p, &i, &ProofOptions::default_test_options())).unwrap_or(false))
}
fn file_of(p: &Parts) -> Vec<u8> {
    let a = p.0.serialize();
    let mut v = (a.len() as u64).to_be_bytes().to_vec();
    v.extend(a);
    v.extend(p.1.serialize());
    v
}

fn same_inputs(a: &PublicInputs, b: &PublicInputs) -> bool {
    (a.pc_init, a.ap_init, a.fp_init, a.pc_final, a.ap_final) == (b.pc_init, b.ap_init, b.fp_init, b.pc_final, b.ap_final)
        && (a.range_check_min, a.range_check_max, a.num_steps) == (b.range_check_min, b.range_check_max, b.num_steps)
        && a.memory_segments == b.memory_segments
        && a.public_memory == b.public_memory
}

/// The programs: what they are, whether they run.
fn programs() -> Vec<(&'static str, Vec<u8>, bool)> {
    let push = |v: i64| vec![FE::from(ins(('a', 0), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::One, Opc::Assert).word()), fe(v)];
    let ret = FE::from(template(18, 0, 0).0.word());
    let mut two = push(7);
    two.extend(push(8));
    two.push(ret);
    let wrong = [push(7), vec![FE::from(ins(('a', -1), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::Same, Opc::Assert).word()), fe(9), ret]].concat();
    let (rc, rc_names) = builtin_main(Some(&[fe(3)]), Some(&[fe(5), fe(6)]), 0);
    let (rc_bad, rc_bad_names) = builtin_main(None, Some(&[fe(-5)]), 0);
    let main = [("main", 0usize)];
    let good = json(&two, &[], &main);
    let mut v = vec![
        ("two pushes", good.clone(), true),
        ("one return", json(&[ret], &[], &main), true),
        ("output and range check", json(&rc, &rc_names, &main), true),
        ("entry in the middle", json(&two, &[], &[("main", 2)]), true),
        ("unequal assertion", json(&wrong, &[], &main), false),
        ("value out of range", json(&rc_bad, &rc_bad_names, &main), false),
        ("no main", json(&two, &[], &[("other", 0)]), false),
        ("unknown builtin", json(&two, &["abacus"], &main), false),
        ("builtin outside the layout", json(&two, &["bitwise"], &main), false),
        ("runs off its end", json(&push(7), &[], &main), false),
        ("no instruction at the entry", json(&two, &[], &[("main", 900)]), false),
        ("not an instruction", json(&[fe(-1)], &[], &main), false),
        ("empty data", json(&[], &[], &main), false),
        ("empty file", vec![], false),
        ("not JSON", b"lambda".to_vec(), false),
        ("JSON without data", b"{\"builtins\":[]}".to_vec(), false),
        ("cut JSON", good[..good.len() / 2].to_vec(), false),
        ("not text", vec![0xff, 0xfe, 0, 1], false),
    ];
    v.push(("proof file as program", vec![0; 64], false));
    v
}
const CASM: &str = "/repo/cairo_programs/cairo1/fibonacci_cairo1.casm";

fn main() {
    harness::main("C23", Level::FaultEnumeration, |ctx| {
        ctx.rule("every command, argument count and kind of file as a run of the real command in its own directory; every truncation point and every byte position of proof files with a menu of damages; every program that fails to load or run; the verdict printed is compared with the library's verdict on the file's content; non-trivial: distinct command line or file");
        ctx.assume("the command is built against stand-ins for lambdaworks-math, lambdaworks-crypto, cairo-vm and bincode");
        let cli = std::env::current_exe().unwrap().parent().unwrap().join("lambdaworks-stark");
        if !cli.exists() {
            ctx.error(format!("{} has not been built", cli.display()));
            return;
        }
        let root = std::env::temp_dir().join(format!("verif-c23-{}", std::process::id()));
        std::fs::create_dir_all(&root).unwrap();
        let gone = Scratch(root.clone());
        let (cli, root) = (cli.as_path(), root.as_path());
        let progs = programs();
        let opts = ProofOptions::default_test_options();
        // proof files made by the library, as references
        let by_lib = |i: usize| -> Option<Parts> {
            guard(|| {
                let (t, p) = generate_prover_args(&progs[i].1, &CairoVersion::V0, &None).ok()?;
                let proof = generate_cairo_proof(&t, &p, &opts).ok()?;
                Some((proof, p))
            })
            .ok()
            .flatten()
        };
        let refs: Vec<Option<Vec<u8>>> = (0..3).map(|i| by_lib(i).map(|p| file_of(&p))).collect();

        ctx.explore("invocations", |ch: &mut Ch| {
            const COMMANDS: [&str; 9] = ["prove", "verify", "prove_and_verify", "", "Verify", "prove ", "help", "--verify", "verify_proof"];
            let n = ch.range(0, 4);
            let cmd = if n > 0 { ch.of(&COMMANDS) } else { "" };
            let s = Scratch::new(root);
            let good = s.put("good.json", &progs[0].1);
            let bad = s.put("bad.json", &progs[4].1);
            let proof = match &refs[0] {
                Some(b) => s.put("good.proof", b),
                None => {
                    ch.fail("reference", "the library cannot prove the reference program".to_string());
                    return;
                }
            };
            std::fs::create_dir(s.path("dir")).unwrap();
            let kinds = [("program", good), ("failing program", bad), ("proof", proof), ("missing", s.path("missing")), ("directory", s.path("dir")), ("empty name", String::new()), ("below a missing directory", s.path("no/where"))];
            let mut args = vec![];
            let mut what = vec![];
            if n > 0 {
                args.push(cmd.to_string());
            }
            for _ in 1..n {
                let (k, p) = kinds[ch.pick(kinds.len())].clone();
                what.push(k);
                args.push(p);
            }
            ch.state(&(cmd, &what));
            let before = s.listing();
            let said = run(cli, &s.0, &args);
            let tell = || format!("{cmd:?} with {what:?}: {said:?}");
            if let Some(c) = &said.crash {
                ch.fail(&*format!("crash:{}", if what.is_empty() { "usage" } else { what[0] }), format!("{c}: {}", tell()));
                return;
            }
            let enough = match cmd {
                "prove" => n >= 3,
                "verify" | "prove_and_verify" => n >= 2,
                _ => false,
            };
            let input = what.first().copied();
            let proved = enough && input == Some("program") && cmd != "verify";
            let verifies = enough && match cmd {
                "verify" => input == Some("proof"),
                "prove_and_verify" => input == Some("program"),
                _ => false,
            };
            ch.check(said.success == verifies, "verdict", || format!("expected success report: {verifies}: {}", tell()));
            if !verifies && !proved {
                ch.check(said.complaint, "silent", || format!("no message about the problem: {}", tell()));
            }
            let after = s.listing();
            let target = what.get(1).copied();
            let writes = proved && cmd == "prove";
            match (writes, target) {
                (true, Some("missing")) => {
                    let f = std::fs::read(s.path("missing")).ok();
                    ch.check(f.as_deref().and_then(accepted) == Some(true), "file", || format!("the library does not accept the written file ({:?} bytes): {}", f.as_ref().map(|f| f.len()), tell()));
                    ch.check(said.wrote, "unreported", || tell());
                }
                (true, Some("directory" | "empty name" | "below a missing directory")) => {
                    ch.check(after == before && said.complaint && !said.wrote, "unwritable", || format!("{after:?}: {}", tell()));
                }
                (true, Some("proof" | "program" | "failing program")) => {
                    let name = match target {
                        Some("proof") => "good.proof",
                        Some("program") => "good.json",
                        _ => "bad.json",
                    };
                    let f = std::fs::read(s.path(name)).ok();
                    ch.check(f.as_deref().and_then(accepted) == Some(true), "file", || format!("overwriting {name}: {}", tell()));
                }
                _ => {
                    ch.check(after == before, "file-left", || format!("files before {before:?}, after {after:?}: {}", tell()));
                    ch.check(!said.wrote, "reported-writing", || tell());
                    for (name, want) in [("good.json", &progs[0].1), ("bad.json", &progs[4].1), ("good.proof", refs[0].as_ref().unwrap())] {
                        ch.check(std::fs::read(s.path(name)).ok().as_ref() == Some(want), "input-changed", || format!("{name}: {}", tell()));
                    }
                }
            }
            ch.validated(1);
            ch.outcome(if verifies || proved { "worked" } else { "refused" });
        });

        ctx.explore("programs", |ch| {
            let k = ch.pick(progs.len() + 1);
            let cmd = ch.of(&["prove", "prove_and_verify"]);
            let existing = cmd == "prove" && ch.flag();
            let s = Scratch::new(root);
            let (name, file, runs): (&str, String, bool) = if k < progs.len() {
                (progs[k].0, s.put("p.json", &progs[k].1), progs[k].2)
            } else {
                let Ok(b) = std::fs::read(CASM) else { return };
                ("casm contract", s.put("p.casm", &b), true)
            };
            let out = s.path("out.proof");
            if existing {
                s.put("out.proof", b"old");
            }
            ch.state(&(k, cmd, existing));
            let mut args = vec![cmd.to_string(), file];
            if cmd == "prove" {
                args.push(out.clone());
            }
            let said = run(cli, &s.0, &args);
            let tell = || format!("{cmd} of {name}: {said:?}");
            ch.check(said.crash.is_none(), "crash:program", || tell());
            if cmd == "prove" {
                let f = std::fs::read(&out).ok();
                if runs {
                    ch.check(f.as_deref().and_then(accepted) == Some(true) && said.wrote, "file", || format!("{:?} bytes written: {}", f.as_ref().map(|f| f.len()), tell()));
                    // the parts are those of the library
                    if let (Some(got), true) = (f.as_deref().and_then(read), k < progs.len()) {
                        if let Some(want) = by_lib(k) {
                            ch.check(got.0.serialize() == want.0.serialize() && same_inputs(&got.1, &want.1), "content", || format!("the file is not the library's proof: {}", tell()));
                        }
                    }
                    let again = run(cli, &s.0, &["verify".to_string(), out.clone()]);
                    ch.check(again.success && again.crash.is_none(), "round-trip", || format!("{name}: verify said {again:?}"));
                } else {
                    let intact = if existing { f.as_deref() == Some(b"old") } else { f.is_none() };
                    ch.check(intact && !said.wrote, "file-left", || format!("{:?} bytes left behind: {}", f.as_ref().map(|f| f.len()), tell()));
                    ch.check(said.complaint, "silent", || tell());
                }
            } else {
                ch.check(said.success == runs, "verdict", || tell());
                ch.check(runs || said.complaint, "silent", || tell());
                ch.check(s.listing().len() == 1, "file-left", || format!("{:?}: {}", s.listing(), tell()));
            }
            ch.validated(1);
            ch.outcome(if runs { "program runs" } else { "program fails" });
        });

        // one verdict of the command against the library's
        let verdict = |ch: &mut Ch, intact: bool, bytes: &[u8], what: &dyn Fn() -> String, region: &str| {
            let s = Scratch::new(root);
            let f = s.put("x.proof", bytes);
            let said = run(cli, &s.0, &["verify".to_string(), f]);
            if let Some(c) = &said.crash {
                ch.fail(&*format!("crash:{region}"), format!("{}: {c}: {said:?}", what()));
                return;
            }
            let lib = accepted(bytes);
            ch.check(said.success == (lib == Some(true)), &format!("disagrees:{region}"), || format!("{}: library {lib:?}, command {said:?}", what()));
            if intact {
                ch.check(said.success, "intact-refused", || format!("{}: {said:?}", what()));
            } else {
                ch.check(!said.success, &format!("accepted:{region}"), || format!("{}: {said:?}", what()));
                ch.check(said.complaint, &format!("silent:{region}"), || format!("{}: {said:?}", what()));
            }
            ch.outcome(match (lib, said.success) {
                (None, false) => "unreadable, reported",
                (_, true) => "accepted",
                _ => "failed, reported",
            });
        };
        let region = |b: &[u8], at: usize| {
            let n = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize;
            match at {
                0..=7 => "length",
                a if a < 8 + n => "proof",
                _ => "inputs",
            }
        };
        let files: Vec<Vec<u8>> = refs.iter().flatten().cloned().collect();
        let used: Vec<usize> = ctx.tier(vec![1], vec![0, 1, 2]);
        if files.len() == 3 {
            ctx.explore("truncations", |ch| {
                let f = &files[ch.of(&used)];
                let n = ch.range(0, f.len());
                ch.state(&ch.choices());
                verdict(ch, n == f.len(), &f[..n], &|| format!("first {n} of {} bytes", f.len()), region(f, n));
            });
            ctx.explore("one damaged byte", |ch| {
                let f = &files[ch.of(&used)];
                let at = ch.pick(f.len());
                let menu: &[(u8, u8)] = ch.ctx.tier(&[(0, 1)], &[(0, 1), (0, 0x80), (0, 0xff), (1, 0), (1, 0xff)]);
                let (kind, v) = ch.of(menu);
                let mut b = f.clone();
                b[at] = if kind == 0 { b[at] ^ v } else { v };
                if b[at] == f[at] {
                    return;
                }
                ch.state(&ch.choices());
                verdict(ch, false, &b, &|| format!("byte {at} of {}: {} -> {}", f.len(), f[at], b[at]), region(f, at));
            });
            ctx.explore("every damage of the frame", |ch| {
                // each byte of the length prefix and of the public inputs, every value
                let f = &files[if ch.ctx.thorough() { ch.pick(3) } else { 1 }];
                let n = u64::from_be_bytes(f[..8].try_into().unwrap()) as usize;
                let places = 8 + (f.len() - 8 - n);
                let at = ch.pick(places);
                let at = if at < 8 { at } else { n + at };
                let v = ch.pick(if at < 8 || ch.ctx.thorough() { 256 } else { 9 });
                let v = if at < 8 || ch.ctx.thorough() { v as u8 } else if v < 8 { f[at] ^ 1 << v } else { !f[at] };
                if v == f[at] {
                    return;
                }
                let mut b = f.clone();
                b[at] = v;
                ch.state(&(at, v));
                verdict(ch, false, &b, &|| format!("byte {at} of {}: {} -> {v}", f.len(), f[at]), region(f, at));
            });
            ctx.explore("rearranged files", |ch| {
                let parts: Vec<Parts> = files.iter().map(|f| read(f).unwrap()).collect();
                let (a, b) = (ch.pick(3), ch.pick(3));
                let (p, i) = (parts[a].0.serialize(), parts[b].1.serialize());
                let kind = ch.pick(9);
                let len = (p.len() as u64).to_be_bytes().to_vec();
                let (bytes, same): (Vec<u8>, bool) = match kind {
                    0 => ([len, p, i].concat(), true),
                    // anything behind, before or instead
                    1 => ([len, p, i, vec![0]].concat(), false),
                    2 => ([len, p, i.clone(), i].concat(), false),
                    3 => ([vec![0], len, p, i].concat(), false),
                    4 => ([len, i, p].concat(), false),
                    5 => ([(p.len() as u64).to_le_bytes().to_vec(), p, i].concat(), false),
                    6 => ([(p.len() as u32).to_be_bytes().to_vec(), p, i].concat(), false),
                    7 => ([u64::MAX.to_be_bytes().to_vec(), p, i].concat(), false),
                    _ => ([0u64.to_be_bytes().to_vec(), i].concat(), false),
                };
                ch.state(&(a, b, kind));
                verdict(ch, same && a == b, &bytes, &|| format!("proof {a}, inputs {b}, arrangement {kind}"), "arrangement");
            });
        } else {
            ctx.explore("truncations", |ch| ch.fail("reference", "the library cannot prove the reference programs".to_string()));
        }
        drop(gone);
    });
}
