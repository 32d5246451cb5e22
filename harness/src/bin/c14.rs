//! C14: register traces and memory dumps are imported and exported faithfully.
use harness::{guard, Ch, Level};
use bincode::enc::write::Writer;
use cairo_vm::felt::Felt252;
use cairo_vm::vm::trace::trace_entry::TraceEntry;
use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as S;
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use lambdaworks_stark::cairo::runner::{file_writer::FileWriter, vec_writer::VecWriter};
use std::collections::BTreeMap;
use std::path::PathBuf;

type FE = FieldElement<S>;

/// A scratch directory of this process and thread.
fn scratch(name: &str) -> PathBuf {
    let root = std::env::var("VERIF_ROOT").unwrap_or(".".into());
    let d = PathBuf::from(format!("{root}/work/c14-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&d).unwrap();
    d.join(name)
}
fn clean() {
    let root = std::env::var("VERIF_ROOT").unwrap_or(".".into());
    if let Ok(rd) = std::fs::read_dir(format!("{root}/work")) {
        let me = format!("c14-{}-", std::process::id());
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with(&me) {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}

/// A field element from its 32 big-endian bytes.
fn felt(b: &[u8; 32]) -> FE {
    let mut x = FE::zero();
    let k = FE::from(256u64);
    for v in b {
        x = x * &k + FE::from(*v as u64);
    }
    x
}
fn word(i: usize) -> u64 {
    match i % 7 {
        0 => i as u64,
        1 => u64::MAX - i as u64,
        2 => 1 << 63 | i as u64,
        3 => 0x0102030405060708 + i as u64,
        4 => 1 << (8 * (i % 8)),
        5 => 255 << (8 * (i % 8)),
        _ => 0,
    }
}
fn value(i: usize) -> [u8; 32] {
    let mut b = [0u8; 32];
    match i % 5 {
        0 => b[31] = i as u8,
        1 => {
            // p - 1
            let p1 = (-FE::one()).to_bytes_be();
            b.copy_from_slice(&p1);
        }
        2 => b[1 + i % 31] = 0xa5,
        3 => {
            for (k, x) in b.iter_mut().enumerate().skip(1) {
                *x = (k * 7 + i) as u8;
            }
        }
        _ => {}
    }
    b
}

fn traces_agree(ch: &Ch, bytes: &[u8], want: Option<&[RegistersState]>, what: &dyn Fn() -> String, file: bool) {
    ch.ops(1);
    let judge = |how: &str, r: Result<Option<Vec<RegistersState>>, String>| match r {
        Err(e) => ch.fail(format!("trace-{how}-panics"), format!("{e}: {}", what())),
        Ok(got) => {
            if got.as_deref() != want {
                let key = match (&got, want) {
                    (Some(_), None) => "accepted-partial-record",
                    (None, Some(_)) => "refused",
                    _ => "wrong-entries",
                };
                ch.fail(format!("trace-{how}-{key}"), format!("{}: {:?} instead of {:?}", what(), got.as_ref().map(|g| &g[..g.len().min(3)]), want.map(|g| &g[..g.len().min(3)])));
            }
            ch.outcome(if got.is_some() { "trace read" } else { "trace refused" });
        }
    };
    judge("bytes", guard(|| RegisterStates::from_bytes_le(bytes).ok().map(|s| s.rows)));
    if file {
        let p = scratch("trace");
        std::fs::write(&p, bytes).unwrap();
        judge("file", guard(|| RegisterStates::from_file(p.to_str().unwrap()).ok().map(|s| s.rows)));
    }
}
fn memories_agree(ch: &Ch, bytes: &[u8], want: Option<&BTreeMap<u64, FE>>, what: &dyn Fn() -> String, file: bool) {
    ch.ops(1);
    let judge = |how: &str, r: Result<Option<BTreeMap<u64, FE>>, String>| match r {
        Err(e) => ch.fail(format!("memory-{how}-panics"), format!("{e}: {}", what())),
        Ok(got) => {
            if got.as_ref() != want {
                let key = match (&got, want) {
                    (Some(_), None) => "accepted-partial-record",
                    (None, Some(_)) => "refused",
                    _ => "wrong-entries",
                };
                ch.fail(format!("memory-{how}-{key}"), format!("{}: {:?} entries instead of {:?}", what(), got.as_ref().map(|g| g.len()), want.map(|g| g.len())));
            }
            ch.outcome(if got.is_some() { "memory read" } else { "memory refused" });
        }
    };
    let sorted = |m: CairoMemory| {
        let n = m.len();
        let all: BTreeMap<u64, FE> = m.data.iter().map(|(k, v)| (*k, *v)).collect();
        if n != all.len() || all.iter().any(|(k, v)| m.get(k) != Some(v)) || m.is_empty() != all.is_empty() {
            ch.fail("memory-lookup", "get / len / is_empty disagree with the entries");
        }
        all
    };
    judge("bytes", guard(|| CairoMemory::from_bytes_le(bytes).ok().map(sorted)));
    if file {
        let p = scratch("memory");
        std::fs::write(&p, bytes).unwrap();
        judge("file", guard(|| CairoMemory::from_file(p.to_str().unwrap()).ok().map(sorted)));
    }
}

/// An export to memory, and the same bytes piecewise through the file writer.
fn both(ch: &Ch, what: &str, want: &[u8], export: impl FnOnce(&mut VecWriter)) {
    ch.ops(2);
    let mut out = vec![];
    let a = guard(|| {
        let mut w = VecWriter::new(&mut out);
        export(&mut w);
        w.flush().is_ok()
    });
    ch.check(a == Ok(true) && out == want, "large-export", || format!("{what}: {a:?}, {} bytes instead of {}", out.len(), want.len()));
    let p = scratch("large");
    let b = guard(|| {
        let mut w = FileWriter::new(std::io::BufWriter::new(std::fs::File::create(&p).unwrap()));
        want.chunks(8).all(|c| w.write(c).is_ok()) && w.flush().is_ok()
    });
    let f = std::fs::read(&p).unwrap_or_default();
    ch.check(b == Ok(true) && f == want, "large-export-file", || format!("{what}: {b:?}, {} bytes instead of {}", f.len(), want.len()));
}

fn main() {
    harness::main("C14", Level::ModelChecking, |ctx| {
        ctx.rule("dumps of every number of entries up to a bound with entries at all byte positions and extremes; every length in bytes; exports of all hole patterns; writer call sequences; each read in memory and from a file and compared with an independent encoding; non-trivial: distinct dump");
        let nmax = ctx.tier(40, 300);
        ctx.explore("register traces", |ch| {
            let n = ch.range(0, nmax);
            let shift = ch.range(0, 13);
            let rows: Vec<RegistersState> = (0..n).map(|i| RegistersState { ap: word(3 * i + shift), fp: word(3 * i + 1 + shift), pc: word(3 * i + 2 + 2 * shift) }).collect();
            let mut b = vec![];
            for r in &rows {
                b.extend(r.ap.to_le_bytes());
                b.extend(r.fp.to_le_bytes());
                b.extend(r.pc.to_le_bytes());
            }
            ch.state(&b);
            ch.validated(1);
            traces_agree(ch, &b, Some(&rows), &|| format!("{n} entries, pattern {shift}"), shift == 0 || ch.ctx.thorough());
            // every incomplete last record
            for extra in 1..24 {
                let mut x = b.clone();
                x.resize(b.len() + extra, 0x5a);
                traces_agree(ch, &x, None, &|| format!("{n} entries and {extra} more bytes"), shift == 0 && n < 8);
            }
            // each field of each entry by itself
            if n > 0 && n <= 6 {
                for i in 0..n {
                    for k in 0..24 {
                        let mut x = b.clone();
                        x[24 * i + k] ^= 0x40;
                        let mut want = rows.clone();
                        let f = match k / 8 {
                            0 => &mut want[i].ap,
                            1 => &mut want[i].fp,
                            _ => &mut want[i].pc,
                        };
                        *f ^= 0x40 << (8 * (k % 8));
                        traces_agree(ch, &x, Some(&want), &|| format!("{n} entries, byte {k} of entry {i}"), false);
                    }
                }
            }
        });
        ctx.explore("memory dumps", |ch| {
            let n = ch.range(0, nmax);
            let shift = ch.range(0, 9);
            let mut want = BTreeMap::new();
            let mut b = vec![];
            for i in 0..n {
                let mut a = word(i + shift);
                while want.contains_key(&a) {
                    a = a.wrapping_add(0x1_0000_0001);
                }
                let v = value(i + shift);
                want.insert(a, felt(&v));
                b.extend(a.to_le_bytes());
                b.extend(v.iter().rev());
            }
            ch.state(&b);
            ch.validated(1);
            memories_agree(ch, &b, Some(&want), &|| format!("{n} cells, pattern {shift}"), shift == 0 || ch.ctx.thorough());
            for extra in 1..40 {
                let mut x = b.clone();
                x.resize(b.len() + extra, 1);
                memories_agree(ch, &x, None, &|| format!("{n} cells and {extra} more bytes"), shift == 0 && n < 4);
            }
            // a cell's bytes never reach another cell
            if n > 0 && n <= 5 {
                for i in 0..n {
                    for k in 0..39 {
                        let mut x = b.clone();
                        x[40 * i + k] ^= 2;
                        let mut w = BTreeMap::new();
                        for j in 0..n {
                            let r = &x[40 * j..40 * j + 40];
                            let mut v: [u8; 32] = r[8..].try_into().unwrap();
                            v.reverse();
                            w.insert(u64::from_le_bytes(r[..8].try_into().unwrap()), felt(&v));
                        }
                        // two entries for one address are no dump, a value above the modulus is no field element
                        if w.len() == n && x[40 * i + 39] < 8 {
                            memories_agree(ch, &x, Some(&w), &|| format!("{n} cells, byte {k} of cell {i}"), false);
                        }
                    }
                }
            }
        });
        ctx.explore("every length", |ch| {
            let n = ch.range(0, ch.ctx.tier(1000, 6000));
            let b = vec![0u8; n];
            let rows = vec![RegistersState { ap: 0, fp: 0, pc: 0 }; n / 24];
            traces_agree(ch, &b, (n % 24 == 0).then_some(&rows[..]), &|| format!("{n} zero bytes"), n < 200);
            let m: BTreeMap<u64, FE> = if n >= 40 { [(0u64, FE::zero())].into() } else { BTreeMap::new() };
            memories_agree(ch, &b, (n % 40 == 0).then_some(&m), &|| format!("{n} zero bytes"), n < 200);
            ch.state(&n);
        });
        // sizes around every power of two and buffer size: a narrowed counter or a block boundary
        let big: Vec<usize> = (8..=ctx.tier(17, 20)).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([8192 / 24, 8192 / 24 + 1, 8192 / 40, 8192 / 40 + 1]).collect();
        ctx.explore("large dumps", |ch| {
            let n = ch.of(&big);
            match ch.pick(3) {
                0 => {
                    let rows: Vec<RegistersState> = (0..n).map(|i| RegistersState { ap: word(3 * i), fp: word(3 * i + 1), pc: word(3 * i + 2) }).collect();
                    let mut b = vec![];
                    for r in &rows {
                        b.extend(r.ap.to_le_bytes());
                        b.extend(r.fp.to_le_bytes());
                        b.extend(r.pc.to_le_bytes());
                    }
                    traces_agree(ch, &b, Some(&rows), &|| format!("{n} entries"), true);
                    traces_agree(ch, &b[..b.len() - 1], None, &|| format!("{n} entries but for one byte"), true);
                    let t: Vec<TraceEntry> = rows.iter().map(|r| TraceEntry { pc: r.pc as usize, ap: r.ap as usize, fp: r.fp as usize }).collect();
                    both(ch, &format!("export of {n} entries"), &b, |w| w.write_encoded_trace(&t));
                }
                k => {
                    // all cells, or every third one missing
                    let cells: Vec<Option<Felt252>> = (0..n).map(|i| if k == 2 && i % 3 == 1 { None } else { Some(Felt252(felt(&value(i % 1000)))) }).collect();
                    let mut want = BTreeMap::new();
                    let mut b = vec![];
                    for (i, c) in cells.iter().enumerate() {
                        if let Some(c) = c {
                            want.insert(i as u64, c.0);
                            b.extend((i as u64).to_le_bytes());
                            b.extend(value(i % 1000).iter().rev());
                        }
                    }
                    memories_agree(ch, &b, Some(&want), &|| format!("{n} addresses, {} cells", want.len()), true);
                    memories_agree(ch, &b[..b.len() - 1], None, &|| format!("{} cells but for one byte", want.len()), true);
                    both(ch, &format!("export of {n} addresses"), &b, |w| w.write_encoded_memory(&cells));
                }
            }
            ch.state(&(n, ch.choices().to_vec()));
            ch.validated(1);
        });
        ctx.explore("missing files", |ch| {
            let p = scratch("there-is-no-such-file");
            let p = match ch.pick(2) {
                0 => p.to_str().unwrap().to_string(),
                _ => p.parent().unwrap().to_str().unwrap().to_string(),
            };
            for r in [guard(|| RegisterStates::from_file(&p).is_ok()), guard(|| CairoMemory::from_file(&p).is_ok())] {
                ch.check(r == Ok(false), "missing-file", || format!("{p}: {r:?}"));
            }
            ch.state(&p);
        });
        ctx.explore("exported traces", |ch| {
            let n = ch.range(0, nmax);
            let shift = ch.range(0, 6);
            let t: Vec<TraceEntry> = (0..n).map(|i| TraceEntry { pc: word(i + shift) as usize, ap: word(2 * i + shift) as usize, fp: word(5 * i + 3) as usize }).collect();
            let mut out = vec![7u8; shift];
            let r = guard(|| {
                let mut w = VecWriter::new(&mut out);
                w.write_encoded_trace(&t);
                w.flush().unwrap();
            });
            ch.ops(1);
            ch.validated(1);
            ch.state(&(n, shift));
            if let Err(e) = r {
                return ch.fail("export-trace-panics", e);
            }
            let mut want = vec![7u8; shift];
            for e in &t {
                want.extend((e.ap as u64).to_le_bytes());
                want.extend((e.fp as u64).to_le_bytes());
                want.extend((e.pc as u64).to_le_bytes());
            }
            ch.check(out == want, "export-trace", || format!("{n} entries, pattern {shift}: {} bytes", out.len()));
            let rows: Vec<RegistersState> = t.iter().map(|e| RegistersState { pc: e.pc as u64, ap: e.ap as u64, fp: e.fp as u64 }).collect();
            traces_agree(ch, &out[shift..], Some(&rows), &|| format!("export of {n} entries"), false);
        });
        let nh = ctx.tier(10, 14);
        ctx.explore("exported memories", |ch| {
            // every pattern of holes
            let n = ch.range(0, nh);
            let shift = ch.range(0, 4);
            let mut cells: Vec<Option<Felt252>> = vec![];
            let mut want = BTreeMap::new();
            let mut bytes = vec![];
            for i in 0..n {
                if ch.flag() {
                    let v = value(i + shift);
                    let f = felt(&v);
                    cells.push(Some(Felt252(f)));
                    want.insert(i as u64, f);
                    bytes.extend((i as u64).to_le_bytes());
                    bytes.extend(v.iter().rev());
                } else {
                    cells.push(None);
                }
            }
            let mut out = vec![];
            let r = guard(|| {
                let mut w = VecWriter::new(&mut out);
                w.write_encoded_memory(&cells);
                w.flush().unwrap();
            });
            ch.ops(1);
            ch.validated(1);
            ch.state(&(n, shift, &bytes));
            if let Err(e) = r {
                return ch.fail("export-memory-panics", e);
            }
            ch.check(out == bytes, "export-memory", || format!("{n} addresses, {} cells: {} bytes instead of {}", want.len(), out.len(), bytes.len()));
            memories_agree(ch, &out, Some(&want), &|| format!("export of {n} addresses, {} cells", want.len()), false);
        });
        ctx.explore("both writers", |ch| {
            // any sequence of writes gives the same bytes through either writer
            let k = ch.range(0, ch.ctx.tier(4, 6));
            let sizes: Vec<usize> = (0..k).map(|_| ch.of(&[0usize, 1, 8, 40, 8192, 8193])).collect();
            let chunks: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(i, n)| (0..*n).map(|j| (i * 31 + j) as u8).collect()).collect();
            let want = chunks.concat();
            let mut v = vec![];
            let a = guard(|| {
                let mut w = VecWriter::new(&mut v);
                let ok = chunks.iter().all(|c| w.write(c).is_ok());
                ok && w.flush().is_ok()
            });
            let p = scratch("writer");
            let b = guard(|| {
                let mut w = FileWriter::new(std::io::BufWriter::new(std::fs::File::create(&p).unwrap()));
                let ok = chunks.iter().all(|c| w.write(c).is_ok());
                ok && w.flush().is_ok()
            });
            ch.ops(2 * k as u64);
            ch.state(&sizes);
            let f = std::fs::read(&p).unwrap_or_default();
            ch.check(a == Ok(true) && v == want, "memory-writer", || format!("{sizes:?}: {a:?}, {} bytes", v.len()));
            ch.check(b == Ok(true) && f == want, "file-writer", || format!("{sizes:?}: {b:?}, {} bytes", f.len()));
            // a file that takes nothing must not be reported as written
            let full = guard(|| {
                let mut w = FileWriter::new(std::io::BufWriter::new(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()));
                let ok = chunks.iter().all(|c| w.write(c).is_ok());
                ok && w.flush().is_ok()
            });
            ch.check(full == Ok(want.is_empty()), "full-device", || format!("{sizes:?}: {full:?}"));
        });
        clean();
    });
}
