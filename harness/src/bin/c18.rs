//! C18: hole filling makes the ranges continuous without inventing public cells.
#[path = "../../kit/cairo.rs"]
mod cairo;
use cairo::*;
use harness::{guard, Ch, Level};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;

fn judge(ch: &Ch, run: &Run, rc: Option<Range<u64>>, out: Option<Range<u64>>, what: &dyn Fn() -> String) {
    let regs = run.registers();
    let mem = run.memory();
    let mut p = match guard(|| run.public(rc.clone(), out.clone())) {
        Ok(p) => p,
        Err(e) => return ch.fail("public-inputs-panic", format!("{}: {e}", what())),
    };
    let before = p.clone();
    let t = match guard(|| build_main_trace(&regs, &mem, &mut p)) {
        Ok(t) => t,
        Err(e) => return ch.fail("panic", format!("{}: {e}", what())),
    };
    ch.validated(1);
    ch.check(p.public_memory == before.public_memory && p.num_steps == before.num_steps, "claims-changed", || format!("{}: trace completion altered the public inputs", what()));
    let n = run.steps.len();
    let pairs = |r: usize| -> Vec<(FE, FE)> { (0..4).map(|k| (t.get_row(r)[19 + k], t.get_row(r)[23 + k])).collect() };
    // the cells that exist: accessed by a step, or public
    let mut real: BTreeMap<u64, FE> = BTreeMap::new();
    for s in &run.steps {
        for (a, v) in [(s.pc, run.mem[&s.pc]), (s.addr[0], s.dst), (s.addr[1], s.op0), (s.addr[2], s.op1)] {
            real.insert(a, v);
        }
    }
    let mut public = BTreeMap::new();
    for (a, v) in &p.public_memory {
        let a = small(a).unwrap();
        public.insert(a, *v);
        real.insert(a, *v);
    }
    let (lo, hi) = (*real.keys().next().unwrap(), *real.keys().last().unwrap());
    let missing: BTreeSet<u64> = (lo..=hi).filter(|a| !real.contains_key(a)).collect();
    // room for the public cells at the end of the trace
    let total = 4 * t.n_rows();
    let flat: Vec<(FE, FE)> = (0..t.n_rows()).flat_map(pairs).collect();
    let room = flat.iter().rev().take_while(|(a, v)| *a == FE::zero() && *v == FE::zero()).count();
    ch.check(room >= public.len(), "no-room", || format!("{}: {room} dummy accesses at the end for {} public cells", what(), public.len()));
    let mut filled: BTreeMap<u64, FE> = BTreeMap::new();
    for (i, (a, v)) in flat.iter().enumerate() {
        let Some(a) = small(a) else {
            ch.fail("wild-address", format!("{}: access {i} of {total} to {:?}", what(), a));
            continue;
        };
        if let Some(w) = real.get(&a) {
            ch.check(w == v, if public.contains_key(&a) { "contradicts-public-cell" } else { "contradicts-memory" }, || format!("{}: cell {a} holds {:?} but access {i} ({} execution rows) says {:?}", what(), w, n, v));
        } else if a != 0 {
            if !missing.contains(&a) {
                ch.fail("beyond-range", format!("{}: filler for address {a} outside {lo}..={hi}", what()));
            }
            if let Some(w) = filled.insert(a, *v) {
                ch.check(w == *v, "filler-inconsistent", || format!("{}: address {a} filled with two values", what()));
                ch.check(false, "filled-twice", || format!("{}: address {a} filled twice", what()));
            }
        } else {
            ch.check(*v == FE::zero(), "dummy-value", || format!("{}: access {i} to address 0 with value {:?}", what(), v));
        }
    }
    for a in &missing {
        ch.check(filled.contains_key(a), "hole-left", || format!("{}: nobody fills address {a} in {lo}..={hi}", what()));
    }
    // offsets
    let mut offs: BTreeSet<u64> = BTreeSet::new();
    for r in 0..t.n_rows() {
        for c in 27..30 {
            match small(&t.get_row(r)[c]) {
                Some(x) if x < 1 << 16 => {
                    offs.insert(x);
                }
                _ => ch.fail("wild-offset", format!("{}: row {r}: offset {:?}", what(), t.get_row(r)[c])),
            }
        }
    }
    let own: BTreeSet<u64> = run.steps.iter().flat_map(|s| s.ins.off.map(|o| (o + 0x8000) as u64)).collect();
    let (first, last) = (*own.iter().next().unwrap(), *own.iter().last().unwrap());
    ch.check(p.range_check_min.map(u64::from) == Some(first) && p.range_check_max.map(u64::from) == Some(last), "published-bounds", || {
        format!("{}: offsets run from {first} to {last}, published {:?}..{:?}", what(), p.range_check_min, p.range_check_max)
    });
    ch.check(offs.len() as u64 == last - first + 1 && *offs.iter().next().unwrap() == first, "offset-hole", || {
        let gap = (first..=last).find(|x| !offs.contains(x));
        format!("{}: offsets from {first} to {last}: first one missing {gap:?}, {} present, least {:?}", what(), offs.len(), offs.iter().next())
    });
    // filler rows claim nothing else: they are outside the execution
    for r in n - 1..t.n_rows() {
        if t.get_row(r)[33] != FE::zero() {
            ch.fail("filler-selected", format!("{}: row {r} of {} is a step of the execution ({n} steps)", what(), t.n_rows()));
        }
    }
}

/// A straight-line run whose steps access exactly `cells` (three per step).
fn accesses(code_len: u64, fp: u64, cells: &[u64], top: u64) -> Option<Run> {
    let k = cells.len().div_ceil(3).max(1);
    if (code_len as usize) < k {
        return None;
    }
    let mut mem: BTreeMap<u64, FE> = (1..=top).map(|a| (a, fe(1000 + 7 * a as i64))).collect();
    for s in 0..k {
        let at = |j: usize| cells.get(3 * s + j).or(cells.last()).map(|a| *a as i32 - fp as i32).unwrap_or(1 - fp as i32);
        let i = ins(('f', at(0)), ('f', at(1)), ('f', at(2)), Res::Op1, Pc::Next, Ap::Same, Opc::Nop);
        mem.insert(s as u64 + 1, FE::from(i.word()));
    }
    execute(mem, code_len, (1, fp, fp), END, k)
}

fn main() {
    harness::main("C18", Level::ModelChecking, |ctx| {
        ctx.rule("every subset of an address window as the accessed cells x code lengths x every output range x frame positions; every set of offsets from a window and at the extremes; completed traces judged cell by cell; non-trivial: distinct subset/layout");
        let w = ctx.tier(7u64, 10);
        ctx.explore("accessed subsets", |ch| {
            let mask = ch.range(0, (1 << w) - 1);
            let spare = ch.pick(3) as u64;
            let cells = |l: u64| -> Vec<u64> { (0..w).filter(|b| mask >> b & 1 == 1).map(|b| l + 1 + b).collect() };
            let k = (mask.count_ones() as u64).div_ceil(3).max(1);
            let l = k + spare;
            let from = ch.range(0, w as usize + 1) as u64;
            let len = ch.range(0, (w + 2 - from) as usize) as u64;
            let fp = if ch.flag() { l + 1 } else { l + w };
            let out = (len > 0).then(|| l + 1 + from..l + 1 + from + len);
            ch.state(&ch.choices());
            ch.outcome(if out.is_some() { "with output cells" } else { "program cells only" });
            let run = accesses(l, fp, &cells(l), l + w + 3).unwrap();
            judge(ch, &run, None, out.clone(), &|| format!("code 1..={l}, accessed {:?}, output {out:?}", cells(l)));
        });
        ctx.explore("code cells as operands", |ch| {
            // operands may lie in the code as well, and the code may be longer than what runs
            let l = ch.range(2, ctx.tier(6, 8)) as u64;
            let a = ch.range(1, l as usize) as u64;
            let b = ch.range(1, l as usize + 6) as u64;
            let c = ch.range(1, l as usize + 6) as u64;
            let rc = ch.flag();
            let out = ch.pick(4) as u64;
            let out = (out > 0).then(|| l + 3..l + 3 + out);
            ch.state(&ch.choices());
            let run = accesses(l, l + 2, &[a, b, c], l + 10).unwrap();
            // a range-check segment is an ordinary address range here
            let rc = rc.then(|| l + 1..l + 2);
            judge(ch, &run, rc, out.clone(), &|| format!("code 1..={l}, accessed {a}, {b}, {c}, output {out:?}"));
        });
        let gaps: Vec<u64> = ctx.tier(vec![1, 2, 3, 4, 5, 6, 8, 12, 13, 30, 200], (1..40).chain([63, 64, 65, 200, 1000, 5000]).collect());
        ctx.explore("wide gaps", |ch| {
            let l = ch.range(1, 4) as u64;
            let g1 = ch.of(&gaps);
            let g2 = ch.of(&gaps);
            let side = ch.pick(3);
            let (x, y) = (l + g1, l + g1 + g2);
            let fp = [l + 1, x, y][side];
            ch.state(&ch.choices());
            let run = accesses(l, fp, &[x, y], y + 2).unwrap();
            judge(ch, &run, None, None, &|| format!("code 1..={l}, accessed {x} and {y}"));
        });
        let sizes: Vec<u64> = ctx.tier(vec![15, 17, 31, 33, 63, 65, 127, 129, 255, 257], vec![15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000]);
        ctx.explore("large programs", |ch| {
            let many = ch.of(&sizes);
            // how far apart the accessed cells lie, which code cells are never run, how many outputs
            let (stride, spare, outs) = (ch.of(&[1u64, 2, 3, 7]), ch.of(&[0u64, 1, 300]), ch.of(&[0u64, 1, many, 300]));
            let steps = if ch.flag() { many } else { 3 };
            let l = steps + spare;
            let cells: Vec<u64> = (0..3 * steps).map(|k| l + 1 + k * stride).collect();
            let top = *cells.last().unwrap() + 2;
            ch.state(&ch.choices());
            ch.outcome("large program");
            let out = (outs > 0).then(|| l + 2..l + 2 + outs);
            let Some(run) = accesses(l, l + 1, &cells, (top + 2).max(l + outs + 3)) else { return };
            judge(ch, &run, None, out.clone(), &|| format!("code 1..={l}, {steps} steps, {} cells {stride} apart, output {out:?}", cells.len()));
        });
        // offsets: three per step, any combination
        let menu: Vec<i32> = ctx.tier(vec![-6, -4, -3, -1, 0, 1, 2, 5], vec![-9, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 5, 6, 12]);
        ctx.explore("offset sets", |ch| {
            let steps = ch.range(1, 2);
            let o: Vec<i32> = (0..3 * steps).map(|_| ch.of(&menu)).collect();
            let base = 40u64;
            ch.state(&o);
            let cells: Vec<u64> = o.iter().map(|o| (base as i32 + o) as u64).collect();
            let run = accesses(steps as u64, base, &cells, base + 20).unwrap();
            judge(ch, &run, None, None, &|| format!("offsets {o:?}"));
        });
        let far = [-32768i32, -32767, -20000, -300, 0, 299, 20001, 32766, 32767];
        ctx.explore("extreme offsets", |ch| {
            let a = ch.of(&far);
            let b = ch.of(&far);
            let c = ch.of(&far);
            if !ctx.thorough() && (a > b || b > c) {
                return;
            }
            let base = 33000u64;
            ch.state(&(a, b, c));
            let cells: Vec<u64> = [a, b, c].iter().map(|o| (base as i32 + o) as u64).collect();
            let run = accesses(1, base, &cells, base + 33000).unwrap();
            judge(ch, &run, None, None, &|| format!("offsets {a} {b} {c}"));
        });
    });
}
