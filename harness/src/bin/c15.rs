//! C15: the built Cairo trace is a faithful witness of the execution.
#[path = "../../kit/cairo.rs"]
mod cairo;
use cairo::*;
use harness::{guard, Ch, Level};
use lambdaworks_stark::cairo::air::PublicInputs;
use lambdaworks_stark::cairo::execution_trace::{build_cairo_execution_trace, build_main_trace};
use lambdaworks_stark::starks::traits::AIR;
use std::ops::Range;

/// Builds the trace of one run with the real code and judges it.
fn judge(ch: &Ch, run: &Run, rc: Option<Range<u64>>, out: Option<Range<u64>>, what: &dyn Fn() -> String) -> Option<usize> {
    let regs = run.registers();
    let mem = run.memory();
    let mut p: PublicInputs = match guard(|| run.public(rc.clone(), out.clone())) {
        Ok(p) => p,
        Err(e) => {
            ch.fail("public-inputs-panic", format!("{}: {e}", what()));
            return None;
        }
    };
    let want = run.rows();
    let n = run.steps.len();
    // the bare execution trace, row by row
    let bare = match guard(|| build_cairo_execution_trace(&regs, &mem, &p)) {
        Ok(t) => t,
        Err(e) => {
            ch.fail("execution-trace-panic", format!("{}: {e}", what()));
            return None;
        }
    };
    let main = match guard(|| build_main_trace(&regs, &mem, &mut p)) {
        Ok(t) => t,
        Err(e) => {
            ch.fail("main-trace-panic", format!("{}: {e}", what()));
            return None;
        }
    };
    let width = if rc.is_some() { 43 } else { 34 };
    if bare.n_rows() != n || bare.n_cols != width || main.n_cols != width || main.n_rows() < n {
        ch.fail("shape", format!("{}: {n} steps, {} execution rows of {} cells, {} trace rows of {}", what(), bare.n_rows(), bare.n_cols, main.n_rows(), main.n_cols));
        return None;
    }
    ch.check(main.n_rows().is_power_of_two(), "length", || format!("{}: {} rows", what(), main.n_rows()));
    for (how, t) in [("execution trace", &bare), ("main trace", &main)] {
        for (r, w) in want.iter().enumerate() {
            let got = t.get_row(r);
            for c in 0..34 {
                if got[c] != w[c] {
                    ch.fail(&*format!("cell-{}", column(c, false)), format!("{}: {how}, step {r} ({:?}): {} is {:?}, the machine says {:?}", what(), run.steps[r].ins, column(c, false), got[c].representative(), w[c].representative()));
                }
            }
        }
        if let Some(seg) = &rc {
            // one range-checked cell per row, as eight 16-bit limbs
            for (i, a) in seg.clone().enumerate() {
                let Some(row) = (i < t.n_rows()).then(|| t.get_row(i)) else {
                    ch.fail("rc-missing", format!("{}: {how}: no row for range-checked cell {a}", what()));
                    break;
                };
                let v = run.mem[&a];
                ch.check(row[42] == v, "rc-value", || format!("{}: {how} row {i}: rc_value {:?} instead of {:?}", what(), row[42], v));
                let l = v.representative().limbs;
                for k in 0..8 {
                    let limb = l[3 - k / 4] >> (16 * (k % 4)) & 0xffff;
                    ch.check(row[34 + k] == FE::from(limb), "rc-limb", || format!("{}: {how} row {i}: limb {k} of {:?}", what(), v));
                }
            }
        }
    }
    // every declared constraint on every row it is in force
    ch.check(p.num_steps == n && p.range_check_min.is_some() && p.range_check_max.is_some(), "public-inputs", || format!("{}: {p:?}", what()));
    for k in 0..ch.ctx.tier(1, 2) {
        let coins = Coins::nth(k);
        let (air, full) = match guard(|| complete(&main, &p, &coins)) {
            Ok(x) => x,
            Err(e) => {
                ch.fail("auxiliary-trace-panic", format!("{}: {e}", what()));
                return None;
            }
        };
        let ex = &air.context().transition_exemptions;
        for r in 0..full.rows.len() {
            let real = match guard(|| full.real(&air, r, &coins)) {
                Ok(x) => x,
                Err(e) => {
                    ch.fail("constraints-panic", format!("{}: row {r}: {e}", what()));
                    return None;
                }
            };
            ch.ops(real.len() as u64);
            for (i, v) in real.iter().enumerate() {
                if r + ex[i] < full.rows.len() && *v != FE::zero() {
                    ch.fail(&*format!("violated-{}", constraint(i).0), format!("{}: constraint {i} ({}) does not hold on row {r} of {} ({n} steps)", what(), constraint(i).0, full.rows.len()));
                }
            }
            // and by the independent transcription
            for (i, v) in full.reference(r, &coins).iter().enumerate() {
                if full.in_force(i, r) && *v != FE::zero() {
                    ch.fail(&*format!("reference-{}", constraint(i).0), format!("{}: the Cairo AIR's {} does not hold on row {r} of {} ({n} steps)", what(), constraint(i).0, full.rows.len()));
                }
            }
        }
        let b = match guard(|| air.boundary_constraints(&coins.rap())) {
            Ok(b) => b,
            Err(e) => {
                ch.fail("boundary-panic", format!("{}: {e}", what()));
                return None;
            }
        };
        for c in &b.constraints {
            ch.check(full.rows[c.step % full.rows.len()][c.col] == c.value, &format!("boundary-{}", column(c.col, full.rc)), || format!("{}: boundary constraint on {} at row {} does not hold", what(), column(c.col, full.rc), c.step));
        }
        for (name, col, row, v) in claims(&p, full.rows.len(), &coins, full.rc) {
            ch.check(full.rows[row][col] == v, &format!("claim-{name}"), || format!("{}: {name} does not hold of the trace", what()));
        }
    }
    ch.validated(1);
    Some(main.n_rows())
}

fn main() {
    harness::main("C15", Level::ModelChecking, |ctx| {
        ctx.rule("every defined combination of instruction fields as an executed step, over operand values; every program of up to the stated number of instructions over a 28-instruction alphabet, cut after every step; every step count up to a bound; range-check cells and offsets at the extremes; all against an independent machine and an independent transcription of the constraints; non-trivial: distinct program/cut");
        ctx.explore("instruction classes", |ch| {
            let Some((run, i)) = class(ch) else {
                ch.outcome("combination undefined or not executable");
                return;
            };
            ch.state(&ch.choices());
            ch.outcome("class executed");
            judge(ch, &run, None, None, &|| format!("step {i:?}"));
        });
        let depth = ctx.tier(3, 4);
        ctx.explore("programs", |ch| {
            let n = ch.range(0, depth);
            let ts: Vec<usize> = (0..n).map(|_| ch.pick(TEMPLATES)).collect();
            let max = ctx.tier(9, 12);
            let Some(run) = run_of(&ts, max) else {
                ch.outcome("program not executable");
                return;
            };
            ch.state(&ts);
            ch.outcome("program executed");
            judge(ch, &run, None, None, &|| format!("program {ts:?}"));
        });
        ctx.explore("every cut of an execution", |ch| {
            let n = ch.range(1, 2);
            let ts: Vec<usize> = (0..n).map(|_| ch.pick(TEMPLATES)).collect();
            let cut = ch.range(1, 8);
            let Some(run) = run_of(&ts, cut) else {
                ch.outcome("program not executable");
                return;
            };
            if run.steps.len() < cut {
                return;
            }
            ch.state(&(&ts, cut));
            judge(ch, &run, None, None, &|| format!("first {cut} steps of {ts:?}"));
        });
        let most = ctx.tier(70, 300);
        ctx.explore("every step count", |ch| {
            let steps = ch.range(1, most);
            let kind = ch.pick(3);
            // straight line, endless loop moving ap, endless loop standing still
            let run = match kind {
                0 => run_of(&vec![0; steps - 1], steps),
                1 => run_of(&[0, 22], steps),
                _ => {
                    let stay = ins(('f', -1), ('f', -1), ('i', 1), Res::Op1, Pc::Rel, Ap::Same, Opc::Nop);
                    call_main(&[FE::from(stay.word()), fe(0)], &[], steps)
                }
            };
            let Some(run) = run.filter(|r| r.steps.len() == steps) else {
                ch.outcome("program not executable");
                return;
            };
            ch.state(&(steps, kind));
            if let Some(rows) = judge(ch, &run, None, None, &|| format!("{steps} steps, program kind {kind}")) {
                ch.sample(|| serde_json::json!({"steps": steps, "rows": rows}));
            }
        });
        let counts: Vec<usize> = ctx.tier(vec![127, 128, 129, 255, 256, 257, 511, 513, 1024, 1025], vec![127, 128, 129, 511, 512, 513, 767, 1023, 1024, 1025, 1026, 2047, 2049, 4095, 4096, 4097, 8193]);
        ctx.explore("many steps", |ch| {
            let steps = ch.of(&counts);
            let kind = ch.pick(4);
            let rc = ch.flag();
            let run = match kind {
                0 => run_of(&vec![0; steps - 1], steps),
                1 => run_of(&[0, 22], steps),
                // every other word computed from what was pushed before
                2 => run_of(&(0..steps - 1).map(|k| [0, 4, 2, 5, 1][k % 5]).collect::<Vec<_>>(), steps),
                _ => run_of(&(0..2 * steps).map(|k| [0, 11, 0, 16, 0, 0, 13, 4][k % 8]).collect::<Vec<_>>(), steps),
            };
            let Some(run) = run.filter(|r| r.steps.len() == steps) else {
                ch.outcome("program not executable");
                return;
            };
            ch.state(&(steps, kind, rc));
            ch.outcome("many steps");
            let at = run.code_len + 1;
            judge(ch, &run, rc.then_some(at..at + 1), None, &|| format!("{steps} steps, program kind {kind}, range check {rc}"));
        });
        // how the trace of a jump-free run is padded depends on how far its operands lie apart
        let far: Vec<i32> = ctx.tier(vec![0, 1, 2, 3, 4, 5, 9, 17, 40, 120], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 33, 40, 120, 1000, 32766, 32767]);
        ctx.explore("far operands", |ch| {
            let a = ch.of(&far);
            let b = ch.of(&far);
            let extra = ch.pick(5);
            // two cells far above ap, and one that an earlier push left behind
            let i = ins(('a', a), ('f', -3), ('a', b), Res::Add, Pc::Next, Ap::Same, Opc::Assert);
            let mut code: Vec<FE> = vec![];
            if a == b {
                ch.outcome("program not executable");
                return;
            }
            // [ap + b] = 1 first
            let set = ins(('a', b), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::Same, Opc::Assert);
            code.push(FE::from(set.word()));
            code.push(fe(1));
            code.push(FE::from(i.word()));
            for _ in 0..extra {
                code.push(FE::from(ins(('a', a), ('a', a), ('a', a), Res::Op1, Pc::Next, Ap::Same, Opc::Assert).word()));
            }
            let (ret, _) = template(18, 0, 0);
            code.push(FE::from(ret.word()));
            let Some(run) = call_main(&code, &[fe(8)], 20) else {
                ch.outcome("program not executable");
                return;
            };
            ch.state(&(a, b, extra));
            judge(ch, &run, None, None, &|| format!("operands at ap+{a}, ap+{b}, {extra} repetitions"));
        });
        ctx.explore("range-check cells", |ch| {
            let n = ch.range(0, ctx.tier(4, 6));
            let values: Vec<FE> = (0..n)
                .map(|_| {
                    let f = |s: &str| FE::from_hex(s).unwrap();
                    let k = ch.pick(5);
                    [fe(0), fe(0x12345), f("ffffffffffffffffffffffffffffffff"), f("123456789abcdef0fedcba9876543211"), f("80000000000000000000000000000000")][k]
                })
                .collect();
            // each value is pushed, the segment is where they were pushed
            let mut code = vec![];
            for v in &values {
                code.push(FE::from(ins(('a', 0), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::One, Opc::Assert).word()));
                code.push(*v);
            }
            code.push(FE::from(template(18, 0, 0).0.word()));
            let out = ch.flag();
            let run = call_main(&code, &[fe(8)], 20).unwrap();
            let at = code.len() as u64 + 4;
            let seg = at..at + n as u64;
            ch.state(&ch.choices());
            // an output range inside the checked cells is just public memory
            let out = (out && n > 0).then(|| at..at + 1);
            judge(ch, &run, Some(seg), out, &|| format!("range-checked {values:?}"));
        });
        let many: Vec<usize> = ctx.tier(vec![15, 16, 17, 31, 33, 63, 65, 127, 129, 255, 256, 257], (7..=70).chain([127, 128, 129, 255, 256, 257, 300, 511, 513, 1025]).collect());
        ctx.explore("many range-check and output cells", |ch| {
            let n = ch.of(&many);
            let mut code = vec![];
            for k in 0..n {
                code.push(FE::from(ins(('a', 0), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::One, Opc::Assert).word()));
                code.push(FE::from(0x1234_5678_9abc_u64 * (k as u64 + 1)));
            }
            code.push(FE::from(template(18, 0, 0).0.word()));
            let run = call_main(&code, &[fe(8)], n + 1).unwrap();
            let at = code.len() as u64 + 4;
            let which = ch.pick(3);
            ch.state(&(n, which));
            ch.outcome("many cells");
            let all = at..at + n as u64;
            judge(ch, &run, (which != 0).then(|| all.clone()), (which != 1).then(|| all.clone()), &|| format!("{n} cells, kind {which}"));
        });
        ctx.explore("output cells", |ch| {
            let n = ch.range(0, 6);
            let from = ch.range(0, n);
            let len = ch.range(0, n - from);
            let mut code = vec![];
            for k in 0..n {
                code.push(FE::from(ins(('a', 0), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::One, Opc::Assert).word()));
                code.push(fe(k as i64 * 3 + 4));
            }
            code.push(FE::from(template(18, 0, 0).0.word()));
            let rc = ch.flag();
            let run = call_main(&code, &[fe(8)], 20).unwrap();
            let at = code.len() as u64 + 4;
            ch.state(&ch.choices());
            let out = at + from as u64..at + (from + len) as u64;
            judge(ch, &run, (rc && n > 0).then(|| at..at + 1), Some(out.clone()), &|| format!("output {out:?} of {n} cells, range check {rc}"));
        });
    });
}
