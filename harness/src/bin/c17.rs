//! C17: the Cairo constraints pin every cell of a step to the machine semantics.
#[path = "../../kit/cairo.rs"]
mod cairo;
use cairo::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_stark::cairo::air::*;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::constraints::boundary::BoundaryConstraints;
use lambdaworks_stark::starks::context::AirContext;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::prover::prove;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as S;
use std::ops::Range;

/// Real constraint values on two rows.
fn real(air: &CairoAIR, cur: &[FE], next: &[FE], coins: &Coins) -> Vec<FE> {
    let mut d = cur.to_vec();
    d.extend_from_slice(next);
    air.compute_transition(&Frame::new(d, cur.len()), &coins.rap())
}

/// Evaluates every constraint on rows that need not belong to any trace.
fn same(ch: &Ch, air: &CairoAIR, cur: &[FE], next: &[FE], coins: &Coins, rc: bool, what: &dyn Fn() -> String) -> Option<Vec<FE>> {
    let got = match guard(|| real(air, cur, next, coins)) {
        Ok(g) => g,
        Err(e) => {
            ch.fail("panic", format!("{}: {e}", what()));
            return None;
        }
    };
    let want = reference(cur, next, coins, rc);
    ch.ops(want.len() as u64);
    if got.len() != want.len() {
        ch.fail("number-of-constraints", format!("{}: {} constraints, the Cairo AIR has {}", what(), got.len(), want.len()));
        return None;
    }
    for k in 0..want.len() {
        if got[k] != want[k] {
            ch.fail(&*format!("polynomial-{}", constraint(k).0), format!("{}: constraint {k} ({}) is {:?}, its definition gives {:?}", what(), constraint(k).0, got[k].representative(), want[k].representative()));
        }
    }
    Some(got)
}

struct Base {
    air: CairoAIR,
    full: Full,
    coins: Coins,
    boundary: BoundaryConstraints<S>,
}
fn base(ch: &Ch, run: &Run, rc: Option<Range<u64>>, what: &dyn Fn() -> String) -> Option<Base> {
    let coins = Coins::nth(0);
    let built = guard(|| {
        let mut p = run.public(rc.clone(), None);
        let main = build_main_trace(&run.registers(), &run.memory(), &mut p);
        let (air, full) = complete(&main, &p, &coins);
        let b = air.boundary_constraints(&coins.rap());
        (air, full, b, p)
    });
    let (air, full, boundary, p) = match built {
        Ok(x) => x,
        Err(e) => {
            ch.fail("no-trace", format!("{}: {e}", what()));
            return None;
        }
    };
    // the declared claims
    for (name, col, row, v) in claims(&p, full.rows.len(), &coins, full.rc) {
        let n = full.rows.len();
        let found = boundary.constraints.iter().any(|c| c.col == col && c.step % n == row && c.value == v);
        ch.check(found, &format!("claim-{name}"), || format!("{}: nothing binds {name} ({} at row {row} of {n}) to its published value", what(), column(col, full.rc)));
    }
    // where each constraint is in force
    let ex = &air.context().transition_exemptions;
    let want: Vec<usize> = (0..ex.len()).map(|k| usize::from(!constraint(k).1)).collect();
    ch.check(*ex == want, "exemptions", || format!("{}: rows exempted from the constraints {ex:?}, should be {want:?}", what()));
    Some(Base { air, full, coins, boundary })
}

/// True if some declared constraint notices that the cell holds `v`.
fn noticed(b: &Base, r: usize, c: usize, v: FE) -> bool {
    let n = b.full.rows.len();
    if b.boundary.constraints.iter().any(|k| k.col == c && k.step % n == r && k.value != v) {
        return true;
    }
    let mut row = b.full.rows[r].clone();
    row[c] = v;
    let ex = &b.air.context().transition_exemptions;
    let broken = |at: usize, vals: Vec<FE>| vals.iter().enumerate().any(|(k, x)| at + ex[k] < n && *x != FE::zero());
    let (prev, next) = ((r + n - 1) % n, (r + 1) % n);
    if n == 1 {
        return broken(0, real(&b.air, &row, &row, &b.coins));
    }
    broken(r, real(&b.air, &row, &b.full.rows[next], &b.coins)) || broken(prev, real(&b.air, &b.full.rows[prev], &row, &b.coins))
}

/// Every cell of every execution row, and every auxiliary cell, against wrong values.
fn pinned(ch: &Ch, run: &Run, b: &Base, what: &dyn Fn() -> String) {
    let one = FE::one();
    let n = b.full.rows.len();
    let aux = if b.full.rc { 43 } else { 34 };
    for r in 0..n {
        for c in 0..b.full.width {
            if c < 34 {
                // the last step is not executed, and the selector is the subject of the forgeries
                if r + 1 >= run.steps.len() || c == 33 {
                    continue;
                }
                let s = &run.steps[r];
                if c == 16 && s.ins.pc == Pc::Jnz && s.dst == FE::zero() {
                    // the machine leaves the result of a jump not taken open
                    continue;
                }
            }
            let v = b.full.rows[r][c];
            let mut wrong = vec![FE::zero(), one, v + one, v - one, -v, v + v];
            wrong.push(b.full.rows[(r + 1) % n][c]);
            wrong.push(b.full.rows[r][(c + 1) % b.full.width]);
            if ch.ctx.thorough() {
                wrong.extend(b.full.rows[r].iter().copied());
            }
            wrong.retain(|w| *w != v);
            for w in wrong {
                ch.ops(1);
                let ok = match guard(|| noticed(b, r, c, w)) {
                    Ok(x) => x,
                    Err(e) => return ch.fail("panic", format!("{}: {e}", what())),
                };
                if !ok {
                    // nothing ties the first factor of the memory product to the first row
                    let first = if r == 0 { "first-row-" } else { "" };
                    ch.fail(&*format!("{first}unpinned-{}", column(c, b.full.rc)), format!("{}: row {r} of {n} ({} steps): {} may hold {:?} instead of {:?}", what(), run.steps.len(), column(c, b.full.rc), w.representative(), v.representative()));
                    break;
                }
            }
            if c >= aux {
                ch.validated(1);
            }
        }
    }
}

/// The Cairo AIR with a prover that departs from the honest auxiliary trace.
#[derive(Clone)]
struct Forger(CairoAIR, Option<(FE, FE, FE)>);
thread_local! {
    static CLAIM: std::cell::RefCell<Option<(FE, FE, FE)>> = const { std::cell::RefCell::new(None) };
}
impl AIR for Forger {
    type Field = S;
    type RAPChallenges = CairoRAPChallenges;
    type PublicInputs = PublicInputs;
    fn new(n: usize, p: &PublicInputs, o: &ProofOptions) -> Self {
        Forger(CairoAIR::new(n, p, o), CLAIM.with(|c| *c.borrow()))
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<S>, rap: &CairoRAPChallenges) -> TraceTable<S> {
        let Some((a, truth, lie)) = self.1 else {
            return self.0.build_auxiliary_trace(main, rap);
        };
        // the honest auxiliary trace of the true memory, its products scaled to the false claim
        let mut honest = self.0.clone();
        honest.pub_inputs.public_memory.insert(a, truth);
        let t = honest.build_auxiliary_trace(main, rap);
        let key = |v: FE| rap.z_memory - (a + rap.alpha_memory * v);
        let k = key(truth) * key(lie).inv();
        let w = self.number_auxiliary_rap_columns();
        let cells = t.table.iter().enumerate().map(|(i, x)| if (11..15).contains(&(i % w)) { *x * k } else { *x }).collect();
        TraceTable::new(cells, w)
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> CairoRAPChallenges {
        self.0.build_rap_challenges(t)
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.0.number_auxiliary_rap_columns()
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.0.composition_poly_degree_bound()
    }
    fn compute_transition(&self, f: &Frame<S>, rap: &CairoRAPChallenges) -> Vec<FE> {
        self.0.compute_transition(f, rap)
    }
    fn boundary_constraints(&self, rap: &CairoRAPChallenges) -> BoundaryConstraints<S> {
        self.0.boundary_constraints(rap)
    }
    fn context(&self) -> &AirContext {
        self.0.context()
    }
    fn trace_length(&self) -> usize {
        self.0.trace_length()
    }
    fn pub_inputs(&self) -> &PublicInputs {
        self.0.pub_inputs()
    }
}

/// Whole-trace forgeries: true runs turned into proofs of false claims.
fn forge(ch: &Ch, kind: usize) {
    let mut run = run_of(&[0, 4, 9, 16, 1], 20).unwrap();
    let at = run.code_len + 1;
    let rc = (kind == 2).then_some(at..at + 1);
    if kind == 2 {
        // a "range-checked" cell far outside the range
        let big = -fe(5);
        let code: Vec<FE> = (1..=run.code_len).map(|a| run.mem[&a]).collect();
        run = call_main(&code, &[big, fe(at as i64), fe(0)], 20).unwrap();
    }
    let mut p = run.public(rc, None);
    let mut main = build_main_trace(&run.registers(), &run.memory(), &mut p);
    let n = run.steps.len();
    let name = ["selector-off", "memory-product-start", "range-check-columns-untied", "honest"][kind];
    CLAIM.with(|c| *c.borrow_mut() = None);
    match kind {
        0 => {
            // no step is executed at all, and ap ends elsewhere
            for r in 0..n {
                main.table[r * main.n_cols + 33] = FE::zero();
            }
            main.table[(n - 1) * main.n_cols + 17] = fe(1234);
            p.ap_final = fe(1234);
        }
        1 => {
            // the program claims to contain another word
            let (a, v) = (FE::one() + FE::one(), run.mem[&2]);
            p.public_memory.insert(a, v + FE::one());
            CLAIM.with(|c| *c.borrow_mut() = Some((a, v, v + FE::one())));
        }
        2 => {
            for k in 34..43 {
                main.table[k] = FE::zero();
            }
        }
        _ => {}
    }
    let o = opts(4, 3);
    let proof = guard(|| prove::<S, Forger>(&main, &p, &o));
    CLAIM.with(|c| *c.borrow_mut() = None);
    ch.validated(1);
    match proof {
        Ok(Ok(proof)) => {
            let ok = guard(|| verify_cairo_proof(&proof, &p, &o)).unwrap_or(false);
            if kind == 3 {
                ch.check(ok, "honest-refused", || "the forging prover without a forgery is refused".into());
            } else {
                ch.check(!ok, &format!("forgery-{name}"), || format!("a proof of a false claim is accepted ({name})"));
            }
        }
        _ if kind == 3 => ch.fail("honest-refused", "the forging prover without a forgery does not prove"),
        _ => {}
    }
}

fn main() {
    harness::main("C17", Level::ModelChecking, |ctx| {
        ctx.rule("every constraint compared with its definition on dense rows, on valid steps and on every single-cell change of them; every cell of every execution row and every auxiliary cell of enumerated runs against a set of wrong values; whole-trace forgeries proved and verified; non-trivial: distinct run");
        // rows no trace ever contains: a wrong polynomial cannot agree with its definition on all of them
        ctx.explore("dense rows", |ch| {
            let rc = ch.flag();
            let seed = ch.range(1, ctx.tier(300, 5000)) as u64;
            let k = ch.pick(2);
            let coins = Coins::nth(k);
            let w = if rc { 61 } else { 52 };
            let mut x = FE::from(seed) * coins.zrc + coins.alpha;
            let mut cell = |small: bool| {
                x = x * x + coins.z;
                if small {
                    FE::from(x.representative().limbs[3] & 1)
                } else {
                    x
                }
            };
            let bits = seed % 2 == 0;
            let cur: Vec<FE> = (0..w).map(|c| cell(bits && (c < 16 || c == 33))).collect();
            let next: Vec<FE> = (0..w).map(|_| cell(false)).collect();
            let mut p = run_of(&[0], 9).unwrap().public(rc.then_some(9..10), None);
            p.range_check_min = Some(0);
            p.range_check_max = Some(1);
            let air = CairoAIR::new(8, &p, &opts(2, 1));
            ch.state(&(rc, seed, k));
            same(ch, &air, &cur, &next, &coins, rc, &|| format!("dense row {seed}, range check {rc}"));
        });
        ctx.explore("instruction classes", |ch| {
            let Some((run, i)) = class(ch) else {
                return;
            };
            // operand values are explored in full by C15; here one value per source combination
            let pick = ch.choices();
            if !ctx.thorough() && pick[8..pick.len() - 1].iter().any(|c| *c > 1) {
                return;
            }
            let what = || format!("step {i:?}");
            let Some(b) = base(ch, &run, None, &what) else {
                return;
            };
            ch.state(&pick);
            let row = |r: usize| (&b.full.rows[r][..], &b.full.rows[(r + 1) % b.full.rows.len()][..]);
            for r in 0..run.steps.len() - 1 {
                let (cur, next) = row(r);
                same(ch, &b.air, cur, next, &b.coins, false, &what);
                for c in 0..34 {
                    let mut cur = cur.to_vec();
                    cur[c] = cur[c] + FE::from(3u64);
                    same(ch, &b.air, &cur, next, &b.coins, false, &what);
                }
            }
            // all cells of the executed rows
            let n = b.full.rows.len();
            for r in 0..run.steps.len() - 1 {
                for c in 0..33 {
                    let s = &run.steps[r];
                    if c == 16 && s.ins.pc == Pc::Jnz && s.dst == FE::zero() {
                        continue;
                    }
                    let v = b.full.rows[r][c];
                    let mut wrong = vec![FE::zero(), FE::one(), v + FE::one(), v - FE::one(), -v, b.full.rows[(r + 1) % n][c], b.full.rows[r][(c + 1) % 34]];
                    wrong.retain(|w| *w != v);
                    for w in wrong {
                        ch.ops(1);
                        if !noticed(&b, r, c, w) {
                            ch.fail(&*format!("unpinned-{}", column(c, false)), format!("{}: row {r} of {n}: {} may hold {:?} instead of {:?}", what(), column(c, false), w.representative(), v.representative()));
                            break;
                        }
                    }
                }
            }
        });
        let depth = ctx.tier(2, 3);
        ctx.explore("programs", |ch| {
            let n = ch.range(0, depth);
            let ts: Vec<usize> = (0..n).map(|_| ch.pick(TEMPLATES)).collect();
            let cut = ctx.tier(6, 8);
            let Some(run) = run_of(&ts, cut) else {
                ch.outcome("program not executable");
                return;
            };
            let rc = ch.flag();
            let at = run.code_len + 1;
            let what = || format!("program {ts:?}, range check {rc}");
            let Some(b) = base(ch, &run, rc.then_some(at..at + 1), &what) else {
                return;
            };
            ch.state(&(&ts, rc));
            ch.outcome("program explored");
            let n = b.full.rows.len();
            for r in 0..n {
                same(ch, &b.air, &b.full.rows[r], &b.full.rows[(r + 1) % n], &b.coins, b.full.rc, &what);
            }
            pinned(ch, &run, &b, &what);
            if rc {
                // a limb or the value of a range-check row
                for c in 34..43 {
                    for r in 0..n {
                        let v = b.full.rows[r][c] + FE::one();
                        ch.check(noticed(&b, r, c, v), &format!("unpinned-{}", column(c, true)), || format!("{}: row {r}: {} may be off by one", what(), column(c, true)));
                    }
                }
            }
        });
        ctx.explore("forgeries", |ch| {
            let kind = ch.pick(4);
            ch.state(&kind);
            forge(ch, kind);
        });
    });
}
