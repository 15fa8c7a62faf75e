//! C28: the work a request needs is bounded, whatever its amounts and the state of the pool.
//! Only in the metered build (see meter.rs): every run is exact and repeatable, no clock is involved.
use super::common::*;
use crate::meter;
use crate::report::*;
use crate::svm::*;
use crate::world::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Mutex;
use token_bonding_curve::curve::calculator::TradeDirection;
use token_bonding_curve::processor::Processor;

/// A request that has not come to an end after this many steps never will.
const FOREVER: u64 = 20_000_000;
/// the heap of a transaction; nothing is ever given back to it
const HEAP: u64 = 32 * 1024;

fn family(c: &Curve) -> &'static str {
    match c {
        Curve::Product => "constant product",
        Curve::Price { .. } => "constant price",
        Curve::Offset { .. } => "offset",
        Curve::Linear { .. } => "linear price",
        Curve::Stable { .. } => "stable",
    }
}
/// some two and a half times what the iterations of the documented formulas need at most
fn bound(c: &Curve, what: &str) -> u64 {
    if what.starts_with("two-sided") || what == "initialization" {
        return 2_700;
    }
    let swap = what.starts_with("swap");
    let calc = what.starts_with("calculation");
    match c {
        Curve::Product | Curve::Offset { .. } if swap => 3_700,
        Curve::Product => 14_000,
        Curve::Price { .. } => 2_300,
        Curve::Offset { .. } => 8_000,
        Curve::Linear { .. } => 5_500,
        Curve::Stable { .. } if calc => 16_000,
        Curve::Stable { .. } if swap => 40_000,
        Curve::Stable { .. } => 25_000,
    }
}
fn fund(c: &Curve) -> Funds {
    Funds { va: if matches!(c, Curve::Linear { .. }) { 0 } else { 1000 }, vb: 1000, a: [0; 3], b: [0; 3] }
}
fn curves() -> Vec<Curve> {
    let mut v = vec![Curve::Product];
    for p in [1u64, 3, 1000, u64::MAX] {
        v.push(Curve::Price { p });
    }
    for off in [1u64, 1000, u64::MAX] {
        v.push(Curve::Offset { off });
    }
    for amp in [1u64, 2, 100, 10_000, 1 << 32, 1 << 60, u64::MAX / 4, u64::MAX] {
        v.push(Curve::Stable { amp });
    }
    for (sn, sd, pn, pd) in [
        (1, 1, 0, 1),
        (1, 1, 1, 1),
        (1, 1, 1, 1_000_000_000),
        (1, 1_000_000_000_000_000_000, 0, 1),
        (1, 1_000_000_000, 1, 1_000),
        (3, 7, 5, 11),
        (u64::MAX, 1, 0, 1),
        (1, u64::MAX, 1, u64::MAX),
        (u64::MAX, u64::MAX - 1, u64::MAX, 3),
        (10_000_000_000, 1, 1, 1),
        (1, 1000, u64::MAX, 1),
    ] {
        v.push(Curve::Linear { sn, sd, pn, pd });
    }
    v
}

type Most = BTreeMap<(&'static str, &'static str), (u64, u64)>;
struct Job<'a> {
    ctx: &'a Ctx,
    most: &'a Mutex<Most>,
    local: Most,
}
impl<'a> Job<'a> {
    /// runs `f`, which is one request, and judges what it took
    fn measure<R>(&mut self, t: &mut Tally, cfg: &Cfg, what: &'static str, naccts: usize, case: &dyn Fn() -> serde_json::Value, f: impl FnOnce() -> R) -> R {
        t.transitions += 1;
        let show = || json!({"cfg": cfg_json(cfg), "what": what, "case": case()});
        let r = meter::bounded(self.ctx, &show, FOREVER, f);
        let steps = meter::steps();
        // what the runtime itself puts on the heap for each account before the program starts
        let heap = meter::heap() + (naccts * (std::mem::size_of::<solana_program::account_info::AccountInfo>() + 32 + 40)) as u64;
        let (fam, bound) = (family(&cfg.curve), bound(&cfg.curve, what));
        let e = self.local.entry((fam, what)).or_default();
        e.0 = e.0.max(steps);
        e.1 = e.1.max(heap);
        if steps > bound || heap > HEAP {
            self.ctx.violation(
                &format!("{} on a {} pool: {}", what, fam, if heap > HEAP { "more memory than a transaction has" } else { "more work than its formula needs" }),
                json!({"cfg": cfg_json(cfg), "case": case(), "steps": steps, "bound": bound, "bytes": heap}),
            );
        }
        r
    }
}
impl Drop for Job<'_> {
    fn drop(&mut self) {
        if let Ok(mut m) = self.most.lock() {
            for (k, v) in &self.local {
                let e = m.entry(*k).or_default();
                e.0 = e.0.max(v.0);
                e.1 = e.1.max(v.1);
            }
        }
    }
}

pub fn c28(ctx: &Ctx) {
    if !meter::METERED {
        eprintln!("C28 needs the metered build");
        std::process::exit(2);
    }
    let most: Mutex<Most> = Mutex::new(BTreeMap::new());
    let cs = curves();

    // 1. every request in every state of a lattice, through the entry point
    let lat = thin(&lattice(3, false), if ctx.thorough { 4 } else { 7 });
    let fees = [FEES[0], FEES[2], FEES[7]];
    let mut jobs = vec![];
    for &curve in &cs {
        for &fee in &fees {
            for &a in &lat {
                jobs.push((Cfg { curve, fee }, a));
            }
        }
    }
    ctx.note("bounds", json!({"curves": cs.len(), "fee_settings": fees.len(), "lattice_of_reserves_and_amounts": lat.len(),
        "pool_token_supplies": [0u64, 1_000_000_000, u64::MAX], "steps": "basic blocks of the program, spl-math and uint crates", "bytes": HEAP}));
    par(ctx, jobs.len(), |i, t| {
        let (cfg, a) = jobs[i];
        let mut j = Job { ctx, most: &most, local: BTreeMap::new() };
        let mut w = match j.measure(t, &cfg, "initialization", 8, &|| json!(null), || World::new(cfg, 1, &fund(&cfg.curve))) {
            Ok(w) => w,
            // whether it had to be accepted is C09's business
            Err(_) => {
                t.bump("terms_refused");
                return;
            }
        };
        for &b in &lat {
            for lp in [0u64, 1_000_000_000, u64::MAX] {
                let mut s = set_pool(&mut w, a, b, lp);
                let x = w.users[ALICE];
                s[x.a] = u64::MAX / 2;
                s[x.b] = u64::MAX / 2;
                t.states += 1;
                let u = ALICE;
                for &x in &lat {
                    let mut ops = vec![];
                    // a swap takes no notice of the pool tokens unless the owner's fee is paid in them
                    if lp != 0 || cfg.fee.owner.0 == 0 {
                        ops.push(Op::Swap { u, a2b: true, amt: x, min: 0, host: false });
                        ops.push(Op::Swap { u, a2b: false, amt: x, min: 0, host: false });
                    }
                    ops.push(Op::DepAll { u, lp: x, max_a: u64::MAX, max_b: u64::MAX });
                    ops.push(Op::WdAll { u, lp: x, min_a: 0, min_b: 0 });
                    for a in [true, false] {
                        ops.push(Op::DepOne { u, a, amt: x, min_lp: 0 });
                        ops.push(Op::WdOne { u, a, amt: x, max_lp: u64::MAX });
                    }
                    for op in ops {
                        w.load(&s);
                        let n = w.metas(0, &op).len();
                        let r = j.measure(t, &cfg, opname(&op), n, &|| json!({"state": show_pool(a, b, lp), "op": format!("{:?}", op)}), || w.run(0, &op));
                        if r.is_ok() {
                            t.traces += 1;
                        }
                    }
                }
            }
        }
        if i % 97 == 0 {
            ctx.sample(json!({"cfg": cfg_json(&cfg), "vault_a": a}));
        }
    });

    // 2. the calculations of the iterating curves alone, over a much finer lattice
    let fine = thin(&lattice(4, ctx.thorough), if ctx.thorough { 2 } else { 3 });
    let mut jobs = vec![];
    for &c in cs.iter().filter(|c| matches!(c, Curve::Stable { .. } | Curve::Linear { .. })) {
        for &a in &fine {
            jobs.push((Cfg { curve: c, fee: NOFEE }, a));
        }
    }
    par(ctx, jobs.len(), |i, t| {
        let (cfg, a) = jobs[i];
        let mut j = Job { ctx, most: &most, local: BTreeMap::new() };
        let c = cfg.curve.real();
        let f = cfg.fee.real();
        for &b in &fine {
            t.states += 1;
            for &x in &fine {
                for (d, n, s, q) in [(TradeDirection::AtoB, "calculation of a swap of A", a, b), (TradeDirection::BtoA, "calculation of a swap of B", b, a)] {
                    let r = j.measure(t, &cfg, n, 0, &|| json!({"a": a, "b": b, "amount": x}), || {
                        metered(|| c.swap(x as u128, s as u128, q as u128, d, &f).is_some())
                    });
                    if r == Some(true) {
                        t.traces += 1;
                    }
                }
            }
        }
    });

    // 3. histories: the states trading itself leads to
    let seqs = [1u64, 10, 1_000_000, 1 << 40];
    let depth = if ctx.thorough { 6 } else { 4 };
    let mut jobs = vec![];
    for &curve in &cs {
        for &n in &[7u64, 1_000_003, 1_000_000_000_000] {
            jobs.push((Cfg { curve, fee: FEES[2] }, n));
        }
    }
    par(ctx, jobs.len(), |i, t| {
        let (cfg, n) = jobs[i];
        let mut j = Job { ctx, most: &most, local: BTreeMap::new() };
        let lin = matches!(cfg.curve, Curve::Linear { .. });
        let f = Funds { va: if lin { 0 } else { n }, vb: n, a: [u64::MAX / 4, 0, 0], b: [u64::MAX / 4, 0, 0] };
        let mut w = match World::new(cfg, 1, &f) {
            Ok(w) => w,
            Err(_) => return,
        };
        let mut front = vec![w.state()];
        let mut seen: std::collections::HashSet<State> = front.iter().cloned().collect();
        for _ in 0..depth {
            let mut next = vec![];
            for s in &front {
                let mut ops = vec![];
                for &x in &seqs {
                    for a in [true, false] {
                        ops.push(Op::Swap { u: ALICE, a2b: a, amt: x, min: 0, host: false });
                        if !lin {
                            ops.push(Op::WdOne { u: ALICE, a, amt: x, max_lp: u64::MAX });
                        }
                    }
                }
                for op in ops {
                    w.load(s);
                    let k = w.metas(0, &op).len();
                    let r = j.measure(t, &cfg, opname(&op), k, &|| json!({"state": show(&w, s), "op": format!("{:?}", op)}), || {
                        // the state is loaded into a copy so that the case can still be shown
                        let mut x = w.clone();
                        x.run(0, &op).ok().map(|_| x.state())
                    });
                    if let Some(q) = r {
                        t.traces += 1;
                        if seen.len() < 4000 && seen.insert(q.clone()) {
                            next.push(q);
                        }
                    }
                }
            }
            t.states += next.len() as u64;
            front = next;
        }
    });

    // 4. creation with every kind of parameter through the processor
    let vals = lattice(2, false);
    let vals = thin(&vals, if ctx.thorough { 6 } else { 12 });
    par(ctx, vals.len(), |i, t| {
        let mut j = Job { ctx, most: &most, local: BTreeMap::new() };
        for &y in &vals {
            for &z in &vals {
                let x = vals[i];
                for curve in [Curve::Linear { sn: x, sd: y, pn: z, pd: 1 }, Curve::Linear { sn: x, sd: 1, pn: y, pd: z }, Curve::Stable { amp: x }, Curve::Price { p: x }, Curve::Offset { off: x }] {
                    let cfg = Cfg { curve, fee: Fee { trade: (y, z), ..NOFEE } };
                    let mut w = World::blank(cfg, 1, &fund(&curve));
                    let dest = w.users[ALICE].lp;
                    let metas = w.init_metas(0, dest);
                    t.states += 1;
                    let r = j.measure(t, &cfg, "initialization", 8, &|| json!(null), || {
                        exec(&mut w.bank, &Target::Func(&move |p, a| Processor::process_initialize(p, cfg.fee.real(), curve.real(), a, &None)), &metas)
                    });
                    if r.is_ok() {
                        t.traces += 1;
                    }
                }
            }
        }
    });
    let m = most.into_inner().unwrap();
    ctx.note("most_steps_and_bytes", json!(m.iter().map(|(k, v)| json!({"pool": k.0, "request": k.1, "steps": v.0, "bytes": v.1})).collect::<Vec<_>>()));
    if std::env::var("MCM").is_ok() {
        for (k, v) in &m {
            println!("{:?} {:?}", k, v);
        }
    }
}
fn show_pool(a: u64, b: u64, lp: u64) -> serde_json::Value {
    json!({"vault_a": a, "vault_b": b, "pool_tokens": lp})
}
fn metered<R>(f: impl FnOnce() -> R) -> Option<R> {
    meter::on(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    meter::on(false);
    r
}
