//! C11 fees, C12 closed pools, C13 pool-token value, C19 conservation, C20 exit, C24 liquidity
//! amounts. Real transactions, judged by the reference model or by an invariant.
use super::common::*;
use super::linear_checks::{curve, lin, SMALL};
use crate::big::*;
use crate::model::*;
use crate::report::*;
use crate::svm::Fail;
use crate::world::*;
use serde_json::json;

pub const BIG: u64 = u64::MAX;

/// Every op of `ops` in every pool state of `pools` for every configuration. Alice holds the
/// larger half of the pool tokens, the fee account the rest.
pub fn grid(
    ctx: &Ctx,
    cfgs: &[Cfg],
    pools: &[(u64, u64, u64)],
    ops: &(dyn Fn(&Cfg, (u64, u64, u64)) -> Vec<Op> + Sync),
    oracle: &(dyn Fn(&mut Tally, &Edge) -> Result<(), String> + Sync),
) {
    let chunk = 16;
    let per = (pools.len() + chunk - 1) / chunk;
    par(ctx, cfgs.len() * per, |i, t| {
        let cfg = cfgs[i / per];
        let part = &pools[(i % per) * chunk..((i % per + 1) * chunk).min(pools.len())];
        let f = Funds { va: if matches!(cfg.curve, Curve::Linear { .. }) { 0 } else { 1000 }, vb: 1000, a: [0; 3], b: [0; 3] };
        let mut w = match world(ctx, cfg, &f) {
            Some(w) => w,
            None => return,
        };
        let u = w.users[ALICE];
        let p = w.pools[0];
        for &(a, b, s) in part {
            set_pool(&mut w, a, b, s);
            w.set(u.lp, s - s / 2);
            w.set(p.fee, s / 2);
            for u in [ALICE, OWNER] {
                let u = w.users[u];
                w.set(u.a, 1 << 62);
                w.set(u.b, 1 << 62);
            }
            let half = w.state();
            let mut all = half.clone();
            all[u.lp] = s;
            all[p.fee] = 0;
            t.states += 1;
            // withdrawals also by somebody who holds all the pool tokens
            for (op, st) in ops(&cfg, (a, b, s)).into_iter().flat_map(|o| {
                let twice = matches!(o, Op::WdAll { u: ALICE, .. } | Op::WdOne { u: ALICE, .. });
                Some((o, &half)).into_iter().chain(if twice { Some((o, &all)) } else { None })
            }) {
                t.transitions += 1;
                let r = w.step(st, &op);
                let v = match &r {
                    Err(e) => Err(e.clone()),
                    Ok(x) => {
                        if x.is_ok() {
                            t.bump("accepted_transactions");
                        }
                        oracle(t, &Edge { w: &w, pre: st, op: &op, res: x.as_ref() })
                    }
                };
                if let Err(e) = v {
                    ctx.violation(
                        &format!("{}: {}", opname(&op), classify(&e)),
                        json!({"cfg": cfg_json(&cfg), "state": show(&w, st), "op": format!("{:?}", op), "what": e}),
                    );
                }
            }
        }
        if i % 101 == 0 {
            ctx.sample(json!({"cfg": cfg_json(&cfg), "pool_states": part}));
        }
    });
}

pub fn by_model(t: &mut Tally, e: &Edge) -> Result<(), String> {
    match judge(e.w, e.pre, e.op, e.res)? {
        Verdict::Succeeded => t.traces += 1,
        Verdict::Tolerated => t.bump("refusals_outside_arithmetic_range"),
        Verdict::Failed => {}
    }
    Ok(())
}

pub fn cross(cs: &[Curve], fs: &[Fee]) -> Vec<Cfg> {
    cs.iter().flat_map(|&curve| fs.iter().map(move |&fee| Cfg { curve, fee })).collect()
}

pub fn liquid_curves(thorough: bool) -> Vec<Curve> {
    let mut v = vec![Curve::Product, Curve::Price { p: 1 }, Curve::Price { p: 2 }, Curve::Price { p: 7 }, Curve::Price { p: 1000 }, Curve::Offset { off: 1 }, Curve::Offset { off: 6 }];
    if thorough {
        v.extend([Curve::Price { p: 3 }, Curve::Price { p: 10 }, Curve::Price { p: u64::MAX }, Curve::Offset { off: 1000 }, Curve::Offset { off: u64::MAX }]);
    }
    v
}

fn pools_small(n: u64, sups: &[u64]) -> Vec<(u64, u64, u64)> {
    let mut v = vec![];
    for a in 0..=n {
        for b in 0..=n {
            for &s in sups {
                v.push((a, b, s));
            }
        }
    }
    v
}
fn pools_large(l: &[u64], sups: &[u64]) -> Vec<(u64, u64, u64)> {
    let mut v = vec![];
    for &a in l {
        for &b in l {
            for &s in sups {
                v.push((a, b, s));
            }
        }
    }
    v
}
/// all liquidity operations with these amounts, loosest limits, by a holder and by the fee account
fn liquidity_ops(am: &[u64], lp: &[u64]) -> Vec<Op> {
    let mut o = vec![];
    for u in [ALICE, OWNER] {
        for &x in lp {
            o.push(Op::DepAll { u, lp: x, max_a: BIG, max_b: BIG });
            o.push(Op::WdAll { u, lp: x, min_a: 0, min_b: 0 });
        }
        for &x in am {
            for a in [true, false] {
                o.push(Op::DepOne { u, a, amt: x, min_lp: 0 });
                o.push(Op::WdOne { u, a, amt: x, max_lp: BIG });
            }
        }
    }
    o
}

/// pool states that are very unequal, huge or nearly empty
pub const ODD: &[(u64, u64, u64)] =
    &[(1 << 61, 1000, 1_000_000_000), (7, 5_000_001, 1000), (1 << 62, 1 << 62, 1), ((1 << 61) + 1, 1, 1 << 62), (1, 1 << 61, 1 << 48), (1_000_003, 1_000, 7)];

/// One operation of any kind, from ordinary and odd pool states, with amounts of every shape and
/// related to the state of the pool.
pub fn wide(ctx: &Ctx, cfgs: &[Cfg], oracle: &(dyn Fn(&mut Tally, &Edge) -> Result<(), String> + Sync)) {
    let mut pools = ODD.to_vec();
    pools.extend([(1000, 1000, 1_000_000_000), (1_000_000_007, 998_244_353, 1_234_567_891), (1 << 50, 1 << 49, 0), (123_456_789, 1 << 40, 1 << 60)]);
    grid(
        ctx,
        cfgs,
        &pools,
        &|_, (a, b, s)| {
            let mut am = related(a, b, s);
            am.extend(shapes());
            am.extend(0..=3);
            am.sort();
            am.dedup();
            let mut o = liquidity_ops(&am, &am);
            for &x in &am {
                for a2b in [true, false] {
                    for host in [true, false] {
                        o.push(Op::Swap { u: ALICE, a2b, amt: x, min: 0, host });
                    }
                }
            }
            o
        },
        oracle,
    );
    ctx.note("wide_single_operation_pool_states", json!(pools.len() * cfgs.len()));
}

pub fn c24(ctx: &Ctx) {
    let mut cs = liquid_curves(ctx.thorough);
    // two-sided operations; its single-sided ones are judged in C21
    cs.extend([Curve::Stable { amp: 1 }, Curve::Stable { amp: 100 }]);
    let fs = [FEES[0], FEES[2], FEES[3], FEES[5], FEES[6]];
    let cfgs = cross(&cs, &fs);
    let n = if ctx.thorough { 9 } else { 5 };
    let sups: &[u64] = if ctx.thorough { &[0, 1, 2, 3, 7, 10, 100, 1_000_000_000] } else { &[0, 1, 3, 10, 1_000_000_000] };
    let small = pools_small(n, sups);
    let m = if ctx.thorough { 14 } else { 8 };
    grid(
        ctx,
        &cfgs,
        &small,
        &move |_, (_, _, s)| {
            let am: Vec<u64> = (0..=m).collect();
            let mut lp: Vec<u64> = if s <= 10 { (0..=s + 1).collect() } else { (0..=3).collect() };
            lp.extend([s / 3, s / 2, s - s / 2, s]);
            lp.sort();
            lp.dedup();
            liquidity_ops(&am, &lp)
        },
        &by_model,
    );
    let l = lattice(1, false);
    let l = if ctx.thorough { thin(&l, 7) } else { thin(&l, 11) };
    let large = pools_large(&l, &[1, 1_000_000_007, 1 << 40, BIG]);
    let am = l.clone();
    grid(
        ctx,
        &cross(&cs, &[FEES[0], FEES[2], FEES[6]]),
        &large,
        &move |_, (a, b, s)| {
            let mut am = am.clone();
            am.extend(related(a, b, s));
            am.extend(shapes());
            am.extend([b / 7]);
            am.sort();
            am.dedup();
            let mut lp = am.clone();
            lp.extend([1, 2, s / 1_000_003, s / 7, s - s / 2]);
            lp.sort();
            lp.dedup();
            liquidity_ops(&am, &lp)
        },
        &by_model,
    );
    ctx.note("bounds", json!({"curves": cs.len(), "small_pool_states": small.len(), "large_pool_states": large.len()}));
    ctx.assume("square roots on the constant product and offset curves: the amount of pool tokens may be off by one plus 1e-11 of the supply (12-decimal arithmetic)");
}

pub fn c11(ctx: &Ctx) {
    let fr: Vec<(u64, u64)> = {
        let m = if ctx.thorough { 6 } else { 4 };
        let mut v: Vec<(u64, u64)> = vec![(0, 0)];
        for d in 1..=m {
            for n in 0..d {
                v.push((n, d));
            }
        }
        v.extend([(1, 1000), (999, 1000), (25, 10_000), (123_456, 1_000_000), (1, u64::MAX), (u64::MAX - 1, u64::MAX), (1 << 63, u64::MAX)]);
        v
    };
    // trade x owner with host, then withdrawal x trade: every pair of fractions, the others fixed
    let mut fs = vec![];
    for (i, &x) in fr.iter().enumerate() {
        for (j, &y) in fr.iter().enumerate() {
            fs.push(Fee { trade: x, owner: y, wd: fr[(i + j) % fr.len()], host: fr[(3 * i + 7 * j) % fr.len()] });
            fs.push(Fee { trade: fr[(2 * i + j) % fr.len()], owner: fr[(i + 5 * j) % fr.len()], wd: x, host: y });
        }
    }
    let cs = [Curve::Price { p: 1 }, Curve::Price { p: 3 }, Curve::Product, Curve::Offset { off: 5 }];
    let cfgs = cross(&cs, &fs);
    let big = 1_000_000_007u64;
    let pools = [(50u64, 40u64, 30u64), (3, 1000, 1_000_000_000), (big, 3 * big, big), (1 << 60, 1 << 59, 1 << 61)];
    let am: Vec<u64> = if ctx.thorough { (0..=40).chain([99, 100, 101, 9_999, 10_001, big / 3, 1 << 45, 1 << 58]).collect() } else { (0..=9).chain([25, 10_001, big / 3, 1 << 45]).collect() };
    let ops = move |c: &Cfg, (a, b, s): (u64, u64, u64)| {
            let mut o = vec![];
            let mut am = am.clone();
            am.extend(related(a, b, s));
            am.extend(shapes());
            for f in [c.fee.trade, c.fee.owner, c.fee.wd, c.fee.host] {
                am.extend([f.0, f.1, f.1.wrapping_add(1), f.1.saturating_sub(1), f.1 / f.0.max(1)]);
            }
            am.sort();
            am.dedup();
            for &x in &am {
                for host in [false, true] {
                    for a2b in [true, false] {
                        o.push(Op::Swap { u: ALICE, a2b, amt: x, min: 0, host });
                    }
                }
                for u in [ALICE, OWNER] {
                    o.push(Op::WdOne { u, a: true, amt: x, max_lp: BIG });
                    o.push(Op::WdOne { u, a: false, amt: x, max_lp: BIG });
                    if x <= s {
                        o.push(Op::WdAll { u, lp: x, min_a: 0, min_b: 0 });
                    }
                }
                o.push(Op::DepOne { u: ALICE, a: true, amt: x, min_lp: 0 });
                o.push(Op::DepOne { u: ALICE, a: false, amt: x, min_lp: 0 });
            }
            o
    };
    grid(ctx, &cfgs, &pools, &ops, &by_model);
    // very unequal, huge and nearly empty pools
    let some: Vec<Cfg> = cfgs.iter().cloned().step_by(if ctx.thorough { 3 } else { 7 }).collect();
    grid(ctx, &some, ODD, &ops, &by_model);
    ctx.note("bounds", json!({"fee_settings": fs.len(), "curves": cs.len(), "pool_states": pools.len() + ODD.len()}));
    fee_by_comparison(ctx);
    let cs = [Curve::Price { p: 1 }, Curve::Price { p: 3 }, Curve::Product, Curve::Offset { off: 5 }, Curve::Stable { amp: 85 }];
    let fs: Vec<Fee> = FEES.iter().cloned().chain([Fee { trade: (1, 100), owner: (1, 3), wd: (1, 7), host: (1, 2) }, Fee { trade: (0, 1), owner: (1, 1000), wd: (999, 1000), host: (0, 1) }]).collect();
    without_fee_account(ctx, &cross(&cs, &fs), &gone_pools(), &[0, 1, 2, 3, 10, 41, 1000, 1_000_003, 1 << 40], true);
}

/// On every curve (the approximated ones too): a pool with fees trades like the same pool without
/// fees does for the amount less the fees, and keeps the fees on the source side.
fn fee_by_comparison(ctx: &Ctx) {
    let mut cs = vec![Curve::Product, Curve::Price { p: 2 }, Curve::Offset { off: 9 }, Curve::Stable { amp: 1 }, Curve::Stable { amp: 100 }];
    for p in SMALL {
        cs.push(curve(&lin(p.0, p.1, p.2, p.3)));
    }
    let fracs = [(1u64, 2u64), (1, 3), (2, 5), (25, 10_000), (9, 10), (1, 1_000_000_000_000)];
    let pools = [(0u64, 50u64), (7, 30), (1000, 900), (1_000_000_007, 998_244_353), (1 << 50, 1 << 49)];
    let am: Vec<u64> = if ctx.thorough { (0..=200).collect() } else { (0..=40).collect() };
    let mut jobs = vec![];
    for &c in &cs {
        for &fr in &fracs {
            jobs.push((c, fr));
        }
    }
    par(ctx, jobs.len(), |i, t| {
        let (c, fr) = jobs[i];
        let f = Funds { va: if matches!(c, Curve::Linear { .. }) { 0 } else { 1000 }, vb: 1000, a: [0; 3], b: [0; 3] };
        let (mut w, mut w0) = match (world(ctx, Cfg { curve: c, fee: Fee { trade: fr, ..NOFEE } }, &f), world(ctx, Cfg { curve: c, fee: NOFEE }, &f)) {
            (Some(x), Some(y)) => (x, y),
            _ => return,
        };
        for &(a, b) in &pools {
            set_pool(&mut w, a, b, 1_000_000_000);
            let u = w.users[ALICE];
            let p = w.pools[0];
            w.set(u.a, 1 << 62);
            w.set(u.b, 1 << 62);
            let st = w.state();
            t.states += 1;
            for &x in am.iter().chain(&[1_000_003, 1 << 40]) {
                for a2b in [true, false] {
                    let fe = fee(fr, x as u128) as u64;
                    let r = w.step(&st, &Op::Swap { u: ALICE, a2b, amt: x, min: 0, host: false });
                    t.transitions += 2;
                    let bad = match r {
                        Err(e) => Some(e),
                        Ok(r) => {
                            let r = r.ok();
                            let r0 = if fe > x {
                                None
                            } else {
                                match w0.step(&st, &Op::Swap { u: ALICE, a2b, amt: x - fe, min: 0, host: false }) {
                                    Ok(Ok(q)) => Some(q),
                                    _ => None,
                                }
                            };
                            let (src, vs) = if a2b { (u.a, p.va) } else { (u.b, p.vb) };
                            match (r, r0) {
                                (None, None) => None,
                                (Some(q), Some(mut q0)) => {
                                    t.traces += 1;
                                    q0[src] = q0[src].wrapping_sub(fe);
                                    q0[vs] = q0[vs].wrapping_add(fe);
                                    if q == q0 {
                                        None
                                    } else {
                                        Some(format!("with the fee: {}, without: {}", diff(&w, &st, &q), diff(&w, &st, &q0)))
                                    }
                                }
                                (q, _) => Some(format!("only the pool {} fee trades", if q.is_some() { "with" } else { "without" })),
                            }
                        }
                    };
                    if let Some(e) = bad {
                        ctx.violation("a pool with a fee trades differently", json!({"curve": format!("{:?}", c), "trade_fee": fr, "state": show(&w, &st), "amount": x, "a2b": a2b, "what": e}));
                    }
                }
            }
        }
    });
}

pub fn c12(ctx: &Ctx) {
    let mut cs: Vec<Curve> = SMALL.iter().map(|p| curve(&lin(p.0, p.1, p.2, p.3))).collect();
    cs.extend([curve(&lin(1, 200_000_000, 1, 50)), curve(&lin(u64::MAX, 1, u64::MAX, 1)), curve(&lin(1, 1_000_000_000_000_000_000, 0, 1))]);
    cs.extend([Curve::Offset { off: 1 }, Curve::Offset { off: 6 }, Curve::Offset { off: 1 << 40 }]);
    let mut cfgs = vec![];
    for &c in &cs {
        for (i, &f) in FEES.iter().enumerate() {
            if i < if ctx.thorough { 8 } else { 4 } {
                cfgs.push(Cfg { curve: c, fee: f });
            }
        }
    }
    let n = if ctx.thorough { 6 } else { 3 };
    let mut pools = pools_small(n, &[0, 1, 2, 9, 1_000_000_000]);
    pools.extend(pools_large(&[0, 1, 1_000_000_007, 1 << 50, BIG], &[0, 1, 1_000_000_000, BIG]));
    let am: Vec<u64> = if ctx.thorough { (0..=8).chain([1_000_000_000, 1 << 50, BIG]).collect() } else { vec![0, 1, 2, 5, 1_000_000_000, 1 << 50, BIG] };
    grid(
        ctx,
        &cfgs,
        &pools,
        &move |c, (_, _, s)| {
            let mut o = vec![];
            for &x in am.iter().chain(&[s / 2, s]) {
                o.push(Op::DepAll { u: ALICE, lp: x, max_a: BIG, max_b: BIG });
                for a in [true, false] {
                    o.push(Op::DepOne { u: ALICE, a, amt: x, min_lp: 0 });
                }
                o.push(Op::DepOne { u: OWNER, a: true, amt: x, min_lp: 0 });
                o.push(Op::DepAll { u: OWNER, lp: x, max_a: BIG, max_b: BIG });
                if matches!(c.curve, Curve::Linear { .. }) {
                    for u in [ALICE, OWNER] {
                        o.push(Op::WdAll { u, lp: x, min_a: 0, min_b: 0 });
                        for a in [true, false] {
                            o.push(Op::WdOne { u, a, amt: x, max_lp: BIG });
                        }
                    }
                }
            }
            o
        },
        &|_, e| match e.res {
            Ok(q) => Err(format!("succeeded on a pool that is closed to it ({})", diff(e.w, e.pre, q))),
            Err(_) => Ok(()),
        },
    );
    // the same along histories, including the burning of all pool tokens
    let hist = [
        curve(&lin(1, 1, 1, 1)),
        curve(&lin(1, 2, 1, 1)),
        curve(&lin(7, 3, 1, 2)),
        Curve::Offset { off: 1 },
        Curve::Offset { off: 5 },
    ];
    par(ctx, hist.len(), |i, t| {
        let c = hist[i];
        let linear = matches!(c, Curve::Linear { .. });
        let f = Funds { va: if linear { 0 } else { 4 }, vb: 5, a: [8, 0, 0], b: [2, 0, 0] };
        let mut w = match world(ctx, Cfg { curve: c, fee: NOFEE }, &f) {
            Some(w) => w,
            None => return,
        };
        let init = w.state();
        let ops = move |w: &World, s: &State| {
            let u = w.users[ALICE];
            let mut o = vec![];
            for x in 1..=s[u.a] {
                o.push(Op::Swap { u: ALICE, a2b: true, amt: x, min: 0, host: false });
                o.push(Op::DepOne { u: ALICE, a: true, amt: x, min_lp: 0 });
            }
            for x in 1..=s[u.b] {
                o.push(Op::Swap { u: ALICE, a2b: false, amt: x, min: 0, host: false });
                o.push(Op::DepOne { u: ALICE, a: false, amt: x, min_lp: 0 });
            }
            if s[u.a] > 0 {
                o.push(Op::Donate { u: ALICE, a: true, amt: 1 });
            }
            if s[u.b] > 0 {
                o.push(Op::Donate { u: ALICE, a: false, amt: 1 });
            }
            for lp in [1, 500_000_000, 1_000_000_000, s[u.lp]] {
                o.push(Op::DepAll { u: ALICE, lp, max_a: BIG, max_b: BIG });
                if linear {
                    o.push(Op::WdAll { u: ALICE, lp, min_a: 0, min_b: 0 });
                }
                if lp > 0 && (lp == s[u.lp] || lp == 500_000_000) {
                    o.push(Op::Burn { u: ALICE, lp });
                }
            }
            if linear {
                for x in 1..=3 {
                    o.push(Op::WdOne { u: ALICE, a: true, amt: x, max_lp: BIG });
                    o.push(Op::WdOne { u: ALICE, a: false, amt: x, max_lp: BIG });
                }
            }
            o
        };
        bfs(ctx, t, &mut w, &init, usize::MAX, 1_000_000, &ops, &|e: &Edge| match (e.op, e.res) {
            (Op::DepAll { .. } | Op::DepOne { .. } | Op::WdAll { .. } | Op::WdOne { .. }, Ok(q)) => Err(format!("succeeded on a pool that is closed to it ({})", diff(e.w, e.pre, q))),
            _ => Ok(()),
        });
    });
}

/// value backing the pool tokens, and whether it is quadratic in the amounts
fn value(c: &Curve, a: u64, b: u64) -> Option<(W, bool)> {
    match *c {
        Curve::Price { p } => Some((w(a as u128) + w(b as u128) * w(p as u128), false)),
        Curve::Product => Some((w(a as u128) * w(b as u128), true)),
        Curve::Offset { off } => Some((w(a as u128) * (w(b as u128) + w(off as u128)), true)),
        _ => None,
    }
}
/// the value behind each outstanding pool token does not fall
pub fn not_diluted(e: &Edge) -> Result<(), String> {
    let q = match e.res {
        Ok(q) => q,
        Err(_) => return Ok(()),
    };
    let p = e.w.pools[0];
    let c = &e.w.cfg.curve;
    let (s0, s1) = (e.pre[p.mint] as u128, q[p.mint] as u128);
    if s0 == 0 || s1 == 0 {
        return Ok(());
    }
    let ((v0, quad), (v1, _)) = match (value(c, e.pre[p.va], e.pre[p.vb]), value(c, q[p.va], q[p.vb])) {
        (Some(x), Some(y)) => (x, y),
        _ => return Ok(()),
    };
    // pool tokens minted for the owner's fee are rounded up
    let mut s1 = s1;
    if let Op::Swap { .. } = e.op {
        if s1 > s0 {
            s1 -= 1;
        }
    }
    let ok = if !quad {
        v1 * w(s0) >= v0 * w(s1)
    } else {
        let exact = v1 * w(s0) * w(s0) >= v0 * w(s1) * w(s1);
        let root = matches!(e.op, Op::DepOne { .. } | Op::WdOne { .. }) || (matches!(e.op, Op::Swap { .. }) && s1 > s0);
        if !exact && root {
            // square roots with 12 decimals: the excess, in units of 1e-12 pool tokens
            let err = match e.op {
                Op::WdOne { .. } => {
                    let (rl, rh) = sqrt_iv(v1.min(v0), v0);
                    rh - rl
                }
                _ => W::from(8),
            };
            let tol = w(s0.max(s1)) * err + W::from(2);
            let s = (w(s1) * w(U)).saturating_sub(tol);
            v1 * w(s0) * w(s0) * w(U) * w(U) >= v0 * s * s
        } else {
            exact
        }
    };
    if ok {
        Ok(())
    } else {
        Err(format!("value behind the pool tokens fell: {} for {} tokens, then {} for {} ({})", v0, s0, v1, q[p.mint], diff(e.w, e.pre, q)))
    }
}

pub fn c13(ctx: &Ctx) {
    ctx.assume("the owner's fee is converted to pool tokens rounded up: at most one pool token of dilution per swap that charges it; square roots carry 12 decimals");
    let cs = liquid_curves(ctx.thorough);
    let cfgs = cross(&cs, &FEES.iter().cloned().take(if ctx.thorough { 8 } else { 6 }).collect::<Vec<_>>());
    let n = if ctx.thorough { 8 } else { 5 };
    let small = pools_small(n, if ctx.thorough { &[1, 2, 3, 5, 8, 13, 1_000_000_000] } else { &[1, 3, 8, 1_000_000_000] });
    let orc = |t: &mut Tally, e: &Edge| -> Result<(), String> {
        if e.res.is_ok() {
            t.traces += 1;
        }
        not_diluted(e)
    };
    let m: u64 = if ctx.thorough { 12 } else { 7 };
    let all = |am: &[u64], lp: &[u64]| {
        let mut o = liquidity_ops(am, lp);
        for &x in am {
            for a2b in [true, false] {
                o.push(Op::Swap { u: ALICE, a2b, amt: x, min: 0, host: false });
            }
        }
        o
    };
    grid(
        ctx,
        &cfgs,
        &small,
        &move |_, (_, _, s)| {
            let am: Vec<u64> = (1..=m).collect();
            let lp: Vec<u64> = if s <= 13 { (1..=s).collect() } else { vec![1, 2, s / 7, s / 3, s / 2, s - 1] };
            all(&am, &lp)
        },
        &orc,
    );
    let l = if ctx.thorough { thin(&lattice(1, false), 6) } else { thin(&lattice(1, false), 13) };
    let large = pools_large(&l, &[7, 1_000_000_007, 1 << 40, BIG / 3]);
    let am = l.clone();
    grid(
        ctx,
        &cross(&cs, &[FEES[0], FEES[2], FEES[3]]),
        &large,
        &move |_, (a, b, s)| {
            let mut am = am.clone();
            am.extend([a / 3 + 1, b / 7 + 1]);
            am.extend(related(a, b, s));
            am.extend(shapes());
            am.sort();
            am.dedup();
            let mut lp = am.clone();
            lp.extend([1, 2, s / 1_000_003, s / 7]);
            lp.sort();
            lp.dedup();
            all(&am, &lp)
        },
        &orc,
    );
    // and over all histories of two parties of a small pool
    histories(ctx, &cs, &[FEES[0], FEES[3]], if ctx.thorough { 6 } else { 4 }, &not_diluted);
    ctx.note("bounds", json!({"curves": cs.len(), "small_pool_states": small.len(), "large_pool_states": large.len()}));
}

/// All histories of two users (plus the owner redeeming fees) on a small pool.
pub fn histories(ctx: &Ctx, cs: &[Curve], fs: &[Fee], depth: usize, oracle: &(dyn Fn(&Edge) -> Result<(), String> + Sync)) {
    let cfgs: Vec<Cfg> = cross(cs, fs).into_iter().filter(|c| !matches!(c.curve, Curve::Linear { .. }) || c.fee == NOFEE).collect();
    par(ctx, cfgs.len(), |i, t| {
        let cfg = cfgs[i];
        let linear = matches!(cfg.curve, Curve::Linear { .. });
        let f = Funds { va: if linear { 0 } else { 12 }, vb: 10, a: [9, 7, 0], b: [5, 6, 0] };
        let mut w = match world(ctx, cfg, &f) {
            Some(w) => w,
            None => return,
        };
        let init = w.state();
        let ops = move |w: &World, s: &State| {
            let p = w.pools[0];
            let mut o = vec![];
            for u in [ALICE, BOB, OWNER] {
                let x = w.users[u];
                let (ha, hb, hl) = (s[x.a], s[x.b], s[x.lp]);
                if u != OWNER {
                    for v in [1, 3, ha] {
                        if v > 0 && v <= ha {
                            o.push(Op::Swap { u, a2b: true, amt: v, min: 0, host: v == 3 });
                        }
                    }
                    for v in [1, 2, hb] {
                        if v > 0 && v <= hb {
                            o.push(Op::Swap { u, a2b: false, amt: v, min: 0, host: v == 2 });
                        }
                    }
                    if ha > 1 {
                        o.push(Op::DepOne { u, a: true, amt: 2, min_lp: 0 });
                        o.push(Op::Donate { u, a: true, amt: 1 });
                    }
                    if hb > 1 {
                        o.push(Op::DepOne { u, a: false, amt: 2, min_lp: 0 });
                        o.push(Op::Donate { u, a: false, amt: 1 });
                    }
                    o.push(Op::DepAll { u, lp: (s[p.mint] / 4).max(1), max_a: BIG, max_b: BIG });
                }
                if hl > 0 {
                    for lp in [hl, hl / 2] {
                        o.push(Op::WdAll { u, lp, min_a: 0, min_b: 0 });
                    }
                    o.push(Op::WdOne { u, a: true, amt: 2, max_lp: BIG });
                    o.push(Op::WdOne { u, a: false, amt: 1, max_lp: BIG });
                    o.push(Op::Burn { u, lp: hl / 3 + 1 });
                }
            }
            o.dedup();
            o
        };
        let o = bfs(ctx, t, &mut w, &init, depth, 150_000, &ops, oracle);
        ctx.sample(json!({"cfg": cfg_json(&cfg), "states": o.states, "transitions": o.edges, "depth": depth, "state_cap_reached": o.states >= 150_000}));
    });
}

pub fn c19(ctx: &Ctx) {
    let mut cs = vec![
        Curve::Product,
        Curve::Price { p: 1 },
        Curve::Price { p: 3 },
        Curve::Offset { off: 4 },
        Curve::Stable { amp: 1 },
        Curve::Stable { amp: 100 },
        curve(&lin(1, 1, 1, 1)),
        curve(&lin(1, 2, 1, 1)),
        curve(&lin(7, 3, 1, 2)),
    ];
    if ctx.thorough {
        cs.extend([Curve::Price { p: 2 }, Curve::Price { p: 10 }, Curve::Offset { off: 1 }, Curve::Stable { amp: 10 }, curve(&lin(2, 1, 0, 1)), curve(&lin(1, 10, 5, 1))]);
    }
    let orc = |e: &Edge| -> Result<(), String> {
        judge(e.w, e.pre, e.op, e.res)?;
        if let (Err(Fail::Runtime(r)), _) = (e.res, 0) {
            return Err(format!("broke a rule of the runtime: {}", r));
        }
        if let Ok(q) = e.res {
            conserved(e.w, e.pre, q)?;
        }
        Ok(())
    };
    histories(ctx, &cs, &[FEES[0], FEES[3], FEES[2]], if ctx.thorough { 5 } else { 4 }, &orc);
    let wider = cross(&cs, &[FEES[0], FEES[3], FEES[2]]);
    wide(ctx, &wider, &|_, e| orc(e));
    // and one operation from pool states of every size
    cs.push(curve(&lin(1, 200_000_000, 1, 50)));
    cs.push(Curve::Price { p: 1000 });
    cs.push(Curve::Offset { off: 1 << 40 });
    let fs = if ctx.thorough { FEES.to_vec() } else { vec![FEES[0], FEES[2], FEES[3]] };
    let l: &[u64] = if ctx.thorough { &[0, 1, 5, 97, 1_000, 65_537, 1_000_000_007, 1 << 40, 1 << 52, 1 << 62, BIG] } else { &[0, 5, 1_000, 1_000_000_007, 1 << 50] };
    let pools = pools_large(l, if ctx.thorough { &[0, 1, 7, 1_000_000_000, 1 << 55] } else { &[0, 7, 1_000_000_000] });
    ctx.note("single_operation_pool_states", json!(pools.len() * cs.len() * fs.len()));
    grid(
        ctx,
        &cross(&cs, &fs),
        &pools,
        &|_, (a, b, s)| {
            let mut am = vec![0, 1, 2, 3, 10, 10_007, a / 3, a, b / 7, b, 1 << 33, 1 << 53, BIG];
            am.sort();
            am.dedup();
            let mut o = liquidity_ops(&am, &[0, 1, 2, s / 7, s - s / 2, s]);
            for &x in &am {
                for a2b in [true, false] {
                    for host in [true, false] {
                        o.push(Op::Swap { u: ALICE, a2b, amt: x, min: 0, host });
                    }
                    o.push(Op::Swap { u: ALICE, a2b, amt: x, min: x / 2, host: false });
                }
            }
            o
        },
        &|t, e| {
            by_model(t, e)?;
            orc(e)
        },
    );
}

/// no A or B appears or disappears, pool tokens outstanding = supply of the pool mint
pub fn conserved(wd: &World, s: &State, q: &State) -> Result<(), String> {
    use solana_program::pubkey::Pubkey;
    let sum = |st: &State, mint: &Pubkey| -> u128 {
        wd.bank
            .accts
            .iter()
            .zip(st)
            .filter(|(a, _)| a.owner == spl_token::id() && a.data.len() == 165 && a.data[..32] == mint.to_bytes())
            .map(|(_, v)| *v as u128)
            .sum()
    };
    for m in [wd.mint_a, wd.mint_b] {
        let k = wd.k(m);
        if sum(s, &k) != sum(q, &k) {
            return Err(format!("{} tokens were created or destroyed", wd.names[m]));
        }
    }
    for p in &wd.pools {
        let k = wd.k(p.mint);
        if sum(q, &k) as i128 - q[p.mint] as i128 != sum(s, &k) as i128 - s[p.mint] as i128 {
            return Err("pool tokens do not match their supply".into());
        }
    }
    Ok(())
}

pub fn c20(ctx: &Ctx) {
    // pool tokens spread over three holders; all orders of leaving
    let cs = [Curve::Product, Curve::Stable { amp: 1 }, Curve::Stable { amp: 85 }, Curve::Offset { off: 7 }, Curve::Offset { off: 100_000 }];
    let fs = [FEES[0], FEES[2], FEES[3], FEES[6]];
    let cfgs = cross(&cs, &fs);
    let va: Vec<u64> = if ctx.thorough {
        vec![1, 2, 3, 5, 17, 100, 255, 1001, 65_537, 999_983, 1_000_000_007, 1 << 32, 1 << 45, 1 << 54, 1 << 62, BIG / 3]
    } else {
        vec![1, 3, 5, 1001, 65_537, 1_000_000_007, 1 << 45, 1 << 62]
    };
    let sp: Vec<[u64; 3]> = vec![
        [1_000_000_000, 0, 0],
        [1, 1, 1],
        [5, 3, 2],
        [333_333_333, 333_333_333, 333_333_334],
        [999_999_998, 1, 1],
        [500_000_000, 499_999_999, 1],
        [7, 1_000_003, 123_456_789],
        [1 << 60, 1 << 59, 3],
    ];
    // everybody at once, and everybody in two parts: the holder, and the part of the pool tokens
    let mut orders: Vec<Vec<(usize, u64)>> = vec![];
    fn orders_of(left: [u8; 3], parts: u64, cur: &mut Vec<(usize, u64)>, out: &mut Vec<Vec<(usize, u64)>>) {
        if left == [0; 3] {
            // the owner collects withdrawal fees, so leaves once more at the end
            let mut c = cur.clone();
            c.push((2, 1));
            return out.push(c);
        }
        for h in 0..3 {
            if left[h] > 0 {
                let mut l = left;
                l[h] -= 1;
                // the last part is everything the holder still has
                cur.push((h, if left[h] == 1 { 1 } else { parts }));
                orders_of(l, parts, cur, out);
                cur.pop();
            }
        }
    }
    orders_of([1; 3], 1, &mut vec![], &mut orders);
    orders_of([2; 3], 2, &mut vec![], &mut orders);
    if ctx.thorough {
        orders_of([2; 3], 1000, &mut vec![], &mut orders);
        orders_of([3, 2, 2], 7, &mut vec![], &mut orders);
    }
    par(ctx, cfgs.len() * va.len(), |i, t| {
        let cfg = cfgs[i / va.len()];
        let a = va[i % va.len()];
        let f = Funds { va: 1000, vb: 1000, a: [0; 3], b: [0; 3] };
        let mut w = match world(ctx, cfg, &f) {
            Some(w) => w,
            None => return,
        };
        let p = w.pools[0];
        let holders = [ALICE, BOB, OWNER];
        for &b in &va {
            for split in &sp {
                let sup: u64 = split.iter().sum();
                set_pool(&mut w, a, b, sup);
                for (h, &x) in holders.iter().zip(split) {
                    let l = w.users[*h].lp;
                    w.set(l, x);
                }
                for h in holders {
                    let u = w.users[h];
                    w.set(u.a, 0);
                    w.set(u.b, 0);
                }
                let init = w.state();
                for order in &orders {
                    let mut s = init.clone();
                    t.states += 1;
                    let mut hist = vec![];
                    for &(h, part) in order {
                        let u = w.users[holders[h]];
                        let lp = s[u.lp] / part;
                        if lp == 0 {
                            continue;
                        }
                        let wf = if u.lp == p.fee { 0 } else { fee(cfg.fee.wd, lp as u128) };
                        let net = lp as u128 - wf;
                        let (ra, rb, rs) = (s[p.va] as u128, s[p.vb] as u128, s[p.mint] as u128);
                        let off = if let Curve::Offset { off } = cfg.curve { off as u128 } else { 0 };
                        let (ea, eb) = ((w_mul(net, ra, rs)), w_mul(net, rb + off, rs).min(rb));
                        let op = Op::WdAll { u: holders[h], lp, min_a: 0, min_b: 0 };
                        t.transitions += 1;
                        hist.push(format!("{:?}", op));
                        let over = net.checked_mul(ra).is_none() || net.checked_mul(rb + off).is_none();
                        let dust = (ea == 0 && ra > 0) || (eb == 0 && rb > 0);
                        let bad = match w.step(&s, &op) {
                            Err(e) => Err(e),
                            Ok(Err(f)) => {
                                if dust || over {
                                    Ok(None)
                                } else {
                                    Err(format!("a holder of {} of {} pool tokens cannot leave: {:?}", lp, rs, f))
                                }
                            }
                            Ok(Ok(q)) => {
                                let (ga, gb) = (ra - (q[p.va] as u128).min(ra), rb - (q[p.vb] as u128).min(rb));
                                if ga != ea || gb != eb || q[u.a] as u128 != s[u.a] as u128 + ga || q[u.b] as u128 != s[u.b] as u128 + gb {
                                    Err(format!("redeemed {} of {} pool tokens for {} A and {} B of {} and {}, the share is {} and {}", net, rs, ga, gb, ra, rb, ea, eb))
                                } else if q[p.mint] as u128 != rs - net {
                                    Err(format!("{} pool tokens redeemed, supply went from {} to {}", net, rs, q[p.mint]))
                                } else if q[p.mint] == 0 && (q[p.va] != 0 || (q[p.vb] != 0)) {
                                    Err(format!("the last holder left {} A and {} B behind", q[p.va], q[p.vb]))
                                } else {
                                    Ok(Some(q))
                                }
                            }
                        };
                        match bad {
                            Ok(Some(q)) => s = q,
                            Ok(None) => {
                                t.bump("holders_of_less_than_one_unit");
                            }
                            Err(e) => {
                                ctx.violation(&classify(&e), json!({"cfg": cfg_json(&cfg), "initial": show(&w, &init), "history": hist, "what": e}));
                                break;
                            }
                        }
                    }
                    t.traces += 1;
                }
            }
        }
        ctx.sample(json!({"cfg": cfg_json(&cfg), "vault_a": a, "vault_b": va, "splits": sp.len(), "orders": orders.len()}));
    });
    let mut cs = cs.to_vec();
    cs.extend([Curve::Price { p: 1 }, Curve::Price { p: 7 }]);
    without_fee_account(ctx, &cross(&cs, &fs), &gone_pools(), &[1, 2, 3, 10, 41, 1000], false);
}
/// pools whose fee account is gone
fn gone_pools() -> Vec<(u64, u64, u64)> {
    let v = [0u64, 1, 50, 1001, 1_000_000_007, 1 << 45, 1 << 60];
    let mut o = vec![];
    for a in v {
        for b in v {
            o.extend([(a, b, 1), (a, b, 30), (a, b, 1_000_000_000), (a, b, 1 << 58)]);
        }
    }
    o
}

/// The owner of the fee account can close it (and open something else in its place): from then on nobody
/// is paid fees in pool tokens, and everything else goes on as before. Each operation in each state, by the model.
fn without_fee_account(ctx: &Ctx, cfgs: &[Cfg], pools: &[(u64, u64, u64)], amounts: &[u64], swaps: bool) {
    type Case = (&'static str, fn(&mut World));
    let cases: [Case; 4] = [
        ("closed", |w| {
            let f = w.pools[0].fee;
            w.bank.accts[f].owner = solana_program::system_program::id();
            w.bank.accts[f].data.clear();
        }),
        ("empty", |w| {
            let f = w.pools[0].fee;
            w.bank.accts[f].data.fill(0);
        }),
        ("an account for another token", |w| {
            let f = w.pools[0].fee;
            w.bank.accts[f].data = pack_tok(&tok(w.k(w.mint_a), key("owner"), 5));
        }),
        ("a mint", |w| {
            let f = w.pools[0].fee;
            w.bank.accts[f].data = w.bank.accts[w.mint_b].data.clone();
        }),
    ];
    par(ctx, cfgs.len() * cases.len(), |i, t| {
        let cfg = cfgs[i / cases.len()];
        let (how, close) = cases[i % cases.len()];
        let f = Funds { va: 1000, vb: 1000, a: [0; 3], b: [0; 3] };
        let mut w = match world(ctx, cfg, &f) {
            Some(w) => w,
            None => return,
        };
        close(&mut w);
        let (al, bo) = (w.users[ALICE], w.users[BOB]);
        for &(a, b, s) in pools {
            set_pool(&mut w, a, b, s);
            for (i, v) in [(al.lp, s - s / 3), (bo.lp, s / 3), (al.a, 1 << 62), (al.b, 1 << 62)] {
                w.set(i, v);
            }
            let st = w.state();
            t.states += 1;
            let mut ops = vec![];
            let mut am = amounts.to_vec();
            am.extend([a / 3, b / 3, a.saturating_sub(1), b.saturating_sub(1)]);
            for &x in &am {
                for side in [true, false] {
                    if swaps {
                        for host in [false, true] {
                            ops.push(Op::Swap { u: ALICE, a2b: side, amt: x, min: 0, host });
                        }
                        ops.push(Op::DepOne { u: ALICE, a: side, amt: x, min_lp: 0 });
                    }
                    ops.push(Op::WdOne { u: ALICE, a: side, amt: x, max_lp: BIG });
                }
            }
            for u in [ALICE, BOB] {
                for lp in amounts.iter().cloned().chain([w.get(w.users[u].lp), s / 4]) {
                    ops.push(Op::WdAll { u, lp, min_a: 0, min_b: 0 });
                }
            }
            for op in ops {
                t.transitions += 1;
                let r = w.step(&st, &op).and_then(|r| judge(&w, &st, &op, r.as_ref()));
                match r {
                    Ok(_) => t.traces += 1,
                    Err(e) => ctx.violation(
                        &format!("{} while the fee account is gone: {}", opname(&op), classify(&e)),
                        json!({"cfg": cfg_json(&cfg), "fee_account": how, "op": format!("{:?}", op), "state": show(&w, &st), "what": e}),
                    ),
                }
            }
        }
    });
}
fn w_mul(x: u128, y: u128, d: u128) -> u128 {
    (w(x) * w(y) / w(d)).as_u128()
}
