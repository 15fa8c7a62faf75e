//! C06: the limit given with an operation is respected exactly, and changes nothing else.
use super::common::*;
use super::ledger::BIG;
use super::trips::small_curves;
use crate::model::*;
use crate::report::*;
use crate::world::*;
use serde_json::json;

/// the same operation with these limits (the second one only for the two-sided operations)
fn with_limits(op: &Op, x: u64, y: u64) -> Op {
    match *op {
        Op::Swap { u, a2b, amt, host, .. } => Op::Swap { u, a2b, amt, min: x, host },
        Op::DepAll { u, lp, .. } => Op::DepAll { u, lp, max_a: x, max_b: y },
        Op::WdAll { u, lp, .. } => Op::WdAll { u, lp, min_a: x, min_b: y },
        Op::DepOne { u, a, amt, .. } => Op::DepOne { u, a, amt, min_lp: x },
        Op::WdOne { u, a, amt, .. } => Op::WdOne { u, a, amt, max_lp: x },
        o => o,
    }
}
fn is_max(op: &Op) -> bool {
    matches!(op, Op::DepAll { .. } | Op::WdOne { .. })
}
fn two(op: &Op) -> bool {
    matches!(op, Op::DepAll { .. } | Op::WdAll { .. })
}
/// what the user really got or gave, in the quantities the limits are about
fn moved(w: &World, op: &Op, s: &State, q: &State) -> (u64, u64) {
    let d = |i: usize| q[i].abs_diff(s[i]);
    match *op {
        Op::Swap { u, a2b, .. } => (d(if a2b { w.users[u].b } else { w.users[u].a }), 0),
        Op::DepAll { u, .. } | Op::WdAll { u, .. } => (d(w.users[u].a), d(w.users[u].b)),
        Op::DepOne { u, .. } | Op::WdOne { u, .. } => (d(w.users[u].lp), 0),
        _ => (0, 0),
    }
}
fn around(r: u64) -> Vec<u64> {
    let mut v = vec![0, 1, r / 2, r.saturating_sub(1), r, r.saturating_add(1), r.saturating_mul(2), 1 << 32, BIG - 1, BIG];
    v.sort();
    v.dedup();
    v
}

fn one(t: &mut Tally, w: &mut World, st: &State, op: &Op) -> Result<(), String> {
    let mx = is_max(op);
    let loose = with_limits(op, if mx { BIG } else { 0 }, if mx { BIG } else { 0 });
    t.transitions += 1;
    let base = w.step(st, &loose)?.ok();
    let (rx, ry) = base.as_ref().map(|q| moved(w, op, st, q)).unwrap_or((1, 1));
    // the amounts the operation is about are exactly the ones asked for
    if let Some(q) = &base {
        let u = |u: usize| &w.users[u];
        let d = |i: usize| q[i] as i128 - st[i] as i128;
        match *op {
            Op::Swap { u: n, a2b, amt, .. } => {
                let src = if a2b { u(n).a } else { u(n).b };
                if d(src) > 0 || -d(src) > amt as i128 {
                    return Err(format!("a swap of {} took {}", amt, -d(src)));
                }
            }
            Op::DepOne { u: n, a, amt, .. } => {
                let src = if a { u(n).a } else { u(n).b };
                if -d(src) != amt as i128 {
                    return Err(format!("a deposit of {} took {}", amt, -d(src)));
                }
            }
            Op::WdOne { u: n, a, amt, .. } => {
                let dst = if a { u(n).a } else { u(n).b };
                if d(dst) != amt as i128 {
                    return Err(format!("a withdrawal of {} gave {}", amt, d(dst)));
                }
            }
            Op::WdAll { u: n, lp, .. } => {
                if -d(u(n).lp) != lp as i128 {
                    return Err(format!("a withdrawal of {} pool tokens took {}", lp, -d(u(n).lp)));
                }
            }
            Op::DepAll { u: n, lp, .. } => {
                let want = if st[w.pools[0].mint] == 0 { INIT_LP as i128 } else { lp as i128 };
                if d(u(n).lp) != want {
                    return Err(format!("a deposit for {} pool tokens gave {}", want, d(u(n).lp)));
                }
            }
            _ => {}
        }
    }
    let xs = around(rx);
    let ys = if two(op) { around(ry) } else { vec![0] };
    for &x in &xs {
        for &y in &ys {
            let o = with_limits(op, x, y);
            t.transitions += 1;
            let r = w.step(st, &o)?.ok();
            let fine = if mx { rx <= x && (!two(op) || ry <= y) } else { rx >= x && ry >= y };
            let want = if fine { base.as_ref() } else { None };
            match (r.as_ref(), want) {
                (None, None) => {}
                (Some(q), Some(b)) if q == b => t.traces += 1,
                (Some(q), Some(b)) => return Err(format!("limits {} {} changed the outcome: {} instead of {}", x, y, diff(w, st, q), diff(w, st, b))),
                (Some(q), None) => return Err(format!("limits {} {} ignored: {}", x, y, diff(w, st, q))),
                (None, Some(b)) => return Err(format!("refused with limits {} {} although it satisfies them: {}", x, y, diff(w, st, b))),
            }
        }
    }
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    let mut cs = small_curves(ctx.thorough);
    cs.extend([Curve::Stable { amp: 1 }, Curve::Stable { amp: 100 }]);
    let mut cfgs = vec![];
    for &curve in &cs {
        for (i, &fee) in FEES.iter().enumerate() {
            if i < if ctx.thorough { 8 } else { 4 } {
                cfgs.push(Cfg { curve, fee });
            }
        }
    }
    let mut pools: Vec<(u64, u64, u64)> = vec![];
    let n = if ctx.thorough { 7 } else { 3 };
    for a in 0..=n {
        for b in 0..=n {
            for s in [0, 7, 1_000_000_000] {
                pools.push((a, b, s));
            }
        }
    }
    for &a in &[1000u64, 1_000_000_007, 1 << 50] {
        for &b in &[999u64, 998_244_353, 1 << 51] {
            for s in [13, 1_000_000_000, 1 << 48] {
                pools.push((a, b, s));
            }
        }
    }
    pools.extend([(1 << 61, 1000, 1_000_000_000), (77, 1 << 61, 1_000_000_000), (1 << 61, (1 << 60) + 7, 1 << 62), (1, 5_000_001, 1 << 20)]);
    let m = if ctx.thorough { 9 } else { 5 };
    par(ctx, cfgs.len() * pools.len(), |i, t| {
        let cfg = cfgs[i / pools.len()];
        let (a, b, s) = pools[i % pools.len()];
        let f = Funds { va: if matches!(cfg.curve, Curve::Linear { .. }) { 0 } else { 1000 }, vb: 1000, a: [0; 3], b: [0; 3] };
        let mut w = match world(ctx, cfg, &f) {
            Some(w) => w,
            None => return,
        };
        let p = w.pools[0];
        let u = w.users[ALICE];
        set_pool(&mut w, a, b, s);
        w.set(u.lp, s - s / 3);
        w.set(p.fee, s / 3);
        w.set(u.a, 1 << 62);
        w.set(u.b, 1 << 62);
        let st = w.state();
        t.states += 1;
        let mut am: Vec<u64> = if a.max(b) < 100 { (1..=m).collect() } else { vec![1, m, a / 5 + 1, b / 3, 100_003] };
        let mut lps = vec![1, 2, s / 10, s / 2];
        if a.max(b) >= 100 && (ctx.thorough || i / pools.len() % 4 < 2) {
            am.extend(shapes());
            am.extend(related(a, b, s));
            lps.extend(am.iter());
        }
        for v in [&mut am, &mut lps] {
            v.sort();
            v.dedup();
        }
        let mut ops = vec![];
        for &x in &am {
            for side in [true, false] {
                ops.push(Op::Swap { u: ALICE, a2b: side, amt: x, min: 0, host: false });
                if s > 0 {
                    ops.push(Op::Swap { u: ALICE, a2b: side, amt: x, min: 0, host: true });
                }
                ops.push(Op::DepOne { u: ALICE, a: side, amt: x, min_lp: 0 });
                ops.push(Op::WdOne { u: ALICE, a: side, amt: x, max_lp: 0 });
            }
        }
        for &lp in &lps {
            ops.push(Op::DepAll { u: ALICE, lp, max_a: 0, max_b: 0 });
            ops.push(Op::WdAll { u: ALICE, lp, min_a: 0, min_b: 0 });
            // the fee account's own withdrawals
            ops.push(Op::WdAll { u: OWNER, lp: lp.min(s / 3), min_a: 0, min_b: 0 });
        }
        ops.push(Op::WdOne { u: OWNER, a: true, amt: 1, max_lp: 0 });
        for op in ops {
            if let Err(e) = one(t, &mut w, &st, &op) {
                ctx.violation(&format!("{}: {}", opname(&op), classify(&e)), json!({"cfg": cfg_json(&cfg), "state": show(&w, &st), "op": format!("{:?}", op), "what": e}));
            }
        }
        if i % 997 == 0 {
            ctx.sample(json!({"cfg": cfg_json(&cfg), "pool": [a, b, s]}));
        }
    });
    ctx.note("bounds", json!({"configurations": cfgs.len(), "pool_states": pools.len(), "limits_per_operation": "10 values around the real amount, all pairs for the two-sided operations"}));
}
