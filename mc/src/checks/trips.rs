//! C05: no sequence of operations makes a trader richer. C15: order size does not pay.
use super::common::*;
use super::linear_checks::{call, call_fee, curve, curves_big, curves_small, lin, SMALL};
use crate::model::allows_deposits;
use crate::report::*;
use crate::world::*;
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use token_bonding_curve::curve::base::SwapCurve;
use token_bonding_curve::curve::calculator::TradeDirection;

pub fn small_curves(thorough: bool) -> Vec<Curve> {
    let mut v = vec![
        Curve::Product,
        Curve::Price { p: 1 },
        Curve::Price { p: 2 },
        Curve::Price { p: 3 },
        Curve::Price { p: 7 },
        Curve::Offset { off: 1 },
        Curve::Offset { off: 5 },
    ];
    if thorough {
        v.extend([Curve::Price { p: 4 }, Curve::Price { p: 10 }, Curve::Offset { off: 2 }, Curve::Offset { off: 13 }]);
    }
    for p in SMALL {
        v.push(curve(&lin(p.0, p.1, p.2, p.3)));
    }
    v
}

/// curves and the amounts (vaults and orders) explored on them at full scale
fn large_curves(thorough: bool) -> Vec<Curve> {
    let mut v: Vec<Curve> = curves_big(thorough).iter().map(curve).collect();
    v.push(Curve::Product);
    for p in [1u64, 3, 1000, 1 << 32] {
        v.push(Curve::Price { p });
    }
    for off in [1u64, 1000, 1 << 40] {
        v.push(Curve::Offset { off });
    }
    v
}
fn large_amounts(thorough: bool) -> Vec<u64> {
    let lat = lattice(3, false);
    let mut lat = if thorough { thin(&lat, 2) } else { thin(&lat, 5) };
    lat.extend([44_721u64, 1_000_000_007, 123_456_789_012_345_678]);
    lat.sort();
    lat.dedup();
    lat
}
fn jcase(c: &Curve, a2b: bool, a: u64, b: u64, x: u128, what: &str) -> serde_json::Value {
    json!({"curve": format!("{:?}", c), "first": if a2b {"A for B"} else {"B for A"}, "vault_a": a, "vault_b": b, "amount_in": x.to_string(), "what": what})
}

/// there and back again: sell what was just bought
fn back_and_forth(ctx: &Ctx, curves: &[Curve], dom: &[u64]) {
    let jobs: Vec<(usize, usize)> = (0..curves.len()).flat_map(|i| (0..dom.len()).map(move |j| (i, j))).collect();
    par(ctx, jobs.len(), |n, t| {
        let cu = &curves[jobs[n].0];
        let a = dom[jobs[n].1];
        let c = cu.real();
        if c.calculator.validate().is_err() {
            return;
        }
        let linear = matches!(cu, Curve::Linear { .. });
        for &b in dom {
            t.states += 1;
            for &x in dom {
                for a2b in [true, false] {
                    let (s, d) = if a2b { (a, b) } else { (b, a) };
                    t.transitions += 1;
                    if let Ok(Some((tk, o))) = call(&c, x, s, d, a2b) {
                        if linear && !a2b && o == a as u128 {
                            continue;
                        }
                        let (s2, d2) = (s as u128 + tk, d as u128 - o);
                        if s2 > u64::MAX as u128 || o > u64::MAX as u128 {
                            continue;
                        }
                        t.transitions += 1;
                        t.traces += 1;
                        if let Ok(Some((tk2, o2))) = call(&c, o as u64, d2 as u64, s2 as u64, !a2b) {
                            if o2 > tk || (o2 == tk && tk2 < o) {
                                let e = format!("paid {} for {}, got {} back for {}", tk, o, o2, tk2);
                                ctx.violation("there and back again pays", jcase(cu, a2b, a, b, x as u128, &e));
                            }
                        }
                    }
                }
            }
        }
    });
}

/// C15: a larger order never gets less, and cutting an order in two never gets more
fn order_size(ctx: &Ctx, curves: &[Curve], dom: &[u64], fee: &Fee) {
    let jobs: Vec<(usize, usize)> = (0..curves.len()).flat_map(|i| (0..dom.len()).map(move |j| (i, j))).collect();
    let net = |x: u128| x - crate::model::fee(fee.trade, x) - crate::model::fee(fee.owner, x);
    let call = |c: &SwapCurve, x: u64, s: u64, d: u64, a2b: bool| call_fee(c, x, s, d, a2b, fee);
    par(ctx, jobs.len(), |n, t| {
        let cu = &curves[jobs[n].0];
        let a = dom[jobs[n].1];
        let c = cu.real();
        if c.calculator.validate().is_err() {
            return;
        }
        for &b in dom {
            t.states += 1;
            for a2b in [true, false] {
                let (s, d) = if a2b { (a, b) } else { (b, a) };
                let mut rs: Vec<Option<(u128, u128)>> = vec![];
                let mut best = 0u128;
                // the orders: every amount, and those around the size of the reserves
                let mut dom = dom.to_vec();
                for r in [s, d] {
                    dom.extend([r / 2, r / 2 + 1, r.saturating_sub(1), r.saturating_add(1), r.saturating_mul(2), r.saturating_mul(2).saturating_add(1)]);
                }
                dom.sort();
                dom.dedup();
                for &x in &dom {
                    t.transitions += 1;
                    let r = match call(&c, x, s, d, a2b) {
                        Ok(r) => r,
                        Err(()) => {
                            ctx.violation("the swap aborted", jcase(cu, a2b, a, b, x as u128, ""));
                            None
                        }
                    };
                    let o = r.map(|r| r.1).unwrap_or(0);
                    if o < best && !(r.is_none() && overflows(cu, s, d, x)) {
                        let e = format!("an order of {} gets {}, a smaller one {} (trade fee {:?}, owner fee {:?})", x, o, best, fee.trade, fee.owner);
                        ctx.violation("a larger order gets less", jcase(cu, a2b, a, b, x as u128, &e));
                    }
                    best = best.max(o);
                    rs.push(r);
                }
                for (i, &x) in dom.iter().enumerate() {
                    let (t1, o1) = match rs[i] {
                        Some(r) => r,
                        None => continue,
                    };
                    if t1 != x as u128 {
                        continue;
                    }
                    let (s2, d2) = (s as u128 + t1, d as u128 - o1);
                    if s2 > u64::MAX as u128 {
                        continue;
                    }
                    for &y in &dom {
                        let mut z = x as u128 + y as u128;
                        // cutting an order in two may save the rounding of the fee: compare with the next
                        // order that is worth more after the fee
                        if net(x as u128) + net(y as u128) > net(z) {
                            let n = net(z);
                            while net(z) == n {
                                z += 1;
                            }
                        }
                        if y == 0 || z > u64::MAX as u128 {
                            continue;
                        }
                        t.transitions += 2;
                        let two = match call(&c, y, s2 as u64, d2 as u64, a2b) {
                            Ok(Some((t2, o2))) => (t1 + t2, o1 + o2),
                            _ => (t1, o1),
                        };
                        let one = match call(&c, z as u64, s, d, a2b) {
                            Ok(Some(r)) => r,
                            _ => {
                                if overflows(cu, s, d, z as u64) {
                                    continue;
                                }
                                (0, 0)
                            }
                        };
                        t.traces += 1;
                        // with a fee the two orders end at another point of a linear curve, whose position
                        // is rounded to the digits of the square root
                        let slack = match cu {
                            Curve::Linear { .. } if a2b && *fee != NOFEE => one.1 >> 26,
                            _ => 0,
                        };
                        if two.1 > one.1 + slack && !(coarse(cu) && !a2b) {
                            let e = format!("in two orders ({}, {}): {:?}, in one: {:?}", x, y, two, one);
                            ctx.violation("two orders get more than one of the same size", jcase(cu, a2b, a, b, z, &e));
                        }
                    }
                }
            }
        }
    });
}
/// a linear curve so flat that a position cannot be told from its price to one base unit with the 18
/// decimals of the arithmetic: cutting a sale in two can then move the position by a unit
/// (C02 and C03 bound what every single sale pays)
fn coarse(c: &Curve) -> bool {
    match *c {
        Curve::Linear { sn, sd, .. } => sn as u128 * 1_000_000_000_000_000 < sd as u128,
        _ => false,
    }
}
/// refusals that are fine here: on the other curves an order larger than the vault is refused (C18
/// says exactly which), on the linear curve only one beyond the range of a balance
fn overflows(c: &Curve, s: u64, _d: u64, x: u64) -> bool {
    match *c {
        Curve::Linear { .. } => s.checked_add(x).is_none(),
        _ => true,
    }
}

pub fn c15(ctx: &Ctx) {
    let mut small = curves_small(false).iter().map(curve).collect::<Vec<_>>();
    small.extend(small_curves(true).into_iter().filter(|c| !matches!(c, Curve::Linear { .. })));
    let dom: Vec<u64> = (0..=if ctx.thorough { 30 } else { 14 }).collect();
    let large = large_curves(ctx.thorough);
    let lat = if ctx.thorough { large_amounts(false) } else { thin(&lattice(2, false), 8) };
    ctx.note("bounds", json!({"small_curves": small.len(), "small_amounts": dom.len(), "large_curves": large.len(), "large_amounts": lat.len()}));
    order_size(ctx, &small, &dom, &NOFEE);
    order_size(ctx, &large, &lat, &NOFEE);
    // with one fee on the trade (two may each be rounded up at the same order size)
    let thinner = if ctx.thorough { thin(&lat, 3) } else { thin(&lat, 2) };
    let some: Vec<Curve> = if ctx.thorough { large.clone() } else { large.iter().step_by(2).cloned().collect() };
    for f in [(1, 4), (25, 10_000), (1, 2)] {
        let fees = [Fee { trade: f, ..NOFEE }, Fee { owner: f, ..NOFEE }];
        for fee in &fees[..if ctx.thorough { 2 } else { 1 }] {
            order_size(ctx, &small, &(0..=if ctx.thorough { 20 } else { 9 }).collect::<Vec<u64>>(), fee);
            order_size(ctx, &some, &thinner, fee);
        }
    }
}

/// Round trips through pools of every size: all sequences of up to `depth` operations, with amounts
/// in proportion to the pool, then everything is turned back into what the trader came with.
fn round_trips(ctx: &Ctx) {
    let curves = [Curve::Product, Curve::Price { p: 1 }, Curve::Price { p: 3 }, Curve::Price { p: 1000 }];
    let fees: Vec<Fee> = if ctx.thorough { vec![FEES[0], FEES[2], FEES[3], FEES[5]] } else { vec![FEES[0], FEES[3]] };
    let res: &[u64] = if ctx.thorough { &[1, 7, 100, 997, 65_537, 1_000_003, 123_456_789] } else { &[7, 997, 1_000_003] };
    let sups: &[u64] = if ctx.thorough { &[1, 10, 1_000, 99_991, 1_000_000_000] } else { &[10, 99_991] };
    let depth = if ctx.thorough { 3 } else { 2 };
    let mut jobs = vec![];
    for &curve in &curves {
        for &fee in &fees {
            for &a in res {
                for &b in res {
                    for &s in sups {
                        for start_a in [true, false] {
                            jobs.push((Cfg { curve, fee }, a, b, s, start_a));
                        }
                    }
                }
            }
        }
    }
    ctx.note("round_trips", json!({"pools": jobs.len(), "operations_before_turning_back": depth}));
    par(ctx, jobs.len(), |i, t| {
        let (cfg, a, b, sup, start_a) = jobs[i];
        let f = Funds { va: 1000, vb: 1000, a: [0; 3], b: [0; 3] };
        let mut w = match world(ctx, cfg, &f) {
            Some(w) => w,
            None => return,
        };
        let (u, bob) = (w.users[ALICE], w.users[BOB].lp);
        set_pool(&mut w, a, b, sup);
        w.set(u.lp, 0);
        w.set(bob, sup);
        let x0: u64 = 1 << 40;
        w.set(u.a, if start_a { x0 } else { 0 });
        w.set(u.b, if start_a { 0 } else { x0 });
        let init = w.state();
        let mut todo: Vec<(State, Vec<Op>)> = vec![(init.clone(), vec![])];
        let few = ctx.thorough;
        while let Some((s, h)) = todo.pop() {
            t.states += 1;
            for how in 0..3 {
                if s[u.lp] == 0 && how > 0 {
                    continue;
                }
                t.traces += 1;
                if let Err((e, h2)) = turn_back(t, &mut w, &s, start_a, how, x0) {
                    let mut h = h.clone();
                    h.extend(h2);
                    ctx.violation(&classify(&e), json!({"cfg": cfg_json(&w.cfg), "initial": show(&w, &init), "history": format!("{:?}", h), "what": e}));
                    return;
                }
            }
            if h.len() >= depth || ctx.violated() {
                continue;
            }
            let p = w.pools[0];
            let (va, vb, sp) = (s[p.va], s[p.vb], s[p.mint]);
            let mut ops = vec![];
            for side in [true, false] {
                let (have, r) = if side { (s[u.a], va) } else { (s[u.b], vb) };
                let mut am = if few && !h.is_empty() { vec![1, 5, r / 3, have.min(r)] } else { vec![1, 2, 3, 10, r / 7, r / 2, r, r.saturating_mul(3)] };
                if have < 1 << 39 {
                    am.push(have);
                }
                am.retain(|x| *x > 0 && *x <= have);
                am.sort();
                am.dedup();
                for x in am {
                    ops.push(Op::Swap { u: ALICE, a2b: side, amt: x, min: 0, host: false });
                    ops.push(Op::DepOne { u: ALICE, a: side, amt: x, min_lp: 0 });
                }
            }
            if s[u.a] > 0 && s[u.b] > 0 {
                let mut am = vec![1, 2, sp / 7, sp / 2, sp];
                am.dedup();
                for x in am {
                    ops.push(Op::DepAll { u: ALICE, lp: x, max_a: u64::MAX, max_b: u64::MAX });
                }
            }
            let l = s[u.lp];
            if l > 0 {
                let mut am = vec![1, l / 2, l - 1];
                am.dedup();
                for x in am {
                    ops.push(Op::WdAll { u: ALICE, lp: x, min_a: 0, min_b: 0 });
                }
                for side in [true, false] {
                    for x in [1, if side { va } else { vb } / 5] {
                        ops.push(Op::WdOne { u: ALICE, a: side, amt: x, max_lp: u64::MAX });
                    }
                }
            }
            for op in ops {
                t.transitions += 1;
                if let Ok(Ok(n)) = w.step(&s, &op) {
                    if n != s {
                        let mut h2 = h.clone();
                        h2.push(op);
                        todo.push((n, h2));
                    }
                }
            }
        }
    });
}
fn turn_back(t: &mut Tally, w: &mut World, s: &State, start_a: bool, how: usize, x0: u64) -> Result<(), (String, Vec<Op>)> {
    let (p, u) = (w.pools[0], w.users[ALICE]);
    let mut s = s.clone();
    let mut h = vec![];
    let mut go = |w: &mut World, s: &mut State, op: Op| {
        t.transitions += 1;
        h.push(op);
        if let Ok(Ok(n)) = w.step(s, &op) {
            *s = n;
        }
    };
    if how > 0 && s[u.lp] > 0 {
        // the most of one side the pool tokens are good for, found with the library, done by the program
        let side = (how == 1) == start_a;
        let c = w.cfg.curve.real();
        let f = w.cfg.fee.real();
        let have = s[u.lp] as u128;
        let cost = |x: u64| {
            let dir = if side { TradeDirection::AtoB } else { TradeDirection::BtoA };
            let q = catch_unwind(AssertUnwindSafe(|| c.withdraw_single_token_type_exact_out(x as u128, s[p.va] as u128, s[p.vb] as u128, s[p.mint] as u128, dir, &f))).unwrap_or(None);
            q.map(|q| q + crate::model::fee(w.cfg.fee.wd, q))
        };
        let (mut lo, mut hi) = (0u64, if side { s[p.va] } else { s[p.vb] });
        while lo < hi {
            let mid = lo + (hi - lo + 1) / 2;
            match cost(mid) {
                None if mid < 1000 => lo = mid, // too little to cost anything: not accepted, go on
                Some(q) if q <= have => lo = mid,
                _ => hi = mid - 1,
            }
        }
        if lo > 0 {
            go(w, &mut s, Op::WdOne { u: ALICE, a: side, amt: lo, max_lp: u64::MAX });
        }
    }
    if s[u.lp] > 0 {
        let op = Op::WdAll { u: ALICE, lp: s[u.lp], min_a: 0, min_b: 0 };
        go(w, &mut s, op);
    }
    let other = if start_a { s[u.b] } else { s[u.a] };
    if other > 0 {
        let op = Op::Swap { u: ALICE, a2b: !start_a, amt: other, min: 0, host: false };
        go(w, &mut s, op);
    }
    let (x, y) = if start_a { (s[u.a], s[u.b]) } else { (s[u.b], s[u.a]) };
    // pool tokens that are left are worth something at most
    if x > x0 || (x == x0 && y > 0) {
        return Err((format!("a round trip pays (came with {} and left with {} and {} of the other)", x0, x, y), h));
    }
    Ok(())
}

pub fn c05(ctx: &Ctx) {
    round_trips(ctx);
    let lat = large_amounts(ctx.thorough);
    let large = large_curves(ctx.thorough);
    ctx.note("bounds", json!({"large_curves": large.len(), "large_amounts": lat.len()}));
    back_and_forth(ctx, &large, &lat);
    ctx.assume("histories in which B holders redeem the entire collateral of a linear pool end there: that last sale is rounded to the nearest whole B (pinned by the existing tests)");
    ctx.assume("the stable curve, whose invariant is only approximated, is the subject of C21");
    let curves = small_curves(ctx.thorough);
    let fees = [FEES[0], FEES[2], FEES[3], FEES[5]];
    let mut jobs = vec![];
    let vmax: u64 = if ctx.thorough { 5 } else { 4 };
    for &curve in &curves {
        let linear = matches!(curve, Curve::Linear { .. });
        for (fi, &fee) in fees.iter().enumerate() {
            if linear && fi > 0 {
                continue;
            }
            for a in 0..=vmax {
                for b in 0..=vmax {
                    let sups: &[u64] = if linear { &[1_000_000_000] } else if ctx.thorough { &[3, 7, 20] } else { &[4, 9] };
                    for &s in sups {
                        for start_a in [true, false] {
                            jobs.push((Cfg { curve, fee }, a, b, s, start_a));
                        }
                    }
                }
            }
        }
    }
    let x0: u64 = if ctx.thorough { 6 } else { 5 };
    par(ctx, jobs.len(), |i, t| {
        let (cfg, a, b, sup, start_a) = jobs[i];
        let f = Funds { va: if matches!(cfg.curve, Curve::Linear { .. }) { 0 } else { 1000 }, vb: 1000, a: [0; 3], b: [0; 3] };
        let mut w = match world(ctx, cfg, &f) {
            Some(w) => w,
            None => return,
        };
        let u = w.users[ALICE];
        let (ba, bb) = (w.users[BOB].lp, u.lp);
        set_pool(&mut w, a, b, sup);
        // the pool tokens belong to somebody else
        w.set(bb, 0);
        w.set(ba, sup);
        w.set(u.a, if start_a { x0 } else { 0 });
        w.set(u.b, if start_a { 0 } else { x0 });
        let init = w.state();
        let liq = !matches!(cfg.curve, Curve::Linear { .. });
        let dep = allows_deposits(&cfg.curve);
        let ops = move |w: &World, s: &State| {
            let u = &w.users[ALICE];
            let (ha, hb, hl) = (s[u.a], s[u.b], s[u.lp]);
            let mut o = vec![];
            if !liq && !start_a && a > 0 && s[w.pools[0].va] == 0 {
                // redeemed all the collateral: that sale is rounded to the nearest whole B
                return o;
            }
            for x in 1..=ha {
                o.push(Op::Swap { u: ALICE, a2b: true, amt: x, min: 0, host: false });
            }
            for x in 1..=hb {
                o.push(Op::Swap { u: ALICE, a2b: false, amt: x, min: 0, host: false });
            }
            if dep {
                for x in 1..=ha {
                    o.push(Op::DepOne { u: ALICE, a: true, amt: x, min_lp: 0 });
                }
                for x in 1..=hb {
                    o.push(Op::DepOne { u: ALICE, a: false, amt: x, min_lp: 0 });
                }
                for x in 1..=sup {
                    o.push(Op::DepAll { u: ALICE, lp: x, max_a: u64::MAX, max_b: u64::MAX });
                }
            }
            if liq && hl > 0 {
                for x in 1..=hl {
                    o.push(Op::WdAll { u: ALICE, lp: x, min_a: 0, min_b: 0 });
                }
                for x in 1..=s[w.pools[0].va].min(2 * x0) {
                    o.push(Op::WdOne { u: ALICE, a: true, amt: x, max_lp: u64::MAX });
                }
                for x in 1..=s[w.pools[0].vb].min(2 * x0) {
                    o.push(Op::WdOne { u: ALICE, a: false, amt: x, max_lp: u64::MAX });
                }
            }
            o
        };
        let oracle = move |e: &Edge| -> Result<(), String> {
            if let Ok(q) = e.res {
                let u = &e.w.users[ALICE];
                let (ha, hb, hl) = (q[u.a], q[u.b], q[u.lp]);
                if hl == 0 {
                    let (x, y, n) = if start_a { (ha, hb, "A") } else { (hb, ha, "B") };
                    if x > x0 || (x == x0 && y > 0) {
                        return Err(format!("a trader who came with only {} {} left with {} A and {} B", x0, n, ha, hb));
                    }
                }
            }
            Ok(())
        };
        let o = bfs(ctx, t, &mut w, &init, usize::MAX, if ctx.thorough { 400_000 } else { 100_000 }, &ops, &oracle);
        if i % 301 == 0 {
            ctx.sample(json!({"cfg": cfg_json(&cfg), "vault_a": a, "vault_b": b, "supply": sup, "states": o.states, "transitions": o.edges, "closed": o.closed}));
        }
    });
}
