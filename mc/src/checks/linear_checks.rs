//! C01..C04, C15 (linear part), C23: the linear bonding curve.
use super::common::*;
use crate::big::*;
use crate::linear::*;
use crate::model::fee;
use crate::report::*;
use crate::svm::Fail;
use crate::world::*;
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use token_bonding_curve::curve::base::SwapCurve;
use token_bonding_curve::curve::calculator::TradeDirection;

pub fn lin(sn: u64, sd: u64, pn: u64, pd: u64) -> Lin {
    Lin { sn, sd, pn, pd }
}
pub fn curve(l: &Lin) -> Curve {
    Curve::Linear { sn: l.sn, sd: l.sd, pn: l.pn, pd: l.pd }
}

/// parameter sets whose whole state space fits a closed exploration
pub const SMALL: &[(u64, u64, u64, u64)] = &[
    (1, 1, 0, 1),
    (1, 1, 1, 1),
    (1, 2, 1, 1),
    (3, 1, 2, 1),
    (2, 1, 0, 1),
    (1, 2, 0, 1),
    (1, 10, 5, 1),
    (7, 3, 1, 2),
    (1, 3, 1, 3),
    (2, 7, 5, 3),
    (1, 1, 1, 2),
    (1, 5, 0, 1),
    (1, 200, 1, 1),
    (5, 1, 0, 7),
    (1, 7, 2, 9),
    (11, 13, 17, 19),
];
/// the parameter sets of realistic scale explored to a bounded depth: (params, B supply, amounts)
pub fn realistic() -> Vec<(Lin, u64, Vec<u64>, Vec<u64>)> {
    vec![
        // price grows by 1 A per 200 B, decimals 8/2 style amounts
        (lin(1, 200_000_000, 1, 50), 100_000_000_000, vec![1, 999, 1_000_000_007, 35_000_000_000], vec![1, 50, 12_345_678, 9_999_999_999]),
        (lin(1, 2, 150, 1), 1_000_000, vec![1, 151, 9_999, 250_000_000_000], vec![1, 13, 4_321, 500_000]),
        (lin(1, 1_000_000_000_000_000_000, 1, 1_000_000_000), u64::MAX / 4, vec![1, 1_000_000_007, 1 << 50], vec![1, 3_000_000_001, 1 << 61]),
        (lin(1_000_000, 1, 0, 1), 1_000_000, vec![1, 500_000, 500_001, 1 << 50], vec![1, 2, 777, 500_000]),
        (lin(999_999_937, 1_000_003, 123_456_789, 987), 50_000_000, vec![17, 124_998, 1_000_000_000_039], vec![1, 97, 33_333]),
        (lin(1, 1, 0, 1), 4_000_000_000, vec![1, 2, 1_000_000_007, 8_000_000_000_000_000_000], vec![1, 2, 44_721, 3_999_999_999]),
        (lin(3, 7, 1_000_000_000, 3), 1 << 40, vec![333_333_334, 1_000_000_000_001, 1 << 55], vec![1, 12_345, 1 << 33]),
        (lin(u64::MAX, u64::MAX - 1, u64::MAX, 1_000_000_007), 1 << 30, vec![18_446_744_000, 1 << 60], vec![1, 1_000]),
    ]
}

pub fn call(c: &SwapCurve, x: u64, s: u64, d: u64, a2b: bool) -> Result<Option<(u128, u128)>, ()> {
    call_fee(c, x, s, d, a2b, &NOFEE)
}
pub fn call_fee(c: &SwapCurve, x: u64, s: u64, d: u64, a2b: bool, fee: &Fee) -> Result<Option<(u128, u128)>, ()> {
    let dir = if a2b { TradeDirection::AtoB } else { TradeDirection::BtoA };
    catch_unwind(AssertUnwindSafe(|| {
        c.swap(x as u128, s as u128, d as u128, dir, &fee.real())
            .map(|r| (r.source_amount_swapped, r.destination_amount_swapped))
    }))
    .map_err(|_| ())
}

/// never better than the curve
pub fn never_better(l: &Lin, a2b: bool, a: u64, b: u64, taken: u128, out: u128) -> Result<(), String> {
    let (a, b) = (a as u128, b as u128);
    if a2b {
        if out > b {
            return Ok(()); // cannot be paid out: the transfer fails
        }
        if !l.buy_ok_res(a, taken, out) {
            return Err(format!("a buy gave more B than the curve allows (paid {}, got {})", taken, out));
        }
    } else if out < a {
        if !l.sell_ok_res(a, taken, out) {
            return Err(format!("a sale paid more A than the curve allows (sold {}, got {})", taken, out));
        }
    } else {
        // emptying sale: the outstanding position, to the nearest whole token
        let half = W::one() << (F - 1);
        let t = w(taken) << F;
        if out > a || t + half + W::one() < l.pos_lo(a) {
            return Err(format!("all the collateral was paid out for fewer B than are outstanding (sold {}, got {})", taken, out));
        }
    }
    Ok(())
}

const K: u32 = 31;
/// not short-changed beyond the 9 significant digits of the square root
pub fn accurate(l: &Lin, a2b: bool, a: u64, b: u64, x: u64, r: Option<(u128, u128)>) -> Result<(), String> {
    let (a, b, x) = (a as u128, b as u128, x as u128);
    if a2b {
        let got = r.map(|x| x.1).unwrap_or(0);
        // cheap exact test first: one more token would already be too much
        if got >= b || !l.buy_ok(a, x, got + 1) {
            return Ok(());
        }
        let n = l.pos_eps(a + x, false, K).saturating_sub(l.pos_eps(a, true, K)) >> F;
        let want = if n > w(b) { w(b) } else { n };
        if w(got) < want {
            let (_, _, c) = l.psc();
            if r.is_none() && want == w(b) && l.i2c_w((l.pos_eps(a, false, K) >> F) + w(b)) <= W::from(2) * c * w(a) {
                // the price of everything that is left cannot be told from zero
                return Ok(());
            }
            return Err(match r {
                None => format!("a buy worth at least {} B was refused", want),
                Some(_) => format!("a buy worth at least {} B gave {}", want, got),
            });
        }
    } else {
        let got = r.map(|x| x.1).unwrap_or(0);
        if got >= a || !l.sell_ok(a, x, got + 1) {
            return Ok(());
        }
        if r.is_none() && (l.pos_eps(a, false, K) >> F).is_zero() {
            return Ok(()); // less than one B is outstanding
        }
        let hi = l.pos_eps(a, true, K) + (W::one() << F) - W::one();
        let end = (hi >> F).saturating_sub(w(x));
        let (_, _, c) = l.psc();
        // the area is rounded to 18 decimals three times
        let one18 = w(1_000_000_000_000_000_000);
        let ia = ceil_div(l.i2c_w(end) * one18 + W::from(4) * c, W::from(2) * c * one18);
        let want = w(a).saturating_sub(ia);
        if w(got) < want {
            return Err(match r {
                None => format!("a sale worth at least {} A was refused", want),
                Some(_) => format!("a sale worth at least {} A paid {}", want, got),
            });
        }
    }
    Ok(())
}

/// partial fills
pub fn clipping(l: &Lin, a2b: bool, a: u64, b: u64, x: u64, taken: u128, out: u128) -> Result<(), String> {
    let (a, b, x) = (a as u128, b as u128, x as u128);
    if taken > x {
        return Err(format!("took {} of {} offered", taken, x));
    }
    if taken == 0 || out == 0 {
        return Err(format!("took {} and gave {}", taken, out));
    }
    let (_, _, c) = l.psc();
    if a2b {
        if out > b {
            return Ok(());
        }
        if out < b && taken != x {
            return Err(format!("took only {} of {} although {} of {} B are left", taken, x, b - out, b));
        }
        if out == b {
            // sold out: charged the price of what was left, at most one unit of rounding and the
            // resolution of the square root above it
            let start = l.pos_eps(a, true, K);
            let end = start + (w(b) << F);
            // ceil(I(end)) with end scaled by 2^F: keep it in integers by rounding end up
            let i2 = scaled_i2c_up(l, end);
            let need = ceil_div(i2, W::from(2) * c).saturating_sub(w(a));
            if w(taken) > need {
                return Err(format!("charged {} for the last {} B, their price is at most {}", taken, b, need));
            }
        }
    } else {
        if out > a {
            return Err(format!("paid {} out of {}", out, a));
        }
        if out < a && taken != x {
            return Err(format!("took only {} of {} although {} A are left", taken, x, a - out));
        }
        if out == a {
            let half = W::one() << (F - 1);
            if (w(taken) << F) > l.pos_eps(a, true, K) + half + W::one() {
                return Err(format!("took {} B, more than are outstanding", taken));
            }
        }
    }
    Ok(())
}
/// an upper bound of S*e^2 + 2*P*e for a fixed-point e (scaled by 2^F), plus the 18-decimal error
fn scaled_i2c_up(l: &Lin, e: W) -> W {
    let (p, s, c) = l.psc();
    // e < 2^(64+64+..): split to stay inside 512 bits
    let sq = e * e; // scaled 2^(2F)
    let t1 = s * ((sq >> F) + W::one()); // scaled 2^F
    let t2 = W::from(2) * p * e; // scaled 2^F
    let one18 = w(1_000_000_000_000_000_000);
    // each product is rounded to 18 decimals: relative to the other factors at most s*e + c
    let err = ceil_div(s * (e >> F) * W::from(2) + c * W::from(4) + p, one18) + W::one();
    ((t1 + t2) >> F) + W::one() + err
}

fn case(l: &Lin, a2b: bool, a: u64, b: u64, x: u64, what: &str) -> serde_json::Value {
    json!({"curve": format!("{:?}", l), "direction": if a2b {"A for B"} else {"B for A"}, "collateral": a, "bonded_left": b, "amount_in": x, "what": what})
}

type Judge = dyn Fn(&Lin, bool, u64, u64, u64, Option<(u128, u128)>) -> Result<(), String> + Sync;

/// Every (collateral, bonded, amount, direction) of `dom` for every curve of `ls`.
fn sweep(ctx: &Ctx, ls: &[Lin], dom: &[u64], trade: (u64, u64), judge: &Judge) {
    let rows: Vec<(u64, Vec<u64>)> = dom.iter().map(|a| (*a, dom.to_vec())).collect();
    sweep_with(ctx, ls, &rows, &|_, _| dom.to_vec(), trade, judge)
}

/// Collateral and bonded tokens of every shape, amounts of every shape and related to both.
fn sweep_shapes(ctx: &Ctx, ls: &[Lin], trade: (u64, u64), judge: &Judge) {
    let sh = shapes();
    let n = sh.len();
    let rows: Vec<(u64, Vec<u64>)> = (0..n)
        .step_by(if ctx.thorough { 1 } else { 2 })
        .map(|i| (sh[i], vec![sh[i], sh[(i + 7) % n], sh[(i * 5 + 11) % n]]))
        .chain([(0, vec![1_234_567, 1 << 48, 10_u64.pow(18) + 1])])
        .collect();
    sweep_with(
        ctx,
        ls,
        &rows,
        &|a, b| {
            let mut v = related(a, b, 0);
            v.extend(sh.iter().step_by(if ctx.thorough { 1 } else { 3 }));
            v.sort();
            v.dedup();
            v
        },
        trade,
        judge,
    )
}

fn sweep_with(ctx: &Ctx, ls: &[Lin], rows: &[(u64, Vec<u64>)], amounts: &(dyn Fn(u64, u64) -> Vec<u64> + Sync), trade: (u64, u64), judge: &Judge) {
    let fees = Fee { trade, ..NOFEE };
    let jobs: Vec<(usize, usize)> = (0..ls.len()).flat_map(|i| (0..rows.len()).map(move |j| (i, j))).collect();
    par(ctx, jobs.len(), |n, t| {
        let l = &ls[jobs[n].0];
        let (a, bs) = &rows[jobs[n].1];
        let a = *a;
        let c = curve(l).real();
        if c.calculator.validate().is_err() {
            return;
        }
        for &b in bs {
            t.states += 1;
            for x in amounts(a, b) {
                for a2b in [true, false] {
                    t.transitions += 1;
                    let (s, d) = if a2b { (a, b) } else { (b, a) };
                    let r = call_fee(&c, x, s, d, a2b, &fees);
                    let v = match r {
                        Err(()) => Err("the swap aborted".to_string()),
                        Ok(r) => {
                            if r.is_some() {
                                t.bump("accepted_swaps");
                            }
                            net_of(x, fee(trade, x as u128), r).and_then(|(n, r)| judge(l, a2b, a, b, n, r))
                        }
                    };
                    if let Err(e) = v {
                        ctx.violation(&classify(&e), case(l, a2b, a, b, x, &e));
                    }
                }
            }
        }
        if n % 197 == 0 {
            ctx.sample(json!({"curve": format!("{:?}", l), "collateral": a, "bonded_tried": bs.len()}));
        }
    });
}

/// trade fees the judgements are repeated with
const TRADE: &[(u64, u64)] = &[(0, 1), (1, 4), (25, 10_000)];

/// what is left of an order, and of what was taken for it, after the trade fee (charged on the order)
fn net_of(x: u64, cost: u128, r: Option<(u128, u128)>) -> Result<(u64, Option<(u128, u128)>), String> {
    let n = (x as u128).saturating_sub(cost) as u64;
    Ok((
        n,
        match r {
            None => None,
            Some((t, o)) => Some((t.checked_sub(cost).ok_or(format!("took {} although the fee alone is {}", t, cost))?, o)),
        },
    ))
}

/// The same judgement on real transactions, over all histories of two traders. Small parameters:
/// to closure; realistic ones: to a depth.
fn histories(ctx: &Ctx, depth_small: usize, depth_big: usize, judge: &Judge) {
    let small = SMALL.len();
    let big = realistic();
    let per = small + big.len();
    par(ctx, per * TRADE.len(), |k, t| {
        let (i, trade) = (k % per, TRADE[k / per]);
        if k / per > 0 && !ctx.thorough && i % 3 != (k / per) % 3 {
            return;
        }
        let fees = Fee { trade, ..NOFEE };
        let (l, f, amts_a, amts_b, depth, cap): (Lin, Funds, Vec<u64>, Vec<u64>, usize, usize) = if i < small {
            let p = SMALL[i];
            let (na, nb) = if ctx.thorough { (24u64, 9u64) } else { (14, 6) };
            (
                lin(p.0, p.1, p.2, p.3),
                Funds { va: 0, vb: nb, a: [na / 2, na / 2, 0], b: [1, 0, 0] },
                (1..=na / 2).collect(),
                (1..=nb).collect(),
                depth_small,
                2_000_000,
            )
        } else {
            let (l, nb, xa, xb) = &big[i - small];
            (*l, Funds { va: 0, vb: *nb, a: [u64::MAX / 4, u64::MAX / 4, 0], b: [1_000, 0, 0] }, xa.clone(), xb.clone(), depth_big, 2_000_000)
        };
        let mut w = match world(ctx, Cfg { curve: curve(&l), fee: fees }, &f) {
            Some(w) => w,
            None => return,
        };
        let init = w.state();
        let b0 = f.vb;
        let ops = move |w: &World, s: &State| -> Vec<Op> {
            let mut o = vec![];
            for u in [ALICE, BOB] {
                let (ha, hb) = (s[w.users[u].a], s[w.users[u].b]);
                for &x in &amts_a {
                    if x <= ha {
                        o.push(Op::Swap { u, a2b: true, amt: x, min: 0, host: false });
                    }
                }
                for &x in &amts_b {
                    if x <= hb {
                        o.push(Op::Swap { u, a2b: false, amt: x, min: 0, host: false });
                    }
                }
                if hb > 0 {
                    o.push(Op::Swap { u, a2b: false, amt: hb, min: 0, host: false });
                }
                if ha > 0 && ha < 1000 {
                    o.push(Op::Donate { u, a: true, amt: 1 });
                }
            }
            o.dedup();
            o
        };
        let oracle = move |e: &Edge| -> Result<(), String> {
            let p = e.w.pools[0];
            let (a, b) = (e.pre[p.va], e.pre[p.vb]);
            if let Op::Swap { a2b, amt, .. } = *e.op {
                let r = match e.res {
                    Ok(q) => {
                        let (vs, vd) = if a2b { (p.va, p.vb) } else { (p.vb, p.va) };
                        let taken = (q[vs] as u128).checked_sub(e.pre[vs] as u128).ok_or("the source vault lost tokens")?;
                        let out = (e.pre[vd] as u128).checked_sub(q[vd] as u128).ok_or("the destination vault gained tokens")?;
                        Some((taken, out))
                    }
                    Err(Fail::Panic) => return Err("the swap aborted".into()),
                    Err(_) => None,
                };
                let cost = fee(trade, amt as u128);
                let (net, r) = net_of(amt, cost, r)?;
                judge(&l, a2b, a, b, net, r)?;
            }
            if let Ok(q) = e.res {
                let net = (b0 as u128).saturating_sub(q[p.vb] as u128);
                solvent(&l, q[p.va], net)?;
            }
            Ok(())
        };
        let o = bfs(ctx, t, &mut w, &init, depth, cap, &ops, &oracle);
        ctx.sample(json!({"curve": format!("{:?}", l), "bonded_supply": f.vb, "states": o.states, "transitions": o.edges, "closed": o.closed}));
    });
}

pub fn solvent(l: &Lin, a: u64, net: u128) -> Result<(), String> {
    if l.covers(a as u128, net) || l.pos_hi(a as u128) >= (w(net) << F) {
        Ok(())
    } else {
        Err(format!("{} B are outstanding but {} A of collateral do not cover their area under the curve", net, a))
    }
}

pub fn curves_small(thorough: bool) -> Vec<Lin> {
    let v: Vec<u64> = if thorough { vec![1, 2, 3, 5, 7, 10, 1000] } else { vec![1, 2, 3, 10] };
    let mut o = vec![];
    for &sn in &v {
        for &sd in &v {
            for &pn in v.iter().chain([0u64].iter()) {
                for &pd in &v {
                    o.push(lin(sn, sd, pn, pd));
                }
            }
        }
    }
    for p in SMALL {
        o.push(lin(p.0, p.1, p.2, p.3));
    }
    o
}
pub fn curves_big(thorough: bool) -> Vec<Lin> {
    let v: Vec<u64> = if thorough {
        vec![1, 97, 1_000_003, 1_000_000_000, 1_000_000_000_000_000_000, u64::MAX]
    } else {
        vec![1, 1_000_003, 1_000_000_000_000_000_000, u64::MAX]
    };
    let mut o = vec![];
    for &sn in &v {
        for &sd in &v {
            for &pn in v.iter().chain([0u64].iter()) {
                for &pd in &v {
                    o.push(lin(sn, sd, pn, pd));
                }
            }
        }
    }
    for r in realistic() {
        o.push(r.0);
    }
    o
}

fn both_sweeps(ctx: &Ctx, judge: &Judge) {
    let small = curves_small(ctx.thorough);
    let dom: Vec<u64> = (0..=if ctx.thorough { 60 } else { 26 }).collect();
    let big = curves_big(ctx.thorough);
    let mut lat = lattice(3, false);
    lat = if ctx.thorough { thin(&lat, 2) } else { thin(&lat, 6) };
    for x in [44_721u64, 1_000_000_007, 123_456_789_012_345_678] {
        lat.push(x);
    }
    lat.sort();
    ctx.note(
        "bounds",
        json!({"small_curves": small.len(), "small_amounts": format!("0..={}", dom.len() - 1), "large_curves": big.len(), "large_amounts": lat.len()}),
    );
    sweep(ctx, &small, &dom, TRADE[0], judge);
    sweep(ctx, &big, &lat, TRADE[0], judge);
    sweep_shapes(ctx, &big, TRADE[0], judge);
    let k = if ctx.thorough { 2 } else { 5 };
    for f in &TRADE[1..] {
        sweep(ctx, &small.iter().cloned().step_by(k).collect::<Vec<_>>(), &dom, *f, judge);
        sweep(ctx, &big.iter().cloned().step_by(k).collect::<Vec<_>>(), &lat, *f, judge);
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.assume("histories consist of swaps by any trader and of A tokens sent straight to the vault; the pool starts with no collateral, as initialization demands");
    ctx.note("oracle", json!("collateral >= integral of (slope*b + initial price) over the net B sold, decided on 512-bit integers, in every reachable state"));
    let d = if ctx.thorough { 6 } else { 4 };
    induction(ctx);
    histories(ctx, usize::MAX, d, &|_, _, _, _, _, _| Ok(()));
}

/// One swap from every solvent state: the position sold and what was locked for it (just enough, or
/// something more) on a lattice of every size, so histories of any length are covered by induction.
fn induction(ctx: &Ctx) {
    let dense: Vec<u64> = (0..=if ctx.thorough { 40 } else { 18 }).collect();
    let mut lat = thin(&lattice(3, true), if ctx.thorough { 3 } else { 9 });
    lat.extend([44_721, 1_000_000_007]);
    lat.sort();
    let k = if ctx.thorough { 1 } else { 3 };
    let small: Vec<Lin> = curves_small(ctx.thorough).into_iter().step_by(k).collect();
    let big: Vec<Lin> = curves_big(ctx.thorough).into_iter().step_by(k).collect();
    let jobs: Vec<(Lin, bool, u64)> = small.iter().map(|l| (*l, true)).chain(big.iter().map(|l| (*l, false))).flat_map(|(l, d)| if d { dense.clone() } else { lat.clone() }.into_iter().map(move |n| (l, d, n))).collect();
    ctx.note("inductive_bounds", json!({"curves": small.len() + big.len(), "positions": [dense.len(), lat.len()]}));
    par(ctx, jobs.len(), |i, t| {
        let (l, d, net) = jobs[i];
        let dom = if d { &dense } else { &lat };
        let c = curve(&l).real();
        if c.calculator.validate().is_err() {
            return;
        }
        let (_, _, cd) = l.psc();
        let least = ceil_div(l.i2c(net as u128), W::from(2) * cd);
        for extra in [0u64, 1, 2, 17] {
            if least + w(extra as u128) > w(u64::MAX as u128) {
                continue;
            }
            let a = (least + w(extra as u128)).low_u128() as u64;
            for &b in dom {
                t.states += 1;
                for &x in dom {
                    for a2b in [true, false] {
                        if !a2b && x > net {
                            continue; // nobody holds more
                        }
                        for f in [0, 1] {
                            t.transitions += 1;
                            let (s, d) = if a2b { (a, b) } else { (b, a) };
                            let fees = Fee { trade: TRADE[f], ..NOFEE };
                            let r = call_fee(&c, x, s, d, a2b, &fees);
                            let e = match r {
                                Err(()) => Err("the swap aborted".to_string()),
                                Ok(Some((taken, out))) if out <= d as u128 && taken <= (u64::MAX - s) as u128 => {
                                    // net amounts as they leave and return to the pool's B tokens
                                    let (a2, n2) = if a2b { (a as u128 + taken, net as u128 + out) } else { (a as u128 - out, (net as u128).saturating_sub(taken)) };
                                    let slack = l.pos_hi(a as u128).saturating_sub(l.pos_lo(a as u128));
                                    if l.covers(a2, n2) || l.pos_hi(a2) + slack >= w(n2) << F {
                                        Ok(())
                                    } else {
                                        Err(format!("{} B are outstanding but {} A of collateral do not cover their area under the curve (after {} for {})", n2, a2, taken, out))
                                    }
                                }
                                Ok(_) => Ok(()),
                            };
                            if let Err(e) = e {
                                ctx.violation(&classify(&e), json!({"curve": format!("{:?}", l), "direction": if a2b {"A for B"} else {"B for A"}, "collateral": a, "bonded_left": b, "sold": net, "amount_in": x, "what": e}));
                            }
                        }
                    }
                }
            }
        }
    });
}

pub fn c02(ctx: &Ctx) {
    ctx.assume("tolerance: the 18-decimal resolution of the program's fixed-point numbers; the sale that empties the collateral takes the outstanding position rounded to the nearest whole B (pinned by the existing tests)");
    let j = |l: &Lin, a2b: bool, a: u64, b: u64, _x: u64, r: Option<(u128, u128)>| match r {
        Some((t, o)) => never_better(l, a2b, a, b, t, o),
        None => Ok(()),
    };
    both_sweeps(ctx, &j);
    histories(ctx, usize::MAX, if ctx.thorough { 4 } else { 3 }, &j);
}

pub fn c03(ctx: &Ctx) {
    ctx.assume("the square roots may be off by 2^-31 of their value, always against the trader; everything else is rounded by at most one base unit");
    let j = |l: &Lin, a2b: bool, a: u64, b: u64, x: u64, r: Option<(u128, u128)>| accurate(l, a2b, a, b, x, r);
    both_sweeps(ctx, &j);
    histories(ctx, usize::MAX, if ctx.thorough { 4 } else { 3 }, &j);
}

pub fn c04(ctx: &Ctx) {
    let j = |l: &Lin, a2b: bool, a: u64, b: u64, x: u64, r: Option<(u128, u128)>| match r {
        Some((t, o)) => clipping(l, a2b, a, b, x, t, o),
        None => Ok(()),
    };
    both_sweeps(ctx, &j);
    histories(ctx, usize::MAX, if ctx.thorough { 4 } else { 3 }, &j);
}
