//! C21: pools on the stable curve follow the stableswap invariant
//!     L (x + y) + D = L D + D^3 / (4 x y),   L = 2 amp
//! computed here with 32 binary digits after the point on 512-bit integers, with the tolerances of
//! an implementation on whole units: see `Inv`.
use super::common::*;
use crate::big::*;
use crate::model::*;
use crate::report::*;
use crate::world::*;
use serde_json::json;
use std::collections::HashMap;

/// binary digits of D after the point
const FR: usize = 32;

/// D(x, y) >= d / 2^FR ?  `plus` computes the product from 2x+1 and 2y+1 instead of 2x and 2y (what
/// keeps the program from dividing by zero): the bound the program may use instead
fn at_least(l: u128, x: u128, y: u128, d: W, plus: bool) -> bool {
    let e = plus as u128;
    let xy = w(2 * x + e) * w(2 * y + e);
    if xy.is_zero() {
        return d.is_zero();
    }
    let lhs = d * d * d + ((w(l - 1) * d * xy) << (2 * FR));
    let rhs = (w(l) * (w(x) + w(y)) * xy) << (3 * FR);
    lhs <= rhs
}
fn solve(l: u128, x: u128, y: u128, plus: bool) -> W {
    let (mut lo, mut hi) = (W::zero(), ((w(x) + w(y)) << FR) + W::one());
    while hi - lo > W::one() {
        let mid = (lo + hi) >> 1;
        if at_least(l, x, y, mid, plus) {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo
}
#[derive(Clone, Copy)]
struct Inv {
    /// in 2^-FR
    d: W,
    dp: W,
    /// whole units: what the program may take for D
    lo: W,
    hi: W,
}
struct Inva {
    l: u128,
    memo: HashMap<(u128, u128), Inv>,
}
fn imbalance(x: u128, y: u128) -> u32 {
    128 - (x.max(y) / x.min(y).max(1)).leading_zeros()
}
impl Inva {
    fn at(&mut self, x: u128, y: u128) -> Inv {
        if let Some(i) = self.memo.get(&(x, y)) {
            return *i;
        }
        if self.memo.len() > 200_000 {
            self.memo.clear();
        }
        let (d, dp) = (solve(self.l, x, y, false), solve(self.l, x, y, true));
        // D is iterated on whole units: it ends within a unit below, and above by a few units, more
        // in lopsided pools
        let im = imbalance(x, y);
        let hi = if im > 16 { w(x) + w(y) } else { (dp >> FR) + w(3 + im as u128) };
        let i = Inv { d, dp, lo: (d >> FR).saturating_sub(W::one()), hi };
        self.memo.insert((x, y), i);
        i
    }
}
/// pool tokens for moving the pool between two states whose D is `big` and `small`, of a supply
/// that stands for `base`; with the 12-decimal arithmetic of the
/// program, rounded up (burned) or down (minted)
fn lp_bounds(sup: u128, big: Inv, small: Inv, base: Inv, up: bool) -> (W, Option<W>) {
    let e = w(100_000_000_000);
    let div = |n: W, d: W| if up { (n + d - W::one()) / d } else { n / d };
    let lo = {
        let d = base.hi.max(W::one());
        div((w(sup) * big.lo.saturating_sub(small.hi) * e).saturating_sub(d), d * e)
    };
    let hi = if base.lo.is_zero() {
        None
    } else {
        Some(div(w(sup) * big.hi.saturating_sub(small.lo) * e + base.lo, base.lo * e))
    };
    (lo, hi)
}

/// units a swap may pay beyond the exact curve, and keep back beyond the adjusted one
const OVER: u128 = 2;
const UNDER: u128 = 1;

fn within(what: &str, got: u128, b: (W, Option<W>)) -> Result<(), String> {
    if w(got) < b.0 || b.1.map(|h| w(got) > h).unwrap_or(false) {
        return Err(format!("{} ({} instead of {} to {:?})", what, got, b.0, b.1));
    }
    Ok(())
}

/// Is this transition one of a stableswap pool?
fn judge21(wd: &World, inv: &mut Inva, s: &State, op: &Op, q: Option<&State>) -> Result<(), String> {
    let p = &wd.pools[0];
    let f = &wd.cfg.fee;
    let (a, b, sup) = (s[p.va] as u128, s[p.vb] as u128, s[p.mint] as u128);
    let huge = a.max(b) > 1 << 60;
    match *op {
        Op::Swap { u, a2b, amt, min, .. } => {
            let x = amt as u128;
            let (tf, of) = (fee(f.trade, x), fee(f.owner, x));
            if tf + of > x {
                return Ok(());
            }
            let net = x - tf - of;
            let (rs, rd) = if a2b { (a, b) } else { (b, a) };
            let i = inv.at(rs, rd);
            match q {
                Some(q) => {
                    let (na, nb) = (q[p.va] as u128, q[p.vb] as u128);
                    let (ns, nd) = if a2b { (na, nb) } else { (nb, na) };
                    if ns != rs + x {
                        return Err(format!("a swap of {} took {}", x, ns as i128 - rs as i128));
                    }
                    if !at_least(inv.l, rs + net, nd + OVER, i.d, false) {
                        return Err(format!("a swap paid {}, beyond the curve", rd - nd));
                    }
                    if nd > UNDER + 1 && at_least(inv.l, rs + net, nd - UNDER - 1, i.dp + W::one(), true) && at_least(inv.l, rs + net, nd - UNDER - 1, i.dp + W::one(), false) {
                        return Err(format!("a swap paid only {}", rd - nd));
                    }
                    let minted = q[p.mint] as u128 - sup;
                    if of > 0 {
                        // the owner's share of the pool for what it left in it
                        let (before, after) = (inv.at(ns - of, nd), inv.at(ns, nd));
                        within("the owner's fee in pool tokens", minted, lp_bounds(sup, after, before, after, true))?;
                    } else if minted != 0 {
                        return Err("a swap without owner fee minted pool tokens".into());
                    }
                }
                None => {
                    let funds = s[if a2b { wd.users[u].a } else { wd.users[u].b }] as u128;
                    // a swap that would leave a few units, or has next to nothing to pay for, may
                    // be refused; so may numbers that overflow
                    let deep = rd > 8 && !at_least(inv.l, rs + net, 8, i.d, false) && rs > 0;
                    // so may an owner fee that is worth less than the precision of D
                    let deep = deep && (of == 0 || {
                        let mut y = 8;
                        let mut step = rd.next_power_of_two();
                        // largest amount left that is still below the curve
                        while step > 0 {
                            if y + step <= rd && !at_least(inv.l, rs + net, y + step, i.d, false) {
                                y += step;
                            }
                            step /= 2;
                        }
                        let (before, after) = (inv.at(rs + x - of, y), inv.at(rs + x, y));
                        !lp_bounds(sup, after, before, after, true).0.is_zero()
                    });
                    if net > 0 && min == 0 && funds >= x && deep && !huge && rs + x < 1 << 60 && sup > 0 && inv.l < 1 << 40 {
                        return Err("a swap is refused".into());
                    }
                }
            }
        }
        Op::DepOne { u, a: side, amt, min_lp } => {
            let x = amt as u128;
            let tf = fee(f.trade, (x / 2).max(1));
            if sup == 0 || x == 0 || tf > x {
                return Ok(());
            }
            let net = x - tf;
            let i = inv.at(a, b);
            let j = if side { inv.at(a + net, b) } else { inv.at(a, b + net) };
            let bd = lp_bounds(sup, j, i, i, false);
            match q {
                Some(q) => within("pool tokens minted by a deposit", (q[p.mint] as u128).saturating_sub(sup), bd)?,
                None => {
                    let funds = s[if side { wd.users[u].a } else { wd.users[u].b }] as u128;
                    let fits = bd.1.map(|h| h + w(sup) < w(1 << 63)).unwrap_or(false);
                    if bd.0 > w(min_lp as u128) && funds >= x && !huge && fits {
                        return Err("a deposit is refused".into());
                    }
                }
            }
        }
        Op::WdOne { u, a: side, amt, max_lp } => {
            let x = amt as u128;
            let out = x + fee(f.trade, (x / 2).max(1));
            let r = if side { a } else { b };
            if sup == 0 || x == 0 || out > r {
                return Ok(());
            }
            let i = inv.at(a, b);
            let j = if side { inv.at(a - out, b) } else { inv.at(a, b - out) };
            let bd = lp_bounds(sup, i, j, i, true);
            match q {
                Some(q) => within("pool tokens burned by a withdrawal", sup.saturating_sub(q[p.mint] as u128), bd)?,
                None => {
                    if let Some(h) = bd.1 {
                        let us = &wd.users[u];
                        let tot = h.min(w(1 << 100)).as_u128();
                        let tot = tot + if us.lp == p.fee { 0 } else { fee(f.wd, tot) };
                        if !bd.0.is_zero() && tot <= max_lp as u128 && tot <= s[us.lp] as u128 && !huge {
                            return Err("a withdrawal is refused".into());
                        }
                    }
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn step21(ctx: &Ctx, t: &mut Tally, wd: &mut World, inv: &mut Inva, s: &State, op: &Op) -> Option<State> {
    let (v, n) = lockstep(ctx, t, wd, s, op)?;
    let _ = v;
    if let Err(e) = judge21(wd, inv, s, op, n.as_ref()) {
        ctx.violation(&format!("{}: {}", opname(op), classify(&e)), json!({"cfg": cfg_json(&wd.cfg), "state": show(wd, s), "op": format!("{:?}", op), "what": e}));
        return None;
    }
    n
}

fn ops_for(a: u64, b: u64, dense: u64, host: bool) -> Vec<Op> {
    let mut am: Vec<u64> = (1..=dense).collect();
    if a.max(b) > 50 {
        for r in [a, b] {
            am.extend([r / 1000, r / 100 + 1, r / 7, r / 2, r, r.saturating_mul(3)]);
        }
        if dense > 1 {
            am.extend(related(a, b, 1_000_000_000));
            am.extend(shapes());
        }
    }
    am.retain(|x| *x > 0 && *x < 1 << 61);
    am.sort();
    am.dedup();
    let mut ops = vec![];
    for &x in &am {
        for side in [true, false] {
            ops.push(Op::Swap { u: BOB, a2b: side, amt: x, min: 0, host });
            ops.push(Op::DepOne { u: BOB, a: side, amt: x, min_lp: 0 });
            ops.push(Op::WdOne { u: ALICE, a: side, amt: x, max_lp: u64::MAX });
        }
    }
    ops
}

pub fn c21(ctx: &Ctx) {
    let th = ctx.thorough;
    let amps: Vec<u64> = if th { vec![1, 2, 3, 5, 10, 50, 85, 100, 1000, 10_000, 1_000_000, 1 << 40] } else { vec![1, 2, 10, 85, 1000, 1_000_000] };
    let fees: Vec<Fee> = if th { FEES.to_vec() } else { vec![FEES[0], FEES[2], FEES[3]] };
    let mut cfgs = vec![];
    for &amp in &amps {
        for &fee in &fees {
            cfgs.push(Cfg { curve: Curve::Stable { amp }, fee });
        }
    }
    // pools: every small one, and every size at several proportions
    let mut pools: Vec<(u64, u64)> = vec![];
    let n = if th { 40 } else { 14 };
    for a in 1..=n {
        for b in 1..=n {
            pools.push((a, b));
        }
    }
    let mut sizes: Vec<u64> = vec![100, 1000, 4096, 12_345, 1_000_000, 999_999_937, 1 << 40, 10u64.pow(15), 1 << 59, (1 << 61) + 12_345];
    if th {
        sizes.extend([57, 255, 65_537, 31_415_926, 1 << 32, (1 << 53) - 1, 10u64.pow(17)]);
    }
    let mut props: Vec<(u64, u64)> = vec![(1, 1), (2, 1), (1, 3), (10, 1), (1, 100), (7, 1000), (1, 9999), (20_000, 1)];
    if th {
        props.extend([(999, 1000), (1, 2), (3, 7), (1, 10), (100, 1), (1, 1000), (1000, 1), (1_000_000, 1)]);
    }
    for &a in &sizes {
        for &(n, d) in &props {
            let b = a as u128 * n as u128 / d as u128;
            if b > 0 && b < 1 << 62 {
                pools.push((a, b as u64));
            }
        }
    }
    let sups: &[u64] = if th { &[1_000_000_000, 7, 1000, 1 << 55] } else { &[1_000_000_000, 1000] };
    let jobs = cfgs.len() * pools.len();
    par(ctx, jobs, |i, t| {
        let cfg = cfgs[i / pools.len()];
        let (a, b) = pools[i % pools.len()];
        let mut w = match world(ctx, cfg, &Funds { va: 1000, vb: 1000, a: [0; 3], b: [0; 3] }) {
            Some(w) => w,
            None => return,
        };
        let amp = if let Curve::Stable { amp } = cfg.curve { amp } else { 0 };
        let mut inv = Inva { l: 2 * amp as u128, memo: HashMap::new() };
        for &sup in sups {
            let (ua, ub) = (w.users[BOB].a, w.users[BOB].b);
            w.set(ua, 1 << 62);
            w.set(ub, 1 << 62);
            let s = set_pool(&mut w, a, b, sup);
            t.states += 1;
            for op in ops_for(a, b, if th { 12 } else { 5 }, false) {
                step21(ctx, t, &mut w, &mut inv, &s, &op);
            }
            if cfg.fee.owner.0 > 0 {
                for op in ops_for(a, b, 1, true).iter().filter(|o| matches!(o, Op::Swap { .. })) {
                    step21(ctx, t, &mut w, &mut inv, &s, op);
                }
            }
        }
        if i % 499 == 0 {
            ctx.sample(json!({"cfg": cfg_json(&cfg), "pool": [a, b], "invariant": (inv.at(a as u128, b as u128).d >> FR).to_string()}));
        }
    });
    histories21(ctx, &amps);
    ctx.note("bounds", json!({"configurations": cfgs.len(), "pools": pools.len(), "supplies": sups.len(), "tolerance_units": {"swap_over": OVER as u64, "swap_under": UNDER as u64, "invariant_below": 1, "invariant_above": "3 + log2 of the imbalance"}}));
    ctx.assume("the pool's D is taken to 32 binary digits; a program that computes on whole units may pay up to 2 units more than the exact curve in one swap");
}

/// All sequences of operations from balanced and lopsided pools; every step is judged, and so is
/// the whole: n steps lose the pool at most n tolerances per pool token.
fn histories21(ctx: &Ctx, amps: &[u64]) {
    let th = ctx.thorough;
    let starts: Vec<(u64, u64)> = vec![(20, 20), (300, 300), (50, 200), (100_000, 100_000), (123_456, 7_890)];
    let jobs = amps.len() * starts.len() * 2;
    let depth = if th { 5 } else { 3 };
    par(ctx, jobs, |i, t| {
        let amp = amps[i / (starts.len() * 2)];
        let (a, b) = starts[i / 2 % starts.len()];
        let cfg = Cfg { curve: Curve::Stable { amp }, fee: FEES[if i % 2 == 0 { 0 } else { 2 }] };
        let mut w = match world(ctx, cfg, &Funds { va: a, vb: b, a: [0; 3], b: [0; 3] }) {
            Some(w) => w,
            None => return,
        };
        let (x, y, z) = (w.users[BOB].a, w.users[BOB].b, w.users[BOB].lp);
        w.set(x, 1 << 50);
        w.set(y, 1 << 50);
        let al = w.users[ALICE].lp;
        let lp = w.get(al);
        w.set(al, lp - lp / 4);
        w.set(z, lp / 4);
        let init = w.state();
        let inv = std::cell::RefCell::new(Inva { l: 2 * amp as u128, memo: HashMap::new() });
        let d0 = inv.borrow_mut().at(a as u128, b as u128).d;
        let (m1, m2) = ((a / 7).max(1), (b / 3).max(2));
        let p = w.pools[0];
        // nearly empty reserves, where one unit is worth a lot, only from the small pools
        let big = a.min(b) >= 300;
        let ops = move |_w: &World, s: &State| {
            let mut v = vec![];
            if big && (s[p.va].min(s[p.vb]) < 32 || imbalance(s[p.va] as u128, s[p.vb] as u128) > 6) {
                return v;
            }
            for side in [true, false] {
                for x in [m1, m2] {
                    v.push(Op::Swap { u: BOB, a2b: side, amt: x, min: 0, host: false });
                }
                v.push(Op::DepOne { u: BOB, a: side, amt: m2, min_lp: 0 });
                v.push(Op::WdOne { u: BOB, a: side, amt: m1, max_lp: u64::MAX });
            }
            v.push(Op::WdAll { u: BOB, lp: 100_000_000, min_a: 0, min_b: 0 });
            v
        };
        let out = bfs(ctx, t, &mut w, &init, depth, 400_000, &ops, &|e: &Edge| {
            judge21(e.w, &mut inv.borrow_mut(), e.pre, e.op, e.res.ok())?;
            judge(e.w, e.pre, e.op, e.res).map(|_| ())
        });
        // value per pool token after any history of at most `depth` steps: each swap may have paid
        // OVER units too many, at worst where they were worth most
        let worth = |inv: &mut Inva, s: &State| {
            let (x, y) = (s[p.va] as u128, s[p.vb] as u128);
            let d = inv.at(x, y).d;
            inv.at(x + OVER, y).d.max(inv.at(x, y + OVER).d) - d
        };
        let unit = out.list.iter().filter(|_| big).map(|s| worth(&mut inv.borrow_mut(), s)).max().unwrap_or(W::zero());
        for s in &out.list {
            if !big {
                break;
            }
            let d = inv.borrow_mut().at(s[p.va] as u128, s[p.vb] as u128).d;
            let tol = w_fr(8 * depth as u128) + unit * W::from(depth as u64);
            if (d + tol) * w_(lp) < d0 * w_(s[p.mint]) {
                ctx.violation("the pool loses value over a history", json!({"cfg": cfg_json(&cfg), "initial": show(&w, &init), "state": show(&w, s)}));
                return;
            }
        }
        t.bump("histories_explored");
    });
}
fn w_(x: u64) -> W {
    w(x as u128)
}
fn w_fr(x: u128) -> W {
    w(x) << FR
}
