//! Independent reference model of every operation, on exact wide integers. `judge` runs it in
//! lockstep with the implementation: given the state before, the operation and what the real
//! program did, it says whether success/failure and the complete state after are the specified
//! ones. Nothing here calls into the program.
use crate::big::*;
use crate::world::*;

/// numerator/denominator fee on an amount: at least one base unit when charged at all
pub fn fee(f: (u64, u64), x: u128) -> u128 {
    if f.0 == 0 || x == 0 {
        0
    } else {
        (x * f.0 as u128 / f.1 as u128).max(1)
    }
}

#[derive(Clone, Debug)]
pub enum Pred {
    Fail,
    /// must succeed and have exactly these effects
    Ok(Vec<Eff>),
    /// may be rejected (outside the arithmetic range the program promises); if not, these effects
    May(Vec<Eff>),
    /// the amounts are not predicted here (linear and stable curves): effects with the observed
    /// amounts
    Free(Vec<Eff>),
}
#[derive(Clone, Debug)]
pub enum Eff {
    /// move between token accounts
    Move(usize, usize, u128),
    Mint(usize, usize, u128),
    Burn(usize, usize, u128),
}

fn apply(s: &State, effs: &[Eff]) -> Option<State> {
    let mut t = s.clone();
    let dec = |t: &mut State, i: usize, v: u128| -> Option<()> {
        t[i] = (t[i] as u128).checked_sub(v)? as u64;
        Some(())
    };
    let inc = |t: &mut State, i: usize, v: u128| -> Option<()> {
        let n = t[i] as u128 + v;
        if n > u64::MAX as u128 {
            return None;
        }
        t[i] = n as u64;
        Some(())
    };
    for e in effs {
        match *e {
            Eff::Move(a, b, v) => {
                dec(&mut t, a, v)?;
                inc(&mut t, b, v)?;
            }
            Eff::Mint(mi, b, v) => {
                inc(&mut t, b, v)?;
                inc(&mut t, mi, v)?;
            }
            Eff::Burn(mi, a, v) => {
                dec(&mut t, a, v)?;
                dec(&mut t, mi, v)?;
            }
        }
    }
    Some(t)
}

pub enum Quote {
    None,
    /// (taken without fees, out), and whether the program's arithmetic may overflow
    Exact(u128, u128, bool),
    Free,
}

/// ceil(n/d), but an amount smaller than one whole unit is refused
fn ceil1(n: W, d: W) -> Option<W> {
    if d.is_zero() || n < d {
        None
    } else {
        Some(ceil_div(n, d))
    }
}

/// Swap of `net` (fees already off) against reserves (src, dst).
pub fn quote(c: &Curve, a2b: bool, net: u128, s: u128, d: u128) -> Quote {
    match *c {
        Curve::Price { p } => {
            let p = p as u128;
            let (t, o) = if a2b { (net / p * p, net / p) } else { (net, net * p) };
            if t == 0 || o == 0 {
                Quote::None
            } else {
                Quote::Exact(t, o, false)
            }
        }
        Curve::Product | Curve::Offset { .. } => {
            let off = if let Curve::Offset { off } = *c { off as u128 } else { 0 };
            let (s, d) = if a2b { (s, d + off) } else { (s + off, d) };
            let k = w(s) * w(d);
            let over = k > w(u128::MAX);
            let nd = match ceil1(k, w(s) + w(net)) {
                Some(x) => x,
                None => return Quote::None,
            };
            let o = w(d) - nd;
            if o.is_zero() {
                return Quote::None;
            }
            // the least source reserve that still gives this many
            let exact = (k % (w(s) + w(net))).is_zero();
            let ns = if exact { w(s) + w(net) } else { ceil_div(k, nd) };
            Quote::Exact((ns - w(s)).as_u128(), o.as_u128(), over)
        }
        Curve::Stable { .. } | Curve::Linear { .. } => Quote::Free,
    }
}

/// Interval of pool tokens, and whether the operation may be refused.
pub enum Lp {
    None,
    Range(u128, u128, bool),
    Free,
}
fn exact_lp(x: W) -> Lp {
    if x > w(u64::MAX as u128) {
        Lp::None
    } else {
        Lp::Range(x.as_u128(), x.as_u128(), false)
    }
}

/// one, in units of 1e-12
pub const U: u128 = 1_000_000_000_000;

/// sqrt(n/d) in units of 1e-12, as an interval that contains what 12-decimal arithmetic gives: the
/// ratio is known to 2e-12, the root itself to 3e-12
pub fn sqrt_iv(n: W, d: W) -> (W, W) {
    let b = n * w(U) * w(U) / d;
    let e = w(2 * U);
    let three = W::from(3);
    (isqrt(b.saturating_sub(e)).saturating_sub(three), isqrt(b + e) + W::one() + three)
}

/// pool tokens burned (rounded up) for `x` of one side, no fees
pub fn lp_for_out(c: &Curve, side_a: bool, x: u128, a: u128, b: u128, sup: u128) -> Lp {
    match *c {
        Curve::Price { p } => {
            let v = w(a) + w(b) * w(p as u128);
            let given = if side_a { w(x) } else { w(x) * w(p as u128) };
            match ceil1(w(sup) * given, v) {
                Some(x) => exact_lp(x),
                None => Lp::None,
            }
        }
        Curve::Product | Curve::Offset { .. } => {
            let off = if let Curve::Offset { off } = *c { off as u128 } else { 0 };
            let r = if side_a { a } else { b + off };
            // with the fee beyond the reserve, but by less than the arithmetic can tell
            let close = x > r && w(x - r) * w(U) <= w(2 * r);
            if r == 0 || x > r && !close {
                return Lp::None;
            }
            let x = x.min(r);
            // S * (1 - sqrt((r-x)/r)), rounded up
            let (rl, rh) = sqrt_iv(w(r - x), w(r));
            let lo = ceil_div((w(sup) * w(U).saturating_sub(rh)).saturating_sub(W::one()), w(U));
            let hi = ceil_div(w(sup) * (w(U) - rl) + W::one(), w(U)).min(w(sup));
            Lp::Range(lo.as_u128(), hi.as_u128(), close || lo.is_zero() || hi > w(u64::MAX as u128))
        }
        Curve::Linear { .. } => Lp::None,
        Curve::Stable { .. } => Lp::Free,
    }
}
/// pool tokens minted (rounded down) for a deposit of `x` of one side, no fees
pub fn lp_for_in(c: &Curve, side_a: bool, x: u128, a: u128, b: u128, sup: u128) -> Lp {
    match *c {
        Curve::Price { p } => {
            let v = w(a) + w(b) * w(p as u128);
            let given = if side_a { w(x) } else { w(x) * w(p as u128) };
            if v.is_zero() {
                return Lp::None;
            }
            exact_lp(w(sup) * given / v)
        }
        Curve::Product => {
            let r = if side_a { a } else { b };
            if r == 0 {
                return Lp::None;
            }
            // S * (sqrt((r+x)/r) - 1), rounded down
            let (rl, rh) = sqrt_iv(w(r) + w(x), w(r));
            let lo = (w(sup) * rl.saturating_sub(w(U))).saturating_sub(W::one()) / w(U);
            let hi = (w(sup) * rh.saturating_sub(w(U)) + W::one()) / w(U);
            if lo > w(u64::MAX as u128) {
                return Lp::None;
            }
            Lp::Range(lo.as_u128(), hi.as_u128(), lo.is_zero() || hi > w(u64::MAX as u128))
        }
        Curve::Offset { .. } | Curve::Linear { .. } => Lp::None,
        Curve::Stable { .. } => Lp::Free,
    }
}

/// both-sided value of `t` pool tokens
pub fn both(c: &Curve, t: u128, a: u128, b: u128, sup: u128, up: bool) -> Option<(W, W, bool)> {
    if sup == 0 {
        return None;
    }
    let lim = w(u128::MAX);
    match *c {
        Curve::Price { p } => {
            let p = w(p as u128);
            let v = w(a) + w(b) * p;
            let two = W::from(2);
            if up {
                let h = ceil_div(v, two);
                let a = ceil1(w(t) * h, w(sup))?;
                let b = ceil1(ceil1(w(t) * h, p)?, w(sup))?;
                Some((a, b, v > lim || w(t) * h > lim))
            } else {
                let h = v / two;
                Some((w(t) * h / w(sup), w(t) * h / p / w(sup), v > lim || w(t) * h > lim))
            }
        }
        Curve::Linear { .. } => None,
        _ => {
            let off = if let Curve::Offset { off } = *c { off as u128 } else { 0 };
            let (na, nb) = (w(t) * w(a), w(t) * (w(b) + w(off)));
            let over = na > lim || nb > lim;
            let f = |n: W| -> W {
                if up && n >= w(sup) {
                    ceil_div(n, w(sup))
                } else {
                    n / w(sup)
                }
            };
            Some((f(na), f(nb), over))
        }
    }
}

/// the fee account is (still) an account for pool tokens; its owner can close it
pub fn fee_account_open(wd: &World) -> bool {
    let p = &wd.pools[0];
    let x = &wd.bank.accts[p.fee];
    // anything else a token account of this address could be is not for pool tokens
    x.owner == spl_token::id() && x.data.len() == 165 && x.data[108] != 0 && x.data[..32] == wd.bank.accts[p.mint].key.to_bytes()
}

pub const INIT_LP: u128 = 1_000_000_000;

pub fn allows_deposits(c: &Curve) -> bool {
    !matches!(c, Curve::Offset { .. } | Curve::Linear { .. })
}

/// Predict `op` on pool 0. `post` is what the implementation did (used only to read the amounts
/// the model does not predict exactly; those are checked against their interval here).
pub fn predict(wd: &World, s: &State, op: &Op, post: Option<&State>) -> Result<Pred, String> {
    let p = &wd.pools[0];
    let c = &wd.cfg.curve;
    let f = &wd.cfg.fee;
    let (a, b, sup) = (s[p.va] as u128, s[p.vb] as u128, s[p.mint] as u128);
    let max = u64::MAX as u128;
    Ok(match *op {
        Op::Donate { u, a, amt } => {
            let x = &wd.users[u];
            let (from, to) = if a { (x.a, p.va) } else { (x.b, p.vb) };
            Pred::Ok(vec![Eff::Move(from, to, amt as u128)])
        }
        Op::Burn { u, lp } => Pred::Ok(vec![Eff::Burn(p.mint, wd.users[u].lp, lp as u128)]),
        Op::Swap { u, a2b, amt, min, host } => {
            let us = &wd.users[u];
            let x = amt as u128;
            let fees = fee(f.trade, x) + fee(f.owner, x);
            let of = fee(f.owner, x);
            if fees > x {
                return Ok(Pred::Fail);
            }
            let (vs, vd, usrc, udst) = if a2b { (p.va, p.vb, us.a, us.b) } else { (p.vb, p.va, us.b, us.a) };
            let (rs, rd) = (s[vs] as u128, s[vd] as u128);
            let (taken, out, may, free) = match quote(c, a2b, x - fees, rs, rd) {
                Quote::None => return Ok(Pred::Fail),
                Quote::Exact(t, o, may) => (t, o, may, false),
                Quote::Free => match post {
                    None => return Ok(Pred::Free(vec![])),
                    Some(q) => {
                        let dt = (q[vs] as u128).checked_sub(rs).ok_or("a swap took tokens out of the source vault")?;
                        let o = rd.checked_sub(q[vd] as u128).ok_or("a swap put tokens into the destination vault")?;
                        let t = dt.checked_sub(fees).ok_or("a swap took less than its fees")?;
                        if t > x - fees {
                            return Err("a swap took more than the amount in".into());
                        }
                        if o == 0 && !matches!(c, Curve::Stable { .. }) {
                            return Err("a swap gave nothing".into());
                        }
                        if t == 0 && matches!(c, Curve::Linear { .. }) {
                            return Err("a swap gave tokens for nothing".into());
                        }
                        (t, o, false, true)
                    }
                },
            };
            if out > rd || out < min as u128 || out > max {
                return if free && out < min as u128 {
                    Err("a swap went below the minimum amount out".into())
                } else {
                    Ok(Pred::Fail)
                };
            }
            let total = taken + fees;
            let mut effs = vec![Eff::Move(usrc, vs, total)];
            let mut may = may;
            if of > 0 {
                let (na, nb) = if a2b { (rs + total, rd - out) } else { (rd - out, rs + total) };
                let (lo, hi) = match lp_for_out(c, a2b, of, na, nb, sup) {
                    Lp::None => return Ok(Pred::Fail),
                    Lp::Range(lo, hi, m) => {
                        may |= m;
                        (lo, hi)
                    }
                    Lp::Free => (0, max),
                };
                // the upper end of the interval may not fit into the supply
                may |= sup + hi > max;
                // without a fee account only the host's share is paid
                let open = fee_account_open(wd);
                let minted = match post {
                    Some(q) if !open => {
                        let m = (q[p.mint] as u128).checked_sub(sup).ok_or("a swap burned pool tokens")?;
                        let of = |n: u128| if host && n > 0 { fee(f.host, n) } else { 0 };
                        if m < of(lo) || m > of(hi) {
                            return Err(format!("minted {} pool tokens without a fee account, expected {}..{}", m, of(lo), of(hi)));
                        }
                        if m > 0 {
                            effs.push(Eff::Mint(p.mint, wd.host, m));
                        }
                        lo
                    }
                    Some(q) => (q[p.mint] as u128).checked_sub(sup).ok_or("a swap burned pool tokens")?,
                    None => lo,
                };
                if post.is_some() && (minted < lo || minted > hi) {
                    return Err(format!("owner fee paid with {} pool tokens, expected {}..{}", minted, lo, hi));
                }
                if minted > 0 && open {
                    if host {
                        let h = fee(f.host, minted);
                        effs.push(Eff::Mint(p.mint, wd.host, h));
                        effs.push(Eff::Mint(p.mint, p.fee, minted - h));
                    } else {
                        effs.push(Eff::Mint(p.mint, p.fee, minted));
                    }
                }
            }
            effs.push(Eff::Move(vd, udst, out));
            if free {
                Pred::Free(effs)
            } else if may {
                Pred::May(effs)
            } else {
                Pred::Ok(effs)
            }
        }
        Op::DepAll { u, lp, max_a, max_b } => {
            if !allows_deposits(c) {
                return Ok(Pred::Fail);
            }
            let us = &wd.users[u];
            let (t, sp) = if sup == 0 { (INIT_LP, INIT_LP) } else { (lp as u128, sup) };
            let (da, db, over) = match both(c, t, a, b, sp, true) {
                Some(x) => x,
                None => return Ok(Pred::Fail),
            };
            if da.is_zero() || db.is_zero() || da > w(max_a as u128) || db > w(max_b as u128) {
                return Ok(Pred::Fail);
            }
            let effs = vec![
                Eff::Move(us.a, p.va, da.as_u128()),
                Eff::Move(us.b, p.vb, db.as_u128()),
                Eff::Mint(p.mint, us.lp, t),
            ];
            if over {
                Pred::May(effs)
            } else {
                Pred::Ok(effs)
            }
        }
        Op::WdAll { u, lp, min_a, min_b } => {
            let us = &wd.users[u];
            let wf = if us.lp == p.fee || !fee_account_open(wd) { 0 } else { fee(f.wd, lp as u128) };
            if wf > lp as u128 {
                return Ok(Pred::Fail);
            }
            let t = lp as u128 - wf;
            let (da, db, over) = match both(c, t, a, b, sup, false) {
                Some(x) => x,
                None => return Ok(Pred::Fail),
            };
            if da > w(max) || db > w(max) {
                return Ok(Pred::Fail);
            }
            let (da, db) = (da.as_u128().min(a), db.as_u128().min(b));
            if da < min_a as u128 || db < min_b as u128 || (da == 0 && a != 0) || (db == 0 && b != 0) {
                return Ok(Pred::Fail);
            }
            let effs = vec![
                Eff::Move(us.lp, p.fee, wf),
                Eff::Burn(p.mint, us.lp, t),
                Eff::Move(p.va, us.a, da),
                Eff::Move(p.vb, us.b, db),
            ];
            if over {
                Pred::May(effs)
            } else {
                Pred::Ok(effs)
            }
        }
        Op::DepOne { u, a: side, amt, min_lp } => {
            if !allows_deposits(c) {
                return Ok(Pred::Fail);
            }
            let us = &wd.users[u];
            let x = amt as u128;
            let (lo, hi, may) = if sup == 0 {
                (INIT_LP, INIT_LP, false)
            } else {
                if x == 0 {
                    return Ok(Pred::Fail);
                }
                let tf = fee(f.trade, (x / 2).max(1));
                if tf > x {
                    return Ok(Pred::Fail);
                }
                match lp_for_in(c, side, x - tf, a, b, sup) {
                    Lp::None => return Ok(Pred::Fail),
                    Lp::Range(l, h, m) => (l, h, m),
                    Lp::Free => match post {
                        None => return Ok(Pred::Free(vec![])),
                        Some(_) => (0, max, true),
                    },
                }
            };
            let may = may || sup + lo <= max && sup + hi > max;
            let got = match post {
                Some(q) => (q[p.mint] as u128).checked_sub(sup).ok_or("a deposit burned pool tokens")?,
                None => lo,
            };
            if post.is_some() && (got < lo || got > hi) {
                return Err(format!("single-sided deposit minted {} pool tokens, expected {}..{}", got, lo, hi));
            }
            if got == 0 || got < min_lp as u128 {
                // with an interval, a higher amount might have been fine
                return if post.is_none() && (lo < hi || may) && hi >= min_lp as u128 && hi > 0 {
                    Ok(Pred::May(vec![]))
                } else {
                    Ok(Pred::Fail)
                };
            }
            let (from, to) = if side { (us.a, p.va) } else { (us.b, p.vb) };
            let effs = vec![Eff::Move(from, to, x), Eff::Mint(p.mint, us.lp, got)];
            if may {
                Pred::May(effs)
            } else {
                Pred::Ok(effs)
            }
        }
        Op::WdOne { u, a: side, amt, max_lp } => {
            let us = &wd.users[u];
            let x = amt as u128;
            if x == 0 {
                return Ok(Pred::Fail);
            }
            let tf = fee(f.trade, (x / 2).max(1));
            let (lo, hi, may) = match lp_for_out(c, side, x + tf, a, b, sup) {
                Lp::None => return Ok(Pred::Fail),
                Lp::Range(l, h, m) => (l, h, m),
                Lp::Free => match post {
                    None => return Ok(Pred::Free(vec![])),
                    Some(_) => (0, max, true),
                },
            };
            let burned = match post {
                Some(q) => sup.checked_sub(q[p.mint] as u128).ok_or("a withdrawal minted pool tokens")?,
                None => hi,
            };
            if post.is_some() && (burned < lo || burned > hi) {
                return Err(format!("single-sided withdrawal burned {} pool tokens, expected {}..{}", burned, lo, hi));
            }
            let open = fee_account_open(wd);
            let wf = |n: u128| if us.lp == p.fee || !open { 0 } else { fee(f.wd, n) };
            let tot = burned + wf(burned);
            if tot == 0 || tot > max_lp as u128 || tot > s[us.lp] as u128 {
                return if post.is_none() && lo < hi && lo + wf(lo) <= max_lp as u128 {
                    Ok(Pred::May(vec![]))
                } else {
                    Ok(Pred::Fail)
                };
            }
            let (from, to) = if side { (p.va, us.a) } else { (p.vb, us.b) };
            let effs = vec![
                Eff::Move(us.lp, p.fee, wf(burned)),
                Eff::Burn(p.mint, us.lp, burned),
                Eff::Move(from, to, x),
            ];
            if may {
                Pred::May(effs)
            } else {
                Pred::Ok(effs)
            }
        }
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Succeeded,
    Failed,
    /// the implementation refused where the model allows either
    Tolerated,
}

pub fn diff(w: &World, s: &State, t: &State) -> String {
    let mut v = vec![];
    for i in 0..s.len() {
        if s[i] != t[i] {
            v.push(format!("{}: {} -> {}", w.names[i], s[i], t[i]));
        }
    }
    v.join(", ")
}

pub fn judge(wd: &World, s: &State, op: &Op, got: Result<&State, &crate::svm::Fail>) -> Result<Verdict, String> {
    let pred = predict(wd, s, op, got.ok())?;
    match (pred, got) {
        (Pred::Fail, Err(_)) => Ok(Verdict::Failed),
        (Pred::Fail, Ok(t)) => Err(format!("succeeded but must be refused ({})", diff(wd, s, t))),
        (Pred::May(_), Err(_)) | (Pred::Free(_), Err(_)) => Ok(Verdict::Tolerated),
        (Pred::Ok(e), Err(f)) => match apply(s, &e) {
            // a balance would under- or overflow
            None => Ok(Verdict::Failed),
            Some(t) => Err(format!("refused with {:?} but must succeed ({})", f, diff(wd, s, &t))),
        },
        (Pred::Ok(e), Ok(t)) | (Pred::May(e), Ok(t)) | (Pred::Free(e), Ok(t)) => match apply(s, &e) {
            None => Err(format!("succeeded although a balance does not suffice ({})", diff(wd, s, t))),
            Some(x) if x == *t => Ok(Verdict::Succeeded),
            Some(x) => Err(format!("effects [{}], specified [{}]", diff(wd, s, t), diff(wd, s, &x))),
        },
    }
}
