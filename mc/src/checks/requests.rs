//! C22: every request is either refused without any effect or is one of the documented ones, with
//! its numbers and accounts where they are documented to be.
use super::common::*;
use super::init::Setup;
use super::ledger::BIG;
use crate::model::diff;
use crate::report::*;
use crate::svm::*;
use crate::world::*;
use serde_json::{json, Value};

const NAMES: [&str; 7] = [
    "initialize_constant_price",
    "initialize_linear_price",
    "swap",
    "deposit_all_token_types",
    "withdraw_all_token_types",
    "deposit_single_token_type_exact_amount_in",
    "withdraw_single_token_type_exact_amount_out",
];

/// A request somebody may submit, its world, and what the documented request does there.
struct Case {
    name: &'static str,
    bank: Bank,
    data: Vec<u8>,
    metas: Vec<Meta>,
    /// None: refused
    honest: Option<Bank>,
    names: Vec<String>,
    extras: Vec<usize>,
}
impl Case {
    fn new(name: &'static str, w: &World, data: Vec<u8>, metas: Vec<Meta>, extras: Vec<usize>) -> Case {
        let mut b = w.bank.clone();
        let ok = exec(&mut b, &Target::Entry(&data), &metas).is_ok();
        Case { name, bank: w.bank.clone(), data, metas, honest: if ok { Some(b) } else { None }, names: w.names.clone(), extras }
    }
    /// the request with this data and these accounts; None: refused
    fn run(&self, data: &[u8], metas: &[Meta]) -> Option<Bank> {
        let mut b = self.bank.clone();
        exec(&mut b, &Target::Entry(data), metas).ok().map(|_| b)
    }
    fn what(&self, q: &Bank) -> Vec<String> {
        (0..q.accts.len()).filter(|i| q.accts[*i] != self.bank.accts[*i]).map(|i| self.names[i].clone()).collect()
    }
}

/// the worlds and the requests
fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut out = vec![];
    let cs = [Curve::Product, Curve::Price { p: 3 }, Curve::Stable { amp: 100 }, Curve::Offset { off: 5000 }, Curve::Linear { sn: 1, sd: 1000, pn: 1, pd: 10 }];
    for (n, curve) in cs.into_iter().enumerate() {
        let lin = matches!(curve, Curve::Linear { .. });
        let cfg = Cfg { curve, fee: if lin { NOFEE } else { FEES[2] } };
        let f = Funds { va: if lin { 0 } else { 1_000_000 }, vb: 2_000_000, a: [1 << 40; 3], b: [1 << 40; 3] };
        let mut w = match world(ctx, cfg, &f) {
            Some(w) => w,
            None => continue,
        };
        if lin {
            let _ = w.run(0, &Op::Swap { u: BOB, a2b: true, amt: 40_000, min: 0, host: false });
        }
        let lp = w.get(w.users[ALICE].lp) / 7;
        let ops = [
            Op::Swap { u: ALICE, a2b: true, amt: 0x5433, min: 2, host: false },
            Op::Swap { u: ALICE, a2b: false, amt: 0x0433, min: 1, host: false },
            Op::DepAll { u: ALICE, lp, max_a: BIG - 2, max_b: BIG - 1 },
            Op::WdAll { u: ALICE, lp, min_a: 1, min_b: 2 },
            Op::DepOne { u: ALICE, a: true, amt: 0x4321, min_lp: 1 },
            Op::WdOne { u: ALICE, a: true, amt: 0x1357, max_lp: BIG - 3 },
        ];
        let extras = vec![w.users[BOB].wallet, w.users[BOB].a, w.users[ALICE].lp, w.pools[0].swap, w.token_prog, w.pools[0].va];
        let before = out.len();
        for op in &ops {
            let name = match op {
                Op::Swap { .. } => NAMES[2],
                Op::DepAll { .. } => NAMES[3],
                Op::WdAll { .. } => NAMES[4],
                Op::DepOne { .. } => NAMES[5],
                _ => NAMES[6],
            };
            out.push(Case::new(name, &w, World::entry_data(op), w.metas(0, op), extras.clone()));
        }
        let served = out[before..].iter().filter(|c| c.honest.is_some()).count();
        if served < [6, 6, 6, 4, 2][n] {
            ctx.violation("a documented request is refused", json!({"curve": format!("{:?}", curve), "served": out[before..].iter().filter(|c| c.honest.is_some()).map(|c| c.name).collect::<Vec<_>>()}));
        }
    }
    if !cfg!(feature = "prod") {
        for (name, c, d) in [
            (NAMES[0], Curve::Price { p: 0x1122_3344 }, ixdata(NAMES[0], &[1, 400, 1, 500, 1, 600, 1, 7, 0x1122_3344])),
            (NAMES[1], Curve::Linear { sn: 1, sd: 200_000_000, pn: 1, pd: 50 }, ixdata(NAMES[1], &[1, 200_000_000, 1, 50])),
        ] {
            let s = Setup::new(c, NOFEE, 0);
            let extras = vec![s.w.users[BOB].wallet, s.w.users[BOB].a, s.w.host, s.w.token_prog];
            let c = Case::new(name, &s.w, d, s.metas.clone(), extras);
            if c.honest.is_none() {
                ctx.violation("a documented request is refused", json!({ "request": name }));
            }
            out.push(c);
        }
    }
    out
}

/// what a variation may do
#[derive(Clone, Copy, PartialEq)]
enum May {
    Nothing,
    Honest,
}

pub fn c22(ctx: &Ctx) {
    let cases = cases(ctx);
    let th = ctx.thorough;
    par(ctx, cases.len(), |n, t| {
        let c = &cases[n];
        t.states += 1;
        t.traces += c.honest.is_some() as u64;
        let mut check = |what: &str, may: May, data: &[u8], metas: &[Meta], case: Value| {
            t.transitions += 1;
            let r = c.run(data, metas);
            let bad = match (&r, may) {
                (None, _) => {
                    t.bump("requests_refused");
                    None
                }
                (Some(q), May::Nothing) => Some(format!("{} is accepted, changing {:?}", what, c.what(q))),
                (Some(q), May::Honest) => {
                    if Some(q) != c.honest.as_ref() {
                        Some(format!("{} has another effect, changing {:?}", what, c.what(q)))
                    } else {
                        t.traces += 1;
                        None
                    }
                }
            };
            if let Some(e) = bad {
                ctx.violation(&format!("{}: {}", c.name, classify(&e)), json!({"request": c.name, "case": case, "what": e}));
            }
        };
        let len = c.data.len();
        // data: cut short, other selectors, something after the end
        for k in 0..len {
            check("data cut short", May::Nothing, &c.data[..k], &c.metas, json!({ "length": k }));
            // also with the missing part made up by other accounts' order or nothing at all
            check("data without its selector", May::Nothing, &c.data[k.min(8).max(1)..], &c.metas, json!({ "from": k.min(8).max(1) }));
        }
        for i in 0..8 {
            for x in 0..=255u8 {
                if x != c.data[i] {
                    let mut d = c.data.clone();
                    d[i] = x;
                    check("an unknown selector", May::Nothing, &d, &c.metas, json!({"byte": i, "value": x}));
                }
            }
        }
        for i in 0..8 {
            for j in 0..i {
                let mut d = c.data.clone();
                if d[i] != d[j] {
                    d.swap(i, j);
                    check("an unknown selector", May::Nothing, &d, &c.metas, json!({ "swapped": [i, j] }));
                }
            }
        }
        if ctx.deep {
            for i in 0..8 {
                for j in 0..i {
                    for n in 0..65_536u32 {
                        let (x, y) = ((n >> 8) as u8, n as u8);
                        if x != c.data[i] && y != c.data[j] {
                            let mut d = c.data.clone();
                            d[i] = x;
                            d[j] = y;
                            // (another documented selector is more than two bytes away)
                            check("an unknown selector", May::Nothing, &d, &c.metas, json!({"bytes": [i, j], "values": [x, y]}));
                        }
                    }
                }
            }
        }
        for k in 1..=if th { 64 } else { 24 } {
            for x in [0u8, 1, 0xff] {
                let mut d = c.data.clone();
                d.extend(vec![x; k]);
                check("data with something after it", May::Honest, &d, &c.metas, json!({"more": k, "fill": x}));
            }
        }
        // the format of the program this one was derived from: a tag and the numbers
        for tag in 0..=255u8 {
            for args in [&c.data[8..], &c.data[8..8], &c.data[8.min(len)..16.min(len)]] {
                let mut d = vec![tag];
                d.extend_from_slice(args);
                check("a foreign format", May::Nothing, &d, &c.metas, json!({ "tag": tag }));
            }
        }
        // the numbers of one request under the selector of another
        for nm in NAMES.iter().filter(|x| **x != c.name) {
            let mut d = disc(nm);
            d.extend_from_slice(&c.data[8..]);
            check("the accounts of another request", May::Nothing, &d, &c.metas, json!({ "selector": nm }));
            let d = ixdata(nm, &[100, 3, 1, 7, 1, 9, 1, 11, 5]);
            check("the accounts of another request", May::Nothing, &d, &c.metas, json!({ "selector": nm }));
        }
        for ns in ["global", "state", "account", "event", "anchor"] {
            for nm in ["initialize", "swap", "deposit", "withdraw", "transfer", "idl", "close", "set_fees", "upgrade", "Swap", "initialize_stable", "initialize_offset", "initialize_constant_product"] {
                if ns == "global" && nm == "swap" {
                    continue;
                }
                let mut d = solana_program::hash::hash(format!("{}:{}", ns, nm).as_bytes()).to_bytes()[..8].to_vec();
                d.extend_from_slice(&c.data[8..]);
                check("an undocumented request", May::Nothing, &d, &c.metas, json!({ "selector": format!("{}:{}", ns, nm) }));
            }
        }
        // accounts: too few, too many, moved, without the privileges
        for k in 0..c.metas.len() {
            check("too few accounts", May::Nothing, &c.data, &c.metas[..k], json!({ "accounts": k }));
            let mut m2 = c.metas.clone();
            m2.remove(k);
            check("a missing account", May::Nothing, &c.data, &m2, json!({ "without": k }));
            let mut m2 = c.metas.clone();
            m2[k].writable = false;
            check("an account that cannot be written", May::Honest, &c.data, &m2, json!({ "account": k }));
            let mut m2 = c.metas.clone();
            m2[k].writable = true;
            check("an account that could be written", May::Honest, &c.data, &m2, json!({ "account": k }));
            if !c.metas[k].signer {
                let mut m2 = c.metas.clone();
                m2[k].signer = true;
                // (the authority cannot sign a transaction)
                if k != 1 {
                    check("an account that signs too", May::Honest, &c.data, &m2, json!({ "account": k }));
                }
            } else {
                let mut m2 = c.metas.clone();
                m2[k].signer = false;
                check("a missing signature", May::Nothing, &c.data, &m2, json!({ "account": k }));
            }
            // every pair without its privileges
            for j in 0..k {
                let mut m2 = c.metas.clone();
                m2[k].writable = false;
                m2[j].writable = false;
                check("accounts that cannot be written", May::Honest, &c.data, &m2, json!({ "accounts": [j, k] }));
            }
        }
        for &x in &c.extras {
            for (s, wr) in [(false, false), (false, true), (true, true)] {
                let mut m2 = c.metas.clone();
                m2.push(m(x, s, wr));
                check("an additional account", May::Honest, &c.data, &m2, json!({"account": c.names[x], "signs": s}));
                for &y in &c.extras {
                    let mut m3 = m2.clone();
                    m3.push(m(y, false, wr));
                    check("additional accounts", May::Honest, &c.data, &m3, json!({ "accounts": [c.names[x].clone(), c.names[y].clone()] }));
                }
            }
        }
        if n % 7 == 0 {
            ctx.sample(json!({"request": c.name, "data": c.data, "served": c.honest.is_some()}));
        }
    });
    arguments(ctx);
    ctx.note("bounds", json!({"requests": cases.len(), "selectors": "every one-byte change and every transposition", "lengths": "every truncation, 64 bytes beyond"}));
}

/// The numbers in the data are taken from their documented places, all 64 bits of them: the request
/// does what the processor function does when it is handed the same numbers.
fn arguments(ctx: &Ctx) {
    use token_bonding_curve::processor::Processor as P;
    let cs = [Curve::Product, Curve::Price { p: 3 }, Curve::Stable { amp: 100 }, Curve::Linear { sn: 1, sd: 1000, pn: 1, pd: 10 }];
    let mut vals = lattice(4, false);
    vals = thin(&vals, if ctx.deep { 1 } else if ctx.thorough { 2 } else { 9 });
    for b in 0..8 {
        vals.push(3 << (8 * b));
        vals.push(0x1234 << (7 * b));
    }
    vals.sort();
    vals.dedup();
    let jobs: Vec<(usize, usize)> = (0..cs.len()).flat_map(|c| (0..vals.len()).map(move |v| (c, v))).collect();
    par(ctx, jobs.len(), |n, t| {
        let (curve, x) = (cs[jobs[n].0], vals[jobs[n].1]);
        let lin = matches!(curve, Curve::Linear { .. });
        let cfg = Cfg { curve, fee: if lin { NOFEE } else { FEES[2] } };
        let f = Funds { va: if lin { 0 } else { 1000 }, vb: 1000, a: [0; 3], b: [0; 3] };
        let mut w = match world(ctx, cfg, &f) {
            Some(w) => w,
            None => return,
        };
        set_pool(&mut w, 1 << 40, 1 << 41, 1 << 50);
        let p = w.pools[0];
        let (a, b, l) = (w.users[ALICE].a, w.users[ALICE].b, w.users[ALICE].lp);
        w.set(a, 1 << 62);
        w.set(b, 1 << 62);
        w.set(l, 1 << 50);
        let _ = p;
        let st = w.state();
        t.states += 1;
        for &y in &vals {
            let mut ops = vec![
                Op::Swap { u: ALICE, a2b: true, amt: x, min: y, host: false },
                Op::Swap { u: ALICE, a2b: false, amt: x, min: y, host: false },
                Op::DepOne { u: ALICE, a: true, amt: x, min_lp: y },
                Op::WdOne { u: ALICE, a: false, amt: x, max_lp: y },
            ];
            for z in [0, 1 << 33, BIG] {
                ops.push(Op::DepAll { u: ALICE, lp: x, max_a: y, max_b: z });
                ops.push(Op::DepAll { u: ALICE, lp: x, max_a: z, max_b: y });
                ops.push(Op::WdAll { u: ALICE, lp: x, min_a: y, min_b: z });
                ops.push(Op::WdAll { u: ALICE, lp: x, min_a: z, min_b: y });
            }
            for op in ops {
                t.transitions += 2;
                let one = w.step(&st, &op).map(|r| r.ok());
                w.load(&st);
                let metas = w.metas(0, &op);
                let two = exec(
                    &mut w.bank,
                    &Target::Func(&move |p, a| match op {
                        Op::Swap { amt, min, .. } => P::process_swap(p, amt, min, a),
                        Op::DepAll { lp, max_a, max_b, .. } => P::process_deposit_all_token_types(p, lp, max_a, max_b, a),
                        Op::WdAll { lp, min_a, min_b, .. } => P::process_withdraw_all_token_types(p, lp, min_a, min_b, a),
                        Op::DepOne { amt, min_lp, .. } => P::process_deposit_single_token_type_exact_amount_in(p, amt, min_lp, a),
                        Op::WdOne { amt, max_lp, .. } => P::process_withdraw_single_token_type_exact_amount_out(p, amt, max_lp, a),
                        _ => Ok(()),
                    }),
                    &metas,
                )
                .ok()
                .map(|_| w.state());
                let bad = match (&one, &two) {
                    (Err(e), _) => Some(e.clone()),
                    (Ok(None), None) => None,
                    (Ok(Some(q)), Some(r)) if q == r => {
                        t.traces += 1;
                        None
                    }
                    (Ok(q), r) => Some(format!(
                        "the request and its numbers differ: {:?} and {:?}",
                        q.as_ref().map(|q| diff(&w, &st, q)),
                        r.as_ref().map(|q| diff(&w, &st, q))
                    )),
                };
                if let Some(e) = bad {
                    ctx.violation(&format!("{}: {}", opname(&op), classify(&e)), json!({"cfg": cfg_json(&cfg), "op": format!("{:?}", op), "what": e}));
                }
            }
        }
    });
}
