//! Relations between runs. C25: a pool treats its two tokens alike. C26: what an operation does
//! depends on the pool and the amounts alone. C27: the library's quote is what the program does.
use super::common::*;
use super::ledger::{cross, BIG};
use super::linear_checks::{curve, lin, SMALL};
use crate::big::*;
use crate::model::*;
use crate::report::*;
use crate::svm::*;
use crate::world::*;
use serde_json::json;
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use spl_token::state::{Account, AccountState, Mint};
use token_bonding_curve::curve::calculator::{RoundDirection, TradeDirection};
use token_bonding_curve::processor::Processor;

fn start(c: &Curve) -> Funds {
    Funds { va: if matches!(c, Curve::Linear { .. }) { 0 } else { 1000 }, vb: 1000, a: [0; 3], b: [0; 3] }
}

// ---------------------------------------------------------------- C25

fn mirror_op(op: &Op) -> Op {
    match *op {
        Op::Swap { u, a2b, amt, min, host } => Op::Swap { u, a2b: !a2b, amt, min, host },
        Op::DepAll { u, lp, max_a, max_b } => Op::DepAll { u, lp, max_a: max_b, max_b: max_a },
        Op::WdAll { u, lp, min_a, min_b } => Op::WdAll { u, lp, min_a: min_b, min_b: min_a },
        Op::DepOne { u, a, amt, min_lp } => Op::DepOne { u, a: !a, amt, min_lp },
        Op::WdOne { u, a, amt, max_lp } => Op::WdOne { u, a: !a, amt, max_lp },
        Op::Donate { u, a, amt } => Op::Donate { u, a: !a, amt },
        Op::Burn { u, lp } => Op::Burn { u, lp },
    }
}
fn mirror(w: &World, s: &State) -> State {
    let mut q = s.clone();
    let p = w.pools[0];
    q.swap(p.va, p.vb);
    q.swap(w.mint_a, w.mint_b);
    for u in &w.users {
        q.swap(u.a, u.b);
    }
    q
}

fn all_ops(am: &[u64], lps: &[u64]) -> Vec<Op> {
    let mut o = vec![];
    for &x in am {
        for a in [true, false] {
            for host in [false, true] {
                o.push(Op::Swap { u: ALICE, a2b: a, amt: x, min: 0, host });
            }
            o.push(Op::Swap { u: ALICE, a2b: a, amt: x, min: x / 2 + 1, host: false });
            o.push(Op::DepOne { u: ALICE, a, amt: x, min_lp: 0 });
            o.push(Op::WdOne { u: ALICE, a, amt: x, max_lp: BIG });
            o.push(Op::WdOne { u: ALICE, a, amt: x, max_lp: x });
        }
    }
    for &l in lps {
        o.push(Op::DepAll { u: ALICE, lp: l, max_a: BIG, max_b: BIG });
        o.push(Op::DepAll { u: ALICE, lp: l, max_a: l, max_b: BIG });
        o.push(Op::WdAll { u: ALICE, lp: l, min_a: 0, min_b: 0 });
        o.push(Op::WdAll { u: ALICE, lp: l, min_a: l / 2, min_b: 0 });
    }
    o
}

/// pool states: a small square completely, and a lattice of large ones
fn squares(n: u64, l: &[u64], sups: &[u64]) -> Vec<(u64, u64, u64)> {
    let mut v = vec![];
    for &s in sups {
        for a in 0..=n {
            for b in 0..=n {
                v.push((a, b, s));
            }
        }
        for &a in l {
            for &b in l {
                v.push((a, b, s));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Every pool state with every configuration, in parallel pieces.
fn each(ctx: &Ctx, cfgs: &[Cfg], pools: &[(u64, u64, u64)], f: &(dyn Fn(&mut Tally, &mut World, (u64, u64, u64)) + Sync)) {
    let chunk = 12;
    let per = (pools.len() + chunk - 1) / chunk;
    par(ctx, cfgs.len() * per, |i, t| {
        let cfg = cfgs[i / per];
        let mut w = match world(ctx, cfg, &start(&cfg.curve)) {
            Some(w) => w,
            None => return,
        };
        let part = &pools[(i % per) * chunk..((i % per + 1) * chunk).min(pools.len())];
        for &pool in part {
            t.states += 1;
            f(t, &mut w, pool);
        }
        if i % 97 == 0 {
            ctx.sample(json!({"cfg": cfg_json(&cfg), "pool_states": part}));
        }
    });
}
fn put(w: &mut World, (a, b, s): (u64, u64, u64)) -> State {
    let (u, p) = (w.users[ALICE], w.pools[0]);
    set_pool(w, a, b, s);
    w.set(u.lp, s - s / 2);
    w.set(p.fee, s / 2);
    w.set(u.a, 1 << 62);
    w.set(u.b, 1 << 62);
    w.state()
}

pub fn c25(ctx: &Ctx) {
    let mut cs = vec![Curve::Product, Curve::Price { p: 1 }];
    for amp in [1, 2, 20, 1000] {
        cs.push(Curve::Stable { amp });
    }
    let cfgs = cross(&cs, &[FEES[0], FEES[2], FEES[3], FEES[6]]);
    let l: Vec<u64> = if ctx.thorough { vec![1, 10, 97, 1000, 12_345, 1_000_000_007, 3_000_000_001, 1 << 40, 1 << 52, 1 << 60] } else { vec![1, 97, 1000, 1_000_000_007, 3_000_000_001, 1 << 50] };
    let pools = squares(if ctx.deep { 30 } else if ctx.thorough { 14 } else { 7 }, &l, if ctx.thorough { &[1, 5, 100, 1_000_000_000, 1 << 50] } else { &[5, 1_000_000_000] });
    let top = if ctx.deep { 60 } else if ctx.thorough { 20 } else { 8 };
    each(ctx, &cfgs, &pools, &|t, w, (a, b, s)| {
        let stable = matches!(w.cfg.curve, Curve::Stable { .. });
        if stable && !balanced(a, b) {
            return;
        }
        let st = put(w, (a, b, s));
        let ms = mirror(w, &st);
        let mut am: Vec<u64> = (0..=top).collect();
        am.extend([a / 3, a, b / 3, b, a.saturating_add(b) / 2]);
        am.sort();
        am.dedup();
        let mut lps: Vec<u64> = (0..=4).collect();
        lps.extend([s / 7, s / 3, s / 2]);
        lps.sort();
        lps.dedup();
        for op in all_ops(&am, &lps) {
            t.transitions += 2;
            let x = w.step(&st, &op);
            let y = w.step(&ms, &mirror_op(&op));
            let bad = match (&x, &y) {
                (Err(e), _) | (_, Err(e)) => Some(e.clone()),
                (Ok(Err(_)), Ok(Err(_))) => None,
                (Ok(Ok(p)), Ok(Ok(_))) if stable && !balanced(p[w.pools[0].va], p[w.pools[0].vb]) => None,
                (Ok(Ok(p)), Ok(Ok(q))) => {
                    t.traces += 1;
                    if !alike(w, &st, p, &mirror(w, q)) {
                        Some(format!("[{}] and, the tokens exchanged, [{}]", diff(w, &st, p), diff(w, &st, &mirror(w, q))))
                    } else {
                        None
                    }
                }
                (Ok(p), Ok(q)) => {
                    if matches!(w.cfg.curve, Curve::Stable { .. }) {
                        t.bump("stable_refused_one_way_only");
                        None
                    } else {
                        Some(format!("refused only one way: {:?} {:?}", p.as_ref().err(), q.as_ref().err()))
                    }
                }
            };
            if let Some(e) = bad {
                ctx.violation(&format!("{}: another result when the two tokens are exchanged", opname(&op)), json!({"cfg": cfg_json(&w.cfg), "state": show(w, &st), "op": format!("{:?}", op), "what": e}));
            }
        }
    });
    ctx.note("bounds", json!({"configurations": cfgs.len(), "pool_states": pools.len()}));
}
/// the integer iteration for the stable invariant loses its precision where one reserve is tiny or
/// a tiny part of the other (see C21)
fn balanced(a: u64, b: u64) -> bool {
    a.min(b) >= 90 && a.max(b) / a.min(b) < 1000
}
/// equal; on the stable curve, whose iteration rounds at the two reserves in turn, to the units that
/// rounding can make
fn alike(wd: &World, s: &State, x: &State, y: &State) -> bool {
    if x == y {
        return true;
    }
    if !matches!(wd.cfg.curve, Curve::Stable { .. }) {
        return false;
    }
    let p = wd.pools[0];
    // the invariant is at least twice the geometric mean of the reserves; it is off by a unit or two
    let d = |s: &State| 2 * isqrt(w(s[p.va] as u128) * w(s[p.vb] as u128)).as_u128();
    let lp = 2 + 4 * s[p.mint].max(x[p.mint]) as u128 / d(s).min(d(x)).max(1);
    let pool_tokens = [p.mint, p.fee, wd.users[ALICE].lp, wd.host];
    (0..s.len()).all(|i| (x[i].abs_diff(y[i]) as u128) <= if pool_tokens.contains(&i) { lp } else { 2 })
}

// ---------------------------------------------------------------- C26

/// what changed in the pool and for the user: reserves, supply, fee account, host, user's tokens
fn effect(w: &World, pool: usize, u: usize, s: &State, q: &State) -> [i128; 8] {
    let (p, x) = (w.pools[pool], w.users[u]);
    [p.va, p.vb, p.mint, p.fee, w.host, x.a, x.b, x.lp].map(|i| q[i] as i128 - s[i] as i128)
}
fn by(op: &Op, n: usize) -> Op {
    let mut o = *op;
    match &mut o {
        Op::Swap { u, .. } | Op::DepAll { u, .. } | Op::WdAll { u, .. } | Op::DepOne { u, .. } | Op::WdOne { u, .. } | Op::Donate { u, .. } | Op::Burn { u, .. } => *u = n,
    }
    o
}
fn edit_acct(w: &mut World, i: usize, f: impl Fn(&mut Account)) {
    let mut a = Account::unpack_unchecked(&w.bank.accts[i].data).unwrap();
    f(&mut a);
    w.bank.accts[i].data = pack_tok(&a);
}
fn edit_mint(w: &mut World, i: usize, f: impl Fn(&mut Mint)) {
    let mut a = Mint::unpack_unchecked(&w.bank.accts[i].data).unwrap();
    f(&mut a);
    w.bank.accts[i].data = pack_mint(&a);
}

/// makes the mint that of wrapped SOL, and its accounts accounts of wrapped SOL
fn wrap_sol(w: &mut World, mint: usize) {
    let (old, new) = (w.k(mint).to_bytes(), spl_token::native_mint::id());
    w.bank.accts[mint].key = new;
    for a in w.bank.accts.iter_mut() {
        // the pools' records name the mint, too
        for at in 0..a.data.len().saturating_sub(31) {
            if a.data[at..at + 32] == old {
                a.data[at..at + 32].copy_from_slice(&new.to_bytes());
            }
        }
        if a.owner == spl_token::id() && a.data.len() == Account::LEN && a.data[..32] == new.to_bytes() {
            let mut t = Account::unpack_unchecked(&a.data).unwrap();
            t.is_native = COption::Some(2_039_280);
            a.data = pack_tok(&t);
            a.lamports = 1 << 62;
        }
    }
}

type Circumstance = (&'static str, fn(&mut World));
/// circumstances that have nothing to do with what an operation on pool 0 does
fn circumstances() -> Vec<Circumstance> {
    vec![
        ("the user holds less", |w| {
            let u = w.users[ALICE];
            let l = w.get(u.lp);
            let m = w.get(w.pools[0].mint);
            w.set(u.a, (1 << 61) + 12_345);
            w.set(u.b, (1 << 60) + 1);
            let _ = (l, m);
        }),
        ("the user holds more", |w| {
            let u = w.users[ALICE];
            w.set(u.a, (1 << 62) + (1 << 61));
            w.set(u.b, (1 << 62) + 77);
        }),
        ("others hold tokens", |w| {
            for n in [BOB, OWNER] {
                let u = w.users[n];
                w.set(u.a, 999_999_937);
                w.set(u.b, 5);
            }
        }),
        ("the other pool is rich", |w| {
            let p = w.pools[1];
            w.set(p.va, 1 << 61);
            w.set(p.vb, 3);
            w.set(p.mint, 1 << 50);
        }),
        ("the other pool is empty", |w| {
            let p = w.pools[1];
            w.set(p.va, 0);
            w.set(p.vb, 0);
            w.set(p.mint, 0);
        }),
        ("tokens of other decimals", |w| {
            let (a, b, m) = (w.mint_a, w.mint_b, w.pools[0].mint);
            edit_mint(w, a, |x| x.decimals = 9);
            edit_mint(w, b, |x| x.decimals = 0);
            edit_mint(w, m, |x| x.decimals = 6);
        }),
        ("tokens of the same decimals", |w| {
            let (a, b, m) = (w.mint_a, w.mint_b, w.pools[0].mint);
            for i in [a, b, m] {
                edit_mint(w, i, |x| x.decimals = 18);
            }
        }),
        ("tokens that are scarce or abundant", |w| {
            let (a, b) = (w.mint_a, w.mint_b);
            edit_mint(w, a, |x| x.supply = u64::MAX);
            edit_mint(w, b, |x| {
                x.supply = 1;
                x.mint_authority = COption::None
            });
        }),
        ("tokens that can be frozen", |w| {
            let (a, b) = (w.mint_a, w.mint_b);
            for i in [a, b] {
                edit_mint(w, i, |x| x.freeze_authority = COption::Some(key("minter")));
            }
        }),
        ("other lamports", |w| {
            for (i, a) in w.bank.accts.iter_mut().enumerate() {
                a.lamports = 1 + i as u64 * 1_000_003;
            }
        }),
        ("the user's accounts have a delegate", |w| {
            let u = w.users[ALICE];
            for i in [u.a, u.b, u.lp] {
                edit_acct(w, i, |x| {
                    x.delegate = COption::Some(key("bob"));
                    x.delegated_amount = 3
                });
            }
        }),
        ("the user's accounts can be closed by somebody", |w| {
            let u = w.users[ALICE];
            for i in [u.a, u.b, u.lp] {
                edit_acct(w, i, |x| x.close_authority = COption::Some(key("bob")));
            }
        }),
        ("accounts of others are frozen", |w| {
            let u = w.users[BOB];
            for i in [u.a, u.b, u.lp, w.pools[1].va] {
                edit_acct(w, i, |x| x.state = AccountState::Frozen);
            }
        }),
        ("the fee and host accounts belong to the user", |w| {
            let (f, h) = (w.pools[0].fee, w.host);
            for i in [f, h] {
                edit_acct(w, i, |x| x.owner = key("alice"));
            }
        }),
        ("the user is the delegate of the accounts", |w| {
            let u = w.users[ALICE];
            for i in [u.a, u.b, u.lp] {
                edit_acct(w, i, |x| {
                    x.owner = key("bob");
                    x.delegate = COption::Some(key("alice"));
                    x.delegated_amount = u64::MAX
                });
            }
        }),
        ("the vaults are marked otherwise", |w| {
            let p = w.pools[0];
            for i in [p.va, p.vb] {
                edit_acct(w, i, |x| {
                    x.delegate = COption::Some(key("bob"));
                    x.close_authority = COption::Some(key("minter"))
                });
            }
            let m = p.mint;
            edit_mint(w, m, |x| x.freeze_authority = COption::Some(key("minter")));
        }),
        ("token A is wrapped SOL", |w| wrap_sol(w, w.mint_a)),
        ("token B is wrapped SOL", |w| wrap_sol(w, w.mint_b)),
        ("no lamports", |w| {
            for a in w.bank.accts.iter_mut() {
                a.lamports = 0;
            }
        }),
        ("the fee and host accounts of somebody else", |w| {
            let (f, h) = (w.pools[0].fee, w.host);
            edit_acct(w, f, |x| x.owner = key("minter"));
            edit_acct(w, h, |x| {
                x.owner = key("minter");
                x.amount = 4321
            });
        }),
    ]
}

/// the same operation through the processor function instead of the entry point
fn direct(w: &mut World, op: &Op, metas: &[Meta]) -> Result<(), Fail> {
    let f: Box<Body> = match *op {
        Op::Swap { amt, min, .. } => Box::new(move |p, a| Processor::process_swap(p, amt, min, a)),
        Op::DepAll { lp, max_a, max_b, .. } => Box::new(move |p, a| Processor::process_deposit_all_token_types(p, lp, max_a, max_b, a)),
        Op::WdAll { lp, min_a, min_b, .. } => Box::new(move |p, a| Processor::process_withdraw_all_token_types(p, lp, min_a, min_b, a)),
        Op::DepOne { amt, min_lp, .. } => Box::new(move |p, a| Processor::process_deposit_single_token_type_exact_amount_in(p, amt, min_lp, a)),
        Op::WdOne { amt, max_lp, .. } => Box::new(move |p, a| Processor::process_withdraw_single_token_type_exact_amount_out(p, amt, max_lp, a)),
        _ => unreachable!(),
    };
    exec(&mut w.bank, &Target::Func(&*f), metas)
}

pub fn c26(ctx: &Ctx) {
    let mut cs = vec![Curve::Product, Curve::Price { p: 3 }, Curve::Offset { off: 50 }, Curve::Stable { amp: 20 }];
    let n = if ctx.thorough { SMALL.len() } else { 2 };
    for p in &SMALL[..n] {
        cs.push(curve(&lin(p.0, p.1, p.2, p.3)));
    }
    cs.push(curve(&lin(1, 200_000_000, 1, 50)));
    let mut cfgs = cross(&cs, &[FEES[2], FEES[3], FEES[6]]);
    for c in &mut cfgs {
        if matches!(c.curve, Curve::Linear { .. }) {
            c.fee = NOFEE;
        }
    }
    cfgs.dedup();
    let l: &[u64] = if ctx.thorough { &[97, 1000, 12_345, 1_000_000_007, 1 << 40, 1 << 52] } else { &[97, 1000, 1_000_000_007, 1 << 40] };
    let mut pools = squares(if ctx.thorough { 6 } else { 2 }, l, &[50, 1_000_000_000]);
    // no pool tokens left
    pools.extend([(0, 0, 0), (1, 0, 0), (3, 5, 0), (1000, 97, 0), (1 << 40, 1_000_000_007, 0)]);
    let chunk = 12;
    let per = (pools.len() + chunk - 1) / chunk;
    let mut cases: Vec<(&str, fn(&mut World), u32)> = circumstances().into_iter().map(|c| (c.0, c.1, 0)).collect();
    // other addresses altogether, among them pools whose authority has a rare bump seed
    let bump = |salt: u32| Pubkey::find_program_address(&[&salted(salt, || key("swap0")).to_bytes()], &program_id()).1;
    for wanted in [255u8, 254, 252, 250] {
        if let Some(salt) = (1..100_000).find(|n| if wanted == 250 { bump(*n) <= 248 } else { bump(*n) == wanted }) {
            cases.push(("everything is at other addresses", |_| (), salt));
        }
    }
    par(ctx, cfgs.len() * per, |i, t| {
        let cfg = cfgs[i / per];
        let mut w = match World::new(cfg, 2, &start(&cfg.curve)) {
            Ok(w) => w,
            Err(e) => return ctx.violation("a valid pool cannot be initialized", json!({"cfg": cfg_json(&cfg), "error": format!("{:?}", e)})),
        };
        // a second pool's users: pool tokens of pool 1 for alice
        let lp1 = w.named("alice_lp_of1");
        // an untouched copy with each of the circumstances
        let mut others: Vec<World> = cases
            .iter()
            .map(|c| {
                let mut x = match c.2 {
                    0 => w.clone(),
                    salt => match salted(salt, || World::new(cfg, 1, &start(&cfg.curve))) {
                        Ok(x) => x,
                        Err(_) => w.clone(), // the pool cannot be created there: a matter for C09
                    },
                };
                let (u, p) = (x.users[ALICE], x.pools[0]);
                for i in [u.a, u.b] {
                    x.set(i, 1 << 62);
                }
                let _ = p;
                (c.1)(&mut x);
                x
            })
            .collect();
        for &pool in &pools[(i % per) * chunk..((i % per + 1) * chunk).min(pools.len())] {
            let (a, b, s) = pool;
            t.states += 1;
            let st = put(&mut w, pool);
            let mut am = vec![0, 1, 2, 5, 40, a / 3, b / 3, a.saturating_add(1), 1_000_003];
            am.sort();
            am.dedup();
            let lps = vec![1, s / 7, s / 3];
            for op in all_ops(&am, &lps) {
                t.transitions += 1;
                let base = match w.step(&st, &op) {
                    Ok(r) => r,
                    Err(e) => {
                        ctx.violation(&classify(&e), json!({"cfg": cfg_json(&cfg), "op": format!("{:?}", op), "what": e}));
                        continue;
                    }
                };
                if base.is_ok() {
                    t.traces += 1;
                }
                let want = base.as_ref().map(|q| effect(&w, 0, ALICE, &st, q)).map_err(|e| e.clone());
                let mut judge = |how: &str, got: Result<[i128; 8], Fail>| {
                    t.transitions += 1;
                    if got != want {
                        ctx.violation(
                            &format!("{}: another effect because {}", opname(&op), how),
                            json!({"cfg": cfg_json(&cfg), "pool": pool, "op": format!("{:?}", op), "because": how, "usual": format!("{:?}", want), "then": format!("{:?}", got),
                                "order": "vault A, vault B, supply, fee account, host, user's A, user's B, user's pool tokens"}),
                        );
                    }
                };
                for (k, c) in cases.iter().enumerate() {
                    let x = &mut others[k];
                    let (u, p) = (x.users[ALICE], x.pools[0]);
                    for (i, v) in [(p.va, a), (p.vb, b), (p.mint, s), (u.lp, s - s / 2), (p.fee, s / 2)] {
                        x.set(i, v);
                    }
                    let s0 = x.state();
                    let r = x.run(0, &op).map(|_| effect(x, 0, ALICE, &s0, &x.state()));
                    x.load(&s0);
                    judge(c.0, r);
                }
                // another user
                {
                    let bob = by(&op, BOB);
                    let mut s1 = st.clone();
                    let (x, y) = (w.users[ALICE], w.users[BOB]);
                    for (i, j) in [(x.a, y.a), (x.b, y.b), (x.lp, y.lp)] {
                        s1.swap(i, j);
                    }
                    w.load(&s1);
                    let r = w.run(0, &bob).map(|_| effect(&w, 0, BOB, &s1, &w.state()));
                    judge("another user asks for it", r);
                }
                // an exactly sufficient balance
                if let Ok(e) = &want {
                    let mut s1 = st.clone();
                    let x = w.users[ALICE];
                    for (i, k) in [(x.a, 5), (x.b, 6)] {
                        s1[i] = if e[k] < 0 { (-e[k]) as u64 } else { 0 };
                    }
                    w.load(&s1);
                    let r = w.run(0, &op).map(|_| effect(&w, 0, ALICE, &s1, &w.state()));
                    judge("the user has just enough", r);
                }
                // balances that are not the user's
                for (how, fee, host) in [("the fee and host accounts are rich", 1 << 50, 1 << 51), ("the fee and host accounts are empty", 0, 0)] {
                    let mut s1 = st.clone();
                    let (p, b) = (w.pools[0], w.users[BOB].lp);
                    s1[p.fee] = fee;
                    s1[w.host] = host;
                    s1[b] = fee;
                    w.load(&s1);
                    let r = w.run(0, &op).map(|_| effect(&w, 0, ALICE, &s1, &w.state()));
                    judge(how, r);
                }
                // all the pool tokens are the user's, or more than there can be
                if base.is_ok() {
                    for have in [s, u64::MAX / 2] {
                        let mut s1 = st.clone();
                        s1[w.pools[0].fee] = 0;
                        s1[w.users[ALICE].lp] = have;
                        w.load(&s1);
                        let r = w.run(0, &op).map(|_| effect(&w, 0, ALICE, &s1, &w.state()));
                        judge("the user has all the pool tokens", r);
                    }
                }
                // only the documented accounts are writable
                {
                    w.load(&st);
                    let ms = w.metas(0, &op);
                    let r = w.run_with(&op, &ms).map(|_| effect(&w, 0, ALICE, &st, &w.state()));
                    judge("only the documented accounts are writable", r);
                }
                // the processor called directly
                {
                    w.load(&st);
                    let ms = w.metas(0, &op);
                    let r = direct(&mut w, &op, &ms).map(|_| effect(&w, 0, ALICE, &st, &w.state()));
                    judge("the processor is called directly", r);
                    // and with an account nobody asked for at the end
                    if !matches!(op, Op::Swap { .. }) {
                        w.load(&st);
                        let mut ms = ms;
                        ms.push(m(w.host, false, true));
                        let r = w.run_with(&op, &ms).map(|_| effect(&w, 0, ALICE, &st, &w.state()));
                        judge("there is one more account", r);
                    }
                }
                let mut redirected = 0u64;
                // where what is paid out goes is the user's business
                if let Ok(q) = &base {
                    let (p, x, y) = (w.pools[0], w.users[ALICE], w.users[BOB]);
                    let pairs: Vec<(usize, usize)> = match op {
                        Op::Swap { a2b, host, .. } => {
                            let mut v = vec![if a2b { (x.b, y.b) } else { (x.a, y.a) }];
                            if host {
                                v.extend([(w.host, p.fee), (w.host, x.lp), (w.host, y.lp)]);
                            }
                            v
                        }
                        Op::DepAll { .. } | Op::DepOne { .. } => vec![(x.lp, p.fee), (x.lp, y.lp), (x.lp, w.host)],
                        Op::WdAll { .. } => vec![(x.a, y.a), (x.b, y.b)],
                        Op::WdOne { a, .. } => vec![if a { (x.a, y.a) } else { (x.b, y.b) }],
                        _ => vec![],
                    };
                    for (i, j) in pairs {
                        redirected += 1;
                        w.load(&st);
                        let mut ms = w.metas(0, &op);
                        for m in ms.iter_mut() {
                            if m.ix == i {
                                m.ix = j;
                            }
                        }
                        let mut e = q.clone();
                        let got = q[i] - st[i];
                        e[i] -= got;
                        e[j] += got;
                        let r = w.run_with(&op, &ms);
                        let now = w.state();
                        if r.is_err() || now != e {
                            ctx.violation(
                                &format!("{}: another effect because it is paid to another account", opname(&op)),
                                json!({"cfg": cfg_json(&cfg), "pool": pool, "op": format!("{:?}", op), "account": w.names[j], "usual": diff(&w, &st, &e), "then": format!("{:?} {}", r.err(), diff(&w, &st, &now))}),
                            );
                        }
                    }
                }
                // the same pool at another address
                if !matches!(op, Op::Swap { host: true, .. }) {
                    let mut s1 = st.clone();
                    let (p, q, u) = (w.pools[0], w.pools[1], w.users[ALICE]);
                    for (i, j) in [(p.va, q.va), (p.vb, q.vb), (p.mint, q.mint), (p.fee, q.fee), (u.lp, lp1)] {
                        s1.swap(i, j);
                    }
                    let keep = w.users[ALICE].lp;
                    w.users[ALICE].lp = lp1;
                    w.load(&s1);
                    let r = w.run(1, &op).map(|_| effect(&w, 1, ALICE, &s1, &w.state()));
                    w.users[ALICE].lp = keep;
                    judge("the pool is another one with the same terms and reserves", r);
                }
                t.transitions += redirected;
            }
        }
    });
    ctx.note("bounds", json!({"configurations": cfgs.len(), "pool_states": pools.len(), "circumstances": cases.iter().map(|c| c.0).collect::<Vec<_>>()}));
}

// ---------------------------------------------------------------- C27

pub fn c27(ctx: &Ctx) {
    let mut cs = vec![Curve::Product, Curve::Price { p: 1 }, Curve::Price { p: 7 }, Curve::Offset { off: 50 }, Curve::Stable { amp: 1 }, Curve::Stable { amp: 100 }];
    for p in SMALL {
        cs.push(curve(&lin(p.0, p.1, p.2, p.3)));
    }
    cs.push(curve(&lin(1, 200_000_000, 1, 50)));
    let fs = if ctx.thorough { FEES.to_vec() } else { vec![FEES[0], FEES[2], FEES[3], FEES[6]] };
    let mut fs = fs;
    fs.push(Fee { trade: (1, 4), owner: (0, 0), wd: (0, 0), host: (0, 0) });
    let cfgs = cross(&cs, &fs);
    let l: &[u64] = if ctx.thorough { &[97, 1000, 12_345, 1_000_000_007, 1 << 40, 1 << 52, BIG] } else { &[97, 1_000_000_007, 1 << 50] };
    let mut pools = squares(if ctx.thorough { 8 } else { 4 }, l, &[7, 1_000_000_000]);
    // all the pool tokens were burnt, and somebody donated
    pools.extend([(4, 9, 0), (97, 1000, 0), (1_000_000_007, 97, 0)]);
    pools.extend_from_slice(super::ledger::ODD);
    let top = if ctx.thorough { 20 } else { 9 };
    each(ctx, &cfgs, &pools, &|t, w, (a, b, s)| {
        let st = put(w, (a, b, s));
        let real = w.cfg.curve.real();
        let fees = w.cfg.fee.real();
        let mut am: Vec<u64> = (0..=top).collect();
        am.extend([a / 3, a, b / 3, b, 1_000_003, 1 << 45]);
        let mut lps: Vec<u64> = (0..=3).collect();
        lps.extend([s / 7, s / 3, s / 2]);
        if a.max(b) > 50 {
            am.extend(related(a, b, s));
            am.extend(shapes());
            lps.extend(related(a, b, s));
            lps.extend(shapes());
        }
        am.sort();
        am.dedup();
        lps.sort();
        lps.dedup();
        for op in all_ops(&am, &lps) {
            t.transitions += 1;
            let e = match w.step(&st, &op) {
                Err(e) => Err(e),
                Ok(r) => quoted(w, &real, &fees, &st, &op, r.as_ref()),
            };
            match e {
                Ok(true) => t.traces += 1,
                Ok(false) => {}
                Err(e) => ctx.violation(&format!("{}: {}", opname(&op), classify(&e)), json!({"cfg": cfg_json(&w.cfg), "state": show(w, &st), "op": format!("{:?}", op), "what": e})),
            }
        }
    });
    ctx.note("bounds", json!({"configurations": cfgs.len(), "pool_states": pools.len()}));
}

fn quoted(w: &World, c: &token_bonding_curve::curve::base::SwapCurve, f: &token_bonding_curve::curve::fees::Fees, s: &State, op: &Op, r: Result<&State, &Fail>) -> Result<bool, String> {
    let p = w.pools[0];
    let (a, b, sup) = (s[p.va] as u128, s[p.vb] as u128, s[p.mint] as u128);
    let safe = |g: &dyn Fn() -> Option<Vec<u128>>| std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).unwrap_or(None);
    let dir = |x: bool| if x { TradeDirection::AtoB } else { TradeDirection::BtoA };
    let limit = matches!(*op, Op::Swap { min: 1.., .. } | Op::DepAll { max_a: 0..=0xffff_ffff_ffff_fffe, .. } | Op::WdAll { min_a: 1.., .. } | Op::DepOne { min_lp: 1.., .. } | Op::WdOne { max_lp: 0..=0xffff_ffff_ffff_fffe, .. });
    let d = |q: &State, i: usize| q[i] as i128 - s[i] as i128;
    match *op {
        Op::Swap { a2b, amt, u, .. } => {
            let (vs, vd) = if a2b { (p.va, p.vb) } else { (p.vb, p.va) };
            let us = if a2b { (w.users[u].a, w.users[u].b) } else { (w.users[u].b, w.users[u].a) };
            let (rs, rd) = (s[vs] as u128, s[vd] as u128);
            let quote = safe(&|| c.swap(amt as u128, rs, rd, dir(a2b), f).map(|q| vec![q.source_amount_swapped, q.destination_amount_swapped, q.new_swap_source_amount, q.new_swap_destination_amount, q.trade_fee, q.owner_fee]));
            if let Some(q) = &quote {
                // the quote agrees with itself and with the fees of the pool
                if q[2] != rs.saturating_add(q[0]) || q[3].saturating_add(q[1]) != rd || q[0] > amt as u128 {
                    return Err(format!("the quote does not add up: {:?}", q));
                }
                if q[4] != fee(w.cfg.fee.trade, amt as u128) || q[5] != fee(w.cfg.fee.owner, amt as u128) {
                    return Err(format!("the quote states other fees: {:?}", q));
                }
            }
            match (r, quote) {
                (Ok(_), None) => Err("a swap went through that the library does not quote".into()),
                (Ok(t), Some(q)) => {
                    let want = [q[0] as i128, q[1] as i128];
                    if [d(t, vs), -d(t, vd)] != want || [-d(t, us.0), d(t, us.1)] != want {
                        return Err(format!("a swap did [{}], the quote was {:?}", diff(w, s, t), q));
                    }
                    Ok(true)
                }
                (Err(_), None) => Ok(false),
                // refused for the limit, for what the account holds, or because the owner's fee can not be converted
                (Err(_), Some(q)) => {
                    let conv = w.cfg.fee.owner.0 > 0;
                    let room = q[2] <= BIG as u128 && q[0] <= s[us.0] as u128 && q[1] <= (BIG - s[us.1]) as u128;
                    if !limit && !conv && room {
                        return Err(format!("a quoted swap is refused: {:?}", q));
                    }
                    Ok(false)
                }
            }
        }
        Op::DepAll { lp, u, .. } | Op::WdAll { lp, u, .. } => {
            let dep = matches!(op, Op::DepAll { .. });
            if sup == 0 {
                return Ok(false);
            }
            let wf = if dep { 0 } else { fee(w.cfg.fee.wd, lp as u128) };
            if wf > lp as u128 {
                return Ok(false);
            }
            let n = lp as u128 - wf;
            let up = if dep { RoundDirection::Ceiling } else { RoundDirection::Floor };
            let quote = safe(&|| c.calculator.pool_tokens_to_trading_tokens(n, sup, a, b, up).map(|x| vec![x.token_a_amount, x.token_b_amount]));
            match (r, quote) {
                (Ok(_), None) => Err("it went through without a conversion by the library".into()),
                (Ok(t), Some(q)) => {
                    let us = w.users[u];
                    let got = if dep { [-d(t, us.a), -d(t, us.b)] } else { [d(t, us.a), d(t, us.b)] };
                    let want = if dep { [q[0] as i128, q[1] as i128] } else { [q[0].min(a) as i128, q[1].min(b) as i128] };
                    if got != want {
                        return Err(format!("it moved [{}], the library converts to {:?}", diff(w, s, t), q));
                    }
                    Ok(true)
                }
                (Err(_), _) => Ok(false),
            }
        }
        Op::DepOne { a: side, amt, u, .. } => {
            if sup == 0 {
                return Ok(false);
            }
            if let Ok(t) = r {
                let us = w.users[u];
                let moved = if side { [-d(t, us.a), -d(t, us.b), d(t, p.va), d(t, p.vb)] } else { [-d(t, us.b), -d(t, us.a), d(t, p.vb), d(t, p.va)] };
                if moved != [amt as i128, 0, amt as i128, 0] {
                    return Err(format!("a deposit of {} moved [{}]", amt, diff(w, s, t)));
                }
            }
            let quote = safe(&|| c.deposit_single_token_type(amt as u128, a, b, sup, dir(side), f).map(|x| vec![x]));
            match (r, quote) {
                (Ok(_), None) => Err("a deposit went through that the library does not quote".into()),
                (Ok(t), Some(q)) if d(t, p.mint) != q[0] as i128 => Err(format!("a deposit minted {}, the library says {}", d(t, p.mint), q[0])),
                (Ok(_), Some(_)) => Ok(true),
                (Err(_), Some(q)) if !limit && allows_deposits(&w.cfg.curve) && q[0] > 0 && q[0] <= BIG as u128 - sup && s[p.va].max(s[p.vb]) <= 1 << 62 && amt <= 1 << 62 && q[0] <= (BIG - s[w.users[ALICE].lp]) as u128 => {
                    Err(format!("a deposit is refused that the library quotes at {}", q[0]))
                }
                (Err(_), _) => Ok(false),
            }
        }
        Op::WdOne { a: side, amt, u, .. } => {
            let ua = s[if side { w.users[u].a } else { w.users[u].b }];
            if let Ok(t) = r {
                let us = w.users[u];
                let moved = if side { [d(t, us.a), d(t, us.b), -d(t, p.va), -d(t, p.vb)] } else { [d(t, us.b), d(t, us.a), -d(t, p.vb), -d(t, p.va)] };
                if moved != [amt as i128, 0, amt as i128, 0] {
                    return Err(format!("a withdrawal of {} moved [{}]", amt, diff(w, s, t)));
                }
            }
            let quote = safe(&|| c.withdraw_single_token_type_exact_out(amt as u128, a, b, sup, dir(side), f).map(|x| vec![x]));
            match (r, quote) {
                (Ok(_), None) => Err("a withdrawal went through that the library does not quote".into()),
                (Ok(t), Some(q)) if -d(t, p.mint) != q[0] as i128 => Err(format!("a withdrawal burned {}, the library says {}", -d(t, p.mint), q[0])),
                (Ok(_), Some(_)) => Ok(true),
                (Err(_), Some(q)) if !limit && q[0] > 0 && q[0] <= BIG as u128 && q[0] + fee(w.cfg.fee.wd, q[0]) <= s[w.users[ALICE].lp] as u128 && amt <= (if side { s[p.va] } else { s[p.vb] }) && amt <= BIG - ua => Err(format!("a withdrawal is refused that the library quotes at {}", q[0])),
                (Err(_), _) => Ok(false),
            }
        }
        _ => Ok(false),
    }
}
