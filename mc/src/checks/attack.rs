//! C07: no substitution of accounts hurts anybody. C08: only the holder's (or delegate's) signature
//! moves a holder's tokens.
use super::common::*;
use super::ledger::BIG;
use super::linear_checks::{curve, lin};
use crate::model::*;
use crate::report::*;
use crate::svm::*;
use crate::world::*;
use serde_json::{json, Value};
use solana_program::{program_option::COption, pubkey::Pubkey};
use spl_token::state::{AccountState, Mint};
use token_bonding_curve::processor::Processor;

/// Two initialized pools over the same tokens plus everything an attacker could prepare.
pub struct Arena {
    pub w: World,
    pub state: State,
    pub cand: Vec<usize>,
    pub core: Vec<usize>,
}

fn owned_mint(auth: Pubkey, supply: u64) -> Vec<u8> {
    pack_mint(&Mint { mint_authority: COption::Some(auth), supply, decimals: 2, is_initialized: true, freeze_authority: COption::None })
}

pub fn arena(c0: Cfg, c1: Cfg) -> Result<Arena, Fail> {
    let lin = |c: &Cfg| matches!(c.curve, Curve::Linear { .. });
    let f = Funds { va: if lin(&c0) || lin(&c1) { 0 } else { 1000 }, vb: 1000, a: [0; 3], b: [0; 3] };
    let mut w = World::blank(c0, 2, &f);
    if !(lin(&c0) && lin(&c1)) {
        // each kind of pool wants its own initial amounts
        for (i, c) in [c0, c1].iter().enumerate() {
            let va = w.pools[i].va;
            w.set(va, if lin(c) { 0 } else { 1000 });
        }
    }
    for (i, c) in [c0, c1].iter().enumerate() {
        let dest = if i == 0 { w.users[ALICE].lp } else { w.named("alice_lp_of1") };
        let metas = w.init_metas(i, dest);
        let c = *c;
        exec(&mut w.bank, &Target::Func(&move |p, a| Processor::process_initialize(p, c.fee.real(), c.curve.real(), a, &None)), &metas)?;
    }
    let tid = spl_token::id();
    let sys = solana_program::system_program::id();
    let evil = key("evil");
    let (ka, kb, m0) = (w.k(w.mint_a), w.k(w.mint_b), w.k(w.pools[0].mint));
    let auth0 = w.k(w.pools[0].auth);
    let auth1 = w.k(w.pools[1].auth);
    let al = key("alice");
    let swap0 = w.bank.accts[w.pools[0].swap].data.clone();
    // look-alike pools
    w.add("copied_swap_of_foreign_program", key("x1"), evil, swap0.clone());
    let mut own_vaults = swap0.clone();
    own_vaults[1 + 34..1 + 66].copy_from_slice(&key("x5").to_bytes());
    own_vaults[1 + 66..1 + 98].copy_from_slice(&key("x6").to_bytes());
    w.add("edited_swap_of_foreign_program", key("x2"), evil, own_vaults);
    w.add("empty_swap", key("x3"), program_id(), vec![0; swap0.len()]);
    let mut un = swap0;
    un[1] = 0;
    w.add("uninitialized_swap", key("x4"), program_id(), un);
    // vault look-alikes
    w.add("other_a_of_authority0", key("x5"), tid, pack_tok(&tok(ka, auth0, 1 << 40)));
    w.add("other_b_of_authority0", key("x6"), tid, pack_tok(&tok(kb, auth0, 1 << 40)));
    w.add("other_a_of_authority1", key("x7"), tid, pack_tok(&tok(ka, auth1, 1 << 40)));
    w.add("pool_tokens_of_authority0", key("x8"), tid, pack_tok(&tok(m0, auth0, 1 << 40)));
    // worthless tokens
    w.add("fake_mint", key("x9"), tid, owned_mint(al, 1 << 50));
    w.add("alice_fake", key("x10"), tid, pack_tok(&tok(key("x9"), al, 1 << 40)));
    w.add("fake_of_authority0", key("x11"), tid, pack_tok(&tok(key("x9"), auth0, 1 << 40)));
    w.add("second_mint_of_authority0", key("x12"), tid, owned_mint(auth0, 1 << 50));
    w.add("alice_second", key("x13"), tid, pack_tok(&tok(key("x12"), al, 1 << 40)));
    // bytes of token accounts and mints that the token program never wrote
    w.add("forged_a_of_alice", key("x14"), evil, pack_tok(&tok(ka, al, 1 << 40)));
    w.add("forged_pool_mint", key("x15"), evil, owned_mint(auth0, 1));
    w.add("forged_token_program", evil, native_loader(), vec![]);
    w.add("alice_a2", key("x16"), tid, pack_tok(&tok(ka, al, 1 << 40)));
    w.add("nobody", key("x17"), sys, vec![]);
    let (p, q) = (w.pools[0], w.pools[1]);
    for (i, v) in [
        (p.va, if lin(&c0) { 500_000 } else { 1_000_003 }),
        (p.vb, 2_000_017),
        (q.va, if lin(&c1) { 400_000 } else { 7_000_009 }),
        (q.vb, 5_000_011),
        (p.mint, 1_000_000 + 3 * (1u64 << 40)),
        (q.mint, 1_000_000),
    ] {
        w.set(i, v);
    }
    for u in 0..3 {
        let x = w.users[u];
        w.set(x.a, 1 << 40);
        w.set(x.b, 1 << 40);
        w.set(x.lp, if u == OWNER { 1_000_000 - 300_000 } else { (1 << 40) + 100_000 });
    }
    let h = w.host;
    w.set(h, 200_000);
    let l1 = w.named("alice_lp_of1");
    w.set(l1, 1_000_000);
    let state = w.state();
    let cand: Vec<usize> = (0..w.bank.accts.len()).collect();
    let core = [
        "swap1", "authority1", "vault_a0", "vault_b0", "vault_a1", "vault_b1", "pool_mint1", "fee_account0", "alice", "authority0", "bob_a", "alice_b", "alice_a", "alice_lp",
        "bob_lp", "other_a_of_authority0", "pool_tokens_of_authority0", "alice_second", "alice_fake",
    ]
    .iter()
    .map(|n| w.named(n))
    .collect();
    Ok(Arena { w, state, cand, core })
}

/// The operation of an attacker who can sign for alice only. `picks` replaces account slots.
fn attack_metas(w: &World, honest: &[Meta], picks: &[(usize, usize)]) -> Vec<Meta> {
    let alice = w.users[ALICE].wallet;
    let mut v: Vec<Meta> = honest.to_vec();
    for &(slot, acc) in picks {
        v[slot].ix = acc;
    }
    for m in v.iter_mut() {
        m.signer = m.ix == alice;
        m.writable = true;
    }
    v
}

type Delta = (i128, i128, i128, i128);
fn delta(w: &World, s: &State, q: &State) -> Delta {
    let p = w.pools[0];
    let d = |i: usize| q[i] as i128 - s[i] as i128;
    (d(p.va), d(p.vb), d(p.mint), d(p.fee))
}

fn harmless(w: &World, s: &State, q: &State, op: &Op, metas: &[Meta], honest: &[Delta]) -> Result<(), String> {
    w.settle_last()?;
    let named = metas[0].ix;
    let pool = match w.pools.iter().position(|p| p.swap == named) {
        Some(i) => i,
        None => return Err(format!("{} was accepted as a pool", w.names[named])),
    };
    let al = w.k(w.users[ALICE].wallet);
    let np = w.pools[pool];
    for i in 0..s.len() {
        if q[i] < s[i] {
            let d = &w.bank.accts[i].data;
            let mine = d.len() == 165 && d[32..64] == al.to_bytes();
            let vault = i == np.va || i == np.vb;
            // burning is a decrease of the supply
            let supply = i == np.mint && matches!(op, Op::WdAll { .. } | Op::WdOne { .. });
            if !mine && !vault && !supply {
                return Err(format!("{} lost {}", w.names[i], s[i] - q[i]));
            }
        }
        if i != np.mint && w.bank.accts[i].data.len() == 82 && q[i] != s[i] {
            return Err(format!("the supply of {} changed", w.names[i]));
        }
    }
    if pool == 0 {
        let d = delta(w, s, q);
        if !honest.iter().any(|h| h.0 == d.0 && h.1 == d.1 && h.2 == d.2 && d.3 >= h.3) {
            return Err(format!("the pool changed by {:?} (A, B, pool tokens, fee account), honestly by one of {:?}", d, honest));
        }
    } else {
        return Err("an operation of one pool was accepted with the other pool's accounts".into());
    }
    Ok(())
}

fn attack_ops() -> Vec<Op> {
    vec![
        Op::Swap { u: ALICE, a2b: true, amt: 10_007, min: 0, host: false },
        Op::Swap { u: ALICE, a2b: false, amt: 10_007, min: 0, host: false },
        Op::Swap { u: ALICE, a2b: true, amt: 10_007, min: 0, host: true },
        Op::DepAll { u: ALICE, lp: 40_000_000_007, max_a: BIG, max_b: BIG },
        Op::WdAll { u: ALICE, lp: 40_000_000_007, min_a: 0, min_b: 0 },
        Op::DepOne { u: ALICE, a: true, amt: 10_007, min_lp: 0 },
        Op::DepOne { u: ALICE, a: false, amt: 10_007, min_lp: 0 },
        Op::WdOne { u: ALICE, a: true, amt: 1_009, max_lp: BIG },
        Op::WdOne { u: ALICE, a: false, amt: 1_009, max_lp: BIG },
    ]
}
fn reversed(op: &Op) -> Op {
    match *op {
        Op::Swap { u, a2b, amt, min, host } => Op::Swap { u, a2b: !a2b, amt, min, host },
        Op::DepOne { u, a, amt, min_lp } => Op::DepOne { u, a: !a, amt, min_lp },
        Op::WdOne { u, a, amt, max_lp } => Op::WdOne { u, a: !a, amt, max_lp },
        o => o,
    }
}

pub fn slot_sets(n: usize, k: usize, skip: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(from: usize, n: usize, k: usize, skip: &[usize], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            if !skip.contains(&i) {
                cur.push(i);
                go(i + 1, n, k - 1, skip, cur, out);
                cur.pop();
            }
        }
    }
    go(0, n, k, skip, &mut vec![], &mut out);
    out
}

pub fn c07(ctx: &Ctx) {
    let rich = Cfg { curve: Curve::Product, fee: FEES[2] };
    let other = Cfg { curve: Curve::Price { p: 3 }, fee: FEES[0] };
    let linear = Cfg { curve: curve(&lin(1, 1000, 1, 1)), fee: FEES[0] };
    let mut worlds = vec![(rich, other), (other, rich), (linear, rich)];
    if ctx.thorough {
        worlds.push((Cfg { curve: Curve::Offset { off: 5000 }, fee: FEES[3] }, linear));
        worlds.push((Cfg { curve: Curve::Stable { amp: 100 }, fee: FEES[2] }, other));
    }
    // (slots replaced, with all accounts or the core ones)
    let plans: &[(usize, bool)] = if ctx.thorough { &[(1, true), (2, true), (3, true), (4, false)] } else { &[(1, true), (2, true), (3, false)] };
    let mut jobs: Vec<(usize, Op, Vec<usize>, bool)> = vec![];
    for wi in 0..worlds.len() {
        for op in attack_ops() {
            let mut w = match arena(worlds[wi].0, worlds[wi].1) {
                Ok(a) => a,
                Err(e) => {
                    ctx.violation("a valid pool cannot be initialized", json!({"error": format!("{:?}", e), "cfg": cfg_json(&worlds[wi].0)}));
                    return;
                }
            };
            let n = w.w.metas(0, &op).len();
            // an operation this kind of pool refuses anyway needs no attack
            w.w.load(&w.state);
            if w.w.run(0, &op).is_err() {
                if !(matches!(worlds[wi].0.curve, Curve::Linear { .. }) || matches!(worlds[wi].0.curve, Curve::Offset { .. })) || matches!(op, Op::Swap { .. }) {
                    ctx.violation("the operation to be attacked does not work", json!({"cfg": cfg_json(&worlds[wi].0), "op": format!("{:?}", op)}));
                }
                continue;
            }
            // the host account is only reachable below the signature check
            let skip: &[usize] = if let Op::Swap { host: true, .. } = op { &[2] } else { &[] };
            for &(k, all) in plans {
                if k > 2 && (wi > 2 || !skip.is_empty()) {
                    continue;
                }
                for s in slot_sets(n, k, skip) {
                    jobs.push((wi, op, s, all));
                }
            }
        }
    }
    par(ctx, jobs.len(), |i, t| {
        let (wi, op, slots, all) = &jobs[i];
        let mut ar = match arena(worlds[*wi].0, worlds[*wi].1) {
            Ok(a) => a,
            Err(_) => return,
        };
        let s = ar.state.clone();
        let mut honest: Vec<Delta> = vec![];
        for o in [*op, reversed(op)] {
            if let Ok(Ok(q)) = ar.w.step(&s, &o) {
                honest.push(delta(&ar.w, &s, &q));
            }
        }
        let base = ar.w.metas(0, op);
        let cand = if *all { ar.cand.clone() } else { ar.core.clone() };
        let k = slots.len();
        let mut idx = vec![0usize; k];
        ar.w.load(&s);
        loop {
            let picks: Vec<(usize, usize)> = slots.iter().zip(&idx).map(|(sl, ci)| (*sl, cand[*ci])).collect();
            if picks.iter().all(|(sl, c)| base[*sl].ix != *c) {
                let metas = attack_metas(&ar.w, &base, &picks);
                t.transitions += 1;
                EVIL.with(|e| e.set(0));
                let r = ar.w.run_with(op, &metas);
                if r.is_ok() {
                    let q = ar.w.state();
                    t.traces += 1;
                    let mut bad = harmless(&ar.w, &s, &q, op, &metas, &honest);
                    if EVIL.with(|e| e.get()) > 0 {
                        bad = Err("a foreign token program was called".into());
                    }
                    if let Err(e) = bad {
                        let p: Vec<Value> = picks.iter().map(|(sl, c)| json!({"slot": sl, "account": ar.w.names[*c]})).collect();
                        ctx.violation(&format!("{}: {}", opname(op), classify(&e)), json!({"cfg": cfg_json(&worlds[*wi].0), "op": format!("{:?}", op), "substituted": p, "what": e}));
                    }
                    undo(&mut ar.w);
                }
            }
            let mut j = 0;
            while j < k {
                idx[j] += 1;
                if idx[j] < cand.len() {
                    break;
                }
                idx[j] = 0;
                j += 1;
            }
            if j == k {
                break;
            }
        }
        t.states += 1;
        if i % 499 == 0 {
            ctx.sample(json!({"pool": cfg_json(&worlds[*wi].0), "op": format!("{:?}", op), "substituted_slots": slots, "candidates": cand.len()}));
        }
    });
    impostors(ctx);
    ctx.note("bounds", json!({"pools": worlds.len(), "operations": 9, "substitution_plans(slots,all accounts)": plans}));
    ctx.assume("the attacker signs for one user only; the runtime model refuses privilege escalation and foreign data writes, as the real one does");
}

/// A whole second pool, consistent in itself, with one thing about it that makes it none: no
/// operation works with it.
fn impostors(ctx: &Ctx) {
    type Spoil = (&'static str, fn(&mut World));
    fn rec(w: &mut World) -> &mut Vec<u8> {
        let i = w.pools[1].swap;
        &mut w.bank.accts[i].data
    }
    fn retoken(w: &mut World, which: &[usize]) {
        for &i in which {
            w.bank.accts[i].owner = key("evil");
        }
    }
    let spoils: Vec<Spoil> = vec![
        ("record of a foreign program", |w| {
            let i = w.pools[1].swap;
            w.bank.accts[i].owner = key("evil");
        }),
        ("record of the system program", |w| {
            let i = w.pools[1].swap;
            w.bank.accts[i].owner = solana_program::system_program::id();
        }),
        ("record of the token program", |w| {
            let i = w.pools[1].swap;
            w.bank.accts[i].owner = spl_token::id();
        }),
        ("record not initialized", |w| rec(w)[1] = 0),
        ("record with another flag", |w| rec(w)[1] = 2),
        ("record without version", |w| rec(w)[0] = 0),
        ("record of version 2", |w| rec(w)[0] = 2),
        ("record with another bump seed", |w| rec(w)[2] ^= 1),
        ("record of an unknown curve", |w| rec(w)[291] = 5),
        ("record cut short", |w| {
            rec(w).pop();
        }),
        ("record too long", |w| rec(w).push(0)),
        ("record empty", |w| rec(w).clear()),
        ("record of another token program", |w| {
            let k = key("evil").to_bytes();
            rec(w)[3..35].copy_from_slice(&k);
        }),
        ("token accounts of another token program", |w| {
            let k = key("evil").to_bytes();
            rec(w)[3..35].copy_from_slice(&k);
            let all: Vec<usize> = (0..w.bank.accts.len()).filter(|i| w.bank.accts[*i].owner == spl_token::id()).collect();
            retoken(w, &all);
            w.token_prog = w.named("forged_token_program");
        }),
        ("vault A forged", |w| {
            let i = w.pools[1].va;
            retoken(w, &[i]);
        }),
        ("vault B forged", |w| {
            let i = w.pools[1].vb;
            retoken(w, &[i]);
        }),
        ("pool mint forged", |w| {
            let i = w.pools[1].mint;
            retoken(w, &[i]);
        }),
    ];
    let cs: Vec<Curve> = vec![Curve::Product, Curve::Price { p: 3 }, Curve::Stable { amp: 100 }, Curve::Offset { off: 5000 }, curve(&lin(1, 1000, 1, 1))];
    let jobs: Vec<(Curve, Option<usize>)> = cs.iter().flat_map(|c| (0..=spoils.len()).map(move |k| (*c, k.checked_sub(1)))).collect();
    par(ctx, jobs.len(), |i, t| {
        let (c, k) = jobs[i];
        let linear = matches!(c, Curve::Linear { .. });
        // (on the constant price the owner fee of such a swap would be too small for this pool)
        let cfg = Cfg { curve: c, fee: if linear || matches!(c, Curve::Price { .. }) { FEES[0] } else { FEES[2] } };
        for op in attack_ops() {
            let mut ar = match arena(Cfg { curve: Curve::Product, fee: FEES[2] }, cfg) {
                Ok(a) => a,
                Err(_) => return,
            };
            let w = &mut ar.w;
            w.load(&ar.state);
            w.users[ALICE].lp = w.named("alice_lp_of1");
            if let Some(k) = k {
                spoils[k].1(w);
            }
            let mut metas = w.metas(1, &op);
            if let Op::Swap { host: true, .. } = op {
                metas.pop();
            }
            let before = w.bank.clone();
            t.states += 1;
            t.transitions += 1;
            EVIL.with(|e| e.set(0));
            let op = match op {
                Op::WdAll { u, min_a, min_b, .. } => Op::WdAll { u, lp: 100_000, min_a, min_b },
                Op::DepAll { u, max_a, max_b, .. } => Op::DepAll { u, lp: 100_000, max_a, max_b },
                o => o,
            };
            let r = w.run_with(&op, &metas);
            let open = match op {
                Op::Swap { .. } => true,
                Op::DepAll { .. } | Op::DepOne { .. } => !linear && !matches!(c, Curve::Offset { .. }),
                _ => !linear,
            };
            let how = k.map(|k| spoils[k].0).unwrap_or("nothing wrong with it");
            let bad = if EVIL.with(|e| e.get()) > 0 {
                Some("a foreign token program was called".to_string())
            } else if r.is_ok() && k.is_some() && w.bank != before {
                Some(format!("a pool was accepted although: {}", how))
            } else if r.is_err() && k.is_none() && open {
                Some(format!("an honest operation is refused: {:?}", r))
            } else if r.is_err() && w.bank != before {
                Some("a refused operation changed something".to_string())
            } else {
                None
            };
            if let Some(e) = bad {
                ctx.violation(&format!("{}: {}", opname(&op), classify(&e)), json!({"cfg": cfg_json(&cfg), "op": format!("{:?}", op), "impostor": how, "what": e}));
            }
        }
    });
    ctx.note("impostors", json!({"ways": spoils.len(), "curves": cs.len()}));
}

/// take back the last successful transaction
pub fn undo(w: &mut World) {
    CHANGED.with(|ch| {
        for (i, old) in ch.borrow_mut().drain(..) {
            w.bank.accts[i].data = old;
        }
    });
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Copy, Debug, PartialEq)]
enum Who {
    Alice,
    Bob,
    Owner,
    Authority,
    Nobody,
}

/// What is required of the wallet: (source account, amount taken in this order)
fn takes(w: &World, op: &Op, s: &State, q: &State) -> Vec<(usize, Vec<u64>)> {
    let x = w.users[ALICE];
    let d = |i: usize| s[i] - q[i];
    match *op {
        Op::Swap { a2b, .. } => vec![(if a2b { x.a } else { x.b }, vec![d(if a2b { x.a } else { x.b })])],
        Op::DepAll { .. } => vec![(x.a, vec![d(x.a)]), (x.b, vec![d(x.b)])],
        Op::DepOne { a, .. } => vec![(if a { x.a } else { x.b }, vec![d(if a { x.a } else { x.b })])],
        Op::WdAll { .. } | Op::WdOne { .. } => {
            let burned = w.pools[0].mint;
            let b = s[burned] - q[burned];
            vec![(x.lp, vec![d(x.lp) - b, b])]
        }
        _ => vec![],
    }
}

fn set_delegate(w: &mut World, i: usize, who: Option<Pubkey>, amount: u64) {
    use solana_program::program_pack::Pack;
    let mut a = spl_token::state::Account::unpack(&w.bank.accts[i].data).unwrap();
    a.delegate = who.map(COption::Some).unwrap_or(COption::None);
    a.delegated_amount = amount;
    w.bank.accts[i].data = pack_tok(&a);
}
fn set_frozen(w: &mut World, i: usize, f: bool) {
    use solana_program::program_pack::Pack;
    let mut a = spl_token::state::Account::unpack(&w.bank.accts[i].data).unwrap();
    a.state = if f { AccountState::Frozen } else { AccountState::Initialized };
    w.bank.accts[i].data = pack_tok(&a);
}
fn set_owner(w: &mut World, i: usize, k: Pubkey) {
    w.bank.accts[i].data[32..64].copy_from_slice(&k.to_bytes());
}

pub fn c08(ctx: &Ctx) {
    let mut cfgs = vec![
        Cfg { curve: Curve::Product, fee: FEES[2] },
        Cfg { curve: Curve::Product, fee: FEES[0] },
        Cfg { curve: Curve::Price { p: 3 }, fee: FEES[3] },
        Cfg { curve: curve(&lin(1, 1000, 1, 1)), fee: FEES[0] },
        Cfg { curve: Curve::Offset { off: 50_000 }, fee: FEES[0] },
        Cfg { curve: Curve::Stable { amp: 100 }, fee: FEES[2] },
    ];
    if ctx.deep {
        for f in FEES {
            for c in [Curve::Product, Curve::Price { p: 1 }, Curve::Price { p: 1000 }, Curve::Offset { off: 1 }, Curve::Offset { off: 1 << 40 }, Curve::Stable { amp: 1 }, Curve::Stable { amp: 10_000 }, curve(&lin(1, 2, 1, 1)), curve(&lin(1, 1, 0, 1)), curve(&lin(1, 200_000_000, 1, 50))] {
                cfgs.push(Cfg { curve: c, fee: *f });
            }
        }
    }
    if ctx.thorough {
        for f in FEES.iter().skip(4).take(3) {
            for c in [Curve::Product, Curve::Price { p: 3 }, Curve::Stable { amp: 7 }] {
                cfgs.push(Cfg { curve: c, fee: *f });
            }
        }
    }
    let second = Cfg { curve: Curve::Price { p: 2 }, fee: FEES[0] };
    let ops: Vec<Op> = attack_ops().into_iter().filter(|o| !matches!(o, Op::Swap { host: true, .. })).collect();
    let jobs: Vec<(Cfg, Op)> = cfgs.iter().flat_map(|c| ops.iter().map(move |o| (*c, *o))).collect();
    par(ctx, jobs.len(), |i, t| {
        let (cfg, op) = jobs[i];
        let mut ar = match arena(cfg, second) {
            Ok(a) => a,
            Err(_) => {
                ctx.violation("a valid pool cannot be initialized", json!({"cfg": cfg_json(&cfg)}));
                return;
            }
        };
        let s = ar.state.clone();
        let w = &mut ar.w;
        let q = match w.step(&s, &op) {
            Ok(Ok(q)) => q,
            _ => return,
        };
        undo(w);
        w.load(&s);
        let pristine = w.bank.clone();
        let need = takes(w, &op, &s, &q);
        let x = w.users[ALICE];
        let who = [Who::Alice, Who::Bob, Who::Owner, Who::Authority, Who::Nobody];
        let pick = |w: &World, h: Who| match h {
            Who::Alice => w.users[ALICE].wallet,
            Who::Bob => w.users[BOB].wallet,
            Who::Owner => w.users[OWNER].wallet,
            Who::Authority => w.pools[0].auth,
            Who::Nobody => w.named("nobody"),
        };
        // every way to give the delegation of each source account
        let mut grants: Vec<Vec<(usize, Option<Who>, u64)>> = vec![vec![]];
        for (acct, amounts) in &need {
            let n: u64 = amounts.iter().sum();
            let mut g2 = vec![];
            for g in &grants {
                for d in [None, Some(Who::Bob), Some(Who::Authority)] {
                    for v in [0, 1, n - 1, n, n + 1, BIG] {
                        if d.is_none() && v > 0 {
                            continue;
                        }
                        let mut h = g.clone();
                        h.push((*acct, d, v));
                        g2.push(h);
                    }
                }
            }
            grants = g2;
        }
        // accounts: normal, one frozen, sources owned by somebody else
        let base = w.metas(0, &op);
        let touched: Vec<usize> = base.iter().map(|m| m.ix).filter(|i| w.bank.accts[*i].data.len() == 165).collect();
        let mut vars: Vec<(Option<usize>, Option<Who>)> = vec![(None, None)];
        for &f in &touched {
            vars.push((Some(f), None));
        }
        for o in [Who::Bob, Who::Authority, Who::Nobody] {
            vars.push((None, Some(o)));
        }
        for (fz, own) in &vars {
            for g in &grants {
                if (fz.is_some() || own.is_some()) && g.iter().any(|(_, d, v)| d.is_some() && *v != BIG && *v != 0) && !ctx.thorough {
                    continue;
                }
                w.bank = pristine.clone();
                for (a, d, v) in g {
                    let k = d.map(|d| w.k(pick(w, d)));
                    set_delegate(w, *a, k, *v);
                }
                if let Some(o) = own {
                    let k = w.k(pick(w, *o));
                    for (a, _) in &need {
                        set_owner(w, *a, k);
                    }
                }
                if let Some(a) = fz {
                    set_frozen(w, *a, true);
                }
                let start = w.bank.clone();
                for h in who {
                    for signed in [true, false] {
                        // the pool's own authority and nobody in particular can not sign
                        if signed && h == Who::Authority {
                            continue;
                        }
                        let wal = pick(w, h);
                        let mut metas = base.clone();
                        metas[2] = m(wal, signed, false);
                        // specified outcome
                        let mut ok = signed && fz.map(|f| !counts(w, &op, f, &q, &s)).unwrap_or(true);
                        let owner = own.unwrap_or(Who::Alice);
                        for (a, amounts) in &need {
                            let n: u64 = amounts.iter().sum();
                            let g = g.iter().find(|x| x.0 == *a).unwrap();
                            // the token program takes a signature of the delegate for that, even of the owner
                            let may = if g.1 == Some(h) { g.2 >= n } else { h == owner };
                            ok &= may;
                        }
                        t.transitions += 1;
                        w.bank = start.clone();
                        let r = w.run_with(&op, &wide(&metas));
                        let bad = match (&r, ok) {
                            (Ok(()), true) => {
                                t.traces += 1;
                                let n = w.state();
                                if n != q {
                                    Some(format!("the outcome depends on who signs: {}", diff(w, &q, &n)))
                                } else {
                                    None
                                }
                            }
                            (Err(_), false) => None,
                            (Ok(()), false) => Some("tokens were taken without the authority of their holder".to_string()),
                            (Err(e), true) => Some(format!("refused although the holder or its delegate signed: {:?}", e)),
                        };
                        if let Some(e) = bad {
                            ctx.violation(
                                &format!("{}: {}", opname(&op), classify(&e)),
                                json!({"cfg": cfg_json(&cfg), "op": format!("{:?}", op), "wallet": format!("{:?}", h), "signed": signed, "owner": format!("{:?}", owner),
                                "delegations": g.iter().map(|(a, d, v)| format!("{} to {:?}: {}", w.names[*a], d, v)).collect::<Vec<_>>(), "frozen": fz.map(|f| w.names[f].clone()), "what": e}),
                            );
                        }
                    }
                }
                t.states += 1;
            }
        }
        let _ = x;
        ctx.sample(json!({"cfg": cfg_json(&cfg), "op": format!("{:?}", op), "delegations": grants.len(), "account_variants": vars.len()}));
    });
    ctx.note("bounds", json!({"configurations": cfgs.len(), "operations": ops.len(), "wallets": 5}));
}

/// does this operation touch the account at all?
fn counts(w: &World, op: &Op, acct: usize, q: &State, s: &State) -> bool {
    let _ = (w, op);
    q[acct] != s[acct]
}
