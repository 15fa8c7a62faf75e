//! C09: a pool is created exactly when everything about it is right, and is recorded as given.
//! C10: its terms never change afterwards. C17: the constraints of a production deployment.
use super::attack::slot_sets;
use super::common::*;
use super::ledger::{histories, BIG};
use super::linear_checks::{curve, lin};
use crate::report::*;
use crate::svm::*;
use crate::world::*;
use serde_json::json;
use solana_program::{program_option::COption, pubkey::Pubkey};
use spl_token::state::{Account, AccountState, Mint};
use solana_program::program_pack::Pack;
use token_bonding_curve::constraints::SwapConstraints;
use token_bonding_curve::curve::base::CurveType;
use token_bonding_curve::processor::Processor;

pub struct Setup {
    pub w: World,
    pub pool: usize,
    pub metas: Vec<Meta>,
    pub fee: Fee,
    pub curve: Curve,
}

pub fn amounts_for(c: &Curve) -> (u64, u64) {
    match c {
        Curve::Linear { .. } => (0, 5),
        Curve::Price { .. } | Curve::Offset { .. } => (3, 0),
        _ => (3, 5),
    }
}

impl Setup {
    pub fn new(c: Curve, fee: Fee, pool: usize) -> Setup {
        let (va, vb) = amounts_for(&c);
        let mut w = World::blank(Cfg { curve: c, fee }, pool + 1, &Funds { va, vb, a: [0; 3], b: [0; 3] });
        w.add("evil_swap_program_token", key("evil"), native_loader(), vec![]);
        let dest = if pool == 0 { w.users[ALICE].lp } else { w.named(&format!("alice_lp_of{}", pool)) };
        let metas = w.init_metas(pool, dest);
        Setup { w, pool, metas, fee, curve: c }
    }
    fn p(&self) -> PoolIx {
        self.w.pools[self.pool]
    }
    fn dest(&self) -> usize {
        self.metas[6].ix
    }
    fn acct(&mut self, i: usize, f: impl Fn(&mut Account)) {
        // a fault may already have turned this into something else
        if let Ok(mut a) = Account::unpack_unchecked(&self.w.bank.accts[i].data) {
            f(&mut a);
            self.w.bank.accts[i].data = pack_tok(&a);
        }
    }
    fn mint(&mut self, f: impl Fn(&mut Mint)) {
        let i = self.p().mint;
        if let Ok(mut a) = Mint::unpack_unchecked(&self.w.bank.accts[i].data) {
            f(&mut a);
            self.w.bank.accts[i].data = pack_mint(&a);
        }
    }
    pub fn run(&mut self, entry: bool, constraints: &Option<SwapConstraints>) -> Result<(), Fail> {
        if entry {
            let f = self.fee.list();
            let d = match self.curve {
                Curve::Price { p } => {
                    let mut a = f.to_vec();
                    a.push(p);
                    ixdata("initialize_constant_price", &a)
                }
                Curve::Linear { sn, sd, pn, pd } => ixdata("initialize_linear_price", &[sn, sd, pn, pd]),
                _ => unreachable!(),
            };
            exec(&mut self.w.bank, &Target::Entry(&d), &self.metas)
        } else {
            let (fee, curve) = (self.fee, self.curve);
            exec(&mut self.w.bank, &Target::Func(&move |p, a| Processor::process_initialize(p, fee.real(), curve.real(), a, constraints)), &self.metas)
        }
    }
    /// the documented account layout
    pub fn record(&self) -> Vec<u8> {
        let p = self.p();
        let ks = self.w.k(p.swap);
        let (_, bump) = Pubkey::find_program_address(&[&ks.to_bytes()], &program_id());
        let mut v = vec![1u8, 1, bump];
        let held = |i: usize| Pubkey::new(&self.w.bank.accts[i].data[..32]);
        for k in [spl_token::id(), self.w.k(p.va), self.w.k(p.vb), self.w.k(p.mint), held(p.va), held(p.vb), self.w.k(self.metas[5].ix)] {
            v.extend_from_slice(&k.to_bytes());
        }
        for x in self.fee.list() {
            v.extend_from_slice(&x.to_le_bytes());
        }
        v.extend_from_slice(&self.curve.packed());
        v
    }
    /// after a successful initialization: the record, the initial pool tokens, and nothing else
    pub fn check_created(&self, before: &Bank) -> Result<(), String> {
        let p = self.p();
        for (i, (x, y)) in self.w.bank.accts.iter().zip(&before.accts).enumerate() {
            if x.owner != y.owner || x.lamports != y.lamports {
                return Err(format!("{} changed", self.w.names[i]));
            }
            if i == p.swap {
                let want = self.record();
                if x.data != want {
                    let at = (0..want.len().min(x.data.len())).find(|j| x.data[*j] != want[*j]);
                    return Err(format!("recorded wrongly (first at byte {:?})", at));
                }
            } else if i == p.mint || i == self.dest() {
                let o = if i == p.mint { 36 } else { 64 };
                let mut want = y.data.clone();
                want[o..o + 8].copy_from_slice(&1_000_000_000u64.to_le_bytes());
                if x.data != want {
                    return Err(format!("initial pool tokens are wrong in {}", self.w.names[i]));
                }
            } else if x.data != y.data {
                return Err(format!("{} changed", self.w.names[i]));
            }
        }
        Ok(())
    }
}

type Fault = (&'static str, fn(&mut Setup) -> bool);

/// Each makes the set-up unacceptable on its own; returns false where it does not apply.
pub fn faults() -> Vec<Fault> {
    fn forge(s: &mut Setup, i: usize) -> bool {
        s.w.bank.accts[i].owner = key("evil");
        true
    }
    fn raw(s: &mut Setup, i: usize, d: Vec<u8>) -> bool {
        s.w.bank.accts[i].data = d;
        true
    }
    fn clear(s: &mut Setup, i: usize) -> bool {
        let n = s.w.bank.accts[i].data.len();
        raw(s, i, vec![0; n])
    }
    fn mint_bytes(s: &Setup) -> Vec<u8> {
        s.w.bank.accts[s.w.mint_a].data.clone()
    }
    vec![
        ("pool account already in use", |s| {
            let d = s.record();
            let i = s.p().swap;
            raw(s, i, d)
        }),
        ("pool account in use with other bytes", |s| {
            let mut d = s.record();
            d[3] ^= 0xff;
            d[300] ^= 0xff;
            d[291] = 0;
            let i = s.p().swap;
            raw(s, i, d)
        }),
        ("pool account of another program", |s| {
            let i = s.p().swap;
            forge(s, i)
        }),
        ("pool account not writable", |s| {
            s.metas[0].writable = false;
            true
        }),
        ("pool account too short", |s| {
            let i = s.p().swap;
            raw(s, i, vec![0; 323])
        }),
        ("pool account too long", |s| {
            let i = s.p().swap;
            raw(s, i, vec![0; 325])
        }),
        ("pool account empty", |s| {
            let i = s.p().swap;
            raw(s, i, vec![])
        }),
        ("authority of another pool", |s| {
            let k = Pubkey::find_program_address(&[&key("another swap").to_bytes()], &program_id()).0;
            let i = s.w.add("other_authority", k, solana_program::system_program::id(), vec![]);
            s.metas[1].ix = i;
            true
        }),
        ("authority is a wallet", |s| {
            s.metas[1].ix = s.w.users[ALICE].wallet;
            true
        }),
        ("vault A owned by a user", |s| {
            let i = s.p().va;
            s.acct(i, |a| a.owner = key("alice"));
            true
        }),
        ("vault B owned by a user", |s| {
            let i = s.p().vb;
            s.acct(i, |a| a.owner = key("alice"));
            true
        }),
        ("vault A owned by the pool account itself", |s| {
            let i = s.p().va;
            let k = s.w.k(s.p().swap);
            s.acct(i, |a| a.owner = k);
            true
        }),
        ("destination owned by the pool authority", |s| {
            let i = s.dest();
            let k = s.w.k(s.p().auth);
            s.acct(i, |a| a.owner = k);
            true
        }),
        ("fee account owned by the pool authority", |s| {
            let i = s.p().fee;
            let k = s.w.k(s.p().auth);
            s.acct(i, |a| a.owner = k);
            true
        }),
        ("pool mint of a user", |s| {
            s.mint(|m| m.mint_authority = COption::Some(key("alice")));
            true
        }),
        ("pool mint without authority", |s| {
            s.mint(|m| m.mint_authority = COption::None);
            true
        }),
        ("vault B holds token A", |s| {
            let i = s.p().vb;
            let k = s.w.k(s.w.mint_a);
            s.acct(i, |a| a.mint = k);
            true
        }),
        ("one account for both vaults", |s| {
            s.metas[3].ix = s.metas[2].ix;
            true
        }),
        ("vault amounts the curve can not start with", |s| {
            let p = s.p();
            match s.curve {
                Curve::Linear { .. } => s.w.bank.accts[p.vb].data[64..72].fill(0),
                _ => s.w.bank.accts[p.va].data[64..72].fill(0),
            }
            true
        }),
        ("second vault amount the curve can not start with", |s| {
            let p = s.p();
            match s.curve {
                Curve::Linear { .. } => {
                    s.w.bank.accts[p.va].data[64] = 1;
                    true
                }
                Curve::Product | Curve::Stable { .. } => {
                    s.w.bank.accts[p.vb].data[64..72].fill(0);
                    true
                }
                _ => false,
            }
        }),
        ("vault A has a delegate", |s| {
            let i = s.p().va;
            s.acct(i, |a| {
                a.delegate = COption::Some(key("alice"));
                a.delegated_amount = 1
            });
            true
        }),
        ("vault B has a delegate", |s| {
            let i = s.p().vb;
            s.acct(i, |a| {
                a.delegate = COption::Some(key("alice"));
                a.delegated_amount = 1
            });
            true
        }),
        ("vault A has a delegate for nothing yet", |s| {
            let i = s.p().va;
            s.acct(i, |a| a.delegate = COption::Some(key("alice")));
            true
        }),
        ("vault A has a close authority", |s| {
            let i = s.p().va;
            s.acct(i, |a| a.close_authority = COption::Some(key("alice")));
            true
        }),
        ("vault B has a close authority", |s| {
            let i = s.p().vb;
            s.acct(i, |a| a.close_authority = COption::Some(key("alice")));
            true
        }),
        ("pool tokens exist already", |s| {
            s.mint(|m| m.supply = 1);
            true
        }),
        ("pool mint can be frozen", |s| {
            s.mint(|m| m.freeze_authority = COption::Some(key("alice")));
            true
        }),
        ("pool mint can be frozen by the pool", |s| {
            let k = s.w.k(s.p().auth);
            s.mint(|m| m.freeze_authority = COption::Some(k));
            true
        }),
        ("fee account of another token", |s| {
            let i = s.p().fee;
            let k = s.w.k(s.w.mint_b);
            s.acct(i, |a| a.mint = k);
            true
        }),
        ("destination of another token", |s| {
            let i = s.dest();
            let k = s.w.k(s.w.mint_b);
            s.acct(i, |a| a.mint = k);
            true
        }),
        ("destination frozen", |s| {
            let i = s.dest();
            s.acct(i, |a| a.state = AccountState::Frozen);
            true
        }),
        ("trade fee of everything", |s| {
            let lin = matches!(s.curve, Curve::Linear { .. });
            if !lin {
                s.fee.trade = (3, 3);
            }
            !lin
        }),
        ("owner fee of more than everything", |s| {
            let lin = matches!(s.curve, Curve::Linear { .. });
            if !lin {
                s.fee.owner = (4, 3);
            }
            !lin
        }),
        ("withdrawal fee without denominator", |s| {
            let lin = matches!(s.curve, Curve::Linear { .. });
            if !lin {
                s.fee.wd = (1, 0);
            }
            !lin
        }),
        ("host fee of everything", |s| {
            let lin = matches!(s.curve, Curve::Linear { .. });
            if !lin {
                s.fee.host = (BIG, BIG);
            }
            !lin
        }),
        ("curve parameters", |s| match &mut s.curve {
            Curve::Price { p } => {
                *p = 0;
                true
            }
            Curve::Offset { off } => {
                *off = 0;
                true
            }
            Curve::Linear { sn, .. } => {
                *sn = 0;
                true
            }
            _ => false,
        }),
        ("curve parameters (slope denominator)", |s| match &mut s.curve {
            Curve::Linear { sd, .. } => {
                *sd = 0;
                true
            }
            _ => false,
        }),
        ("curve parameters (price denominator)", |s| match &mut s.curve {
            Curve::Linear { pd, .. } => {
                *pd = 0;
                true
            }
            _ => false,
        }),
        ("curve parameters (slope too small)", |s| match &mut s.curve {
            Curve::Linear { sn, sd, .. } => {
                *sn = 1;
                *sd = 1_000_000_000_000_000_001;
                true
            }
            _ => false,
        }),
        ("foreign token program", |s| {
            s.metas[7].ix = s.w.named("evil_swap_program_token");
            true
        }),
        ("foreign token program owning all accounts", |s| {
            s.metas[7].ix = s.w.named("evil_swap_program_token");
            for a in s.w.bank.accts.iter_mut() {
                if a.owner == spl_token::id() {
                    a.owner = key("evil");
                }
            }
            true
        }),
        ("vault A forged", |s| {
            let i = s.p().va;
            forge(s, i)
        }),
        ("vault B forged", |s| {
            let i = s.p().vb;
            forge(s, i)
        }),
        ("pool mint forged", |s| {
            let i = s.p().mint;
            forge(s, i)
        }),
        ("fee account forged", |s| {
            let i = s.p().fee;
            forge(s, i)
        }),
        ("destination forged", |s| {
            let i = s.dest();
            forge(s, i)
        }),
        ("vault A is not a token account", |s| {
            let (i, d) = (s.p().va, mint_bytes(s));
            raw(s, i, d)
        }),
        ("vault A uninitialized", |s| {
            let i = s.p().va;
            clear(s, i)
        }),
        ("vault B uninitialized", |s| {
            let i = s.p().vb;
            clear(s, i)
        }),
        ("pool mint uninitialized", |s| {
            let i = s.p().mint;
            clear(s, i)
        }),
        ("fee account uninitialized", |s| {
            let i = s.p().fee;
            clear(s, i)
        }),
        ("destination uninitialized", |s| {
            let i = s.dest();
            clear(s, i)
        }),
        ("fee account is a mint", |s| {
            let (i, d) = (s.p().fee, mint_bytes(s));
            raw(s, i, d)
        }),
        ("pool mint is a token account", |s| {
            let d = s.w.bank.accts[s.p().va].data.clone();
            let i = s.p().mint;
            raw(s, i, d)
        }),
        ("pool mint not writable", |s| {
            s.metas[4].writable = false;
            true
        }),
        ("destination not writable", |s| {
            s.metas[6].writable = false;
            // the same account may be named writable elsewhere
            true
        }),
        ("an account is missing", |s| {
            s.metas.pop();
            true
        }),
    ]
}

pub const CURVES: [Curve; 5] = [
    Curve::Product,
    Curve::Price { p: 3 },
    Curve::Stable { amp: 85 },
    Curve::Offset { off: 9 },
    Curve::Linear { sn: 1, sd: 200_000_000, pn: 1, pd: 50 },
];

fn report(ctx: &Ctx, s: &Setup, what: &str, how: &[&str], entry: bool) {
    ctx.violation(
        &classify(what),
        json!({"curve": format!("{:?}", s.curve), "fees": format!("{:?}", s.fee), "pool": s.pool, "faults": how, "through_entry_point": entry, "what": what}),
    );
}
pub fn entries(c: &Curve) -> &'static [bool] {
    if matches!(c, Curve::Price { .. } | Curve::Linear { .. }) && !cfg!(feature = "prod") {
        &[false, true]
    } else {
        &[false]
    }
}

pub fn c09(ctx: &Ctx) {
    let fs = faults();
    let depth = if ctx.thorough { 4 } else { 2 };
    let mut jobs: Vec<(usize, Vec<usize>)> = vec![];
    for c in 0..CURVES.len() {
        for k in 0..=depth {
            for set in slot_sets(fs.len(), k, &[]) {
                jobs.push((c, set));
            }
        }
    }
    let chunk = 256;
    par(ctx, (jobs.len() + chunk - 1) / chunk, |ch, t| {
        for (c, set) in &jobs[ch * chunk..((ch + 1) * chunk).min(jobs.len())] {
            // different pool accounts have different bump seeds
            for pool in if set.is_empty() { vec![0, 1, 2, 3, 4, 5, 6, 7, 8] } else { vec![set.len() % 3] } {
                for &entry in entries(&CURVES[*c]) {
                    let fee = if matches!(CURVES[*c], Curve::Linear { .. }) { NOFEE } else { FEES[2] };
                    let mut s = Setup::new(CURVES[*c], fee, pool);
                    let mut names = vec![];
                    for &f in set {
                        if (fs[f].1)(&mut s) {
                            names.push(fs[f].0);
                        }
                    }
                    // the instruction of the linear curve has no fees
                    let mut before = s.w.bank.clone();
                    t.states += 1;
                    t.transitions += 1;
                    let want = names.is_empty();
                    EVIL.with(|e| e.set(0));
                    match s.run(entry, &None) {
                        Ok(()) if want => {
                            t.traces += 1;
                            if let Err(e) = s.check_created(&before) {
                                report(ctx, &s, &e, &names, entry);
                            }
                            // once only
                            before = s.w.bank.clone();
                            t.transitions += 1;
                            if s.run(entry, &None).is_ok() || s.w.bank != before {
                                report(ctx, &s, "initialized twice", &names, entry);
                            }
                        }
                        Ok(()) => report(ctx, &s, &format!("initialized although: {}", names.join(", ")), &names, entry),
                        Err(e) if want => report(ctx, &s, &format!("a valid pool is refused: {:?}", e), &names, entry),
                        Err(_) => {
                            if s.w.bank != before {
                                report(ctx, &s, "a refused initialization changed something", &names, entry);
                            }
                        }
                    }
                    if EVIL.with(|e| e.get()) > 0 {
                        report(ctx, &s, "called a foreign token program", &names, entry);
                    }
                }
            }
            // signer of the pool account: only the entry point asks for it
            if set.len() <= 1 {
                for &entry in entries(&CURVES[*c]) {
                    if entry {
                        let mut s = Setup::new(CURVES[*c], NOFEE, 0);
                        for &f in set {
                            (fs[f].1)(&mut s);
                        }
                        s.metas[0].signer = false;
                        t.transitions += 1;
                        if s.run(true, &None).is_ok() {
                            report(ctx, &s, "initialized without the signature of the pool account", &[], true);
                        }
                    }
                }
            }
        }
    });
    fee_grid(ctx);
    curve_grid(ctx);
    supply_grid(ctx);
    let keys = key_grid(ctx);
    ctx.note("key_grid", json!({"set-ups": keys, "what": "every key in every place of the accounts that holds one, every account in every place of the account list"}));
    ctx.note("bounds", json!({"curves": CURVES.len(), "faults": fs.len(), "all_combinations_of_up_to": depth, "combinations": jobs.len()}));
}

fn valid_fraction(f: (u64, u64)) -> bool {
    f == (0, 0) || f.0 < f.1
}
/// initialize with these terms; success exactly when `want`
fn expect(ctx: &Ctx, t: &mut Tally, mut s: Setup, want: bool, entry: bool, what: &str) {
    let before = s.w.bank.clone();
    t.transitions += 1;
    match s.run(entry, &None) {
        Ok(()) if want => {
            t.traces += 1;
            if let Err(e) = s.check_created(&before) {
                report(ctx, &s, &e, &[], entry);
            }
        }
        Ok(()) => report(ctx, &s, &format!("accepted invalid {}", what), &[], entry),
        Err(e) if want => report(ctx, &s, &format!("refused valid {}: {:?}", what, e), &[], entry),
        Err(_) => {
            if s.w.bank != before {
                report(ctx, &s, "a refused initialization changed something", &[], entry);
            }
        }
    }
}

fn fee_grid(ctx: &Ctx) {
    let v: Vec<u64> = if ctx.deep { vec![0, 1, 2, 3, 4, 9, 10, 255, 256, 10_000, 1 << 31, 1 << 32, 1 << 63, BIG - 2, BIG - 1, BIG] } else if ctx.thorough { vec![0, 1, 2, 3, 10, 1 << 32, BIG - 1, BIG] } else { vec![0, 1, 2, BIG - 1, BIG] };
    let mut fr = vec![];
    for &n in &v {
        for &d in &v {
            fr.push((n, d));
        }
    }
    let mut jobs = vec![];
    for i in 0..4 {
        for j in i + 1..4 {
            for &x in &fr {
                jobs.push((i, j, x));
            }
        }
    }
    par(ctx, jobs.len(), |k, t| {
        let (i, j, x) = jobs[k];
        for &y in &fr {
            for good in [(0u64, 0u64), (1, 7)] {
                let mut f = [good; 4];
                f[i] = x;
                f[j] = y;
                let fee = Fee { trade: f[0], owner: f[1], wd: f[2], host: f[3] };
                let want = f.iter().all(|x| valid_fraction(*x));
                t.states += 1;
                for c in [Curve::Price { p: 2 }, Curve::Product] {
                    for &entry in entries(&c) {
                        expect(ctx, t, Setup::new(c, fee, 0), want, entry, "fees");
                    }
                }
            }
        }
    });
    // one fraction alone, over numbers of every size and shape
    let l = numbers(ctx);
    par(ctx, l.len(), |k, t| {
        let n = l[k];
        for &d in l.iter().chain(&related(n, 0, 0)) {
            for i in 0..4 {
                let mut f = [(0u64, 0u64), (1, 7), (3, 1000), (1, 2)];
                f[i] = (n, d);
                let fee = Fee { trade: f[0], owner: f[1], wd: f[2], host: f[3] };
                t.states += 1;
                expect(ctx, t, Setup::new(Curve::Product, fee, 0), valid_fraction((n, d)), false, "fees");
                expect(ctx, t, Setup::new(Curve::Price { p: 2 }, fee, 0), valid_fraction((n, d)), true, "fees");
            }
        }
    });
}

/// numbers of every size and shape
fn numbers(ctx: &Ctx) -> Vec<u64> {
    let mut l = thin(&lattice(3, false), if ctx.deep { 1 } else { 2 });
    l.extend(shapes());
    l.sort();
    l.dedup();
    l
}

fn curve_grid(ctx: &Ctx) {
    let l = lattice(3, false);
    let mut v: Vec<(Curve, bool)> = vec![];
    for &x in &l {
        v.push((Curve::Price { p: x }, x != 0));
        v.push((Curve::Offset { off: x }, x != 0));
        v.push((Curve::Stable { amp: x }, true));
    }
    let e18 = 1_000_000_000_000_000_000u64;
    let p: Vec<u64> = if ctx.thorough {
        vec![0, 1, 2, 3, 7, 10, 1000, 1 << 32, e18 - 1, e18, e18 + 1, 2 * e18, 2 * e18 + 1, 7 * e18, 7 * e18 + 1, BIG - 1, BIG]
    } else {
        vec![0, 1, 2, 1000, e18 - 1, e18, e18 + 1, 2 * e18 + 1, BIG]
    };
    for &sn in &p {
        for &sd in &p {
            for &pn in &p {
                for &pd in &p {
                    let ok = sn != 0 && sd != 0 && pd != 0 && sd as u128 <= sn as u128 * e18 as u128;
                    v.push((Curve::Linear { sn, sd, pn, pd }, ok));
                }
            }
        }
    }
    let l = numbers(ctx);
    for &x in &l {
        for y in l.iter().cloned().chain(related(x, 0, 0)) {
            for (pn, pd) in [(0, 1), (7, 1000)] {
                v.push((Curve::Linear { sn: x, sd: y, pn, pd }, x != 0 && y != 0 && y as u128 <= x as u128 * e18 as u128));
            }
            for (sn, sd) in [(1, 1), (3, 1_000_003)] {
                v.push((Curve::Linear { sn, sd, pn: x, pd: y }, y != 0));
            }
        }
    }
    par(ctx, v.len(), |k, t| {
        let (c, ok) = v[k];
        t.states += 1;
        for &entry in entries(&c) {
            expect(ctx, t, Setup::new(c, NOFEE, 0), ok, entry, "curve parameters");
        }
    });
}

fn supply_grid(ctx: &Ctx) {
    let mut v = vec![0u64, 1, 2, 3, 1 << 32];
    v.extend(shapes().iter().step_by(if ctx.deep { 1 } else { 2 }));
    v.push(BIG);
    let jobs: Vec<Curve> = CURVES.iter().cloned().chain([Curve::Price { p: BIG }, Curve::Offset { off: BIG }, Curve::Stable { amp: 0 }, curve(&lin(1, 1, 0, 1))]).collect();
    par(ctx, jobs.len(), |k, t| {
        let c = jobs[k];
        for &a in &v {
            for &b in &v {
                for &entry in entries(&c) {
                    let mut s = Setup::new(c, NOFEE, 0);
                    let p = s.p();
                    s.w.set(p.va, a);
                    s.w.set(p.vb, b);
                    let ok = match c {
                        Curve::Linear { .. } => a == 0 && b > 0,
                        Curve::Price { .. } | Curve::Offset { .. } => a > 0,
                        _ => a > 0 && b > 0,
                    };
                    t.states += 1;
                    expect(ctx, t, s, ok, entry, "initial amounts");
                }
            }
        }
    });
}

/// Every key there is, in every place a key can be.
fn key_grid(ctx: &Ctx) -> usize {
    let n = Setup::new(Curve::Product, NOFEE, 1).w.bank.accts.len();
    let all = |s: &Setup| -> Vec<Pubkey> {
        let mut v: Vec<Pubkey> = s.w.bank.accts.iter().map(|a| a.key).collect();
        v.extend([Pubkey::default(), program_id(), key("minter"), key("host"), key("evil"), key("unseen"), solana_program::system_program::id()]);
        v.sort();
        v.dedup();
        v
    };
    let nkeys = all(&Setup::new(Curve::Product, NOFEE, 1)).len();
    let jobs: Vec<(usize, usize)> = (0..CURVES.len()).flat_map(|c| (0..nkeys.max(n)).map(move |k| (c, k))).collect();
    par(ctx, jobs.len(), |i, t| {
        let (c, k) = jobs[i];
        let fresh = || Setup::new(CURVES[c], if matches!(CURVES[c], Curve::Linear { .. }) { NOFEE } else { FEES[2] }, 1);
        for &entry in entries(&CURVES[c]) {
            let s0 = fresh();
            let p = s0.p();
            let (auth, mint, ma, mb) = (s0.w.k(p.auth), s0.w.k(p.mint), s0.w.k(s0.w.mint_a), s0.w.k(s0.w.mint_b));
            let dest = s0.dest();
            if let Some(&x) = all(&s0).get(k) {
                let mut put = |what: &str, want: bool, f: &dyn Fn(&mut Setup)| {
                    let mut s = fresh();
                    f(&mut s);
                    t.states += 1;
                    expect(ctx, t, s, want, entry, what);
                };
                for (v, vm, om) in [(p.va, ma, mb), (p.vb, mb, ma)] {
                    put("owner of a vault", x == auth, &|s| s.acct(v, |a| a.owner = x));
                    for n in [0, 1, BIG] {
                        put("vault with a delegate", false, &|s| {
                            s.acct(v, |a| {
                                a.delegate = COption::Some(x);
                                a.delegated_amount = n
                            })
                        });
                    }
                    put("vault with a close authority", false, &|s| s.acct(v, |a| a.close_authority = COption::Some(x)));
                    if x != mint {
                        put("mints of the vaults", x != om || x == vm, &|s| s.acct(v, |a| a.mint = x));
                    }
                }
                put("freeze authority", false, &|s| s.mint(|m| m.freeze_authority = COption::Some(x)));
                put("mint authority", x == auth, &|s| s.mint(|m| m.mint_authority = COption::Some(x)));
                for o in [p.fee, dest] {
                    put("owner of the fee or destination account", x != auth, &|s| s.acct(o, |a| a.owner = x));
                    put("token of the fee or destination account", x == mint, &|s| s.acct(o, |a| a.mint = x));
                    // what has no bearing on the pool
                    put("delegate of the fee or destination account", true, &|s| s.acct(o, |a| a.delegate = COption::Some(x)));
                    put("close authority of the fee or destination account", true, &|s| s.acct(o, |a| a.close_authority = COption::Some(x)));
                }
            }
            if k < n {
                for slot in 0..8 {
                    let mut s = fresh();
                    let same = s.metas[slot].ix == k;
                    let a = &s.w.bank.accts[k];
                    let pool_tokens = a.owner == spl_token::id() && a.data.len() == 165 && a.data[..32] == mint.to_bytes() && a.data[32..64] != auth.to_bytes();
                    s.metas[slot].ix = k;
                    t.states += 1;
                    expect(ctx, t, s, same || (pool_tokens && (slot == 5 || slot == 6)), entry, &format!("account in place {}", slot));
                }
            }
        }
    });
    jobs.len()
}

// ---------------------------------------------------------------- C10

/// Whatever happens to a pool, its record stays, and it cannot be initialized again.
pub fn c10(ctx: &Ctx) {
    let cs = [
        Curve::Product,
        Curve::Price { p: 1 },
        Curve::Price { p: 3 },
        Curve::Offset { off: 4 },
        Curve::Stable { amp: 10 },
        curve(&lin(1, 1, 1, 1)),
        curve(&lin(1, 2, 1, 1)),
    ];
    let depth = if ctx.thorough { 5 } else { 4 };
    // along all histories the record is constant (World::step) and so is the set of accounts
    let terms = |e: &Edge| -> Result<(), String> {
        let p = e.w.pools[0];
        let d = &e.w.bank.accts[p.swap].data;
        if d[0] != 1 || d[1] != 1 {
            return Err("the pool is not initialized any more".into());
        }
        let mut want = vec![];
        for x in e.w.cfg.fee.list() {
            want.extend_from_slice(&x.to_le_bytes());
        }
        want.extend_from_slice(&e.w.cfg.curve.packed());
        if d[3 + 7 * 32..] != want[..] {
            return Err("the terms of the pool changed".into());
        }
        Ok(())
    };
    histories(ctx, &cs, &[FEES[0], FEES[3]], depth, &terms);
    // and in one operation of any size from states of every size
    super::ledger::wide(ctx, &super::ledger::cross(&cs, &[FEES[0], FEES[3]]), &|_, e| terms(e));
    // attempts to initialize it again with every other kind of terms, in many states
    let states: Vec<(u64, u64, u64)> = vec![(0, 0, 0), (3, 5, 0), (0, 5, 0), (0, 5, 1_000_000_000), (3, 0, 1_000_000_000), (1000, 1000, 7), (1 << 40, 1 << 41, 1 << 50)];
    let others: Vec<Curve> = CURVES.iter().cloned().chain(cs.iter().cloned()).collect();
    // the terms it was created with: every kind of fees and the extremes of each curve
    let none = Fee { trade: (0, 0), owner: (0, 0), wd: (0, 0), host: (0, 0) };
    let most = Fee { trade: (BIG - 1, BIG), owner: (BIG - 1, BIG), wd: (BIG - 1, BIG), host: (BIG - 1, BIG) };
    let mut olds: Vec<(Curve, Fee)> = cs.iter().map(|c| (*c, FEES[3])).collect();
    for c in CURVES.iter().cloned().chain([Curve::Price { p: BIG }, Curve::Stable { amp: 0 }, Curve::Stable { amp: BIG }, Curve::Offset { off: BIG }, Curve::Linear { sn: BIG, sd: BIG, pn: BIG, pd: BIG }]) {
        for f in [none, NOFEE, most] {
            olds.push((c, f));
        }
        for i in 0..4 {
            let mut f = [(1, 7); 4];
            f[i] = (0, 0);
            olds.push((c, Fee { trade: f[0], owner: f[1], wd: f[2], host: f[3] }));
        }
    }
    let jobs: Vec<((Curve, Fee), (u64, u64, u64))> = olds.iter().flat_map(|c| states.iter().map(move |s| (*c, *s))).collect();
    par(ctx, jobs.len(), |i, t| {
        let ((c, old), (a, b, lp)) = jobs[i];
        for &n in &others {
            for (fee, same) in [(FEES[0], true), (FEES[2], true), (FEES[0], false)] {
                for &entry in entries(&n) {
                    for swapped in [false, true] {
                        let mut s = Setup::new(c, old, 0);
                        let before = s.w.bank.clone();
                        if let Err(e) = s.run(false, &None) {
                            report(ctx, &s, &format!("a valid pool is refused: {:?}", e), &[], false);
                            return;
                        }
                        if let Err(e) = s.check_created(&before) {
                            report(ctx, &s, &e, &[], false);
                            return;
                        }
                        let p = s.p();
                        s.w.set(p.va, a);
                        s.w.set(p.vb, b);
                        s.w.set(p.mint, lp);
                        let l = s.w.users[ALICE].lp;
                        s.w.set(l, lp);
                        s.curve = n;
                        s.fee = fee;
                        if !same {
                            // a fresh mint and fresh vaults of the same authority
                            let auth = s.w.k(p.auth);
                            let (va, vb) = amounts_for(&n);
                            let mi = pack_mint(&Mint { mint_authority: COption::Some(auth), supply: 0, decimals: 2, is_initialized: true, freeze_authority: COption::None });
                            let (ka, kb) = (s.w.k(s.w.mint_a), s.w.k(s.w.mint_b));
                            let t = spl_token::id();
                            let x = s.w.add("new_mint", key("new_mint"), t, mi);
                            let ya = s.w.add("new_va", key("new_va"), t, pack_tok(&tok(ka, auth, va)));
                            let yb = s.w.add("new_vb", key("new_vb"), t, pack_tok(&tok(kb, auth, vb)));
                            let f = s.w.add("new_fee", key("new_fee"), t, pack_tok(&tok(key("new_mint"), key("alice"), 0)));
                            let d = s.w.add("new_dest", key("new_dest"), t, pack_tok(&tok(key("new_mint"), key("alice"), 0)));
                            for (k, v) in [(2, ya), (3, yb), (4, x), (5, f), (6, d)] {
                                s.metas[k].ix = v;
                            }
                        }
                        if swapped {
                            let k = s.metas[2].ix;
                            s.metas[2].ix = s.metas[3].ix;
                            s.metas[3].ix = k;
                        }
                        let before = s.w.bank.clone();
                        t.transitions += 2;
                        t.states += 1;
                        if s.run(entry, &None).is_ok() {
                            report(ctx, &s, "initialized again", &[], entry);
                        } else if s.w.bank != before {
                            report(ctx, &s, "a refused initialization changed something", &[], entry);
                        }
                    }
                }
            }
        }
    });
    ctx.note("bounds", json!({"history_depth": depth, "reinitialization_states": jobs.len(), "terms_tried": others.len()}));
}

// ---------------------------------------------------------------- C17

pub const OWNER_KEY: &str = "HfoTxFR1Tm6kGmWgYWD6J7YHVy1UwqSULUGVLXkJqaKN";

pub fn ctype(c: &Curve) -> CurveType {
    c.real().curve_type
}

pub fn c17(ctx: &Ctx) {
    let owner: Pubkey = OWNER_KEY.parse().unwrap();
    // any constraints given to the processor
    let types: Vec<Vec<CurveType>> = {
        let all = [CurveType::ConstantProduct, CurveType::ConstantPrice, CurveType::Stable, CurveType::Offset, CurveType::LinearPrice];
        (0..32u32).map(|m| (0..5).filter(|i| m >> i & 1 == 1).map(|i| all[i]).collect()).collect()
    };
    let around = |f: (u64, u64)| -> Vec<(u64, u64)> {
        let mut v = vec![];
        for n in [f.0.saturating_sub(1), f.0, f.0 + 1, 0, f.1.saturating_sub(1)] {
            for d in [f.1, f.1.saturating_add(1), f.1.saturating_sub(1), f.1.saturating_mul(2)] {
                v.push((n, d));
            }
        }
        v.sort();
        v.dedup();
        v
    };
    let reqs = [
        Fee { trade: (0, 10000), owner: (5, 10000), wd: (0, 0), host: (20, 100) },
        Fee { trade: (1, 4), owner: (2, 5), wd: (4, 10), host: (10, 100) },
        Fee { trade: (0, 0), owner: (0, 1), wd: (1, 2), host: (0, 3) },
        // of every size
        Fee { trade: (1 << 50, 1 << 62), owner: (3_000_001, 1_000_000_000), wd: ((1 << 61) + 1, (1 << 62) + 3), host: (3 << 60, u64::MAX - 1) },
        Fee { trade: (2_500, 1_000_000), owner: (1_000_000_007, 1 << 40), wd: (1, u64::MAX), host: (1 << 20, 10_u64.pow(15)) },
    ];
    let mut jobs: Vec<(Fee, Fee)> = vec![];
    for r in reqs {
        let g = [around(r.trade), around(r.owner), around(r.wd), around(r.host)];
        let base = [r.trade, r.owner, r.wd, r.host];
        for i in 0..4 {
            for j in i..4 {
                for &x in &g[i] {
                    for &y in &g[j] {
                        let mut f = base;
                        f[i] = x;
                        f[j] = y;
                        jobs.push((r, Fee { trade: f[0], owner: f[1], wd: f[2], host: f[3] }));
                        if i == j {
                            break;
                        }
                    }
                }
            }
        }
        if ctx.thorough {
            for &x in &g[0] {
                for &y in &g[1] {
                    for &z in &g[2] {
                        jobs.push((r, Fee { trade: x, owner: y, wd: z, host: r.host }));
                    }
                }
            }
        }
    }
    // one fraction alone, over numbers of every size and shape
    let l = numbers(ctx);
    for (k, r) in reqs.iter().enumerate() {
        for i in 0..4 {
            let base = [r.trade, r.owner, r.wd, r.host];
            for &n in &l {
                for d in l.iter().cloned().filter(|d| ctx.thorough || (d ^ n) % 5 == k as u64).chain([base[i].1]) {
                    let mut f = base;
                    f[i] = (n, d);
                    jobs.push((*r, Fee { trade: f[0], owner: f[1], wd: f[2], host: f[3] }));
                }
                let mut f = base;
                f[i] = (base[i].0, n);
                jobs.push((*r, Fee { trade: f[0], owner: f[1], wd: f[2], host: f[3] }));
            }
        }
    }
    jobs.sort_by_key(|(r, f)| (r.list(), f.list()));
    jobs.dedup();
    let ok_fee = |r: &Fee, f: &Fee| {
        let min = |r: (u64, u64), f: (u64, u64)| f.1 == r.1 && f.0 >= r.0;
        min(r.trade, f.trade) && min(r.owner, f.owner) && min(r.wd, f.wd) && r.host == f.host && [f.trade, f.owner, f.wd, f.host].iter().all(|x| valid_fraction(*x))
    };
    let owners = [("the program owner", owner), ("a user", key("alice")), ("another key", key("owner"))];
    let run = |t: &mut Tally, r: &Fee, f: &Fee, c: Curve, ty: &[CurveType], k: Pubkey, ks: &str| {
        let mut s = Setup::new(c, *f, 0);
        let i = s.p().fee;
        s.acct(i, |a| a.owner = k);
        let req = r.real();
        let con = Some(SwapConstraints { owner_key: ks, valid_curve_types: ty, fees: &req });
        let want = ok_fee(r, f) && ty.iter().any(|x| *x == ctype(&c)) && ks == OWNER_KEY && k == owner;
        let before = s.w.bank.clone();
        t.transitions += 1;
        match (s.run(false, &con), want) {
            (Ok(()), true) => {
                t.traces += 1;
                if let Err(e) = s.check_created(&before) {
                    report(ctx, &s, &e, &[], false);
                }
            }
            (Err(_), false) => {
                if s.w.bank != before {
                    report(ctx, &s, "a refused initialization changed something", &[], false);
                }
            }
            (Ok(()), false) => ctx.violation("accepted outside the constraints", json!({"required": format!("{:?}", r), "fees": format!("{:?}", f), "curve": format!("{:?}", c), "types": format!("{:?}", ty), "fee_owner": k.to_string()})),
            (Err(e), true) => ctx.violation("refused within the constraints", json!({"required": format!("{:?}", r), "fees": format!("{:?}", f), "curve": format!("{:?}", c), "error": format!("{:?}", e)})),
        }
    };
    par(ctx, jobs.len(), |i, t| {
        let (r, f) = jobs[i];
        t.states += 1;
        for (_, k) in owners {
            run(t, &r, &f, Curve::Product, &types[31], k, OWNER_KEY);
            run(t, &r, &f, Curve::Price { p: 7 }, &[CurveType::ConstantPrice], k, OWNER_KEY);
        }
    });
    par(ctx, types.len(), |i, t| {
        for c in CURVES {
            for (_, k) in owners {
                for ks in [OWNER_KEY, "", "not a key"] {
                    t.states += 1;
                    run(t, &reqs[0], &reqs[0], c, &types[i], k, ks);
                }
            }
        }
    });
    // the constraints compiled into the production build, through its entry point
    if cfg!(feature = "prod") {
        let r = reqs[0];
        par(ctx, jobs.len(), |i, t| {
            let f = jobs[i].1;
            for (_, k) in owners {
                let mut s = Setup::new(Curve::Price { p: 7 }, f, 0);
                let x = s.p().fee;
                s.acct(x, |a| a.owner = k);
                let want = ok_fee(&r, &f) && k == owner;
                let before = s.w.bank.clone();
                t.transitions += 1;
                t.bump("production_build_initializations");
                match (s.run(true, &None), want) {
                    (Ok(()), true) => {
                        t.traces += 1;
                        if let Err(e) = s.check_created(&before) {
                            report(ctx, &s, &e, &[], true);
                        }
                    }
                    (Err(_), false) => {}
                    (Ok(()), false) => ctx.violation("the production build accepts a pool outside its constraints", json!({"fees": format!("{:?}", f), "fee_owner": k.to_string()})),
                    (Err(e), true) => ctx.violation("the production build refuses a pool within its constraints", json!({"fees": format!("{:?}", f), "error": format!("{:?}", e)})),
                }
                // not a curve for production
                let mut s = Setup::new(CURVES[4], NOFEE, 0);
                let x = s.p().fee;
                s.acct(x, |a| a.owner = k);
                t.transitions += 1;
                if s.run(true, &None).is_ok() {
                    ctx.violation("the production build accepts a curve outside its constraints", json!({"curve": format!("{:?}", CURVES[4]), "fee_owner": k.to_string()}));
                }
            }
        });
        // the constant itself, with every curve and the accepted fees
        let con = &token_bonding_curve::constraints::SWAP_CONSTRAINTS;
        if con.is_none() {
            ctx.violation("the production build has no constraints", json!({}));
        }
        let mut t = Tally::default();
        for c in CURVES {
            let mut s = Setup::new(c, r, 0);
            let x = s.p().fee;
            s.acct(x, |a| a.owner = owner);
            t.transitions += 1;
            let want = matches!(c, Curve::Price { .. } | Curve::Product);
            if s.run(false, con).is_ok() != want {
                ctx.violation("the production build allows the wrong curves", json!({"curve": format!("{:?}", c)}));
            }
        }
        ctx.add(&t);
    }
    ctx.note("bounds", json!({"fee_settings": jobs.len(), "curve_type_sets": types.len(), "production_build": cfg!(feature = "prod")}));
    ctx.note("production_owner_key", json!(OWNER_KEY));
}
