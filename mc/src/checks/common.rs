use crate::model::*;
use crate::report::*;
use crate::svm::Fail;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};

/// boundary lattice: powers of two and ten with their neighbours, and the small numbers
pub fn lattice(dense: u64, fine: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=dense).collect();
    let mut put = |x: u128| {
        for d in [-1i128, 0, 1] {
            let y = x as i128 + d;
            if y >= 0 && y <= u64::MAX as i128 {
                v.push(y as u64);
            }
        }
    };
    for k in 0..20u32 {
        put(10u128.pow(k));
        if fine {
            put(3 * 10u128.pow(k));
            put(10u128.pow(k) * 7 + 10u128.pow(k) / 7);
        }
    }
    for k in [8u32, 16, 24, 31, 32, 33, 40, 48, 53, 60, 62, 63, 64] {
        put(1u128 << k);
    }
    v.sort();
    v.dedup();
    v
}

/// every n-th element, always keeping the first and last
pub fn thin(v: &[u64], n: usize) -> Vec<u64> {
    let mut o: Vec<u64> = v.iter().step_by(n).cloned().collect();
    if let Some(l) = v.last() {
        if o.last() != Some(l) {
            o.push(*l);
        }
    }
    o
}

/// amounts that stand in a special relation to the state of the pool: equal to a reserve or the
/// supply, next to it, a simple part or multiple of it, the sum or the difference of reserves
pub fn related(a: u64, b: u64, s: u64) -> Vec<u64> {
    let mut v: Vec<u128> = vec![];
    for x in [a, b, s] {
        let x = x as u128;
        v.extend([x, x + 1, x.saturating_sub(1), x / 2, x / 2 + 1, x / 3, 2 * x, 3 * x / 2, 10 * x, 1000 * x + 1, x.next_power_of_two() - x, x.saturating_sub(7)]);
    }
    let (a, b) = (a as u128, b as u128);
    v.extend([a + b, a.abs_diff(b)]);
    let mut v: Vec<u64> = v.into_iter().filter(|x| *x <= u64::MAX as u128).map(|x| x as u64).collect();
    v.sort();
    v.dedup();
    v
}

/// numbers of every size: round, binary, odd, even, in several residue classes
pub fn shapes() -> Vec<u64> {
    vec![
        5, 13, 1000, 1024, 1_025, 4_096, 31_337, 65_536, 1_000_000, 1 << 20, 1_234_567, 5_555_557, 7_000_000, 8_388_608, 999_999_733, 1 << 33, 10_000_000_003, 123_456_789_013,
        1 << 42, 1 << 48, (1 << 48) + 5, 1_000_000_000_000_000, 1_234_567_890_123_453, 1 << 56, 10_u64.pow(18), (1 << 60) + 3, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, 1 << 63, u64::MAX - 1, u64::MAX,
    ]
}

pub fn show(w: &World, s: &State) -> Value {
    let mut m = serde_json::Map::new();
    for i in 0..s.len() {
        if s[i] != 0 && i != w.mint_a && i != w.mint_b {
            m.insert(w.names[i].clone(), json!(s[i]));
        }
    }
    Value::Object(m)
}
pub fn cfg_json(c: &Cfg) -> Value {
    json!({"curve": format!("{:?}", c.curve), "fees": format!("{:?}", c.fee)})
}

/// A pool 0 state: vaults, pool-token supply (held by alice unless said otherwise), user funds.
pub fn set_pool(w: &mut World, a: u64, b: u64, lp: u64) -> State {
    let p = w.pools[0];
    let l = w.users[ALICE].lp;
    w.set(p.va, a);
    w.set(p.vb, b);
    w.set(p.mint, lp);
    w.set(l, lp);
    w.state()
}

/// `World::new`, reporting a failure as a violation of the property being checked
pub fn world(ctx: &Ctx, cfg: Cfg, f: &Funds) -> Option<World> {
    match World::new(cfg, 1, f) {
        Ok(w) => Some(w),
        Err(e) => {
            ctx.violation(
                "a valid pool cannot be initialized",
                json!({"cfg": cfg_json(&cfg), "vault_a": f.va, "vault_b": f.vb, "error": format!("{:?}", e)}),
            );
            None
        }
    }
}

pub struct Edge<'a> {
    pub w: &'a World,
    pub pre: &'a State,
    pub op: &'a Op,
    pub res: Result<&'a State, &'a Fail>,
}

pub struct BfsOut {
    pub states: usize,
    pub edges: usize,
    pub closed: bool,
    pub list: Vec<State>,
}

/// Breadth-first exploration of all operation sequences from `init` up to `depth` (or until the
/// reachable state space is closed, or `cap` states). Every edge is one transaction run by the
/// real program and handed to `oracle`. Records violations with the operation history.
pub fn bfs(
    ctx: &Ctx,
    t: &mut Tally,
    w: &mut World,
    init: &State,
    depth: usize,
    cap: usize,
    ops: &dyn Fn(&World, &State) -> Vec<Op>,
    oracle: &dyn Fn(&Edge) -> Result<(), String>,
) -> BfsOut {
    let mut seen: HashMap<State, usize> = HashMap::new();
    let mut list: Vec<State> = vec![init.clone()];
    let mut parent: Vec<Option<(usize, Op)>> = vec![None];
    let mut dep: Vec<usize> = vec![0];
    let mut leaf: Vec<bool> = vec![true];
    seen.insert(init.clone(), 0);
    let mut q = VecDeque::from([0usize]);
    let mut edges = 0;
    let mut closed = true;
    while let Some(i) = q.pop_front() {
        if dep[i] >= depth {
            closed = false;
            continue;
        }
        if list.len() % 64 == 0 && ctx.violated() {
            closed = false;
            break;
        }
        let s = list[i].clone();
        for op in ops(w, &s) {
            edges += 1;
            let r = w.step(&s, &op);
            let bad = match &r {
                Err(e) => Err(e.clone()),
                Ok(x) => oracle(&Edge { w, pre: &s, op: &op, res: x.as_ref() }),
            };
            if let Err(e) = bad {
                let mut h = vec![];
                let mut k = i;
                while let Some((pi, o)) = parent[k] {
                    h.push(format!("{:?}", o));
                    k = pi;
                }
                h.reverse();
                ctx.violation(
                    &classify(&e),
                    json!({"cfg": cfg_json(&w.cfg), "initial": show(w, init), "history": h, "state": show(w, &s),
                        "op": format!("{:?}", op), "what": e}),
                );
                t.transitions += edges as u64;
                return BfsOut { states: list.len(), edges, closed: false, list };
            }
            if let Ok(Ok(n)) = r {
                if n != s {
                    leaf[i] = false;
                }
                if !seen.contains_key(&n) {
                    if list.len() >= cap {
                        closed = false;
                        continue;
                    }
                    seen.insert(n.clone(), list.len());
                    parent.push(Some((i, op)));
                    dep.push(dep[i] + 1);
                    leaf.push(true);
                    q.push_back(list.len());
                    list.push(n);
                }
            }
        }
    }
    // leaves of the exploration tree = maximal histories replayed on the implementation
    let mut has_child = vec![false; list.len()];
    for p in parent.iter().flatten() {
        has_child[p.0] = true;
    }
    t.traces += has_child.iter().filter(|x| !**x).count() as u64;
    t.states += list.len() as u64;
    t.transitions += edges as u64;
    if closed {
        t.bump("explorations_closed");
    } else {
        t.bump("explorations_depth_bounded");
    }
    BfsOut { states: list.len(), edges, closed, list }
}

/// strip the numbers so that one defect is one class
pub fn classify(e: &str) -> String {
    let mut o = String::new();
    let head = e.split(|c| c == '(' || c == '[').next().unwrap_or(e);
    let mut last = false;
    for ch in head.chars() {
        if ch.is_ascii_digit() {
            if !last {
                o.push('#');
            }
            last = true;
        } else {
            o.push(ch);
            last = false;
        }
    }
    o.trim().to_string()
}

/// One transition from `s`, judged by the reference model.
pub fn lockstep(ctx: &Ctx, t: &mut Tally, w: &mut World, s: &State, op: &Op) -> Option<(Verdict, Option<State>)> {
    t.transitions += 1;
    let r = w.step(s, op);
    let (v, n) = match &r {
        Err(e) => (Err(e.clone()), None),
        Ok(x) => (judge(w, s, op, x.as_ref()), x.as_ref().ok().cloned()),
    };
    match v {
        Ok(v) => {
            if v == Verdict::Succeeded {
                t.traces += 1;
            }
            if v == Verdict::Tolerated {
                t.bump("refusals_outside_arithmetic_range");
            }
            Some((v, n))
        }
        Err(e) => {
            ctx.violation(
                &format!("{}: {}", opname(op), classify(&e)),
                json!({"cfg": cfg_json(&w.cfg), "state": show(w, s), "op": format!("{:?}", op), "what": e}),
            );
            None
        }
    }
}
pub fn opname(op: &Op) -> &'static str {
    match op {
        Op::Swap { a2b: true, .. } => "swap A for B",
        Op::Swap { .. } => "swap B for A",
        Op::DepAll { .. } => "two-sided deposit",
        Op::WdAll { .. } => "two-sided withdrawal",
        Op::DepOne { .. } => "single-sided deposit",
        Op::WdOne { .. } => "single-sided withdrawal",
        Op::Donate { .. } => "donation",
        Op::Burn { .. } => "pool token burn",
    }
}

pub const FEES: &[Fee] = &[
    NOFEE,
    Fee { trade: (0, 0), owner: (0, 0), wd: (0, 0), host: (0, 0) },
    Fee { trade: (25, 10000), owner: (5, 10000), wd: (1, 1000), host: (20, 100) },
    Fee { trade: (1, 4), owner: (1, 5), wd: (1, 6), host: (1, 3) },
    Fee { trade: (1, 2), owner: (1, 3), wd: (9, 10), host: (0, 0) },
    Fee { trade: (0, 7), owner: (1, 100), wd: (0, 9), host: (99, 100) },
    Fee { trade: (9, 10), owner: (9, 10), wd: (1, 2), host: (1, 2) },
    Fee { trade: (u64::MAX - 1, u64::MAX), owner: (1, u64::MAX), wd: (u64::MAX - 1, u64::MAX), host: (1, u64::MAX) },
];
