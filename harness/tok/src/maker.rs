//! T06 fee collector: conversions, distribution, cooldown, seizing and configuration against a model.
use crate::common::*;
use std::collections::{BTreeMap, BTreeSet};
use world::{Fees, Kind, Prov, Tok, World, MAKER};
const P: &str = "T06";
const GOV0: &str = "governance";
const SECOND: &str = "wasm1second";
const STAKING: &str = "wasm1staking";
const DEV: &str = "wasm1dev";
fn pow10u(d: u32) -> u128 {
    10u128.pow(d)
}
const LOOT: &str = "wasm1loot";

fn maker_code() -> Code {
    use astroport_maker::{contract as k, reply as rp};
    Code::new("maker", k::instantiate, k::execute, k::query).with_reply(rp::reply)
}
struct Mk {
    w: World,
    mk: String,
    gov_addr: String,
    /// index of ASTRO in w.toks
    astro: usize,
    second: Option<u64>,
    gov: Option<String>,
    gov_pct: u64,
    staking: Option<String>,
    max_spread: u128, // in 1e-18
    cooldown: Option<u64>,
    last: u64,
    enabled: bool,
    pre_blocks: u64,
    last_block: u64,
    remainder: u128,
    pre: u128,
    dev: Option<(u128, usize)>,
    default_bridge: Option<usize>,
    bridges: BTreeMap<usize, usize>,
    seizable: Vec<usize>,
    loot: bool,
    /// the fee address of the pools is somebody else: every movement of the collector is its own doing
    exact: bool,
}
fn js(t: &Tok) -> serde_json::Value {
    serde_json::to_value(&t.info).unwrap()
}
const E18: u128 = 1_000_000_000_000_000_000;
fn decs(a: u128) -> String {
    format!("{}.{:018}", a / E18, a % E18)
}
impl Mk {
    fn pool(&self, a: usize, b: usize) -> bool {
        let (x, y) = (&self.w.toks[a].id, &self.w.toks[b].id);
        self.w.pools.iter().any(|p| p.toks.iter().any(|t| t.id == *x) && p.toks.iter().any(|t| t.id == *y) && x != y)
    }
    fn bal(&self, i: usize) -> u128 {
        self.w.bal(&self.mk, &self.w.toks[i])
    }
    fn valid_bridge(&self, a: usize, b: usize, br: &BTreeMap<usize, usize>, depth: u64) -> bool {
        if !self.pool(a, b) {
            return false;
        }
        if b == self.astro || self.pool(b, self.astro) {
            return true;
        }
        if depth >= 2 {
            return false;
        }
        match br.get(&b) {
            Some(n) => self.valid_bridge(b, *n, br, depth + 1),
            None => false,
        }
    }
    /// token `t` is sold for ...
    fn next(&self, t: usize) -> Option<usize> {
        if let Some(b) = self.bridges.get(&t) {
            return if self.valid_bridge(t, *b, &self.bridges, 0) { Some(*b) } else { None };
        }
        if let Some(d) = self.default_bridge {
            if d != t && self.pool(t, d) {
                return Some(d);
            }
        }
        if self.pool(t, self.astro) {
            Some(self.astro)
        } else {
            None
        }
    }
    /// hops from `t` to ASTRO (None: no route or more than 5)
    fn route(&self, t: usize) -> Option<Vec<usize>> {
        let mut v = vec![t];
        while *v.last().unwrap() != self.astro {
            if v.len() > 5 {
                return None;
            }
            v.push(self.next(*v.last().unwrap())?);
        }
        Some(v)
    }
}
fn cfg_json(k: &Mk) -> serde_json::Value {
    k.w.c.query(&k.mk, &json!({"config": {}})).expect("config")
}
/// what the collector reports about itself
fn audit(k: &Mk, m: &mut Mon, r: &mut Rng) {
    let q = cfg_json(k);
    let s = |x: &serde_json::Value| x.as_str().map(|y| y.to_string());
    m.check(P, "config-remainder", s(&q["remainder_reward"]) == Some(k.remainder.to_string()), || format!("reported remainder {}, modelled {}", q["remainder_reward"], k.remainder));
    m.check(P, "config-pct", s(&q["governance_percent"]) == Some(k.gov_pct.to_string()), || format!("{} vs {}", q["governance_percent"], k.gov_pct));
    m.check(P, "config-gov", s(&q["governance_contract"]) == k.gov, || format!("{} vs {:?}", q["governance_contract"], k.gov));
    m.check(P, "config-staking", s(&q["staking_contract"]) == k.staking, || format!("{} vs {:?}", q["staking_contract"], k.staking));
    m.check(P, "config-second", s(&q["second_receiver_cfg"]["second_receiver_cut"]) == k.second.map(|x| x.to_string()), || format!("{} vs {:?}", q["second_receiver_cfg"], k.second));
    let sp: f64 = q["max_spread"].as_str().unwrap().parse().unwrap();
    m.check(P, "config-spread", (sp - k.max_spread as f64 / 1e18).abs() < 1e-12, || format!("{} vs {}", q["max_spread"], k.max_spread));
    m.check(P, "config-dev", q["dev_fund_conf"].is_null() == k.dev.is_none(), || format!("{} vs {:?}", q["dev_fund_conf"], k.dev));
    if r.chance(1, 4) {
        let b: Vec<(String, String)> = k.w.c.query(&k.mk, &json!({"bridges": {}})).expect("bridges");
        let mut want: Vec<(String, String)> = k.bridges.iter().map(|(a, b)| (k.w.toks[*a].id.clone(), k.w.toks[*b].id.clone())).collect();
        want.sort();
        m.check(P, "bridges", b == want, || format!("reported {b:?}, modelled {want:?}"));
        let all: Vec<_> = k.w.toks.iter().map(js).collect();
        let v: serde_json::Value = k.w.c.query(&k.mk, &json!({"balances": {"assets": all}})).expect("balances");
        let got: BTreeMap<String, String> = v["balances"].as_array().unwrap().iter().map(|a| (a["info"].to_string(), a["amount"].as_str().unwrap().into())).collect();
        let want: BTreeMap<String, String> = (0..k.w.toks.len()).filter(|i| k.bal(*i) > 0).map(|i| (js(&k.w.toks[i]).to_string(), k.bal(i).to_string())).collect();
        m.check(P, "balances", got == want, || format!("reported {got:?}, held {want:?}"));
    }
}
struct SwapSeen {
    pool: String,
    offer: String,
    ask: String,
    amount: u128,
    ret: u128,
    spread: u128,
    comm: u128,
    receiver: String,
}
fn swaps(tx: &Tx) -> Vec<SwapSeen> {
    let mut v = vec![];
    for e in &tx.log {
        if let Ev::Attr { contract, attrs } = e {
            let g = |k: &str| attrs.iter().find(|a| a.0 == k).map(|a| a.1.clone()).unwrap_or_default();
            if g("action") == "swap" {
                let n = |k: &str| g(k).parse::<u128>().unwrap_or(0);
                v.push(SwapSeen { pool: contract.clone(), offer: g("offer_asset"), ask: g("ask_asset"), amount: n("offer_amount"), ret: n("return_amount"), spread: n("spread_amount"), comm: n("commission_amount"), receiver: g("receiver") });
            }
        }
    }
    v
}
fn collect(k: &mut Mk, m: &mut Mon, r: &mut Rng) {
    let n = k.w.toks.len();
    let mut list: Vec<(usize, Option<u128>)> = vec![];
    if r.chance(2, 3) {
        // keepers wait for the cooldown
        k.w.c.advance(r.range(1, 5), k.cooldown.unwrap_or(1) + if r.chance(1, 2) { 0 } else { r.below(50) });
    }
    // ... and leave out what cannot be sold
    let sellable = r.chance(3, 4);
    for i in 0..n {
        if sellable && i != k.astro && k.route(i).is_none() {
            continue;
        }
        if r.chance(1, 2) || (i == k.astro && r.chance(1, 2)) {
            let b = k.bal(i);
            list.push((i, match r.below(6) {
                0 => Some(0),
                1 => Some(r.range128(1, b.max(2))),
                2 => Some(b.saturating_mul(2).max(1)),
                _ => None,
            }));
        }
    }
    if r.chance(1, 6) {
        list.retain(|x| x.0 == k.astro);
    }
    r.shuffle(&mut list);
    let dup = !list.is_empty() && r.chance(1, 15);
    if dup {
        let d = *r.pick(&list);
        list.push((d.0, None));
    }
    let u = r.pick(&k.w.users).clone();
    let assets: Vec<_> = list.iter().map(|(i, l)| json!({"info": js(&k.w.toks[*i]), "limit": l.map(|x| x.to_string())})).collect();
    let before: Vec<u128> = (0..n).map(|i| k.bal(i)).collect();
    m.step(|| format!("{u} collects {list:?}, holding {before:?}"));
    let l0 = k.w.ledger();
    let res = attempt(&k.w.c, m, P, || k.w.c.exec(&u, &k.mk, &json!({"collect": {"assets": assets}}), &[]));
    let now = k.w.c.now();
    if k.cooldown.map(|cd| now < k.last + cd).unwrap_or(false) {
        return must_refuse(m, P, "collect-during-cooldown", &res);
    }
    if dup {
        return must_refuse(m, P, "duplicate-assets", &res);
    }
    let amount_in: BTreeMap<usize, u128> = list
        .iter()
        .filter(|(i, _)| *i != k.astro)
        .map(|(i, l)| (*i, match l { Some(l) if *l > 0 => (*l).min(before[*i]), _ => before[*i] }))
        .filter(|(_, a)| *a > 0)
        .collect();
    let routes: BTreeMap<usize, Option<Vec<usize>>> = amount_in.keys().map(|i| (*i, k.route(*i))).collect();
    let tx = match res {
        Ok(tx) => tx,
        Err(e) => {
            // small collections along existing routes may not fail
            let dev_ok = k.dev.is_none();
            let smooth = routes.values().all(|x| x.as_ref().map(|v| v.len() <= 4).unwrap_or(false)) && k.max_spread >= E18 / 50;
            let tiny = (0..n).all(|i| {
                let b = before[i];
                b == 0 || (b >= 100_000 && k.w.pools.iter().all(|p| (0..2).all(|j| k.w.pool_bal(p, j) / 10_000 > b)))
            });
            let none = amount_in.is_empty();
            m.check(P, "collect-refused", !(dev_ok && (none || (smooth && tiny))), || format!("collecting {list:?} (holding {before:?}, routes {routes:?}) failed: {e}"));
            m.count(if e.contains("spread") { "collections refused for spread" } else { "collections refused otherwise" });
            return;
        }
    };
    k.last = now;
    let after: Vec<u128> = (0..n).map(|i| k.bal(i)).collect();
    let d = diff(&l0, &k.w.ledger());
    let aid = k.w.toks[k.astro].id.clone();
    let got = |who: &str, tok: &str| d.get(&(who.to_string(), tok.to_string())).copied().unwrap_or(0);
    let seen = swaps(&tx);
    // only the collector's own swaps, never beyond the spread limit
    for s in &seen {
        let total = s.ret + s.comm + s.spread;
        m.check(P, "swap-receiver", s.receiver == k.mk, || format!("a swap of {} paid {}", s.offer, s.receiver));
        m.check(P, "spread", s.spread == 0 || u512(s.spread - 1) * u512(E18) <= u512(total) * u512(k.max_spread), || format!("swap of {} {} in {}: spread {} of {total}, limit {}", s.amount, s.offer, s.pool, s.spread, decs(k.max_spread)));
    }
    let dev_swaps: Vec<&SwapSeen> = seen.iter().filter(|s| s.offer == aid).collect();
    m.check(P, "astro-sold", dev_swaps.len() <= 1, || "ASTRO sold more than once".into());
    let dev_out: u128 = dev_swaps.iter().map(|s| s.amount).sum();
    let gov = k.gov.clone();
    let (s_out, r_out) = (got(SECOND, &aid), got(STAKING, &aid));
    let g_out = got(&k.gov_addr, &aid);
    let avail = after[k.astro] as i128 + s_out + g_out + r_out + dev_out as i128;
    m.check(P, "astro-outflow", s_out >= 0 && g_out >= 0 && r_out >= 0, || format!("{d:?}"));
    let avail = avail as u128;
    if k.exact {
        let inflow: u128 = seen.iter().filter(|s| s.ask == aid).map(|s| s.ret).sum();
        m.check(P, "proceeds", avail == before[k.astro] + inflow, || format!("{} ASTRO before, {inflow} bought, but {avail} afterwards and distributed", before[k.astro]));
    }
    // the distribution
    let height = k.w.c.height();
    let (mut amount, mut active) = (avail, avail > 0);
    let mut kept = 0;
    let mut mode = 0;
    if active && !k.enabled {
        k.remainder = avail;
        k.pre = avail;
        active = false;
        kept = avail;
        mode = 1;
    } else if active && k.remainder > 0 {
        mode = 2;
        let blocks = (height - k.last_block) as u128;
        if blocks == 0 {
            active = false;
            kept = avail;
            mode = 3;
        } else {
            let portion = (blocks * (k.pre / k.pre_blocks as u128)).min(k.remainder);
            amount = avail - k.remainder + portion;
            k.remainder -= portion;
            k.last_block = height;
            kept = k.remainder;
        }
    }
    let (mut es, mut eg, mut ed, mut er) = (0, 0, 0, 0);
    if active {
        es = k.second.map(|c| mul_div(amount, c as u128, 100)).unwrap_or(0);
        eg = if gov.is_some() { mul_div(amount - es, k.gov_pct as u128, 100) } else { 0 };
        ed = k.dev.map(|(s, _)| mul_div(amount, s, E18)).unwrap_or(0);
        er = if k.staking.is_some() { amount - es - eg - ed } else { 0 };
    }
    let want = (es as i128, eg as i128, ed as i128, er as i128);
    let have = (s_out, g_out, dev_out as i128, r_out);
    m.check(P, "distribution", want == have, || {
        format!("distributing {amount} of {avail} (mode {mode}): second/governance/dev/staking got {have:?}, expected {want:?}; second {:?}, governance {:?} {}%, dev {:?}", k.second, k.gov, k.gov_pct, k.dev)
    });
    m.check(P, "keeps-nothing", after[k.astro] == kept, || format!("{} ASTRO left in the collector, {kept} expected (mode {mode})", after[k.astro]));
    // the dev fund gets what its swap returned, nothing else
    if let Some((_, i)) = k.dev {
        let id = k.w.toks[i].id.clone();
        let ret: u128 = dev_swaps.iter().map(|s| s.ret).sum();
        if k.exact {
            m.check(P, "dev-fund", got(DEV, &id) == ret as i128, || format!("the dev fund received {} {id}, its swap returned {ret}", got(DEV, &id)));
        }
        if ret > 0 {
            m.count("dev fund payments");
        }
    }
    // every other token: listed amounts leave, bridges are used up, the rest is untouched
    let used: BTreeSet<usize> = routes.values().flatten().flat_map(|v| v[1..].to_vec()).collect();
    for i in 0..n {
        if i == k.astro {
            continue;
        }
        let id = &k.w.toks[i].id;
        if !k.exact {
            continue;
        }
        if used.contains(&i) {
            m.check(P, "bridge-used-up", after[i] == 0, || format!("{} {id} left after it was used as a bridge", after[i]));
        } else {
            let w = before[i] - amount_in.get(&i).copied().unwrap_or(0);
            m.check(P, "asset-taken", after[i] == w, || format!("{} {id} left of {} (limit in {list:?}), expected {w}", after[i], before[i]));
        }
    }
    // nobody else gains or loses anything
    let pools: BTreeSet<&str> = k.w.pools.iter().map(|p| p.addr.as_str()).collect();
    let feeto = if k.exact { MAKER } else { k.mk.as_str() };
    for ((who, tok), v) in &d {
        let ok = who == &k.mk || who == feeto || pools.contains(who.as_str()) || (tok == &aid && [SECOND, STAKING].contains(&who.as_str())) || (tok == &aid && who == &k.gov_addr) || (who == DEV && k.dev.map(|x| &k.w.toks[x.1].id == tok).unwrap_or(false));
        m.check(P, "bystanders", ok, || format!("{who} changed by {v} {tok} during a collection"));
    }
    m.seen(P, (mode, k.second.is_some(), gov.is_some(), k.staking.is_some(), k.dev.is_some(), amount_in.len(), routes.values().flatten().map(|v| v.len()).max(), k.exact, (avail as f64 + 1.0).log10() as i32));
    m.sample(P, || format!("collected {amount_in:?} along {routes:?}: {amount} ASTRO distributed as second {es}, governance {eg}, dev {ed}, staking {er}"));
    m.count(["collections distributed", "collections before rewards were enabled", "collections with a pre-upgrade portion", "collections without a new block"][mode]);
    m.count_n("swaps of the collector", seen.len() as u64);
}
pub fn maker(r: &mut Rng, m: &mut Mon) {
    // sometimes the pools form a chain with ASTRO at one end
    let chain = r.chance(1, 4);
    let decs3: Vec<u8> = (0..if chain { 5 } else { 3 }).map(|_| *r.pick(&[6u8, 6, 8, 18])).collect();
    let fees = Fees { total: *r.pick(&[0u16, 5, 30, 100]), maker: *r.pick(&[0u16, 3333, 10000]) };
    let mut w = World::new(&decs3, &[6, *r.pick(&[6u8, 18])], fees, true);
    let n = w.toks.len();
    let astro = if r.chance(1, 2) { 0 } else { decs3.len() };
    let exact = r.chance(3, 4);
    // pools, between random pairs, always at least one with ASTRO
    let mut pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
    r.shuffle(&mut pairs);
    let depth = r.log(1_000_000_000, 1 << 75);
    let keep = r.range(4, 9) as usize;
    if r.chance(1, 2) {
        // usually there is a market against ASTRO
        pairs.sort_by_key(|p| p.0 != astro && p.1 != astro);
    }
    if chain {
        let mut line: Vec<usize> = (0..n).filter(|i| *i != astro).collect();
        r.shuffle(&mut line);
        line.insert(0, astro);
        pairs = line.windows(2).map(|x| (x[0].min(x[1]), x[0].max(x[1]))).collect();
    }
    for (a, b) in pairs.into_iter().take(if chain { n } else { keep }) {
        let k = if r.chance(1, 5) && w.toks[a].dec == w.toks[b].dec && depth >= 10 * pow10u(w.toks[a].dec) { Kind::Stable } else { Kind::Xyk };
        let i = if k == Kind::Stable { w.stable(a, b, 100) } else { w.xyk(a, b, false) }.expect("pool");
        let p = w.pools[i].clone();
        let x = depth + r.u128() % depth;
        let y = if k == Kind::Stable { x } else { mul_div(x, r.range128(50, 2000), 100) };
        let u = w.users[4].clone();
        w.provide(&u, &p, &[x, y], &Prov::default()).expect("liquidity");
    }
    let sk = w.c.store(sink_code());
    let gov_addr = w.c.instantiate(sk, OWNER, &json!({}), &[], GOV0).unwrap().0;
    let code = w.c.store(maker_code());
    // configuration
    let staking = if r.chance(5, 6) { Some(STAKING.to_string()) } else { None };
    let gov = if staking.is_none() || r.chance(3, 4) { Some(gov_addr.clone()) } else { None };
    let gov_pct = if staking.is_none() { 100 } else { *r.pick(&[0u64, 1, 33, 50, 99, 100]) };
    let second = if r.chance(1, 2) { Some(r.range(1, 50)) } else { None };
    let max_spread = *r.pick(&[E18 / 2, E18 / 20, E18 / 20, E18 / 10, E18 / 1000]);
    let cooldown = if r.chance(1, 2) { Some(r.range(30, 600)) } else { None };
    let default_bridge = if r.chance(1, 4) { Some((astro + 1 + r.below(n as u64 - 1) as usize) % n) } else { None };
    let inst = |stk: &Option<String>, gov: &Option<String>, pct: u64, spread: u128, second: Option<u64>, cd: Option<u64>| {
        json!({"owner": OWNER, "default_bridge": default_bridge.map(|i| js(&w.toks[i])), "astro_token": js(&w.toks[astro]), "factory_contract": w.factory,
            "staking_contract": stk, "governance_contract": gov, "governance_percent": pct.to_string(), "max_spread": decs(spread),
            "second_receiver_params": second.map(|c| json!({"second_fee_receiver": SECOND, "second_receiver_cut": c.to_string()})), "collect_cooldown": cd})
    };
    if r.chance(1, 8) {
        let (so, go) = (Some(STAKING.to_string()), Some(gov_addr.clone()));
        let bad = [
            inst(&so, &go, 101, max_spread, None, None),
            inst(&None, &go, 99, max_spread, None, None),
            inst(&so, &go, 10, 0, None, None),
            inst(&so, &go, 10, E18 / 2 + 1, None, None),
            inst(&so, &go, 10, max_spread, Some(0), None),
            inst(&so, &go, 10, max_spread, Some(51), None),
            inst(&so, &go, 10, max_spread, None, Some(29)),
            inst(&so, &go, 10, max_spread, None, Some(601)),
            inst(&None, &None, 100, max_spread, None, None),
        ];
        let b = r.pick(&bad).clone();
        m.step(|| format!("deploying with {b}"));
        let res = w.c.instantiate(code, OWNER, &b, &[], "bad").map(|x| x.1);
        must_refuse(m, P, "senseless-configuration", &res);
    }
    let mk = w.c.instantiate(code, OWNER, &inst(&staking, &gov, gov_pct, max_spread, second, cooldown), &[], "maker").expect("maker").0;
    if !exact {
        w.c.exec(OWNER, &w.factory, &json!({"update_config": {"fee_address": mk}}), &[]).expect("fee address");
    }
    let last = w.c.now();
    let mut k = Mk { w, mk, gov_addr, astro, second, gov, gov_pct, staking, max_spread, cooldown, last, enabled: false, pre_blocks: 0, last_block: 0, remainder: 0, pre: 0, dev: None, default_bridge, bridges: BTreeMap::new(), seizable: vec![], loot: false, exact };
    if r.chance(1, 3) {
        enable(&mut k, m, r);
    }
    let small = r.chance(1, 2);
    let steps = r.range(8, 50);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        match r.weighted(&[8, 8, 2, 3, 1, 2, 2, 4, 2]) {
            0 => {
                // fees arrive
                let i = r.idx(n);
                let u = r.pick(&k.w.users).clone();
                let a = if small { r.log(100_000, (depth / 50_000).max(200_000)) } else { r.log(1, depth / 2) };
                m.step(|| format!("{a} {} arrive", k.w.toks[i].id));
                k.w.donate(&u, &k.mk, &k.w.toks[i], a).expect("fee");
            }
            1 => collect(&mut k, m, r),
            2 => bridges(&mut k, m, r),
            3 => configure(&mut k, m, r),
            4 => enable(&mut k, m, r),
            5 => seize(&mut k, m, r),
            6 => {
                // nobody but the collector itself may start its inner steps; nobody but the owner may configure
                let u = r.pick(&k.w.users).clone();
                let msg = match r.below(7) {
                    0 => json!({"swap_bridge_assets": {"assets": [js(&k.w.toks[r.idx(n)])], "depth": r.below(7)}}),
                    1 => json!({"distribute_astro": {}}),
                    2 => json!({"update_config": {"governance_contract": {"set": u}}}),
                    3 => json!({"update_config": {"staking_contract": u}}),
                    4 => json!({"update_bridges": {"add": [[js(&k.w.toks[r.idx(n)]), js(&k.w.toks[k.astro])]]}}),
                    5 => json!({"enable_rewards": {"blocks": 10}}),
                    _ => json!({"update_seize_config": {"receiver": u, "seizable_assets": [js(&k.w.toks[r.idx(n)])]}}),
                };
                let own = r.chance(1, 4) && (msg.get("swap_bridge_assets").is_some() || msg.get("distribute_astro").is_some());
                let who = if own { OWNER.to_string() } else { u };
                m.step(|| format!("{who} sends {msg}"));
                let res = attempt(&k.w.c, m, P, || k.w.c.exec(&who, &k.mk, &msg, &[]));
                must_refuse(m, P, "foreign-command", &res);
            }
            7 => {
                let (b, t) = (r.range(1, 40), *r.pick(&[1u64, 5, 29, 30, 100, 600, 3600]));
                let b = if r.chance(1, 5) { 0 } else { b };
                k.w.c.advance(b, t);
            }
            _ => {
                // trading moves the pools
                let p = r.pick(&k.w.pools).clone();
                let u = r.pick(&k.w.users).clone();
                let i = r.idx(2);
                let a = r.log(1000, (k.w.pool_bal(&p, i) / 20).max(1001));
                k.w.swap(&u, &p, i, 1 - i, a, &world::Sw::loose()).ok();
            }
        }
        audit(&k, m, r);
    }
    m.count("complete lives");
}
fn enable(k: &mut Mk, m: &mut Mon, r: &mut Rng) {
    let blocks = if r.chance(1, 10) { 0 } else { r.range(1, 200) };
    m.step(|| format!("owner enables rewards over {blocks} blocks"));
    let res = attempt(&k.w.c, m, P, || k.w.c.exec(OWNER, &k.mk, &json!({"enable_rewards": {"blocks": blocks}}), &[]));
    if k.enabled || blocks == 0 {
        return must_refuse(m, P, "enabling-twice-or-over-no-time", &res);
    }
    if must_accept(m, P, "enable", &res) {
        k.enabled = true;
        k.pre_blocks = blocks;
        k.last_block = k.w.c.height();
    }
}
fn bridges(k: &mut Mk, m: &mut Mon, r: &mut Rng) {
    let n = k.w.toks.len();
    let mut rem: Vec<usize> = vec![];
    if !k.bridges.is_empty() && r.chance(1, 3) {
        rem.push(*r.pick(&k.bridges.keys().copied().collect::<Vec<_>>()));
    }
    // a bridge for ASTRO itself would make its proceeds be sold on: left to the owner's care
    let cand: Vec<usize> = (0..n).filter(|i| *i != k.astro).collect();
    let add: Vec<(usize, usize)> = (0..r.below(3))
        .map(|_| {
            let a = *r.pick(&cand);
            // mostly neighbours
            let nb: Vec<usize> = (0..n).filter(|b| *b != a && k.pool(a, *b)).collect();
            (a, if nb.is_empty() || r.chance(1, 5) { r.idx(n) } else { *r.pick(&nb) })
        })
        .collect();
    let mut next = k.bridges.clone();
    for x in &rem {
        next.remove(x);
    }
    let mut ok = true;
    for (a, b) in &add {
        ok &= a != b && k.valid_bridge(*a, *b, &next, 0);
        if !ok {
            break;
        }
        next.insert(*a, *b);
    }
    let msg = json!({"update_bridges": {"add": add.iter().map(|(a, b)| json!([js(&k.w.toks[*a]), js(&k.w.toks[*b])])).collect::<Vec<_>>(), "remove": rem.iter().map(|a| js(&k.w.toks[*a])).collect::<Vec<_>>()}});
    m.step(|| format!("bridges: remove {rem:?}, add {add:?}"));
    let res = attempt(&k.w.c, m, P, || k.w.c.exec(OWNER, &k.mk, &msg, &[]));
    if !ok {
        must_refuse(m, P, "unusable-bridge", &res);
    } else if must_accept(m, P, "bridge", &res) {
        k.bridges = next;
        m.count("bridge updates");
    }
}
fn configure(k: &mut Mk, m: &mut Mon, r: &mut Rng) {
    let n = k.w.toks.len();
    let (msg, ok, what): (serde_json::Value, bool, u32);
    let mut f: Box<dyn FnOnce(&mut Mk)> = Box::new(|_| {});
    let no_dev = k.dev.is_none();
    match r.below(9) {
        0 if no_dev => {
            let p = *r.pick(&[0u64, 1, 10, 50, 100, 101]);
            msg = json!({"governance_percent": p.to_string()});
            ok = p <= 100 && (k.staking.is_some() || p == 100);
            what = 0;
            f = Box::new(move |k| k.gov_pct = p);
        }
        1 if no_dev => {
            let c = *r.pick(&[0u64, 1, 25, 50, 51, 100]);
            msg = json!({"second_receiver_params": {"second_fee_receiver": SECOND, "second_receiver_cut": c.to_string()}});
            ok = (1..=50).contains(&c);
            what = 1;
            f = Box::new(move |k| k.second = Some(c));
        }
        2 => {
            let s = *r.pick(&[0, 1, E18 / 20, E18 / 4, E18 / 2, E18 / 2 + 1, E18]);
            msg = json!({"max_spread": decs(s)});
            ok = s > 0 && s <= E18 / 2;
            what = 2;
            f = Box::new(move |k| k.max_spread = s);
        }
        3 => {
            let c = *r.pick(&[0u64, 29, 30, 60, 600, 601]);
            msg = json!({"collect_cooldown": c});
            ok = (30..=600).contains(&c);
            what = 3;
            f = Box::new(move |k| k.cooldown = Some(c));
        }
        4 => {
            let set = r.chance(1, 2);
            let g = k.gov_addr.clone();
            msg = if set { json!({"governance_contract": {"set": g}}) } else { json!({"governance_contract": {"remove": {}}}) };
            ok = set || k.staking.is_some();
            what = 4;
            f = Box::new(move |k| k.gov = if set { Some(g) } else { None });
            if set && !no_dev {
                return;
            }
        }
        5 if k.gov.is_some() && no_dev => {
            msg = json!({"staking_contract": STAKING});
            ok = true;
            what = 5;
            f = Box::new(move |k| k.staking = Some(STAKING.into()));
        }
        6 => {
            let d = *r.pick(&(0..n).filter(|i| *i != k.astro).collect::<Vec<_>>());
            msg = json!({"basic_asset": js(&k.w.toks[d])});
            ok = true;
            what = 6;
            f = Box::new(move |k| k.default_bridge = Some(d));
        }
        _ => {
            // dev fund; shares of all receivers together stay below everything, stakers exist
            if k.staking.is_none() {
                return;
            }
            what = 7;
            if k.dev.is_some() && r.chance(1, 2) {
                msg = json!({"dev_fund_config": {"set": null}});
                ok = true;
                f = Box::new(|k| k.dev = None);
            } else {
                let i = r.idx(n);
                let c = k.second.unwrap_or(0) as u128;
                let g = if k.gov.is_some() { k.gov_pct as u128 } else { 0 };
                let room = E18 / 10_000 * (100 - c) * (100 - g);
                let s = match r.below(8) {
                    0 => 0,
                    1 => E18 + 1,
                    _ if room == 0 => return,
                    2 => room,
                    _ => r.range128(1, room),
                };
                msg = json!({"dev_fund_config": {"set": {"address": DEV, "share": decs(s), "asset_info": js(&k.w.toks[i])}}});
                ok = s > 0 && s <= E18 && i != k.astro && k.pool(k.astro, i);
                f = Box::new(move |k| k.dev = Some((s, i)));
            }
        }
    }
    m.step(|| format!("owner configures {msg}"));
    let res = attempt(&k.w.c, m, P, || k.w.c.exec(OWNER, &k.mk, &json!({"update_config": msg}), &[]));
    if !ok {
        must_refuse(m, P, ["governance-percent", "second-cut", "spread", "cooldown", "governance-removal", "", "", "dev-fund"][what as usize], &res);
    } else if must_accept(m, P, "configuration", &res) {
        f(k);
        m.count("configuration changes");
    }
}
fn seize(k: &mut Mk, m: &mut Mon, r: &mut Rng) {
    let n = k.w.toks.len();
    // ASTRO itself is not offered for seizing here: taking undistributed pre-upgrade ASTRO away is the owner's decision to break distribution
    let cand: Vec<usize> = (0..n).filter(|i| *i != k.astro).collect();
    if r.chance(1, 3) || !k.loot {
        let s: Vec<usize> = cand.iter().copied().filter(|_| r.chance(1, 2)).collect();
        let msg = json!({"update_seize_config": {"receiver": LOOT, "seizable_assets": s.iter().map(|i| js(&k.w.toks[*i])).collect::<Vec<_>>()}});
        let res = k.w.c.exec(OWNER, &k.mk, &msg, &[]);
        if must_accept(m, P, "seize-configuration", &res) {
            k.seizable = s;
            k.loot = true;
        }
    }
    let pick: Vec<usize> = (0..n).filter(|_| r.chance(1, 3)).collect();
    let list: Vec<(usize, Option<u128>)> = pick
        .into_iter()
        .map(|i| (i, match r.below(4) { 0 => Some(0), 1 => Some(r.log(1, k.bal(i).max(2))), 2 => Some(k.bal(i) + 5), _ => None }))
        .collect();
    let u = r.pick(&k.w.users).clone();
    let l0 = k.w.ledger();
    m.step(|| format!("{u} seizes {list:?}, seizable {:?}", k.seizable));
    let msg = json!({"seize": {"assets": list.iter().map(|(i, l)| json!({"info": js(&k.w.toks[*i]), "limit": l.map(|x| x.to_string())})).collect::<Vec<_>>()}});
    let res = attempt(&k.w.c, m, P, || k.w.c.exec(&u, &k.mk, &msg, &[]));
    if list.is_empty() || list.iter().any(|(i, _)| !k.seizable.contains(i)) {
        return must_refuse(m, P, "seizing-the-unseizable", &res);
    }
    if must_accept(m, P, "seize", &res) {
        let mut e = Exp::new();
        for (i, l) in &list {
            let b = l0.get(&(k.mk.clone(), k.w.toks[*i].id.clone())).copied().unwrap_or(0);
            let a = l.unwrap_or(b).min(b) as i128;
            e = e.add(&k.mk, &k.w.toks[*i].id, -a).add(LOOT, &k.w.toks[*i].id, a);
        }
        let d = diff(&l0, &k.w.ledger());
        m.check(P, "seize-ledger", d == e.0, || format!("seizing {list:?}: {d:?}, expected {:?}", e.0));
        m.count("seizures");
    }
}
