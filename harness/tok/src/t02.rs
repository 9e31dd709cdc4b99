//! T02/T03 staking: ASTRO in, xASTRO out; every operation against exact integer arithmetic, the whole ledger and the recorded history.
use crate::common::*;
use std::collections::BTreeMap;

pub const ASTRO: &str = "uastro";
pub struct Stk {
    pub c: Chain,
    pub st: String,
    pub x: String,
    pub sink: String,
    pub tracker: String,
    hist: BTreeMap<String, Vec<(u64, u128)>>,
    sup: Vec<(u64, u128)>,
}
pub fn staking_code() -> Code {
    use astroport_staking::contract as s;
    Code::new("staking", s::instantiate, s::execute, s::query).with_reply(s::reply)
}
pub fn tracker1_code() -> Code {
    Code::new("tracker1", tracker1::contract::instantiate, no_exec, tracker1::query::query).with_sudo(tracker1::contract::sudo)
}
/// deploys staking (with its tracker) on `c`; ASTRO must already have supply
pub fn deploy(c: &Chain) -> (String, String, String) {
    let tc = c.store(tracker1_code());
    let sc = c.store(staking_code());
    let st = c
        .instantiate(
            sc,
            OWNER,
            &json!({"deposit_token_denom": ASTRO, "tracking_admin": "wasm1trackadm", "tracking_code_id": tc, "token_factory_addr": TF_MODULE}),
            &[],
            "staking",
        )
        .expect("staking")
        .0;
    let q: serde_json::Value = c.query(&st, &json!({"config": {}})).expect("config");
    let t: serde_json::Value = c.query(&st, &json!({"tracker_config": {}})).expect("tracker config");
    (st, q["xastro_denom"].as_str().unwrap().to_string(), t["tracker_addr"].as_str().unwrap().to_string())
}
impl Stk {
    pub fn d(&self) -> u128 {
        self.c.bal(&self.st, ASTRO)
    }
    pub fn s(&self) -> u128 {
        self.c.supply(&self.x)
    }
    fn people(&self) -> Vec<String> {
        USERS.iter().map(|x| x.to_string()).chain([self.st.clone(), self.sink.clone(), "wasm1outsider".to_string()]).collect()
    }
    fn record(&mut self) {
        let t = self.c.now();
        for a in self.people() {
            let b = self.c.bal(&a, &self.x);
            let h = self.hist.entry(a).or_default();
            if h.last().map(|l| l.1) != Some(b) {
                h.push((t, b));
            }
        }
        let s = self.s();
        if self.sup.last().map(|l| l.1) != Some(s) {
            self.sup.push((t, s));
        }
    }
}
pub fn setup(r: &mut Rng) -> Stk {
    let c = Chain::new();
    let rich = 1u128 << r.range(60, 110);
    for u in USERS {
        c.fund(u, ASTRO, rich);
        c.fund(u, "uother", 1 << 90);
    }
    let (st, x, tracker) = deploy(&c);
    let sk = c.store(sink_code());
    let sink = c.instantiate(sk, OWNER, &json!({}), &[], "sink").unwrap().0;
    Stk { c, st, x, sink, tracker, hist: BTreeMap::new(), sup: vec![] }
}
/// xASTRO minted for staking `a` on top of (d, s); None: refused
pub fn mint_for(a: u128, d: u128, s: u128) -> Option<u128> {
    let x = if d == 0 || s == 0 { a.checked_sub(1000)? } else { to128(u512(a) * u512(s) / u512(d))? };
    if x == 0 {
        None
    } else {
        Some(x)
    }
}
fn rate_ok(m: &mut Mon, what: &str, d0: u128, s0: u128, d1: u128, s1: u128) {
    if s0 == 0 {
        return;
    }
    m.check("T02", "rate", u512(d1) * u512(s0) >= u512(d0) * u512(s1), || format!("{what}: backing fell from {d0}/{s0} to {d1}/{s1}"));
}
fn audit(s: &Stk, r: &mut Rng, m: &mut Mon) {
    let (d, sh) = (s.d(), s.s());
    if m.wants("T03") {
        let q = |k: &str| -> u128 { s.c.query::<Uint128>(&s.st, &json!({k: {}})).unwrap_or_else(|e| panic!("{k}: {e}")).u128() };
        m.check("T03", "total-deposit", q("total_deposit") == d, || format!("TotalDeposit {} vs balance {d}", q("total_deposit")));
        m.check("T03", "total-shares", q("total_shares") == sh, || format!("TotalShares {} vs supply {sh}", q("total_shares")));
        let now = s.c.now();
        let a = r.pick(&s.people()).clone();
        let hs = &s.hist[&a];
        // now, a moment at (or next to) some recorded change, or anything before
        let ts = match r.below(5) {
            0 => None,
            1 => Some(now),
            2 => Some(now + r.range(1, 100)),
            _ => {
                let e = if r.chance(1, 2) { hs } else { &s.sup };
                if e.is_empty() {
                    Some(now - r.below(100))
                } else {
                    Some((r.pick(e).0 + r.below(3)).saturating_sub(1))
                }
            }
        };
        let at = |h: &Vec<(u64, u128)>| -> u128 {
            match ts {
                None => h.last().map(|x| x.1).unwrap_or(0),
                Some(t) if t == now => h.last().map(|x| x.1).unwrap_or(0),
                Some(t) => h.iter().rev().find(|x| x.0 < t).map(|x| x.1).unwrap_or(0),
            }
        };
        let b = s.c.query::<Uint128>(&s.st, &json!({"balance_at": {"address": a, "timestamp": ts}})).expect("balance_at").u128();
        m.check("T03", "balance-at", b == at(hs), || format!("BalanceAt({a}, {ts:?}) at {now} = {b}, history {hs:?}"));
        let b = s.c.query::<Uint128>(&s.st, &json!({"total_supply_at": {"timestamp": ts}})).expect("total_supply_at").u128();
        m.check("T03", "supply-at", b == at(&s.sup), || format!("TotalSupplyAt({ts:?}) at {now} = {b}, history {:?}", s.sup));
        m.count("history queries");
    }
    if m.wants("T02") && sh > 0 {
        m.check("T02", "locked-minimum", s.c.bal(&s.st, &s.x) >= 1000, || format!("only {} xASTRO locked", s.c.bal(&s.st, &s.x)));
        // entering and leaving at once never yields a profit
        let u = *r.pick(&USERS);
        let a = amount(r, s.c.bal(u, ASTRO).max(1)).min(s.c.bal(u, ASTRO));
        if a > 0 {
            let (b0, x0) = (s.c.bal(u, ASTRO), s.c.bal(u, &s.x));
            let out = s.c.dry(|| {
                if s.c.exec(u, &s.st, &json!({"enter": {}}), &[coin(a, ASTRO)]).is_err() {
                    return None;
                }
                let x = s.c.bal(u, &s.x) - x0;
                let res = s.c.exec(u, &s.st, &json!({"leave": {}}), &[coin(x, &s.x)]);
                Some((x, res.map(|_| s.c.bal(u, ASTRO))))
            });
            if let Some((x, res)) = out {
                match res {
                    Ok(b) => {
                        m.check("T02", "round-trip-profit", b <= b0, || format!("entering with {a} gives {x}, leaving returns {} more than paid", b - b0));
                        m.count("round trips");
                    }
                    Err(e) => {
                        m.check("T02", "cannot-leave", false, || format!("entered with {a}, cannot leave with {x}: {e}"));
                    }
                }
            }
        }
    }
    m.seen(&m.prop.clone(), (log10(d), log10(sh), if sh > 0 { ((d as f64 / sh as f64) * 8.0) as u64 } else { 0 }));
}
pub fn log10(x: u128) -> i32 {
    (x as f64).log10() as i32
}
fn data(t: &Tx) -> Option<(u128, u128)> {
    let v: serde_json::Value = serde_json::from_slice(t.data.as_ref()?).ok()?;
    Some((v["astro_amount"].as_str()?.parse().ok()?, v["xastro_amount"].as_str()?.parse().ok()?))
}
fn enter(s: &mut Stk, r: &mut Rng, m: &mut Mon) {
    let u = *r.pick(&USERS);
    let (d, sh) = (s.d(), s.s());
    let have = s.c.bal(u, ASTRO);
    if have == 0 {
        return;
    }
    let a = match r.below(6) {
        0 => r.range128(995, 1005),
        // around the price of one share
        1 if sh > 0 => (d / sh).saturating_add(r.below(3) as u128).saturating_sub(1).max(1),
        2 => r.log(1, have),
        _ => amount(r, (have / 8).max(1)),
    }
    .min(have);
    let hook = r.chance(1, 4);
    let recv = match r.below(5) {
        0 => Some(r.pick(&USERS).to_string()),
        1 => Some("wasm1outsider".to_string()),
        2 => Some(if r.chance(1, 2) { s.st.clone() } else { "Not An Address".to_string() }),
        _ => None,
    };
    let payload = to_json_binary(&json!({"anything": {"n": r.below(1000)}})).unwrap();
    let msg = if hook { json!({"enter_with_hook": {"contract_address": s.sink, "msg": payload}}) } else { json!({"enter": {"receiver": recv}}) };
    let want = mint_for(a, d, sh);
    m.step(|| format!("{u} stakes {a} on {d}/{sh}: {msg}"));
    let l0 = ledger(&s.c, &[], &[]);
    let res = attempt(&s.c, m, "T03", || s.c.exec(u, &s.st, &msg, &[coin(a, ASTRO)]));
    let bad_recv = !hook && recv.as_deref() == Some("Not An Address");
    let x = match want {
        None => return must_refuse(m, "T03", "stake-too-small", &res),
        Some(_) if bad_recv => return must_refuse(m, "T03", "invalid-receiver", &res),
        Some(x) => x,
    };
    if !must_accept(m, "T03", "stake", &res) {
        return;
    }
    let tx = res.unwrap();
    let first = d == 0 || sh == 0;
    let to = if hook { s.sink.clone() } else { recv.unwrap_or(u.to_string()) };
    let mut e = Exp::new().add(u, ASTRO, -(a as i128)).add(&s.st, ASTRO, a as i128).add(&to, &s.x, x as i128);
    if first {
        e = e.add(&s.st, &s.x, 1000);
    }
    let dd = diff(&l0, &ledger(&s.c, &[], &[]));
    m.check("T03", "stake-ledger", dd == e.0, || format!("staking {a} on {d}/{sh}: {dd:?}, expected {:?}", e.0));
    m.check("T03", "stake-supply", s.s() - sh == x + if first { 1000 } else { 0 }, || format!("supply grew by {}", s.s() - sh));
    m.check("T03", "stake-data", data(&tx) == Some((a, x)), || format!("response data {:?}, expected {:?}", data(&tx), (a, x)));
    if hook {
        let ok = tx.log.iter().any(|e| matches!(e, Ev::Call { sender, contract, msg } if *sender == s.st && *contract == s.sink && msg.as_bytes() == payload.as_slice()));
        m.check("T03", "hook-call", ok, || "the hook contract did not get the message".into());
        m.count("stakes with hook");
    }
    rate_ok(m, "stake", d, sh, s.d(), s.s());
    if first {
        m.check("T02", "first-stake-locks", s.c.bal(&s.st, &s.x) >= 1000, || "first stake locked nothing".into());
        m.count("first stakes");
    }
    let st = s.s();
    m.sample("T02", || format!("staking {a} on {d}/{sh} minted {x}; supply {st}"));
    m.count("stakes");
    s.record();
}
fn leave(s: &mut Stk, r: &mut Rng, m: &mut Mon) {
    let holders: Vec<String> = USERS.iter().map(|x| x.to_string()).chain(["wasm1outsider".into(), s.sink.clone()]).filter(|u| s.c.bal(u, &s.x) > 0).collect();
    if holders.is_empty() {
        return;
    }
    let u = r.pick(&holders).clone();
    let (d, sh) = (s.d(), s.s());
    let have = s.c.bal(&u, &s.x);
    let x = if r.chance(1, 3) { have } else { amount(r, have).min(have) };
    let recv = match r.below(4) {
        0 => Some("wasm1outsider".to_string()),
        1 => Some(if r.chance(1, 2) { s.st.clone() } else { r.pick(&USERS).to_string() }),
        _ => None,
    };
    let a = mul_div(x, d, sh);
    m.step(|| format!("{u} unstakes {x} of {d}/{sh} to {recv:?}"));
    let l0 = ledger(&s.c, &[], &[]);
    let res = attempt(&s.c, m, "T03", || s.c.exec(&u, &s.st, &json!({"leave": {"receiver": recv}}), &[coin(x, &s.x)]));
    if !must_accept(m, "T03", "unstake", &res) {
        return;
    }
    let to = recv.unwrap_or(u.clone());
    let e = Exp::new().add(&u, &s.x, -(x as i128)).add(&s.st, ASTRO, -(a as i128)).add(&to, ASTRO, a as i128);
    let dd = diff(&l0, &ledger(&s.c, &[], &[]));
    m.check("T03", "unstake-ledger", dd == e.0, || format!("unstaking {x} of {d}/{sh}: {dd:?}, expected {:?}", e.0));
    m.check("T03", "unstake-supply", sh - s.s() == x, || format!("supply fell by {}", sh - s.s()));
    let tx = res.unwrap();
    m.check("T03", "unstake-data", data(&tx) == Some((a, x)), || format!("response data {:?}, expected {:?}", data(&tx), (a, x)));
    rate_ok(m, "unstake", d, sh, s.d(), s.s());
    m.count("unstakes");
    s.record();
}
fn wrong(s: &mut Stk, r: &mut Rng, m: &mut Mon) {
    let u = *r.pick(&USERS);
    let x = s.c.bal(u, &s.x);
    let (msg, funds): (serde_json::Value, Vec<Coin>) = match r.below(6) {
        0 => (json!({"enter": {}}), vec![coin(5000, "uother")]),
        1 => (json!({"enter": {}}), vec![coin(5000, ASTRO), coin(5, "uother")]),
        2 => (json!({"enter": {}}), vec![]),
        3 => (json!({"leave": {}}), vec![coin(5000, ASTRO)]),
        4 if x > 0 => (json!({"enter": {}}), vec![coin(x, &s.x)]),
        5 if x > 0 => (json!({"leave": {}}), vec![coin(x, &s.x), coin(5, "uother")]),
        _ => (json!({"leave": {}}), vec![]),
    };
    m.step(|| format!("{u} sends {msg} with {funds:?}"));
    if funds.iter().any(|f| s.c.bal(u, &f.denom) < f.amount.u128()) {
        return;
    }
    let res = attempt(&s.c, m, "T03", || s.c.exec(u, &s.st, &msg, &funds));
    must_refuse(m, "T03", "wrong-payment", &res);
}
pub fn staking(r: &mut Rng, m: &mut Mon) {
    let mut s = setup(r);
    let (ta, da, sa) = (s.c.admin_of(&s.tracker), s.c.denom_admin(&s.x), s.c.denom_hook(&s.x));
    m.check("T03", "deployment", ta.as_deref() == Some("wasm1trackadm") && da.as_deref() == Some(s.st.as_str()) && sa.as_deref() == Some(s.tracker.as_str()), || {
        format!("xASTRO minted by {da:?} (staking {}), hook {sa:?} (tracker {}), tracker upgradable by {ta:?}", s.st, s.tracker)
    });
    s.record();
    let steps = r.range(6, 60);
    if r.chance(1, 4) {
        let a = r.log(1, 1 << 50);
        m.step(|| format!("donation of {a} before the first stake"));
        s.c.send(USERS[0], &s.st, ASTRO, a).expect("donation");
    }
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        let (d, sh) = (s.d(), s.s());
        match r.weighted(&[8, 6, 2, 2, 2, 5]) {
            0 => enter(&mut s, r, m),
            1 => leave(&mut s, r, m),
            2 => {
                // a direct transfer (rewards from the maker, donations, griefing)
                let u = *r.pick(&USERS);
                let a = if r.chance(1, 8) { s.c.bal(u, ASTRO) / 2 } else { r.log(1, (d / 4).max(100)) }.min(s.c.bal(u, ASTRO));
                if a > 0 {
                    m.step(|| format!("{u} donates {a}"));
                    s.c.send(u, &s.st, ASTRO, a).expect("donation");
                    rate_ok(m, "donation", d, sh, s.d(), s.s());
                    m.count("donations");
                }
            }
            3 => {
                // xASTRO changes hands (sometimes into the staking contract itself)
                let u = *r.pick(&USERS);
                let b = s.c.bal(u, &s.x);
                if b > 0 {
                    let a = amount(r, b).min(b);
                    let to = if r.chance(1, 5) { s.st.clone() } else { r.pick(&USERS).to_string() };
                    m.step(|| format!("{u} transfers {a} xASTRO to {to}"));
                    let res = s.c.send(u, &to, &s.x, a);
                    must_accept(m, "T03", "xastro-transfer", &res);
                    s.record();
                }
            }
            4 => wrong(&mut s, r, m),
            _ => {
                let (b, t) = (r.range(1, 3), *r.pick(&[0, 1, 1, 5, 3600, 86400]));
                s.c.advance(b, t);
            }
        }
        audit(&s, r, m);
    }
    m.count("complete lives");
}
