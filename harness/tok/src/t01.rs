//! T01 vesting: reference model of every schedule, compared after every operation.
use crate::common::*;
use crate::conv;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
struct Sch {
    t0: u64,
    a0: u128,
    end: Option<(u64, u128)>,
}
impl Sch {
    fn total(&self) -> u128 {
        self.end.map(|e| e.1).unwrap_or(self.a0)
    }
    fn unlocked(&self, now: u64) -> u128 {
        if now < self.t0 {
            return 0;
        }
        match self.end {
            None => self.a0,
            Some((t1, a1)) if now >= t1 => a1,
            Some((t1, a1)) => self.a0 + mul_div(a1 - self.a0, (now - self.t0) as u128, (t1 - self.t0) as u128),
        }
    }
    fn active(&self, now: u64) -> bool {
        matches!(self.end, Some((t1, _)) if self.t0 <= now && now < t1)
    }
    fn json(&self) -> serde_json::Value {
        json!({"start_point": {"time": self.t0, "amount": self.a0.to_string()},
               "end_point": self.end.map(|(t, a)| json!({"time": t, "amount": a.to_string()}))})
    }
}
#[derive(Clone, Debug, Default)]
struct Acc {
    sch: Vec<Sch>,
    released: u128,
    paid: u128,
}
impl Acc {
    fn avail(&self, now: u64) -> u128 {
        self.sch.iter().map(|s| s.unlocked(now)).sum::<u128>() - self.released
    }
    fn left(&self) -> u128 {
        self.sch.iter().map(|s| s.total()).sum::<u128>() - self.released
    }
}
struct S {
    c: Chain,
    v: String,
    /// cw20 address or denom of the vesting token
    tok: String,
    cw: bool,
    acc: BTreeMap<String, Acc>,
    donated: u128,
    users: Vec<String>,
    old: bool,
    cwcode: u64,
}
const P: &str = "T01";
fn vesting_code() -> Code {
    use astroport_vesting::contract as v;
    Code::new("vesting", v::instantiate, v::execute, v::query).with_migrate(v::migrate)
}
fn old_code() -> Code {
    use vesting1::contract as v;
    Code::new("vesting1", v::instantiate, v::execute, v::query)
}
impl S {
    fn bal(&self, who: &str) -> u128 {
        if self.cw {
            self.c.cw20_bal(&self.tok, who)
        } else {
            self.c.bal(who, &self.tok)
        }
    }
    fn info(&self) -> serde_json::Value {
        if self.cw {
            json!({"token": {"contract_addr": self.tok}})
        } else {
            json!({"native_token": {"denom": self.tok}})
        }
    }
    fn fund(&self, who: &str, a: u128) {
        if a == 0 {
            return;
        }
        if self.cw {
            cw20c::mint_cw20(&self.c, &self.tok, who, a)
        } else {
            self.c.fund(who, &self.tok, a)
        }
    }
    fn register(&self, sender: &str, accs: &[(String, Vec<Sch>)], amt: u128) -> Result<Tx, String> {
        let list: Vec<_> = accs
            .iter()
            .map(|(a, s)| json!({"address": a, "schedules": s.iter().map(|x| x.json()).collect::<Vec<_>>()}))
            .collect();
        let msg = json!({"register_vesting_accounts": {"vesting_accounts": list}});
        if self.cw {
            self.c.exec(
                sender,
                &self.tok,
                &json!({"send": {"contract": self.v, "amount": amt.to_string(), "msg": to_json_binary(&msg).unwrap()}}),
                &[],
            )
        } else {
            let f = if amt > 0 { vec![coin(amt, &self.tok)] } else { vec![] };
            self.c.exec(sender, &self.v, &msg, &f)
        }
    }
}
fn setup(r: &mut Rng, old: bool) -> S {
    let c = Chain::new();
    let cwcode = c.store(cw20c::cw20_code());
    let cw = r.chance(1, 2);
    let tok = if cw { cw20c::new_cw20(&c, cwcode, "ASTRO", 6, &[]) } else { "ibc/oldastro".to_string() };
    let code = c.store(if old { old_code() } else { vesting_code() });
    let info = if cw { json!({"token": {"contract_addr": tok}}) } else { json!({"native_token": {"denom": tok}}) };
    let v = c
        .instantiate(code, OWNER, &json!({"owner": OWNER, "vesting_token": info}), &[], "vesting")
        .expect("vesting")
        .0;
    let n = r.range(2, 14) as usize;
    let users: Vec<String> = (0..n).map(|i| format!("wasm1beneficiary{}", (b'a' + i as u8) as char)).collect();
    if !cw {
        c.fund("wasm1donor", &tok, 1 << 100);
    }
    S { c, v, tok, cw, acc: BTreeMap::new(), donated: 0, users, old, cwcode }
}
fn audit(s: &S, r: &mut Rng, m: &mut Mon) {
    let now = s.c.now();
    let mut need = 0;
    for (a, acc) in &s.acc {
        let q: Uint128 = match s.c.query(&s.v, &json!({"available_amount": {"address": a}})) {
            Ok(q) => q,
            Err(e) => {
                m.check(P, "available-query", false, || format!("AvailableAmount({a}) fails: {e}"));
                continue;
            }
        };
        let want = acc.avail(now);
        m.check(P, "available", q.u128() == want, || format!("{a} at {now}: available {q}, released by schedule {want}; {acc:?}"));
        need += acc.left();
        m.seen(P, (acc.sch.len(), acc.sch.iter().filter(|x| x.active(now)).count(), acc.released > 0, want > 0, acc.left() == 0, (want as f64).log10() as i32));
    }
    let b = s.bal(&s.v);
    m.check(P, "solvent", b == need + s.donated, || format!("contract holds {b}, owes {need} (+{} donated)", s.donated));
    if !s.acc.is_empty() && r.chance(1, 4) {
        let a = r.pick(&s.acc.keys().cloned().collect::<Vec<_>>()).clone();
        let q: serde_json::Value = s.c.query(&s.v, &json!({"vesting_account": {"address": a}})).expect("VestingAccount");
        let acc = &s.acc[&a];
        m.check(P, "account-released", q["info"]["released_amount"] == json!(acc.released.to_string()), || format!("{a}: {q} vs {acc:?}"));
        let norm = |v: &serde_json::Value| v.to_string();
        let mut x: Vec<String> = q["info"]["schedules"].as_array().unwrap().iter().map(norm).collect();
        let mut y: Vec<String> = acc.sch.iter().map(|z| z.json().to_string()).collect();
        x.sort();
        y.sort();
        m.check(P, "account-schedules", x == y, || format!("{a}: {x:?} vs {y:?}"));
    }
    if r.chance(1, 6) {
        // complete listing page by page, both directions
        let asc = r.chance(1, 2);
        let limit = r.range(1, 40) as u32;
        let mut got: Vec<String> = vec![];
        let mut after: Option<String> = None;
        for _ in 0..40 {
            let q: serde_json::Value = s
                .c
                .query(&s.v, &json!({"vesting_accounts": {"start_after": after, "limit": if limit > 35 { None } else { Some(limit) }, "order_by": if asc { "asc" } else { "desc" }}}))
                .expect("VestingAccounts");
            let page: Vec<String> = q["vesting_accounts"].as_array().unwrap().iter().map(|x| x["address"].as_str().unwrap().to_string()).collect();
            m.check(P, "page-size", page.len() <= limit as usize, || format!("page of {} for limit {limit}", page.len()));
            if page.is_empty() {
                break;
            }
            after = page.last().cloned();
            got.extend(page);
        }
        let mut want: Vec<String> = s.acc.keys().cloned().collect();
        if !asc {
            want.reverse();
        }
        m.check(P, "listing", got == want, || format!("listing {got:?}, registered {want:?}"));
        m.count("full listings");
    }
}
fn rand_sch(r: &mut Rng, now: u64) -> Sch {
    let big = if r.chance(1, 12) { 1u128 << 100 } else { 1_000_000_000_000_000 };
    let t0 = match r.below(5) {
        0 => now,
        1 => now - r.range(1, 2_000_000),
        2 => now + 1,
        _ => now + r.range(0, 3_000_000),
    };
    let a0 = if r.chance(1, 2) { 0 } else { amount(r, big / 4) };
    if r.chance(1, 5) {
        return Sch { t0, a0: a0.max(if r.chance(1, 6) { 0 } else { 1 }), end: None };
    }
    let lo = t0.max(now) + 1;
    let t1 = match r.below(4) {
        0 => lo,
        1 => lo + r.range(0, 100),
        _ => lo + r.range(0, 40_000_000),
    };
    Sch { t0, a0, end: Some((t1, a0 + amount(r, big))) }
}
fn register(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let now = s.c.now();
    let n = r.range(1, 4) as usize;
    let mut accs: Vec<(String, Vec<Sch>)> = vec![];
    for _ in 0..n {
        let a = r.pick(&s.users).clone();
        let k = match r.below(8) {
            0 => 0,
            1 => r.range(4, 9),
            _ => r.range(1, 3),
        };
        accs.push((a, (0..k).map(|_| rand_sch(r, now)).collect()));
    }
    let total: u128 = accs.iter().flat_map(|a| &a.1).map(|x| x.total()).sum();
    let mut amt = total;
    let mut sender = OWNER.to_string();
    let mut bad = "";
    match r.below(14) {
        0 => {
            bad = "wrong-sum";
            amt = if r.chance(1, 2) { total + amount(r, total.max(10)) } else { total - amount(r, total.max(1)).min(total) };
            if amt == total {
                bad = "";
            }
        }
        1 => {
            bad = "stranger";
            sender = r.pick(&s.users).clone();
        }
        2 => {
            // a schedule that makes no sense
            let i = r.idx(accs.len());
            let t0 = now + r.range(0, 1000);
            let x = match r.below(4) {
                0 => Sch { t0, a0: 1, end: Some((t0, 10)) },
                1 => Sch { t0, a0: 1, end: Some((t0 - 1, 10)) },
                2 => Sch { t0: now - 100, a0: 1, end: Some((now - r.below(50), 10)) },
                _ => Sch { t0, a0: 10, end: Some((t0 + 100, 10 - r.below(3) as u128)) },
            };
            amt += x.total();
            let p = r.idx(accs[i].1.len() + 1);
            accs[i].1.insert(p, x);
            bad = "senseless-schedule";
        }
        3 => {
            bad = "wrong-token";
        }
        _ => {}
    }
    // the same account is extended only while it has fewer than 8 schedules
    let mut sim: BTreeMap<String, usize> = s.acc.iter().map(|(a, x)| (a.clone(), x.sch.len())).collect();
    let mut full = false;
    for (a, sc) in &accs {
        if let Some(n) = sim.get(a) {
            if n + 1 > 8 {
                full = true;
            }
        }
        *sim.entry(a.clone()).or_insert(0) += sc.len();
    }
    m.step(|| format!("register {accs:?} with {amt} by {sender} {bad} full={full}"));
    s.fund(&sender, amt);
    let res = if bad == "wrong-token" {
        let other = if s.cw { cw20c::new_cw20(&s.c, s.cwcode, "FAKE", 6, &[(OWNER, amt.max(1))]) } else { "ufake".to_string() };
        let list: Vec<_> = accs.iter().map(|(a, x)| json!({"address": a, "schedules": x.iter().map(|y| y.json()).collect::<Vec<_>>()})).collect();
        let msg = json!({"register_vesting_accounts": {"vesting_accounts": list}});
        if s.cw {
            let send = json!({"send": {"contract": s.v, "amount": amt.to_string(), "msg": to_json_binary(&msg).unwrap()}});
            attempt(&s.c, m, P, || s.c.exec(OWNER, &other, &send, &[]))
        } else {
            s.c.fund(OWNER, &other, amt.max(1));
            attempt(&s.c, m, P, || s.c.exec(OWNER, &s.v, &msg, &[coin(amt.max(1), &other)]))
        }
    } else {
        attempt(&s.c, m, P, || s.register(&sender, &accs, amt))
    };
    if !bad.is_empty() {
        must_refuse(m, P, bad, &res);
        return;
    }
    if full {
        must_refuse(m, P, "more-than-the-schedule-limit", &res);
        return;
    }
    if total == 0 {
        // nothing to deposit: a native registration needs a payment; nobody relies on this
        if res.is_err() {
            return;
        }
    }
    if !must_accept(m, P, "registration", &res) {
        return;
    }
    for (a, sc) in accs {
        let e = s.acc.entry(a).or_default();
        e.sch.extend(sc);
    }
    m.count("registrations");
}
fn claim(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let now = s.c.now();
    let a = r.pick(&s.users).clone();
    let to = match r.below(3) {
        0 => Some(r.pick(&s.users).clone()),
        1 => Some("wasm1outsider".to_string()),
        _ => None,
    };
    let (known, avail) = match s.acc.get(&a) {
        Some(x) => (true, x.avail(now)),
        None => (false, 0),
    };
    let amt = match r.below(6) {
        0 | 1 => None,
        2 => Some(avail),
        3 => Some(avail + amount(r, avail.max(10))),
        4 => Some(0),
        _ => Some(amount(r, avail.max(1)).min(avail)),
    };
    m.step(|| format!("claim {amt:?} of {avail} by {a} to {to:?} at {now}"));
    let l0: BTreeMap<String, u128> = s.users.iter().cloned().chain(["wasm1outsider".to_string(), s.v.clone()]).map(|x| (x.clone(), s.bal(&x))).collect();
    let res = attempt(&s.c, m, P, || s.c.exec(&a, &s.v, &json!({"claim": {"recipient": to, "amount": amt.map(|x| x.to_string())}}), &[]));
    if !known {
        must_refuse(m, P, "claim-by-non-beneficiary", &res);
        return;
    }
    let want = amt.unwrap_or(avail);
    if want > avail {
        must_refuse(m, P, "claim-of-more-than-released", &res);
        return;
    }
    if !must_accept(m, P, "claim", &res) {
        return;
    }
    let dest = to.clone().unwrap_or(a.clone());
    for (x, b) in &l0 {
        let mut e = *b as i128;
        if *x == dest {
            e += want as i128;
        }
        if *x == s.v {
            e -= want as i128;
        }
        let n = s.bal(x) as i128;
        m.check(P, "claim-payment", n == e, || format!("claim of {want} by {a} to {dest}: {x} has {n}, expected {e}"));
    }
    let acc = s.acc.get_mut(&a).unwrap();
    acc.released += want;
    acc.paid += want;
    m.count(if want == 0 { "claims of nothing" } else { "claims" });
}
fn take_back(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let now = s.c.now();
    let a = r.pick(&s.users).clone();
    let sender = if r.chance(1, 8) { r.pick(&s.users).clone() } else { OWNER.to_string() };
    let to = if r.chance(1, 2) { Some("wasm1outsider".to_string()) } else { None };
    let act: Vec<usize> = match s.acc.get(&a) {
        Some(x) => (0..x.sch.len()).filter(|i| x.sch[*i].active(now)).collect(),
        None => vec![],
    };
    let left = if act.len() == 1 { let x = &s.acc[&a].sch[act[0]]; x.total() - x.unlocked(now) } else { 1000 };
    let amt = match r.below(6) {
        0 => 0,
        1 => left,
        2 => left + r.below(1000) as u128,
        3 => left.saturating_sub(1),
        _ => amount(r, left.max(1)),
    };
    let ok = sender == OWNER && act.len() == 1 && amt > 0 && amt < left;
    m.step(|| format!("withdraw {amt} (unvested {left}, active {}) of {a} by {sender} at {now}", act.len()));
    let dest = to.clone().unwrap_or(sender.clone());
    let (b0, v0) = (s.bal(&dest), s.bal(&s.v));
    let res = attempt(&s.c, m, P, || {
        s.c.exec(&sender, &s.v, &json!({"withdraw_from_active_schedule": {"account": a, "recipient": to, "withdraw_amount": amt.to_string()}}), &[])
    });
    if !ok {
        must_refuse(m, P, if sender != OWNER { "withdrawal-by-stranger" } else { "impossible-withdrawal" }, &res);
        return;
    }
    if !must_accept(m, P, "withdrawal", &res) {
        return;
    }
    m.check(P, "withdraw-payment", s.bal(&dest) == b0 + amt && s.bal(&s.v) + amt == v0, || format!("withdrawal of {amt}: receiver +{}, contract -{}", s.bal(&dest) - b0, v0 - s.bal(&s.v)));
    let before = s.acc[&a].avail(now);
    let x = &mut s.acc.get_mut(&a).unwrap().sch[act[0]];
    let u = x.unlocked(now);
    x.a0 = u;
    x.t0 = now;
    x.end = x.end.map(|(t, e)| (t, e - amt));
    m.check(P, "withdraw-keeps-vested", s.acc[&a].avail(now) == before, || "model".into());
    m.count("withdrawals from active schedules");
}
fn migrate(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let newcode = s.c.store(vesting_code());
    let other = r.chance(1, 10);
    let cv = conv::deploy(&s.c, if other { json!({"native_token": {"denom": "ibc/other"}}) } else { s.info() }, "uastronew", false, s.cw && !other);
    s.c.fund(&cv, "uastronew", 1 << 110);
    let hold = s.bal(&s.v);
    m.step(|| format!("migrate with {hold} in the contract, converter for another token: {other}"));
    let res = attempt(&s.c, m, P, || s.c.migrate("wasm1chainadmin", &s.v, newcode, &json!({"converter_contract": cv})));
    if other {
        must_refuse(m, P, "migration-with-foreign-converter", &res);
        return;
    }
    if hold == 0 {
        if res.is_err() {
            return; // nothing to convert
        }
    }
    if !must_accept(m, P, "migration", &res) {
        return;
    }
    s.old = false;
    s.cw = false;
    s.tok = "uastronew".into();
    s.c.fund("wasm1donor", &s.tok, 1 << 100);
    m.check(P, "migration-balance", s.bal(&s.v) == hold, || format!("{} after migration, {hold} before", s.bal(&s.v)));
    let q: serde_json::Value = s.c.query(&s.v, &json!({"config": {}})).expect("config");
    m.check(P, "migration-token", q["vesting_token"] == s.info() && q["owner"] == json!(OWNER), || format!("{q}"));
    let again = s.c.migrate("wasm1chainadmin", &s.v, newcode, &json!({"converter_contract": cv}));
    must_refuse(m, P, "second-migration", &again);
    m.count("migrations");
}
fn run(r: &mut Rng, m: &mut Mon, old: bool) {
    let mut s = setup(r, old);
    let steps = r.range(8, 60);
    let at = r.below(steps);
    for i in 0..steps {
        if m.failed() {
            return;
        }
        if s.old && i == at {
            migrate(&mut s, r, m);
            audit(&s, r, m);
            continue;
        }
        match r.weighted(&[3, 6, 3, 5, 1]) {
            0 => register(&mut s, r, m),
            1 => claim(&mut s, r, m),
            2 => take_back(&mut s, r, m),
            3 => {
                // jump, often exactly onto an edge of some schedule
                let now = s.c.now();
                let mut edges: Vec<u64> = s.acc.values().flat_map(|a| a.sch.iter().flat_map(|x| [Some(x.t0), x.end.map(|e| e.0)])).flatten().filter(|t| *t >= now).collect();
                edges.sort();
                let t = if !edges.is_empty() && r.chance(2, 3) {
                    let e = edges[r.idx(edges.len().min(3))];
                    match r.below(3) {
                        0 => e,
                        1 => (e.saturating_sub(1)).max(now),
                        _ => e + 1,
                    }
                } else {
                    now + r.range(1, 1_000_000)
                };
                s.c.advance(1, 0);
                s.c.set_time(t);
                m.step(|| format!("time {t}"));
            }
            _ => {
                let a = amount(r, 1_000_000);
                m.step(|| format!("donate {a}"));
                s.fund("wasm1donor", a);
                if s.cw {
                    s.c.exec("wasm1donor", &s.tok, &json!({"transfer": {"recipient": s.v, "amount": a.to_string()}}), &[]).expect("donate");
                } else {
                    s.c.send("wasm1donor", &s.v, &s.tok, a).expect("donate");
                }
                s.donated += a;
            }
        }
        audit(&s, r, m);
    }
    // the very end: everybody gets exactly the rest
    let last = s.acc.values().flat_map(|a| a.sch.iter().map(|x| x.end.map(|e| e.0).unwrap_or(x.t0))).max().unwrap_or(0);
    if last > s.c.now() {
        s.c.set_time(last);
    }
    m.step(|| "final claims".into());
    for a in s.acc.keys().cloned().collect::<Vec<_>>() {
        let b = s.bal(&a);
        let left = s.acc[&a].left();
        let res = s.c.exec(&a, &s.v, &json!({"claim": {}}), &[]);
        if must_accept(m, P, "final-claim", &res) {
            m.check(P, "final-amount", s.bal(&a) == b + left, || format!("{a} got {} instead of {left}", s.bal(&a) - b));
            s.acc.get_mut(&a).unwrap().released += left;
        }
    }
    m.check(P, "final-balance", s.bal(&s.v) == s.donated, || format!("{} left, donated {}", s.bal(&s.v), s.donated));
    let x = s.acc.len();
    m.sample(P, || format!("{x} accounts fully paid out, contract left with the donated {}", s.donated));
    m.count("complete lives");
}
pub fn life(r: &mut Rng, m: &mut Mon) {
    run(r, m, false)
}
pub fn migrated(r: &mut Rng, m: &mut Mon) {
    run(r, m, true)
}
