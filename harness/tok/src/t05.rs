//! T05: the snapshotting governance token against a reference ledger with full history.
use crate::common::*;
use std::collections::{BTreeMap, BTreeSet};
const P: &str = "T05";
const MINTER: &str = "wasm1minter";
#[derive(Clone, Debug, Default)]
struct Model {
    bal: BTreeMap<String, u128>,
    hist: BTreeMap<String, Vec<(u64, u128)>>,
    supply: u128,
    sup: Vec<(u64, u128)>,
    cap: Option<u128>,
    minter: bool,
    /// (owner, spender) -> amount, expiry (height, seconds)
    allow: BTreeMap<(String, String), (u128, Exp2)>,
    touched: BTreeSet<String>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Exp2 {
    Never,
    Height(u64),
    Time(u64),
}
impl Exp2 {
    fn over(&self, c: &Chain) -> bool {
        match self {
            Exp2::Never => false,
            Exp2::Height(h) => c.height() >= *h,
            Exp2::Time(t) => c.now() >= *t,
        }
    }
    fn json(&self) -> serde_json::Value {
        match self {
            Exp2::Never => json!({"never": {}}),
            Exp2::Height(h) => json!({"at_height": h}),
            Exp2::Time(t) => json!({"at_time": (*t as u128 * 1_000_000_000).to_string()}),
        }
    }
}
impl Model {
    fn set(&mut self, c: &Chain, who: &str, v: u128) {
        self.touched.insert(who.into());
        self.bal.insert(who.into(), v);
        self.hist.entry(who.into()).or_default().push((c.height(), v));
    }
    fn get(&self, who: &str) -> u128 {
        self.bal.get(who).copied().unwrap_or(0)
    }
    fn mv(&mut self, c: &Chain, from: &str, to: &str, a: u128) {
        let f = self.get(from);
        self.set(c, from, f - a);
        let t = self.get(to);
        self.set(c, to, t + a);
    }
    fn sup(&mut self, c: &Chain, v: u128) {
        self.supply = v;
        self.sup.push((c.height(), v));
    }
}
fn code() -> Code {
    use astroport_xastro_token::contract as x;
    Code::new("xastro", x::instantiate, x::execute, x::query)
}
pub fn token(r: &mut Rng, m: &mut Mon) {
    let c = Chain::new();
    let k = c.store(code());
    let sk = c.store(sink_code());
    let sink = c.instantiate(sk, OWNER, &json!({}), &[], "sink").unwrap().0;
    let people: Vec<String> = USERS.iter().map(|x| x.to_string()).chain([sink.clone(), MINTER.to_string()]).collect();
    let mut md = Model::default();
    // initial balances (duplicated addresses and a cap below the sum are senseless)
    let mut init: Vec<(String, u128)> = vec![];
    for p in &people {
        if r.chance(1, 2) {
            init.push((p.clone(), if r.chance(1, 10) { 0 } else { r.log(1, 1 << 90) }));
        }
    }
    let dup = !init.is_empty() && r.chance(1, 12);
    if dup {
        let x = r.pick(&init).clone();
        init.push((x.0, r.log(1, 1000)));
    }
    let sum: u128 = init.iter().map(|x| x.1).sum();
    let minter = r.chance(7, 8);
    let cap = if minter && r.chance(1, 2) {
        Some(match r.below(4) {
            0 => sum.saturating_sub(1),
            1 => sum,
            _ => sum.saturating_add(r.log(1, 1 << 90)),
        })
    } else {
        None
    };
    let msg = json!({"name": "xastro token", "symbol": "xASTRO", "decimals": 6,
        "initial_balances": init.iter().map(|(a, v)| json!({"address": a, "amount": v.to_string()})).collect::<Vec<_>>(),
        "mint": if minter { json!({"minter": MINTER, "cap": cap.map(|c| c.to_string())}) } else { json!(null) }, "marketing": null});
    m.step(|| format!("deploy {msg}"));
    let res = c.instantiate(k, OWNER, &msg, &[], "xastro");
    if cap.map(|c| sum > c).unwrap_or(false) {
        m.check(P, "accepted-cap-below-supply", res.is_err(), || format!("cap {cap:?} with initial supply {sum}"));
        return;
    }
    if dup && res.is_err() {
        m.count("refused: duplicate initial balances");
        return;
    }
    let t = match res {
        Ok(x) => x.0,
        Err(e) => {
            m.check(P, "refused-deployment", false, || e);
            return;
        }
    };
    for (a, v) in &init {
        let v = if dup { md.get(a) + v } else { *v };
        md.set(&c, a, v);
    }
    md.cap = cap;
    md.minter = minter;
    md.supply = sum;
    md.sup.push((c.height(), sum));
    let steps = r.range(6, 70);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        let who = r.pick(&people).clone();
        let to = r.pick(&people).clone();
        let have = md.get(&who);
        let a = match r.below(9) {
            0 => 0,
            1 => have.saturating_add(amount(r, 1000)),
            2 => have,
            _ => amount(r, have.max(1)),
        };
        let payload = to_json_binary(&json!({"n": r.below(99)})).unwrap();
        let hook_ok = |tx: &Tx, sender: &str, amt: u128| -> bool {
            tx.log.iter().any(|e| match e {
                Ev::Call { sender: s, contract, msg } if *s == t && *contract == sink => {
                    let v: serde_json::Value = serde_json::from_str(msg).unwrap_or_default();
                    v["receive"] == json!({"sender": sender, "amount": amt.to_string(), "msg": payload})
                }
                _ => false,
            })
        };
        match r.weighted(&[5, 4, 3, 3, 4, 2, 5, 3, 2, 8]) {
            0 => {
                m.step(|| format!("{who} transfers {a} to {to}"));
                let res = attempt(&c, m, P, || c.exec(&who, &t, &json!({"transfer": {"recipient": to, "amount": a.to_string()}}), &[]));
                if a == 0 || a > have {
                    must_refuse(m, P, if a == 0 { "zero-transfer" } else { "transfer-beyond-balance" }, &res);
                } else if must_accept(m, P, "transfer", &res) {
                    md.mv(&c, &who, &to, a);
                    m.count("transfers");
                }
            }
            1 => {
                m.step(|| format!("{who} sends {a} to the contract"));
                let res = attempt(&c, m, P, || c.exec(&who, &t, &json!({"send": {"contract": sink, "amount": a.to_string(), "msg": payload}}), &[]));
                if a == 0 || a > have {
                    must_refuse(m, P, if a == 0 { "zero-send" } else { "send-beyond-balance" }, &res);
                } else if must_accept(m, P, "send", &res) {
                    m.check(P, "send-hook", hook_ok(res.as_ref().unwrap(), &who, a), || "the receiving contract was not told the truth".into());
                    md.mv(&c, &who, &sink, a);
                    m.count("sends");
                }
            }
            2 => {
                let who = if r.chance(3, 4) { MINTER.to_string() } else { who };
                let a = match (r.below(4), md.cap) {
                    (0, Some(cap)) => cap - md.supply,
                    (1, Some(cap)) => cap - md.supply + 1,
                    (2, _) => a,
                    _ => r.log(1, 1 << 88),
                };
                let ok = md.minter && who == MINTER && a > 0 && md.cap.map(|c| md.supply + a <= c).unwrap_or(true);
                m.step(|| format!("{who} mints {a} to {to}"));
                let res = attempt(&c, m, P, || c.exec(&who, &t, &json!({"mint": {"recipient": to, "amount": a.to_string()}}), &[]));
                if !ok {
                    must_refuse(m, P, if who != MINTER { "mint-by-stranger" } else { "impossible-mint" }, &res);
                } else if must_accept(m, P, "mint", &res) {
                    let b = md.get(&to);
                    md.set(&c, &to, b + a);
                    let s = md.supply + a;
                    md.sup(&c, s);
                    m.count("mints");
                }
            }
            3 => {
                let who = if r.chance(3, 4) { MINTER.to_string() } else { who };
                let have = md.get(&who);
                let a = if r.chance(1, 2) { amount(r, have.max(1)) } else { a };
                m.step(|| format!("{who} burns {a}"));
                let res = attempt(&c, m, P, || c.exec(&who, &t, &json!({"burn": {"amount": a.to_string()}}), &[]));
                if !(md.minter && who == MINTER && a > 0 && a <= have) {
                    must_refuse(m, P, if who != MINTER { "burn-by-stranger" } else { "impossible-burn" }, &res);
                } else if must_accept(m, P, "burn", &res) {
                    md.set(&c, &who, have - a);
                    let s = md.supply - a;
                    md.sup(&c, s);
                    m.count("burns");
                }
            }
            4 | 5 => {
                let inc = r.chance(2, 3);
                let spender = to.clone();
                let e = match r.below(6) {
                    0 => Some(Exp2::Height(c.height() + r.range(0, 6))),
                    1 => Some(Exp2::Time(c.now() + r.range(0, 4000))),
                    2 => Some(Exp2::Never),
                    _ => None,
                };
                let amt = if r.chance(1, 3) { r.log(1, 1 << 90) } else { amount(r, have.max(1000)) };
                let key = (who.clone(), spender.clone());
                let old = md.allow.get(&key).copied();
                m.step(|| format!("{who} {} the allowance {old:?} of {spender} by {amt} {e:?}", if inc { "raises" } else { "lowers" }));
                let body = json!({"spender": spender, "amount": amt.to_string(), "expires": e.map(|x| x.json())});
                let res = attempt(&c, m, P, || c.exec(&who, &t, &json!({if inc { "increase_allowance" } else { "decrease_allowance" }: body}), &[]));
                if who == spender {
                    must_refuse(m, P, "own-allowance", &res);
                    continue;
                }
                let dead = e.map(|x| x.over(&c)).unwrap_or(false);
                if inc {
                    if dead {
                        must_refuse(m, P, "expired-allowance", &res);
                        continue;
                    }
                    if must_accept(m, P, "allowance", &res) {
                        let (x, oe) = old.unwrap_or((0, Exp2::Never));
                        md.allow.insert(key, (x + amt, e.unwrap_or(oe)));
                    }
                } else {
                    match old {
                        None => must_refuse(m, P, "decrease-of-nothing", &res),
                        Some((x, oe)) if amt < x => {
                            if dead {
                                must_refuse(m, P, "expired-allowance", &res);
                            } else if must_accept(m, P, "decrease", &res) {
                                md.allow.insert(key, (x - amt, e.unwrap_or(oe)));
                            }
                        }
                        Some(_) => {
                            if must_accept(m, P, "decrease", &res) {
                                md.allow.remove(&key);
                            }
                        }
                    }
                }
                m.count("allowance changes");
            }
            6 | 7 => {
                // spending somebody's allowance in one of three ways
                let pairs: Vec<(String, String)> = md.allow.keys().cloned().collect();
                let (owner, spender) = if pairs.is_empty() || r.chance(1, 6) { (who.clone(), to.clone()) } else { r.pick(&pairs).clone() };
                let have = md.get(&owner);
                let al = md.allow.get(&(owner.clone(), spender.clone())).copied();
                let lim = al.map(|x| x.0).unwrap_or(0);
                let a = match r.below(6) {
                    0 => lim,
                    1 => lim.saturating_add(1),
                    2 => have.saturating_add(1),
                    _ => amount(r, lim.min(have).max(1)),
                };
                let kind = r.below(3);
                let dest = r.pick(&people).clone();
                m.step(|| format!("{spender} spends {a} of the allowance {al:?} of {owner} (balance {have}), kind {kind} to {dest}"));
                let msg = match kind {
                    0 => json!({"transfer_from": {"owner": owner, "recipient": dest, "amount": a.to_string()}}),
                    1 => json!({"burn_from": {"owner": owner, "amount": a.to_string()}}),
                    _ => json!({"send_from": {"owner": owner, "contract": sink, "amount": a.to_string(), "msg": payload}}),
                };
                let res = attempt(&c, m, P, || c.exec(&spender, &t, &msg, &[]));
                let allowed = al.map(|(x, e)| !e.over(&c) && x >= a).unwrap_or(false);
                if kind == 1 && !(md.minter && spender == MINTER) {
                    must_refuse(m, P, "burn-from-by-stranger", &res);
                } else if !allowed {
                    must_refuse(m, P, "spending-beyond-allowance", &res);
                } else if a > have {
                    must_refuse(m, P, "spending-beyond-balance", &res);
                } else if a == 0 {
                    if res.is_ok() {
                        // harmless either way; no movement is checked by the audit
                        for x in [&owner, &dest] {
                            let b = md.get(x);
                            md.bal.insert(x.clone(), b);
                            md.touched.insert(x.clone());
                        }
                        if kind == 2 {
                            md.touched.insert(sink.clone());
                        }
                    }
                } else if must_accept(m, P, "allowance-spending", &res) {
                    let (x, e) = al.unwrap();
                    md.allow.insert((owner.clone(), spender.clone()), (x - a, e));
                    match kind {
                        0 => md.mv(&c, &owner, &dest, a),
                        1 => {
                            md.set(&c, &owner, have - a);
                            let s = md.supply - a;
                            md.sup(&c, s);
                        }
                        _ => {
                            m.check(P, "send-hook", hook_ok(res.as_ref().unwrap(), &spender, a), || "the receiving contract was not told the truth".into());
                            md.mv(&c, &owner, &sink, a)
                        }
                    }
                    m.count("allowance spendings");
                }
            }
            8 => {
                // operations the token does not offer
                let res = attempt(&c, m, P, || c.exec(&who, &t, &json!({"update_minter": {"new_minter": who}}), &[]));
                must_refuse(m, P, "minter-change", &res);
            }
            _ => {
                let b = r.range(0, 3);
                c.advance(b, r.range(0, 2000));
            }
        }
        audit(&c, &t, &people, &md, r, m);
    }
    m.count("complete histories");
}
fn audit(c: &Chain, t: &str, people: &[String], md: &Model, r: &mut Rng, m: &mut Mon) {
    let mut sum = 0;
    for p in people {
        let b = c.cw20_bal(t, p);
        m.check(P, "balance", b == md.get(p), || format!("{p} has {b}, expected {}", md.get(p)));
        sum += b;
    }
    let info: serde_json::Value = c.query(t, &json!({"token_info": {}})).expect("token_info");
    let s: u128 = info["total_supply"].as_str().unwrap().parse().unwrap();
    m.check(P, "conservation", s == sum && s == md.supply, || format!("supply {s}, balances {sum}, expected {}", md.supply));
    m.check(P, "cap", md.cap.map(|c| s <= c).unwrap_or(true), || format!("supply {s} above the cap {:?}", md.cap));
    let now = c.height();
    for _ in 0..2 {
        let p = r.pick(people).clone();
        let e = vec![];
        let h = md.hist.get(&p).unwrap_or(&e);
        let at = match r.below(5) {
            0 => now,
            1 => now + r.range(1, 9),
            2 => r.range(0, now),
            _ => {
                let x = if r.chance(1, 2) { h } else { &md.sup };
                if x.is_empty() {
                    now
                } else {
                    (r.pick(x).0 + r.below(3)).saturating_sub(1)
                }
            }
        };
        let q: serde_json::Value = c.query(t, &json!({"balance_at": {"address": p, "block": at}})).expect("balance_at");
        let got: u128 = q["balance"].as_str().unwrap().parse().unwrap();
        let want = h.iter().rev().find(|x| x.0 < at).map(|x| x.1).unwrap_or(0);
        m.check(P, "balance-at", got == want, || format!("BalanceAt({p}, {at}) at {now} = {got}, expected {want}; {h:?}"));
        let got: Uint128 = c.query(t, &json!({"total_supply_at": {"block": at}})).expect("total_supply_at");
        let want = md.sup.iter().rev().find(|x| x.0 <= at).map(|x| x.1).unwrap_or(0);
        m.check(P, "supply-at", got.u128() == want, || format!("TotalSupplyAt({at}) at {now} = {got}, expected {want}; {:?}", md.sup));
        m.count("history queries");
        m.seen(P, (h.len().min(12), md.sup.len().min(12), (at as i64 - now as i64).signum(), h.iter().filter(|x| x.0 == at).count(), md.allow.len().min(6)));
        let (hl, sl) = (h.len(), md.sup.len());
        m.sample(P, || format!("balance of {p} and supply at block {at} agree over {hl} and {sl} changes"));
    }
    if !md.allow.is_empty() {
        let keys: Vec<_> = md.allow.keys().cloned().collect();
        let k = r.pick(&keys).clone();
        let q: serde_json::Value = c.query(t, &json!({"allowance": {"owner": k.0, "spender": k.1}})).expect("allowance");
        let w = md.allow[&k];
        m.check(P, "allowance", q["allowance"] == json!(w.0.to_string()) && q["expires"] == w.1.json(), || format!("allowance {k:?}: {q}, expected {w:?}"));
    }
    if !md.allow.is_empty() && r.chance(1, 8) {
        // everything an owner allowed, page by page
        let owner = r.pick(&md.allow.keys().cloned().collect::<Vec<_>>()).0.clone();
        let lim = r.range(1, 4);
        let mut got: Vec<(String, String, serde_json::Value)> = vec![];
        loop {
            let q: serde_json::Value = c.query(t, &json!({"all_allowances": {"owner": owner, "start_after": got.last().map(|x| x.0.clone()), "limit": lim}})).expect("all_allowances");
            let page = q["allowances"].as_array().unwrap().clone();
            if page.is_empty() || got.len() > 100 {
                break;
            }
            m.check(P, "allowances-page", page.len() as u64 <= lim, || format!("{} entries on a page of {lim}", page.len()));
            got.extend(page.iter().map(|x| (x["spender"].as_str().unwrap().to_string(), x["allowance"].as_str().unwrap().to_string(), x["expires"].clone())));
        }
        // a spent or expired allowance may stay listed, everything usable is
        let want: Vec<_> = md.allow.iter().filter(|(k, v)| k.0 == owner && v.0 > 0).map(|(k, v)| (k.1.clone(), v.0.to_string(), v.1.json())).collect();
        let mine: Vec<_> = got.iter().filter(|x| x.1 != "0").cloned().collect();
        m.check(P, "all-allowances", mine == want, || format!("listing {got:?} of {owner}, expected {want:?}"));
        m.count("allowance listings");
    }
    if r.chance(1, 8) {
        let mut got: Vec<String> = vec![];
        let lim = r.range(1, 5);
        loop {
            let q: serde_json::Value = c.query(t, &json!({"all_accounts": {"start_after": got.last(), "limit": lim}})).expect("all_accounts");
            let page = q["accounts"].as_array().unwrap().clone();
            if page.is_empty() {
                break;
            }
            got.extend(page.iter().map(|x| x.as_str().unwrap().to_string()));
            if got.len() > 100 {
                break;
            }
        }
        let want: Vec<String> = people.iter().filter(|p| md.get(p) > 0).cloned().collect();
        let mut sorted = got.clone();
        sorted.sort();
        sorted.dedup();
        m.check(P, "all-accounts", sorted == got && want.iter().all(|w| got.contains(w)) && got.iter().all(|g| md.touched.contains(g)), || format!("listing {got:?}, holders {want:?}"));
    }
}
