//! A05: the fee granter.
use crate::common::*;
use std::collections::{BTreeMap, BTreeSet};
const P: &str = "A05";
const GAS: &str = "inj";
pub fn code() -> Code {
    use astroport_fee_granter as k;
    Code::new("fee_granter", k::contract::instantiate, k::contract::execute, k::query::query)
}
/// allowance as the chain's module understands it: (coins, has expiration)
fn allowance(b: &[u8]) -> Option<(Vec<(String, String)>, bool)> {
    let any = proto::decode(b)?;
    if !any.str(1).ends_with("feegrant.v1beta1.BasicAllowance") {
        return None;
    }
    let a = proto::decode(any.bytes(2)?)?;
    let mut v = vec![];
    let mut exp = false;
    for (f, x) in &a.0 {
        match (f, x) {
            (1, proto::Val::Bytes(b)) => {
                let k = proto::decode(b)?;
                v.push((k.str(1), k.str(2)));
            }
            _ => exp = true,
        }
    }
    Some((v, exp))
}
pub fn grants(r: &mut Rng, m: &mut Mon) {
    let c = Chain::new();
    let kc = c.store(code());
    let people: Vec<String> = USERS.iter().map(|x| x.to_string()).chain([OWNER.to_string()]).collect();
    let mut adm: BTreeSet<String> = people[..4].iter().filter(|_| r.chance(1, 3)).take(2).cloned().collect();
    let inst = |o: &str, a: &Vec<String>, g: &str| c.instantiate(kc, "wasm1creator", &json!({"owner": o, "admins": a, "gas_denom": g}), &[], "granter");
    if r.chance(1, 15) {
        let (a, o, g) = match r.below(4) {
            0 => (people[..3].to_vec(), OWNER, GAS),
            1 => (vec![people[0].clone(), people[0].clone()], OWNER, GAS),
            2 => (vec![], "WASM1BAD", GAS),
            _ => (vec!["WASM1BAD".to_string()], OWNER, GAS),
        };
        let res = inst(o, &a, g).map(|x| x.1);
        must_refuse(m, P, "senseless-deployment", &res);
    }
    let k = inst(OWNER, &adm.iter().cloned().collect(), GAS).expect("fee granter").0;
    let mut owner = OWNER.to_string();
    for p in &people {
        c.fund(p, GAS, 1 << 100);
        c.fund(p, "uother", 1 << 100);
    }
    let mut md: BTreeMap<String, u128> = BTreeMap::new();
    let pool: Vec<String> = (0..r.range(2, 70)).map(|i| format!("wasm1grantee{:03}", (i * 37) % 101)).collect();
    let mut held = 0u128;
    let steps = r.range(5, 60);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        c.advance(1, 5);
        let role = |w: &str, o: &str, a: &BTreeSet<String>| w == o || a.contains(w);
        let who = if r.chance(1, 2) {
            owner.clone()
        } else if r.chance(1, 2) && !adm.is_empty() {
            r.pick(&adm.iter().cloned().collect::<Vec<_>>()).clone()
        } else {
            r.pick(&people).clone()
        };
        let ok_role = role(&who, &owner, &adm);
        let l0 = ledger(&c, &[], &[]);
        match r.weighted(&[8, 4, 3, 3, 1]) {
            0 => {
                let g = r.pick(&pool).clone();
                let a = r.log(1, 1 << 90);
                let bypass = r.chance(1, 3);
                let funds: Vec<Coin> = match r.below(8) {
                    0 => vec![],
                    1 => vec![coin(a + 1, GAS)],
                    2 => vec![coin(a, "uother")],
                    3 => vec![coin(a, GAS), coin(1, "uother")],
                    4 if a > 1 => vec![coin(a - 1, GAS)],
                    _ => vec![coin(a, GAS)],
                };
                let paid = funds == vec![coin(a, GAS)];
                m.step(|| format!("{who} grants {a} to {g} (bypass {bypass}) sending {funds:?}"));
                let mut msg = json!({"grant": {"grantee_contract": g, "amount": a.to_string(), "bypass_amount_check": bypass}});
                if !bypass && r.chance(1, 2) {
                    msg["grant"].as_object_mut().unwrap().remove("bypass_amount_check");
                }
                let res = attempt(&c, m, P, || c.exec(&who, &k, &msg, &funds));
                if !ok_role {
                    must_refuse(m, P, "grant-by-stranger", &res);
                } else if !bypass && !paid {
                    must_refuse(m, P, "unpaid-grant", &res);
                } else if md.contains_key(&g) {
                    must_refuse(m, P, "second-grant", &res);
                } else {
                    if !must_accept(m, P, "grant", &res) {
                        return;
                    }
                    let tx = res.unwrap();
                    let n = tx.log.iter().filter(|e| matches!(e, Ev::Stargate { .. })).count();
                    m.check(P, "one-allowance", n == 1, || format!("{n} module messages"));
                    let mut e = Exp::new();
                    for f in &funds {
                        e = e.add(&who, &f.denom, -(f.amount.u128() as i128)).add(&k, &f.denom, f.amount.u128() as i128);
                        if f.denom == GAS {
                            held += f.amount.u128();
                        }
                    }
                    let d = diff(&l0, &ledger(&c, &[], &[]));
                    m.check(P, "grant-moves", d == e.0, || format!("moved {d:?}, expected {e:?}"));
                    m.seen(P, (0, bypass, funds.len(), who == owner, md.len().min(40)));
                    m.sample(P, || format!("{who} granted {a} to {g}, {} grants alive", md.len() + 1));
                    md.insert(g, a);
                }
            }
            1 => {
                let g = if r.chance(2, 3) && !md.is_empty() { r.pick(&md.keys().cloned().collect::<Vec<_>>()).clone() } else { r.pick(&pool).clone() };
                m.step(|| format!("{who} revokes {g}"));
                let res = attempt(&c, m, P, || c.exec(&who, &k, &json!({"revoke": {"grantee_contract": g}}), &[]));
                if !ok_role {
                    must_refuse(m, P, "revoke-by-stranger", &res);
                } else if !md.contains_key(&g) {
                    must_refuse(m, P, "revoke-of-nothing", &res);
                } else {
                    if !must_accept(m, P, "revoke", &res) {
                        return;
                    }
                    let d = diff(&l0, &ledger(&c, &[], &[]));
                    m.check(P, "revoke-moves", d.is_empty(), || format!("moved {d:?}"));
                    m.seen(P, (1, true, 0, who == owner, md.len().min(40)));
                    md.remove(&g);
                }
            }
            2 => {
                let a = match r.below(6) {
                    0 => 0,
                    1 => held,
                    2 => held + 1,
                    _ => r.range128(1, (held / 2).max(1)),
                };
                let to = if r.chance(1, 2) { Some(r.pick(&people).clone()) } else { None };
                m.step(|| format!("{who} takes {a} for {to:?}"));
                let res = attempt(&c, m, P, || c.exec(&who, &k, &json!({"transfer_coins": {"amount": a.to_string(), "receiver": to}}), &[]));
                if a == 0 || !ok_role {
                    must_refuse(m, P, "transfer", &res);
                } else if a > held {
                    must_refuse(m, P, "transfer-beyond-balance", &res);
                } else {
                    if !must_accept(m, P, "transfer", &res) {
                        return;
                    }
                    held -= a;
                    let e = Exp::new().add(&k, GAS, -(a as i128)).add(to.as_ref().unwrap_or(&who), GAS, a as i128);
                    let d = diff(&l0, &ledger(&c, &[], &[]));
                    m.check(P, "transfer-moves", d == e.0, || format!("moved {d:?}, expected {e:?}"));
                    m.seen(P, (2, to.is_some(), 0, who == owner, md.len().min(40)));
                }
            }
            3 => {
                let mut add: Vec<String> = people.iter().filter(|_| r.chance(1, 3)).cloned().collect();
                let rem: Vec<String> = people.iter().filter(|_| r.chance(1, 3)).cloned().collect();
                if r.chance(1, 2) {
                    add.retain(|x| !adm.contains(x));
                }
                if r.chance(1, 12) && !add.is_empty() {
                    add.push(add[0].clone());
                }
                if r.chance(1, 15) {
                    add.push("WASM1BAD".into());
                }
                m.step(|| format!("{who} adds admins {add:?}, removes {rem:?}"));
                let res = attempt(&c, m, P, || c.exec(&who, &k, &json!({"update_admins": {"add": add, "remove": rem}}), &[]));
                let mut n = adm.clone();
                let clash = add.iter().any(|x| x.starts_with('W') || !n.insert(x.clone()));
                for x in &rem {
                    n.remove(x);
                }
                if who != owner {
                    must_refuse(m, P, "admins-by-stranger", &res);
                } else if clash {
                    must_refuse(m, P, "admin-twice-or-invalid", &res);
                } else if n.len() > 2 {
                    must_refuse(m, P, "too-many-admins", &res);
                } else {
                    if !must_accept(m, P, "admins", &res) {
                        return;
                    }
                    adm = n;
                    m.seen(P, (3, add.len() > 1, rem.len(), true, adm.len()));
                }
            }
            _ => {
                let n = r.pick(&people).clone();
                if n != owner {
                    c.exec(&owner, &k, &json!({"propose_new_owner": {"owner": n, "expires_in": 100}}), &[]).expect("propose");
                    c.exec(&n, &k, &json!({"claim_ownership": {}}), &[]).expect("claim");
                    m.step(|| format!("{n} becomes the owner"));
                    owner = n;
                }
            }
        }
        // the module's grants, the contract's records and the funds
        let w = c.w.borrow();
        let live: BTreeMap<String, Option<(Vec<(String, String)>, bool)>> = w.grants.iter().map(|((a, g), b)| (format!("{a}>{g}"), allowance(b))).collect();
        drop(w);
        let want: BTreeMap<_, _> = md.iter().map(|(g, a)| (format!("{k}>{g}"), Some((vec![(GAS.to_string(), a.to_string())], false)))).collect();
        m.check(P, "allowances", live == want, || format!("allowances alive {live:?}, expected {want:?}"));
        m.check(P, "held", c.bal(&k, GAS) == held, || format!("holds {}, expected {held}", c.bal(&k, GAS)));
        let q: serde_json::Value = c.query(&k, &json!({"config": {}})).expect("config");
        let qa: BTreeSet<String> = q["admins"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        m.check(P, "config", qa == adm && q["admins"].as_array().unwrap().len() == adm.len() && q["owner"] == owner && q["gas_denom"] == GAS, || format!("reported {q}, owner {owner} admins {adm:?}"));
        let lim = r.range(1, 40) as usize;
        let mut got = vec![];
        let mut after: Option<String> = None;
        loop {
            let p: Vec<serde_json::Value> = c.query(&k, &json!({"grants_list": {"start_after": after, "limit": lim}})).expect("page");
            m.check(P, "page-size", p.len() <= lim, || format!("{} entries, limit {lim}", p.len()));
            for x in &p {
                got.push((x["grantee_contract"].as_str().unwrap().to_string(), x["amount"].as_str().unwrap().parse::<u128>().unwrap()));
            }
            if p.len() < lim || got.len() > 500 {
                break;
            }
            after = got.last().map(|x| x.0.clone());
        }
        let want: Vec<_> = md.iter().map(|(a, b)| (a.clone(), *b)).collect();
        m.check(P, "grants-list", got == want, || format!("listed {got:?}, alive {want:?}"));
        let dflt: Vec<serde_json::Value> = c.query(&k, &json!({"grants_list": {}})).expect("page");
        m.check(P, "default-page", dflt.len() == want.len() || dflt.len() >= 10, || format!("{} of {}", dflt.len(), want.len()));
        let g = r.pick(&pool).clone();
        let q: serde_json::Value = c.query(&k, &json!({"grant_for": {"grantee_contract": g}})).expect("grant for");
        m.check(P, "grant-for", q["amount"] == md.get(&g).copied().unwrap_or(0).to_string() && q["grantee_contract"] == g, || format!("{q}, granted {:?}", md.get(&g)));
    }
}
