//! A04: the native coin registry.
use crate::common::*;
use std::collections::BTreeMap;
const P: &str = "A04";
pub fn code() -> Code {
    use astroport_native_coin_registry::contract as k;
    Code::new("registry", k::instantiate, k::execute, k::query)
}
fn audit(c: &Chain, m: &mut Mon, r: &mut Rng, k: &str, md: &BTreeMap<String, u8>, all: &[String]) {
    // every denomination
    for d in all {
        let q: Result<u8, String> = c.query(k, &json!({"native_token": {"denom": d}}));
        m.check(P, "decimals", q.as_ref().ok() == md.get(d), || format!("{d}: reported {q:?}, registered {:?}", md.get(d)));
    }
    // pages
    type L = Vec<serde_json::Value>;
    let f = |l: &L| l.iter().map(|x| (x["denom"].as_str().unwrap().to_string(), x["decimals"].as_u64().unwrap() as u8)).collect::<Vec<_>>();
    let want: Vec<(String, u8)> = md.iter().map(|(a, b)| (a.clone(), *b)).collect();
    let lim = match r.below(4) {
        0 => 1,
        1 => r.range(2, 5) as u32,
        2 => r.range(5, 100) as u32,
        _ => 30,
    };
    let mut got = vec![];
    let mut after: Option<String> = None;
    loop {
        let p: L = c.query(k, &json!({"native_tokens": {"start_after": after, "limit": lim}})).expect("page");
        let p = f(&p);
        m.check(P, "page-size", p.len() <= lim as usize, || format!("{} entries, limit {lim}", p.len()));
        let n = p.len();
        got.extend(p);
        if n < lim as usize || got.len() > 1000 {
            break;
        }
        after = Some(got.last().unwrap().0.clone());
    }
    m.check(P, "pages", got == want, || format!("pages of {lim} give {got:?}, registered {want:?}"));
    let p: L = c.query(k, &json!({"native_tokens": {}})).expect("page");
    let p = f(&p);
    m.check(P, "default-page", want.starts_with(&p) && (p.len() == want.len() || p.len() >= 10), || format!("default page {p:?} of {want:?}"));
    let start = r.pick(all).clone();
    let p: L = c.query(k, &json!({"native_tokens": {"start_after": start, "limit": 1000}})).expect("page");
    let w: Vec<_> = want.iter().filter(|x| x.0 > start).cloned().collect();
    m.check(P, "start-after", f(&p) == w, || format!("after {start}: {p:?}, expected {w:?}"));
}
pub fn registry(r: &mut Rng, m: &mut Mon) {
    let c = Chain::new();
    let kc = c.store(code());
    let k = c.instantiate(kc, "wasm1creator", &json!({"owner": OWNER}), &[], "registry").expect("registry").0;
    let mut all: Vec<String> = vec![];
    for i in 0..r.range(3, 70) {
        all.push(match r.below(4) {
            0 => format!("factory/wasm1creator{i}/share"),
            1 => format!("ibc/{:X}", r.u128()),
            2 => format!("u{}", "abcdefghij".chars().take(1 + (i as usize) % 10).collect::<String>() + &i.to_string()),
            _ => format!("u{i}"),
        });
    }
    for u in USERS.iter().chain([&OWNER, &"wasm1creator"]) {
        for d in &all {
            c.fund(u, d, 1 << 60);
        }
    }
    let mut md: BTreeMap<String, u8> = BTreeMap::new();
    let mut owner = OWNER.to_string();
    let steps = r.range(4, 40);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        c.advance(1, 5);
        let who = if r.chance(1, 2) { owner.clone() } else { r.pick(&["wasm1creator", OWNER, USERS[0], USERS[1], USERS[2]]).to_string() };
        let mut ds: Vec<String> = (0..1 + r.idx(6)).map(|_| r.pick(&all).clone()).collect();
        if r.chance(1, 2) && !md.is_empty() {
            let ks: Vec<_> = md.keys().cloned().collect();
            ds = (0..1 + r.idx(3)).map(|_| r.pick(&ks).clone()).collect();
        }
        if r.chance(3, 4) {
            ds.sort();
            ds.dedup();
            r.shuffle(&mut ds);
        }
        let dup = { let mut x = ds.clone(); x.sort(); x.windows(2).any(|p| p[0] == p[1]) };
        let list: Vec<(String, u8)> = ds.iter().map(|d| (d.clone(), if r.chance(1, 15) { 19 + r.below(237) as u8 } else { r.below(19) as u8 })).collect();
        let bad_dec = list.iter().any(|x| x.1 > 18);
        match r.weighted(&[5, 6, 4, 1]) {
            0 => {
                m.step(|| format!("{who} adds {list:?}"));
                let res = attempt(&c, m, P, || c.exec(&who, &k, &json!({"add": {"native_coins": list}}), &[]));
                if who != owner {
                    must_refuse(m, P, "add-by-stranger", &res);
                } else if dup {
                    must_refuse(m, P, "duplicates", &res);
                } else if bad_dec {
                    must_refuse(m, P, "absurd-decimals", &res);
                } else {
                    if !must_accept(m, P, "add", &res) {
                        return;
                    }
                    m.seen(P, (0, list.iter().filter(|x| md.contains_key(&x.0)).count(), list.len(), md.len().min(60)));
                    md.extend(list);
                }
            }
            1 => {
                // backed by funds; all or some denominations, sometimes more
                let mut f: Vec<String> = ds.iter().filter(|_| r.chance(9, 10)).cloned().collect();
                if r.chance(1, 3) {
                    f.push(r.pick(&all).clone());
                }
                f.sort();
                f.dedup();
                let funds: Vec<Coin> = f.iter().map(|d| coin(if r.chance(1, 2) { 1 } else { r.log(1, 1 << 50) }, d)).collect();
                m.step(|| format!("{who} registers {list:?} showing {funds:?}"));
                let l0 = ledger(&c, &[], &[]);
                let res = attempt(&c, m, P, || c.exec(&who, &k, &json!({"register": {"native_coins": list}}), &funds));
                let backed = ds.iter().all(|d| f.contains(d));
                let fresh = ds.iter().all(|d| !md.contains_key(d));
                if !backed {
                    must_refuse(m, P, "unbacked-registration", &res);
                } else if !fresh {
                    must_refuse(m, P, "re-registration", &res);
                } else if dup {
                    must_refuse(m, P, "duplicates", &res);
                } else if bad_dec {
                    must_refuse(m, P, "absurd-decimals", &res);
                } else {
                    if !must_accept(m, P, "register", &res) {
                        return;
                    }
                    let d = diff(&l0, &ledger(&c, &[], &[]));
                    m.check(P, "funds-returned", d.is_empty(), || format!("registration moved funds: {d:?}"));
                    m.sample(P, || format!("{who} registered {list:?}"));
                    m.seen(P, (1, funds.len(), list.len(), md.len().min(60)));
                    md.extend(list);
                }
            }
            2 => {
                m.step(|| format!("{who} removes {ds:?}"));
                let res = attempt(&c, m, P, || c.exec(&who, &k, &json!({"remove": {"native_coins": ds}}), &[]));
                if who != owner {
                    must_refuse(m, P, "removal-by-stranger", &res);
                } else if dup {
                    must_refuse(m, P, "duplicates", &res);
                } else if ds.iter().any(|d| !md.contains_key(d)) {
                    must_refuse(m, P, "removal-of-nothing", &res);
                } else {
                    if !must_accept(m, P, "remove", &res) {
                        return;
                    }
                    m.seen(P, (2, 0, ds.len(), md.len().min(60)));
                    for d in &ds {
                        md.remove(d);
                    }
                }
            }
            _ => {
                let n = r.pick(&USERS).to_string();
                if n != owner {
                    c.exec(&owner, &k, &json!({"propose_new_owner": {"owner": n, "expires_in": 1000}}), &[]).expect("propose");
                    c.exec(&n, &k, &json!({"claim_ownership": {}}), &[]).expect("claim");
                    m.step(|| format!("{n} becomes the owner"));
                    owner = n;
                }
            }
        }
        let held: u128 = all.iter().map(|d| c.bal(&k, d)).sum();
        m.check(P, "keeps-nothing", held == 0, || "the registry holds coins".into());
        audit(&c, m, r, &k, &md, &all);
    }
}
