//! A09: settings change only as requested. Partial updates on every contract, the answers of all
//! configuration queries compared before and after.
use crate::city::*;
use crate::common::*;
use serde_json::Value;
use std::collections::BTreeMap;
const P: &str = "A09";
const BAD: &str = "WASM1BAD";
type Snap = BTreeMap<String, Value>;
/// one requested change
struct Ask {
    on: String,
    kind: &'static str,
    who: String,
    msg: Value,
    /// the request is sensible; None: the property does not say
    ok: Option<bool>,
    /// (view, path in that view, new value)
    set: Vec<(String, String, Value)>,
}
struct S {
    k: City,
    fac2: String,
    maker2: String,
    views: Vec<(String, String, Value)>,
    tracked2: bool,
    tax_admin: String,
    marketing: Option<String>,
}
fn unpack(mut v: Value) -> Value {
    let p = v.get("params").and_then(|x| x.as_str().map(|s| s.to_string()));
    if let Some(p) = p {
        let b = Binary::from_base64(&p).unwrap();
        v["params"] = serde_json::from_slice(b.as_slice()).unwrap();
    }
    // a map by name says more than an array
    if let Some(l) = v.get("pair_configs").and_then(|x| x.as_array()).cloned() {
        let n = l.len();
        let m: serde_json::Map<String, Value> = l.into_iter().map(|x| (name(&x["pair_type"]), x)).collect();
        v["distinct"] = json!(n == m.len());
        v["pair_configs"] = Value::Object(m);
    }
    if let Some(l) = v.as_array().cloned() {
        // bridges
        v = Value::Object(l.into_iter().map(|x| (x[0].as_str().unwrap_or("?").to_string(), x[1].clone())).collect());
    }
    v
}
fn name(t: &Value) -> String {
    let o = t.as_object().unwrap();
    let (k, v) = o.iter().next().unwrap();
    if k == "custom" {
        format!("custom-{}", v.as_str().unwrap())
    } else {
        k.clone()
    }
}
fn snap(s: &S) -> Snap {
    s.views
        .iter()
        .map(|(n, a, q)| {
            let v = match s.k.w.c.query::<Value>(a, q) {
                Ok(v) => unpack(v),
                Err(_) => Value::Null,
            };
            (n.clone(), v)
        })
        .collect()
}
fn addr(r: &mut Rng, bad: &mut bool) -> String {
    if r.chance(1, 12) {
        *bad = true;
        BAD.into()
    } else {
        format!("wasm1chosen{}", r.below(4))
    }
}
fn asset(r: &mut Rng, s: &City, bad: &mut bool) -> Value {
    match r.below(12) {
        0 => {
            *bad = true;
            json!({"token": {"contract_addr": BAD}})
        }
        1 => {
            *bad = true;
            json!({"native_token": {"denom": *r.pick(&["", "a", "1abc", "a b", "u!x"])}})
        }
        2 => json!({"native_token": {"denom": "ibc/ABCDEF"}}),
        _ => js(r.pick(&s.w.toks)),
    }
}
fn dec(atomics: u128) -> Value {
    json!(cosmwasm_std::Decimal::raw(atomics).to_string())
}
/// a number within [lo, hi] or just outside
fn within(r: &mut Rng, lo: u128, hi: u128, bad: &mut bool) -> u128 {
    match r.below(12) {
        0 => lo,
        1 => hi,
        2 => {
            *bad = true;
            hi + 1
        }
        3 if lo > 0 => {
            *bad = true;
            lo - 1
        }
        _ => r.range128(lo, hi),
    }
}
fn has_pool(k: &City, a: &Value, b: &Value) -> bool {
    k.w.c.query::<Value>(&k.w.factory, &json!({"pair": {"asset_infos": [a, b]}})).is_ok()
}
fn pair_config(r: &mut Rng, bad: &mut bool) -> Value {
    let t = match r.below(6) {
        0 => json!({"xyk": {}}),
        1 => json!({"stable": {}}),
        _ => json!({"custom": *r.pick(&["concentrated", "transmuter", "new kind", "pair_xyk_sale_tax", "a", "xyk"])}),
    };
    json!({"code_id": r.range(1, 50), "pair_type": t, "total_fee_bps": within(r, 0, 10_000, bad), "maker_fee_bps": within(r, 0, 10_000, bad),
        "is_disabled": r.chance(1, 4), "is_generator_disabled": r.chance(1, 4), "permissioned": r.chance(1, 4)})
}
/// a deployment with random settings: the settings must be those of the message
fn deploy_factory(r: &mut Rng, m: &mut Mon, k: &City, code: u64) -> (String, bool) {
    let mut last = (String::new(), false);
    for sound in [false, true] {
        let mut bad = false;
        let mut set = serde_json::Map::new();
        let n = r.below(4);
        let mut l = vec![];
        for _ in 0..n {
            let p = pair_config(r, &mut bad);
            bad |= set.insert(name(&p["pair_type"]), p.clone()).is_some();
            l.push(p);
        }
        let track = r.chance(1, 2);
        let fa = if r.chance(1, 2) { Some(addr(r, &mut bad)) } else { None };
        let ga = if r.chance(1, 2) { Some(addr(r, &mut bad)) } else { None };
        let reg = addr(r, &mut bad);
        let tra = if track { Some(json!({"code_id": r.range(1, 99), "token_factory_addr": addr(r, &mut bad)})) } else { None };
        let (tok, wl) = (r.range(0, 99), r.range(0, 99));
        if sound && bad {
            // the one kept must stand: a plain one
            l.clear();
            set.clear();
        }
        let msg = if sound && bad {
            json!({"pair_configs": l, "token_code_id": tok, "owner": OWNER, "whitelist_code_id": wl, "coin_registry_address": k.w.registry})
        } else {
            json!({"pair_configs": l, "token_code_id": tok, "owner": OWNER, "whitelist_code_id": wl, "coin_registry_address": reg,
                "fee_address": fa, "generator_address": ga, "tracker_config": tra})
        };
        let bad = bad && !sound;
        let plain = msg.get("fee_address").is_none();
        let c = &k.w.c;
        m.step(|| format!("deploy factory {msg}"));
        let res = c.instantiate(code, "wasm1deployer", &msg, &[], "f");
        if bad {
            m.check(P, "accepted-deployment", res.is_err(), || "a factory with senseless settings was deployed".into());
            continue;
        }
        match res {
            Err(e) => {
                m.check(P, "refused-deployment", false, || format!("a factory was not deployed: {e}"));
            }
            Ok((a, _)) => {
                let got = unpack(c.query::<Value>(&a, &json!({"config": {}})).unwrap());
                let want = json!({"owner": OWNER, "token_code_id": tok, "whitelist_code_id": wl, "distinct": true, "pair_configs": set,
                    "coin_registry_address": if plain { json!(k.w.registry) } else { json!(reg) },
                    "fee_address": if plain { Value::Null } else { json!(fa) }, "generator_address": if plain { Value::Null } else { json!(ga) }});
                m.check(P, "factory-deployed", got == want, || format!("deployed with {want}, it answers {got}"));
                let t = c.query::<Value>(&a, &json!({"tracker_config": {}})).ok();
                let w = if plain { None } else { tra };
                m.check(P, "tracker-deployed", t == w, || format!("deployed with tracker settings {w:?}, it answers {t:?}"));
                m.count("deployments compared");
                last = (a, t.is_some());
            }
        }
    }
    last
}
fn deploy_maker(r: &mut Rng, m: &mut Mon, k: &City) -> String {
    use astroport_maker::{contract as mk, reply as mrp};
    let code = k.w.c.store(Code::new("maker", mk::instantiate, mk::execute, mk::query).with_reply(mrp::reply));
    for _ in 0..40 {
        let mut bad = false;
        let staking = if r.chance(1, 2) { Some(addr(r, &mut bad)) } else { None };
        let gov = if r.chance(3, 4) { Some(addr(r, &mut bad)) } else { None };
        let pc = if r.chance(3, 4) { Some(if staking.is_none() && r.chance(2, 3) { 100 } else { within(r, 0, 100, &mut bad) }) } else { None };
        let spread = if r.chance(1, 2) { Some(within(r, 1, 500_000_000_000_000_000, &mut bad)) } else { None };
        let cool = if r.chance(1, 2) { Some(within(r, 30, 600, &mut bad)) } else { None };
        let second = if r.chance(1, 2) { Some((addr(r, &mut bad), within(r, 1, 50, &mut bad))) } else { None };
        let bridge = if r.chance(1, 2) { Some(asset(r, k, &mut bad)) } else { None };
        let astro = asset(r, k, &mut bad);
        let fac = addr(r, &mut bad);
        bad |= staking.is_none() && (gov.is_none() || pc != Some(100));
        let msg = json!({"owner": "wasm1ownmaker", "default_bridge": bridge, "astro_token": astro, "factory_contract": fac, "staking_contract": staking,
            "governance_contract": gov, "governance_percent": pc.map(|x| x.to_string()), "max_spread": spread.map(dec), "collect_cooldown": cool,
            "second_receiver_params": second.as_ref().map(|(a, c)| json!({"second_fee_receiver": a, "second_receiver_cut": c.to_string()}))});
        m.step(|| format!("deploy maker {msg}"));
        let res = k.w.c.instantiate(code, "wasm1deployer", &msg, &[], "m");
        m.check(P, "maker-deployment", res.is_err() == bad, || format!("settings {}: {res:?}", if bad { "senseless" } else { "sensible" }));
        if let (Ok((a, _)), false) = (&res, bad) {
            let got = k.w.c.query::<Value>(a, &json!({"config": {}})).unwrap();
            let want = json!({"owner": "wasm1ownmaker", "default_bridge": bridge, "astro_token": astro, "factory_contract": fac, "staking_contract": staking,
                "dev_fund_conf": null, "governance_contract": gov, "governance_percent": pc.unwrap_or(0).to_string(),
                "max_spread": spread.map(dec).unwrap_or(json!("0.05")), "remainder_reward": "0", "pre_upgrade_astro_amount": "0",
                "second_receiver_cfg": second.as_ref().map(|(a, c)| json!({"second_fee_receiver": a, "second_receiver_cut": c.to_string()}))});
            m.check(P, "maker-deployed", got == want, || format!("deployed with {want}, it answers {got}"));
            let sz = k.w.c.query::<Value>(a, &json!({"query_seize_config": {}})).unwrap();
            m.check(P, "maker-seizes-at-birth", sz["seizable_assets"] == json!([]), || format!("{sz}"));
            m.count("deployments compared");
            return a.clone();
        }
    }
    k.maker.clone()
}
fn logo(r: &mut Rng) -> (Value, bool, Vec<u8>, &'static str) {
    let size = *r.pick(&[60usize, 5120, 5121, 200, 9000]);
    let pad = |mut b: Vec<u8>, n: usize| {
        while b.len() < n {
            b.push(b' ');
        }
        b
    };
    match r.below(6) {
        0 | 1 => {
            let u = format!("https://x/{}", r.below(9));
            (json!({"url": u}), true, u.into_bytes(), "url")
        }
        2 => {
            let b = pad(b"<?xml version=\"1.0\"?><svg></svg>".to_vec(), size);
            (json!({"embedded": {"svg": Binary::from(b.clone())}}), size <= 5120, b, "image/svg+xml")
        }
        3 => {
            let b = pad(b"<svg></svg>".to_vec(), 60);
            (json!({"embedded": {"svg": Binary::from(b.clone())}}), false, b, "image/svg+xml")
        }
        4 => {
            let b = pad(vec![0x89, b'P', b'N', b'G', 0x0d, 0x0a, 0x1a, 0x0a], size);
            (json!({"embedded": {"png": Binary::from(b.clone())}}), size <= 5120, b, "image/png")
        }
        _ => {
            let b = pad(vec![0x89, b'P', b'N', b'G', 0x0d, 0x0a, 0x1a], 60);
            (json!({"embedded": {"png": Binary::from(b.clone())}}), false, b, "image/png")
        }
    }
}
fn ask(r: &mut Rng, s: &S, now: &Snap) -> Ask {
    let k = &s.k;
    let mut bad = false;
    let mut set: Vec<(String, String, Value)> = vec![];
    let mut msg = serde_json::Map::new();
    match r.below(12) {
        0 | 1 => {
            let (on, view) = if r.chance(1, 2) { (k.factory(), "factory") } else { (s.fac2.clone(), "factory2") };
            let mut put = |f: &str, v: Value| {
                msg.insert(f.into(), v.clone());
                set.push((view.into(), format!("/{f}"), v.clone()));
                v
            };
            if r.chance(1, 3) {
                put("token_code_id", json!(r.below(100)));
            }
            if r.chance(1, 3) {
                put("whitelist_code_id", json!(r.below(100)));
            }
            for f in ["fee_address", "generator_address", "coin_registry_address"] {
                // (the registry in use must keep answering)
                if r.chance(1, 3) && !(f == "coin_registry_address" && view == "factory") {
                    put(f, json!(addr(r, &mut bad)));
                }
            }
            Ask { on, kind: "factory", who: OWNER.into(), msg: json!({"update_config": msg}), ok: Some(!bad), set }
        }
        2 => {
            let p = pair_config(r, &mut bad);
            Ask { on: s.fac2.clone(), kind: "pair type", who: OWNER.into(), msg: json!({"update_pair_config": {"config": p}}), ok: Some(!bad),
                set: vec![("factory2".into(), format!("/pair_configs/{}", name(&p["pair_type"])), p)] }
        }
        3 => {
            let code = r.range(1, 1000);
            let a = if r.chance(1, 2) { Some(addr(r, &mut bad)) } else { None };
            let msg = json!({"update_tracker_config": {"tracker_code_id": code, "token_factory_addr": a}});
            let (ok, set) = if s.tracked2 {
                // the address given besides is not looked at
                (if bad { None } else { Some(true) }, vec![("tracker2".to_string(), "/code_id".to_string(), json!(code))])
            } else {
                (Some(a.is_some() && !bad), vec![("tracker2".to_string(), String::new(), json!({"code_id": code, "token_factory_addr": a}))])
            };
            Ask { on: s.fac2.clone(), kind: "tracker", who: OWNER.into(), msg, ok, set }
        }
        4 | 5 => {
            let mut put = |f: &str, v: Value| {
                msg.insert(f.into(), v.clone());
                set.push(("incentives".into(), format!("/{f}"), v));
            };
            for f in ["vesting_contract", "generator_controller", "guardian"] {
                if r.chance(1, 3) {
                    put(f, json!(addr(r, &mut bad)));
                }
            }
            if r.chance(1, 4) {
                put("astro_token", asset(r, k, &mut bad));
            }
            if r.chance(1, 3) {
                put("token_transfer_gas_limit", json!(within(r, 400_000, 1_500_000, &mut bad)));
            }
            if r.chance(1, 3) {
                let d = if r.chance(1, 10) {
                    bad = true;
                    "1x"
                } else {
                    "uusd"
                };
                put("incentivization_fee_info", json!({"fee_receiver": addr(r, &mut bad), "fee": {"denom": d, "amount": r.below(1 << 50).to_string()}}));
            }
            Ask { on: k.inc.clone(), kind: "incentives", who: "wasm1owninc".into(), msg: json!({"update_config": msg}), ok: Some(!bad), set }
        }
        6 | 7 => {
            let (on, view) = if r.chance(1, 2) { (k.maker.clone(), "maker") } else { (s.maker2.clone(), "maker2") };
            let cur = &now[view];
            let mut put = |f: &str, v: Value| {
                msg.insert(f.into(), v.clone());
                set.push((view.into(), format!("/{f}"), v));
            };
            let mut unsure = false;
            let staked = !cur["staking_contract"].is_null();
            let mut fac = cur["factory_contract"].clone();
            let mut astro = cur["astro_token"].clone();
            let mut now_staked = staked;
            if view == "maker2" && r.chance(1, 4) {
                fac = if r.chance(1, 2) { json!(k.factory()) } else { json!(addr(r, &mut bad)) };
                put("factory_contract", fac.clone());
            }
            if r.chance(1, 5) {
                put("staking_contract", json!(addr(r, &mut bad)));
                now_staked = true;
                unsure |= !staked;
            }
            if r.chance(1, 3) {
                let pc = if !now_staked && r.chance(1, 2) { 100 } else { within(r, 0, 100, &mut bad) };
                bad |= !now_staked && pc != 100;
                put("governance_percent", json!(pc.to_string()));
            }
            if r.chance(1, 4) {
                put("max_spread", dec(within(r, 1, 500_000_000_000_000_000, &mut bad)));
            }
            if r.chance(1, 5) {
                astro = asset(r, k, &mut bad);
                put("astro_token", astro.clone());
            }
            if r.chance(1, 3) {
                if r.chance(1, 2) {
                    let a = addr(r, &mut bad);
                    msg.insert("governance_contract".into(), json!({"set": a}));
                    set.push((view.into(), "/governance_contract".into(), json!(a)));
                } else {
                    bad |= !now_staked;
                    msg.insert("governance_contract".into(), json!({"remove": {}}));
                    set.push((view.into(), "/governance_contract".into(), Value::Null));
                }
            }
            if r.chance(1, 4) {
                let b = asset(r, k, &mut bad);
                msg.insert("basic_asset".into(), b.clone());
                set.push((view.into(), "/default_bridge".into(), b));
            }
            if r.chance(1, 4) {
                let v = json!({"second_fee_receiver": addr(r, &mut bad), "second_receiver_cut": within(r, 1, 50, &mut bad).to_string()});
                msg.insert("second_receiver_params".into(), v.clone());
                set.push((view.into(), "/second_receiver_cfg".into(), v));
            }
            if r.chance(1, 4) {
                msg.insert("collect_cooldown".into(), json!(within(r, 30, 600, &mut bad)));
            }
            if r.chance(1, 4) {
                let v = if r.chance(1, 3) {
                    Value::Null
                } else {
                    let info = js(r.pick(&k.w.toks));
                    bad |= fac != json!(k.factory()) || !has_pool(k, &astro, &info);
                    json!({"address": addr(r, &mut bad), "share": dec(within(r, 1, 1_000_000_000_000_000_000, &mut bad)), "asset_info": info})
                };
                msg.insert("dev_fund_config".into(), json!({"set": v}));
                set.push((view.into(), "/dev_fund_conf".into(), v));
            }
            let ok = if unsure && !bad { None } else { Some(!bad) };
            Ask { on, kind: "maker", who: "wasm1ownmaker".into(), msg: json!({"update_config": msg}), ok, set }
        }
        8 => {
            if r.chance(1, 2) {
                let l: Vec<Value> = (0..r.below(4)).map(|_| js(r.pick(&k.w.toks))).collect();
                msg.insert("seizable_assets".into(), json!(l));
                set.push(("seize".into(), "/seizable_assets".into(), json!(l)));
                if r.chance(1, 2) {
                    let a = addr(r, &mut bad);
                    msg.insert("receiver".into(), json!(a));
                    set.push(("seize".into(), "/receiver".into(), json!(a)));
                }
                Ask { on: k.maker.clone(), kind: "seizing", who: "wasm1ownmaker".into(), msg: json!({"update_seize_config": msg}), ok: Some(!bad), set }
            } else {
                let mut cur = now["bridges"].as_object().cloned().unwrap_or_default();
                let astro = now["maker"]["astro_token"].clone();
                let fac_ok = now["maker"]["factory_contract"] == json!(k.factory());
                let (mut unsure, mut rm, mut add) = (!fac_ok, vec![], vec![]);
                for _ in 0..r.below(3) {
                    let t = r.pick(&k.w.toks);
                    cur.remove(&t.id);
                    rm.push(js(t));
                }
                for _ in 0..r.below(3) {
                    let (a, b) = (r.pick(&k.w.toks), r.pick(&k.w.toks));
                    bad |= a.id == b.id || !has_pool(k, &js(a), &js(b));
                    // a longer way to the protocol's token may or may not exist
                    unsure |= !has_pool(k, &js(b), &astro);
                    cur.insert(a.id.clone(), json!(b.id));
                    add.push(json!([js(a), js(b)]));
                }
                let ok = if bad && fac_ok { Some(false) } else if unsure { None } else { Some(true) };
                Ask { on: k.maker.clone(), kind: "bridges", who: "wasm1ownmaker".into(), msg: json!({"update_bridges": {"add": add, "remove": rm}}), ok,
                    set: vec![("bridges".into(), String::new(), Value::Object(cur))] }
            }
        }
        9 => {
            let (i, view) = *r.pick(&[(k.xyk, "xyk"), (k.stb, "stable"), (k.pcl, "pcl")]);
            let (p, v) = if r.chance(1, 3) {
                (json!("disable_fee_share"), Value::Null)
            } else {
                let a = addr(r, &mut bad);
                let b = within(r, 1, 1000, &mut bad);
                (json!({"enable_fee_share": {"fee_share_bps": b, "fee_share_address": a}}), json!({"bps": b, "recipient": a}))
            };
            let on = k.pool(i);
            Ask { who: k.owner(&on), on, kind: "fee share", msg: json!({"update_config": {"params": bin(&p)}}), ok: Some(!bad), set: vec![(view.into(), "/params/fee_share".into(), v)] }
        }
        10 => {
            let cur = &now["pcl"]["params"];
            let d = |v: &Value| v.as_str().unwrap().parse::<cosmwasm_std::Decimal>().unwrap().atomics().u128();
            let (mut mid, mut out) = (d(&cur["mid_fee"]), d(&cur["out_fee"]));
            let mut put = |f: &str, v: Value| {
                msg.insert(f.into(), v.clone());
                set.push(("pcl".into(), format!("/params/{f}"), v));
            };
            let one = 1_000_000_000_000_000_000u128;
            let fee = |r: &mut Rng, bad: &mut bool| match r.below(8) {
                0 => within(r, 50_000_000_000_000, one / 100, bad),
                1 => mid.clamp(50_000_000_000_000, one / 100),
                2 => out.clamp(50_000_000_000_000, one / 100),
                _ => r.range128(50_000_000_000_000, one / 100),
            };
            let (nm, no) = (r.chance(1, 3), r.chance(1, 3));
            let (a, b) = (fee(r, &mut bad), fee(r, &mut bad) );
            if nm {
                mid = a;
                put("mid_fee", dec(a));
            }
            if no {
                out = b;
                put("out_fee", dec(b));
            }
            if !nm && !no {
                bad = false;
            } else {
                bad = [(nm, a), (no, b)].iter().any(|(x, v)| *x && (*v < 50_000_000_000_000 || *v > one / 100));
                bad |= out <= mid;
            }
            if r.chance(1, 4) {
                put("fee_gamma", dec(within(r, 0, one, &mut bad)));
            }
            if r.chance(1, 4) {
                put("repeg_profit_threshold", dec(within(r, 0, one / 100, &mut bad)));
            }
            if r.chance(1, 4) {
                put("min_price_scale_delta", dec(within(r, 0, one, &mut bad)));
            }
            if r.chance(1, 4) {
                put("ma_half_time", json!(within(r, 1, 604_800, &mut bad) as u64));
            }
            let on = k.pool(k.pcl);
            Ask { who: k.owner(&on), on, kind: "pool parameters", msg: json!({"update_config": {"params": bin(&json!({"update": msg}))}}), ok: Some(!bad), set }
        }
        _ => {
            if r.chance(1, 2) {
                let mut put = |f: &str, v: Value| {
                    msg.insert(f.into(), v.clone());
                    set.push(("tax".into(), format!("/params/{f}"), v));
                };
                if r.chance(2, 3) {
                    let mut t = serde_json::Map::new();
                    for _ in 0..r.below(3) {
                        let d = match r.below(10) {
                            0 => {
                                bad = true;
                                k.w.toks[1].id.clone()
                            }
                            x => k.w.toks[if x % 2 == 0 { 0 } else { 2 }].id.clone(),
                        };
                        t.insert(d, json!({"tax_rate": dec(within(r, 0, 500_000_000_000_000_000, &mut bad)), "tax_recipient": addr(r, &mut bad)}));
                    }
                    // (a later entry may have replaced a senseless one)
                    bad = t.iter().any(|(d, v)| *d == k.w.toks[1].id || v["tax_recipient"] == json!(BAD)
                        || v["tax_rate"].as_str().unwrap().parse::<cosmwasm_std::Decimal>().unwrap() > cosmwasm_std::Decimal::percent(50));
                    put("tax_configs", Value::Object(t));
                }
                if r.chance(1, 3) {
                    put("tax_config_admin", json!(addr(r, &mut bad)));
                }
                Ask { on: k.pool(k.tax), kind: "taxes", who: s.tax_admin.clone(), msg: json!({"update_config": {"params": bin(&Value::Object(msg))}}), ok: Some(!bad), set }
            } else if r.chance(1, 2) {
                for f in ["project", "description"] {
                    if r.chance(1, 2) {
                        let v = r.pick(&["", "a text", "another"]).to_string();
                        set.push(("marketing".into(), format!("/{f}"), if v.is_empty() { Value::Null } else { json!(v) }));
                        msg.insert(f.into(), json!(v));
                    }
                }
                if r.chance(1, 4) {
                    let v = if r.chance(1, 6) { String::new() } else { addr(r, &mut bad) };
                    set.push(("marketing".into(), "/marketing".into(), if v.is_empty() { Value::Null } else { json!(v) }));
                    msg.insert("marketing".into(), json!(v));
                }
                let who = s.marketing.clone().unwrap_or("wasm1chosen0".into());
                Ask { on: k.xas.clone(), kind: "marketing", who, msg: json!({"update_marketing": msg}), ok: Some(!bad && s.marketing.is_some()), set }
            } else {
                let (l, ok, b, mime) = logo(r);
                set.push(("marketing".into(), "/logo".into(), if mime == "url" { l.clone() } else { json!("embedded") }));
                let dl = if mime == "url" { Value::Null } else { json!({"mime_type": mime, "data": Binary::from(b)}) };
                set.push(("logo".into(), String::new(), dl));
                let who = s.marketing.clone().unwrap_or("wasm1chosen0".into());
                Ask { on: k.xas.clone(), kind: "logo", who, msg: json!({"upload_logo": l}), ok: Some(ok && s.marketing.is_some()), set }
            }
        }
    }
}
pub fn settings(r: &mut Rng, m: &mut Mon) {
    let k = build(r);
    let fcode = k.w.codes.factory;
    let (fac2, tracked2) = deploy_factory(r, m, &k, fcode);
    let maker2 = deploy_maker(r, m, &k);
    if m.failed() {
        return;
    }
    let cfg = json!({"config": {}});
    let mut views: Vec<(String, String, Value)> = vec![];
    for (n, a) in [("factory", k.factory()), ("factory2", fac2.clone()), ("incentives", k.inc.clone()), ("maker", k.maker.clone()), ("maker2", maker2.clone()),
        ("xyk", k.pool(k.xyk)), ("tax", k.pool(k.tax)), ("stable", k.pool(k.stb)), ("pcl", k.pool(k.pcl)), ("transmuter", k.pool(k.trn)),
        ("vesting", k.vest.clone()), ("vesting2", k.vest2.clone()), ("grants", k.gran.clone()), ("router", k.router.clone()), ("converter", k.conv.clone()), ("registry", k.w.registry.clone())] {
        views.push((n.into(), a, cfg.clone()));
    }
    views.push(("tracker".into(), k.factory(), json!({"tracker_config": {}})));
    views.push(("tracker2".into(), fac2.clone(), json!({"tracker_config": {}})));
    views.push(("bridges".into(), k.maker.clone(), json!({"bridges": {}})));
    views.push(("bridges2".into(), maker2.clone(), json!({"bridges": {}})));
    views.push(("seize".into(), k.maker.clone(), json!({"query_seize_config": {}})));
    views.push(("marketing".into(), k.xas.clone(), json!({"marketing_info": {}})));
    views.push(("logo".into(), k.xas.clone(), json!({"download_logo": {}})));
    views.push(("list".into(), k.wl.clone(), json!({"admin_list": {}})));
    for (i, p) in k.w.pools.iter().enumerate() {
        views.push((format!("pair {i}"), p.addr.clone(), json!({"pair": {}})));
    }
    let mut s = S { k, fac2, maker2, views, tracked2, tax_admin: TAXADM.into(), marketing: Some(MKTG.into()) };
    let mut now = snap(&s);
    let dead: Vec<String> = now.iter().filter(|(_, v)| v.is_null()).map(|(n, _)| n.clone()).collect();
    m.check(P, "answers", dead.iter().all(|n| ["tracker2", "router", "logo", "tracker"].contains(&n.as_str())), || format!("no answer from {dead:?}"));
    let steps = r.range(10, 60);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        if r.chance(1, 4) {
            s.k.w.c.advance(1, r.range(1, 100_000));
        }
        let q = ask(r, &s, &now);
        m.step(|| format!("{}: {} by {}", q.kind, q.msg, q.who));
        let c = &s.k.w.c;
        let res = attempt(c, m, P, || c.exec(&q.who, &q.on, &q.msg, &[]));
        match q.ok {
            Some(true) => {
                must_accept(m, P, &format!("sensible-{}", q.kind.replace(' ', "-")), &res);
            }
            Some(false) => must_refuse(m, P, &format!("senseless-{}", q.kind.replace(' ', "-")), &res),
            None => {}
        }
        let after = snap(&s);
        let mut want = now.clone();
        if res.is_ok() {
            for (view, path, v) in &q.set {
                let w = want.get_mut(view).unwrap();
                if path.is_empty() {
                    *w = v.clone();
                } else {
                    let (head, last) = path.rsplit_once('/').unwrap();
                    w.pointer_mut(head).unwrap()[last] = v.clone();
                }
            }
            m.seen(P, (q.kind, q.set.iter().map(|x| x.1.clone()).collect::<Vec<_>>()));
            m.count(&format!("accepted: {}", q.kind));
            // those who may act next
            for (view, path, v) in &q.set {
                match (view.as_str(), path.as_str()) {
                    ("tracker2", _) => s.tracked2 = true,
                    ("tax", "/params/tax_config_admin") => s.tax_admin = v.as_str().unwrap().into(),
                    ("marketing", "/marketing") => s.marketing = v.as_str().map(|x| x.to_string()),
                    _ => {}
                }
            }
        } else {
            m.seen(P, (q.kind, "refused", q.set.len()));
        }
        for (n, w) in &want {
            let g = &after[n];
            m.check(P, &format!("settings-{}", n.split(' ').next().unwrap()), g == w, || {
                format!("after {} ({}): {n} answers {g}, expected {w}", q.msg, if res.is_ok() { "accepted" } else { "refused" })
            });
        }
        m.sample(P, || format!("{}: {} fields asked, {}", q.kind, q.set.len(), if res.is_ok() { "accepted" } else { "refused" }));
        now = after;
    }
    // what was deployed with its logo
    if r.chance(1, 3) {
        use astroport_xastro_token::contract as x;
        let (l, ok, _, _) = logo(r);
        let c = &s.k.w.c;
        let code = c.store(Code::new("xastro", x::instantiate, x::execute, x::query));
        let res = c.instantiate(code, "wasm1deployer", &json!({"name": "Staked", "symbol": "XAS", "decimals": 6, "initial_balances": [], "mint": null,
            "marketing": {"project": null, "description": null, "marketing": MKTG, "logo": l}}), &[], "x");
        m.check(P, "logo-at-birth", res.is_ok() == ok, || format!("logo {l}: {res:?}"));
    }
}
