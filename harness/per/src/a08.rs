//! A08: upgrades keep every balance, setting and history, and are refused for anything but the supported versions.
//! Each contract lives through real operations, is put back into the stored form of an older version and upgraded; its answers
//! and the outcome of operations in that state (dry runs) are compared before and after.
use crate::city::{self, bin, js, City};
use crate::common::*;
use serde_json::Value;
use world::{Fees, Prov, Sw, World};
const P: &str = "A08";
const ADM: &str = "wasm1chainadmin";
type Out = Vec<(String, Result<String, ()>)>;

fn set(c: &Chain, a: &str, k: &[u8], v: &Value) {
    c.w.borrow_mut().contracts.get_mut(a).unwrap().store.insert(k.to_vec(), serde_json::to_vec(v).unwrap());
}
fn get(c: &Chain, a: &str, k: &[u8]) -> Option<Value> {
    c.raw_store(a).get(k).map(|v| serde_json::from_slice(v).unwrap())
}
fn del(c: &Chain, a: &str, k: &[u8]) {
    c.w.borrow_mut().contracts.get_mut(a).unwrap().store.remove(k);
}
fn ns(n: &str) -> Vec<u8> {
    let mut v = (n.len() as u16).to_be_bytes().to_vec();
    v.extend(n.as_bytes());
    v
}
fn version(c: &Chain, a: &str) -> (String, String) {
    let v = get(c, a, b"contract_info").expect("version");
    (v["contract"].as_str().unwrap().into(), v["version"].as_str().unwrap().into())
}
fn set_version(c: &Chain, a: &str, name: &str, ver: &str) {
    set(c, a, b"contract_info", &json!({"contract": name, "version": ver}));
}
const NAMES: [&str; 14] = [
    "astroport-router", "astroport-native-coin-registry", "astroport-incentives", "astroport-factory", "astroport-pair-concentrated", "astroport-maker",
    "astroport-oracle", "astroport-tokenfactory-tracker", "astroport-vesting", "astroport-staking", "astroport-xastro-token", "astroport-pair", "crates.io:foreign", "",
];
/// versions no contract can be upgraded from
const STRANGE: [&str; 6] = ["0.0.9", "99.1.0", "1.99.0", "", "1", "2.0.00"];
/// upgrades from anything else are refused (the state of the contract is that before)
fn refusals(c: &Chain, r: &mut Rng, m: &mut Mon, a: &str, code: u64, name: &str, ok: &[&str], msg: &Value) {
    let (n0, v0) = version(c, a);
    for _ in 0..2 {
        let (n, v) = if r.chance(1, 2) {
            (name.to_string(), r.pick(&STRANGE).to_string())
        } else {
            let n = *r.pick(&NAMES);
            if n == name {
                continue;
            }
            (n.into(), if ok.is_empty() { "1.0.0".into() } else { r.pick(ok).to_string() })
        };
        set_version(c, a, &n, &v);
        let x = attempt(c, m, P, || c.migrate(ADM, a, code, msg));
        must_refuse(m, P, &format!("upgrade-of-foreign-version-{name}"), &x);
    }
    set_version(c, a, &n0, &v0);
}
/// answers and effects of operations, each dry
fn observe(c: &Chain, qs: &[(String, Value)], ops: &[(String, String, Value, Vec<Coin>, u64)]) -> Out {
    let mut o: Out = vec![];
    for (a, q) in qs {
        let v = c.query::<Value>(a, q).map(|v| v.to_string()).map_err(|_| ());
        o.push((format!("query {q}"), v));
    }
    for (i, (who, a, msg, funds, wait)) in ops.iter().enumerate() {
        let v = c.dry(|| {
            if *wait > 0 {
                c.advance(1 + wait / 6, *wait);
            }
            let tok: Vec<String> = vec![];
            let b = ledger(c, &tok, &[]);
            c.exec(who, a, msg, funds).map(|_| format!("{:?}", diff(&b, &ledger(c, &tok, &[])))).map_err(|_| ())
        });
        o.push((format!("op {i} {who} {msg} after {wait}s"), v));
    }
    o
}
fn same(m: &mut Mon, what: &str, a: &Out, b: &Out) {
    for (x, y) in a.iter().zip(b) {
        m.check(P, &format!("changed-{what}"), x == y, || format!("upgrade of {what}: {} gave {:?} before and {:?} after", x.0, x.1, y.1));
        m.seen(P, (what, &x.0[..x.0.len().min(24)], x.1.is_ok()));
        m.count(if x.1.is_ok() { "comparisons: served" } else { "comparisons: refused" });
    }
}
/// an upgrade that must leave everything as it is
fn plain(c: &Chain, r: &mut Rng, m: &mut Mon, what: &str, a: &str, code: Code, name: &str, ok: &[&str], msg: Value, qs: &[(String, Value)], ops: &[(String, String, Value, Vec<Coin>, u64)]) {
    let code = c.store(code);
    refusals(c, r, m, a, code, name, ok, &msg);
    let before = observe(c, qs, ops);
    set_version(c, a, name, *r.pick(ok));
    let b = ledger(c, &[], &[]);
    let x = attempt(c, m, P, || c.migrate(ADM, a, code, &msg));
    if !must_accept(m, P, &format!("upgrade-{what}"), &x) {
        return;
    }
    m.check(P, "funds-moved", ledger(c, &[], &[]) == b, || format!("upgrade of {what} moved funds"));
    same(m, what, &before, &observe(c, qs, ops));
    done(c, m, what, a, code, name, &msg);
}
/// after the upgrade the contract carries the new version, from which the same upgrade is not offered unless it changes nothing
fn done(c: &Chain, m: &mut Mon, what: &str, a: &str, _code: u64, _name: &str, _msg: &Value) {
    let (_, v) = version(c, a);
    m.check(P, "version", !STRANGE.contains(&v.as_str()), || format!("{what} is left with version {v}"));
    m.count(&format!("upgrades: {what}"));
}
fn q(a: &str, v: Value) -> (String, Value) {
    (a.to_string(), v)
}
fn op(who: &str, a: &str, v: Value, f: Vec<Coin>, wait: u64) -> (String, String, Value, Vec<Coin>, u64) {
    (who.into(), a.into(), v, f, wait)
}
pub fn upgrades(r: &mut Rng, m: &mut Mon) {
    match r.below(10) {
        0 => tracker(r, m),
        1 => staking(r, m),
        2 => oracle(r, m),
        3 => tax(r, m),
        _ => city(r, m),
    }
}
/// some life in the deployment
fn live(t: &mut City, r: &mut Rng) {
    for _ in 0..r.range(0, 6) {
        let u = t.w.users[r.idx(4)].clone();
        let i = *r.pick(&[t.xyk, t.tax, t.stb, t.pcl]);
        let p = t.w.pools[i].clone();
        let (x, y) = if r.chance(1, 2) { (0, 1) } else { (1, 0) };
        let a = r.log(1000, 50_000_000);
        let _ = t.w.swap(&u, &p, x, y, a, &Sw::loose());
        if r.chance(1, 2) {
            t.w.c.advance(r.range(1, 10), r.range(1, 50_000));
        }
        let lp = t.w.pools[t.xyk].lp.clone();
        match r.below(4) {
            0 => drop(t.w.c.exec(&u, &t.inc, &json!({"deposit": {}}), &[coin(r.range128(1, 1_000_000), &lp)])),
            1 => drop(t.w.c.exec("wasm1user0", &t.inc, &json!({"claim_rewards": {"lp_tokens": [lp]}}), &[])),
            2 => drop(t.w.c.exec("wasm1user0", &t.xas, &json!({"transfer": {"recipient": u, "amount": r.range(1, 1000).to_string()}}), &[])),
            _ => {
                let k = *r.pick(&["max_spread", "governance_percent"]);
                let v = if k == "max_spread" { json!("0.07") } else { json!("30") };
                let _ = t.w.c.exec("wasm1ownmaker", &t.maker, &json!({"update_config": {k: v}}), &[]);
            }
        }
    }
}
fn city(r: &mut Rng, m: &mut Mon) {
    let mut t = city::build(r);
    live(&mut t, r);
    let c = &t.w.c;
    let toks = &t.w.toks;
    let (f, reg) = (t.factory(), t.w.registry.clone());
    let pool_of = |i: usize| t.w.pools[i].clone();
    let lp = pool_of(t.xyk).lp.clone();
    let u = "wasm1user0";
    let n = coin(r.range128(10_000, 3_000_000), &toks[0].id);
    let infos: Vec<Value> = toks.iter().take(6).map(js).collect();
    match r.below(12) {
        11 => tax_of_today(&t, r, m),
        0 => {
            use astroport_router::contract as k;
            let hops = json!([{"astro_swap": {"offer_asset_info": infos[0], "ask_asset_info": infos[1]}}, {"astro_swap": {"offer_asset_info": infos[1], "ask_asset_info": infos[2]}}]);
            let qs = [q(&t.router, json!({"config": {}})), q(&t.router, json!({"simulate_swap_operations": {"offer_amount": n.amount, "operations": hops}}))];
            let ops = [op(u, &t.router, json!({"execute_swap_operations": {"operations": hops, "minimum_receive": null, "to": null, "max_spread": "0.5"}}), vec![n], 0)];
            let code = Code::new("router", k::instantiate, k::execute, k::query).with_reply(k::reply).with_migrate(k::migrate);
            plain(c, r, m, "router", &t.router, code, "astroport-router", &["1.1.2", "1.2.0", "1.3.0"], json!({}), &qs, &ops);
        }
        1 => {
            use astroport_native_coin_registry::contract as k;
            let mut qs = vec![q(&reg, json!({"config": {}})), q(&reg, json!({"native_tokens": {"limit": 30}})), q(&reg, json!({"native_token": {"denom": "unknown"}}))];
            qs.extend(toks.iter().map(|x| q(&reg, json!({"native_token": {"denom": x.id}}))));
            let add = json!({"add": {"native_coins": [["ufresh", 7]]}});
            let ops = [op(OWNER, &reg, add.clone(), vec![], 0), op(u, &reg, add, vec![], 0), op(OWNER, &reg, json!({"remove": {"native_coins": [toks[1].id]}}), vec![], 0)];
            let code = Code::new("registry", k::instantiate, k::execute, k::query).with_migrate(k::migrate);
            plain(c, r, m, "registry", &reg, code, "astroport-native-coin-registry", &["1.0.1"], json!({}), &qs, &ops);
        }
        2 => {
            use astroport_incentives as k;
            let i = &t.inc;
            let mut qs = vec![
                q(i, json!({"config": {}})), q(i, json!({"pool_info": {"lp_token": lp}})), q(i, json!({"reward_info": {"lp_token": lp}})), q(i, json!({"list_pools": {}})),
                q(i, json!({"active_pools": {}})), q(i, json!({"blocked_tokens_list": {}})), q(i, json!({"pool_stakers": {"lp_token": lp}})),
            ];
            for x in &t.w.users {
                qs.push(q(i, json!({"deposit": {"lp_token": lp, "user": x}})));
                qs.push(q(i, json!({"pending_rewards": {"lp_token": lp, "user": x}})));
            }
            for k in [1usize, 2] {
                qs.push(q(i, json!({"external_reward_schedules": {"reward": toks[k].id, "lp_token": lp}})));
            }
            let w = r.range(0, 2_000_000);
            let ops = [
                op(u, i, json!({"claim_rewards": {"lp_tokens": [lp]}}), vec![], w),
                op(u, i, json!({"withdraw": {"lp_token": lp, "amount": "1000"}}), vec![], w),
                op("wasm1user1", i, json!({"deposit": {}}), vec![coin(5, &lp)], w),
                op("wasm1owninc", i, json!({"claim_orphaned_rewards": {"receiver": "wasm1user3"}}), vec![], 0),
                op("wasm1owninc", i, json!({"set_tokens_per_second": {"amount": "77"}}), vec![], 0),
            ];
            let code = Code::new("incentives", k::instantiate::instantiate, k::execute::execute, k::query::query).with_reply(k::reply::reply).with_migrate(k::migrate::migrate);
            plain(c, r, m, "incentives", i, code, "astroport-incentives", &["1.0.0", "1.0.1", "1.1.0", "1.2.0"], json!({}), &qs, &ops);
        }
        3 => {
            use astroport_xastro_token::contract as k;
            let x = &t.xas;
            let h = c.height();
            let mut qs = vec![
                q(x, json!({"token_info": {}})), q(x, json!({"minter": {}})), q(x, json!({"marketing_info": {}})), q(x, json!({"all_accounts": {}})),
                q(x, json!({"total_supply_at": {"block": h}})), q(x, json!({"total_supply_at": {"block": h - r.below(1000)}})),
            ];
            for a in t.w.users.iter().map(|s| s.as_str()).chain([city::MINTER]) {
                qs.push(q(x, json!({"balance": {"address": a}})));
                qs.push(q(x, json!({"balance_at": {"address": a, "block": h - r.below(1000)}})));
            }
            let ops = [
                op(u, x, json!({"transfer": {"recipient": "wasm1user3", "amount": "5"}}), vec![], 0),
                op(city::MINTER, x, json!({"mint": {"recipient": u, "amount": "5"}}), vec![], 0),
                op(u, x, json!({"mint": {"recipient": u, "amount": "5"}}), vec![], 0),
                op(city::MKTG, x, json!({"update_marketing": {"project": "x"}}), vec![], 0),
            ];
            let code = Code::new("xastro", k::instantiate, k::execute, k::query).with_migrate(k::migrate);
            plain(c, r, m, "xastro token", x, code, "astroport-xastro-token", &["1.0.0", "1.0.1", "1.0.2"], json!({}), &qs, &ops);
        }
        4 => {
            use astroport_pair_concentrated as k;
            let p = pool_of(t.pcl);
            let a = &p.addr;
            let off = json!({"info": infos[0], "amount": n.amount});
            let mut qs: Vec<_> = ["pair", "pool", "config", "compute_d", "lp_price", "cumulative_prices", "pool_details"].iter().map(|k| q(a, json!({*k: {}}))).collect();
            qs.push(q(a, json!({"share": {"amount": "100000"}})));
            qs.push(q(a, json!({"simulation": {"offer_asset": off}})));
            qs.push(q(a, json!({"reverse_simulation": {"ask_asset": off}})));
            qs.push(q(a, json!({"observe": {"seconds_ago": 0}})));
            qs.push(q(a, json!({"asset_balance_at": {"asset_info": infos[0], "block_height": c.height().to_string()}})));
            let w = r.range(0, 50_000);
            let ops = [
                op(u, a, json!({"swap": {"offer_asset": off, "max_spread": "0.5"}}), vec![n.clone()], w),
                op(u, a, json!({"withdraw_liquidity": {}}), vec![coin(100_000, &p.lp)], w),
                op(OWNER, a, json!({"update_config": {"params": bin(&json!({"update": {"mid_fee": "0.003"}}))}}), vec![], 0),
            ];
            let code = Code::new("pcl", k::contract::instantiate, k::contract::execute, k::queries::query).with_reply(k::contract::reply).with_migrate(k::contract::migrate);
            plain(c, r, m, "concentrated pool", a, code, "astroport-pair-concentrated", &["4.0.0", "4.0.1", "4.1.0"], json!({}), &qs, &ops);
        }
        5 => {
            // no way from cw20 LP tokens to these pools: an upgrade is refused, whatever the pool claims to be
            use astroport_pair as x;
            use astroport_pair_stable as s;
            use astroport_pair_transmuter as tr;
            for (i, name, code) in [
                (t.xyk, "astroport-pair", Code::new("xyk", x::contract::instantiate, x::contract::execute, x::contract::query).with_migrate(x::contract::migrate)),
                (t.stb, "astroport-pair-stable", Code::new("stable", s::contract::instantiate, s::contract::execute, s::contract::query).with_migrate(s::contract::migrate)),
                (t.trn, "astroport-pair-transmuter", Code::new("trans", tr::contract::instantiate, tr::contract::execute, tr::queries::query).with_migrate(tr::contract::migrate)),
            ] {
                let code = c.store(code);
                let a = t.pool(i);
                set_version(c, &a, name, *r.pick(&["1.0.0", "1.3.3", "1.5.0", "2.0.0", "4.0.0"]));
                let z = attempt(c, m, P, || c.migrate(ADM, &a, code, &json!({})));
                must_refuse(m, P, "upgrade-of-a-pool-without-a-safe-path", &z);
            }
        }
        6 | 7 => factory(&t, r, m),
        8 | 9 => maker(&t, r, m),
        _ => {
            // the vesting contract: only for its own token and only from the supported versions (what an upgrade does is T01's)
            use astroport_vesting::contract as k;
            let code = c.store(Code::new("vesting", k::instantiate, k::execute, k::query).with_migrate(k::migrate));
            let msg = json!({"converter_contract": t.conv});
            refusals(c, r, m, &t.vest, code, "astroport-vesting", &["1.1.0", "1.2.0", "1.3.0", "1.3.1"], &msg);
            set_version(c, &t.vest, "astroport-vesting", *r.pick(&["1.1.0", "1.2.0", "1.3.0", "1.3.1"]));
            let z = attempt(c, m, P, || c.migrate(ADM, &t.vest, code, &msg));
            must_refuse(m, P, "vesting-upgrade-with-foreign-converter", &z);
        }
    }
}
fn factory(t: &City, r: &mut Rng, m: &mut Mon) {
    use astroport_factory::contract as k;
    let c = &t.w.c;
    let f = t.factory();
    let code = c.store(Code::new("factory", k::instantiate, k::execute, k::query).with_reply(k::reply).with_migrate(k::migrate));
    const OLD: [&str; 3] = ["1.3.1", "1.5.1", "1.6.0"];
    const ALL: [&str; 6] = ["1.3.1", "1.5.1", "1.6.0", "1.7.0", "1.8.0", "1.8.1"];
    // a random configuration
    if r.chance(1, 2) {
        let cfg: Value = c.query(&f, &json!({"config": {}})).unwrap();
        let mut pc = r.pick(cfg["pair_configs"].as_array().unwrap()).clone();
        pc["is_disabled"] = json!(r.chance(1, 2));
        pc["is_generator_disabled"] = json!(r.chance(1, 2));
        pc["maker_fee_bps"] = json!(r.below(10_001));
        let _ = c.exec(OWNER, &f, &json!({"update_pair_config": {"config": pc}}), &[]);
    }
    refusals(c, r, m, &f, code, "astroport-factory", &ALL, &json!({}));
    let v = *r.pick(&ALL);
    let trk = if r.chance(1, 2) { json!({"code_id": r.range(1, 99), "token_factory_addr": "wasm1tokenmodule"}) } else { Value::Null };
    if trk.is_object() && r.chance(1, 4) && !v.starts_with("1.8") {
        set_version(c, &f, "astroport-factory", v);
        let (n, old) = (version(c, &f), trk.clone());
        let x = attempt(c, m, P, || {
            let mut b = old.clone();
            b["token_factory_addr"] = json!("WASM1BAD");
            // an upgrade that fails midway leaves the old form intact
            c.migrate(ADM, &f, code, &json!({"tracker_config": b}))
        });
        must_refuse(m, P, "upgrade-with-invalid-address", &x);
        m.check(P, "version", version(c, &f) == n, || "version changed".into());
    }
    let cfg0: Value = c.query(&f, &json!({"config": {}})).unwrap();
    let mut qs = vec![q(&f, json!({"pairs": {"limit": 30}})), q(&f, json!({"blacklisted_pair_types": {}}))];
    for p in &t.w.pools {
        qs.push(q(&f, json!({"pair": {"asset_infos": p.toks.iter().map(js).collect::<Vec<_>>()}})));
    }
    for p in cfg0["pair_configs"].as_array().unwrap() {
        qs.push(q(&f, json!({"fee_info": {"pair_type": p["pair_type"]}})));
    }
    let pcl = t.w.pools[t.pcl].clone();
    let ops = vec![
        op(OWNER, &f, json!({"update_config": {"fee_address": "wasm1other"}}), vec![], 0),
        op("wasm1user1", &f, json!({"update_config": {"fee_address": "wasm1other"}}), vec![], 0),
        op(OWNER, &f, json!({"deregister": {"asset_infos": pcl.toks.iter().map(js).collect::<Vec<_>>()}}), vec![], 0),
        op("wasm1user1", &f, json!({"create_pair": {"pair_type": {"xyk": {}}, "asset_infos": [js(&t.w.toks[2]), js(&t.w.toks[3])], "init_params": null}}), vec![], 0),
        op("wasm1user1", &t.w.pools[t.xyk].addr, json!({"swap": {"offer_asset": {"info": js(&t.w.pools[t.xyk].toks[0]), "amount": "3000"}, "max_spread": "0.5"}}), vec![coin(3000, &t.w.pools[t.xyk].toks[0].id)], 0),
    ];
    let old_trk = c.query::<Value>(&f, &json!({"tracker_config": {}})).ok();
    let before = observe(c, &qs, &ops);
    let rights = OLD.contains(&v);
    if rights {
        // the stored form before 1.7.0: no permission flag, concentrated pools with a type of their own (or as a custom type), no tracker
        let pre = ns("pair_configs");
        for (key, val) in c.raw_store(&f) {
            if !key.starts_with(&pre) {
                continue;
            }
            let mut x: Value = serde_json::from_slice(&val).unwrap();
            x.as_object_mut().unwrap().remove("permissioned");
            if x["pair_type"] == json!({"custom": "concentrated"}) && r.chance(2, 3) {
                x["pair_type"] = json!({"concentrated": {}});
                del(c, &f, &key);
                let mut nk = pre.clone();
                nk.extend(b"concentrated");
                set(c, &f, &nk, &x);
            } else {
                set(c, &f, &key, &x);
            }
        }
    }
    if !v.starts_with("1.8") {
        del(c, &f, b"tracker_config");
    }
    set_version(c, &f, "astroport-factory", v);
    let x = attempt(c, m, P, || c.migrate(ADM, &f, code, &json!({"tracker_config": trk})));
    if !must_accept(m, P, "upgrade-factory", &x) {
        return;
    }
    let norm = |mut v: Value| {
        let a = v["pair_configs"].as_array_mut().unwrap();
        a.sort_by_key(|x| x["pair_type"].to_string());
        v
    };
    let cfg1 = norm(c.query(&f, &json!({"config": {}})).unwrap_or(json!({"pair_configs": []})));
    m.check(P, "changed-factory-config", norm(cfg0.clone()) == cfg1, || format!("from {v}: {cfg0} -> {cfg1}"));
    same(m, "factory", &before, &observe(c, &qs, &ops));
    let new_trk = c.query::<Value>(&f, &json!({"tracker_config": {}})).ok();
    let want = if v.starts_with("1.8") { old_trk } else if trk.is_null() { None } else { Some(trk.clone()) };
    m.check(P, "factory-tracker", new_trk.as_ref().map(|x| x.to_string()) == want.as_ref().map(|x| x.to_string()), || format!("from {v} with {trk}: tracker {new_trk:?}, expected {want:?}"));
    m.seen(P, ("factory", v, trk.is_null(), cfg0["pair_configs"].as_array().unwrap().len()));
    done(c, m, "factory", &f, code, "", &Value::Null);
}
fn maker(t: &City, r: &mut Rng, m: &mut Mon) {
    use astroport_maker::{contract as k, reply as rp};
    let c = &t.w.c;
    let a = &t.maker;
    let code = c.store(Code::new("maker", k::instantiate, k::execute, k::query).with_reply(rp::reply).with_migrate(k::migrate));
    let toks = &t.w.toks;
    const ALL: [&str; 4] = ["1.2.0", "1.4.0", "1.5.0", "1.6.0"];
    refusals(c, r, m, a, code, "astroport-maker", &ALL, &json!({}));
    let v = *r.pick(&ALL);
    // a random older life: second receiver, bridges, governance
    if r.chance(1, 2) {
        let _ = c.exec("wasm1ownmaker", a, &json!({"update_config": {"governance_contract": {"set": t.sink}, "governance_percent": r.below(50).to_string()}}), &[]);
    }
    if r.chance(1, 2) {
        let p = json!({"second_fee_receiver": "wasm1second", "second_receiver_cut": r.range(1, 50).to_string()});
        let _ = c.exec("wasm1ownmaker", a, &json!({"update_config": {"second_receiver_params": p}}), &[]);
    }
    if r.chance(1, 2) {
        let _ = c.exec("wasm1ownmaker", a, &json!({"update_bridges": {"add": [[js(&toks[2]), js(&toks[0])]]}}), &[]);
    }
    if r.chance(1, 2) {
        let _ = c.exec("wasm1ownmaker", a, &json!({"propose_new_owner": {"owner": "wasm1nextowner", "expires_in": 1000}}), &[]);
    }
    if r.chance(1, 3) {
        // rewards not enabled yet, with something accrued; or enabled lately and paid out over the coming blocks
        let mut raw = get(c, a, b"config").unwrap();
        let pre = r.log(1, 1 << 40);
        c.fund(a, &toks[0].id, pre);
        let on = r.chance(2, 3);
        raw["rewards_enabled"] = json!(on);
        raw["pre_upgrade_astro_amount"] = json!(pre.to_string());
        raw["remainder_reward"] = json!(r.range128(0, pre + 1).to_string());
        raw["pre_upgrade_blocks"] = json!(if on { r.range(1, 1000) } else { 0 });
        raw["last_distribution_block"] = json!(c.height() - r.below(20));
        set(c, a, b"config", &raw);
        m.count("makers upgraded before everything accrued was paid");
    }
    let mut coll: Vec<Value> = vec![json!({"info": js(&toks[1]), "limit": null})];
    if r.chance(1, 2) {
        coll.push(json!({"info": js(&toks[2]), "limit": "777"}));
    }
    let collect = json!({"collect": {"assets": coll}});
    let mut qs = vec![q(a, json!({"bridges": {}})), q(a, json!({"balances": {"assets": toks.iter().map(js).collect::<Vec<_>>()}}))];
    if v != "1.2.0" {
        qs.push(q(a, json!({"config": {}})));
    }
    let ops = [
        op("wasm1user0", a, collect.clone(), vec![], 1_000_000),
        op("wasm1ownmaker", a, json!({"update_config": {"max_spread": "0.02"}}), vec![], 0),
        op("wasm1user0", a, json!({"update_config": {"max_spread": "0.02"}}), vec![], 0),
        op("wasm1nextowner", a, json!({"claim_ownership": {}}), vec![], 10),
        op("wasm1user0", a, json!({"seize": {"assets": [{"info": js(&toks[1]), "limit": null}]}}), vec![], 0),
    ];
    let cfg0: Value = c.query(a, &json!({"config": {}})).unwrap();
    let before = observe(c, &qs, &ops);
    let mut raw = get(c, a, b"config").unwrap();
    raw.as_object_mut().unwrap().remove("dev_fund_conf");
    del(c, a, b"seize_config");
    let cool = match r.below(4) {
        0 => None,
        1 => Some(*r.pick(&[0u64, 1, 29, u64::MAX, 10_000_000_000])),
        _ => Some(r.range(30, 600)),
    };
    let second = if r.chance(1, 2) { json!({"second_fee_receiver": "wasm1fresh", "second_receiver_cut": r.range(1, 50).to_string()}) } else { Value::Null };
    if v == "1.2.0" {
        raw.as_object_mut().unwrap().remove("collect_cooldown");
        del(c, a, b"last_collect_ts");
    }
    set(c, a, b"config", &raw);
    set_version(c, a, "astroport-maker", v);
    let x = attempt(c, m, P, || c.migrate(ADM, a, code, &json!({"second_receiver_params": second, "collect_cooldown": cool})));
    if v == "1.2.0" && cool.is_some_and(|x| !(30..=600).contains(&x)) {
        must_refuse(m, P, "upgrade-with-cooldown-out-of-bounds", &x);
        return;
    }
    if !must_accept(m, P, "upgrade-maker", &x) {
        return;
    }
    let seize: Value = c.query(a, &json!({"query_seize_config": {}})).unwrap_or(Value::Null);
    m.check(P, "maker-seize", seize["seizable_assets"] == json!([]), || format!("{seize}"));
    let cfg1: Value = c.query(a, &json!({"config": {}})).unwrap_or(Value::Null);
    let mut want = cfg0.clone();
    if v == "1.2.0" {
        if second.is_object() {
            want["second_receiver_cfg"] = second.clone();
        }
        m.check(P, "changed-maker-config", want == cfg1, || format!("{want} vs {cfg1}"));
        // the cooldown runs from the upgrade
        if let Some(x) = cool {
            let early = c.dry(|| {
                c.advance(1, x.saturating_sub(1).max(1).min(x - 1));
                c.exec("wasm1user0", a, &collect, &[])
            });
            must_refuse(m, P, "collect-within-the-cooldown", &early);
            let late = c.dry(|| {
                c.advance(1, x);
                c.exec("wasm1user0", a, &collect, &[])
            });
            must_accept(m, P, "collect-after-the-cooldown", &late);
        }
    }
    if !(v == "1.2.0" && second.is_object()) {
        same(m, "maker", &before, &observe(c, &qs, &ops));
    }
    m.seen(P, ("maker", v, cool.is_some(), second.is_object()));
    done(c, m, "maker", a, code, "", &Value::Null);
}
fn staking(r: &mut Rng, m: &mut Mon) {
    use astroport_staking::contract as s;
    let c = Chain::new();
    for u in USERS {
        c.fund(u, "uastro", 1 << 90);
    }
    let mk = || Code::new("staking", s::instantiate, s::execute, s::query).with_reply(s::reply);
    let tc = c.store(Code::new("tracker", tracker1::contract::instantiate, no_exec, tracker1::query::query).with_sudo(tracker1::contract::sudo));
    let a = c
        .instantiate(c.store(mk()), OWNER, &json!({"deposit_token_denom": "uastro", "tracking_admin": "wasm1trackadmin", "tracking_code_id": tc, "token_factory_addr": sim::TF_MODULE}), &[], "staking")
        .expect("staking")
        .0;
    let cfg: Value = c.query(&a, &json!({"config": {}})).unwrap();
    let x = cfg["xastro_denom"].as_str().unwrap().to_string();
    let mut times = vec![c.now()];
    for i in 0..r.range(0, 8) {
        let u = *r.pick(&USERS);
        if i == 0 || r.chance(2, 3) {
            let _ = c.exec(u, &a, &json!({"enter": {}}), &[coin(r.log(1500, 1 << 60), "uastro")]);
        } else if c.bal(u, &x) > 1 {
            let _ = c.exec(u, &a, &json!({"leave": {}}), &[coin(r.range128(1, c.bal(u, &x)), &x)]);
        }
        if r.chance(1, 4) {
            let _ = c.send(u, &a, "uastro", r.log(1, 1 << 40));
        }
        c.advance(1, r.range(1, 1000));
        times.push(c.now());
    }
    let mut qs = vec![q(&a, json!({"config": {}})), q(&a, json!({"tracker_config": {}})), q(&a, json!({"total_shares": {}})), q(&a, json!({"total_deposit": {}}))];
    for t in &times {
        qs.push(q(&a, json!({"total_supply_at": {"timestamp": t}})));
        qs.push(q(&a, json!({"balance_at": {"address": r.pick(&USERS), "timestamp": t}})));
    }
    let u = *r.pick(&USERS);
    let mut ops = vec![op(u, &a, json!({"enter": {}}), vec![coin(r.log(1, 1 << 60), "uastro")], 5)];
    if c.bal(u, &x) > 0 {
        ops.push(op(u, &a, json!({"leave": {}}), vec![coin(r.range128(1, c.bal(u, &x)), &x)], 5));
    }
    let code = mk().with_migrate(astroport_staking::migrate::migrate);
    plain(&c, r, m, "staking", &a, code, "astroport-staking", &["2.0.0", "2.1.0"], json!({}), &qs, &ops);
}
fn tracker(r: &mut Rng, m: &mut Mon) {
    let c = Chain::new();
    let d = c.create_denom(OWNER, "tok");
    let old = c.store(Code::new("tracker", tracker1::contract::instantiate, no_exec, tracker1::query::query).with_sudo(tracker1::contract::sudo));
    use astroport_tokenfactory_tracker as k;
    let new = c.store(Code::new("tracker", k::contract::instantiate, no_exec, k::query::query).with_sudo(k::contract::sudo).with_migrate(k::contract::migrate));
    let a = c.instantiate(old, OWNER, &json!({"tokenfactory_module_address": sim::TF_MODULE, "tracked_denom": d}), &[], "tracker").expect("tracker").0;
    c.set_hook(&d, Some(a.clone()));
    let step = |r: &mut Rng| {
        let u = *r.pick(&USERS);
        match r.below(4) {
            0 => drop(c.tf_mint(&d, u, r.log(1, 1 << 60))),
            1 if c.bal(u, &d) > 0 => drop(c.tf_burn(&d, u, r.range128(1, c.bal(u, &d)))),
            _ if c.bal(u, &d) > 0 => drop(c.send(u, *r.pick(&USERS), &d, r.range128(1, c.bal(u, &d)))),
            _ => {}
        }
    };
    for _ in 0..r.range(1, 20) {
        step(r);
        if r.chance(1, 2) {
            c.advance(r.range(1, 5), r.range(1, 40));
        }
    }
    c.advance(1, 6);
    // 1.0.0 records seconds
    let h = c.now();
    let ask = |h: Option<u64>, key: &str| -> Vec<(String, Value)> {
        let mut v = vec![q(&a, json!({"total_supply_at": {key: h}}))];
        for u in USERS {
            v.push(q(&a, json!({"balance_at": {"address": u, key: h}})));
        }
        v
    };
    let past: Vec<u64> = (0..6).map(|_| h - r.below(60)).chain([h]).collect();
    let both = |h: Option<u64>| {
        // the parameter was called `timestamp` and `unit` in different versions: both names, both forms
        let mut o = vec![];
        for key in ["timestamp", "unit"] {
            o.push(observe(&c, &ask(h, key), &[]));
        }
        o
    };
    let ok = |o: Vec<Out>| o.into_iter().map(|v| v.into_iter().map(|x| x.1).collect::<Vec<_>>()).find(|v| v.iter().any(|x| x.is_ok()));
    let before: Vec<_> = past.iter().map(|h| ok(both(Some(*h)))).chain([ok(both(None))]).collect();
    let secs = r.chance(4, 5);
    let msg = json!({"track_over_seconds": secs});
    refusals(&c, r, m, &a, new, "astroport-tokenfactory-tracker", &["1.0.0"], &msg);
    let x = attempt(&c, m, P, || c.migrate(ADM, &a, new, &msg));
    if !must_accept(m, P, "upgrade-tracker", &x) {
        return;
    }
    // heights on top of a history of seconds: a finding of its own
    let sig = if secs { "changed-tracker" } else { "tracker-heights-over-seconds" };
    let cmp = |m: &mut Mon, when: &str| {
        for (i, h) in past.iter().enumerate() {
            let now = ok(both(Some(*h)));
            m.check(P, sig, before[i] == now, || format!("{when}, seconds {secs}: at second {h}: {:?} -> {now:?}", before[i]));
            m.count("comparisons: served");
        }
    };
    m.check(P, "tracker-silent", before.iter().all(|x| x.is_some()), || "no answers".into());
    let now = ok(both(None));
    m.check(P, "changed-tracker", *before.last().unwrap() == now, || format!("seconds {secs}: current {:?} -> {now:?}", before.last().unwrap()));
    cmp(m, "right after");
    // life goes on: later changes are recorded under the new clock, the past stays
    let mut marks: Vec<(u64, Vec<u128>)> = vec![];
    for _ in 0..r.range(1, 10) {
        c.advance(r.range(1, 3), r.range(1, 40));
        step(r);
        let at = if secs { c.now() } else { c.height() };
        // the value at a moment is the one before the block's own operations
        marks.push((at + 1, USERS.iter().map(|u| c.bal(u, &d)).collect()));
    }
    c.advance(2, 10);
    cmp(m, "later");
    for (i, (t, b)) in marks.iter().enumerate() {
        if marks.get(i + 1).is_some_and(|n| n.0 <= *t) || *t > if secs { c.now() } else { c.height() } {
            continue;
        }
        let got = ok(both(Some(*t)));
        let want: Vec<String> = b.iter().map(|x| format!("\"{x}\"")).collect();
        let g: Vec<String> = got.iter().flatten().skip(1).map(|x| x.clone().unwrap_or_default()).collect();
        m.check(P, if secs { "tracker-after-upgrade" } else { sig }, g == want, || format!("seconds {secs} at {t}: {g:?}, expected {want:?}"));
    }
    m.seen(P, ("tracker", secs, past.len(), marks.len()));
    done(&c, m, "tracker", &a, new, "", &Value::Null);
}
fn oracle(r: &mut Rng, m: &mut Mon) {
    use astroport_oracle::contract as k;
    let mut w = World::new(&[*r.pick(&[6u8, 6, 8]), 6], &[], Fees { total: 30, maker: 0 }, false);
    let i = w.xyk(0, 1, false).expect("pool");
    let p = w.pools[i].clone();
    let lim = Prov { slippage: Some(cosmwasm_std::Decimal::percent(50)), ..Default::default() };
    w.provide("wasm1user0", &p, &[r.log(1_000_000, 1 << 60), r.log(1_000_000, 1 << 60)], &lim).expect("provide");
    w.c.advance(1, 100);
    let t = [js(&p.toks[0]), js(&p.toks[1])];
    let order = if r.chance(1, 2) { json!([t[0], t[1]]) } else { json!([t[1], t[0]]) };
    let oc = w.c.store(Code::new("oracle", k::instantiate, k::execute, k::query));
    let o = w.c.instantiate(oc, OWNER, &json!({"factory_contract": w.factory, "asset_infos": order}), &[], "oracle").expect("oracle").0;
    for _ in 0..r.range(0, 3) {
        for _ in 0..r.range(0, 3) {
            w.c.advance(1, r.range(1, 30_000));
            let (x, y) = if r.chance(1, 2) { (0, 1) } else { (1, 0) };
            let a = w.pool_bal(&p, x) / 100 + 10;
            let _ = w.swap("wasm1user1", &p, x, y, a, &Sw::loose());
        }
        w.c.advance(1, 86_400 + r.below(5000));
        w.c.exec("wasm1user1", &o, &json!({"update": {}}), &[]).expect("update");
    }
    w.c.advance(1, r.range(1, 50_000));
    let c = &w.c;
    let amt = r.log(1_000_000, 1 << 60).to_string();
    // consults now and after a further update
    let look = || -> Vec<Result<Value, String>> {
        let mut v: Vec<_> = t.iter().map(|x| c.query::<Value>(&o, &json!({"consult": {"token": x, "amount": amt}}))).collect();
        v.extend(c.dry(|| {
            c.advance(1, 90_000);
            let u = c.exec("wasm1user1", &o, &json!({"update": {}}), &[]).map(|_| Value::Null);
            let mut l = vec![u];
            l.extend(t.iter().map(|x| c.query::<Value>(&o, &json!({"consult": {"token": x, "amount": amt}}))));
            l.push(c.exec("wasm1user1", &o, &json!({"update": {}}), &[]).map(|_| Value::Null).map_err(|_| "early".into()));
            l
        }));
        v.push(c.query::<Value>(&o, &json!({"config": {}})));
        v
    };
    let before = look();
    // the form up to 1.0.2: two prices, no stored precisions
    let pl = get(c, &o, b"price_last").expect("price_last");
    let cfg = get(c, &o, b"config").expect("config");
    let find = |k: &str, a: &Value| pl[k].as_array().unwrap().iter().find(|x| x[0] == *a).map(|x| x[2].clone()).unwrap_or(json!("0"));
    let (a0, a1) = (cfg["asset_infos"][0].clone(), cfg["asset_infos"][1].clone());
    set(c, &o, b"price_last", &json!({"price0_cumulative_last": find("cumulative_prices", &a0), "price1_cumulative_last": find("cumulative_prices", &a1),
        "price_0_average": find("average_prices", &a0), "price_1_average": find("average_prices", &a1), "block_timestamp_last": pl["block_timestamp_last"]}));
    let pre = ns("precisions");
    for (key, _) in c.raw_store(&o) {
        if key.starts_with(&pre) {
            del(c, &o, &key);
        }
    }
    let code = c.store(Code::new("oracle", k::instantiate, k::execute, k::query).with_migrate(k::migrate));
    refusals(c, r, m, &o, code, "astroport-oracle", &["1.0.0", "1.0.1", "1.0.2"], &json!({}));
    set_version(c, &o, "astroport-oracle", *r.pick(&["1.0.0", "1.0.1", "1.0.2"]));
    let x = attempt(c, m, P, || c.migrate(ADM, &o, code, &json!({})));
    if !must_accept(m, P, "upgrade-oracle", &x) {
        return;
    }
    let after = look();
    for (x, y) in before.iter().zip(&after) {
        m.check(P, "changed-oracle", x == y, || format!("{x:?} -> {y:?}"));
        m.count(if x.is_ok() { "comparisons: served" } else { "comparisons: refused" });
    }
    m.seen(P, ("oracle", amt.len(), before[0].is_ok()));
    done(c, m, "oracle", &o, code, "", &Value::Null);
}
/// a 1.3.x pool with a cw20 LP token becomes a pool with sale tax: nobody may lose access to the liquidity
fn tax(r: &mut Rng, m: &mut Mon) {
    use pair1::contract as p1;
    let w = World::new(&[6, 6], &[], Fees { total: 30, maker: 0 }, false);
    let c = &w.c;
    let (t0, t1) = (js(&w.toks[0]), js(&w.toks[1]));
    let code1 = c.store(Code::new("pair-1.3.3", p1::instantiate, p1::execute, p1::query).with_reply(p1::reply));
    let a = c
        .instantiate(code1, OWNER, &json!({"asset_infos": [t0, t1], "token_code_id": w.codes.cw20, "factory_addr": w.factory, "init_params": null}), &[], "old pair")
        .expect("old pair")
        .0;
    let info: Value = c.query(&a, &json!({"pair": {}})).unwrap();
    let lp = info["liquidity_token"].as_str().unwrap().to_string();
    let filled = r.chance(2, 3);
    let (x, y) = (r.log(100_000, 1 << 60), r.log(100_000, 1 << 60));
    if filled {
        let mut f = vec![coin(x, &w.toks[0].id), coin(y, &w.toks[1].id)];
        f.sort_by(|a, b| a.denom.cmp(&b.denom));
        c.exec("wasm1user0", &a, &json!({"provide_liquidity": {"assets": [{"info": t0, "amount": x.to_string()}, {"info": t1, "amount": y.to_string()}]}}), &f).expect("provide");
    }
    let mine = c.cw20_bal(&lp, "wasm1user0");
    let exit = || {
        let hook = json!({"withdraw_liquidity": {}});
        let q1 = c.exec("wasm1user0", &lp, &json!({"send": {"contract": a, "amount": mine.to_string(), "msg": bin(&hook)}}), &[]);
        q1.is_ok() && c.bal("wasm1user0", &w.toks[0].id) > World::PURSE - x
    };
    if filled {
        let can = c.dry(exit);
        assert!(can, "the old pool pays out");
    }
    let code = c.store(Code::new("tax", astroport_pair_xyk_sale_tax::contract::instantiate, astroport_pair_xyk_sale_tax::contract::execute, astroport_pair_xyk_sale_tax::contract::query).with_reply(astroport_pair_xyk_sale_tax::contract::reply).with_migrate(astroport_pair_xyk_sale_tax::contract::migrate));
    let cfg = json!({w.toks[0].id.clone(): {"tax_rate": "0.05", "tax_recipient": "wasm1taxman"}});
    let msg = json!({"tax_config_admin": "wasm1taxadmin", "tax_configs": cfg});
    refusals(c, r, m, &a, code, "astroport-pair", &["1.3.0", "1.3.1", "1.3.3", "1.4.0", "1.5.0", "1.5.1"], &msg);
    let b = attempt(c, m, P, || c.migrate(ADM, &a, code, &json!({"tax_config_admin": "wasm1taxadmin", "tax_configs": {"ustranger": {"tax_rate": "0.05", "tax_recipient": "wasm1taxman"}}})));
    must_refuse(m, P, "upgrade-with-tax-on-a-foreign-token", &b);
    let b = attempt(c, m, P, || c.migrate(ADM, &a, code, &json!({"tax_config_admin": "WASM1BAD", "tax_configs": cfg})));
    must_refuse(m, P, "upgrade-with-invalid-address", &b);
    let res = attempt(c, m, P, || c.migrate(ADM, &a, code, &msg));
    m.count(if res.is_ok() { "tax upgrades: accepted" } else { "tax upgrades: refused" });
    if res.is_ok() && filled {
        // the answers about the pool stay
        let after: Value = c.query(&a, &json!({"pair": {}})).unwrap_or(Value::Null);
        m.check(P, "changed-tax-pair", after["asset_infos"] == info["asset_infos"] && after["liquidity_token"] == info["liquidity_token"], || format!("{info} -> {after}"));
        m.check(P, "tax-upgrade-strands-liquidity", c.dry(exit), || format!("after the upgrade of a 1.3.x pool holding {x}/{y} the provider cannot withdraw any more"));
    }
    m.seen(P, ("tax", filled, res.is_ok()));
    m.count("upgrades: pool with sale tax");
}
/// a constant-product pool with a bank LP token becomes a pool with sale tax: reserves, shares, prices, tracked balances,
/// and whatever is not taxed stay as they are
fn tax_of_today(t: &City, r: &mut Rng, m: &mut Mon) {
    use astroport_pair_xyk_sale_tax::contract as k;
    let c = &t.w.c;
    let p = t.w.pools[t.xyk].clone();
    let a = &p.addr;
    if c.query::<Value>(a, &json!({"config": {}})).map(|v| v.to_string().contains("fee_share")).unwrap_or(false) {
        m.count("pools with a fee share: not judged");
    }
    let (t0, t1) = (js(&p.toks[0]), js(&p.toks[1]));
    let h = c.height();
    let x = r.log(1000, 50_000_000);
    let mut qs = vec![
        q(a, json!({"pair": {}})),
        q(a, json!({"pool": {}})),
        q(a, json!({"cumulative_prices": {}})),
        q(a, json!({"share": {"amount": r.log(1, 1 << 40).to_string()}})),
        q(a, json!({"simulation": {"offer_asset": {"info": t1, "amount": x.to_string()}}})),
        q(a, json!({"reverse_simulation": {"ask_asset": {"info": t0, "amount": x.to_string()}}})),
    ];
    for b in 0..4 {
        qs.push(q(a, json!({"asset_balance_at": {"asset_info": t0, "block_height": (h + 1 - b).to_string()}})));
    }
    let mut f = vec![coin(x, &p.toks[0].id), coin(x, &p.toks[1].id)];
    f.sort_by(|a, b| a.denom.cmp(&b.denom));
    let lp = c.bal("wasm1user0", &p.lp);
    let ops = [
        op("wasm1user1", a, json!({"swap": {"offer_asset": {"info": t1, "amount": x.to_string()}, "max_spread": "0.5"}}), vec![coin(x, &p.toks[1].id)], r.range(1, 100_000)),
        op("wasm1user1", a, json!({"provide_liquidity": {"assets": [{"info": t0, "amount": x.to_string()}, {"info": t1, "amount": x.to_string()}], "slippage_tolerance": "0.5"}}), f, 10),
        op("wasm1user0", a, json!({"withdraw_liquidity": {"assets": [], "min_assets_to_receive": null}}), vec![coin(r.range128(1, lp.max(2)), &p.lp)], 10),
    ];
    let later = || {
        c.dry(|| {
            let _ = c.exec("wasm1user1", a, &ops[0].2, &ops[0].3);
            c.advance(3, 1000);
            let b: Result<Value, String> = c.query(a, &json!({"asset_balance_at": {"asset_info": t0, "block_height": (c.height()).to_string()}}));
            let z: Result<Value, String> = c.query(a, &json!({"cumulative_prices": {}}));
            (b.map_err(|_| ()), z.map_err(|_| ()))
        })
    };
    let code = c.store(Code::new("tax", k::instantiate, k::execute, k::query).with_reply(k::reply).with_migrate(k::migrate));
    let cfg = json!({p.toks[0].id.clone(): {"tax_rate": "0.05", "tax_recipient": "wasm1taxman"}});
    let msg = json!({"tax_config_admin": "wasm1taxadmin", "tax_configs": cfg});
    const OLD: [&str; 6] = ["1.3.0", "1.3.1", "1.3.3", "1.4.0", "1.5.0", "1.5.1"];
    refusals(c, r, m, a, code, "astroport-pair", &OLD, &msg);
    let before = observe(c, &qs, &ops);
    let l0 = later();
    set_version(c, a, "astroport-pair", *r.pick(&OLD));
    let b = ledger(c, &[], &[]);
    let x = attempt(c, m, P, || c.migrate(ADM, a, code, &msg));
    if !must_accept(m, P, "upgrade-to-sale-tax", &x) {
        return;
    }
    m.check(P, "upgrade-moves-funds", diff(&b, &ledger(c, &[], &[])).is_empty(), || "funds moved".into());
    same(m, "pool-with-sale-tax", &before, &observe(c, &qs, &ops));
    let l1 = later();
    m.check(P, "changed-pool-with-sale-tax", l0 == l1, || format!("after a trade: {l0:?} before, {l1:?} after the upgrade"));
    let k: Value = c.query(a, &json!({"config": {}})).unwrap_or(Value::Null);
    let par: Value = k["params"].as_str().and_then(|s| Binary::from_base64(s).ok()).map(|b| serde_json::from_slice(&b).unwrap()).unwrap_or(Value::Null);
    m.check(P, "tax-settings", par["tax_configs"] == cfg && par["tax_config_admin"] == json!("wasm1taxadmin"), || format!("{par}, requested {msg}"));
    m.seen(P, ("tax-today", before.iter().filter(|x| x.1.is_ok()).count()));
    done(c, m, "bank-LP pool to sale tax", a, code, "", &Value::Null);
}
