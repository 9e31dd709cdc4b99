//! A01: every privileged operation of every contract, tried by everybody.
use crate::city::*;
use crate::common::*;
const P: &str = "A01";
const THIEF: &str = "wasm1thief";
struct Op {
    name: &'static str,
    to: String,
    msg: serde_json::Value,
    funds: Vec<Coin>,
    /// who may
    ok: Vec<String>,
    /// the role holder must succeed right now
    live: bool,
}
fn ops(k: &City, r: &mut Rng) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let t = k.w.c.now();
    let toks = &k.w.toks;
    let f = k.factory();
    let fo = k.owner(&f);
    let mut p = |name: &'static str, to: &str, msg: serde_json::Value, ok: &[&str]| {
        v.push(Op { name, to: to.into(), msg, funds: vec![], ok: ok.iter().map(|x| x.to_string()).collect(), live: true });
    };
    let n = r.range(1, 1_000_000).to_string();
    // factory
    let uc = match r.below(5) {
        0 => json!({"fee_address": THIEF}),
        1 => json!({"generator_address": THIEF}),
        2 => json!({"token_code_id": 7}),
        3 => json!({"coin_registry_address": THIEF}),
        _ => json!({}),
    };
    p("factory config", &f, json!({"update_config": uc}), &[&fo]);
    p("factory tracker", &f, json!({"update_tracker_config": {"tracker_code_id": 3, "token_factory_addr": "wasm1thief"}}), &[&fo]);
    let pt = if r.chance(1, 2) { json!({"xyk": {}}) } else { json!({"custom": "thieves"}) };
    p("factory pair config", &f, json!({"update_pair_config": {"config": {"code_id": k.w.codes.xyk, "pair_type": pt, "total_fee_bps": r.below(10_001), "maker_fee_bps": r.below(10_001), "is_disabled": r.chance(1, 2), "is_generator_disabled": r.chance(1, 2), "permissioned": r.chance(1, 2)}}}), &[&fo]);
    let pool = &k.w.pools[r.idx(k.w.pools.len())];
    p("factory deregister", &f, json!({"deregister": {"asset_infos": pool.toks.iter().map(js).collect::<Vec<_>>()}}), &[&fo]);
    p("factory permissioned pair", &f, json!({"create_pair": {"pair_type": {"custom": "guarded"}, "asset_infos": [js(&toks[1]), js(&toks[4])], "init_params": null}}), &[&fo]);
    // registry
    let ro = k.owner(&k.w.registry);
    p("registry add", &k.w.registry, json!({"add": {"native_coins": [[toks[0].id, r.range(0, 18)]]}}), &[&ro]);
    p("registry remove", &k.w.registry, json!({"remove": {"native_coins": [toks[0].id]}}), &[&ro]);
    // incentives
    let io = k.owner(&k.inc);
    let lp = k.w.pools[k.xyk].lp.clone();
    p("incentives pools", &k.inc, json!({"setup_pools": {"pools": [[k.w.pools[k.tax].lp, n]]}}), &[&io, CTRL]);
    p("incentives emission", &k.inc, json!({"set_tokens_per_second": {"amount": n}}), &[&io]);
    let uc = match r.below(5) {
        0 => json!({"vesting_contract": THIEF}),
        1 => json!({"generator_controller": THIEF}),
        2 => json!({"guardian": THIEF}),
        3 => json!({"token_transfer_gas_limit": 400_000}),
        _ => json!({"incentivization_fee_info": {"fee_receiver": THIEF, "fee": {"denom": toks[0].id, "amount": n}}}),
    };
    p("incentives config", &k.inc, json!({"update_config": uc}), &[&io]);
    p("incentives remove reward", &k.inc, json!({"remove_reward_from_pool": {"lp_token": lp, "reward": toks[1].id, "bypass_upcoming_schedules": r.chance(1, 2), "receiver": THIEF}}), &[&io]);
    p("incentives orphans", &k.inc, json!({"claim_orphaned_rewards": {"limit": null, "receiver": THIEF}}), &[&io]);
    p("incentives block list", &k.inc, json!({"update_blocked_tokenslist": {"add": [js(&toks[2])], "remove": []}}), &[&io, GUARD]);
    p("incentives deactivate", &k.inc, json!({"deactivate_pool": {"lp_token": lp}}), &[&f]);
    // vesting
    let vo = k.owner(&k.vest);
    let vo2 = k.owner(&k.vest2);
    let reg = |who: &str| json!({"register_vesting_accounts": {"vesting_accounts": [{"address": who, "schedules": [{"start_point": {"time": t + 5, "amount": "1000"}, "end_point": null}]}]}});
    p("vesting register", &k.vest, reg(THIEF), &[&vo]);
    p("vesting withdraw", &k.vest, json!({"withdraw_from_active_schedule": {"account": "wasm1vested", "recipient": THIEF, "withdraw_amount": "1000"}}), &[&vo]);
    p("vesting cw20 withdraw", &k.vest2, json!({"withdraw_from_active_schedule": {"account": "wasm1vested", "recipient": null, "withdraw_amount": "1000"}}), &[&vo2]);
    p("vesting cw20 register", &toks[4].id, json!({"send": {"contract": k.vest2, "amount": "1000", "msg": bin(&reg(THIEF))}}), &[&vo2]);
    p("vesting foreign cw20", &toks[5].id, json!({"send": {"contract": k.vest2, "amount": "1000", "msg": bin(&reg(THIEF))}}), &[]);
    p("vesting forged hook", &k.vest2, json!({"receive": {"sender": vo2, "amount": "1000", "msg": bin(&reg(THIEF))}}), &[&toks[4].id]);
    // collector
    let mo = k.owner(&k.maker);
    let uc = match r.below(7) {
        0 => json!({"staking_contract": THIEF}),
        1 => json!({"governance_contract": {"set": THIEF}}),
        2 => json!({"max_spread": "0.5"}),
        3 => json!({"second_receiver_params": {"second_fee_receiver": THIEF, "second_receiver_cut": "50"}}),
        4 => json!({"collect_cooldown": 30}),
        5 => json!({"factory_contract": THIEF}),
        _ => json!({"basic_asset": js(&toks[2])}),
    };
    p("collector config", &k.maker, json!({"update_config": uc}), &[&mo]);
    p("collector bridges", &k.maker, json!({"update_bridges": {"add": [[js(&toks[2]), js(&toks[0])]], "remove": null}}), &[&mo]);
    p("collector rewards", &k.maker, json!({"enable_rewards": {"blocks": 100}}), &[&mo]);
    p("collector seizing", &k.maker, json!({"update_seize_config": {"receiver": THIEF, "seizable_assets": [js(&toks[1])]}}), &[&mo]);
    p("collector bridge swap", &k.maker, json!({"swap_bridge_assets": {"assets": [js(&toks[2])], "depth": 1}}), &[&k.maker]);
    p("collector distribution", &k.maker, json!({"distribute_astro": {}}), &[&k.maker]);
    // fee granter
    let go = k.owner(&k.gran);
    p("granter grant", &k.gran, json!({"grant": {"grantee_contract": THIEF, "amount": n, "bypass_amount_check": true}}), &[&go, GRADM]);
    p("granter revoke", &k.gran, json!({"revoke": {"grantee_contract": "wasm1granted"}}), &[&go, GRADM]);
    p("granter transfer", &k.gran, json!({"transfer_coins": {"amount": "1000", "receiver": THIEF}}), &[&go, GRADM]);
    p("granter admins", &k.gran, json!({"update_admins": {"add": [THIEF], "remove": [GRADM]}}), &[&go]);
    // whitelist
    p("list relay", &k.wl, json!({"execute": {"msgs": [{"bank": {"send": {"to_address": THIEF, "amount": [{"denom": toks[0].id, "amount": "1000"}]}}}]}}), &[WLADM]);
    p("list admins", &k.wl, json!({"update_admins": {"admins": [THIEF]}}), &[WLADM]);
    p("list freeze", &k.wl, json!({"freeze": {}}), &[WLADM]);
    // pools
    let share = match r.below(3) {
        0 => json!("disable_fee_share"),
        _ => json!({"enable_fee_share": {"fee_share_bps": r.range(1, 1000), "fee_share_address": THIEF}}),
    };
    let upd = |x: &serde_json::Value| json!({"update_config": {"params": bin(x)}});
    let (so, po) = (k.owner(&k.pool(k.stb)), k.owner(&k.pool(k.pcl)));
    p("xyk config", &k.pool(k.xyk), upd(&if r.chance(1, 2) { json!("enable_asset_balances_tracking") } else { share.clone() }), &[&fo]);
    let x = match r.below(2) {
        0 => json!({"tax_config_admin": THIEF}),
        _ => json!({"tax_configs": {toks[2].id.clone(): {"tax_rate": "0.5", "tax_recipient": THIEF}}}),
    };
    p("tax config", &k.pool(k.tax), upd(&x), &[TAXADM]);
    p("stable config", &k.pool(k.stb), upd(&if r.chance(1, 2) { share.clone() } else { json!({"start_changing_amp": {"next_amp": r.range(50, 200), "next_amp_time": t + 90_000}}) }), &[&so]);
    p("stable stop amp", &k.pool(k.stb), upd(&json!({"stop_changing_amp": {}})), &[&so]);
    let x = match r.below(4) {
        0 => share.clone(),
        1 => json!({"update": {"mid_fee": "0.003", "out_fee": "0.006", "fee_gamma": null, "repeg_profit_threshold": null, "min_price_scale_delta": null, "ma_half_time": null}}),
        2 => json!({"promote": {"next_amp": "45", "next_gamma": "0.0002", "future_time": t + 90_000}}),
        _ => json!({"stop_changing_amp_gamma": {}}),
    };
    p("concentrated config", &k.pool(k.pcl), upd(&x), &[&po]);
    p("transmuter config", &k.pool(k.trn), upd(&share), &[]);
    for (n, i) in [("xyk", k.xyk), ("tax", k.tax), ("stable", k.stb), ("concentrated", k.pcl)] {
        let hook = bin(&json!({"swap": {"belief_price": null, "max_spread": "0.5", "to": THIEF}}));
        let name: &'static str = match n {
            "xyk" => "xyk forged hook",
            "tax" => "tax forged hook",
            "stable" => "stable forged hook",
            _ => "concentrated forged hook",
        };
        let ok: &[&str] = if n == "concentrated" { &[&toks[4].id] } else { &[] };
        p(name, &k.pool(i), json!({"receive": {"sender": "wasm1user0", "amount": "1000", "msg": hook}}), ok);
        let name: &'static str = match n {
            "xyk" => "xyk foreign token",
            "tax" => "tax foreign token",
            "stable" => "stable foreign token",
            _ => "concentrated foreign token",
        };
        p(name, &toks[5].id, json!({"send": {"contract": k.pool(i), "amount": "1000", "msg": hook}}), &[]);
    }
    // router, tokens, converter, LP hooks
    p("router step", &k.router, json!({"execute_swap_operation": {"operation": {"astro_swap": {"offer_asset_info": js(&toks[0]), "ask_asset_info": js(&toks[1])}}, "to": THIEF, "max_spread": "0.5", "single": true}}), &[&k.router]);
    p("xastro mint", &k.xas, json!({"mint": {"recipient": THIEF, "amount": n}}), &[MINTER]);
    p("xastro burn", &k.xas, json!({"burn": {"amount": "1000"}}), &[MINTER]);
    p("xastro marketing", &k.xas, json!({"update_marketing": {"project": null, "description": "x", "marketing": THIEF}}), &[MKTG]);
    p("xastro logo", &k.xas, json!({"upload_logo": {"url": "https://x"}}), &[MKTG]);
    p("converter forged hook", &k.conv, json!({"receive": {"sender": THIEF, "amount": "1000", "msg": bin(&json!({"receiver": THIEF}))}}), &[&k.old.id]);
    p("converter foreign token", &toks[4].id, json!({"send": {"contract": k.conv, "amount": "1000", "msg": bin(&json!({}))}}), &[]);
    p("incentives foreign lp", &toks[4].id, json!({"send": {"contract": k.inc, "amount": "1000", "msg": bin(&json!({"deposit": {}}))}}), &[]);
    p("incentives forged hook", &k.inc, json!({"receive": {"sender": THIEF, "amount": "1000", "msg": bin(&json!({"deposit": {}}))}}), &[]);
    for (a, o) in k.own.iter() {
        let _ = a;
        let _ = o;
    }
    for (a, _, _) in k.owned(&mut Rng::new(1)) {
        let o = k.owner(&a);
        p("propose owner", &a, json!({"propose_new_owner": {"owner": THIEF, "expires_in": 1000}}), &[&o]);
        if k.pend.contains_key(&a) {
            p("drop proposal", &a, json!({"drop_ownership_proposal": {}}), &[&o]);
        }
    }
    for o in v.iter_mut() {
        match o.name {
            "vesting register" => o.funds = vec![coin(1000, &toks[0].id)],
            // only with something to stop, or in a state which allows the change
            "stable stop amp" | "stable config" | "concentrated config" | "xyk config" => o.live = false,
            // the hook alone brings no tokens
            "concentrated forged hook" | "collector bridge swap" | "factory deregister" => o.live = false,
            "propose owner" if o.ok[0] == THIEF => o.live = false,
            _ => {}
        }
    }
    v
}
/// ordinary life of the system
fn life(k: &mut City, r: &mut Rng, m: &mut Mon) {
    let u = r.pick(&k.w.users).clone();
    match r.below(5) {
        0 => {
            let i = *r.pick(&[k.xyk, k.tax, k.stb]);
            let p = k.w.pools[i].clone();
            let j = r.idx(2);
            let a = r.range128(1000, 5_000_000);
            m.step(|| format!("{u} trades {a} in pool {i}"));
            let _ = k.w.swap(&u, &p, j, 1 - j, a, &Default::default());
        }
        1 => {
            let dt = r.range(1, 50_000);
            m.step(|| format!("{dt} s pass"));
            k.w.c.advance(1 + dt / 6, dt);
        }
        2 => {
            let lp = k.w.pools[k.xyk].lp.clone();
            let a = r.range128(1, 1000);
            m.step(|| format!("{u} stakes {a} LP"));
            let _ = k.w.c.exec(&u, &k.inc, &json!({"deposit": {}}), &[coin(a, lp)]);
        }
        _ => {
            // ownership in motion
            let s: Vec<String> = k.owned(r).into_iter().map(|x| x.0).collect();
            let a = r.pick(&s).clone();
            let o = k.owner(&a);
            match k.pend.get(&a).cloned() {
                Some((n, t)) if r.chance(2, 3) && t >= k.w.c.now() => {
                    m.step(|| format!("{n} becomes owner of {a}"));
                    k.w.c.exec(&n, &a, &json!({"claim_ownership": {}}), &[]).expect("claim");
                    k.own.insert(a.clone(), n);
                    k.pend.remove(&a);
                }
                _ => {
                    let n = r.pick(&["wasm1new0".to_string(), "wasm1new1".to_string(), "wasm1user1".to_string(), OWNER.to_string(), "wasm1owninc".to_string()]).clone();
                    if n != o {
                        m.step(|| format!("{o} proposes {n} as owner of {a}"));
                        k.w.c.exec(&o, &a, &json!({"propose_new_owner": {"owner": n, "expires_in": 1_000_000}}), &[]).expect("propose");
                        k.pend.insert(a, (n, k.w.c.now() + 1_000_000));
                    }
                }
            }
        }
    }
}
pub fn roles(r: &mut Rng, m: &mut Mon) {
    let mut k = build(r);
    k.w.c.exec(OWNER, &k.factory(), &json!({"update_pair_config": {"config": {"code_id": k.w.codes.xyk, "pair_type": {"custom": "guarded"}, "total_fee_bps": 30, "maker_fee_bps": 0, "is_disabled": false, "is_generator_disabled": false, "permissioned": true}}}), &[]).expect("guarded type");
    k.w.c.exec("wasm1owngran", &k.gran, &json!({"grant": {"grantee_contract": "wasm1granted", "amount": "5", "bypass_amount_check": true}}), &[]).expect("grant");
    let mut who: Vec<String> = [THIEF, OWNER, GUARD, CTRL, TAXADM, GRADM, WLADM, MINTER, MKTG, "wasm1new0", "wasm1new1", "wasm1vested", "wasm1staking", "wasm1user0", "wasm1user1", "wasm1ownstable", "wasm1ownvest", "wasm1ownvestcw", "wasm1owninc", "wasm1ownmaker", "wasm1owngran", "wasm1maker"]
        .iter()
        .map(|x| x.to_string())
        .collect();
    who.extend(k.contracts());
    // everybody has tokens to try with
    for w in &who {
        for i in [4, 5] {
            if !k.w.toks.iter().any(|t| t.id == *w) {
                k.w.c.exec("wasm1user2", &k.w.toks[i].id, &json!({"transfer": {"recipient": w, "amount": "1000000"}}), &[]).expect("cw20");
            }
        }
        if w != MINTER {
            let _ = k.w.c.exec("wasm1user0", &k.xas, &json!({"transfer": {"recipient": w, "amount": "1000"}}), &[]);
        }
    }
    for _ in 0..r.range(1, 4) {
        for _ in 0..r.below(6) {
            life(&mut k, r, m);
        }
        let mut all = ops(&k, r);
        r.shuffle(&mut all);
        let c = &k.w.c;
        for o in &all {
            if m.failed() {
                return;
            }
            let run = |w: &str, m: &mut Mon, allowed: bool| -> Result<(), String> {
                let d0 = c.digest();
                let (res, same) = c.dry(|| {
                    for f in &o.funds {
                        c.fund(w, &f.denom, f.amount.u128());
                    }
                    let d = c.digest();
                    let res = c.exec(w, &o.to, &o.msg, &o.funds).map(|_| ());
                    (res, c.digest() == d)
                });
                if !allowed {
                    m.check(P, "refusal-effect", same || res.is_ok(), || format!("{}: refusing {w} changed state", o.name));
                }
                m.check(P, "dry-run", c.digest() == d0, || "harness: the dry run left traces".into());
                res
            };
            for h in &o.ok {
                let x = run(h, m, true);
                if o.live {
                    m.check(P, "role-holder", x.is_ok(), || format!("{}: {h} was refused: {x:?} ({})", o.name, o.msg));
                }
                m.seen(P, (o.name, x.is_ok()));
                if x.is_ok() {
                    m.count(&format!("live: {}", o.name));
                }
            }
            for w in &who {
                if o.ok.contains(w) || r.chance(1, 2) {
                    continue;
                }
                let x = run(w, m, false);
                m.check(P, &format!("accepted: {}", o.name), x.is_err(), || format!("{}: {w} was accepted, only {:?} may ({})", o.name, o.ok, o.msg));
                m.count("refusals");
                m.seen(P, (o.name, w.len() > 12 && w.starts_with("wasm1own"), k.pend.len().min(4)));
            }
        }
        m.sample(P, || format!("{} operations tried by {} accounts, {} pending proposals", all.len(), who.len(), k.pend.len()));
    }
}
