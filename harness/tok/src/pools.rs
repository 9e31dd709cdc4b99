//! T08 staking pair, T09 conversion pair.
use crate::common::*;
use crate::{conv, t02};
use world::{Fees, World};

fn xpair_code() -> Code {
    use astroport_pair_xastro as p;
    Code::new("pair-xastro", p::contract::instantiate, p::contract::execute, p::queries::query)
}
/// puts the given pair type into the factory
fn allow_type(w: &World, code: u64, name: &str) {
    let cfg = json!({"update_pair_config": {"config": {"code_id": code, "pair_type": {"custom": name}, "total_fee_bps": 0, "maker_fee_bps": 0, "is_disabled": false, "is_generator_disabled": false, "permissioned": true}}});
    w.c.exec(OWNER, &w.factory, &cfg, &[]).expect("pair type");
}
fn nat(d: &str) -> serde_json::Value {
    json!({"native_token": {"denom": d}})
}
fn asset(i: &serde_json::Value, a: u128) -> serde_json::Value {
    json!({"info": i, "amount": a.to_string()})
}
fn sim(c: &Chain, p: &str, i: &serde_json::Value, a: u128) -> Result<u128, String> {
    let v: serde_json::Value = c.query(p, &json!({"simulation": {"offer_asset": asset(i, a), "ask_asset_info": null}}))?;
    for k in ["spread_amount", "commission_amount"] {
        if v[k] != "0" {
            return Err(format!("{k} is {}", v[k]));
        }
    }
    Ok(v["return_amount"].as_str().unwrap().parse().unwrap())
}
fn rev(c: &Chain, p: &str, i: &serde_json::Value, a: u128) -> Result<u128, String> {
    let v: serde_json::Value = c.query(p, &json!({"reverse_simulation": {"offer_asset_info": null, "ask_asset": asset(i, a)}}))?;
    Ok(v["offer_amount"].as_str().unwrap().parse().unwrap())
}
/// operations such a pool does not offer
fn unsupported(c: &Chain, m: &mut Mon, prop: &str, r: &mut Rng, pool: &str, u: &str, toks: &[serde_json::Value], funds: Vec<Coin>) {
    let msg = match r.below(5) {
        0 => json!({"provide_liquidity": {"assets": [asset(&toks[0], funds[0].amount.u128()), asset(&toks[1], funds[1].amount.u128())]}}),
        1 => json!({"withdraw_liquidity": {"assets": []}}),
        2 => json!({"update_config": {"params": to_json_binary(&json!({})).unwrap()}}),
        3 => json!({"propose_new_owner": {"owner": u, "expires_in": 1000}}),
        _ => json!({"claim_ownership": {}}),
    };
    let f = if msg.get("provide_liquidity").is_some() {
        let mut f = funds;
        f.sort_by(|a, b| a.denom.cmp(&b.denom));
        f
    } else {
        vec![]
    };
    m.step(|| format!("{u} sends {msg}"));
    let res = attempt(c, m, prop, || c.exec(u, pool, &msg, &f));
    must_refuse(m, prop, "unsupported-operation", &res);
}
pub fn xastro(r: &mut Rng, m: &mut Mon) {
    const P: &str = "T08";
    const ASTRO: &str = t02::ASTRO;
    let mut w = World::new(&[6], &[6], Fees { total: 30, maker: 3333 }, true);
    w.add_native(ASTRO, 6);
    w.add_native("uother", 6);
    let (st, x, _) = t02::deploy(&w.c);
    w.c.exec(OWNER, &w.registry, &json!({"add": {"native_coins": [[x, 6]]}}), &[]).expect("registry");
    let code = w.c.store(xpair_code());
    allow_type(&w, code, "xastro");
    let first = w.toks[0].id.clone();
    // pools for other tokens cannot be made
    if r.chance(1, 10) {
        let (a, b) = *r.pick(&[(ASTRO, "uother"), ("uother", x.as_str()), (first.as_str(), "uother")]);
        let res = w.c.exec(
            OWNER,
            &w.factory,
            &json!({"create_pair": {"pair_type": {"custom": "xastro"}, "asset_infos": [nat(a), nat(b)], "init_params": to_json_binary(&json!({"staking": st})).unwrap()}}),
            &[],
        );
        must_refuse(m, P, "foreign-pool", &res);
    }
    let infos = if r.chance(1, 2) { vec![nat(ASTRO), nat(&x)] } else { vec![nat(&x), nat(ASTRO)] };
    w.c.exec(
        OWNER,
        &w.factory,
        &json!({"create_pair": {"pair_type": {"custom": "xastro"}, "asset_infos": infos, "init_params": to_json_binary(&json!({"staking": st})).unwrap()}}),
        &[],
    )
    .expect("staking pair");
    let pi: serde_json::Value = w.c.query(&w.factory, &json!({"pair": {"asset_infos": infos}})).expect("pair");
    let pool = pi["contract_addr"].as_str().unwrap().to_string();
    let c = &w.c;
    let steps = r.range(6, 50);
    if r.chance(1, 4) {
        let a = r.log(1, 1 << 50);
        m.step(|| format!("donation of {a} before the first stake"));
        c.send(&w.users[0], &st, ASTRO, a).expect("donation");
    }
    let top = 1u128 << r.range(30, 100);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        let u = r.pick(&w.users[..4]).clone();
        let (d, s) = (c.bal(&st, ASTRO), c.supply(&x));
        match r.weighted(&[10, 2, 2, 2, 3, 3]) {
            0 => {
                let stake = c.bal(&u, &x) == 0 || r.chance(1, 2);
                let (den, ask) = if stake { (ASTRO, x.as_str()) } else { (x.as_str(), ASTRO) };
                let have = c.bal(&u, den);
                let a = if r.chance(1, 6) { r.range128(1, 3000) } else { amount(r, have.min(top)) }.min(have);
                if a == 0 {
                    continue;
                }
                let to = match r.below(4) {
                    0 => Some(r.pick(&w.users).clone()),
                    1 => Some(if r.chance(1, 4) { pool.clone() } else { "wasm1outsider".to_string() }),
                    2 if r.chance(1, 3) => Some("Bad Address".to_string()),
                    _ => None,
                };
                m.step(|| format!("{u} swaps {a} {den} for {to:?} on {d}/{s}"));
                let who = to.clone().unwrap_or(u.clone());
                // what the staking contract itself would do for the user
                let key = if stake { "enter" } else { "leave" };
                let l0 = ledger(c, &[], &[]);
                let direct = c.dry(|| c.exec(&u, &st, &json!({key: {"receiver": who}}), &[coin(a, den)]).map(|_| diff(&l0, &ledger(c, &[], &[]))));
                let quote = sim(c, &pool, &nat(den), a);
                // belief price and spread limit that any honest pool would meet
                let mut msg = json!({"swap": {"offer_asset": asset(&nat(den), a), "to": to}});
                if r.chance(1, 3) {
                    msg["swap"]["max_spread"] = json!("0.5");
                }
                let b0 = c.bal(&who, ask);
                let res = attempt(c, m, P, || c.exec(&u, &pool, &msg, &[coin(a, den)]));
                match direct {
                    Err(e) => {
                        m.step(|| format!("staking itself refuses: {e}"));
                        must_refuse(m, P, "swap-beyond-staking", &res);
                        let z = matches!(quote, Err(_) | Ok(0));
                        m.check(P, "quote-of-refused", z || to.as_deref() == Some("Bad Address"), || format!("{quote:?} quoted for {a} {den} on {d}/{s}, but staking refuses it ({e})"));
                    }
                    Ok(want) => {
                        if !must_accept(m, P, "swap", &res) {
                            return;
                        }
                        let dd = diff(&l0, &ledger(c, &[], &[]));
                        m.check(P, "swap-ledger", dd == want, || format!("swap of {a} {den} on {d}/{s}: {dd:?}, direct {want:?}"));
                        let got = (c.bal(&who, ask) as i128 - b0 as i128) + 0;
                        let tx = res.unwrap();
                        m.check(P, "quote", quote == Ok(got as u128), || format!("quoted {quote:?} for {a} {den} on {d}/{s}, received {got}"));
                        m.check(P, "attributes", tx.attr_u128(&pool, "return_amount") == Some(got as u128) && tx.attr_u128(&pool, "offer_amount") == Some(a), || {
                            format!("attributes say {:?} for {:?}, received {got} for {a}", tx.attr(&pool, "return_amount"), tx.attr(&pool, "offer_amount"))
                        });
                        // exact reference, independent of the staking contract's own arithmetic
                        let refv = if stake { t02::mint_for(a, d, s).unwrap_or(0) } else { mul_div(a, d, s) };
                        m.check(P, "rate", refv == got as u128, || format!("{a} {den} on {d}/{s} gave {got}, exactly {refv} expected"));
                        m.seen(P, (stake, (a as f64).log10() as i32, (s as f64 + 1.0).log10() as i32, if s > 0 { u512(d) * u512(8) / u512(s) } else { u512(0) }.to_string().len()));
                        m.sample(P, || format!("{a} {den} on {d}/{s} gave {got}, as staking itself would"));
                        m.count(if stake { "stakes through the pool" } else { "unstakes through the pool" });
                    }
                }
            }
            1 => {
                // the reverse quote is sufficient and not one unit too much
                let stake = r.chance(1, 2);
                let (den, ask) = if stake { (ASTRO, x.as_str()) } else { (x.as_str(), ASTRO) };
                let cap = if stake { top.min(1 << 90).min(if d > 0 { mul_div(s, 1 << 100, d).max(1) } else { top }) } else { d };
                if cap == 0 {
                    continue;
                }
                let k = amount(r, cap).min(cap);
                match rev(c, &pool, &nat(ask), k) {
                    Ok(o) => {
                        let q = sim(c, &pool, &nat(den), o);
                        m.check(P, "reverse-sufficient", matches!(q, Ok(g) if g >= k), || format!("asking {k} {ask} on {d}/{s}: told to offer {o}, which gives {q:?}"));
                        let q = if o > 1 { sim(c, &pool, &nat(den), o - 1).unwrap_or(0) } else { 0 };
                        m.check(P, "reverse-minimal", q < k, || format!("asking {k} {ask} on {d}/{s}: told to offer {o}, but one less gives {q}"));
                        m.count("reverse quotes");
                    }
                    Err(e) => {
                        m.check(P, "reverse-refused", !stake && (k > d || s == 0), || format!("asking {k} {ask} on {d}/{s}: {e}"));
                    }
                }
            }
            2 => {
                let a = r.log(1, (d / 4).max(100)).min(c.bal(&u, ASTRO));
                m.step(|| format!("{u} donates {a}"));
                if a > 0 {
                    c.send(&u, if r.chance(1, 5) { &pool } else { &st }, ASTRO, a).expect("donation");
                }
            }
            3 => {
                // direct staking and unstaking
                let b = c.bal(&u, &x);
                if b > 0 && r.chance(1, 2) {
                    let a = amount(r, b).min(b);
                    c.exec(&u, &st, &json!({"leave": {}}), &[coin(a, &x)]).ok();
                } else {
                    let a = amount(r, top);
                    c.exec(&u, &st, &json!({"enter": {}}), &[coin(a, ASTRO)]).ok();
                }
            }
            4 => {
                let a = r.log(2000, 1 << 60);
                let (msg, funds) = match r.below(6) {
                    0 => (json!({"swap": {"offer_asset": asset(&nat("uother"), a)}}), vec![coin(a, "uother")]),
                    1 => (json!({"swap": {"offer_asset": asset(&nat(ASTRO), a)}}), vec![coin(a - 1, ASTRO)]),
                    2 => (json!({"swap": {"offer_asset": asset(&nat(ASTRO), a)}}), vec![]),
                    3 => (json!({"swap": {"offer_asset": asset(&nat(ASTRO), a)}}), vec![coin(a, "uother")]),
                    4 => (json!({"swap": {"offer_asset": asset(&json!({"token": {"contract_addr": w.toks[1].id}}), a)}}), vec![]),
                    _ => (json!({"receive": {"sender": u, "amount": a.to_string(), "msg": to_json_binary(&json!({"swap": {}})).unwrap()}}), vec![]),
                };
                m.step(|| format!("{u} sends {msg} with {funds:?}"));
                let res = attempt(c, m, P, || c.exec(&u, &pool, &msg, &funds));
                must_refuse(m, P, "unbacked-or-foreign-swap", &res);
            }
            _ => {
                if c.bal(&u, &x) > 10 {
                    unsupported(c, m, P, r, &pool, &u, &[nat(ASTRO), nat(&x)], vec![coin(10, ASTRO), coin(10, &x)]);
                }
                let v: serde_json::Value = c.query(&pool, &json!({"pool": {}})).expect("pool");
                let z = v["total_share"] == "0" && v["assets"].as_array().unwrap().iter().all(|a| a["amount"] == "0");
                m.check(P, "pool-empty", z, || format!("a pool that keeps nothing reports {v}"));
                c.advance(r.range(1, 3), r.range(1, 10000));
            }
        }
    }
    m.count("complete lives");
}

fn cpair_code() -> Code {
    use astroport_pair_converter as p;
    Code::new("pair-converter", p::contract::instantiate, p::contract::execute, p::queries::query).with_migrate(p::contract::migrate)
}
fn pair1_code() -> Code {
    use pair1::contract as p;
    Code::new("pair-1.3.3", p::instantiate, p::execute, p::query).with_reply(p::reply)
}
pub fn converter(r: &mut Rng, m: &mut Mon) {
    const P: &str = "T09";
    let w = World::new(&[6, 6], &[6, 6], Fees { total: 30, maker: 3333 }, true);
    let c = &w.c;
    let cw = r.chance(1, 2);
    let neutron = !cw && r.chance(1, 2);
    let new = w.toks[0].id.clone();
    let old = if cw { w.toks[2].id.clone() } else { "ibc/oldastro".to_string() };
    let tok = |d: &str| json!({"token": {"contract_addr": d}});
    let oi = if cw { tok(&old) } else { nat(&old) };
    for u in &w.users {
        c.fund(u, "ibc/oldastro", World::PURSE);
    }
    let cv = conv::deploy(c, oi.clone(), &new, neutron, cw);
    let stock = r.log(1, 1 << 100);
    c.fund(&cv, &new, stock);
    let code1 = c.store(pair1_code());
    let code2 = c.store(cpair_code());
    let mk = |a: &serde_json::Value, b: &serde_json::Value| {
        c.instantiate(
            code1,
            OWNER,
            &json!({"asset_infos": [a, b], "token_code_id": w.codes.cw20, "factory_addr": w.factory, "init_params": null}),
            &[],
            "old pair",
        )
        .expect("old pair")
        .0
    };
    // only a pool of exactly these two tokens may become a conversion pool
    if r.chance(1, 5) {
        let other = [nat(&w.toks[1].id), tok(&w.toks[3].id)];
        let o = r.pick(&other).clone();
        let (a, b) = if r.chance(1, 2) { (oi.clone(), o) } else { (o, nat(&new)) };
        let p = mk(&a, &b);
        let res = attempt(c, m, P, || c.migrate("wasm1chainadmin", &p, code2, &json!({"converter_contract": cv})));
        must_refuse(m, P, "migration-of-foreign-pool", &res);
    }
    let (a, b) = if r.chance(1, 2) { (oi.clone(), nat(&new)) } else { (nat(&new), oi.clone()) };
    let pool = mk(&a, &b);
    // leftovers in the old pool: liquidity nobody withdrew
    let donate = |u: &str, to: &str, d: &str, a: u128| {
        if d.starts_with("wasm1") {
            c.exec(u, d, &json!({"transfer": {"recipient": to, "amount": a.to_string()}}), &[])
        } else {
            c.send(u, to, d, a)
        }
    };
    for d in [&old, &new] {
        if r.chance(1, 3) {
            donate(&w.users[0], &pool, d, r.log(1, 1 << 60)).expect("leftover");
        }
    }
    let res = attempt(c, m, P, || c.migrate("wasm1chainadmin", &pool, code2, &json!({"converter_contract": cv})));
    if !must_accept(m, P, "migration", &res) {
        return;
    }
    let cws: Vec<String> = vec![w.toks[2].id.clone(), w.toks[3].id.clone()];
    let holders: Vec<String> = w.users.iter().cloned().chain([cv.clone(), pool.clone(), "wasm1outsider".into()]).collect();
    let steps = r.range(4, 40);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        let u = r.pick(&w.users[..4]).clone();
        let have_new = c.bal(&cv, &new);
        match r.weighted(&[8, 3, 3, 2, 1]) {
            0 => {
                let a = match r.below(6) {
                    0 => have_new,
                    1 => have_new.saturating_add(1),
                    _ => amount(r, (have_new / 2).max(5)),
                };
                if a == 0 {
                    continue;
                }
                let to = match r.below(4) {
                    0 => Some(r.pick(&w.users).clone()),
                    1 => Some(match r.below(6) {
                        0 => pool.clone(),
                        1 => cv.clone(),
                        _ => "wasm1outsider".to_string(),
                    }),
                    2 if r.chance(1, 3) => Some("Bad Address".to_string()),
                    _ => None,
                };
                m.step(|| format!("{u} swaps {a} old tokens for {to:?}, stock {have_new}"));
                let q = sim(c, &pool, &oi, a);
                m.check(P, "quote", q == Ok(a), || format!("quoted {q:?} for {a}"));
                let q = rev(c, &pool, &nat(&new), a);
                m.check(P, "reverse-quote", q == Ok(a), || format!("reverse quote {q:?} for {a}"));
                let l0 = ledger(c, &cws, &holders);
                let res = attempt(c, m, P, || {
                    if cw {
                        let h = to_json_binary(&json!({"swap": {"to": to}})).unwrap();
                        c.exec(&u, &old, &json!({"send": {"contract": pool, "amount": a.to_string(), "msg": h}}), &[])
                    } else {
                        c.exec(&u, &pool, &json!({"swap": {"offer_asset": asset(&oi, a), "to": to}}), &[coin(a, &old)])
                    }
                });
                if to.as_deref() == Some("Bad Address") || a > have_new {
                    must_refuse(m, P, "swap-beyond-stock-or-to-nobody", &res);
                } else if must_accept(m, P, "swap", &res) {
                    let who = to.clone().unwrap_or(u.clone());
                    let e = Exp::new().add(&u, &old, -(a as i128)).add(&cv, &old, a as i128).add(&cv, &new, -(a as i128)).add(&who, &new, a as i128);
                    let dd = diff(&l0, &ledger(c, &cws, &holders));
                    m.check(P, "swap-ledger", dd == e.0, || format!("swap of {a}: {dd:?}, expected {:?}", e.0));
                    let tx = res.unwrap();
                    m.check(P, "attributes", tx.attr_u128(&pool, "return_amount") == Some(a) && tx.attr_u128(&pool, "offer_amount") == Some(a), || "attributes".into());
                    m.seen(P, (cw, neutron, (a as f64).log10() as i32, who == u, a == have_new));
                    m.sample(P, || format!("{a} old tokens of {u} became {a} new tokens of {who} through the pool"));
                    m.count("swaps");
                }
            }
            1 => {
                // the other direction and foreign tokens
                let a = amount(r, 1 << 40);
                let (o, f) = (w.toks[1].id.clone(), w.toks[3].id.clone());
                let send = |t: &str| c.exec(&u, t, &json!({"send": {"contract": pool, "amount": a.to_string(), "msg": to_json_binary(&json!({"swap": {}})).unwrap()}}), &[]);
                let (what, res) = match r.below(6) {
                    0 => ("reverse-direction", attempt(c, m, P, || c.exec(&u, &pool, &json!({"swap": {"offer_asset": asset(&nat(&new), a)}}), &[coin(a, &new)]))),
                    1 => ("foreign-coin", attempt(c, m, P, || c.exec(&u, &pool, &json!({"swap": {"offer_asset": asset(&nat(&o), a)}}), &[coin(a, &o)]))),
                    2 => ("foreign-cw20", attempt(c, m, P, || send(&f))),
                    3 => ("unbacked", attempt(c, m, P, || c.exec(&u, &pool, &json!({"swap": {"offer_asset": asset(&oi, a)}}), &[]))),
                    4 => ("other-coin-than-stated", attempt(c, m, P, || c.exec(&u, &pool, &json!({"swap": {"offer_asset": asset(&oi, a)}}), &[coin(a, &o)]))),
                    _ => ("forged-hook", attempt(c, m, P, || c.exec(&u, &pool, &json!({"receive": {"sender": u, "amount": a.to_string(), "msg": to_json_binary(&json!({"swap": {}})).unwrap()}}), &[]))),
                };
                m.step(|| format!("{u} tries {what} {a}"));
                must_refuse(m, P, what, &res);
                for i in [nat(&new), nat(&o), tok(&f)] {
                    let q = sim(c, &pool, &i, a);
                    m.check(P, "quote-of-refused", q.is_err(), || format!("{q:?} quoted for {a} {i}"));
                }
                for i in [oi.clone(), nat(&o), tok(&f)] {
                    let q = rev(c, &pool, &i, a);
                    m.check(P, "reverse-quote-of-refused", q.is_err(), || format!("{q:?} quoted for asking {a} {i}"));
                }
            }
            2 => {
                if cw {
                    // liquidity operations by hook
                    let (t, h) = if r.chance(1, 2) { (old.clone(), json!({"withdraw_liquidity": {"assets": []}})) } else { (w.toks[3].id.clone(), json!({"withdraw_liquidity": {}})) };
                    let res = attempt(c, m, P, || c.exec(&u, &t, &json!({"send": {"contract": pool, "amount": "10", "msg": to_json_binary(&h).unwrap()}}), &[]));
                    must_refuse(m, P, "withdrawal", &res);
                }
                unsupported(c, m, P, r, &pool, &u, &[nat("ibc/oldastro"), nat(&new)], vec![coin(10, "ibc/oldastro"), coin(10, &new)]);
                // migrating again
                let res = attempt(c, m, P, || c.migrate("wasm1chainadmin", &pool, code2, &json!({"converter_contract": cv})));
                must_refuse(m, P, "second-migration", &res);
            }
            3 => {
                let d = if r.chance(1, 2) { &old } else { &new };
                let to = if r.chance(1, 2) { &pool } else { &cv };
                let a = amount(r, 1 << 40);
                m.step(|| format!("{u} donates {a} {d} to {to}"));
                donate(&u, to, d, a).expect("donation");
            }
            _ => {
                let v: serde_json::Value = c.query(&pool, &json!({"pool": {}})).expect("pool");
                let z = v["total_share"] == "0" && v["assets"].as_array().unwrap().iter().all(|a| a["amount"] == "0");
                m.check(P, "pool-empty", z, || format!("a pool that keeps nothing reports {v}"));
                c.advance(r.range(1, 3), r.range(1, 10000));
            }
        }
    }
    m.count("complete lives");
}
