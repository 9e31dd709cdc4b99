//! Transmuter pools (P17, plus the generic pool properties for this pool type), factory (P18), router (P20).
use crate::eng::St;
use crate::eng::*;
use astroport::factory as fac;
use astroport::pair as ap;
use astroport::router as rt;
use sim::num::*;
use std::collections::{BTreeMap, BTreeSet};
use world::*;

// ---------------------------------------------------------------------------------------------- P17 transmuter
type L = BTreeMap<(String, String), i128>;
fn ent(l: &mut L, who: &str, id: &str, v: i128) {
    let e = l.entry((who.into(), id.into())).or_default();
    *e += v;
    if *e == 0 {
        l.remove(&(who.into(), id.into()));
    }
}
fn ast(t: &Tok, a: u128) -> Asset {
    Asset { info: t.info.clone(), amount: Uint128::new(a) }
}
fn trans(r: &mut Rng, m: &mut Mon) {
    let decs: Vec<u8> = (0..6).map(|_| *r.pick(&[0u8, 1, 6, 6, 6, 8, 12, 18, 18])).collect();
    let fees = Fees { total: *r.pick(&[0u16, 30, 10_000]), maker: *r.pick(&[0u16, 5000, 10_000]) };
    let mut w = World::new(&decs, &[6], fees, r.chance(1, 2));
    // deployment rules
    let n = 2 + r.idx(4);
    let mut ids: Vec<usize> = (0..6).collect();
    r.shuffle(&mut ids);
    let foreign = w.toks[ids[n]].clone();
    ids.truncate(n);
    {
        let mk = |v: &[AssetInfo]| {
            w.c.dry(|| {
                w.c.instantiate(
                    w.codes.trans,
                    "wasm1user0",
                    &ap::InstantiateMsg {
                        asset_infos: v.to_vec(),
                        token_code_id: w.codes.cw20,
                        factory_addr: w.factory.clone(),
                        init_params: None,
                        pair_type: Kind::Trans.pt(),
                    },
                    &[],
                    "t",
                )
                .map(|_| ())
            })
        };
        let inf: Vec<AssetInfo> = ids.iter().map(|i| w.toks[*i].info.clone()).collect();
        let mut bad = vec![(vec![inf[0].clone()], "one asset"), (vec![inf[0].clone(), inf[1].clone(), inf[0].clone()], "duplicate asset")];
        bad.push((w.toks[..6].iter().map(|t| t.info.clone()).collect(), "six assets"));
        bad.push((vec![inf[0].clone(), w.toks[6].info.clone()], "cw20 asset"));
        for (v, what) in bad {
            let x = mk(&v);
            m.check("P17", "deploy-refused", x.is_err(), || format!("a transmuter with {what} was created"));
        }
        let x = mk(&inf);
        m.check("P17", "deploy-allowed", x.is_ok(), || format!("creating a transmuter of {n} assets failed: {x:?}"));
    }
    let pi = w.create_pair(Kind::Trans, &ids, None, false, String::new()).expect("transmuter");
    let p = w.pools[pi].clone();
    let maxd = p.toks.iter().map(|t| t.dec).max().unwrap();
    let co: Vec<u128> = p.toks.iter().map(|t| pow10(maxd - t.dec)).collect();
    m.step(|| format!("transmuter {} of {:?} decimals {:?}", p.addr, p.toks.iter().map(|t| &t.id).collect::<Vec<_>>(), p.toks.iter().map(|t| t.dec).collect::<Vec<_>>()));
    let who = |r: &mut Rng| if r.chance(1, 4) { format!("wasm1recv{}", r.idx(2)) } else { format!("wasm1user{}", r.idx(3)) };
    let mut lp_model: u128 = 0;
    let mut donated = false;
    let norm = |b: &[u128]| -> u128 { b.iter().zip(&co).map(|(x, c)| x * c).sum() };
    for _ in 0..60 {
        if r.chance(1, 3) {
            w.c.advance(1, r.range(1, 100));
        }
        let s0: Vec<u128> = (0..n).map(|i| w.pool_bal(&p, i)).collect();
        let l0 = w.ledger();
        let mut exp: L = BTreeMap::new();
        let user = format!("wasm1user{}", r.idx(3));
        match r.weighted(&[28, 40, 12, 14, 3]) {
            // ------------------------------------------------ provide
            0 => {
                let k = 1 + r.idx(n);
                let mut ix: Vec<usize> = (0..n).collect();
                r.shuffle(&mut ix);
                ix.truncate(k);
                let amts: Vec<u128> = ix.iter().map(|_| if r.chance(1, 10) { 0 } else { r.log(1, 1_000_000_000_000_000) }).collect();
                let mut assets: Vec<Asset> = ix.iter().zip(&amts).map(|(i, a)| ast(&p.toks[*i], *a)).collect();
                let mut funds: Vec<Coin> = ix.iter().zip(&amts).filter(|(_, a)| **a > 0).map(|(i, a)| coin(*a, &p.toks[*i].id)).collect();
                let share: u128 = ix.iter().zip(&amts).map(|(i, a)| a * co[*i]).sum();
                let bad = match r.idx(12) {
                    0 => {
                        assets.push(ast(&foreign, 10));
                        funds.push(coin(10, &foreign.id));
                        "foreign asset"
                    }
                    1 => {
                        assets.push(assets[0].clone());
                        "duplicated asset"
                    }
                    2 if !funds.is_empty() => {
                        funds[0].amount += Uint128::one();
                        "more funds than stated"
                    }
                    3 if !funds.is_empty() => {
                        funds.remove(0);
                        "missing funds"
                    }
                    4 => {
                        funds.push(coin(5, &foreign.id));
                        "unrelated funds"
                    }
                    5 | 6 if k < n => {
                        // a coin of the pool, but not one of those he says he provides
                        let x = (0..n).find(|x| !ix.contains(x)).unwrap();
                        funds.push(coin(r.log(1, 1_000_000_000), &p.toks[x].id));
                        "unlisted funds of the pool"
                    }
                    _ if share == 0 => "nothing",
                    _ => "",
                };
                funds.sort_by(|a, b| a.denom.cmp(&b.denom));
                let recv = if r.chance(1, 4) { Some(who(r)) } else { None };
                let min = if r.chance(1, 3) { Some(if r.chance(1, 2) { share } else { share + 1 }) } else { None };
                let tx = w.c.exec(
                    &user,
                    &p.addr,
                    &ap::ExecuteMsg::ProvideLiquidity {
                        assets: assets.clone(),
                        slippage_tolerance: None,
                        auto_stake: None,
                        receiver: recv.clone(),
                        min_lp_to_receive: min.map(Uint128::new),
                    },
                    &funds,
                );
                m.step(|| format!("provide {user} {assets:?} funds {funds:?} recv {recv:?} min {min:?} ({bad}) => {}", short(&tx)));
                let want = bad.is_empty() && min.map_or(true, |x| x <= share);
                if min.map_or(false, |x| x > share) {
                    m.seen("P06", ("minlp", Kind::Trans));
                    m.check("P06", "min-lp-Trans", tx.is_err(), || format!("minted {share} LP although at least {min:?} were requested"));
                } else {
                    m.check("P17", if want { "provide-accepted" } else { "provide-refused" }, tx.is_ok() == want, || {
                        format!("provide with {} => {}", if want { "proper funds" } else { bad }, short(&tx))
                    });
                }
                if let (true, Ok(tx)) = (want, &tx) {
                    for (i, a) in ix.iter().zip(&amts) {
                        ent(&mut exp, &user, &p.toks[*i].id, -(*a as i128));
                        ent(&mut exp, &p.addr, &p.toks[*i].id, *a as i128);
                    }
                    ent(&mut exp, recv.as_ref().unwrap_or(&user), &p.lp, share as i128);
                    let d = diff(&l0, &w.ledger());
                    for prop in ["P17", "P06"] {
                        m.check(prop, "trans-provide-ledger", d == exp, || format!("provide changed balances by {d:?}, one-to-one would be {exp:?}"));
                        m.seen(prop, ("tp", k, mag(share), maxd));
                    }
                    let at = tx.attr_u128(&p.addr, "share");
                    m.check("P06", "share-attr", at.map_or(true, |x| x == share), || format!("share attribute {at:?}, minted {share}"));
                    lp_model += share;
                    m.count("provide_ok");
                }
                exp.clear();
            }
            // ------------------------------------------------ swap
            1 => {
                let i = r.idx(n);
                let j = (i + 1 + r.idx(n - 1)) % n;
                let cap = s0[j].saturating_mul(co[j]) / co[i];
                let a = match r.idx(6) {
                    0 => r.log(1, 1000),
                    1 => cap.max(1),
                    2 => cap + 1,
                    3 => (r.log(1, 1_000_000) * (co[j] / co[i]).max(1) + r.idx(3) as u128).saturating_sub(1).max(1),
                    _ => r.log(1, cap.max(2)),
                };
                if a > World::PURSE / 1000 {
                    continue;
                }
                let out = a * co[i] / co[j];
                let to = if r.chance(1, 4) { Some(who(r)) } else { None };
                let sim: Result<ap::SimulationResponse, String> = w.c.query(
                    &p.addr,
                    &ap::QueryMsg::Simulation { offer_asset: ast(&p.toks[i], a), ask_asset_info: if n > 2 || r.chance(1, 2) { Some(p.toks[j].info.clone()) } else { None } },
                );
                let bad = r.idx(16);
                let mut o = Sw { to: to.clone(), name_ask: r.chance(1, 2), ..Default::default() };
                if r.chance(1, 3) {
                    o.max_spread = Some(Decimal::zero());
                }
                let (tx, badw) = match bad {
                    0 => (w.c.exec(&user, &p.addr, &ap::ExecuteMsg::Swap { offer_asset: ast(&p.toks[i], a), ask_asset_info: Some(p.toks[j].info.clone()), belief_price: None, max_spread: None, to: None }, &[]), "no funds"),
                    1 => (w.c.exec(&user, &p.addr, &ap::ExecuteMsg::Swap { offer_asset: ast(&p.toks[i], a + 1), ask_asset_info: Some(p.toks[j].info.clone()), belief_price: None, max_spread: None, to: None }, &[coin(a, &p.toks[i].id)]), "fewer funds"),
                    2 => (w.c.exec(&user, &p.addr, &ap::ExecuteMsg::Swap { offer_asset: ast(&foreign, a), ask_asset_info: Some(p.toks[j].info.clone()), belief_price: None, max_spread: None, to: None }, &[coin(a, &foreign.id)]), "foreign offer"),
                    3 if n > 2 => (w.c.exec(&user, &p.addr, &ap::ExecuteMsg::Swap { offer_asset: ast(&p.toks[i], a), ask_asset_info: Some(foreign.info.clone()), belief_price: None, max_spread: None, to: None }, &[coin(a, &p.toks[i].id)]), "foreign ask"),
                    5 | 6 => {
                        // a second coin, of the pool or not, would be lost
                        let x = if r.chance(1, 2) { p.toks[j].id.clone() } else { foreign.id.clone() };
                        let mut f = vec![coin(a, &p.toks[i].id), coin(r.log(1, 1_000_000), &x)];
                        f.sort_by(|a, b| a.denom.cmp(&b.denom));
                        (w.c.exec(&user, &p.addr, &ap::ExecuteMsg::Swap { offer_asset: ast(&p.toks[i], a), ask_asset_info: Some(p.toks[j].info.clone()), belief_price: None, max_spread: None, to: None }, &f), "two coins")
                    }
                    4 if n > 2 => (w.c.exec(&user, &p.addr, &ap::ExecuteMsg::Swap { offer_asset: ast(&p.toks[i], a), ask_asset_info: None, belief_price: None, max_spread: None, to: None }, &[coin(a, &p.toks[i].id)]), "no ask asset"),
                    _ => (w.swap(&user, &p, i, j, a, &o), ""),
                };
                m.step(|| format!("swap {user} {a} {} -> {} {o:?} {badw} => {}", p.toks[i].id, p.toks[j].id, short(&tx)));
                let want = badw.is_empty() && out > 0 && out <= s0[j];
                m.check("P17", if want { "swap-accepted" } else { "swap-refused" }, tx.is_ok() == want, || {
                    format!("swap of {a} (worth {out} of {} in the pool) {badw} => {}", s0[j], short(&tx))
                });
                if badw.is_empty() {
                    let qok = out <= s0[j];
                    m.check("P09", "trans-sim", sim.as_ref().map_or(!qok, |s| qok && s.return_amount.u128() == out && s.commission_amount.is_zero() && s.spread_amount.is_zero()), || {
                        format!("simulation of {a} says {sim:?}, one-to-one is {out} (pool has {})", s0[j])
                    });
                    m.seen("P09", ("tswap", n, mag(a)));
                }
                if let (true, Ok(tx)) = (want, &tx) {
                    let rc = to.clone().unwrap_or(user.clone());
                    ent(&mut exp, &user, &p.toks[i].id, -(a as i128));
                    ent(&mut exp, &p.addr, &p.toks[i].id, a as i128);
                    ent(&mut exp, &p.addr, &p.toks[j].id, -(out as i128));
                    ent(&mut exp, &rc, &p.toks[j].id, out as i128);
                    let d = diff(&l0, &w.ledger());
                    for prop in ["P17", "P01"] {
                        m.check(prop, "trans-swap-ledger", d == exp, || format!("swap changed balances by {d:?}, one-to-one would be {exp:?}"));
                        m.seen(prop, ("ts", n, mag(a), mag(out), co[i] > co[j], to.is_some()));
                    }
                    let at = (tx.attr_u128(&p.addr, "return_amount"), tx.attr_u128(&p.addr, "commission_amount"), tx.attr_u128(&p.addr, "maker_fee_amount"), tx.attr_u128(&p.addr, "spread_amount"));
                    for prop in ["P17", "P01"] {
                        m.check(prop, "trans-swap-report", at == (Some(out), Some(0), Some(0), Some(0)), || format!("reported (return, commission, maker, spread) {at:?}, paid {out}"));
                    }
                    m.count("swap_ok");
                }
            }
            // ------------------------------------------------ proportional withdrawal
            2 => {
                let u = who(r);
                let b = w.c.bal(&u, &p.lp);
                if b == 0 {
                    continue;
                }
                let a = if r.chance(1, 3) { b } else { r.log(1, b) };
                let share: Result<Vec<Asset>, String> = w.c.query(&p.addr, &ap::QueryMsg::Share { amount: Uint128::new(a) });
                let full: Vec<u128> = s0.iter().map(|x| mul_div(*x, a, lp_model)).collect();
                let min = if r.chance(1, 3) { Some(full.iter().map(|x| mul_div(*x, *r.pick(&[50u128, 101, 130]), 100) + r.idx(2) as u128).collect::<Vec<_>>()) } else { None };
                let tx = w.withdraw(&u, &p, a, min.clone());
                m.step(|| format!("withdraw {u} {a} of {lp_model} min {min:?} => {}", short(&tx)));
                match &tx {
                    Err(e) => {
                        let excuse = min.as_ref().map_or(false, |v| (0..n).any(|i| v[i] > full[i].saturating_sub(1 + s0[i] / 1_000_000_000_000_000_000)));
                        m.check("P07", "withdraw-refused", excuse, || format!("withdrawal of {a} LP refused: {e}"));
                        m.check("P17", "withdraw-refused", excuse, || format!("withdrawal of {a} LP refused: {e}"));
                    }
                    Ok(_) => {
                        let s1: Vec<u128> = (0..n).map(|i| w.pool_bal(&p, i)).collect();
                        for i in 0..n {
                            let got = s0[i] - s1[i].min(s0[i]);
                            let lo = full[i].saturating_sub(1 + s0[i] / 1_000_000_000_000_000_000);
                            for prop in ["P07", "P17"] {
                                m.check(prop, "trans-withdraw-share", s1[i] <= s0[i] && got <= full[i] && got >= lo, || {
                                    format!("paid {got} {} for {a}/{lp_model} of {}; proportional {}", p.toks[i].id, s0[i], full[i])
                                });
                            }
                            ent(&mut exp, &p.addr, &p.toks[i].id, -(got as i128));
                            ent(&mut exp, &u, &p.toks[i].id, got as i128);
                            if let Some(v) = &min {
                                m.seen("P07", ("min", Kind::Trans));
                                m.check("P07", "min-assets-Trans", got >= v[i], || format!("paid {got} {}, at least {} were requested", p.toks[i].id, v[i]));
                            }
                            if let Ok(q) = &share {
                                let q = q.iter().find(|x| x.info == p.toks[i].info).map(|x| x.amount.u128());
                                m.check("P09", "share-query", q == Some(got), || format!("Share query {q:?}, withdrawal paid {got}"));
                            }
                        }
                        m.check("P09", "share-query-failed", share.is_ok(), || format!("Share query failed: {share:?}"));
                        ent(&mut exp, &u, &p.lp, -(a as i128));
                        let d = diff(&l0, &w.ledger());
                        for prop in ["P07", "P17"] {
                            m.check(prop, "trans-withdraw-ledger", d == exp, || format!("withdrawal changed balances by {d:?}, expected {exp:?}"));
                            m.seen(prop, ("tw", n, mag(a), a == lp_model));
                        }
                        lp_model -= a;
                        m.count("withdraw_ok");
                    }
                }
            }
            // ------------------------------------------------ chosen assets
            3 => {
                let u = who(r);
                let b = w.c.bal(&u, &p.lp);
                if b == 0 {
                    continue;
                }
                let sent = if r.chance(1, 2) { b } else { r.log(1, b) };
                let k = 1 + r.idx(n);
                let mut ix: Vec<usize> = (0..n).collect();
                r.shuffle(&mut ix);
                ix.truncate(k);
                let mut left = sent;
                let mut want_amt: Vec<u128> = vec![];
                for i in &ix {
                    let top = s0[*i].min(left / co[*i]);
                    let a = match r.idx(7) {
                        0 => top,
                        1 => top + 1,
                        2 => 0,
                        _ => r.log(1, top.max(1)).min(top),
                    };
                    left = left.saturating_sub(a * co[*i]);
                    want_amt.push(a);
                }
                let mut assets: Vec<Asset> = ix.iter().zip(&want_amt).map(|(i, a)| ast(&p.toks[*i], *a)).collect();
                let mut dup = false;
                let mut frn = false;
                match r.idx(12) {
                    0 => {
                        assets.push(ast(&foreign, 1));
                        frn = true;
                    }
                    1 => {
                        let x = assets[0].clone();
                        assets.push(x);
                        dup = true;
                    }
                    _ => {}
                }
                let req: u128 = ix.iter().zip(&want_amt).map(|(i, a)| a * co[*i]).sum::<u128>() + if dup { want_amt[0] * co[ix[0]] } else { 0 };
                let mut take: BTreeMap<usize, u128> = BTreeMap::new();
                for (i, a) in ix.iter().zip(&want_amt) {
                    *take.entry(*i).or_default() += *a;
                }
                if dup {
                    *take.get_mut(&ix[0]).unwrap() += want_amt[0];
                }
                let min = if r.chance(1, 4) { Some(vec![ast(&p.toks[ix[0]], take[&ix[0]] + r.idx(2) as u128)]) } else { None };
                let tx = w.c.exec(&u, &p.addr, &ap::ExecuteMsg::WithdrawLiquidity { assets: assets.clone(), min_assets_to_receive: min.clone() }, &[coin(sent, &p.lp)]);
                m.step(|| format!("withdraw {u} sent {sent} LP for {assets:?} min {min:?} => {}", short(&tx)));
                let payable = !frn && req > 0 && req <= sent && take.iter().all(|(i, a)| *a <= s0[*i]);
                let met = min.as_ref().map_or(true, |v| take[&ix[0]] >= v[0].amount.u128());
                if payable && !met {
                    m.check("P07", "min-assets-Trans", tx.is_err(), || format!("paid {take:?} although {min:?} were requested"));
                } else if !dup {
                    m.check("P17", if payable { "chosen-accepted" } else { "chosen-refused" }, tx.is_ok() == payable, || {
                        format!("withdrawal of {assets:?} worth {req} for {sent} LP from {s0:?} => {}", short(&tx))
                    });
                } else if !payable {
                    m.check("P17", "chosen-refused", tx.is_err(), || format!("withdrawal of {assets:?} for {sent} LP from {s0:?} was accepted"));
                }
                if tx.is_ok() {
                    for (i, a) in &take {
                        ent(&mut exp, &p.addr, &p.toks[*i].id, -(*a as i128));
                        ent(&mut exp, &u, &p.toks[*i].id, *a as i128);
                    }
                    ent(&mut exp, &u, &p.lp, -(req as i128));
                    let d = diff(&l0, &w.ledger());
                    for prop in ["P07", "P17"] {
                        m.check(prop, "trans-chosen-ledger", d == exp, || format!("withdrawal changed balances by {d:?}, one-to-one would be {exp:?}"));
                    }
                    m.seen("P17", ("tc", k, mag(req), req == sent));
                    lp_model -= req;
                    m.count("withdraw_chosen_ok");
                }
            }
            _ => {
                let i = r.idx(n);
                let a = r.log(1, 1_000_000_000);
                w.donate(&user, &p.addr, &p.toks[i], a).expect("donate");
                donated = true;
                m.step(|| format!("donate {a} {}", p.toks[i].id));
            }
        }
        // ------------------------------------------------ standing invariants
        let s1: Vec<u128> = (0..n).map(|i| w.pool_bal(&p, i)).collect();
        let sup = w.lp_supply(&p);
        m.check("P17", "lp-supply", sup == lp_model, || format!("LP supply {sup}, deposits minus withdrawals {lp_model}"));
        m.check("P17", "backed", norm(&s1) >= sup, || format!("pool {s1:?} is worth {} but {sup} LP exist", norm(&s1)));
        if l0 != w.ledger() && norm(&s0) >= lp_model && !donated {
            let grew = norm(&s1) - sup;
            m.check("P17", "dust-only", grew <= 61 * co.iter().max().unwrap() + sup / 100_000_000_000_000_000, || format!("pool {s1:?} exceeds its LP {sup} by {grew}"));
        }
        let q: ap::PoolResponse = w.c.query(&p.addr, &ap::QueryMsg::Pool {}).expect("pool");
        let ok = q.total_share.u128() == sup && (0..n).all(|i| q.assets.iter().any(|a| a.info == p.toks[i].info && a.amount.u128() == s1[i]));
        m.check("P09", "pool-query-Trans", ok, || format!("Pool query {q:?}, real {s1:?} / {sup}"));
        // reverse quotes
        let (i, j) = (r.idx(n), r.idx(n));
        if i != j {
            let ask = if r.chance(1, 8) { s1[j] + 1 + r.log(1, 1000) } else { r.log(1, s1[j].max(1)) };
            let q = w.c.query::<ap::ReverseSimulationResponse>(
                &p.addr,
                &ap::QueryMsg::ReverseSimulation { offer_asset_info: if n > 2 || r.chance(1, 2) { Some(p.toks[i].info.clone()) } else { None }, ask_asset: ast(&p.toks[j], ask) },
            );
            let exp = (ask * co[j] + co[i] - 1) / co[i];
            for prop in ["P10", "P17"] {
                let ok = if ask <= s1[j] { matches!(&q, Ok(v) if v.offer_amount.u128() == exp && v.commission_amount.is_zero()) } else { q.is_err() };
                m.check(prop, "trans-reverse", ok, || format!("reverse quote for {ask} {} of {}: {q:?}, needed {exp}", p.toks[j].id, s1[j]));
                m.seen(prop, ("tr", n, mag(ask), co[i] > co[j]));
            }
        }
        if m.failed() {
            return;
        }
    }
    // foreign tokens can not be redeemed
    let t = w.c.exec("wasm1user0", &p.addr, &ap::ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: None }, &[coin(5, &foreign.id)]);
    m.check("P17", "withdraw-foreign", t.is_err(), || "a foreign coin was accepted as LP token".into());
    // the last holders can leave
    for u in ["wasm1user0", "wasm1user1", "wasm1user2", "wasm1recv0", "wasm1recv1"] {
        let b = w.c.bal(u, &p.lp);
        if b > 0 {
            let t = w.withdraw(u, &p, b, None);
            m.check("P07", "withdraw-refused", t.is_ok(), || format!("{u} can not leave with {b} LP: {}", short(&t)));
            m.check("P17", "withdraw-refused", t.is_ok(), || format!("{u} can not leave with {b} LP: {}", short(&t)));
        }
    }
}
// ---------------------------------------------------------------------------------------------- P18 factory
#[derive(Clone, Debug)]
struct Reg {
    addr: String,
    ids: Vec<usize>,
    kind: Kind,
}
fn key(w: &World, ids: &[usize]) -> BTreeSet<String> {
    ids.iter().map(|i| w.toks[*i].id.clone()).collect()
}
fn infos(w: &World, ids: &[usize]) -> Vec<AssetInfo> {
    ids.iter().map(|i| w.toks[*i].info.clone()).collect()
}
fn pair_params(r: &mut Rng, k: Kind) -> Option<Binary> {
    match k {
        Kind::Xyk | Kind::Trans => None,
        Kind::Stable => Some(to_json_binary(&ap::StablePoolParams { amp: 100, owner: None }).unwrap()),
        Kind::Pcl => Some(to_json_binary(&pclp(r, Decimal::one(), false)).unwrap()),
        Kind::Tax => Some(
            to_json_binary(&astroport::pair_xyk_sale_tax::SaleTaxInitParams {
                track_asset_balances: false,
                tax_configs: Vec::<(&str, astroport::pair_xyk_sale_tax::TaxConfig<String>)>::new().into(),
                tax_config_admin: "wasm1taxadmin".into(),
            })
            .unwrap(),
        ),
    }
}
const KINDS: [Kind; 5] = [Kind::Xyk, Kind::Tax, Kind::Stable, Kind::Pcl, Kind::Trans];
/// a contract that accepts anything and reports what it was told
fn echo_code() -> Code {
    let ok = || sim::Resp { messages: vec![], attributes: vec![], data: None };
    Code {
        name: "echo".into(),
        instantiate: Box::new(move |_, _| Ok(ok())),
        execute: Box::new(move |_, (_, b)| Ok(sim::Resp { attributes: vec![("got".to_string(), String::from_utf8_lossy(&b).to_string())], ..ok() })),
        query: Box::new(|_, _| Err("no query".into())),
        reply: None,
        sudo: None,
        migrate: None,
    }
}
fn factory(r: &mut Rng, m: &mut Mon) {
    let mut w = World::new(&[6, 6, 18, 8, 6, 6, 6, 6], &[6, 18], Fees { total: 30, maker: 3333 }, r.chance(1, 2));
    // instantiation rules
    {
        let pc = |k: Kind, t: u16, f: u16| PairConfig { code_id: 1, pair_type: k.pt(), total_fee_bps: t, maker_fee_bps: f, is_disabled: false, is_generator_disabled: false, permissioned: false };
        let mut mk = |v: Vec<PairConfig>| {
            w.c.dry(|| {
                w.c.instantiate(
                    w.codes.factory,
                    OWNER,
                    &fac::InstantiateMsg { pair_configs: v, token_code_id: 1, fee_address: None, generator_address: None, owner: OWNER.into(), whitelist_code_id: 0, coin_registry_address: w.registry.clone(), tracker_config: None },
                    &[],
                    "f",
                )
                .is_ok()
            })
        };
        let (t, f) = (*r.pick(&[0u16, 9_999, 10_000, 10_001, 65_535]), *r.pick(&[0u16, 9_999, 10_000, 10_001, 65_535]));
        let ok = mk(vec![pc(Kind::Xyk, 30, 30), pc(Kind::Stable, t, f)]);
        m.check("P18", "init-fee-bounds", ok == (t <= 10_000 && f <= 10_000), || format!("factory with fees {t}/{f} bps: accepted={ok}"));
        let k = *r.pick(&KINDS);
        let ok = mk(vec![pc(k, 30, 30), pc(Kind::Xyk, 1, 1), pc(k, 20, 20)]);
        m.check("P18", "init-duplicate-types", !ok, || "factory with the same pair type configured twice was created".into());
    }
    let mut reg: BTreeMap<BTreeSet<String>, Reg> = BTreeMap::new();
    let mut gone: Vec<Pool> = vec![];
    let code = |w: &World, k: Kind| match k {
        Kind::Xyk => w.codes.xyk,
        Kind::Tax => w.codes.tax,
        Kind::Stable => w.codes.stable,
        Kind::Pcl => w.codes.pcl,
        Kind::Trans => w.codes.trans,
    };
    let mut cfg: BTreeMap<Kind, PairConfig> = KINDS
        .iter()
        .map(|k| (*k, PairConfig { code_id: code(&w, *k), pair_type: k.pt(), total_fee_bps: 30, maker_fee_bps: 3333, is_disabled: false, is_generator_disabled: false, permissioned: false }))
        .collect();
    let mut maker = if w.maker_on { Some(MAKER.to_string()) } else { None };
    // token code, whitelist code, generator, coin registry, tracker code
    let mut rest: (u64, u64, Option<String>, String, u64) = (w.codes.cw20, 0, None, w.registry.clone(), w.codes.tracker);
    let echo = w.c.store(echo_code());
    let gens: Vec<String> = (0..2).map(|i| w.c.instantiate(echo, OWNER, &serde_json::json!({}), &[], &format!("gen{i}")).expect("gen").0).collect();
    let tracker = w.codes.tracker;
    let more_trackers: Vec<u64> = (0..2).map(|_| w.c.store(world::tracker_code())).collect();
    for _ in 0..60 {
        if r.chance(1, 2) {
            w.c.advance(1, r.range(1, 1000));
        }
        let owner = w.owner.clone();
        let actor = match r.idx(3) {
            0 => owner.clone(),
            1 => "wasm1user1".to_string(),
            _ => format!("wasm1user{}", r.idx(5)),
        };
        match r.weighted(&[50, 14, 16, 6, 5]) {
            0 => {
                let kind = *r.pick(&KINDS);
                let n = if kind == Kind::Trans { 2 + r.idx(4) } else { 2 };
                let lim = if kind == Kind::Trans { 8 } else { 10 };
                let mut ids: Vec<usize> = (0..lim).collect();
                r.shuffle(&mut ids);
                ids.truncate(n);
                // prefer sets already known, in another order
                if !reg.is_empty() && r.chance(2, 5) {
                    let k = reg.values().nth(r.idx(reg.len())).unwrap().ids.clone();
                    ids = k;
                    r.shuffle(&mut ids);
                }
                if r.chance(1, 12) {
                    let x = ids[0];
                    ids.push(x);
                }
                let k = key(&w, &ids);
                let c = &cfg[&kind];
                let forbidden = if k.len() != ids.len() {
                    "duplicate asset"
                } else if reg.contains_key(&k) {
                    "a pair of these assets exists"
                } else if c.permissioned && actor != owner {
                    "permissioned type"
                } else if c.is_disabled {
                    "disabled type"
                } else {
                    ""
                };
                let fits = (kind == Kind::Trans && ids.iter().all(|i| *i < 8) && ids.len() <= 5) || (kind != Kind::Trans && ids.len() == 2);
                let params = pair_params(r, kind);
                let (pt, unknown) = if r.chance(1, 15) { (PairType::Custom("nosuchtype".into()), true) } else { (kind.pt(), false) };
                let before: BTreeSet<String> = w.c.all_contracts().into_iter().collect();
                let tx = w.c.exec(&actor, &w.factory, &fac::ExecuteMsg::CreatePair { pair_type: pt, asset_infos: infos(&w, &ids), init_params: params }, &[]);
                m.step(|| format!("create {kind:?} {ids:?} by {actor} => {}", short(&tx)));
                m.seen("P18", ("create", kind, ids.len(), forbidden, fits, actor == owner));
                if !forbidden.is_empty() || unknown {
                    m.check("P18", "create-refused", tx.is_err(), || format!("pair {kind:?} of {ids:?} created by {actor} although {forbidden}{}", if unknown { "unknown type" } else { "" }));
                } else if fits {
                    m.check("P18", "create-allowed", tx.is_ok(), || format!("creating {kind:?} of {ids:?} by {actor} failed: {}", short(&tx)));
                }
                if tx.is_ok() {
                    let q: Result<PairInfo, String> = w.c.query(&w.factory, &fac::QueryMsg::Pair { asset_infos: infos(&w, &ids) });
                    let q = match q {
                        Ok(q) => q,
                        Err(e) => {
                            m.check("P18", "pair-query", false, || format!("pair just created is unknown: {e}"));
                            return;
                        }
                    };
                    let ok = q.pair_type == kind.pt()
                        && q.asset_infos.iter().map(|a| a.to_string()).collect::<BTreeSet<_>>() == k
                        && q.asset_infos.len() == ids.len()
                        && w.c.is_contract(q.contract_addr.as_str())
                        && !reg.values().any(|x| x.addr == q.contract_addr)
                        && !gone.iter().any(|x| x.addr == q.contract_addr);
                    m.check("P18", "pair-query", ok, || format!("pair created as {kind:?} of {k:?} reports {q:?}"));
                    // whoever created the pair: only the factory's owner may upgrade it (and its tracker), only the pair mints its LP token
                    let new: Vec<(String, Option<String>)> = w.c.all_contracts().into_iter().filter(|a| !before.contains(a)).map(|a| (a.clone(), w.c.admin_of(&a))).collect();
                    m.check("P18", "upgrade-admin", new.iter().all(|x| x.1.as_deref() == Some(owner.as_str())), || format!("pair created by {actor} while {owner} owns the factory: new contracts and who may upgrade them: {new:?}"));
                    let (da, dh) = (w.c.denom_admin(&q.liquidity_token), w.c.denom_hook(&q.liquidity_token));
                    let hook_ok = dh.as_ref().map_or(true, |h| new.iter().any(|x| &x.0 == h));
                    m.check("P18", "lp-token-admin", da.as_deref() == Some(q.contract_addr.as_str()) && hook_ok, || format!("LP token {} is minted by {da:?} (pair {}), hook {dh:?}", q.liquidity_token, q.contract_addr));
                    let at = tx.as_ref().unwrap().attr(&w.factory, "pair_contract_addr");
                    m.check("P18", "create-attr", at.as_deref() == Some(q.contract_addr.as_str()), || format!("event names {at:?}, registered {}", q.contract_addr));
                    reg.insert(k, Reg { addr: q.contract_addr.to_string(), ids: ids.clone(), kind });
                    let toks: Vec<Tok> = ids.iter().map(|i| w.toks[*i].clone()).collect();
                    w.pools.push(Pool { kind, addr: q.contract_addr.to_string(), lp: q.liquidity_token.clone(), toks, tracker: false, note: String::new(), price: 1.0 });
                    let p = w.pools.last().unwrap().clone();
                    if r.chance(2, 3) {
                        let amts: Vec<u128> = p.toks.iter().map(|t| 100_000 * pow10(t.dec)).collect();
                        let t = w.provide("wasm1user2", &p, &amts, &Prov::default());
                        m.check("P18", "provide-new-pair", t.is_ok(), || format!("first deposit into a new pair failed: {}", short(&t)));
                    }
                    m.count("pairs_created");
                }
            }
            1 => {
                let ids = if !reg.is_empty() && r.chance(4, 5) { reg.values().nth(r.idx(reg.len())).unwrap().ids.clone() } else { vec![r.idx(10), r.idx(10)] };
                let mut ids2 = ids.clone();
                r.shuffle(&mut ids2);
                let k = key(&w, &ids2);
                let known = reg.contains_key(&k) && k.len() == ids2.len();
                let tx = w.c.exec(&actor, &w.factory, &fac::ExecuteMsg::Deregister { asset_infos: infos(&w, &ids2) }, &[]);
                m.step(|| format!("deregister {ids2:?} by {actor} => {}", short(&tx)));
                m.check("P18", "deregister", tx.is_ok() == (known && actor == owner), || format!("deregister {ids2:?} by {actor} (owner {owner}, registered={known}) => {}", short(&tx)));
                m.seen("P18", ("dereg", known, actor == owner));
                if tx.is_ok() && known {
                    let x = reg.remove(&k).unwrap();
                    let p = w.pools.iter().find(|p| p.addr == x.addr).unwrap().clone();
                    if let Some(g) = &rest.2 {
                        let got = tx.as_ref().unwrap().attrs(g, "got");
                        let want = vec![serde_json::json!({"deactivate_pool": {"lp_token": p.lp}})];
                        let got: Vec<serde_json::Value> = got.iter().map(|x| serde_json::from_str(x).unwrap()).collect();
                        m.check("P18", "deregister-tells-generator", got == want, || format!("on deregistration of {} the generator was told {got:?}", p.lp));
                    }
                    gone.push(p);
                    m.count("pairs_deregistered");
                }
            }
            2 => {
                let k = *r.pick(&KINDS);
                let mut c = cfg[&k].clone();
                c.total_fee_bps = *r.pick(&[0u16, 1, 30, 5000, 9_999, 10_000, 10_001, 20_000, 65_535]);
                c.maker_fee_bps = *r.pick(&[0u16, 1, 5000, 9_999, 10_000, 10_001, 65_535]);
                c.is_disabled = r.chance(1, 4);
                c.is_generator_disabled = r.chance(1, 4);
                c.permissioned = r.chance(1, 4);
                let legal = c.total_fee_bps <= 10_000 && c.maker_fee_bps <= 10_000;
                let tx = w.c.exec(&actor, &w.factory, &fac::ExecuteMsg::UpdatePairConfig { config: c.clone() }, &[]);
                m.step(|| format!("update {k:?} {c:?} by {actor} => {}", short(&tx)));
                m.check("P18", "pair-config-bounds", tx.is_ok() == (legal && actor == owner), || format!("UpdatePairConfig {c:?} by {actor} (owner {owner}) => {}", short(&tx)));
                m.seen("P18", ("cfg", legal, actor == owner, c.total_fee_bps, c.maker_fee_bps));
                if tx.is_ok() {
                    cfg.insert(k, c);
                }
            }
            3 => {
                // any subset of the settings at once
                let adr = |r: &mut Rng, v: &[String]| match r.weighted(&[5, 6, 1]) {
                    0 => None,
                    1 => Some(r.pick(v).clone()),
                    _ => Some("WASM1BAD".to_string()),
                };
                let makers: Vec<String> = (0..3).map(|i| format!("wasm1maker{i}")).collect();
                let (fa, ga, ra) = (adr(r, &makers), adr(r, &gens), if r.chance(2, 3) { None } else { Some(w.registry.clone()) });
                if r.chance(1, 3) {
                    let t = *r.pick(&[tracker, more_trackers[0], more_trackers[1]]);
                    let ta = if r.chance(1, 2) { Some("wasm1othermodule".to_string()) } else { None };
                    let tx = w.c.exec(&actor, &w.factory, &fac::ExecuteMsg::UpdateTrackerConfig { tracker_code_id: t, token_factory_addr: ta.clone() }, &[]);
                    m.step(|| format!("tracker code {t} {ta:?} by {actor} => {}", short(&tx)));
                    m.check("P18", "tracker-config-auth", tx.is_ok() == (actor == owner), || format!("UpdateTrackerConfig by {actor} (owner {owner}) => {}", short(&tx)));
                    if tx.is_ok() {
                        rest.4 = t;
                    }
                    let q: fac::TrackerConfig = w.c.query(&w.factory, &fac::QueryMsg::TrackerConfig {}).expect("tracker config");
                    m.check("P18", "tracker-config", q.code_id == rest.4 && q.token_factory_addr == TF_MODULE, || format!("TrackerConfig reports {q:?}, set {}", rest.4));
                    m.seen("P18", ("tracker", t == tracker, ta.is_some(), actor == owner));
                }
                let (tc, wc) = (if r.chance(1, 2) { Some(r.range(1, 1000)) } else { None }, if r.chance(1, 2) { Some(r.range(1, 1000)) } else { None });
                let legal = fa.as_deref() != Some("WASM1BAD") && ga.as_deref() != Some("WASM1BAD");
                let tx = w.c.exec(&actor, &w.factory, &fac::ExecuteMsg::UpdateConfig { token_code_id: tc, fee_address: fa.clone(), generator_address: ga.clone(), whitelist_code_id: wc, coin_registry_address: ra.clone() }, &[]);
                m.step(|| format!("config token={tc:?} fee={fa:?} generator={ga:?} whitelist={wc:?} registry={ra:?} by {actor} => {}", short(&tx)));
                m.check("P18", "update-config-auth", tx.is_ok() == (actor == owner && legal), || format!("UpdateConfig by {actor} (owner {owner}, legal {legal}) => {}", short(&tx)));
                m.seen("P18", ("config", fa.is_some(), ga.is_some(), tc.is_some(), wc.is_some(), ra.is_some(), tx.is_ok()));
                if tx.is_ok() {
                    maker = fa.or(maker);
                    rest.0 = tc.unwrap_or(rest.0);
                    rest.1 = wc.unwrap_or(rest.1);
                    rest.2 = ga.or(rest.2);
                    rest.3 = ra.unwrap_or(rest.3);
                }
            }
            _ => {
                let next = format!("wasm1own{}", r.idx(4));
                if next == owner {
                    continue;
                }
                w.c.exec(&owner, &w.factory, &fac::ExecuteMsg::ProposeNewOwner { owner: next.clone(), expires_in: 1000 }, &[]).expect("propose");
                w.c.exec(&next, &w.factory, &fac::ExecuteMsg::ClaimOwnership {}, &[]).expect("claim");
                w.owner = next.clone();
                m.step(|| format!("new owner {next}"));
            }
        }
        // ---- what the factory reports
        let q: fac::ConfigResponse = w.c.query(&w.factory, &fac::QueryMsg::Config {}).expect("config");
        let mut a: Vec<PairConfig> = q.pair_configs.clone();
        let mut b: Vec<PairConfig> = cfg.values().cloned().collect();
        a.sort_by_key(|c| c.pair_type.to_string());
        b.sort_by_key(|c| c.pair_type.to_string());
        m.check("P18", "config-query", a == b && q.owner == w.owner && q.fee_address.as_ref().map(|x| x.to_string()) == maker && (q.token_code_id, q.whitelist_code_id) == (rest.0, rest.1) && q.generator_address.as_ref().map(|x| x.to_string()) == rest.2 && q.coin_registry_address == rest.3, || format!("Config reports {q:?}, set {b:?} owner {} maker {maker:?} others {rest:?}", w.owner));
        let k = *r.pick(&KINDS);
        let f: fac::FeeInfoResponse = w.c.query(&w.factory, &fac::QueryMsg::FeeInfo { pair_type: k.pt() }).expect("feeinfo");
        m.check("P18", "fee-info", f.total_fee_bps == cfg[&k].total_fee_bps && f.maker_fee_bps == cfg[&k].maker_fee_bps && f.fee_address.map(|x| x.to_string()) == maker && f.total_fee_bps <= 10_000 && f.maker_fee_bps <= 10_000, || {
            format!("FeeInfo {k:?} reports {}/{}", f.total_fee_bps, f.maker_fee_bps)
        });
        let bl: Vec<PairType> = w.c.query(&w.factory, &fac::QueryMsg::BlacklistedPairTypes {}).expect("blacklist");
        let want: BTreeSet<String> = cfg.values().filter(|c| c.is_disabled || c.is_generator_disabled).map(|c| c.pair_type.to_string()).collect();
        m.check("P18", "blacklist", bl.len() == want.len() && bl.iter().map(|x| x.to_string()).collect::<BTreeSet<_>>() == want, || format!("blacklisted types {bl:?}, expected {want:?}"));
        // listing: every page size gives exactly the registered pairs
        let lim = *r.pick(&[1u32, 2, 3, 7, 10, 29, 30, 31, 100]);
        let mut got: Vec<String> = vec![];
        let mut after: Option<Vec<AssetInfo>> = None;
        for _ in 0..200 {
            let q: fac::PairsResponse = w.c.query(&w.factory, &fac::QueryMsg::Pairs { start_after: after.clone(), limit: Some(lim) }).expect("pairs");
            m.check("P18", "page-size", q.pairs.len() <= lim.min(30) as usize, || format!("page of {} for limit {lim}", q.pairs.len()));
            if q.pairs.is_empty() {
                break;
            }
            got.extend(q.pairs.iter().map(|x| x.contract_addr.to_string()));
            let mut c = q.pairs.last().unwrap().asset_infos.clone();
            r.shuffle(&mut c);
            after = Some(c);
        }
        let mut want: Vec<String> = reg.values().map(|x| x.addr.clone()).collect();
        got.sort();
        want.sort();
        m.check("P18", "listing", got == want, || format!("pages of {lim} list {got:?}, registered {want:?}"));
        m.seen("P18", ("list", lim, want.len()));
        // lookups in any order
        for _ in 0..2 {
            let (ids, exp) = if !reg.is_empty() && r.chance(2, 3) {
                let x = reg.values().nth(r.idx(reg.len())).unwrap();
                (x.ids.clone(), Some((x.addr.clone(), x.kind)))
            } else {
                let a = r.idx(10);
                let ids = vec![a, (a + 1 + r.idx(9)) % 10];
                let e = reg.get(&key(&w, &ids)).map(|x| (x.addr.clone(), x.kind));
                (ids, e)
            };
            let mut ids = ids;
            r.shuffle(&mut ids);
            let q: Result<PairInfo, String> = w.c.query(&w.factory, &fac::QueryMsg::Pair { asset_infos: infos(&w, &ids) });
            m.check("P18", "lookup", q.as_ref().ok().map(|x| x.contract_addr.to_string()) == exp.as_ref().map(|x| x.0.clone()), || format!("lookup of {ids:?}: {q:?}, registered {exp:?}"));
        }
        // deregistered pools let everybody out
        if !gone.is_empty() && r.chance(1, 3) {
            let p = gone[r.idx(gone.len())].clone();
            let b = w.c.bal("wasm1user2", &p.lp);
            let a = r.range128(b / 3 + 1, b.max(1));
            // dust shares that round to nothing can not be paid
            let all = w.lp_supply(&p);
            let pays = b > 0 && (0..p.toks.len()).all(|i| {
                let v = w.pool_bal(&p, i);
                (v == 0 && p.kind == Kind::Trans) || mul_div(v, a, all) >= 10
            });
            if pays {
                let t = w.c.dry(|| w.withdraw("wasm1user2", &p, a, None));
                let t = if r.chance(1, 2) && t.is_ok() { w.withdraw("wasm1user2", &p, a, None) } else { t };
                m.check("P18", "deregistered-withdraw", t.is_ok(), || format!("withdrawal of {a} LP from the deregistered {:?} pool failed: {}", p.kind, short(&t)));
                m.seen("P18", ("exit", p.kind));
            }
        }
        if m.failed() {
            return;
        }
    }
}
/// Asset sets whose names concatenate to the same bytes are still different sets.
fn factory_names(r: &mut Rng, m: &mut Mon) {
    let mut w = World::new(&[], &[], Fees { total: 30, maker: 0 }, false);
    let letters = "abcdefghij";
    let s: String = (0..8).map(|i| letters.as_bytes()[(i + r.idx(2)).min(9)] as char).collect();
    let (x, y) = (3 + r.idx(2), 5);
    let split = |k: usize| (format!("{}", &s[..k]), format!("z{}", &s[k..]));
    let ambiguous = r.chance(1, 2);
    let (a, b, c, d) = if ambiguous {
        // uabc|defg  vs  uabcd|efg : same concatenation
        let t = format!("{s}qrs");
        (t[..x].to_string(), t[x..].to_string(), t[..y].to_string(), t[y..].to_string())
    } else {
        let (a, b) = split(x);
        let (c, d) = split(y);
        (a, b, c, d)
    };
    let all: BTreeSet<String> = [&a, &b, &c, &d].iter().map(|x| x.to_string()).collect();
    if all.len() != 4 || all.iter().any(|x| x.len() < 3) {
        return;
    }
    for x in &all {
        w.add_native(x, 6);
    }
    let mk = |p: &str, q: &str| {
        w.c.exec("wasm1user0", &w.factory, &fac::ExecuteMsg::CreatePair { pair_type: PairType::Xyk {}, asset_infos: vec![AssetInfo::native(p), AssetInfo::native(q)], init_params: None }, &[])
    };
    let t1 = mk(&a, &b);
    let collide = {
        let cat = |p: &String, q: &String| if p < q { format!("{p}{q}") } else { format!("{q}{p}") };
        cat(&a, &b) == cat(&c, &d)
    };
    let t2 = mk(&c, &d);
    m.step(|| format!("pairs {a}|{b} => {} and {c}|{d} => {}", short(&t1), short(&t2)));
    m.seen("P18", ("names", collide, x));
    let sig = if collide { "same-concatenation" } else { "create-allowed" };
    m.check("P18", "create-allowed", t1.is_ok(), || format!("creating the pair {a}|{b} failed: {}", short(&t1)));
    m.check("P18", sig, t2.is_ok(), || format!("with the pair {{{a},{b}}} registered, creating the pair {{{c},{d}}} failed: {}", short(&t2)));
}
// ---------------------------------------------------------------------------------------------- P20 router
fn op(a: &Tok, b: &Tok) -> rt::SwapOperation {
    rt::SwapOperation::AstroSwap { offer_asset_info: a.info.clone(), ask_asset_info: b.info.clone() }
}
fn router(r: &mut Rng, m: &mut Mon) {
    let mut d = Dx::new(m, r);
    let mut deep = vec![];
    let np = 3 + d.r.idx(4);
    for _ in 0..np {
        let k = *d.r.pick(&KINDS);
        let i = d.add_pool(k);
        let p = d.pool(i);
        if k == Kind::Trans {
            let amts: Vec<u128> = p.toks.iter().map(|t| d.r.log(1_000, 1_000_000_000) * pow10(t.dec)).collect();
            d.w.provide("wasm1user0", &p, &amts, &Prov::default()).expect("seed transmuter");
        } else {
            d.seed(i);
        }
        deep.push(i);
    }
    let code = d.w.c.store({
        use astroport_router::contract as x;
        Code::new("router", x::instantiate, x::execute, x::query).with_reply(x::reply)
    });
    let router = d.w.c.instantiate(code, OWNER, &rt::InstantiateMsg { astroport_factory: d.w.factory.clone() }, &[], "router").expect("router").0;
    // pairs usable by the router: exactly two assets
    let edges: Vec<(usize, usize, usize)> = (0..d.w.pools.len())
        .filter(|i| d.w.pools[*i].toks.len() == 2)
        .map(|i| {
            let p = &d.w.pools[i];
            let ix = |id: &str| d.w.toks.iter().position(|t| t.id == id).unwrap();
            (i, ix(&p.toks[0].id), ix(&p.toks[1].id))
        })
        .collect();
    if edges.is_empty() {
        return;
    }
    for _ in 0..30 {
        d.tick();
        if d.r.chance(1, 4) {
            let pi = d.r.idx(d.w.pools.len());
            if d.w.pools[pi].kind != Kind::Trans {
                crate::props::step(&mut d, pi);
            }
            if d.m.failed() {
                return;
            }
            continue;
        }
        // a random walk over the registered pairs
        let len = match d.r.weighted(&[20, 30, 20, 10, 4, 2]) {
            0 => 1,
            1 => 2,
            2 => 3,
            3 => 4 + d.r.idx(6),
            4 => 50,
            _ => 51,
        };
        let e0 = edges[d.r.idx(edges.len())];
        let start = if d.r.chance(1, 2) { e0.1 } else { e0.2 };
        let mut at = start;
        let mut path: Vec<(usize, usize, usize)> = vec![]; // pool, from, to
        for _ in 0..len {
            let c: Vec<_> = edges.iter().filter(|e| e.1 == at || e.2 == at).collect();
            let fresh: Vec<_> = c.iter().filter(|e| !path.iter().any(|p| p.0 == e.0)).collect();
            let e = if !fresh.is_empty() && d.r.chance(5, 6) { **fresh[d.r.idx(fresh.len())] } else { *c[d.r.idx(c.len())] };
            let to = if e.1 == at { e.2 } else { e.1 };
            path.push((e.0, at, to));
            at = to;
        }
        let target = at;
        let mut ops: Vec<rt::SwapOperation> = path.iter().map(|(_, a, b)| op(&d.w.toks[*a], &d.w.toks[*b])).collect();
        let mut illegal = if len > 50 { "more than 50 hops" } else { "" };
        match d.r.idx(14) {
            0 => {
                ops.clear();
                illegal = "empty route";
            }
            1 if len > 1 && len <= 50 => {
                // break the chain in the middle
                let k = 1 + d.r.idx(len - 1);
                let (a, b) = (path[k].1, path[k].2);
                if let Some(e) = edges.iter().find(|e| e.1 != a && e.2 != a) {
                    ops[k] = op(&d.w.toks[e.1], &d.w.toks[e.2]);
                    illegal = "disconnected route";
                } else {
                    ops[k] = op(&d.w.toks[b], &d.w.toks[a]);
                    illegal = "disconnected route";
                }
            }
            2 if len <= 50 => {
                let k = d.r.idx(len + 1).min(len);
                let t = if k < len { path[k].1 } else { target };
                ops.insert(k, op(&d.w.toks[t], &d.w.toks[t]));
                illegal = "hop from a token to itself";
            }
            3 if len <= 50 => {
                ops.push(rt::SwapOperation::NativeSwap { offer_denom: d.w.toks[0].id.clone(), ask_denom: d.w.toks[1].id.clone() });
                illegal = "native swap hop";
            }
            4 if len <= 50 => {
                let un = (0..d.w.toks.len()).find(|t| *t != target && !edges.iter().any(|e| (e.1 == target && e.2 == *t) || (e.2 == target && e.1 == *t)));
                if let Some(t) = un {
                    ops.push(op(&d.w.toks[target], &d.w.toks[t]));
                    illegal = "hop without a registered pair";
                }
            }
            _ => {}
        }
        let p0 = d.pool(path[0].0);
        let i0 = p0.toks.iter().position(|t| t.id == d.w.toks[start].id).unwrap();
        let bal = d.w.pool_bal(&p0, i0);
        let amount = if d.r.chance(1, 10) { d.r.log(1, 1000) } else { d.r.log((bal / 1_000_000).max(1), (bal / 5).max(2)) };
        let user = d.user();
        let spread = match d.r.idx(4) {
            0 => None,
            1 => Some(Decimal::permille(1)),
            _ => Some(Decimal::percent(50)),
        };
        // reference: the same hops done one after another by a stranger
        let ghost = "wasm1ghost";
        let tt = d.w.toks[target].clone();
        let ts = d.w.toks[start].clone();
        let single = path.len() == 1;
        let refr: Result<u128, String> = d.w.c.dry(|| {
            d.w.donate(&user, ghost, &ts, amount)?;
            for (pi, a, b) in &path {
                let p = &d.w.pools[*pi];
                let i = p.toks.iter().position(|t| t.id == d.w.toks[*a].id).unwrap();
                let x = d.w.bal(ghost, &d.w.toks[*a]);
                let o = Sw { belief: if single { None } else { Some(Decimal::MAX) }, max_spread: spread, to: None, name_ask: true };
                d.w.swap(ghost, p, i, 1 - i, x, &o)?;
                let _ = b;
            }
            Ok(d.w.bal(ghost, &tt))
        });
        let distinct = { path.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() == path.len() };
        let quote: Result<rt::SimulateSwapOperationsResponse, String> = d.w.c.query(&router, &rt::QueryMsg::SimulateSwapOperations { offer_amount: Uint128::new(amount), operations: ops.clone() });
        let min = match (&refr, d.r.idx(5)) {
            (Ok(v), 0) => Some(*v),
            (Ok(v), 1) => Some(*v + 1),
            (Ok(v), 2) => Some(*v / 2),
            (_, 3) => Some(0),
            _ => None,
        };
        let to = if d.r.chance(1, 3) { Some(format!("wasm1recv{}", d.r.idx(3))) } else { None };
        let recv = to.clone().unwrap_or(user.clone());
        let l0 = d.w.ledger();
        let b0 = d.w.bal(&recv, &tt);
        let tx = match &ts.info {
            AssetInfo::NativeToken { denom } => d.w.c.exec(
                &user,
                &router,
                &rt::ExecuteMsg::ExecuteSwapOperations { operations: ops.clone(), minimum_receive: min.map(Uint128::new), to: to.clone(), max_spread: spread },
                &[coin(amount, denom)],
            ),
            AssetInfo::Token { contract_addr } => d.w.c.exec(
                &user,
                contract_addr.as_str(),
                &cw20::Cw20ExecuteMsg::Send {
                    contract: router.clone(),
                    amount: Uint128::new(amount),
                    msg: to_json_binary(&rt::Cw20HookMsg::ExecuteSwapOperations { operations: ops.clone(), minimum_receive: min.map(Uint128::new), to: to.clone(), max_spread: spread }).unwrap(),
                },
                &[],
            ),
        };
        d.m.step(|| format!("route {:?} amount {amount} min {min:?} to {to:?} spread {spread:?} {illegal} (reference {refr:?}) => {}", path, short(&tx)));
        let l1 = d.w.ledger();
        if !illegal.is_empty() {
            d.m.check("P20", "illegal-route", tx.is_err(), || format!("route with {illegal} was executed"));
            if illegal != "hop without a registered pair" {
                d.m.check("P20", "illegal-quote", quote.is_err(), || format!("route with {illegal} was quoted"));
            }
            d.m.check("P20", "refused-moves-nothing", l0 == l1, || "a refused route moved funds".into());
            d.m.seen("P20", ("illegal", illegal));
            continue;
        }
        match (&tx, &refr) {
            (Ok(t), Ok(v)) => {
                // what the trader holds of the start token is not what the route produced
                let got = d.w.bal(&recv, &tt) + if recv == user && start == target { amount } else { 0 } - b0;
                let ok = got == *v || (d.sh_recipient(&path, &recv));
                d.m.check("P20", "delivers-hops", ok, || format!("the route delivered {got}, its hops in sequence give {v}"));
                d.m.check("P20", "minimum", min.map_or(true, |x| got >= x), || format!("delivered {got}, minimum {min:?}"));
                for t in &d.w.toks {
                    let b = d.w.bal(&router, t);
                    d.m.check("P20", "keeps-nothing", b == 0, || format!("router holds {b} {} after a route", t.id));
                }
                let spent: i128 = diff(&l0, &l1).get(&(user.clone(), ts.id.clone())).copied().unwrap_or(0);
                let exp = -(amount as i128) + if recv == user && start == target { got as i128 } else { 0 };
                d.m.check("P20", "spends-offer", spent == exp, || format!("trader's {} changed by {spent}, expected {exp}", ts.id));
                if distinct {
                    d.m.check("P20", "quote-exact", quote.as_ref().map_or(false, |q| q.amount.u128() == got), || format!("quoted {quote:?}, executed {got}"));
                }
                if let Some(dt) = &t.data {
                    if let Ok(x) = cosmwasm_std::from_json::<rt::SwapResponseData>(dt) {
                        d.m.check("P20", "response-data", x.return_amount.u128() == got, || format!("response data {}, delivered {got}", x.return_amount));
                    }
                }
                d.m.seen("P20", ("ok", path.len(), path.iter().map(|x| d.w.pools[x.0].kind).collect::<Vec<_>>(), start == target, to.is_some()));
                d.m.count("routes_executed");
                d.m.count_n("hops_executed", path.len() as u64);
            }
            (Err(e), Ok(v)) => {
                let excuse = min.map_or(false, |x| x > *v) || *v == 0;
                d.m.check("P20", "route-refused", excuse, || format!("the hops in sequence deliver {v} (minimum {min:?}) but the route failed: {e}"));
                d.m.check("P20", "refused-moves-nothing", l0 == l1, || "a refused route moved funds".into());
                d.m.count("routes_refused");
            }
            (Ok(_), Err(e)) => {
                d.m.check("P20", "hop-fails-route-succeeds", false, || format!("the hops in sequence fail ({e}) but the route succeeded"));
            }
            (Err(_), Err(_)) => {
                d.m.check("P20", "refused-moves-nothing", l0 == l1, || "a refused route moved funds".into());
                d.m.count("routes_refused");
            }
        }
        if let (Ok(_), Some(x)) = (&tx, min) {
            if let Ok(v) = &refr {
                d.m.check("P20", "minimum", x <= *v, || format!("minimum {x} above the {v} delivered"));
            }
        }
        // internal entry point and reverse quotes
        if d.r.chance(1, 4) {
            let t = d.w.c.exec(&user, &router, &rt::ExecuteMsg::ExecuteSwapOperation { operation: ops[0].clone(), to: Some(user.clone()), max_spread: None, single: true }, &[]);
            d.m.check("P20", "internal-hop-auth", t.is_err(), || "an outsider executed an internal hop".into());
        }
        if d.r.chance(1, 4) {
            let mut want: Result<u128, String> = Ok(d.r.log(1, 1_000_000_000));
            let ask = want.clone().unwrap();
            for (pi, a, _) in path.iter().rev() {
                let p = &d.w.pools[*pi];
                let i = p.toks.iter().position(|t| t.id == d.w.toks[*a].id).unwrap();
                want = want.and_then(|x| d.w.reverse(p, i, 1 - i, x)).map(|x| x.offer_amount.u128());
            }
            let q: Result<Uint128, String> = d.w.c.query(&router, &rt::QueryMsg::ReverseSimulateSwapOperations { ask_amount: Uint128::new(ask), operations: ops.clone() });
            d.m.check("P20", "reverse-quote", q.as_ref().ok().map(|x| x.u128()) == want.as_ref().ok().copied(), || format!("reverse quote for {ask}: {q:?}, hop by hop {want:?}"));
            let ok = q.is_ok();
            d.m.seen("P20", ("reverse", path.len(), ok));
        }
        if d.m.failed() {
            return;
        }
    }
}
impl Dx<'_> {
    /// the receiver also collects fees or taxes of a pool on the way
    fn sh_recipient(&self, path: &[(usize, usize, usize)], recv: &str) -> bool {
        path.iter().any(|(pi, _, _)| self.sh[*pi].fee_share.as_ref().map_or(false, |x| x.1 == recv) || self.sh[*pi].tax.values().any(|x| x.1 == recv))
    }
}
pub fn trans_profile(n: u64) -> (&'static str, u64, u64, fn(&mut Rng, &mut Mon)) {
    ("transmuter", n, n * 20, trans)
}
pub fn specs() -> Vec<Spec> {
    let _ = std::marker::PhantomData::<St>;
    vec![
        Spec { prop: "P17", profiles: vec![("transmuter", 5000, 100_000, trans)], rule: "distinct (operation, number of assets, decimals relation, magnitudes)" },
        Spec { prop: "P18", profiles: vec![("factory", 2000, 40_000, factory), ("names", 60, 600, factory_names)], rule: "distinct (operation, pair type, legality, caller role, fee bounds, page size and registry size)" },
        Spec { prop: "P20", profiles: vec![("router", 1200, 24_000, router)], rule: "distinct (sequence of pool types on the route, cyclic, receiver) and kinds of illegal routes" },
    ]
}
