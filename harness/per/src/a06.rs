//! A06: the periodic price oracle.
use crate::city::{bin, js};
use crate::common::*;
use cosmwasm_std::{Decimal, Uint512};
use world::{Fees, Kind, Prov, Sw, World};
const P: &str = "A06";
const PERIOD: u64 = 86_400;
fn code() -> Code {
    use astroport_oracle::contract as k;
    Code::new("oracle", k::instantiate, k::execute, k::query)
}
type Prices = Vec<(serde_json::Value, serde_json::Value, u128)>;
fn cumulative(w: &World, pool: &str) -> Prices {
    let q: serde_json::Value = w.c.query(pool, &json!({"cumulative_prices": {}})).expect("cumulative prices");
    q["cumulative_prices"].as_array().unwrap().iter().map(|x| (x[0].clone(), x[1].clone(), x[2].as_str().unwrap().parse().unwrap())).collect()
}
fn consult(w: &World, o: &str, tok: &serde_json::Value, a: u128) -> Result<Vec<(serde_json::Value, String)>, String> {
    let v: serde_json::Value = w.c.query(o, &json!({"consult": {"token": tok, "amount": a.to_string()}}))?;
    Ok(v.as_array().unwrap().iter().map(|x| (x[0].clone(), x[1].as_str().unwrap().to_string())).collect())
}
fn u(x: u128) -> Uint512 {
    u512(x)
}
pub fn oracle(r: &mut Rng, m: &mut Mon) {
    let kind = *r.pick(&[Kind::Xyk, Kind::Xyk, Kind::Tax, Kind::Stable, Kind::Pcl]);
    let xyk = matches!(kind, Kind::Xyk | Kind::Tax);
    let (d0, d1) = if xyk { (*r.pick(&[0u8, 6, 6, 8, 18]), *r.pick(&[6u8, 6, 8, 18])) } else { (6, 6) };
    let mut w = World::new(&[d0, d1, 6], &[6], Fees { total: r.below(200) as u16, maker: r.below(5000) as u16 }, r.chance(1, 2));
    let cw = xyk && d1 == 6 && r.chance(1, 4);
    let ids = if cw { [0usize, 3] } else { [0, 1] };
    let ids = if r.chance(1, 2) { [ids[1], ids[0]] } else { ids };
    let toks = w.toks.clone();
    let i = match kind {
        Kind::Xyk => w.xyk(ids[0], ids[1], false),
        Kind::Tax => w.create_pair(Kind::Tax, &ids, Some(bin(&json!({"tax_configs": {toks[0].id.clone(): {"tax_rate": "0.01", "tax_recipient": "wasm1taxman"}}, "tax_config_admin": "wasm1taxadmin", "track_asset_balances": false}))), false, "tax".into()),
        Kind::Stable => w.stable(ids[0], ids[1], r.log(1, 1000) as u64),
        _ => {
            let p = json!({"amp": "40", "gamma": "0.000145", "mid_fee": "0.0026", "out_fee": "0.0045", "fee_gamma": "0.00023", "repeg_profit_threshold": "0.000002",
                "min_price_scale_delta": "0.000146", "price_scale": format!("{}.{:03}", r.below(50), r.range(1, 999)), "ma_half_time": 600, "track_asset_balances": null, "fee_share": null});
            w.create_pair(Kind::Pcl, &ids, Some(bin(&p)), false, "pcl".into())
        }
    }
    .expect("pool");
    let p = w.pools[i].clone();
    let one = |k: usize| 10u128.pow(p.toks[k].dec);
    let (a0, a1) = if xyk { (r.log(100_000, 1 << 75), r.log(100_000, 1 << 75)) } else { (1_000_000_000_000, 1_000_000_000_000) };
    if kind == Kind::Pcl {
        // about the initial price
        let q: serde_json::Value = w.c.query(&p.addr, &json!({"config": {}})).expect("config");
        let par: serde_json::Value = cosmwasm_std::from_json(q["params"].as_str().map(|s| Binary::from_base64(s).unwrap()).unwrap()).unwrap();
        let ps: f64 = par["price_scale"].as_str().unwrap().parse().unwrap();
        w.provide("wasm1user0", &p, &[(a1 as f64 * ps) as u128, a1], &Prov { slippage: Some(Decimal::percent(50)), ..Default::default() }).expect("provide");
    } else {
        w.provide("wasm1user0", &p, &[a0, a1], &Prov { slippage: Some(Decimal::percent(50)), ..Default::default() }).expect("provide");
    }
    for u in w.users.clone() {
        w.c.fund(&u, &p.lp, 0);
    }
    let tj = [js(&p.toks[0]), js(&p.toks[1])];
    let res = |w: &World| [w.pool_bal(&p, 0), w.pool_bal(&p, 1)];
    // reserves in force from each moment on
    let mut hist: Vec<(u64, [u128; 2])> = vec![(w.c.now(), res(&w))];
    if r.chance(1, 4) {
        // the pool's accumulators wrap around
        w.age_accumulators(&p, [u128::MAX - r.log(1, 1 << 80), u128::MAX - r.log(1, 1 << 80)]);
        m.count("pools with accumulators about to wrap around");
    }
    w.c.advance(1, r.range(1, 5000));
    let oc = w.c.store(code());
    let inst = |infos: serde_json::Value| w.c.instantiate(oc, "wasm1creator", &json!({"factory_contract": w.factory, "asset_infos": infos}), &[], "oracle");
    if r.chance(1, 10) {
        let x = inst(json!([js(&toks[2]), tj[0]])).map(|x| x.1);
        must_refuse(m, P, "oracle-without-pool", &x);
    }
    let order = if r.chance(1, 2) { json!([tj[0], tj[1]]) } else { json!([tj[1], tj[0]]) };
    let o = inst(order).expect("oracle").0;
    let mut last = (w.c.now(), cumulative(&w, &p.addr));
    // per direction: (integral, elapsed) of the last completed period
    let mut avg: Option<(Prices, u64, [(Uint512, u64); 2])> = None;
    let steps = r.range(8, 60);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        match r.weighted(&[6, 3, 2, 4, 5]) {
            0 => {
                let j = r.idx(2);
                let us = r.pick(&w.users).clone();
                let b = w.pool_bal(&p, j);
                let a = r.log(1, (b / 4).max(2));
                m.step(|| format!("t={} {us} trades {a} {}", w.c.now(), p.toks[j].id));
                let _ = w.swap(&us, &p, j, 1 - j, a, &Sw::loose());
                hist.push((w.c.now(), res(&w)));
            }
            1 => {
                let us = "wasm1user0";
                let k = r.range128(1, 1000);
                let b = res(&w);
                if r.chance(1, 2) {
                    let v = [b[0] / 1000 * k + 1, b[1] / 1000 * k + 1];
                    m.step(|| format!("t={} provides {v:?}", w.c.now()));
                    let _ = w.provide(us, &p, &v, &Prov { slippage: Some(Decimal::percent(50)), ..Default::default() });
                } else {
                    let l = w.c.bal(us, &p.lp) / 2000 * k;
                    if l > 0 {
                        m.step(|| format!("t={} withdraws {l} LP", w.c.now()));
                        let _ = w.withdraw(us, &p, l, None);
                    }
                }
                hist.push((w.c.now(), res(&w)));
            }
            2 => {
                let dt = r.log(1, 200_000) as u64;
                m.step(|| format!("{dt} s pass"));
                w.c.advance(1 + dt / 6, dt);
            }
            3 => {
                // around the end of the period
                let end = last.0 + PERIOD;
                let now = w.c.now();
                if now + 1 < end && r.chance(2, 3) {
                    let to = end - 1 + r.below(3);
                    w.c.advance(1, to - now);
                    m.step(|| format!("t={to} (period ends {end})"));
                }
            }
            _ => {}
        }
        // update, by anybody
        if r.chance(1, 3) {
            let us = r.pick(&w.users).clone();
            let now = w.c.now();
            m.step(|| format!("t={now} {us} updates the oracle (last {})", last.0));
            let upd = |w: &World| w.c.exec(&us, &o, &json!({"update": {}}), &[]);
            if now - last.0 >= PERIOD {
                // a trade in the same block cannot change what the update records
                let j = r.idx(2);
                let amts: Vec<u128> = vec![one(0), one(1)];
                let look = |w: &World| -> Vec<Result<Vec<(serde_json::Value, String)>, String>> { (0..2).map(|k| consult(w, &o, &tj[k], amts[k] * 1_000_003)).collect() };
                let cum = cumulative(&w, &p.addr);
                let plain = w.c.dry(|| {
                    let x = upd(&w);
                    (x.is_ok(), look(&w))
                });
                let b = w.pool_bal(&p, j);
                let tricked = w.c.dry(|| {
                    let t = w.swap("wasm1user3", &p, j, 1 - j, r.range128(1, b / 3 + 1), &Sw::loose());
                    let x = upd(&w);
                    (x.is_ok(), look(&w), t.is_ok())
                });
                m.check(P, "update-triggered", tricked.0 && plain.0, || "the update failed".into());
                for k in 0..2 {
                    let zero = cum.iter().zip(&last.1).any(|(n, o)| n.0 == tj[k] && n.2 == o.2);
                    let sig = if zero { "zero-average-spot" } else { "same-block-bias" };
                    m.check(P, sig, plain.1[k] == tricked.1[k], || format!("a trade in the block of the update changed the quote of {} from {:?} to {:?}", p.toks[k].id, plain.1[k], tricked.1[k]));
                }
                if tricked.2 {
                    m.count("same-block trades before an update");
                }
            }
            let x = attempt(&w.c, m, P, || upd(&w));
            if now - last.0 < PERIOD {
                must_refuse(m, P, "early-update", &x);
                m.seen(P, ("early", (last.0 + PERIOD - now).min(3)));
            } else {
                if !must_accept(m, P, "update", &x) {
                    return;
                }
                let cum = cumulative(&w, &p.addr);
                let el = now - last.0;
                let d: Prices = cum.iter().zip(&last.1).map(|(n, o)| {
                    assert!(n.0 == o.0 && n.1 == o.1);
                    (n.0.clone(), n.1.clone(), n.2.wrapping_sub(o.2))
                }).collect();
                // independent integral, for the constant product pools
                let mut ind = [(Uint512::zero(), 0u64); 2];
                for (k, e) in ind.iter_mut().enumerate() {
                    for (n, (t, b)) in hist.iter().enumerate() {
                        let from = (*t).max(last.0);
                        let to = hist.get(n + 1).map(|x| x.0).unwrap_or(now).min(now);
                        if to > from {
                            e.0 += u((to - from) as u128) * u(1_000_000) * u(b[1 - k]) / u(b[k]);
                            e.1 += 1;
                        }
                    }
                }
                m.seen(P, (kind as u8, "update", ind[0].1.min(12), (el / PERIOD).min(4), (el - PERIOD).min(2)));
                avg = Some((d, el, ind));
                last = (now, cum);
                m.count("updates");
            }
        }
        // quotes
        for k in 0..2 {
            let a = match r.below(6) {
                0 => 0,
                1 => 1,
                2 => one(k),
                3 => r.log(1, 1 << 110),
                _ => r.log(1, one(k) * 1_000_000),
            };
            let got = consult(&w, &o, &tj[k], a);
            let g = match got {
                Ok(v) => v,
                Err(e) => {
                    m.check(P, "quote-refused", false, || format!("{a} {}: {e}", p.toks[k].id));
                    return;
                }
            };
            m.check(P, "quote-shape", g.len() == 1 && g[0].0 == tj[1 - k], || format!("quote of {} gives {g:?}", p.toks[k].id));
            let got: Uint512 = Uint512::from(g[0].1.parse::<cosmwasm_std::Uint256>().unwrap());
            let spot = || -> Uint512 {
                let s = w.simulate(&p, k, 1 - k, one(k)).expect("simulation").return_amount.u128();
                u(s) * u(a) / u(one(k))
            };
            match &avg {
                None => {
                    let s = spot();
                    m.check(P, "first-quote", got == s, || format!("before the first update {a} {} quoted {got}, current price gives {s}", p.toks[k].id));
                    m.count("quotes before the first update");
                }
                Some((d, el, ind)) => {
                    let i = d.iter().find(|x| x.0 == tj[k]).expect("direction").2;
                    // floor(amount * floor18(integral / elapsed)) / 1e6
                    let av = u(i) * u(E18) / u(*el as u128);
                    let want = u(a) * av / u(E18) / u(1_000_000);
                    let sig = if i == 0 && got != want && got == spot() { "zero-average-spot" } else { "average" };
                    m.check(P, sig, got == want, || format!("{a} {} quoted {got}, the average over {el} s gives {want}", p.toks[k].id));
                    if xyk && i > 0 {
                        let (s, n) = ind[k];
                        let t = u(n as u128 + 3);
                        let lo = if s > t { u(a) * (s - t) / u(*el as u128) / u(1_000_000) } else { Uint512::zero() };
                        let hi = u(a) * (s + t) / u(*el as u128) / u(1_000_000);
                        m.check(P, "true-average", got + u(2) >= lo && got <= hi + u(2), || format!("{a} {} quoted {got}, reserves over {el} s give {lo}..{hi}", p.toks[k].id));
                    }
                    m.count("quotes of averages");
                    m.seen(P, (kind as u8, k, i == 0, (a as f64).log10() as i32));
                    m.sample(P, || format!("{a} {} quoted {got} after {el} s, integral {i}", p.toks[k].id));
                }
            }
        }
        if r.chance(1, 6) {
            let f = consult(&w, &o, &js(&toks[2]), 1000);
            m.check(P, "foreign-quote", f.is_err(), || format!("a foreign token was quoted {f:?}"));
        }
    }
}
