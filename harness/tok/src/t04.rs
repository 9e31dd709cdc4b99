//! T04: the balance tracker, fed by arbitrary bank histories, against the recorded truth.
use crate::common::*;
use serde_json::Value;
use world::{Fees, Kind, Prov, Sw, World};
use std::collections::BTreeMap;
const P: &str = "T04";
pub fn tracker(r: &mut Rng, m: &mut Mon) {
    let c = Chain::new();
    let code = c.store(world::tracker_code());
    let secs = r.chance(1, 2);
    let denom = c.create_denom(OWNER, "lp");
    let other = c.create_denom(OWNER, "other");
    let people: Vec<String> = USERS.iter().map(|x| x.to_string()).chain(["wasm1a".repeat(1) + "bc", "wasm1abcd".into()]).collect();
    // balances that exist before tracking starts become known with the first event of their holder
    let pre = r.chance(1, 4);
    if pre {
        for u in &people {
            if r.chance(1, 2) {
                c.fund(u, &denom, r.log(1, 1 << 80));
            }
        }
    }
    let t = c
        .instantiate(code, OWNER, &json!({"tokenfactory_module_address": TF_MODULE, "tracked_denom": denom, "track_over_seconds": secs}), &[], "tracker")
        .expect("tracker")
        .0;
    c.set_hook(&denom, Some(t.clone()));
    let unit = |c: &Chain| if secs { c.now() } else { c.height() };
    // truth after each change, what a late burn looks like, per account and for the supply
    let mut hist: BTreeMap<String, Vec<(u64, u128)>> = BTreeMap::new();
    let mut sup: Vec<(u64, u128)> = vec![];
    let mut stale: Vec<(u64, u128)> = vec![];
    let mut total: u128 = c.supply(&denom);
    let steps = r.range(5, 60);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        let u = unit(&c);
        match r.weighted(&[4, 6, 3, 1, 5]) {
            0 => {
                let to = r.pick(&people).clone();
                let a = r.log(1, 1 << 100);
                m.step(|| format!("mint {a} to {to} at {u}"));
                let res = c.tf_mint(&denom, &to, a);
                if !must_accept(m, P, "mint", &res) {
                    return;
                }
                total += a;
                hist.entry(to.clone()).or_default().push((u, c.bal(&to, &denom)));
                sup.push((u, total));
                stale.push((u, total));
                m.count("mints");
            }
            1 => {
                let from = r.pick(&people).clone();
                let to = r.pick(&people).clone();
                let b = c.bal(&from, &denom);
                if b == 0 {
                    continue;
                }
                let a = if r.chance(1, 4) { b } else { amount(r, b).min(b) };
                m.step(|| format!("{from} sends {a} to {to} at {u}"));
                let res = c.send(&from, &to, &denom, a);
                if !must_accept(m, P, "transfer", &res) {
                    return;
                }
                if from != to {
                    hist.entry(from.clone()).or_default().push((u, c.bal(&from, &denom)));
                    hist.entry(to.clone()).or_default().push((u, c.bal(&to, &denom)));
                }
                sup.push((u, total));
                stale.push((u, total));
                m.count(if from == to { "self transfers" } else { "transfers" });
            }
            2 => {
                let from = r.pick(&people).clone();
                let b = c.bal(&from, &denom);
                if b == 0 {
                    continue;
                }
                let a = if r.chance(1, 3) { b } else { amount(r, b).min(b) };
                m.step(|| format!("burn {a} of {from} at {u}"));
                let res = c.tf_burn(&denom, &from, a);
                if !must_accept(m, P, "burn", &res) {
                    return;
                }
                stale.push((u, total));
                total -= a;
                hist.entry(from.clone()).or_default().push((u, c.bal(&from, &denom)));
                sup.push((u, total));
                m.count("burns");
            }
            3 => {
                // only the module feeds the tracker, and only with the tracked denom
                let a = r.log(1, 1000);
                let d = if r.chance(1, 2) { other.clone() } else { "uatom".to_string() };
                let dg = c.digest();
                let res = c.sudo(&t, &json!({"block_before_send": {"from": TF_MODULE, "to": people[0], "amount": {"denom": d, "amount": a.to_string()}}}));
                m.check(P, "foreign-denom", res.is_err() && c.digest() == dg, || format!("{d} accepted"));
                let res = c.sudo(&t, &json!({"track_before_send": {"from": TF_MODULE, "to": people[0], "amount": {"denom": denom, "amount": a.to_string()}}}));
                m.check(P, "double-tracking", res.is_ok() && c.digest() == dg, || format!("TrackBeforeSend changed the tracker: {res:?}"));
                for msg in [json!({"block_before_send": {"from": TF_MODULE, "to": people[0], "amount": {"denom": denom, "amount": "5"}}}), json!({"receive": {}})] {
                    let res = c.exec(&people[1], &t, &msg, &[]);
                    m.check(P, "user-feeds-tracker", res.is_err() && c.digest() == dg, || "a user message was accepted".into());
                }
                // another tracked token of the same module does not disturb
                c.tf_mint(&other, &people[0], a).expect("other");
                m.count("foreign events");
            }
            _ => {
                let (b, s) = (r.range(0, 3), *r.pick(&[0u64, 0, 1, 2, 6, 1000]));
                c.advance(b, s);
            }
        }
        ask(&c, r, m, &t, secs, pre, &people, &hist, &sup, &stale);
        // current values straight from the bank, once an account has been seen
        for (who, h) in &hist {
            let b = c.bal(who, &denom);
            m.check(P, "harness", h.last().unwrap().1 == b, || "model".into());
        }
    }
    m.count("complete histories");
}
type Hist = Vec<(u64, u128)>;
/// Questions about any moment, answered from the recorded truth.
#[allow(clippy::too_many_arguments)]
fn ask(c: &Chain, r: &mut Rng, m: &mut Mon, t: &str, secs: bool, pre: bool, people: &[String], hist: &BTreeMap<String, Hist>, sup: &Hist, stale: &Hist) {
    let now = if secs { c.now() } else { c.height() };
    // questions about any moment
    for _ in 0..3 {
        let who = if r.chance(1, 12) { TF_MODULE.to_string() } else { r.pick(people).clone() };
        let empty = vec![];
        let h = hist.get(&who).unwrap_or(&empty);
        let at: Option<u64> = match r.below(6) {
            0 => None,
            1 => Some(now),
            2 => Some(now + r.range(1, 50)),
            3 => Some(r.range(0, now)),
            _ => {
                let e = if r.chance(1, 2) { h } else { sup };
                if e.is_empty() {
                    Some(now.saturating_sub(r.below(5)))
                } else {
                    Some((r.pick(e).0 + r.below(3)).saturating_sub(1))
                }
            }
        };
        let look = |h: &Vec<(u64, u128)>| -> u128 {
            match at {
                Some(t) if t != now => h.iter().rev().find(|x| x.0 < t).map(|x| x.1),
                _ => h.last().map(|x| x.1),
            }
            .unwrap_or(0)
        };
        let q = c.query::<Uint128>(t, &json!({"balance_at": {"address": who, "unit": at}})).expect("balance_at").u128();
        m.check(P, "balance-at", q == look(h), || format!("BalanceAt({who}, {at:?}) at {now} = {q}; history {h:?}"));
        let q = c.query::<Uint128>(t, &json!({"total_supply_at": {"unit": at}})).expect("total_supply_at").u128();
        let (want, late) = (look(sup), look(stale));
        if q == late && late != want {
            // the snapshot taken by a burn still contains the burnt amount
            m.check(P, "supply-after-burn", false, || format!("TotalSupplyAt({at:?}) at {now} = {q}, supply was {want}"));
        } else {
            m.check(P, "supply-at", q == want, || format!("TotalSupplyAt({at:?}) at {now} = {q}, supply was {want}; {sup:?}"));
        }
        if pre && h.is_empty() {
            continue;
        }
        m.seen(P, (secs, h.len().min(12), sup.len().min(24), at.map(|t| (t as i64 - now as i64).signum()), h.iter().filter(|x| Some(x.0) == at).count()));
        let (hl, sl) = (h.len(), sup.len());
        m.sample(P, || format!("BalanceAt({who}, {at:?}) over {hl} changes and {sl} supply events agrees (per second: {secs})"));
    }
}
/// LP tokens of real pools created with tracking: fed by deposits, withdrawals and transfers only.
pub fn lp_tokens(r: &mut Rng, m: &mut Mon) {
    let mut w = World::new(&[6, 6, 8], &[6], Fees { total: 30, maker: 3333 }, true);
    let track = r.chance(5, 6);
    let (x, y) = (r.idx(4), 0);
    let (x, y) = if x == y { (1, 2) } else { (x, y) };
    let i = match r.idx(3) {
        0 => w.xyk(x, y, track),
        1 => {
            let p = astroport::pair_xyk_sale_tax::SaleTaxInitParams { track_asset_balances: track, tax_configs: Vec::<(&str, _)>::new().into(), tax_config_admin: "wasm1taxadmin".into() };
            w.create_pair(Kind::Tax, &[x, y], Some(to_json_binary(&p).unwrap()), track, String::new())
        }
        _ => {
            let p = json!({"amp": "40", "gamma": "0.0001", "mid_fee": "0.005", "out_fee": "0.01", "fee_gamma": "0.001", "repeg_profit_threshold": "0.0001",
                "min_price_scale_delta": "0.000001", "price_scale": "1", "ma_half_time": 600, "track_asset_balances": track});
            w.create_pair(Kind::Pcl, &[x, y], Some(to_json_binary(&p).unwrap()), track, String::new())
        }
    };
    let p = w.pools[match i {
        Ok(i) => i,
        Err(e) => {
            m.check(P, "pool-with-tracking", false, || format!("creating a pool failed: {e}"));
            return;
        }
    }]
    .clone();
    let cfg: astroport::pair::ConfigResponse = w.c.query(&p.addr, &astroport::pair::QueryMsg::Config {}).expect("config");
    m.check(P, "tracker-exists", cfg.tracker_addr.is_some() == track, || format!("tracking asked: {track}, the pool reports {:?}", cfg.tracker_addr));
    let hook = w.c.w.borrow().denoms.get(&p.lp).and_then(|d| d.hook.clone());
    m.check(P, "tracker-hooked", hook == cfg.tracker_addr.as_ref().map(|x| x.to_string()), || format!("the LP token feeds {hook:?}, the pool reports {:?}", cfg.tracker_addr));
    let t = match cfg.tracker_addr {
        Some(t) => t.to_string(),
        None => return,
    };
    let tc: Value = w.c.query(&t, &json!({"config": {}})).expect("tracker config");
    m.check(P, "tracker-config", tc["tracked_denom"] == json!(p.lp) && tc["token_factory_module"] == json!(TF_MODULE), || format!("the pool's tracker says {tc}"));
    let people: Vec<String> = (0..3).map(|i| format!("wasm1user{i}")).chain([p.addr.clone(), "wasm1friend".to_string()]).collect();
    let mut hist: BTreeMap<String, Hist> = BTreeMap::new();
    let (mut sup, mut stale): (Hist, Hist) = (vec![], vec![]);
    for _ in 0..r.range(5, 40) {
        if m.failed() {
            return;
        }
        let h = w.c.height();
        let before: Vec<u128> = people.iter().map(|u| w.c.bal(u, &p.lp)).collect();
        let s0 = w.c.supply(&p.lp);
        let mut late = None;
        match r.weighted(&[4, 3, 3, 6, 1]) {
            0 => {
                let a = r.log(1_000_000, 1_000_000_000);
                let amts: Vec<u128> = p.toks.iter().map(|t| a * pow10(t.dec) / 1000).collect();
                let u = r.pick(&people[..3]).clone();
                let o = Prov { receiver: if r.chance(1, 3) { Some(r.pick(&people).clone()) } else { None }, ..Default::default() };
                let o = Prov { receiver: o.receiver.filter(|x| *x != p.addr), ..o };
                let x = w.provide(&u, &p, &amts, &o);
                m.step(|| format!("{u} provides {amts:?} for {:?} at {h}: {:?}", o.receiver, x.as_ref().err()));
                if x.is_err() {
                    continue;
                }
                m.count("deposits");
            }
            1 => {
                let u = r.pick(&people[..3]).clone();
                let b = w.c.bal(&u, &p.lp);
                if b < 1000 {
                    continue;
                }
                let a = r.range128(b / 10 + 1, b);
                let x = w.withdraw(&u, &p, a, None);
                m.step(|| format!("{u} withdraws {a} at {h}: {:?}", x.as_ref().err()));
                if x.is_err() {
                    continue;
                }
                // the snapshot taken by a burn still contains the burnt amount (known finding)
                late = Some(s0);
                m.count("withdrawals");
            }
            2 => {
                let u = r.pick(&people).clone();
                let to = r.pick(&people).clone();
                let b = w.c.bal(&u, &p.lp);
                if b == 0 || u == p.addr || to == p.addr {
                    continue;
                }
                let a = amount(r, b).min(b);
                m.step(|| format!("{u} sends {a} LP to {to} at {h}"));
                let x = w.c.send(&u, &to, &p.lp, a);
                if !must_accept(m, P, "lp-transfer", &x) {
                    return;
                }
                m.count("LP transfers");
            }
            3 => {
                w.c.advance(r.range(0, 3), *r.pick(&[0u64, 1, 2, 6, 1000]));
                continue;
            }
            _ => {
                // a swap does not concern the LP token
                let a = r.log(1, 1_000_000);
                let j = r.idx(2);
                let _ = w.swap("wasm1user3", &p, j, 1 - j, a, &Sw::loose());
                continue;
            }
        }
        for (u, b) in people.iter().zip(&before) {
            let n = w.c.bal(u, &p.lp);
            if n != *b {
                hist.entry(u.clone()).or_default().push((h, n));
            }
        }
        let s1 = w.c.supply(&p.lp);
        sup.push((h, s1));
        stale.push((h, late.unwrap_or(s1)));
        ask(&w.c, r, m, &t, false, false, &people, &hist, &sup, &stale);
        ask(&w.c, r, m, &t, false, false, &people, &hist, &sup, &stale);
    }
    m.count("complete pool histories");
}
