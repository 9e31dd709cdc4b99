//! Workloads and monitors for price limits, quotes, taxes, price accumulators, observations, balance recall and round trips.
use crate::eng::*;
use crate::eng::St;
use crate::model::*;
use crate::props::*;
use astroport::pair as ap;
use astroport::pair_xyk_sale_tax as apt;
use sim::num::*;
use std::collections::BTreeMap;
use world::*;

/// runs `steps` random operations on seeded pools of `kind`; `f` acts in between
pub fn with_pool<'a>(r: &'a mut Rng, m: &'a mut Mon, kind: Kind) -> (Dx<'a>, usize) {
    let mut d = Dx::new(m, r);
    let i = d.add_pool(kind);
    d.tick();
    d.seed(i);
    (d, i)
}
pub fn sides(d: &mut Dx, pi: usize) -> (usize, usize) {
    let n = d.w.pools[pi].toks.len();
    let i = d.r.idx(n);
    let mut j = d.r.idx(n - 1);
    if j >= i {
        j += 1
    }
    (i, j)
}
fn ratio_dec(n: u128, m: u128) -> Option<Decimal> {
    to128(u512(n) * u512(E18) / u512(m.max(1))).map(Decimal::raw)
}
// ---------------------------------------------------------------------------------------------- P08 limits
fn limits(r: &mut Rng, m: &mut Mon, kind: Kind) {
    let (mut d, pi) = with_pool(r, m, kind);
    for _ in 0..40 {
        d.tick();
        match d.r.weighted(&[60, 25, 15]) {
            0 => limit_swap(&mut d, pi),
            1 => limit_provide(&mut d, pi),
            _ => step(&mut d, pi),
        }
        if d.m.failed() {
            return;
        }
    }
}
fn limit_swap(d: &mut Dx, pi: usize) {
    let p = d.pool(pi);
    let (i, j) = sides(d, pi);
    let a = rand_amount(d, pi, i);
    let sim = match d.w.simulate(&p, i, j, a) {
        Ok(s) => s,
        Err(_) => return,
    };
    let (ret, com, sp) = (sim.return_amount.u128(), sim.commission_amount.u128(), sim.spread_amount.u128());
    let got = if p.kind == Kind::Pcl { ret } else { ret + com };
    if got == 0 {
        return;
    }
    let tax = d.sh[pi].tax.get(&p.toks[i].id).map(|t| mul_div(a, dec(t.0), E18)).unwrap_or(0);
    let offered = a - tax;
    let mut o = Sw::default();
    o.max_spread = match d.r.idx(9) {
        0 => None,
        1 => Some(Decimal::zero()),
        2 => Some(Decimal::permille(1)),
        3 => Some(Decimal::permille(5)),
        4 => Some(Decimal::percent(5)),
        5 => Some(Decimal::percent(50)),
        6 => Some(*d.r.pick(&[Decimal::raw(E18 / 2 + 1), Decimal::percent(51), Decimal::one(), Decimal::percent(300)])),
        // on top of the reported spread ratio
        7 => {
            let q = mul_div(sp, E18, got + sp) as i128 + d.r.range(0, 2000) as i128 - 1000;
            Some(Decimal::raw(q.max(0) as u128))
        }
        _ => Some(Decimal::raw(d.r.log(1_000_000_000_000, E18))),
    };
    if d.r.chance(1, 2) && offered > 0 {
        let max = o.max_spread.map(dec).unwrap_or(if p.kind == Kind::Pcl { E18 / 20 } else { E18 / 200 }).min(E18 - 1);
        // expectation = got / (1 - delta)
        let delta = match d.r.idx(5) {
            0 => 0,
            1 => max,
            2 => max + max / 1000,
            3 => max - max / 1000,
            _ => d.r.log(1, E18 - 1),
        }
        .min(E18 - 1);
        let expect = if d.r.chance(1, 6) { mul_div(got, E18 - delta, E18) } else { to128(u512(got) * u512(E18) / u512(E18 - delta)).unwrap_or(u128::MAX) }.max(1);
        o.belief = ratio_dec(offered, expect);
        if d.r.chance(1, 40) {
            o.belief = Some(Decimal::zero());
        }
    }
    let u = d.user();
    let _ = d.op_swap(pi, &u, i, j, a, &o);
}
fn limit_provide(d: &mut Dx, pi: usize) {
    let p = d.pool(pi);
    let s = d.st(pi);
    if s.lp == 0 || extreme(&s, &[]) {
        step(d, pi);
        return;
    }
    let mut amts = d.rand_amounts(pi);
    if d.r.chance(1, 2) {
        // near the proportional ratio, so that small tolerances matter
        let frac = 10f64.powf(-4.0 + 4.0 * d.r.f64());
        let skew = 1.0 + [0.001, 0.005, 0.02, 0.1, 0.6][d.r.idx(5)] * (2.0 * d.r.f64() - 1.0);
        amts = vec![(s.bal[0] as f64 * frac) as u128, (s.bal[1] as f64 * frac * skew) as u128];
    }
    if amts.iter().any(|a| *a == 0) {
        return;
    }
    let mut o = Prov::default();
    o.slippage = match d.r.idx(7) {
        0 => None,
        1 => Some(Decimal::zero()),
        2 => Some(Decimal::permille(5)),
        3 => Some(Decimal::percent(50)),
        4 => Some(*d.r.pick(&[Decimal::raw(E18 / 2 + 1), Decimal::percent(60), Decimal::one()])),
        _ => Some(Decimal::raw(d.r.log(1_000_000_000_000, E18 / 2))),
    };
    let tol = o.slippage.map(df).unwrap_or(if p.kind == Kind::Pcl { 0.05 } else { 0.005 });
    let capped = o.slippage.map_or(false, |t| dec(t) > E18 / 2);
    let mut verdict = Verdict::Border;
    let mut why = String::new();
    match p.kind {
        Kind::Xyk | Kind::Tax => {
            let (r0, r1) = (amts[0] as f64 / amts[1] as f64, amts[1] as f64 / amts[0] as f64);
            let (q0, q1) = (s.bal[0] as f64 / s.bal[1] as f64, s.bal[1] as f64 / s.bal[0] as f64);
            // the contract keeps 18 decimals
            let e = |x: f64| x * 1e-12 + 2e-18;
            let (a, b) = (r0 * (1.0 - tol) - q0, r1 * (1.0 - tol) - q1);
            verdict = if capped || a > e(r0) + e(q0) || b > e(r1) + e(q1) {
                Verdict::MustFail
            } else if a < -e(r0) - e(q0) && b < -e(r1) - e(q1) {
                Verdict::MustPass
            } else {
                Verdict::Border
            };
            why = format!("deposit ratio {r0} vs pool {q0}, tolerance {tol}");
        }
        Kind::Pcl if d.healthy(&p, &s) && d.w.c.now() >= d.sh[pi].ramp_until && d.sh[pi].donated < 1e-12 => {
            let assets: Vec<Asset> = p.toks.iter().zip(&amts).map(|(t, a)| Asset { info: t.info.clone(), amount: Uint128::new(*a) }).collect();
            let q: Result<Uint128, String> =
                d.w.c.query(&p.addr, &ap::QueryMsg::SimulateProvide { assets, slippage_tolerance: Some(Decimal::percent(50)) });
            if let Ok(v) = q {
                let share = tf(v.u128(), 6);
                let ps = df(s.cfg.as_ref().unwrap().price_scale);
                let dep = [tf(amts[0], p.toks[0].dec), tf(amts[1], p.toks[1].dec)];
                let vp = d.inv(&p, &s) / tf(s.lp, 6);
                let exp = (dep[0] + dep[1] * ps) / 2.0 / ps.sqrt() / vp;
                let slip = ((exp - share) / exp).max(0.0);
                // is the deposit unbalanced enough to count as a trade?
                let r = share / (tf(s.lp, 6) + share);
                let diff0 = (dep[0] - (tf(s.bal[0], p.toks[0].dec) + dep[0]) * r).abs();
                let diff1 = (dep[1] - (tf(s.bal[1], p.toks[1].dec) + dep[1]) * r).abs();
                let band = 1e-6 + 4e-5 / d.inv(&p, &s) * tf(s.lp, 6) / share.max(1e-9) + 3e-6 / share.max(1e-9);
                if diff0 > 3e-5 && diff1 > 3e-5 {
                    verdict = if capped || slip > tol + band {
                        Verdict::MustFail
                    } else if slip < tol - band {
                        Verdict::MustPass
                    } else {
                        Verdict::Border
                    };
                    why = format!("slippage {slip} (band {band}) tolerance {tol}");
                }
            }
        }
        _ => {}
    }
    let lp_dust = amts.iter().zip(&s.bal).any(|(a, b)| u512(*a) * u512(s.lp) < u512(*b) * u512(2));
    let ui = d.r.idx(5);
    let r = d.op_provide(pi, ui, &amts, &o);
    match verdict {
        Verdict::MustFail => {
            d.m.check("P08", &format!("provide-accepted-outside-{:?}", p.kind), r.is_err(), || format!("deposit {amts:?} into {:?} accepted: {why}", s.bal));
        }
        Verdict::MustPass => {
            d.m.check("P08", &format!("provide-rejected-inside-{:?}", p.kind), r.is_ok() || lp_dust || extreme(&s, &amts) || xcp_excuse(&r), || {
                format!("deposit {amts:?} into {:?} refused ({}): {why}", s.bal, short(&r))
            });
        }
        _ => return,
    }
    d.m.seen("P08", ("provide", p.kind, o.slippage.is_some(), verdict == Verdict::MustFail, mag(amts[0])));
    d.m.sample("P08", || format!("{:?} deposit {amts:?} into {:?}: {why} => {}", p.kind, s.bal, short(&r)));
}
fn xcp_excuse<T>(r: &Result<T, String>) -> bool {
    matches!(r, Err(e) if e.contains("XCP"))
}
// ---------------------------------------------------------------------------------------------- P10 reverse quotes
fn reverse(r: &mut Rng, m: &mut Mon, kind: Kind) {
    let (mut d, pi) = with_pool(r, m, kind);
    for _ in 0..30 {
        d.tick();
        step(&mut d, pi);
        for _ in 0..3 {
            mon_reverse(&mut d, pi);
        }
        if d.m.failed() {
            return;
        }
    }
}
pub fn mon_reverse(d: &mut Dx, pi: usize) {
    let p = d.pool(pi);
    let s = d.st(pi);
    if s.lp == 0 || !d.healthy(&p, &s) || extreme(&s, &[]) {
        return;
    }
    let (i, j) = sides(d, pi);
    let ask = match d.r.idx(4) {
        0 => d.r.log(1, (s.bal[j] / 1000).max(2)),
        1 => d.r.range128(1, (s.bal[j] / 2).max(1)),
        _ => d.r.log((s.bal[j] / 1_000_000).max(1), (s.bal[j] * 3 / 4).max(2)),
    };
    let f = d.w.fees[&p.kind];
    if p.kind != Kind::Pcl && f.total == 10_000 {
        return;
    }
    let rv = d.w.reverse(&p, i, j, ask);
    d.m.step(|| format!("reverse {:?} {} ask {ask} of {:?} => {rv:?}", p.kind, p.addr, s.bal));
    let fee = if p.kind == Kind::Pcl { df(s.cfg.as_ref().unwrap().out_fee) } else { f.total as f64 / 1e4 };
    let gross_needed = ask as f64 / (1.0 - fee);
    let rv = match rv {
        Ok(x) => x,
        Err(e) => {
            // only asking for more than the pool can pay may fail
            let lim = match p.kind {
                Kind::Pcl => 0.3,
                Kind::Stable => 0.9,
                _ => 0.999,
            };
            let dust = p.kind == Kind::Pcl && tf(ask, p.toks[j].dec) * if j == 1 { df(s.cfg.as_ref().unwrap().price_scale) } else { 1.0 } < 1e-4;
            let dust = dust || p.kind == Kind::Stable && tf(ask, p.toks[j].dec) < 3e-6;
            d.m.check("P10", &format!("reverse-failed-{:?}", p.kind), gross_needed >= s.bal[j] as f64 * lim || gross_needed < 4.0 || ask < 4 || dust, || {
                format!("reverse simulation for {ask} of {:?} failed: {e}", s.bal)
            });
            return;
        }
    };
    let offer = rv.offer_amount.u128();
    if offer == 0 {
        // less than one unit of the offer token buys this much
        let one = d.w.simulate(&p, i, j, 1).map(|x| x.return_amount.u128()).unwrap_or(0);
        let dust = p.kind == Kind::Pcl && tf(ask, p.toks[j].dec) * if j == 1 { df(s.cfg.as_ref().unwrap().price_scale) } else { 1.0 } < 1e-4;
        let dust = dust || p.kind == Kind::Stable && tf(ask, p.toks[j].dec) < 3e-6;
        d.m.check("P10", "zero-offer", one + 2 >= ask || dust, || format!("reverse simulation asks for 0 but one unit buys only {one} < {ask}"));
        return;
    }
    let fw = match d.w.simulate(&p, i, j, offer) {
        Ok(x) => x,
        Err(e) => {
            let tiny = tf(offer, p.toks[i].dec) < 2e-6 || tf(ask, p.toks[j].dec) < 2e-6;
            d.m.check("P10", "forward-failed", p.kind == Kind::Pcl || offer < 4 || ask < 4 || (tiny && p.kind == Kind::Stable), || format!("offer {offer} quoted for {ask} cannot be simulated: {e} pool {:?}", s.bal));
            return;
        }
    };
    let got = fw.return_amount.u128();
    let (od, ad) = (p.toks[i].dec, p.toks[j].dec);
    // value of one offer unit in ask units (marginal, before the trade = upper bound)
    let h = (offer / 1000).max(1);
    let unit = match d.w.simulate(&p, i, j, offer.saturating_add(h)) {
        Ok(x) => (x.return_amount.u128().saturating_sub(got)) as f64 / h as f64,
        Err(_) => got as f64 / offer as f64,
    }
    .max(got as f64 / offer as f64);
    let taxr = d.sh[pi].tax.get(&p.toks[i].id).map(|t| df(t.0)).unwrap_or(0.0);
    let (lo, hi) = match p.kind {
        Kind::Xyk | Kind::Tax => {
            // the offer is rounded down to a unit and 1/(1-fee) keeps 18 decimals
            let t = 2.0 + 2.0 * s.bal[j] as f64 / s.bal[i] as f64 / (1.0 - taxr) + ask as f64 * 1e-15 + s.bal[i].max(s.bal[j]) as f64 * 1e-17;
            (t, t + unit)
        }
        Kind::Stable => {
            // solver tolerance 1e-6 whole tokens on either side of the curve
            let t = 3.0 + 2.0 * unit + 3e-6 * 10f64.powi(od as i32) * unit + 3e-6 * 10f64.powi(ad as i32);
            (t, t)
        }
        _ => {
            let c = s.cfg.as_ref().unwrap();
            let ps = df(c.price_scale);
            let so = if i == 1 { ps } else { 1.0 };
            let sa = if j == 1 { ps } else { 1.0 };
            let t = 3.0 + 2.0 * unit + 4e-5 / so * 10f64.powi(od as i32) * unit + 4e-5 / sa * 10f64.powi(ad as i32) + ask as f64 * 1e-9;
            (t, t + ask as f64 * (df(c.out_fee) - df(c.mid_fee)) * 1.02)
        }
    };
    let pcl_floor = p.kind == Kind::Pcl && gross_needed > s.bal[j] as f64 * 0.6;
    d.m.check("P10", &format!("insufficient-{:?}", p.kind), got as f64 + lo >= ask as f64 || pcl_floor, || {
        format!("offering the quoted {offer} yields {got} < {ask} (tolerance {lo}); pool {:?}", s.bal)
    });
    d.m.check("P10", &format!("wasteful-{:?}", p.kind), got as f64 <= ask as f64 + hi || pcl_floor, || {
        format!("offering the quoted {offer} yields {got} > {ask} (tolerance {hi}); pool {:?}", s.bal)
    });
    if p.kind != Kind::Pcl {
        let (c1, c0) = (rv.commission_amount.u128() as f64, fw.commission_amount.u128() as f64);
        let t = (lo + hi) * fee / (1.0 - fee) + 2.0;
        d.m.check("P10", &format!("commission-{:?}", p.kind), (c1 - c0).abs() <= t, || format!("reverse quote reports commission {c1}, execution charges {c0} (tolerance {t})"));
    }
    d.m.seen("P10", (p.kind, mag(ask), mag(offer), i, taxr > 0.0, f.total));
    d.m.sample("P10", || format!("{:?} pool {:?}: for {ask} offer {offer} -> yields {got}", p.kind, s.bal));
}
// ---------------------------------------------------------------------------------------------- P11 sale tax
fn taxadmin(r: &mut Rng, m: &mut Mon) {
    let (mut d, pi) = with_pool(r, m, Kind::Tax);
    let mut admin = "wasm1taxadmin".to_string();
    let p = d.pool(pi);
    let who = ["wasm1taxadmin", OWNER, "wasm1user1", "wasm1newadmin", "wasm1taxrecx"];
    for _ in 0..45 {
        d.tick();
        if d.r.chance(3, 5) {
            if d.r.chance(4, 5) {
                rand_swap(&mut d, pi);
            } else {
                step(&mut d, pi);
            }
        } else {
            let caller = if d.r.chance(1, 2) { admin.clone() } else { d.r.pick(&who).to_string() };
            let mut cfgs: Vec<(String, apt::TaxConfigUnchecked)> = vec![];
            let mut bad = false;
            for t in p.toks.iter() {
                if !d.r.chance(2, 3) {
                    continue;
                }
                // a cw20 token of the pair can not be taxed
                let nat = matches!(t.info, AssetInfo::NativeToken { .. });
                if !nat && !d.r.chance(1, 6) {
                    continue;
                }
                let rate = match d.r.idx(8) {
                    0 => Decimal::zero(),
                    1 => Decimal::percent(50),
                    2 => Decimal::raw(E18 / 2 + 1),
                    3 => *d.r.pick(&[Decimal::percent(51), Decimal::one(), Decimal::percent(200)]),
                    _ => Decimal::raw(d.r.log(1_000_000_000_000, E18 / 2)),
                };
                bad |= dec(rate) > E18 / 2 || !nat;
                cfgs.push((t.id.clone(), apt::TaxConfig { tax_rate: rate, tax_recipient: format!("wasm1taxrec{}", d.r.idx(3)) }));
            }
            if d.r.chance(1, 10) {
                let other = d.w.toks.iter().find(|t| p.toks.iter().all(|x| x.id != t.id)).unwrap().id.clone();
                cfgs.push((other, apt::TaxConfig { tax_rate: Decimal::percent(1), tax_recipient: "wasm1taxrec0".into() }));
                bad = true;
            }
            let set_cfg = d.r.chance(3, 4);
            let set_admin = d.r.chance(1, 4).then(|| d.r.pick(&who).to_string());
            let msg = apt::SaleTaxConfigUpdates {
                tax_configs: set_cfg.then(|| cfgs.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Vec<_>>().into()),
                tax_config_admin: set_admin.clone(),
            };
            let res = d.w.update_pool(&caller, &p, &msg);
            d.m.step(|| format!("tax update by {caller}: {msg:?} => {}", short(&res)));
            let noop = !set_cfg && set_admin.is_none();
            let want = caller == admin && !(set_cfg && bad);
            d.m.check("P11", "who-may-change", res.is_ok() == want || (noop && caller == OWNER), || format!("update by {caller} (admin {admin}, invalid {bad}) => {}", short(&res)));
            if res.is_ok() && caller == admin {
                if set_cfg {
                    d.sh[pi].tax = cfgs.iter().map(|(k, v)| (k.clone(), (v.tax_rate, v.tax_recipient.clone()))).collect();
                }
                if let Some(a) = set_admin {
                    admin = a;
                }
            }
            let cr: ap::ConfigResponse = d.w.c.query(&p.addr, &ap::QueryMsg::Config {}).expect("config");
            let v: serde_json::Value = cosmwasm_std::from_json(cr.params.unwrap()).unwrap();
            let mut have: BTreeMap<String, (String, String)> = BTreeMap::new();
            if let Some(o) = v["tax_configs"].as_object() {
                for (k, x) in o {
                    have.insert(k.clone(), (x["tax_rate"].as_str().unwrap_or("").into(), x["tax_recipient"].as_str().unwrap_or("").into()));
                }
            }
            let want: BTreeMap<String, (String, String)> = d.sh[pi].tax.iter().map(|(k, v)| (k.clone(), (v.0.to_string(), v.1.clone()))).collect();
            d.m.check("P11", "config-query", have == want && v["tax_config_admin"].as_str() == Some(&admin), || format!("config {v}, expected {want:?} admin {admin}"));
            d.m.seen("P11", ("update", caller == admin, bad, set_cfg, want.len()));
        }
        if d.m.failed() {
            return;
        }
    }
}
// ---------------------------------------------------------------------------------------------- P12 cumulative prices
fn cumul(d: &Dx, p: &Pool) -> (Vec<u128>, Vec<(String, String)>) {
    let c: ap::CumulativePricesResponse = d.w.c.query(&p.addr, &ap::QueryMsg::CumulativePrices {}).expect("cumulative prices");
    (c.cumulative_prices.iter().map(|x| x.2.u128()).collect(), c.cumulative_prices.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect())
}
/// price in force (micro units of `to` per `from`, as the accumulator counts): (lowest, highest) plausible integer
fn price_in_force(d: &Dx, p: &Pool, s: &St, from: usize) -> Option<(f64, f64)> {
    let to = 1 - from;
    match p.kind {
        Kind::Stable => {
            let one = pow10(p.toks[from].dec);
            let v = d.w.simulate(p, from, to, one).ok()?;
            let g = v.return_amount.u128() + v.commission_amount.u128();
            let e = p.toks[to].dec;
            let x = if e >= 6 { g / pow10(e - 6) } else { g * pow10(6 - e) };
            Some((x as f64, x as f64))
        }
        Kind::Pcl => {
            let x0 = tf(s.bal[0], p.toks[0].dec);
            let off = (1.0f64).min(x0 * 1e-4);
            // model: net output of a small sale of token 0
            let c = s.cfg.as_ref().unwrap();
            let ps = df(c.price_scale);
            let (a, g) = (df(c.amp), df(c.gamma));
            let x = [x0, tf(s.bal[1], p.toks[1].dec) * ps];
            let dd = pcl_d(x[0], x[1], a, g);
            let ny = pcl_y(x[0] + off, dd, a, g);
            let dy = x[1] - ny;
            let n = [x[0] + off, ny];
            let fg = df(c.fee_gamma);
            let k0 = 4.0 * n[0] * n[1] / ((n[0] + n[1]) * (n[0] + n[1]));
            let k = fg / (fg + 1.0 - k0);
            let rate = if k <= 0.001 { df(c.out_fee) } else { k * df(c.mid_fee) + (1.0 - k) * df(c.out_fee) };
            let net = dy * (1.0 - rate) / ps;
            let price = off / net;
            // solver tolerance 1e-5 internal units on dy
            let rel = 3e-5 / dy + 1e-6 + 1e-9 * x[1] / dy;
            if !(rel < 0.3) {
                return None;
            }
            let v = if from == 0 { 1.0 / price } else { price } * 1e6;
            Some(((v * (1.0 - rel)).floor() - 1.0, v * (1.0 + rel) + 1.0))
        }
        _ => None,
    }
}
/// price (token 0 per token 1) a concentrated pool records for a deposit: the part of the deposit that was effectively exchanged.
/// None: the deposit was balanced and recorded nothing.
pub fn deposit_price(p: &Pool, s0: &St, s1: &St, lo: f64, hi: f64) -> Option<(f64, f64)> {
    let share = tf(s1.lp - s0.lp, 6);
    let e = 1.2e-6 / tf(s1.lp, 6);
    let ratio = share / tf(s1.lp, 6);
    let mut dd = [(0.0, 0.0); 2];
    for k in 0..2 {
        let (b1, dep) = (tf(s1.bal[k], p.toks[k].dec), tf(s1.bal[k] - s0.bal[k], p.toks[k].dec));
        let c = (dep - b1 * ratio).abs();
        let err = b1 * e + b1 * 1e-13;
        dd[k] = ((c - err).max(0.0), c + err);
    }
    if dd[0].1 < 1e-5 || dd[1].1 < 1e-5 {
        return None;
    }
    let (a, b) = (dd[0].0.max(1e-5) / dd[1].1, dd[0].1 / dd[1].0.max(1e-5));
    // unless it certainly counted as a trade the previous price may still be in force
    if dd[0].0 < 1e-5 || dd[1].0 < 1e-5 {
        return Some((a.min(lo), b.max(hi)));
    }
    Some((a, b))
}
fn twap(r: &mut Rng, m: &mut Mon, kind: Kind) {
    let mut d = Dx::new(m, r);
    let pi = d.add_pool(kind);
    let p = d.pool(pi);
    // queries before the first deposit and a late first deposit must not count
    if d.r.chance(1, 2) {
        d.w.c.advance(d.r.range(1, 10), d.r.range(1, 1_000_000));
    }
    let (c, _) = if kind == Kind::Pcl { (vec![0, 0], vec![]) } else { cumul(&d, &p) };
    d.m.check("P12", "zero-before-liquidity", c.iter().all(|x| *x == 0), || format!("cumulative prices {c:?} before any liquidity"));
    d.seed(pi);
    let (mut last, ids) = cumul(&d, &p);
    d.m.check("P12", "zero-at-first-deposit", kind == Kind::Pcl || last.iter().all(|x| *x == 0), || format!("cumulative prices {last:?} right after the first deposit"));
    if d.r.chance(1, 3) {
        // the accumulators wrap around: growth is what counts
        let v = [u128::MAX - d.r.log(1, 1 << 80), u128::MAX - d.r.log(1, 1 << 80)];
        d.w.age_accumulators(&p, v);
        let c = cumul(&d, &p).0;
        d.m.check("P12", "aged", c.iter().zip(v).all(|(a, b)| *a == b), || format!("accumulators {c:?} instead of {v:?}"));
        d.m.count("pools with accumulators about to wrap around");
        last = c;
    }
    let idx: Vec<usize> = ids.iter().map(|(f, _)| p.toks.iter().position(|t| t.id == *f).unwrap()).collect();
    // xyk/tax: exact remainder bookkeeping: value at the last operation and its time
    let mut base = last.clone();
    let mut base_t = d.w.c.now();
    let mut last_t = base_t;
    // PCL: last traded price (token 0 per token 1, whole tokens)
    let ps0 = d.st(pi).cfg.map(|c| df(c.price_scale)).unwrap_or(1.0);
    let (mut lt_lo, mut lt_hi) = (ps0, ps0);
    for _ in 0..40 {
        // time passes, state does not change
        let b = d.r.range(1, 10);
        let sec = match d.r.idx(4) {
            0 => d.r.range(1, 6),
            1 => d.r.range(1, 100),
            2 => d.r.range(100, 100_000),
            _ => d.r.range(1, 10_000_000),
        };
        d.w.c.advance(b, sec);
        d.m.step(|| format!("advance {b} blocks {sec} s"));
        let s = d.st(pi);
        if extreme(&s, &[]) || !d.healthy(&p, &s) {
            return;
        }
        let (c, _) = cumul(&d, &p);
        let now = d.w.c.now();
        for k in 0..c.len() {
            let grown = c[k].wrapping_sub(last[k]);
            match kind {
                Kind::Xyk | Kind::Tax => {
                    // entry 0 is priced asset1/asset0 and entry 1 the inverse, by position in the pool
                    let f = idx[k];
                    let exp = base[k].wrapping_add(mul_div((now - base_t) as u128 * 1_000_000, s.bal[1 - f], s.bal[f]));
                    d.m.check("P12", "xyk-integral", c[k] == exp, || format!("cumulative price {} after {} s, expected {exp} (pool {:?})", c[k], now - base_t, s.bal));
                    d.m.seen("P12", (kind, mag(s.bal[0]), mag(s.bal[1]), mag((now - base_t) as u128)));
                }
                _ => {
                    if let Some((lo, hi)) = price_in_force(&d, &p, &s, idx[k]) {
                        // concentrated pools account from their last swap or deposit on
                        let (dt, grown) = if kind == Kind::Pcl { ((now - base_t) as f64, c[k].wrapping_sub(base[k])) } else { ((now - last_t) as f64, grown) };
                        let ok = grown as f64 >= lo * dt * (1.0 - 1e-12) && grown as f64 <= hi * dt * (1.0 + 1e-12);
                        d.m.check("P12", &format!("integral-{kind:?}"), ok, || format!("cumulative price grew {grown} in {dt} s, price in force [{lo},{hi}] (entry {:?}, pool {:?})", ids[k], s.bal));
                        d.m.seen("P12", (kind, mag(grown), mag(dt as u128)));
                    }
                }
            }
            let noise = if kind == Kind::Pcl { price_in_force(&d, &p, &s, idx[k]).map(|(lo, hi)| (hi - lo) * (now - base_t) as f64 * 1.01).unwrap_or(f64::MAX) } else { 0.0 };
            d.m.check("P12", "monotone", c[k].wrapping_sub(last[k]) < 1 << 127 || last[k].wrapping_sub(c[k]) as f64 <= noise, || format!("cumulative price fell {} -> {}", last[k], c[k]));
        }
        d.m.sample("P12", || format!("{kind:?} pool {:?}: {last:?} -> {c:?} after {} s", s.bal, now - last_t));
        // query does not change state: ask again
        let (c2, _) = cumul(&d, &p);
        d.m.check("P12", "query-is-pure", c == c2, || format!("two queries differ {c:?} {c2:?}"));
        // operations in this block must not change the value at this moment
        let nops = 1 + d.r.idx(3);
        let mut touched = false;
        for _ in 0..nops {
            let s0 = d.st(pi);
            let before = cumul(&d, &p).0;
            let l0 = d.w.ledger();
            let is_prov;
            let mut swapped = false;
            match d.r.weighted(&[6, 2, 2]) {
                0 => {
                    is_prov = false;
                    let (i, j) = sides(&mut d, pi);
                    let a = rand_amount(&mut d, pi, i);
                    let u = d.user();
                    if let Ok(tx) = d.w.swap(&u, &p, i, j, a, &Sw::loose()) {
                        let got = tx.attr_u128(&p.addr, "return_amount").unwrap_or(0)
                            + tx.attr_u128(&p.addr, "maker_fee_amount").unwrap_or(0)
                            + tx.attr_u128(&p.addr, "fee_share_amount").unwrap_or(0);
                        let off = tf(a, p.toks[i].dec);
                        d.m.step(|| format!("swap {a} {}->{} got {got}", p.toks[i].id, p.toks[j].id));
                        // the contract works with fractions of a unit: up to 3 units more or less than were paid
                        let (olo, ohi) = (tf(got.saturating_sub(3), p.toks[j].dec).max(1e-30), tf(got + 3, p.toks[j].dec));
                        if kind == Kind::Pcl && off > 0.9999999999e-5 && ohi > 0.9999999999e-5 {
                            let e = 1e-6;
                            let (plo, phi) = if i == 0 { (off / ohi, off / olo) } else { (olo / off, ohi / off) };
                            // within a few units of the minimal trade size the previous price may stay
                            let sure = olo * (1.0 - e) > 1e-5;
                            lt_lo = if sure { plo * (1.0 - e) } else { lt_lo.min(plo * (1.0 - e)) };
                            lt_hi = if sure { phi * (1.0 + e) } else { lt_hi.max(phi * (1.0 + e)) };
                        }
                        touched = true;
                        swapped = true;
                    }
                }
                1 => {
                    is_prov = true;
                    let amts = d.rand_amounts(pi);
                    let ui = d.r.idx(5);
                    let o = Prov { slippage: Some(Decimal::percent(50)), ..Default::default() };
                    if d.op_provide(pi, ui, &amts, &o).is_ok() {
                        touched = true;
                    }
                }
                _ => {
                    is_prov = false;
                    rand_withdraw(&mut d, pi);
                    touched |= !diff(&l0, &d.w.ledger()).is_empty() && kind != Kind::Pcl;
                }
            }
            let s1 = d.st(pi);
            if s1.lp == 0 || extreme(&s1, &[]) || !d.healthy(&p, &s1) {
                return;
            }
            let after = cumul(&d, &p).0;
            if kind == Kind::Pcl && is_prov && now > base_t && s1.lp > s0.lp {
                // deposits account for the elapsed time at the last recorded trade price
                for k in 0..after.len() {
                    let dt = (now - base_t) as f64;
                    let (l, h) = if idx[k] == 0 { (1e6 / lt_hi, 1e6 / lt_lo) } else { (lt_lo * 1e6, lt_hi * 1e6) };
                    let (lo, hi) = (l * (1.0 - 1e-9) - 2.0, h * (1.0 + 1e-9) + 2.0);

                    let g = after[k].wrapping_sub(base[k]) as f64;
                    d.m.check("P12", "pcl-deposit-integral", g >= lo * dt && g <= hi * dt, || format!("deposit accounted {g} for {dt} s, prices seen [{lo},{hi}]"));
                }
                base = after.clone();
                base_t = now;
            } else if kind == Kind::Pcl {
                // the value at this moment is fixed up to solver noise over the interval not yet accounted
                for k in 0..after.len() {
                    if let (Some((lo, hi)), Some((lo1, hi1)), true) = (price_in_force(&d, &p, &s0, idx[k]), price_in_force(&d, &p, &s1, idx[k]), before[k] != after[k]) {
                        let dt = (now - base_t) as f64;
                        // a withdrawal keeps the price up to rounding: compare against the band of both states
                        let slack = (hi - lo).max(hi1 - lo1) * dt * 1.5 + if swapped { 0.0 } else { (lo1 - hi).max(lo - hi1).max(0.0).min(1.0 + hi * 1e-3) * dt };
                        let e = (after[k].wrapping_sub(before[k]) as i128 as f64).abs();
                        d.m.check("P12", "op-changes-now-Pcl", e <= slack, || format!("operation changed the cumulative price at its own time by {e} (slack {slack}, {dt} s)"));
                    }
                }
                if swapped {
                    base = after.clone();
                    base_t = now;
                }
            } else {
                let slackv = 0;
                let ok = before.iter().zip(&after).all(|(b, a)| (a.wrapping_sub(*b) as i128).abs() <= slackv);
                d.m.check("P12", &format!("op-changes-now-{kind:?}"), ok, || format!("an operation changed the cumulative prices at its own time: {before:?} -> {after:?}"));
            }
            if kind == Kind::Pcl && is_prov && s1.lp > s0.lp {
                if let Some((a, b)) = deposit_price(&p, &s0, &s1, lt_lo, lt_hi) {
                    lt_lo = a;
                    lt_hi = b;
                }
            }
        }
        last = cumul(&d, &p).0;
        last_t = now;
        if kind != Kind::Pcl && (touched || kind == Kind::Stable) {
            base = last.clone();
            base_t = now;
        }
        if d.m.failed() {
            return;
        }
    }
}
// ---------------------------------------------------------------------------------------------- P14 balances at height
fn recall(r: &mut Rng, m: &mut Mon, kind: Kind) {
    let mut d = Dx::new(m, r);
    let pi = d.add_pool(kind);
    let p = d.pool(pi);
    d.tick();
    let _ = d.user();
    d.seed(pi);
    for _ in 0..35 {
        d.tick();
        step(&mut d, pi);
        if d.r.chance(1, 5) {
            mon_recall(&mut d, pi, &p);
        }
        if d.m.failed() {
            return;
        }
    }
    d.w.c.advance(3, 10);
    mon_recall(&mut d, pi, &p);
}
fn mon_recall(d: &mut Dx, pi: usize, p: &Pool) {
    let now = d.w.c.height();
    let created = d.sh[pi].created_at;
    let hist = d.sh[pi].hist.clone();
    let mut hs = vec![created.saturating_sub(1), created, created + 1, now, now + 1];
    for (h, _) in hist.iter() {
        hs.extend([h - 1, *h, h + 1]);
    }
    for _ in 0..4 {
        hs.push(d.r.range(created, now + 2));
    }
    for h in hs {
        for (k, t) in p.toks.iter().enumerate() {
            let v: Option<Uint128> = d
                .w
                .c
                .query(&p.addr, &ap::QueryMsg::AssetBalanceAt { asset_info: t.info.clone(), block_height: h.into() })
                .expect("AssetBalanceAt");
            let want = if !p.tracker || h <= created {
                None
            } else {
                // as left by the last operation in a block before h
                Some(hist.iter().rev().find(|x| x.0 < h).map(|x| x.1[k]).unwrap_or(0))
            };
            d.m.check("P14", &format!("recall-{:?}", p.kind), v.map(|x| x.u128()) == want, || {
                format!("balance of {} at height {h}: {v:?}, expected {want:?} (now {now}, created {created}, tracked {})", t.id, p.tracker)
            });
            d.m.seen("P14", (p.kind, p.tracker, want.map(mag), hist.len()));
        }
    }
    d.m.sample("P14", || format!("{:?} tracked={} history {:?}", p.kind, p.tracker, hist.iter().rev().take(3).collect::<Vec<_>>()));
}
// ---------------------------------------------------------------------------------------------- P16 round trips
fn round(r: &mut Rng, m: &mut Mon, kind: Kind) {
    let (mut d, pi) = with_pool(r, m, kind);
    for _ in 0..d.r.idx(8) {
        d.tick();
        step(&mut d, pi);
    }
    if d.m.failed() {
        return;
    }
    for _ in 0..6 {
        one_round(&mut d, pi);
        if d.m.failed() {
            return;
        }
    }
}
fn one_round(d: &mut Dx, pi: usize) {
    let p = d.pool(pi);
    let s = d.st(pi);
    if s.lp == 0 || !d.healthy(&p, &s) || extreme(&s, &[]) || d.w.c.now() < d.sh[pi].ramp_until {
        return;
    }
    // a fresh participant
    let me = format!("wasm1trader{}", d.r.idx(1_000_000));
    let purse = World::PURSE / 1000;
    for t in &p.toks {
        let u = d.w.users[4].clone();
        d.w.donate(&u, &me, t, purse).expect("purse");
    }
    let start: Vec<u128> = p.toks.iter().map(|t| d.w.bal(&me, t)).collect();
    let start_lp = d.w.c.bal(&me, &p.lp);
    assert!(start_lp == 0);
    let scale0 = s.cfg.as_ref().map(|c| c.price_scale);
    let multi = d.r.chance(1, 2);
    let n = 1 + d.r.idx(8);
    let mut ops = 0u32;
    let mut min_sides: Vec<f64> = s.bal.iter().map(|b| *b as f64).collect();
    let users_backup = d.w.users.clone();
    d.w.users[0] = me.clone();
    for _ in 0..n {
        if multi && d.r.chance(1, 2) {
            d.tick();
        }
        let ok = match d.r.weighted(&[5, 3, 3]) {
            0 => {
                let (i, j) = sides(d, pi);
                let a = rand_amount(d, pi, i).min(purse / 10);
                let o = Sw { max_spread: Some(Decimal::percent(50)), ..Default::default() };
                d.op_swap(pi, &me, i, j, a, &o).is_ok()
            }
            1 => {
                let amts = d.rand_amounts(pi);
                let o = Prov { slippage: Some(Decimal::percent(50)), ..Default::default() };
                d.op_provide(pi, 0, &amts, &o).is_ok()
            }
            _ => {
                let b = d.w.c.bal(&me, &p.lp);
                if b == 0 {
                    continue;
                }
                let a = if d.r.chance(1, 2) { b } else { d.r.range128(1, b) };
                d.op_withdraw(pi, &me, a, None).is_ok()
            }
        };
        if ok {
            ops += 1;
        }
        let s = d.st(pi);
        for k in 0..2 {
            min_sides[k] = min_sides[k].min(s.bal[k] as f64);
        }
        if !d.healthy(&p, &s) || extreme(&s, &[]) {
            d.w.users = users_backup;
            return;
        }
    }
    let b = d.w.c.bal(&me, &p.lp);
    if b > 0 && d.op_withdraw(pi, &me, b, None).is_err() {
        d.w.users = users_backup;
        return;
    }
    // turn the position back into a single-sided result, in a few instalments
    for _ in 0..40 {
        let now: Vec<i128> = p.toks.iter().zip(&start).map(|(t, s)| d.w.bal(&me, t) as i128 - *s as i128).collect();
        let i = match (now[0] > 0, now[1] > 0, now[0] < 0, now[1] < 0) {
            (true, _, _, true) => 0,
            (_, true, true, _) => 1,
            _ => break,
        };
        let a = now[i] as u128;
        let s = d.st(pi);
        let a = a.min((s.bal[i] / 3).max(1));
        let o = Sw { max_spread: Some(Decimal::percent(50)), ..Default::default() };
        if d.op_swap(pi, &me, i, 1 - i, a, &o).is_err() {
            break;
        }
        ops += 1;
    }
    d.w.users = users_backup;
    let s1 = d.st(pi);
    let end: Vec<u128> = p.toks.iter().map(|t| d.w.bal(&me, t)).collect();
    let gain: Vec<i128> = end.iter().zip(&start).map(|(e, s)| *e as i128 - *s as i128).collect();
    // unavoidable numeric tolerance of the iterative curves, per operation
    let tol: Vec<f64> = match p.kind {
        Kind::Stable => {
            let mp = 1.0f64.max(10f64.powf((min_sides[0] / 10f64.powi(p.toks[0].dec as i32)).log10() - (min_sides[1] / 10f64.powi(p.toks[1].dec as i32)).log10()).max(1e-9)).abs();
            let ratio = { let a = min_sides[0] / 10f64.powi(p.toks[0].dec as i32); let b = min_sides[1] / 10f64.powi(p.toks[1].dec as i32); (a / b).max(b / a) };
            let _ = mp;
            p.toks.iter().map(|t| ops as f64 * ((1.0 + 3e-6 * 10f64.powi(t.dec as i32)) * ratio + 1.0)).collect()
        }
        Kind::Pcl => {
            let ps = df(s1.cfg.as_ref().unwrap().price_scale);
            p.toks.iter().enumerate().map(|(k, t)| ops as f64 * (3.0 + 6e-5 * 10f64.powi(t.dec as i32) / if k == 1 { ps } else { 1.0 } + s1.bal[k] as f64 * 1e-9)).collect()
        }
        _ => vec![0.0; 2],
    };
    let judged = p.kind != Kind::Pcl || s1.cfg.as_ref().map(|c| c.price_scale) == scale0;
    if !judged {
        d.m.count("repegged_rounds_skipped");
        return;
    }
    let none_lost = gain.iter().all(|g| *g >= 0);
    let won = gain.iter().zip(&tol).any(|(g, t)| *g as f64 > *t);
    d.m.check("P16", &format!("profit-{:?}", p.kind), !(none_lost && won), || {
        format!("a lone participant gained {gain:?} (tolerance {tol:?}) in {ops} operations; pool {:?} -> {:?}", s.bal, s1.bal)
    });
    d.m.seen("P16", (p.kind, ops, multi, gain.iter().map(|g| (g.signum(), mag(g.unsigned_abs()))).collect::<Vec<_>>()));
    d.m.sample("P16", || format!("{:?} round of {ops} operations multi-block={multi}: net {gain:?}", p.kind));
}
// ---------------------------------------------------------------------------------------------- profiles
macro_rules! four {
    ($f:ident : $($n:ident $k:ident),*) => { $( fn $n(r: &mut Rng, m: &mut Mon) { $f(r, m, Kind::$k) } )* };
}
four!(limits: l_xyk Xyk, l_tax Tax, l_stable Stable, l_pcl Pcl);
four!(reverse: r_xyk Xyk, r_tax Tax, r_stable Stable, r_pcl Pcl);
four!(twap: t_xyk Xyk, t_tax Tax, t_stable Stable, t_pcl Pcl);
four!(recall: b_xyk Xyk, b_tax Tax, b_pcl Pcl);
four!(round: o_xyk Xyk, o_tax Tax, o_stable Stable, o_pcl Pcl);
pub fn specs() -> Vec<Spec> {
    let n = 700;
    let q = |a: (&'static str, fn(&mut Rng, &mut Mon)), k: u64| (a.0, k, k * 20, a.1);
    vec![
        Spec {
            prop: "P08",
            profiles: vec![q(("xyk", l_xyk), n), q(("tax", l_tax), n), q(("stable", l_stable), n), q(("pcl", l_pcl), n)],
            rule: "distinct (pool type, accepted/rejected, belief given, limit given, magnitude) trades and deposits whose limit verdict was compared",
        },
        Spec {
            prop: "P10",
            profiles: vec![q(("xyk", r_xyk), n), q(("tax", r_tax), n), q(("stable", r_stable), n), q(("pcl", r_pcl), n)],
            rule: "distinct (pool type, side, taxed, fee, magnitudes of ask and quoted offer)",
        },
        Spec { prop: "P11", profiles: vec![("taxadmin", 1500, 30_000, taxadmin)], rule: "distinct (tax magnitude, offer magnitude, taxed, side) sales and (caller role, validity, shape) updates" },
        Spec {
            prop: "P12",
            profiles: vec![q(("xyk", t_xyk), n), q(("tax", t_tax), n), q(("stable", t_stable), n), q(("pcl", t_pcl), n)],
            rule: "distinct (pool type, magnitudes of reserves, growth and elapsed time) intervals",
        },
        Spec { prop: "P14", profiles: vec![q(("xyk", b_xyk), n), q(("tax", b_tax), n), q(("pcl", b_pcl), n)], rule: "distinct (pool type, tracked, magnitude of recalled balance, history length)" },
        Spec {
            prop: "P16",
            profiles: vec![q(("xyk", o_xyk), n), q(("tax", o_tax), n), q(("stable", o_stable), n), q(("pcl", o_pcl), n)],
            rule: "distinct (pool type, operations in the round, single/multi block, sign and magnitude of the net result)",
        },
    ]
}
