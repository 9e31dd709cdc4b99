//! P22: a working pool keeps serving ordinary trades, deposits and questions.
use crate::eng::St;
use crate::eng::*;
use crate::model::*;
use crate::props::*;
use astroport::pair as ap;
use astroport::pair_concentrated as apc;
use sim::num::*;
use world::*;

/// an offer of ordinary size for which the pool owes an output: (offer, what must at least come out)
fn ordinary(d: &mut Dx, p: &Pool, s: &St, pi: usize, i: usize, j: usize) -> Option<(u128, u128)> {
    let (x, y) = (s.bal[i], s.bal[j]);
    let fee = d.w.fees[&p.kind].total as u128;
    match p.kind {
        Kind::Xyk | Kind::Tax => {
            let a = d.r.log((x / 1_000_000).max(1), (x / 2).max(2));
            let t = d.sh[pi].tax.get(&p.toks[i].id).map(|t| mul_div(a, dec(t.0), E18)).unwrap_or(0);
            let g = xyk_gross(x, y, a - t);
            Some((a, g - mul_div(g, fee, 10_000)))
        }
        Kind::Stable => {
            let (u, v) = (tf(x, p.toks[i].dec), tf(y, p.toks[j].dec));
            if u / v > 100.0 || v / u > 100.0 {
                return None;
            }
            let a = d.r.log((x / 1_000_000).max(1), (x / 20).max(2));
            let g = stable_gross(s.amp, x, p.toks[i].dec, y, p.toks[j].dec, a);
            let g = fx_f(g);
            if g < 0.55 * tf(a, p.toks[i].dec) {
                return None;
            }
            let unit = 1.0 / 10f64.powi(p.toks[j].dec as i32);
            let g = ((g - 3e-6).max(0.0) / unit).floor() as u128;
            Some((a, (g - mul_div(g, fee, 10_000)).saturating_sub(2)))
        }
        Kind::Pcl => {
            let c = s.cfg.as_ref().unwrap();
            let ps = df(c.price_scale);
            let v = [tf(s.bal[0], p.toks[0].dec), tf(s.bal[1], p.toks[1].dec) * ps];
            if v[0] / v[1] > 30.0 || v[1] / v[0] > 30.0 {
                return None;
            }
            let (am, g) = (df(c.amp), df(c.gamma));
            let dd = pcl_d(v[0], v[1], am, g);
            let a = d.r.log((x / 100_000).max(1), (x / 30).max(2));
            let ny = pcl_y(v[i] + tf(a, p.toks[i].dec) * if i == 1 { ps } else { 1.0 }, dd, am, g);
            let e = (v[j] - ny) / if j == 1 { ps } else { 1.0 };
            let worth = tf(a, p.toks[i].dec) * if i == 1 { ps } else { 1.0 } / if j == 1 { ps } else { 1.0 };
            let kept = (1.0 - d.sh[pi].fee_share.as_ref().map_or(0.0, |x| x.0 as f64 / 1e4)) * if d.w.maker_on { 1.0 - d.w.fees[&p.kind].maker as f64 / 1e4 } else { 1.0 };
            // the commission left in the pool must exceed what the curve arithmetic (1e-5) can lose: a trade that
            // lowers the value of an LP token is refused by design
            if e < 0.6 * worth || e * if j == 1 { ps } else { 1.0 } * df(c.mid_fee) * kept < 1e-3 + 1e-9 * dd {
                return None;
            }
            let e = (e - 2e-5 / if j == 1 { ps } else { 1.0 }).max(0.0) * (1.0 - df(c.out_fee)) * 0.999;
            Some((a, (e * 10f64.powi(p.toks[j].dec as i32)) as u128))
        }
        Kind::Trans => None,
    }
}
/// Finding: with amp * gamma^2 below 1e-10 the curve arithmetic (18 decimals) has no digits left and the solver may
/// not converge, although the factory's limits admit such parameters.
fn unresolved(s: &St) -> bool {
    s.cfg.as_ref().map_or(false, |c| df(c.amp) * df(c.gamma).powi(2) < 1e-10)
}
fn sg(un: bool, sig: &str) -> String {
    if un { "curve-unresolved".into() } else { sig.into() }
}
fn serve(d: &mut Dx, pi: usize) {
    let p = d.pool(pi);
    let s = d.st(pi);
    let un = unresolved(&s);
    if s.lp == 0 || extreme(&s, &[]) || !d.healthy(&p, &s) || p.kind == Kind::Trans {
        return;
    }
    let k = p.kind;
    // ---- trades in both directions
    for (i, j) in [(0, 1), (1, 0)] {
        let (a, out) = match ordinary(d, &p, &s, pi, i, j) {
            Some(x) => x,
            None => continue,
        };
        if out < 2 {
            continue;
        }
        let u = d.user();
        let name_ask = d.r.chance(1, 3);
        let to = if d.r.chance(1, 4) { Some("wasm1recv1".into()) } else { None };
        let mut o = Sw { name_ask, to, max_spread: Some(Decimal::percent(50)), ..Default::default() };
        if k == Kind::Pcl {
            // the spread is measured against the oracle price, which may lag far behind: state the price instead
            o.belief = to128(u512(a) * u512(E18) / u512(out) + u512(1)).map(Decimal::raw);
        }
        let (sim, res) = (d.w.simulate(&p, i, j, a), d.w.c.dry(|| d.w.swap(&u, &p, i, j, a, &o)));
        d.m.check("P22", &sg(un, &format!("trade-{k:?}")), res.is_ok(), || format!("{u} offers {a} {} to a pool of {:?}, worth at least {out} {}: {}", p.toks[i].id, s.bal, p.toks[j].id, short(&res)));
        d.m.check("P22", &sg(un, &format!("quote-{k:?}")), sim.as_ref().map_or(false, |x| x.return_amount.u128() >= out), || {
            format!("offer {a} {} to a pool of {:?}, worth at least {out} {}: Simulation {sim:?}", p.toks[i].id, s.bal, p.toks[j].id)
        });
        // the trade in the middle is affordable to be asked for in reverse
        let ask = (out / 2).max(1);
        let rev = d.w.reverse(&p, i, j, ask);
        d.m.check("P22", &sg(un, &format!("reverse-quote-{k:?}")), rev.is_ok(), || format!("how much for {ask} {} from a pool of {:?}: {rev:?}", p.toks[j].id, s.bal));
        d.m.seen("P22", ("trade", k, i, mag(a), mag(out), mag(s.bal[i]), mag(s.bal[j])));
        d.m.sample("P22", || format!("{k:?} pool {:?} serves an offer of {a} {}: {sim:?}", s.bal, p.toks[i].id));
        d.m.count("trades served");
    }
    // ---- a deposit in the proportion of the pool
    let f = 10f64.powf(-3.0 + 3.0 * d.r.f64());
    let amts: Vec<u128> = s.bal.iter().map(|b| (*b as f64 * f) as u128).collect();
    // concentrated pools measure the slippage of a deposit against a balanced one at the price scale
    let even = s.cfg.as_ref().map_or(true, |c| {
        let q = tf(s.bal[0], p.toks[0].dec) / (tf(s.bal[1], p.toks[1].dec) * df(c.price_scale));
        q < 8.0 && q > 0.125
    });
    if even && amts.iter().all(|a| *a >= 1000) && s.lp as f64 * f >= 100.0 {
        let u = d.user();
        let o = Prov { slippage: Some(Decimal::percent(50)), ..Default::default() };
        let res = d.w.c.dry(|| d.w.provide(&u, &p, &amts, &o));
        d.m.check("P22", &sg(un, &format!("deposit-{k:?}")), res.is_ok(), || format!("{u} deposits {amts:?} into a pool of {:?}: {}", s.bal, short(&res)));
        d.m.seen("P22", ("deposit", k, mag(amts[0]), mag(amts[1])));
        d.m.count("deposits served");
        // and out again for the same money
        if d.r.chance(1, 4) {
            let res = d.w.c.dry(|| {
                let b = d.w.c.bal(&u, &p.lp);
                d.w.provide(&u, &p, &amts, &o)?;
                let a = d.w.c.bal(&u, &p.lp) - b;
                d.w.withdraw(&u, &p, a, None)
            });
            d.m.check("P22", &sg(un, &format!("round-{k:?}")), res.is_ok(), || format!("{u} deposits {amts:?} into a pool of {:?} and leaves at once: {}", s.bal, short(&res)));
        }
    }
    // ---- questions
    let q = |m: ap::QueryMsg| d.w.c.query::<serde_json::Value>(&p.addr, &m).err();
    let bad = [
        ("pair", q(ap::QueryMsg::Pair {})),
        ("pool", q(ap::QueryMsg::Pool {})),
        ("config", q(ap::QueryMsg::Config {})),
        ("share", q(ap::QueryMsg::Share { amount: Uint128::new(s.lp / 2) })),
        ("cumulative prices", q(ap::QueryMsg::CumulativePrices {})),
    ];
    d.m.check("P22", &format!("questions-{k:?}"), bad.iter().all(|x| x.1.is_none()), || format!("questions to a pool of {:?}: {bad:?}", s.bal));
}
/// the owner lets the curve parameters glide, or stops them
fn ramp(d: &mut Dx, pi: usize) {
    let p = d.pool(pi);
    if d.r.chance(1, 80) {
        // years of silence
        let s = d.r.range(86_400 * 300, 86_400 * 365 * 8);
        d.w.c.advance(s / 5, s);
        d.m.step(|| format!("{s} s of silence"));
        d.m.count("years of silence");
    }
    if !d.r.chance(1, 12) {
        return;
    }
    let now = d.w.c.now();
    let end = now + d.r.range(86_400, 3 * 86_400);
    let f = |d: &mut Dx| 10f64.powf(1.8 * d.r.f64() - 0.9);
    let owner = d.w.owner_of(&p);
    let stop = d.r.chance(1, 5);
    let res = match p.kind {
        Kind::Pcl => {
            let c = d.pcl_cfg(&p);
            let next_amp = Decimal::raw((df(c.amp) * f(d) * 1e18).clamp(2e17, 9e22) as u128);
            let next_gamma = Decimal::raw(if d.r.chance(1, 2) { dec(c.gamma) } else { (df(c.gamma) * f(d) * 1e18).clamp(1.1e13, 1.9e16) as u128 });
            if d.r.chance(1, 4) {
                // other parameters, within their limits
                let n = pclp(d.r, Decimal::one(), false);
                let mut some = |x: Decimal| if d.r.chance(1, 2) { Some(x) } else { None };
                let u = apc::UpdatePoolParams {
                    mid_fee: Some(n.mid_fee),
                    out_fee: Some(n.out_fee),
                    fee_gamma: some(n.fee_gamma),
                    repeg_profit_threshold: some(n.repeg_profit_threshold),
                    min_price_scale_delta: some(n.min_price_scale_delta),
                    ma_half_time: if d.r.chance(1, 2) { Some(d.r.log(1, 604_800) as u64) } else { None },
                };
                d.w.update_pool(&owner, &p, &apc::ConcentratedPoolUpdateParams::Update(u))
            } else if stop {
                d.w.update_pool(&owner, &p, &apc::ConcentratedPoolUpdateParams::StopChangingAmpGamma {})
            } else {
                d.w.update_pool(&owner, &p, &apc::ConcentratedPoolUpdateParams::Promote(apc::PromoteParams { next_amp, next_gamma, future_time: end }))
            }
        }
        Kind::Stable => {
            let next_amp = (d.stable_amp(&p) as f64 / 100.0 * f(d)).clamp(1.0, 900_000.0) as u64;
            if stop {
                d.w.update_pool(&owner, &p, &ap::StablePoolUpdateParams::StopChangingAmp {})
            } else {
                d.w.update_pool(&owner, &p, &ap::StablePoolUpdateParams::StartChangingAmp { next_amp, next_amp_time: end })
            }
        }
        _ => return,
    };
    d.m.step(|| format!("{:?} parameters glide until {end} (stop: {stop}) => {}", p.kind, short(&res)));
    if res.is_err() {
        return;
    }
    d.m.count("parameter changes");
    // nothing may happen until the end
    if !stop && d.r.chance(1, 2) {
        d.w.c.advance(10, end - now + d.r.below(3));
        d.m.step(|| "quiet until the end".to_string());
    }
}
macro_rules! kinds {
    ($($name:ident $kind:ident $steps:expr;)*) => { $(fn $name(r: &mut Rng, m: &mut Mon) {
        let mut d = Dx::new(m, r);
        history(&mut d, Kind::$kind, $steps, |d, pi| {
            ramp(d, pi);
            serve(d, pi)
        });
        // after everybody has left, the pool starts again
        if d.r.chance(1, 4) && !d.m.failed() {
            for i in 0..d.w.pools.len() { drain(&mut d, i); }
            let i = d.r.idx(d.w.pools.len());
            d.tick();
            for _ in 0..6 { step(&mut d, i); serve(&mut d, i); }
        }
    })* };
}
kinds! {
    xyk Xyk 40;
    tax Tax 40;
    stable Stable 35;
    pcl Pcl 30;
}
/// a young concentrated pool with any admissible fee settings, visited with evenly balanced requests
fn fresh(r: &mut Rng, m: &mut Mon) {
    let mut d = Dx::new(m, r);
    let (a, b) = d.pair_of_tokens();
    let one = d.r.chance(1, 2);
    let price = if one { Decimal::one() } else { Decimal::raw(*d.r.pick(&[E18 / 4, E18 / 2, 2 * E18, 8 * E18])) };
    let track = d.r.chance(1, 2);
    let mut q = pclp(d.r, price, track);
    if d.r.chance(1, 2) {
        q.fee_gamma = Decimal::raw(*d.r.pick(&[0, 0, 0, 1, 1000, E18]));
    }
    if d.r.chance(1, 4) {
        q.mid_fee = Decimal::raw(50_000_000_000_000);
    }
    if d.r.chance(1, 4) {
        q.out_fee = Decimal::raw(10_000_000_000_000_000);
    }
    if d.r.chance(1, 4) {
        q.min_price_scale_delta = Decimal::raw(*d.r.pick(&[0, E18]));
    }
    if d.r.chance(1, 4) {
        q.repeg_profit_threshold = Decimal::raw(*d.r.pick(&[0, E18 / 100]));
    }
    if d.r.chance(1, 4) {
        q.ma_half_time = *d.r.pick(&[1, 604_800]);
    }
    // anywhere within the limits
    if d.r.chance(1, 4) {
        q.amp = Decimal::raw(d.r.log(E18 / 10, 100_000 * E18));
        q.gamma = Decimal::raw(d.r.log(10_000_000_000, 20_000_000_000_000_000));
    }
    let un = df(q.amp) * df(q.gamma).powi(2) < 1e-10;
    let pi = match d.w.pcl(a, b, &q) {
        Ok(i) => i,
        Err(e) => {
            d.m.check("P22", "fresh-create", false, || format!("pool with admissible parameters {q:?} refused: {e}"));
            return;
        }
    };
    d.sh.push(Shadow { created_at: d.w.c.height(), ..Default::default() });
    let p = d.pool(pi);
    d.m.step(|| format!("pool with {q:?}"));
    // whole tokens worth, exactly balanced at the price scale
    let even = |n: u128| -> Vec<u128> {
        let x = 10u128.pow(p.toks[1].dec as u32) * n;
        let ps = dec(price);
        vec![mul_div(n * 10u128.pow(p.toks[0].dec as u32), ps, E18), x]
    };
    let n0 = d.r.range128(100, 1_000_000) * 8;
    for k in 0..6 {
        let n = if k == 0 { n0 } else { d.r.range128(1, n0) };
        let f = even(n);
        let u = d.user();
        let res = d.w.provide(&u, &p, &f, &Prov { slippage: Some(Decimal::percent(50)), ..Default::default() });
        d.m.step(|| format!("{u} deposits {f:?} => {}", short(&res)));
        let bal: Vec<u128> = (0..2).map(|i| d.w.pool_bal(&p, i)).collect();
        d.m.check("P22", &sg(un, "fresh-deposit"), res.is_ok(), || format!("{u} deposits {f:?}, balanced at the price {price}, into a pool of {bal:?} with {q:?}: {}", short(&res)));
        if res.is_err() {
            return;
        }
        d.m.seen("P22", ("fresh", dec(q.fee_gamma) == 0, k, mag(f[0]), mag(f[1])));
        d.m.count("balanced deposits");
        d.tick();
        if d.r.chance(1, 3) {
            serve(&mut d, pi);
        }
        if d.r.chance(1, 6) {
            rand_swap(&mut d, pi);
            let s = d.st(pi);
            // a deposit that exactly restores the balance
            let c = d.pcl_cfg(&p);
            let (x, y) = (tf(s.bal[0], p.toks[0].dec), tf(s.bal[1], p.toks[1].dec) * df(c.price_scale));
            let small = x.min(y);
            if (x - y).abs() / small < 0.2 && df(c.price_scale) == df(price) && p.toks[0].dec == p.toks[1].dec && one {
                let amts = if s.bal[0] > s.bal[1] { vec![0, s.bal[0] - s.bal[1]] } else { vec![s.bal[1] - s.bal[0], 0] };
                if amts.iter().sum::<u128>() > s.bal[0] / 10_000 {
                    let res = d.w.c.dry(|| d.w.provide(&u, &p, &amts, &Prov { slippage: Some(Decimal::percent(50)), ..Default::default() }));
                    d.m.check("P22", &sg(un, "fresh-balance"), res.is_ok(), || format!("{u} deposits {amts:?}, levelling a pool of {:?} with {q:?}: {}", s.bal, short(&res)));
                    d.m.count("levelling deposits");
                }
            }
            return;
        }
    }
}
pub fn specs() -> Vec<Spec> {
    vec![Spec {
        prop: "P22",
        profiles: vec![("xyk", 500, 10_000, xyk), ("tax", 500, 10_000, tax), ("stable", 500, 10_000, stable), ("pcl", 500, 10_000, pcl), ("fresh", 1500, 30_000, fresh)],
        rule: "distinct (trade or deposit, pool type, direction, magnitudes of amounts and reserves) requests served",
    }]
}
