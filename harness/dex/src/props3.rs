//! Workloads and monitors for trade observations, gradual parameter changes and repegging.
use crate::eng::*;
use crate::eng::St;
use crate::model::*;
use crate::props::*;
use crate::props2::*;
use astroport::pair as ap;
use astroport::pair_concentrated as apc;
use sim::num::*;
use world::*;

// ---------------------------------------------------------------------------------------------- P13 observations
const CAP: usize = 3000;
#[derive(Clone, Copy, Debug)]
struct Ob {
    ts: u64,
    price: u128,
    sma: u128,
}
#[derive(Default)]
struct Rec {
    buf: Vec<Ob>,
    pre: Option<(u128, u128, u64)>,
}
impl Rec {
    fn price(b: u128, q: u128) -> u128 {
        mul_div(b, E18, q)
    }
    /// runs at every swap before its own amounts are recorded
    fn commit(&mut self, now: u64) {
        let Some((b, q, ts)) = self.pre else { return };
        let price = Rec::price(b, q);
        let n = self.buf.len();
        match self.buf.last().copied() {
            None => {
                if now > ts {
                    self.buf.push(Ob { ts, price, sma: price });
                }
            }
            Some(l) if l.ts < ts => {
                let sma = if n < CAP {
                    to128((u512(l.sma) * u512(n as u128) + u512(price)) / u512(n as u128 + 1)).unwrap()
                } else {
                    let sum = u512(l.sma) * u512(CAP as u128) + u512(price);
                    let old = u512(self.buf[n - CAP].price);
                    to128((if sum > old { sum - old } else { u512(0) }) / u512(CAP as u128)).unwrap()
                };
                self.buf.push(Ob { ts, price, sma });
            }
            _ => {}
        }
    }
    fn record(&mut self, b: u128, q: u128, now: u64) {
        self.pre = Some(match self.pre {
            Some((pb, pq, ts)) if ts == now => (pb + b, pq + q, ts),
            _ => (b, q, now),
        });
    }
    fn window(&self) -> &[Ob] {
        let n = self.buf.len();
        &self.buf[n.saturating_sub(CAP)..]
    }
}
fn observe(d: &Dx, p: &Pool, ago: u64) -> Result<astroport::observation::OracleObservation, String> {
    d.w.c.query(&p.addr, &ap::QueryMsg::Observe { seconds_ago: ago })
}
fn obs_check(d: &mut Dx, p: &Pool, rec: &Rec, tiny: bool, full_scan: bool) {
    let now = d.w.c.now();
    let w = rec.window().to_vec();
    let mut ats: Vec<u64> = vec![now, now.saturating_sub(1), 1];
    if w.is_empty() {
        if let Some((_, _, ts)) = rec.pre {
            ats.extend([ts, ts.saturating_sub(1), ts + 1]);
        }
    } else {
        let n = w.len();
        let mut idx = vec![0, n - 1];
        for _ in 0..if full_scan { 40 } else { 5 } {
            idx.push(d.r.idx(n));
        }
        for i in idx {
            let t = w[i].ts;
            ats.extend([t, t + 1, t.saturating_sub(1)]);
            if i + 1 < n {
                ats.push(d.r.range(t, w[i + 1].ts));
            }
        }
    }
    // numeric resolution: every recorded average is rounded down to 18 digits
    let drift = rec.buf.len() as u128 + 2;
    let sigx = |s: &'static str| if tiny { "sma-rounding-drift" } else { s };
    for at in ats {
        if at > now {
            continue;
        }
        let r = observe(d, p, now - at);
        let got = r.as_ref().ok().map(|x| dec(x.price));
        if w.is_empty() {
            match rec.pre {
                None => {
                    d.m.check("P13", "empty", r.is_err(), || format!("observation {r:?} although nothing was ever traded"));
                }
                Some((b, q, ts)) => {
                    let want = (ts <= at).then(|| Rec::price(b, q));
                    d.m.check("P13", "first", got == want, || format!("observation at {at}: {r:?}, expected {want:?} (first trade at {ts})"));
                }
            }
            continue;
        }
        let (lo_all, hi_all) = (w.iter().map(|o| o.price).min().unwrap(), w.iter().map(|o| o.price).max().unwrap());
        if at < w[0].ts {
            d.m.check("P13", "too-old", r.is_err(), || format!("observation {r:?} for {at}, before the oldest recorded trade at {}", w[0].ts));
            continue;
        }
        let k = w.partition_point(|o| o.ts <= at) - 1;
        let (l, rr) = (w[k], *w.get(k + 1).unwrap_or(&w[k]));
        let Some(got) = got else {
            d.m.check("P13", sigx("refused"), false, || format!("observation at {at} failed: {r:?} ({} recorded, {}..{})", w.len(), w[0].ts, w[w.len() - 1].ts));
            continue;
        };
        // linear between the neighbouring averages
        let (want, tol) = if at == l.ts || rr.ts == l.ts {
            (l.sma as f64, 0.0)
        } else {
            let x = (at - l.ts) as f64 / (rr.ts - l.ts) as f64;
            let v = l.sma as f64 + (rr.sma as f64 - l.sma as f64) * x;
            (v, (at - l.ts) as f64 + 2.0 + v * 1e-14 + (rr.sma as f64 - l.sma as f64).abs() * (rr.ts - l.ts) as f64 * 1e-18)
        };
        let exact = if tol == 0.0 { got == l.sma } else { (got as f64 - want).abs() <= tol };
        d.m.check("P13", "value", exact || tiny, || format!("observation at {at} is {got}, recorded averages give {want} (neighbours {l:?} {rr:?}, {} recorded)", w.len()));
        // the average up to the newest of a full buffer covers the whole window; older ones cover earlier prices too
        let newest = k + 1 == w.len();
        let (lo, hi) = if newest || rec.buf.len() <= CAP {
            (lo_all, hi_all)
        } else {
            (rec.buf.iter().map(|o| o.price).min().unwrap(), rec.buf.iter().map(|o| o.price).max().unwrap())
        };
        d.m.check("P13", sigx("outside-recorded"), got + if tiny { 2 } else { drift } >= lo && got <= hi + 2, || {
            format!("observation at {at} is {got}, outside all recorded trade prices [{lo},{hi}] ({} recorded so far)", rec.buf.len())
        });
        d.m.seen("P13", (p.kind, mag(got), mag(w.len() as u128), tol > 0.0, newest, mag((now - at) as u128)));
    }
    d.m.sample("P13", || format!("{:?}: {} observations recorded, newest {:?}, pending {:?}", p.kind, rec.buf.len(), rec.buf.last(), rec.pre));
}
/// one swap followed by the recorder; false: stop the case
fn obs_swap(d: &mut Dx, pi: usize, rec: &mut Rec, amt: Option<(usize, u128)>, tiny: bool) -> bool {
    let p = d.pool(pi);
    let (i, a) = match amt {
        Some(x) => x,
        None => {
            let i = d.r.idx(2);
            (i, rand_amount(d, pi, i))
        }
    };
    let j = 1 - i;
    let u = d.user();
    let now = d.w.c.now();
    match d.w.swap(&u, &p, i, j, a, &Sw::loose()) {
        Err(e) => {
            d.m.step(|| format!("swap {a} {}->{} => ERR {e}", p.toks[i].id, p.toks[j].id));
            if tiny && e.contains("PANIC") && rec.buf.len() >= CAP {
                d.m.check("P13", "sma-rounding-drift", false, || format!("swap refused after {} observations: {e}", rec.buf.len()));
                return false;
            }
        }
        Ok(tx) => {
            let ret = tx.attr_u128(&p.addr, "return_amount").expect("return_amount");
            d.m.step(|| format!("swap {a} {}->{} => {ret} at {now}", p.toks[i].id, p.toks[j].id));
            d.m.count("swap_ok");
            rec.commit(now);
            let (od, ad) = (p.toks[i].dec, p.toks[j].dec);
            // one hundred-thousandth of a token on either side
            let big = |x: u128, dd: u32| u512(x) * u512(100_000) >= u512(pow10(dd));
            if big(a, od) {
                if big(ret, ad) {
                    let (b, q) = if i == 0 { (a, ret) } else { (ret, a) };
                    rec.record(b, q, now);
                } else if p.kind == Kind::Pcl && big(ret + 1, ad) {
                    return false; // threshold decided by a fraction of a unit
                }
            }
        }
    }
    true
}
fn obs_short(r: &mut Rng, m: &mut Mon, kind: Kind) {
    let (mut d, pi) = with_pool(r, m, kind);
    let p = d.pool(pi);
    let mut rec = Rec::default();
    obs_check(&mut d, &p, &rec, false, false);
    for _ in 0..40 {
        match d.r.idx(4) {
            0 => {}
            1 => d.w.c.advance(1, 1),
            _ => {
                let (b, s) = (d.r.range(1, 10), d.r.range(1, 1000));
                d.w.c.advance(b, s)
            }
        }
        if d.r.chance(5, 6) {
            if !obs_swap(&mut d, pi, &mut rec, None, false) {
                return;
            }
        } else if d.r.chance(1, 2) {
            // other operations leave the observations alone
            let amts = d.rand_amounts(pi);
            let _ = d.op_provide(pi, 1, &amts, &Prov { slippage: Some(Decimal::percent(50)), ..Default::default() });
        } else {
            rand_withdraw(&mut d, pi);
        }
        obs_check(&mut d, &p, &rec, false, false);
        let s = d.st(pi);
        if d.m.failed() || s.lp == 0 || extreme(&s, &[]) || !d.healthy(&p, &s) {
            return;
        }
    }
}
fn obs_long(r: &mut Rng, m: &mut Mon, kind: Kind, tiny: bool) {
    let mut d = Dx::new(m, r);
    let pi = if tiny {
        // raw price of about a hundred units of the 18th digit: 6 digits against 18 digits, 1 token = 1e-4
        let (a, b) = (0, 2);
        let pr = pclp(d.r, Decimal::from_ratio(1u128, 10_000u128), false);
        let i = d.w.pcl(a, b, &pr).expect("pool");
        d.sh.push(Shadow::default());
        i
    } else {
        d.add_pool(kind)
    };
    d.seed(pi);
    let p = d.pool(pi);
    let s = d.st(pi);
    let mut rec = Rec::default();
    let first_extreme = d.r.chance(1, 2);
    let n = CAP + 20 + d.r.idx(if tiny { 1 } else { 400 }) + if tiny { 1500 } else { 0 };
    for k in 0..n {
        let sec = d.r.range(1, 30);
        d.w.c.advance(1, sec);
        // small trades in both directions; the very first may be far from the later prices
        let i = k % 2;
        let frac = if k == 0 && first_extreme { 3 } else { 10_000 };
        let a = (s.bal[i] / frac).max(pow10(p.toks[i].dec) / 50_000 + 1);
        if !obs_swap(&mut d, pi, &mut rec, Some((i, a)), tiny) {
            return;
        }
        if d.r.chance(1, 200) || k + 1 == n || (k > CAP - 3 && k < CAP + 4) {
            obs_check(&mut d, &p, &rec, tiny || rec.buf.last().map_or(false, |o| o.price < 100_000), true);
        }
        if d.m.failed() {
            return;
        }
    }
    d.m.count("wrapped_buffers");
}
// ---------------------------------------------------------------------------------------------- P15 gradual parameters
const DAY: u64 = 86_400;
fn callers() -> Vec<&'static str> {
    vec!["wasm1user1", "wasm1user3", "wasm1taxadmin", "wasm1pairowner", "wasm1newowner", MAKER]
}
fn ramp_stable(r: &mut Rng, m: &mut Mon) {
    let mut d = Dx::new(m, r);
    let (a, b) = d.pair_of_tokens();
    let amp0 = d.r.log(1, 1_000_000) as u64;
    let own = d.r.chance(1, 2);
    let prm = ap::StablePoolParams { amp: amp0, owner: own.then(|| "wasm1pairowner".to_string()) };
    for bad in [0u64, 1_000_001] {
        let prm = ap::StablePoolParams { amp: bad, owner: None };
        let r = d.w.c.dry(|| d.w.c.exec(OWNER, &d.w.factory, &create_msg(&d.w, Kind::Stable, a, b, to_json_binary(&prm).unwrap()), &[]));
        d.m.check("P15", "initial-amp", r.is_err(), || format!("stable pool created with amplification {bad}"));
    }
    let pi = d.w.create_pair(Kind::Stable, &[a, b], Some(to_json_binary(&prm).unwrap()), false, format!("amp {amp0} own {own}")).expect("pool");
    d.sh.push(Shadow { created_at: d.w.c.height(), ..Default::default() });
    let p = d.pool(pi);
    if own {
        d.w.pool_owner.insert(p.addr.clone(), "wasm1pairowner".into());
    }
    d.m.step(|| format!("stable pool [{},{}] amp {amp0} own {own}", p.toks[0].id, p.toks[1].id));
    let mut fowner = OWNER.to_string();
    // in hundredths: start, target, start time, end time
    let t0 = d.w.c.now();
    let (mut a0, mut a1, mut s0, mut s1) = (amp0 as u128 * 100, amp0 as u128 * 100, t0, t0);
    let cur = |a0: u128, a1: u128, s0: u64, s1: u64, now: u64| -> f64 {
        if now >= s1 {
            a1 as f64
        } else {
            a0 as f64 + (a1 as f64 - a0 as f64) * (now - s0) as f64 / (s1 - s0) as f64
        }
    };
    d.seed(pi);
    for _ in 0..45 {
        let dt = match d.r.idx(6) {
            0 => 0,
            1 => d.r.range(1, 100),
            2 => d.r.range(100, DAY),
            3 => DAY,
            4 => d.r.range(DAY, 3 * DAY),
            _ => s1.saturating_sub(d.w.c.now()).saturating_sub(d.r.range(0, 2)).min(30 * DAY),
        };
        if dt > 0 {
            d.w.c.advance(1 + dt / 10, dt);
            d.m.step(|| format!("advance {dt} s"));
        }
        let now = d.w.c.now();
        let owner = if own { "wasm1pairowner".to_string() } else { fowner.clone() };
        // the value in force is linear
        let v = d.stable_amp(&p) as f64;
        let e = cur(a0, a1, s0, s1, now);
        d.m.check("P15", "stable-linear", (v - e).abs() <= 1.0, || format!("amplification (x100) is {v} at {now}, linear change {a0}@{s0} -> {a1}@{s1} gives {e}"));
        d.m.check("P15", "stable-bounds", v >= 99.0 && v <= 100_000_000.0, || format!("amplification (x100) {v} out of bounds"));
        d.m.seen("P15", ("stable", mag(v as u128), now < s1, a1 > a0));
        match d.r.weighted(&[4, 2, 5, 1]) {
            0 => {
                let caller = if d.r.chance(2, 3) { owner.clone() } else { d.r.pick(&callers()).to_string() };
                let tgt: u64 = match d.r.idx(7) {
                    0 => 0,
                    1 => 1_000_001,
                    2 => 1_000_000,
                    3 => ((v / 100.0) * 10.0 + d.r.range(0, 2) as f64 - 1.0) as u64,
                    4 => ((v / 1000.0) + d.r.range(0, 2) as f64 - 1.0).max(0.0) as u64,
                    _ => (v / 100.0 * 10f64.powf(2.4 * d.r.f64() - 1.2)) as u64,
                };
                let end = match d.r.idx(5) {
                    0 => now + DAY - 1,
                    1 => now + DAY,
                    2 => now.saturating_sub(1),
                    _ => now + d.r.range(DAY, 20 * DAY),
                };
                let r = d.w.update_pool(&caller, &p, &ap::StablePoolUpdateParams::StartChangingAmp { next_amp: tgt, next_amp_time: end });
                d.m.step(|| format!("{caller} StartChangingAmp {tgt} by {end} (now {now}) => {}", short(&r)));
                let t = tgt as f64 * 100.0;
                let ratio = (t / v).max(v / t.max(1e-9));
                let hard = caller != owner || tgt == 0 || tgt > 1_000_000 || end < now + DAY || ratio > 10.0 + 1e-12;
                d.m.check("P15", "stable-start-accepted", !(hard && r.is_ok()), || format!("{caller} (owner {owner}) changed amplification {v} -> {t} within {} s", end as i64 - now as i64));
                let too_soon = now < s0 + DAY;
                d.m.check("P15", "stable-start-too-soon", !(too_soon && r.is_ok()), || format!("second change accepted {} s after the previous one", now - s0));
                d.m.check("P15", "stable-start-refused", hard || too_soon || r.is_ok(), || format!("owner's change {v} -> {t} by {end} refused: {}", short(&r)));
                if r.is_ok() {
                    (a0, a1, s0, s1) = (v as u128, tgt as u128 * 100, now, end);
                    d.sh[pi].ramp_until = end;
                }
                d.m.seen("P15", ("start", r.is_ok(), hard, too_soon, caller == owner));
            }
            1 => {
                let caller = if d.r.chance(1, 2) { owner.clone() } else { d.r.pick(&callers()).to_string() };
                let r = d.w.update_pool(&caller, &p, &ap::StablePoolUpdateParams::StopChangingAmp {});
                d.m.step(|| format!("{caller} StopChangingAmp => {}", short(&r)));
                d.m.check("P15", "stable-stop", r.is_ok() == (caller == owner), || format!("stop by {caller} (owner {owner}): {}", short(&r)));
                if r.is_ok() {
                    (a0, a1, s0, s1) = (v as u128, v as u128, now, now);
                }
            }
            2 => step(&mut d, pi),
            _ => {
                if let Some(n) = hand_over(&mut d, &fowner) {
                    fowner = n;
                }
            }
        }
        if d.m.failed() {
            return;
        }
    }
}
pub fn create_msg(w: &World, k: Kind, a: usize, b: usize, params: cosmwasm_std::Binary) -> astroport::factory::ExecuteMsg {
    astroport::factory::ExecuteMsg::CreatePair {
        pair_type: k.pt(),
        asset_infos: vec![w.toks[a].info.clone(), w.toks[b].info.clone()],
        init_params: Some(params),
    }
}
/// the factory changes its owner
fn hand_over(d: &mut Dx, from: &str) -> Option<String> {
    let to = if from == OWNER { "wasm1newowner" } else { OWNER };
    let f = d.w.factory.clone();
    d.w.c.exec(from, &f, &astroport::factory::ExecuteMsg::ProposeNewOwner { owner: to.into(), expires_in: 1000 }, &[]).expect("propose");
    d.w.c.exec(to, &f, &astroport::factory::ExecuteMsg::ClaimOwnership {}, &[]).expect("claim");
    d.w.owner = to.to_string();
    d.m.step(|| format!("factory ownership {from} -> {to}"));
    Some(to.to_string())
}
fn ramp_pcl(r: &mut Rng, m: &mut Mon) {
    let mut d = Dx::new(m, r);
    let (a, b) = d.pair_of_tokens();
    let price = Decimal::raw(d.r.log(E18 / 100, E18 * 100));
    let tr = d.r.chance(1, 2);
    let mut pr = pclp(d.r, price, tr);
    pr.amp = Decimal::raw(d.r.log(E18 / 10, 100_000 * E18));
    pr.gamma = Decimal::raw(d.r.log(10_000_000_000_000, 20_000_000_000_000_000));
    // creation with a parameter out of bounds must fail
    for _ in 0..3 {
        let mut q = pr.clone();
        let k = d.r.idx(9);
        match k {
            0 => q.amp = Decimal::raw(E18 / 10 - 1),
            1 => q.amp = Decimal::raw(100_000 * E18 + 1),
            2 => q.gamma = Decimal::raw(20_000_000_000_000_001),
            3 => q.gamma = Decimal::raw(9_999_999_999),
            4 => q.mid_fee = Decimal::raw(49_999_999_999_999),
            5 => q.out_fee = Decimal::raw(10_000_000_000_000_001),
            6 => q.mid_fee = q.out_fee,
            7 => q.ma_half_time = if d.r.chance(1, 2) { 0 } else { 604_801 },
            _ => q.repeg_profit_threshold = Decimal::raw(10_000_000_000_000_001),
        }
        let r = d.w.c.dry(|| d.w.c.exec(OWNER, &d.w.factory, &create_msg(&d.w, Kind::Pcl, a, b, to_json_binary(&q).unwrap()), &[]));
        d.m.check("P15", "pcl-initial-params", r.is_err(), || format!("concentrated pool created with parameters out of bounds (variant {k}): {q:?}"));
    }
    let pi = d.w.pcl(a, b, &pr).expect("pool");
    d.sh.push(Shadow { created_at: d.w.c.height(), ..Default::default() });
    let p = d.pool(pi);
    d.m.step(|| format!("pcl pool [{},{}] {pr:?}", p.toks[0].id, p.toks[1].id));
    let mut owner = OWNER.to_string();
    d.seed(pi);
    let (mut a0, mut g0, mut a1, mut g1) = (dec(pr.amp) as f64, dec(pr.gamma) as f64, dec(pr.amp) as f64, dec(pr.gamma) as f64);
    let (mut s0, mut s1) = (0u64, d.w.c.now());
    let lin = |x0: f64, x1: f64, s0: u64, s1: u64, now: u64| if now >= s1 { x1 } else { x0 + (x1 - x0) * ((now - s0) as f64 / (s1 - s0) as f64) };
    let mut shadow = d.pcl_cfg(&p);
    for _ in 0..45 {
        let dt = match d.r.idx(6) {
            0 => 0,
            1 => d.r.range(1, 100),
            2 => d.r.range(100, DAY),
            3 => DAY,
            4 => d.r.range(DAY, 3 * DAY),
            _ => s1.saturating_sub(d.w.c.now()).saturating_sub(d.r.range(0, 2)).min(30 * DAY),
        };
        if dt > 0 {
            d.w.c.advance(1 + dt / 10, dt);
            d.m.step(|| format!("advance {dt} s"));
        }
        let now = d.w.c.now();
        let c = d.pcl_cfg(&p);
        let (ea, eg) = (lin(a0, a1, s0, s1, now), lin(g0, g1, s0, s1, now));
        let (va, vg) = (dec(c.amp) as f64, dec(c.gamma) as f64);
        d.m.check("P15", "pcl-linear", (va - ea).abs() <= 4.0 + ea * 1e-13 && (vg - eg).abs() <= 4.0 + eg * 1e-13, || {
            format!("amp {va} gamma {vg} at {now}; linear change ({a0},{g0})@{s0} -> ({a1},{g1})@{s1} gives ({ea},{eg})")
        });
        // nothing but an update changes the other parameters
        d.m.check("P15", "pcl-stable-params", same_params(&c, &shadow), || format!("parameters changed on their own: {shadow:?} -> {c:?}"));
        pcl_bounds(d.m, &c);
        d.m.seen("P15", ("pcl", mag(va as u128), mag(vg as u128), now < s1, a1 > a0));
        match d.r.weighted(&[4, 2, 4, 5, 1]) {
            0 => {
                let caller = if d.r.chance(2, 3) { owner.clone() } else { d.r.pick(&callers()).to_string() };
                let mut f = |d: &mut Dx, v: f64, lo: f64, hi: f64| -> u128 {
                    (match d.r.idx(8) {
                        0 => lo - 1.0,
                        1 => hi * (1.0 + 1e-12) + 1.0,
                        2 => v * 10.0 * (1.0 + 1e-9),
                        3 => v * 10.0 * (1.0 - 1e-9),
                        4 => v / 10.0 * (1.0 - 1e-9),
                        5 => v,
                        _ => v * 10f64.powf(2.2 * d.r.f64() - 1.1),
                    }) as u128
                };
                let na = f(&mut d, va, 1e17, 1e23);
                let ng = if d.r.chance(1, 3) { dec(c.gamma) } else { f(&mut d, vg, 1e10, 2e16) };
                let end = match d.r.idx(5) {
                    0 => now + DAY - 1,
                    1 => now + DAY,
                    2 => now.saturating_sub(1),
                    _ => now + d.r.range(DAY, 20 * DAY),
                };
                let msg = apc::ConcentratedPoolUpdateParams::Promote(apc::PromoteParams { next_amp: Decimal::raw(na), next_gamma: Decimal::raw(ng), future_time: end });
                let r = d.w.update_pool(&caller, &p, &msg);
                d.m.step(|| format!("{caller} Promote amp {na} gamma {ng} by {end} (now {now}) => {}", short(&r)));
                let q = |n: u128, v: f64| (n as f64 / v).max(v / n.max(1) as f64);
                let (ra, rg) = (q(na, va), q(ng, vg));
                let inb = (E18 / 10..=100_000 * E18).contains(&na) && (10_000_000_000..=20_000_000_000_000_000).contains(&ng);
                let hard = caller != owner || !inb || end < now + DAY || ra > 10.0 * (1.0 + 1e-12) || rg > 10.0 * (1.0 + 1e-12);
                let border = (ra - 10.0).abs() < 1e-10 || (rg - 10.0).abs() < 1e-10;
                d.m.check("P15", "pcl-promote-accepted", !(hard && r.is_ok()), || format!("{caller} (owner {owner}) changed amp {va} -> {na}, gamma {vg} -> {ng} within {} s", end as i64 - now as i64));
                let too_soon = now < s0 + DAY;
                d.m.check("P15", "pcl-promote-too-soon", !(too_soon && r.is_ok()), || format!("second change accepted {} s after the previous one", now - s0));
                d.m.check("P15", "pcl-promote-refused", hard || too_soon || border || r.is_ok(), || format!("owner's change amp {va} -> {na}, gamma {vg} -> {ng} by {end} refused: {}", short(&r)));
                if r.is_ok() {
                    (a0, g0, a1, g1, s0, s1) = (va, vg, na as f64, ng as f64, now, end);
                    d.sh[pi].ramp_until = end;
                }
                d.m.seen("P15", ("promote", r.is_ok(), hard, too_soon, caller == owner));
            }
            1 => {
                let caller = if d.r.chance(1, 2) { owner.clone() } else { d.r.pick(&callers()).to_string() };
                let r = d.w.update_pool(&caller, &p, &apc::ConcentratedPoolUpdateParams::StopChangingAmpGamma {});
                d.m.step(|| format!("{caller} StopChangingAmpGamma => {}", short(&r)));
                d.m.check("P15", "pcl-stop", r.is_ok() == (caller == owner), || format!("stop by {caller} (owner {owner}): {}", short(&r)));
                if r.is_ok() {
                    (a1, g1, s1) = (va, vg, now);
                }
            }
            2 => {
                let caller = if d.r.chance(2, 3) { owner.clone() } else { d.r.pick(&callers()).to_string() };
                let mut u = apc::UpdatePoolParams { mid_fee: None, out_fee: None, fee_gamma: None, repeg_profit_threshold: None, min_price_scale_delta: None, ma_half_time: None };
                let pick = |d: &mut Dx, lo: u128, hi: u128| -> Decimal {
                    Decimal::raw(match d.r.idx(7) {
                        0 => lo.saturating_sub(1),
                        1 => hi + 1,
                        2 => lo,
                        3 => hi,
                        _ => d.r.log(lo.max(1), hi),
                    })
                };
                let (fl, fh) = (50_000_000_000_000u128, 10_000_000_000_000_000u128);
                if d.r.chance(1, 2) {
                    u.mid_fee = Some(if d.r.chance(1, 3) { Decimal::raw(dec(c.out_fee) + d.r.range(0, 2) as u128 - 1) } else { pick(&mut d, fl, fh) });
                }
                if d.r.chance(1, 2) {
                    u.out_fee = Some(if d.r.chance(1, 3) { Decimal::raw(dec(u.mid_fee.unwrap_or(c.mid_fee)) + d.r.range(0, 2) as u128 - 1) } else { pick(&mut d, fl, fh) });
                }
                if d.r.chance(1, 4) {
                    u.fee_gamma = Some(pick(&mut d, 0, E18));
                }
                if d.r.chance(1, 4) {
                    u.repeg_profit_threshold = Some(pick(&mut d, 0, 10_000_000_000_000_000));
                }
                if d.r.chance(1, 4) {
                    u.min_price_scale_delta = Some(pick(&mut d, 0, E18));
                }
                if d.r.chance(1, 4) {
                    u.ma_half_time = Some(*d.r.pick(&[0, 1, 600, 604_800, 604_801]));
                }
                let mut n = c.clone();
                if let Some(x) = u.mid_fee { n.mid_fee = x }
                if let Some(x) = u.out_fee { n.out_fee = x }
                if let Some(x) = u.fee_gamma { n.fee_gamma = x }
                if let Some(x) = u.repeg_profit_threshold { n.repeg_profit_threshold = x }
                if let Some(x) = u.min_price_scale_delta { n.min_price_scale_delta = x }
                if let Some(x) = u.ma_half_time { n.ma_half_time = x }
                let ok = in_bounds(&n).is_none();
                let r = d.w.update_pool(&caller, &p, &apc::ConcentratedPoolUpdateParams::Update(u.clone()));
                d.m.step(|| format!("{caller} Update {u:?} => {}", short(&r)));
                d.m.check("P15", "pcl-update-verdict", r.is_ok() == (ok && caller == owner), || format!("{caller} (owner {owner}) update {u:?} of {c:?} (valid: {:?}): {}", in_bounds(&n), short(&r)));
                if r.is_ok() {
                    shadow = n;
                }
                let c = d.pcl_cfg(&p);
                d.m.check("P15", "pcl-update-effect", same_params(&c, &shadow), || format!("after update {u:?} parameters are {c:?}, expected {shadow:?}"));
                d.m.seen("P15", ("update", r.is_ok(), ok, caller == owner, u.mid_fee.is_some(), u.out_fee.is_some()));
            }
            3 => step(&mut d, pi),
            _ => {
                if let Some(n) = hand_over(&mut d, &owner) {
                    owner = n;
                }
            }
        }
        if d.m.failed() {
            return;
        }
    }
}
fn same_params(a: &apc::ConcentratedPoolConfig, b: &apc::ConcentratedPoolConfig) -> bool {
    a.mid_fee == b.mid_fee
        && a.out_fee == b.out_fee
        && a.fee_gamma == b.fee_gamma
        && a.repeg_profit_threshold == b.repeg_profit_threshold
        && a.min_price_scale_delta == b.min_price_scale_delta
        && a.ma_half_time == b.ma_half_time
        && a.track_asset_balances == b.track_asset_balances
}
fn in_bounds(c: &apc::ConcentratedPoolConfig) -> Option<&'static str> {
    let (fl, fh) = (50_000_000_000_000u128, 10_000_000_000_000_000u128);
    let f = |x: Decimal| (fl..=fh).contains(&dec(x));
    if !f(c.mid_fee) {
        return Some("mid_fee");
    }
    if !f(c.out_fee) {
        return Some("out_fee");
    }
    if c.out_fee <= c.mid_fee {
        return Some("out_fee must exceed mid_fee");
    }
    if dec(c.fee_gamma) > E18 {
        return Some("fee_gamma");
    }
    if dec(c.repeg_profit_threshold) > fh {
        return Some("repeg_profit_threshold");
    }
    if dec(c.min_price_scale_delta) > E18 {
        return Some("min_price_scale_delta");
    }
    if c.ma_half_time == 0 || c.ma_half_time > 604_800 {
        return Some("ma_half_time");
    }
    None
}
fn pcl_bounds(m: &mut Mon, c: &apc::ConcentratedPoolConfig) {
    let ag = dec(c.amp) + 1 >= E18 / 10 && dec(c.amp) <= 100_000 * E18 && dec(c.gamma) + 1 >= 10_000_000_000 && dec(c.gamma) <= 20_000_000_000_000_000;
    m.check("P15", "pcl-bounds", ag && in_bounds(c).is_none(), || format!("parameters out of their documented limits ({:?}): {c:?}", in_bounds(c)));
}
// ---------------------------------------------------------------------------------------------- P21 repegging
#[derive(Clone, Copy, Debug)]
struct Iv(f64, f64);
fn lp_price(d: &Dx, p: &Pool) -> f64 {
    let v: cosmwasm_std::Decimal256 = d.w.c.query(&p.addr, &apc::QueryMsg::LpPrice {}).expect("LpPrice");
    v.to_string().parse().unwrap()
}
/// invariant value per LP token at price scale `ps`
fn vp_at(p: &Pool, s: &St, ps: f64) -> f64 {
    let c = s.cfg.as_ref().unwrap();
    let dd = pcl_d(tf(s.bal[0], p.toks[0].dec), tf(s.bal[1], p.toks[1].dec) * ps, df(c.amp), df(c.gamma));
    dd / (2.0 * ps.sqrt()) / tf(s.lp, 6)
}
fn repeg(r: &mut Rng, m: &mut Mon) {
    let mut d = Dx::new(m, r);
    let (a, b) = d.pair_of_tokens();
    let price = Decimal::raw(d.r.log(E18 / 1000, E18 * 1000));
    let mut pr = pclp(d.r, price, false);
    // parameters under which repegging happens often
    pr.amp = Decimal::from_ratio(d.r.log(10, 4000), 1u128);
    pr.gamma = Decimal::raw(d.r.log(30_000_000_000_000, 20_000_000_000_000_000));
    pr.mid_fee = Decimal::raw(d.r.log(500_000_000_000_000, 5_000_000_000_000_000));
    pr.out_fee = Decimal::raw(d.r.range128(dec(pr.mid_fee) + 1_000_000, 10_000_000_000_000_000));
    pr.repeg_profit_threshold = Decimal::raw(d.r.log(1_000_000_000, 1_000_000_000_000_000));
    pr.min_price_scale_delta = Decimal::raw(d.r.log(1_000_000_000_000, 5_000_000_000_000_000));
    pr.ma_half_time = d.r.log(1, 86_400) as u64;
    let pi = d.w.pcl(a, b, &pr).expect("pool");
    d.sh.push(Shadow { created_at: d.w.c.height(), ..Default::default() });
    let p = d.pool(pi);
    d.m.step(|| format!("pcl pool [{}({}),{}({})] {pr:?} fees {:?}", p.toks[0].id, p.toks[0].dec, p.toks[1].id, p.toks[1].dec, d.w.fees[&Kind::Pcl]));
    let t_create = d.w.c.now();
    d.seed(pi);
    if d.r.chance(1, 2) {
        // a part of the commission leaves the pool: the price of a trade does not depend on it
        toggle_share(&mut d, pi);
    }
    let ps0 = df(pr.price_scale);
    let mut last = Iv(ps0, ps0);
    let mut oracle = Iv(ps0, ps0);
    let mut upd = t_create;
    // profit counter and the real value it was last compared with
    let (mut xp, mut real) = (Iv(1.0, 1.0), Iv(1.0, 1.0));
    for _ in 0..60 {
        let (b, s) = match d.r.idx(5) {
            0 => (0, 0),
            1 => (1, d.r.range(1, 10)),
            2 => (5, d.r.range(10, 600)),
            3 => (50, d.r.range(600, 20_000)),
            _ => (500, d.r.range(20_000, 200_000)),
        };
        if b > 0 {
            d.w.c.advance(b, s);
            d.m.step(|| format!("advance {b} blocks {s} s"));
        }
        let s0 = d.st(pi);
        if !d.healthy(&p, &s0) || extreme(&s0, &[]) {
            return;
        }
        let sc0 = df(s0.cfg.as_ref().unwrap().price_scale);
        let now = d.w.c.now();
        // the invariant value of an LP token as reported is the one its reserves give
        let lpp = lp_price(&d, &p);
        let vp0 = vp_at(&p, &s0, sc0);
        let e0 = 3e-5 / (d.inv(&p, &s0)) + 1e-9;
        d.m.check("P21", "lp-price", rel(lpp, vp0) < e0, || format!("LpPrice {lpp}, reserves give {vp0} (tolerance {e0})"));
        let traded; // price certainly recorded / maybe recorded
        let opname;
        match d.r.weighted(&[14, 3, 2, 1]) {
            0 => {
                let (i, j) = sides(&mut d, pi);
                // up to a third of a reserve, mostly around a percent: drives the price
                let a = if d.r.chance(1, 8) { rand_amount(&mut d, pi, i) } else { (s0.bal[i] as f64 * 10f64.powf(-3.5 + 3.0 * d.r.f64())) as u128 }.max(1);
                let u = d.user();
                let r = d.w.swap(&u, &p, i, j, a, &Sw::loose());
                opname = "swap";
                match r {
                    Err(e) => {
                        d.m.step(|| format!("swap {a} {}->{} => ERR {e}", p.toks[i].id, p.toks[j].id));
                        d.m.count("swap_rejected");
                        continue;
                    }
                    Ok(tx) => {
                        let g = |k: &str| tx.attr_u128(&p.addr, k).unwrap_or(0);
                        let got = g("return_amount") + g("maker_fee_amount") + g("fee_share_amount");
                        d.m.step(|| format!("swap {a} {}->{} => {got}", p.toks[i].id, p.toks[j].id));
                        d.m.count("swap_ok");
                        let (off, out) = (tf(a, p.toks[i].dec), tf(got, p.toks[j].dec));
                        let e = 1e-12 + 3.0 / got.max(1) as f64;
                        if off < 0.9999999999e-5 || out < 0.9e-5 {
                            traded = None;
                        } else {
                            let px = if i == 0 { off / out } else { out / off };
                            traded = Some((Iv(px * (1.0 - e), px * (1.0 + e)), out * (1.0 - e) > 1e-5));
                        }
                    }
                }
            }
            1 => {
                let amts = d.rand_amounts(pi);
                let ui = d.r.idx(5);
                opname = "provide";
                if d.op_provide(pi, ui, &amts, &Prov { slippage: Some(Decimal::percent(50)), ..Default::default() }).is_err() {
                    continue;
                }
                let s1 = d.st(pi);
                traded = match deposit_price(&p, &s0, &s1, -1.0, -1.0) {
                    None => None,
                    Some((lo, hi)) if lo < 0.0 => Some((Iv(deposit_price(&p, &s0, &s1, f64::MAX, 0.0).unwrap().0, hi), false)),
                    Some((lo, hi)) => Some((Iv(lo, hi), true)),
                };
            }
            2 => {
                opname = "withdraw";
                rand_withdraw(&mut d, pi);
                traded = None;
            }
            _ => {
                opname = "idle";
                let _ = d.w.simulate(&p, 0, 1, (s0.bal[0] / 10).max(1));
                traded = None;
            }
        }
        let s1 = d.st(pi);
        if !d.healthy(&p, &s1) || extreme(&s1, &[]) {
            return;
        }
        let sc1 = df(s1.cfg.as_ref().unwrap().price_scale);
        let changed = s1.cfg.as_ref().unwrap().price_scale != s0.cfg.as_ref().unwrap().price_scale;
        let d1 = d.inv(&p, &s1);
        let ev = 3e-5 / d1 + 1e-10;
        let Some((px, sure)) = traded else {
            d.m.check("P21", "scale-moved-without-trade", !changed, || format!("{opname} moved the price scale {sc0} -> {sc1}"));
            if opname == "withdraw" {
                let v = vp_at(&p, &s1, sc1);
                real = Iv(v * (1.0 - ev), v * (1.0 + ev));
            }
            continue;
        };
        // average of past trade prices
        let o = if now > upd {
            let al = 0.5f64.powf((now - upd) as f64 / pr.ma_half_time as f64);
            let e = 2e-10;
            Iv((last.0 * (1.0 - al) + oracle.0 * al) * (1.0 - e), (last.1 * (1.0 - al) + oracle.1 * al) * (1.0 + e))
        } else {
            oracle
        };
        let v = vp_at(&p, &s1, sc0);
        let real1 = Iv(v * (1.0 - ev), v * (1.0 + ev));
        let xp1 = Iv(xp.0 * real1.0 / real.1, xp.1 * real1.1 / real.0);
        // decision
        let (n_lo, n_hi) = {
            let (a, b) = (o.0 / sc0 - 1.0, o.1 / sc0 - 1.0);
            if a > 0.0 { (a, b) } else if b < 0.0 { (-b, -a) } else { (0.0, b.max(-a)) }
        };
        let mind = df(pr.min_price_scale_delta);
        let (dl_lo, dl_hi) = (mind.max(n_lo / 10.0), mind.max(n_hi / 10.0));
        let thr = df(pr.repeg_profit_threshold);
        let profit_may = real1.1 - 1.0 > (xp1.0 - 1.0) / 2.0 + thr - 1e-15;
        let profit_sure = real1.0 - 1.0 > (xp1.1 - 1.0) / 2.0 + thr;
        if changed {
            let step = sc1 / sc0 - 1.0;
            let mag_ = step.abs();
            // 18-digit divisions of the contract
            let ee = 1e-12 + 4e-18 / n_lo.max(1e-12) / sc0;
            let toward = if step > 0.0 { o.1 >= sc0 } else { o.0 <= sc0 };
            d.m.check("P21", "away-from-average", toward, || format!("price scale {sc0} -> {sc1} although the traded-price average is {o:?} (last {last:?})"));
            d.m.check("P21", "step-size", mag_ >= dl_lo * (1.0 - 1e-6) - ee && mag_ <= dl_hi * (1.0 + 1e-6) + ee, || {
                format!("price scale moved by {mag_}, expected between {dl_lo} and {dl_hi}; {sc0} -> {sc1}, average {o:?}")
            });
            d.m.check("P21", "overshoot", mag_ <= n_hi * (1.0 + 1e-6) + ee, || format!("price scale {sc0} -> {sc1} moved past the average {o:?}"));
            d.m.check("P21", "unaffordable", profit_may, || format!("price scale moved although real profit {real1:?} does not exceed half the accumulated {xp1:?} plus {thr}"));
            let after = vp_at(&p, &s1, sc1);
            d.m.check("P21", "spent-too-much", 2.0 * after * (1.0 + ev) + 1e-12 > xp1.0 + 1.0, || {
                format!("repegging left {after} per LP token, less than half of the profit counter {xp1:?}")
            });
            d.m.count("repegs");
            real = Iv(after * (1.0 - ev), after * (1.0 + ev));
        } else {
            if sure && profit_sure && n_lo > dl_hi * (1.0 + 1e-6) + 1e-12 {
                // would the move have been affordable?
                let worst = [n_lo, n_hi].iter().fold(f64::MAX, |acc, n| {
                    let dl = mind.max(n / 10.0);
                    let ns = if o.0 > sc0 { sc0 * (1.0 + dl) } else { sc0 * (1.0 - dl) };
                    acc.min(vp_at(&p, &s1, ns))
                });
                d.m.check("P21", "did-not-repeg", 2.0 * worst * (1.0 - ev) <= xp1.1 + 1.0, || {
                    format!("price scale stays at {sc0} although the average {o:?} is {n_lo} away, real profit {real1:?} of {xp1:?} and the move would leave {worst}")
                });
                d.m.count("no_repeg_judged");
            }
            real = if sure { real1 } else { Iv(real.0.min(real1.0), real.1.max(real1.1)) };
        }
        d.m.check("P21", "below-start", vp_at(&p, &s1, sc1) * (1.0 + ev) >= 1.0 - 1e-6, || format!("an LP token is worth {} of its initial value", vp_at(&p, &s1, sc1)));
        d.m.seen("P21", (opname, changed, mag((n_hi * 1e6) as u128), mag(((now - upd) * 100 / pr.ma_half_time) as u128), profit_may));
        d.m.sample("P21", || format!("{opname}: scale {sc0} -> {sc1}, average {o:?}, profit {real1:?} of {xp1:?}"));
        if sure {
            oracle = o;
            upd = now;
            last = px;
            xp = xp1;
        } else {
            // cannot tell whether the contract recorded it
            return;
        }
        // stop when the bands have become useless
        if (oracle.1 - oracle.0) / sc1 > 0.01 || xp.1 - xp.0 > 1e-3 {
            return;
        }
        if d.m.failed() {
            return;
        }
    }
}
// ---------------------------------------------------------------------------------------------- profiles
fn os_stable(r: &mut Rng, m: &mut Mon) {
    obs_short(r, m, Kind::Stable)
}
fn os_pcl(r: &mut Rng, m: &mut Mon) {
    obs_short(r, m, Kind::Pcl)
}
fn ol_stable(r: &mut Rng, m: &mut Mon) {
    obs_long(r, m, Kind::Stable, false)
}
fn ol_pcl(r: &mut Rng, m: &mut Mon) {
    obs_long(r, m, Kind::Pcl, false)
}
fn ol_tiny(r: &mut Rng, m: &mut Mon) {
    obs_long(r, m, Kind::Pcl, true)
}
pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            prop: "P13",
            profiles: vec![("stable", 500, 20_000, os_stable), ("pcl", 500, 20_000, os_pcl), ("wrap-stable", 8, 150, ol_stable), ("wrap-pcl", 8, 150, ol_pcl), ("tiny-price", 1, 4, ol_tiny)],
            rule: "distinct (pool type, magnitude of price, number of observations and age, interpolated, newest) answers",
        },
        Spec { prop: "P15", profiles: vec![("stable", 1200, 30_000, ramp_stable), ("pcl", 1200, 30_000, ramp_pcl)], rule: "distinct (magnitude of the parameter, ramping, direction) readings and (call, verdict, caller role) updates" },
        Spec { prop: "P21", profiles: vec![("repeg", 2500, 60_000, repeg)], rule: "distinct (operation, moved, distance from the average, elapsed half-times, profitable) decisions" },
    ]
}
