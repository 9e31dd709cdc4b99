//! Random workload over a deployed DEX plus the monitors that watch each operation.
use crate::model::*;
use astroport::pair as ap;
use astroport::pair_concentrated as apc;
use astroport::pair_xyk_sale_tax as apt;
use sim::num::*;
use std::collections::BTreeMap;
use world::*;

#[derive(Clone, Debug, Default)]
pub struct Shadow {
    pub fee_share: Option<(u16, String)>,
    /// token id -> (rate, recipient)
    pub tax: BTreeMap<String, (Decimal, String)>,
    /// lp supply has been non-zero
    pub live: bool,
    /// balances of the pool at the end of each block: height -> balances (only tracked pools)
    pub hist: Vec<(u64, Vec<u128>)>,
    pub created_at: u64,
    /// amp/gamma ramp in progress
    pub ramp_until: u64,
    /// tokens were sent to the pool outside its entry points
    pub donated: f64,
}
pub struct Dx<'a> {
    pub w: World,
    pub m: &'a mut Mon,
    pub r: &'a mut Rng,
    pub sh: Vec<Shadow>,
}
#[derive(Clone, Debug)]
pub struct St {
    pub bal: Vec<u128>,
    pub lp: u128,
    pub d: f64,
    pub cfg: Option<apc::ConcentratedPoolConfig>,
    pub amp: u64,
}
pub fn pclp(r: &mut Rng, price: Decimal, track: bool) -> apc::ConcentratedPoolParams {
    let mid = r.log(50_000_000_000_000, 5_000_000_000_000_000);
    let out = r.range128(mid + 1_000_000_000_000, 10_000_000_000_000_000);
    apc::ConcentratedPoolParams {
        amp: Decimal::from_ratio(r.log(10, 10_000_00), 10u128),
        gamma: Decimal::raw(r.log(10_000_000_000_000, 20_000_000_000_000_000)),
        mid_fee: Decimal::raw(mid),
        out_fee: Decimal::raw(out),
        fee_gamma: Decimal::raw(r.log(100_000_000_000_000, 100_000_000_000_000_000)),
        repeg_profit_threshold: Decimal::raw(r.log(1_000_000_000, 100_000_000_000_000)),
        min_price_scale_delta: Decimal::raw(r.log(1_000_000_000_000, 1_000_000_000_000_000)),
        price_scale: price,
        ma_half_time: r.log(60, 86_400) as u64,
        track_asset_balances: Some(track),
        fee_share: None,
    }
}
pub const TOKS_NAT: [u8; 4] = [6, 6, 18, 8];
pub const TOKS_CW: [u8; 2] = [6, 18];

impl<'a> Dx<'a> {
    pub fn new(m: &'a mut Mon, r: &'a mut Rng) -> Dx<'a> {
        let total = *r.pick(&[0u16, 1, 5, 30, 30, 30, 100, 300, 1000, 2500, 5000, 9000]);
        let maker = *r.pick(&[0u16, 1, 2500, 3333, 5000, 9999, 10000]);
        let on = r.chance(5, 6);
        let w = World::new(&TOKS_NAT, &TOKS_CW, Fees { total, maker }, on);
        w.c.advance(r.range(0, 5), r.range(0, 100_000));
        m.step(|| format!("world fees total={total} maker={maker} maker_on={on}"));
        Dx { w, m, r, sh: vec![] }
    }
    pub fn pair_of_tokens(&mut self) -> (usize, usize) {
        let n = self.w.toks.len();
        let a = self.r.idx(n);
        let mut b = self.r.idx(n - 1);
        if b >= a {
            b += 1
        }
        (a, b)
    }
    pub fn add_pool(&mut self, k: Kind) -> usize {
        loop {
            let (a, b) = self.pair_of_tokens();
            let track = self.r.chance(1, 2);
            let mut sh = Shadow { created_at: self.w.c.height(), ..Default::default() };
            let res = match k {
                Kind::Xyk => self.w.xyk(a, b, track),
                Kind::Tax => {
                    let mut cfgs = vec![];
                    let mut denoms = vec![];
                    for t in [a, b] {
                        if let AssetInfo::NativeToken { denom } = &self.w.toks[t].info {
                            denoms.push(denom.clone());
                        }
                    }
                    for d in &denoms {
                        if self.r.chance(3, 4) {
                            let rate = Decimal::raw(match self.r.idx(4) {
                                0 => 0,
                                1 => E18 / 2,
                                _ => self.r.log(100_000_000_000_000, E18 / 2),
                            });
                            let rec = match self.r.idx(8) {
                                0..=2 => format!("wasm1taxrec{}", d.to_lowercase().replace("/", "")),
                                3..=5 => "wasm1taxrecx".to_string(),
                                6 if !self.m.wants("P20") => self.user(),
                                _ => self.r.pick(&[MAKER, OWNER]).to_string(),
                            };
                            cfgs.push((d.as_str(), apt::TaxConfig { tax_rate: rate, tax_recipient: rec.clone() }));
                            sh.tax.insert(d.clone(), (rate, rec));
                        }
                    }
                    let p = apt::SaleTaxInitParams {
                        track_asset_balances: track,
                        tax_configs: cfgs.into(),
                        tax_config_admin: "wasm1taxadmin".into(),
                    };
                    self.w.create_pair(Kind::Tax, &[a, b], Some(to_json_binary(&p).unwrap()), track, format!("tax {:?}", sh.tax))
                }
                Kind::Stable => {
                    let amp = self.r.log(1, 1_000_000) as u64;
                    self.w.stable(a, b, amp)
                }
                Kind::Pcl => {
                    // price of token b in token a (whole tokens)
                    let price = Decimal::raw(self.r.log(E18 / 1000, E18 * 1000));
                    let p = pclp(self.r, price, track);
                    self.w.pcl(a, b, &p)
                }
                Kind::Trans => {
                    let n = *self.r.pick(&[2usize, 2, 2, 3, 4]);
                    let mut ids: Vec<usize> = (0..4).collect();
                    self.r.shuffle(&mut ids);
                    ids.truncate(n.min(4));
                    self.w.create_pair(Kind::Trans, &ids, None, false, String::new())
                }
            };
            match res {
                Ok(i) => {
                    let p = &self.w.pools[i];
                    self.m.step(|| {
                        format!(
                            "create {:?} {} [{}] track={track} {}",
                            k,
                            p.addr,
                            p.toks.iter().map(|t| format!("{}({})", t.id, t.dec)).collect::<Vec<_>>().join(","),
                            p.note
                        )
                    });
                    self.sh.push(sh);
                    return i;
                }
                Err(e) => {
                    if e.contains("already") || e.contains("created") {
                        continue;
                    }
                    panic!("create pair {k:?}: {e}");
                }
            }
        }
    }
    pub fn pool(&self, i: usize) -> Pool {
        self.w.pools[i].clone()
    }
    pub fn pcl_cfg(&self, p: &Pool) -> apc::ConcentratedPoolConfig {
        let c: ap::ConfigResponse = self.w.c.query(&p.addr, &ap::QueryMsg::Config {}).expect("config");
        cosmwasm_std::from_json(c.params.unwrap()).unwrap()
    }
    pub fn stable_amp(&self, p: &Pool) -> u64 {
        let c: ap::ConfigResponse = self.w.c.query(&p.addr, &ap::QueryMsg::Config {}).expect("config");
        let s: ap::StablePoolConfig = cosmwasm_std::from_json(c.params.unwrap()).unwrap();
        (dec(s.amp) / (E18 / 100)) as u64
    }
    pub fn st(&self, pi: usize) -> St {
        let p = &self.w.pools[pi];
        let bal: Vec<u128> = (0..p.toks.len()).map(|i| self.w.pool_bal(p, i)).collect();
        let lp = self.w.lp_supply(p);
        let mut s = St { bal, lp, d: 0.0, cfg: None, amp: 0 };
        if p.kind == Kind::Pcl {
            s.cfg = Some(self.pcl_cfg(p));
        }
        if p.kind == Kind::Stable {
            s.amp = self.stable_amp(p);
        }
        s
    }
    pub fn user(&mut self) -> String {
        let u = &self.w.users;
        u[self.r.idx(u.len())].clone()
    }
    pub fn tick(&mut self) {
        let (b, s) = match self.r.weighted(&[40, 35, 15, 8, 2]) {
            0 => (0, 0),
            1 => (1, self.r.range(1, 10)),
            2 => (self.r.range(1, 20), self.r.range(10, 3600)),
            3 => (self.r.range(1, 1000), self.r.range(3600, 86_400 * 2)),
            _ => (self.r.range(1, 100_000), self.r.range(86_400, 86_400 * 60)),
        };
        if b > 0 {
            self.w.c.advance(b, s);
            self.m.step(|| format!("advance {b} blocks {s} s"));
        }
    }
    /// first liquidity
    pub fn seed(&mut self, pi: usize) {
        let p = self.pool(pi);
        for _ in 0..50 {
            // whole-token scale; kept where both precision and overflow limits of the curves are far away
            let amts = self.seed_amounts(&p);
            if self.op_provide(pi, 0, &amts, &Prov::default()).is_ok() {
                return;
            }
        }
        panic!("could not seed {:?}", p);
    }
    pub fn seed_amounts(&mut self, p: &Pool) -> Vec<u128> {
        let r = &mut *self.r;
        match p.kind {
            Kind::Xyk | Kind::Tax => p
                .toks
                .iter()
                .map(|t| if r.chance(1, 4) { r.log(1, pow10(t.dec) * 1_000_000_000) } else { r.log(pow10(t.dec) / 100, pow10(t.dec) * 100_000_000) })
                .collect(),
            Kind::Stable => {
                let whole = r.log(1, 1_000_000_000);
                p.toks.iter().map(|t| ((whole * pow10(t.dec)) as f64 * (0.3 + 1.4 * r.f64())) as u128).collect()
            }
            Kind::Pcl => {
                let whole = r.log(1000, 10_000_000) as f64; // value in token0
                let a = whole * (0.9 + 0.2 * r.f64()) * 10f64.powi(p.toks[0].dec as i32);
                let b = whole * (0.9 + 0.2 * r.f64()) / p.price * 10f64.powi(p.toks[1].dec as i32);
                vec![a as u128, b as u128]
            }
            Kind::Trans => p.toks.iter().map(|t| r.log(1, 1_000_000_000) * pow10(t.dec) / 1000 + 1).collect(),
        }
    }
    pub fn rand_amounts(&mut self, pi: usize) -> Vec<u128> {
        let p = self.pool(pi);
        let s = self.st(pi);
        if s.lp == 0 {
            return self.seed_amounts(&p);
        }
        let frac = 10f64.powf(-6.0 + 6.3 * self.r.f64());
        let style = self.r.idx(5);
        (0..p.toks.len())
            .map(|i| {
                let base = s.bal[i] as f64 * frac;
                let skew = match style {
                    0 | 1 => 1.0,
                    2 => 0.99 + 0.02 * self.r.f64(),
                    3 => 0.2 + 1.6 * self.r.f64(),
                    _ => 10f64.powf(-3.0 + 4.0 * self.r.f64()),
                };
                let a = (base * skew) as u128;
                if self.r.chance(1, 12) && (p.kind == Kind::Stable || p.kind == Kind::Pcl || p.kind == Kind::Trans) {
                    0
                } else {
                    a.max(1)
                }
            })
            .collect()
    }
    /// value of one LP token according to the curve invariant (f64), for drift monitoring
    pub fn inv(&self, p: &Pool, s: &St) -> f64 {
        match p.kind {
            Kind::Xyk | Kind::Tax => (s.bal[0] as f64).sqrt() * (s.bal[1] as f64).sqrt(),
            Kind::Stable => fx_f(stable_d(s.amp, fx(s.bal[0], p.toks[0].dec), fx(s.bal[1], p.toks[1].dec))),
            Kind::Pcl => {
                let c = s.cfg.as_ref().unwrap();
                let ps = df(c.price_scale);
                let d = pcl_d(tf(s.bal[0], p.toks[0].dec), tf(s.bal[1], p.toks[1].dec) * ps, df(c.amp), df(c.gamma));
                d / (2.0 * ps.sqrt())
            }
            Kind::Trans => s.bal.iter().zip(&p.toks).map(|(b, t)| tf(*b, t.dec)).sum(),
        }
    }
    /// A PCL pool deep enough for the 1e-5 Newton tolerance of its curve arithmetic to be negligible.
    pub fn healthy(&self, p: &Pool, s: &St) -> bool {
        match (&s.cfg, p.kind) {
            (Some(c), Kind::Pcl) => {
                let ps = df(c.price_scale);
                s.lp > 0 && {
                    let (a, b) = (tf(s.bal[0], p.toks[0].dec), tf(s.bal[1], p.toks[1].dec) * ps);
                    (a * b).sqrt() >= 50.0 && a > 0.5 && b > 0.5
                }
            }
            // 1e-6 tolerance of the stable curve
            (_, Kind::Stable) => s.lp == 0 || s.bal.iter().zip(&p.toks).all(|(b, t)| tf(*b, t.dec) >= 0.01),
            _ => true,
        }
    }
    // ------------------------------------------------------------------ provide
    pub fn op_provide(&mut self, pi: usize, ui: usize, amts: &[u128], o: &Prov) -> Result<u128, String> {
        let p = self.pool(pi);
        let user = self.w.users[ui].clone();
        let s0 = self.st(pi);
        let l0 = self.w.ledger();
        let infos: Vec<Asset> =
            p.toks.iter().zip(amts).map(|(t, a)| Asset { info: t.info.clone(), amount: Uint128::new(*a) }).collect();
        let sim: Result<Uint128, String> = if p.kind == Kind::Trans {
            Err("n/a".into())
        } else {
            self.w.c.query(&p.addr, &ap::QueryMsg::SimulateProvide { assets: infos, slippage_tolerance: o.slippage })
        };
        let res = self.w.provide(&user, &p, amts, o);
        self.m.step(|| format!("provide {user} -> {:?} {} amts={amts:?} {o:?} => {}", p.kind, p.addr, short(&res)));
        self.m.count(if res.is_ok() { "provide_ok" } else { "provide_rejected" });
        match res {
            Err(e) => {
                if let (Ok(v), Kind::Xyk | Kind::Tax | Kind::Stable | Kind::Pcl) = (&sim, p.kind) {
                    // the query saw no problem: execution may then fail only for the caller's own limits
                    let zero_tok = amts.iter().any(|a| *a == 0);
                    let excuse = o.min_lp.map_or(false, |m| v.u128() < m)
                        || v.is_zero()
                        || (o.auto_stake == Some(true))
                        || (zero_tok && p.kind != Kind::Pcl && p.kind != Kind::Stable)
                        || (p.kind == Kind::Stable && zero_tok)
                        || !self.healthy(&p, &s0)
                        || extreme(&s0, amts)
                        || e.contains("lippage");
                    if e.contains("LP tokens") {
                        self.m.check("P06", "min-lp-refused", o.min_lp.map_or(false, |x| v.u128() < x), || format!("{v} LP tokens meet the minimum {:?} but the deposit was refused: {e}", o.min_lp));
                    }
                    self.m.check("P09", "provide-sim-ok-exec-failed", excuse, || format!("SimulateProvide={v} but execution failed: {e}"));
                }
                Err(e)
            }
            Ok(tx) => {
                let l1 = self.w.ledger();
                let s1 = self.st(pi);
                let recv = o.receiver.clone().unwrap_or(user.clone());
                let minted_total = s1.lp as i128 - s0.lp as i128;
                let lock = if s0.lp == 0 && p.kind != Kind::Trans { 1000 } else { 0 };
                let minted = minted_total - lock as i128;
                // exact ledger effect
                let mut exp: BTreeMap<(String, String), i128> = BTreeMap::new();
                for (t, a) in p.toks.iter().zip(amts) {
                    *exp.entry((user.clone(), t.id.clone())).or_default() -= *a as i128;
                    *exp.entry((p.addr.clone(), t.id.clone())).or_default() += *a as i128;
                }
                *exp.entry((recv.clone(), p.lp.clone())).or_default() += minted;
                if lock > 0 {
                    *exp.entry((p.addr.clone(), p.lp.clone())).or_default() += lock as i128;
                }
                exp.retain(|_, v| *v != 0);
                let d = diff(&l0, &l1);
                self.m.check("P06", "provide-ledger", d == exp, || format!("provide changed balances by {d:?}, expected {exp:?}"));
                self.m.check("P06", "minted-positive", minted > 0, || format!("minted {minted}"));
                let att = tx.attr_u128(&p.addr, "share");
                if let Some(a) = att {
                    self.m.check("P06", "share-attr", a as i128 == minted || p.kind == Kind::Trans, || format!("share attribute {a}, minted {minted}"));
                }
                if let Some(mlp) = o.min_lp {
                    if p.kind != Kind::Trans {
                        self.m.seen("P06", ("minlp", p.kind));
                        self.m.check("P06", &format!("min-lp-{:?}", p.kind), minted >= mlp as i128, || format!("minted {minted} < requested minimum {mlp}"));
                    }
                }
                if p.kind != Kind::Trans {
                    match &sim {
                        Ok(v) => {
                            self.m.check("P09", "provide-sim", v.u128() as i128 == minted, || format!("SimulateProvide {v} vs minted {minted}"));
                            self.m.seen("P09", ("provide", p.kind, mag(minted as u128)));
                        }
                        Err(e) => {
                            self.m.check("P09", "provide-sim-failed", false, || format!("SimulateProvide failed ({e}) but the provide succeeded"));
                        }
                    }
                }
                self.mon_provide(&p, pi, &s0, &s1, amts, minted as u128);
                self.after(pi, &s0, &s1, "provide");
                self.sh[pi].live = true;
                Ok(minted as u128)
            }
        }
    }
    fn mon_provide(&mut self, p: &Pool, _pi: usize, s0: &St, s1: &St, amts: &[u128], minted: u128) {
        if !self.m.wants("P06") {
            return;
        }
        self.m.seen("P06", ("provide", p.kind, mag(minted), s0.lp == 0, mag(amts[0]), mag(amts[1])));
        match p.kind {
            Kind::Xyk | Kind::Tax => {
                let exp = if s0.lp == 0 {
                    to128(isqrt512(u512(amts[0]) * u512(amts[1]))).unwrap() - 1000
                } else {
                    mul_div(amts[0], s0.lp, s0.bal[0]).min(mul_div(amts[1], s0.lp, s0.bal[1]))
                };
                self.m.check("P06", "xyk-share-exact", minted == exp, || format!("minted {minted}, fair share {exp}"));
            }
            Kind::Stable => {
                let gp = p.toks.iter().map(|t| t.dec).max().unwrap();
                let d0 = stable_d(s0.amp, fx(s0.bal[0], p.toks[0].dec), fx(s0.bal[1], p.toks[1].dec));
                let d1 = stable_d(s1.amp, fx(s1.bal[0], p.toks[0].dec), fx(s1.bal[1], p.toks[1].dec));
                let tol_tok = 3e-6; // contract's Newton tolerance, whole tokens
                let exp = if s0.lp == 0 { fx_f(d1) - 1000.0 / 10f64.powi(gp as i32) } else { tf(s0.lp, gp) * (fx_f(d1 - d0) / fx_f(d0)) };
                let got = tf(minted, gp);
                let tol = tol_tok * (1.0 + if s0.lp == 0 { 0.0 } else { tf(s0.lp, gp) / fx_f(d0) }) + 1e-11 * exp + 2.0 / 10f64.powi(gp as i32);
                self.m.check("P06", "stable-share", (got - exp).abs() <= tol, || format!("minted {got}, fair {exp} (tolerance {tol})"));
            }
            Kind::Pcl => {
                let c0 = s0.cfg.as_ref().unwrap();
                let ps = df(c0.price_scale);
                let (a, g) = (df(c0.amp), df(c0.gamma));
                let x = |s: &St| [tf(s.bal[0], p.toks[0].dec), tf(s.bal[1], p.toks[1].dec) * ps];
                if !(self.healthy(p, s1) && (s0.lp == 0 || self.healthy(p, s0))) {
                    return;
                }
                let (x0, x1) = (x(s0), x(s1));
                let d1 = pcl_d(x1[0], x1[1], a, g);
                let got = tf(minted, 6);
                if s0.lp == 0 {
                    let exp = d1 / (2.0 * ps.sqrt()) - 0.001;
                    self.m.check("P06", "pcl-first", rel(got, exp) < 1e-7 || (got - exp).abs() < 2e-5 / ps.sqrt() + 3e-6, || format!("minted {got} expected {exp}"));
                } else {
                    let d0 = pcl_d(x0[0], x0[1], a, g);
                    let full = tf(s0.lp, 6) * (d1 - d0) / d0;
                    let fee_max = 0.5 * df(c0.out_fee);
                    // never more than proportional, never less than proportional minus the largest imbalance fee
                    let tol = 1e-8 * full + tf(s0.lp, 6) * (1e-9 + 4e-5 / d0) + 2e-6;
                    self.m.check("P06", "pcl-not-more", got <= full + tol, || format!("minted {got} LP, proportional {full}, tol {tol}"));
                    self.m.check("P06", "pcl-not-less", got >= full * (1.0 - fee_max) - tol, || format!("minted {got} LP, proportional {full}, max fee {fee_max}, tol {tol}"));
                    // a deposit in the internal 50/50 ratio is not charged
                    let dep = [x1[0] - x0[0], x1[1] - x0[1]];
                    let imb = ((dep[0] - dep[1]).abs() / (dep[0] + dep[1])).min(1.0);
                    let lo = full * (1.0 - 0.5 * imb * df(c0.out_fee) * 1.0001) - tol;
                    let hi = full * (1.0 - 0.5 * imb * df(c0.mid_fee) * 0.9999) + tol;
                    self.m.check("P06", "pcl-fee-band", got >= lo && got <= hi, || format!("minted {got}, band [{lo},{hi}] for imbalance {imb}"));
                }
            }
            Kind::Trans => {
                let lpd = p.toks.iter().map(|t| t.dec).max().unwrap();
                let exp: u128 = p.toks.iter().zip(amts).map(|(t, a)| a * pow10(lpd - t.dec)).sum();
                self.m.check("P06", "trans-share", minted == exp, || format!("minted {minted}, normalized deposits {exp}"));
            }
        }
    }
    // ------------------------------------------------------------------ withdraw
    pub fn op_withdraw(&mut self, pi: usize, user: &str, amount: u128, min: Option<Vec<u128>>) -> Result<Vec<u128>, String> {
        let p = self.pool(pi);
        let s0 = self.st(pi);
        let l0 = self.w.ledger();
        let sim: Result<Vec<Asset>, String> = self.w.c.query(&p.addr, &ap::QueryMsg::SimulateWithdraw { lp_amount: Uint128::new(amount) });
        let share: Result<Vec<Asset>, String> = self.w.c.query(&p.addr, &ap::QueryMsg::Share { amount: Uint128::new(amount) });
        let res = self.w.withdraw(user, &p, amount, min.clone());
        self.m.step(|| format!("withdraw {user} <- {:?} {} lp={amount} min={min:?} => {}", p.kind, p.addr, short(&res)));
        self.m.count(if res.is_ok() { "withdraw_ok" } else { "withdraw_rejected" });
        // reference refund
        let want: Vec<u128> = match p.kind {
            Kind::Pcl => s0.bal.iter().map(|b| mul_div(*b, amount.saturating_sub(1), s0.lp)).collect(),
            _ => s0.bal.iter().map(|b| mul_div(*b, amount, s0.lp)).collect(),
        };
        // fixed-point share ratio of 1e-18 (and, for PCL, balances are exact decimals): one unit + ratio error
        let tol: Vec<u128> = s0.bal.iter().map(|b| 1 + b / E18 + 1).collect();
        match res {
            Err(e) => {
                let dust = want.iter().zip(&tol).any(|(w, t)| *w <= *t);
                let min_excuse = min.as_ref().map_or(false, |m| m.iter().zip(want.iter()).zip(&tol).any(|((m, w), t)| *m + *t >= *w));
                // what a PCL pool would be left with, in internal units
                let left = s0.cfg.as_ref().map(|c| {
                    let l: Vec<f64> = (0..2).map(|i| tf(s0.bal[i] - want[i].min(s0.bal[i]), p.toks[i].dec)).collect();
                    (l[0] * l[1] * df(c.price_scale)).sqrt()
                });
                let sig = match left {
                    Some(g) if g < 0.1 && (e.contains("denominator") || e.contains("converg")) => "pcl-exit-to-dust".to_string(),
                    _ => format!("withdraw-refused-{:?}", p.kind),
                };
                self.m.check("P07", &sig, dust || min_excuse || p.kind == Kind::Trans || extreme(&s0, &[]), || {
                    format!("withdrawal of {amount} LP of {} (worth {want:?}) refused: {e}", s0.lp)
                });
                self.m.check("P07", "refusal-changes-nothing", diff(&l0, &self.w.ledger()).is_empty(), || "failed withdrawal moved funds".into());
                Err(e)
            }
            Ok(_) => {
                let s1 = self.st(pi);
                let l1 = self.w.ledger();
                let d = diff(&l0, &l1);
                let got: Vec<u128> = p.toks.iter().map(|t| d.get(&(user.to_string(), t.id.clone())).copied().unwrap_or(0).max(0) as u128).collect();
                if p.kind != Kind::Trans {
                    let mut exp: BTreeMap<(String, String), i128> = BTreeMap::new();
                    for (t, a) in p.toks.iter().zip(&got) {
                        *exp.entry((user.to_string(), t.id.clone())).or_default() += *a as i128;
                        *exp.entry((p.addr.clone(), t.id.clone())).or_default() -= *a as i128;
                    }
                    *exp.entry((user.to_string(), p.lp.clone())).or_default() -= amount as i128;
                    exp.retain(|_, v| *v != 0);
                    self.m.check("P07", "withdraw-ledger", d == exp, || format!("withdraw changed {d:?}, expected {exp:?}"));
                    self.m.check("P07", "lp-burnt", s0.lp - s1.lp == amount, || format!("supply {} -> {} for burn of {amount}", s0.lp, s1.lp));
                    let mut ok_hi = true;
                    let mut ok_lo = true;
                    for i in 0..got.len() {
                        // never more than the proportional share of the *burnt* LP
                        ok_hi &= u512(got[i]) * u512(s0.lp) <= u512(s0.bal[i]) * u512(amount);
                        ok_lo &= got[i] + tol[i] >= want[i];
                    }
                    self.m.check("P07", &format!("not-more-than-share-{:?}", p.kind), ok_hi, || format!("withdrew {got:?} for {amount}/{} of {:?}", s0.lp, s0.bal));
                    self.m.check("P07", &format!("not-less-than-share-{:?}", p.kind), ok_lo, || format!("withdrew {got:?}, fair {want:?} (tol {tol:?})"));
                    if let Some(mn) = &min {
                        self.m.seen("P07", ("min-assets", p.kind));
                        self.m.check("P07", &format!("min-assets-{:?}", p.kind), got.iter().zip(mn).all(|(g, m)| g >= m), || format!("withdrew {got:?} below the requested minimum {mn:?}"));
                    }
                    match &sim {
                        Ok(v) => {
                            let v: Vec<u128> = v.iter().map(|a| a.amount.u128()).collect();
                            self.m.check("P09", "withdraw-sim", v == got, || format!("SimulateWithdraw {v:?} vs {got:?}"));
                        }
                        Err(e) => {
                            self.m.check("P09", "withdraw-sim-err", false, || format!("SimulateWithdraw failed: {e}"));
                        }
                    }
                    if let Ok(v) = &share {
                        let v: Vec<u128> = v.iter().map(|a| a.amount.u128()).collect();
                        self.m.check("P09", "share-query", v == got, || format!("Share {v:?} vs {got:?}"));
                    }
                    self.m.seen("P07", (p.kind, mag(amount), got.iter().map(|g| mag(*g)).collect::<Vec<_>>(), s1.lp == 1000));
                }
                self.after(pi, &s0, &s1, "withdraw");
                Ok(got)
            }
        }
    }
    // ------------------------------------------------------------------ swap
    pub fn op_swap(&mut self, pi: usize, user: &str, i: usize, j: usize, amount: u128, o: &Sw) -> Result<u128, String> {
        let p = self.pool(pi);
        let s0 = self.st(pi);
        let l0 = self.w.ledger();
        let sim = self.w.simulate(&p, i, j, amount);
        let res = self.w.swap(user, &p, i, j, amount, o);
        self.m.step(|| {
            format!(
                "swap {user} {:?} {} {}->{} amount={amount} pool={:?} belief={:?} max_spread={:?} to={:?} => {}",
                p.kind,
                p.addr,
                p.toks[i].id,
                p.toks[j].id,
                s0.bal,
                o.belief.map(|b| b.to_string()),
                o.max_spread.map(|b| b.to_string()),
                o.to,
                short(&res)
            )
        });
        self.m.count(if res.is_ok() { "swap_ok" } else { "swap_rejected" });
        match res {
            Err(e) => {
                if let Ok(sm) = &sim {
                    // the simulation promises an output: only the trader's own limits may stop the execution
                    let limits = spread_verdict(&p, o, amount, sm.return_amount.u128(), sm.commission_amount.u128(), sm.spread_amount.u128());
                    let excuse = limits != Verdict::MustPass
                        || sm.return_amount.is_zero()
                        || p.kind == Kind::Trans
                        || (p.kind == Kind::Pcl && e.contains("XCP"))
                        || !self.healthy(&p, &s0)
                        || extreme(&s0, &[]);
                    self.m.check("P09", &format!("swap-sim-ok-exec-failed-{:?}", p.kind), excuse, || format!("simulation returned {sm:?} but execution failed: {e}"));
                    if !sm.return_amount.is_zero() && p.kind != Kind::Trans && !extreme(&s0, &[]) && self.healthy(&p, &s0) && !e.contains("XCP") {
                        self.m.check("P08", &format!("rejected-within-limits-{:?}", p.kind), limits != Verdict::MustPass, || {
                            format!("swap rejected ({e}) although simulated outcome {sm:?} is inside the limits belief={:?} max={:?}", o.belief, o.max_spread)
                        });
                        self.m.seen("P08", ("rejected", p.kind, o.belief.is_some(), o.max_spread.is_some(), mag(amount)));
                    }
                }
                self.m.check("P01", "refusal-changes-nothing", diff(&l0, &self.w.ledger()).is_empty(), || "failed swap moved funds".into());
                Err(e)
            }
            Ok(tx) => {
                let l1 = self.w.ledger();
                let s1 = self.st(pi);
                let d = diff(&l0, &l1);
                let a = |k: &str| tx.attr_u128(&p.addr, k).unwrap_or(0);
                let (ret, com, mk, shr, spread) =
                    (a("return_amount"), a("commission_amount"), a("maker_fee_amount"), a("fee_share_amount"), a("spread_amount"));
                let recv = o.to.clone().unwrap_or(user.to_string());
                let (off, ask) = (p.toks[i].id.clone(), p.toks[j].id.clone());
                let tax = self.sh[pi].tax.get(&off).map(|(r, rec)| (mul_div(amount, dec(*r), E18), rec.clone()));
                // P01: exact flows
                let mut exp: BTreeMap<(String, String), i128> = BTreeMap::new();
                {
                    let mut add = |who: &str, t: &str, v: i128| *exp.entry((who.to_string(), t.to_string())).or_default() += v;
                    add(user, &off, -(amount as i128));
                    add(&p.addr, &off, amount as i128);
                    if let Some((t, rec)) = &tax {
                        add(&p.addr, &off, -(*t as i128));
                        add(rec, &off, *t as i128);
                    }
                    add(&recv, &ask, ret as i128);
                    if p.kind != Kind::Trans {
                        if self.w.maker_on {
                            add(MAKER, &ask, mk as i128);
                        }
                        if let Some((_, rec)) = &self.sh[pi].fee_share {
                            add(rec, &ask, shr as i128);
                        }
                    }
                    let out = ret as i128
                        + if self.w.maker_on && p.kind != Kind::Trans { mk as i128 } else { 0 }
                        + if self.sh[pi].fee_share.is_some() { shr as i128 } else { 0 };
                    add(&p.addr, &ask, -out);
                }
                exp.retain(|_, v| *v != 0);
                self.m.check("P01", &format!("swap-ledger-{:?}", p.kind), d == exp, || format!("swap changed balances by {d:?}, expected {exp:?}"));
                let lpok = s0.lp == s1.lp;
                self.m.check("P01", "swap-lp-supply", lpok, || format!("LP supply changed in a swap {} -> {}", s0.lp, s1.lp));
                self.m.check("P01", "swap-output", ret > 0 || p.kind != Kind::Pcl, || "zero output".into());
                self.m.seen("P01", (p.kind, mag(amount), mag(ret), self.sh[pi].fee_share.is_some(), mk > 0, tax.is_some(), o.to.is_some()));
                self.m.sample("P01", || format!("{:?} swap {amount} {off} -> {ret} {ask}: ledger {d:?}", p.kind));
                // P09
                match &sim {
                    Ok(sm) => {
                        self.m.check(
                            "P09",
                            &format!("swap-sim-{:?}", p.kind),
                            sm.return_amount.u128() == ret && (p.kind == Kind::Trans || (sm.commission_amount.u128() == com && sm.spread_amount.u128() == spread)),
                            || format!("Simulation {sm:?} vs executed return={ret} spread={spread} commission={com}"),
                        );
                        self.m.seen("P09", ("swap", p.kind, mag(amount), mag(ret)));
                        self.m.sample("P09", || format!("{:?}: sim {sm:?} exec {ret}/{spread}/{com}", p.kind));
                    }
                    Err(e) => {
                        self.m.check("P09", "swap-sim-err", false, || format!("Simulation failed ({e}) but the swap executed"));
                    }
                }
                // P02: fee split
                if p.kind != Kind::Trans && self.m.wants("P02") {
                    let f = self.w.fees[&p.kind];
                    let gross = ret + com;
                    if p.kind == Kind::Pcl {
                        let c = s0.cfg.as_ref().unwrap();
                        // commission is fee(pool state)*gross, fee within [mid, out]; amounts truncated to token units
                        let lo = mul_div(gross.saturating_sub(2), dec(c.mid_fee), E18);
                        let hi = mul_div(gross + 2, dec(c.out_fee), E18) + 1;
                        self.m.check("P02", "pcl-fee-band", com + 1 >= lo && com <= hi, || format!("commission {com} of gross {gross} outside [{lo},{hi}]"));
                        let sb = self.sh[pi].fee_share.as_ref().map(|x| x.0).unwrap_or(0) as u128;
                        let (s_lo, s_hi) = (com * sb / 10_000, (com + 1) * sb / 10_000);
                        self.m.check("P02", "pcl-share", shr >= s_lo && shr <= s_hi, || format!("fee share {shr} of commission {com} at {sb} bps"));
                        let mb = if self.w.maker_on { f.maker as u128 } else { 0 };
                        let m_lo = com.saturating_sub(shr + 1) * mb / 10_000;
                        let m_hi = (com + 1 - shr.min(com + 1)) * mb / 10_000;
                        self.m.check("P02", "pcl-maker", mk >= m_lo && mk <= m_hi, || format!("maker fee {mk} not in [{m_lo},{m_hi}] (commission {com}, share {shr}, rate {mb} bps)"));
                    } else {
                        let ec = mul_div(gross, f.total as u128, 10_000);
                        self.m.check("P02", "commission", com == ec, || format!("commission {com}, expected {ec} = {} bps of gross {gross}", f.total));
                        let es = self.sh[pi].fee_share.as_ref().map(|x| mul_div(com, x.0 as u128, 10_000)).unwrap_or(0);
                        self.m.check("P02", "fee-share", shr == es, || format!("fee share {shr}, expected {es}"));
                        let em = if self.w.maker_on { mul_div(com - es.min(com), f.maker as u128, 10_000) } else { 0 };
                        self.m.check("P02", "maker-fee", mk == em, || format!("maker fee {mk}, expected {em}"));
                    }
                    self.m.check("P02", "fee-parts", mk + shr <= com, || format!("maker {mk} + share {shr} > commission {com}"));
                    self.m.seen("P02", (p.kind, f.total, f.maker, self.sh[pi].fee_share.as_ref().map(|x| x.0), self.w.maker_on, mag(com)));
                    self.m.sample("P02", || format!("{:?} gross {gross} commission {com} share {shr} maker {mk} ({f:?})", p.kind));
                }
                // P08
                if p.kind != Kind::Trans {
                    let offered = amount - tax.as_ref().map(|t| t.0).unwrap_or(0);
                    let v = spread_verdict(&p, o, offered, ret, com, spread);
                    self.m.check("P08", &format!("accepted-outside-limits-{:?}", p.kind), v != Verdict::MustFail, || {
                        format!("swap of {offered} executed with return={ret} commission={com} spread={spread} outside belief={:?} max={:?}", o.belief, o.max_spread)
                    });
                    self.m.seen("P08", ("accepted", p.kind, o.belief.is_some(), o.max_spread.is_some(), mag(amount)));
                }
                // P11
                if p.kind == Kind::Tax {
                    let t = tax.as_ref().map(|t| t.0).unwrap_or(0);
                    let at = a("sale_tax");
                    self.m.check("P11", "tax-amount", at == t, || format!("sale tax {at}, expected {t} on {amount}"));
                    if let Some((t, rec)) = &tax {
                        let got = d.get(&(rec.clone(), off.clone())).copied().unwrap_or(0);
                        let due = exp.get(&(rec.clone(), off.clone())).copied().unwrap_or(0);
                        self.m.check("P11", "tax-received", got == due, || format!("balance of the tax recipient changed by {got}, expected {due} (tax {t})"));
                    }
                    let g = xyk_gross(s0.bal[i], s0.bal[j], amount - t);
                    self.m.check("P11", "taxed-swap-output", g == ret + com, || format!("gross output {} for post-tax offer {}, expected {g}", ret + com, amount - t));
                    self.m.seen("P11", (mag(t), mag(amount), tax.is_some(), i));
                    self.m.sample("P11", || format!("swap {amount} {off}: tax {t}, out {ret}"));
                }
                self.mon_swap_curve(&p, pi, &s0, &s1, i, j, amount - tax.as_ref().map(|t| t.0).unwrap_or(0), ret, com, spread);
                self.after(pi, &s0, &s1, "swap");
                Ok(ret)
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn mon_swap_curve(&mut self, p: &Pool, pi: usize, s0: &St, s1: &St, i: usize, j: usize, dx: u128, ret: u128, com: u128, spread: u128) {
        let gross = ret + com;
        match p.kind {
            Kind::Xyk | Kind::Tax => {
                if self.m.wants("P03") {
                    let g = xyk_gross(s0.bal[i], s0.bal[j], dx);
                    self.m.check("P03", "gross-output", g == gross, || format!("output before fee {gross}, constant product gives {g} (pool {:?}, offer {dx})", s0.bal));
                    let exact = to128(u512(s0.bal[j]) * u512(dx) / (u512(s0.bal[i]) + u512(dx))).unwrap();
                    self.m.check("P03", "gross-exact", gross <= exact + 1, || format!("gross {gross} > exact {exact}"));
                    let ideal = to128(u512(dx) * u512(s0.bal[j]) / u512(s0.bal[i])).unwrap();
                    let sp = ideal.saturating_sub(gross);
                    let tol = 2 + dx / E18;
                    self.m.check("P03", "spread", spread <= sp && spread + tol >= sp, || format!("spread {spread}, expected {sp}"));
                    self.m.seen("P03", (mag(dx), mag(s0.bal[i]), mag(s0.bal[j])));
                    self.m.sample("P03", || format!("pool {:?} offer {dx} -> gross {gross}", s0.bal));
                }
            }
            Kind::Stable => {
                if self.m.wants("P04") && self.healthy(p, s0) {
                    let g = stable_gross(s0.amp, s0.bal[i], p.toks[i].dec, s0.bal[j], p.toks[j].dec, dx);
                    let unit = u512(1_000_000_000_000_000_000_000_000_000 / pow10(p.toks[j].dec));
                    let got = u512(gross) * unit;
                    let err = if got > g { fx_f(got - g) } else { -fx_f(g - got) };
                    let one = 1.0 / 10f64.powi(p.toks[j].dec as i32);
                    let big = tf(s0.bal[0], p.toks[0].dec).max(tf(s0.bal[1], p.toks[1].dec)) + tf(dx, p.toks[i].dec);
                    let tol = one * 1.001 + 2e-6 + 1e-15 * big;
                    self.m.check("P04", "output-matches-curve", err.abs() <= tol, || {
                        format!("gross {} differs from the exact curve by {err} (tolerance {tol}; amp {} pool {:?} offer {dx})", gross, s0.amp, s0.bal)
                    });
                    self.m.seen("P04", ("swap", s0.amp.ilog2(), mag(dx), mag(s0.bal[i]), mag(s0.bal[j])));
                    self.m.sample("P04", || format!("amp {} pool {:?} offer {dx} -> {gross}, exact curve {} (error {err:e})", s0.amp, s0.bal, fx_f(g)));
                    let off_in_ask = if p.toks[j].dec >= p.toks[i].dec { dx * pow10(p.toks[j].dec - p.toks[i].dec) } else { dx / pow10(p.toks[i].dec - p.toks[j].dec) };
                    let sp = off_in_ask.saturating_sub(gross);
                    self.m.check("P04", "spread", spread == sp, || format!("spread {spread}, expected {sp}"));
                }
            }
            Kind::Pcl => {
                if self.m.wants("P05") && self.healthy(p, s0) {
                    let c = s0.cfg.as_ref().unwrap();
                    let ps = df(c.price_scale);
                    let (a, g) = (df(c.amp), df(c.gamma));
                    let x = [tf(s0.bal[0], p.toks[0].dec), tf(s0.bal[1], p.toks[1].dec) * ps];
                    let d = pcl_d(x[0], x[1], a, g);
                    let sc = if j == 1 { ps } else { 1.0 };
                    let so = if i == 1 { ps } else { 1.0 };
                    let ny = pcl_y(x[i] + tf(dx, p.toks[i].dec) * so, d, a, g);
                    let e = (x[j] - ny) / sc;
                    let got = tf(gross, p.toks[j].dec);
                    // Newton tolerance 1e-5 in internal units, plus float noise of this model
                    let tol = 2e-5 / sc + 1e-9 * x[j] / sc + 2.0 / 10f64.powi(p.toks[j].dec as i32);
                    self.m.check("P05", "output-matches-curve", (got - e).abs() <= tol, || {
                        format!("gross output {got}, curve gives {e} (tolerance {tol}); pool {:?} price_scale {ps} amp {a} gamma {g} offer {dx}", s0.bal)
                    });
                    // the fee rate follows the pool composition after the swap
                    let n = if j == 0 { [ny, x[1] + tf(dx, p.toks[1].dec) * ps] } else { [x[0] + tf(dx, p.toks[0].dec), ny] };
                    let fg = df(c.fee_gamma);
                    let k0 = 4.0 * n[0] * n[1] / ((n[0] + n[1]) * (n[0] + n[1]));
                    let k = fg / (fg + 1.0 - k0);
                    let rate = if k <= 0.001 { df(c.out_fee) } else { k * df(c.mid_fee) + (1.0 - k) * df(c.out_fee) };
                    let slack = 3.0 / 10f64.powi(p.toks[j].dec as i32) + got * 1e-6 * (df(c.out_fee) - df(c.mid_fee)).max(1e-4) + if (k - 0.001).abs() < 1e-5 { got * 1e-5 } else { 0.0 } + tol * 0.02;
                    let ecom = got * rate;
                    let gcom = tf(com, p.toks[j].dec);
                    self.m.check("P05", "dynamic-fee", (gcom - ecom).abs() <= slack, || format!("commission {gcom}, expected {ecom} (rate {rate}, slack {slack})"));
                    self.m.seen("P05", ("swap", mag(dx), a.log2() as i32, g.log10() as i32, ps.log2() as i32));
                    self.m.sample("P05", || format!("pool {:?} scale {ps} offer {dx} -> {got} curve {e}", s0.bal));
                    let _ = (pi, s1, spread);
                }
            }
            Kind::Trans => {}
        }
    }
    // ------------------------------------------------------------------ common post-conditions
    fn after(&mut self, pi: usize, s0: &St, s1: &St, what: &'static str) {
        let p = self.pool(pi);
        let now_h = self.w.c.height();
        if p.tracker {
            let h = &mut self.sh[pi].hist;
            match h.last_mut() {
                Some(l) if l.0 == now_h => l.1 = s1.bal.clone(),
                _ => h.push((now_h, s1.bal.clone())),
            }
        }
        if p.kind == Kind::Trans {
            return;
        }
        // LP never falls below the permanently locked minimum, and the pool itself holds it
        if self.sh[pi].live || what == "provide" {
            let held = self.w.c.bal(&p.addr, &p.lp);
            self.m.check("P06", "min-liquidity-locked", s1.lp >= 1000 && held >= 1000, || format!("LP supply {} held by pool {held}", s1.lp));
        }
        // pool query tells the truth
        if self.m.wants("P09") {
            let pr: ap::PoolResponse = self.w.c.query(&p.addr, &ap::QueryMsg::Pool {}).expect("pool query");
            let q: Vec<u128> = pr.assets.iter().map(|a| a.amount.u128()).collect();
            self.m.check("P09", "pool-query", q == s1.bal && pr.total_share.u128() == s1.lp, || format!("Pool {{}} says {q:?}/{}, actual {:?}/{}", pr.total_share, s1.bal, s1.lp));
        }
        if s0.lp == 0 || s1.lp == 0 {
            return;
        }
        match p.kind {
            Kind::Xyk | Kind::Tax => {
                if self.m.wants("P03") {
                    // x*y/LP^2 never decreases
                    let k0 = u512(s0.bal[0]) * u512(s0.bal[1]);
                    let k1 = u512(s1.bal[0]) * u512(s1.bal[1]);
                    // the contract's division keeps 18 decimals: at most (x+dx)*1e-18 can be lost per swap
                    let slack = if what == "swap" { u512(s1.bal[0].max(s1.bal[1])) / u512(E18) + u512(1) } else { u512(0) };
                    let ok = big_le(k0, s1.lp, k1 + slack, s0.lp);
                    self.m.check("P03", &format!("k-per-lp-{what}"), ok, || {
                        format!("{what}: x*y/LP^2 fell: pool {:?}/{} -> {:?}/{}", s0.bal, s0.lp, s1.bal, s1.lp)
                    });
                    self.m.seen("P03", (what, mag(s1.lp)));
                }
            }
            Kind::Stable if self.m.wants("P09") => {
                // the curve invariant the pool reports
                if s1.lp > 0 && self.healthy(&p, s1) && !extreme(s1, &[]) {
                    let got: Result<Uint128, String> = self.w.c.query(&p.addr, &ap::QueryMsg::QueryComputeD {});
                    let d = fx_f(stable_d(s1.amp, fx(s1.bal[0], p.toks[0].dec), fx(s1.bal[1], p.toks[1].dec)));
                    let gp = p.toks.iter().map(|t| t.dec).max().unwrap();
                    let tol = 3e-6 + 1e-11 * d + 2.0 / 10f64.powi(gp as i32);
                    let ok = got.as_ref().map_or(false, |g| (tf(g.u128(), gp) - d).abs() <= tol);
                    self.m.check("P09", "stable-compute-d", ok, || format!("QueryComputeD {got:?} ({gp} decimals), the reserves {:?} at amplification {} give {d}", s1.bal, s1.amp));
                    self.m.seen("P09", ("d", p.kind, mag(s1.bal[0])));
                }
            }
            Kind::Pcl if self.m.wants("P09") => {
                if s1.lp > 0 && self.healthy(&p, s1) {
                    let got: Result<Decimal256, String> = self.w.c.query(&p.addr, &apc::QueryMsg::ComputeD {});
                    let c = s1.cfg.as_ref().unwrap();
                    let d = pcl_d(tf(s1.bal[0], p.toks[0].dec), tf(s1.bal[1], p.toks[1].dec) * df(c.price_scale), df(c.amp), df(c.gamma));
                    let tol = 2e-4 + 1e-9 * d;
                    let ok = got.as_ref().map_or(false, |g| (g.to_string().parse::<f64>().unwrap() - d).abs() <= tol);
                    self.m.check("P09", "pcl-compute-d", ok, || format!("ComputeD {got:?}, the reserves {:?} give {d}", s1.bal));
                    self.m.seen("P09", ("d", p.kind, mag(s1.bal[0])));
                }
            }
            Kind::Stable => {
                if self.m.wants("P04") && s0.amp == s1.amp && self.healthy(&p, s0) && self.healthy(&p, s1) {
                    let d0 = stable_d(s0.amp, fx(s0.bal[0], p.toks[0].dec), fx(s0.bal[1], p.toks[1].dec));
                    let d1 = stable_d(s1.amp, fx(s1.bal[0], p.toks[0].dec), fx(s1.bal[1], p.toks[1].dec));
                    // loss in D (whole tokens) compared to constant D/LP
                    let need = fx_f(d0) * (s1.lp as f64 / s0.lp as f64);
                    let loss = need - fx_f(d1);
                    // one unit of the ask token, valued at the marginal price of the curve, + Newton tolerance
                    let unit = 1.0 / 10f64.powi(p.toks.iter().map(|t| t.dec).min().unwrap() as i32);
                    let mp = marginal(s1.amp, &p, s1).max(1.0);
                    let gp = p.toks.iter().map(|t| t.dec).max().unwrap();
                    let tol = (2.0 * unit + 2e-6) * mp + 1e-13 * need + if what == "provide" { 3e-6 * (1.0 + fx_f(d0) / tf(s0.lp, gp)) } else { 0.0 };
                    self.m.check("P04", &format!("d-per-lp-{what}"), loss <= tol, || {
                        format!("{what}: D/LP fell by {loss} (tolerance {tol}): pool {:?}/{} -> {:?}/{} amp {}", s0.bal, s0.lp, s1.bal, s1.lp, s0.amp)
                    });
                    self.m.seen("P04", (what, mag(s1.lp), s0.amp.ilog2()));
                }
            }
            Kind::Pcl => {
                if self.m.wants("P05") && self.healthy(&p, s0) && self.healthy(&p, s1) {
                    let (c0, c1) = (s0.cfg.as_ref().unwrap(), s1.cfg.as_ref().unwrap());
                    if c0.amp == c1.amp && c0.gamma == c1.gamma {
                        // evaluate both states at the price scale before the operation: repegging is judged separately
                        let mut s1b = s1.clone();
                        s1b.cfg = s0.cfg.clone();
                        let v0 = self.inv(&p, s0) / s0.lp as f64;
                        let v1 = self.inv(&p, &s1b) / s1.lp as f64;
                        let tol = 1e-9 + 4e-5 / (self.inv(&p, s0).min(self.inv(&p, &s1b))) + 3.0 / s1.lp.min(s0.lp) as f64;
                        self.m.check("P05", &format!("xcp-per-lp-{what}"), v1 >= v0 * (1.0 - tol), || {
                            format!("{what}: value per LP at constant scale fell {v0} -> {v1} (rel tol {tol}); pool {:?}/{} -> {:?}/{}", s0.bal, s0.lp, s1.bal, s1.lp)
                        });
                        self.m.seen("P05", (what, mag(s1.lp)));
                    }
                }
            }
            _ => {}
        }
    }
}
fn marginal(amp: u64, p: &Pool, s: &St) -> f64 {
    // |dD/dx| by finite difference, larger of the two sides
    let x = fx(s.bal[0], p.toks[0].dec);
    let y = fx(s.bal[1], p.toks[1].dec);
    let d = stable_d(amp, x, y);
    let h = u512(1_000_000_000_000);
    let hx = x / h + u512(1);
    let hy = y / h + u512(1);
    let a = fx_f(stable_d(amp, x + hx, y) - d) / fx_f(hx);
    let b = fx_f(stable_d(amp, x, y + hy) - d) / fx_f(hy);
    a.max(b)
}
/// k0 * lp1^2 <= k1 * lp0^2 with k < 2^256, lp < 2^128
fn big_le(k0: cosmwasm_std::Uint512, lp1: u128, k1: cosmwasm_std::Uint512, lp0: u128) -> bool {
    u512(lp1) * u512(lp1) * k0 <= u512(lp0) * u512(lp0) * k1
}
/// Reserve ratios beyond which the 128-bit time-price accumulators of a pool overflow.
pub fn extreme(s: &St, amts: &[u128]) -> bool {
    let mx = s.bal.iter().chain(amts).max().copied().unwrap_or(0);
    let mn = s.bal.iter().min().copied().unwrap_or(0);
    mx / mn.max(1) > 1_000_000_000_000_000 || (s.lp > 0 && mn < 10)
}
pub fn df(d: Decimal) -> f64 {
    dec(d) as f64 / 1e18
}
pub fn mag(x: u128) -> u32 {
    if x == 0 {
        0
    } else {
        1 + x.ilog10()
    }
}
pub fn short<T>(r: &Result<T, String>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("ERR {e}"),
    }
}
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Verdict {
    MustPass,
    MustFail,
    Border,
}
/// What the caller's limits (belief price / max spread) say about an outcome.  Exact integers; `Border` covers
/// the one-unit / 1e-18 rounding zone around equality.
pub fn spread_verdict(p: &Pool, o: &Sw, offer: u128, ret: u128, com: u128, spread: u128) -> Verdict {
    let default = if p.kind == Kind::Pcl { E18 / 20 } else { E18 / 200 };
    let max = o.max_spread.map(dec).unwrap_or(default);
    if max > E18 / 2 {
        return Verdict::MustFail;
    }
    // XYK and stable pools compare the output before the commission, PCL the net output
    let got = if p.kind == Kind::Pcl { ret } else { ret + com };
    match o.belief {
        Some(b) => {
            if dec(b) == 0 {
                return Verdict::MustFail;
            }
            // expected = offer / belief
            let e = u512(offer) * u512(E18) / u512(dec(b));
            let e = match to128(e) {
                Some(e) => e,
                None => return Verdict::Border,
            };
            if got >= e {
                // rounding of 1/belief can only lower the expectation
                return Verdict::MustPass;
            }
            // inv() keeps 18 decimals: expectation may be lower by offer*1e-18+1
            let slack = offer / E18 + 2;
            let fail = |e: u128| e > got && u512(e - got) * u512(E18) > u512(e) * u512(max + 1);
            let lo = e.saturating_sub(slack);
            match (fail(e), fail(lo)) {
                (true, true) => Verdict::MustFail,
                (false, false) => {
                    // e itself is the largest possible expectation
                    Verdict::MustPass
                }
                _ => Verdict::Border,
            }
        }
        None => {
            if got + spread == 0 {
                return Verdict::Border;
            }
            let l = u512(spread) * u512(E18);
            let t = u512(got + spread);
            if l > t * u512(max + 1) {
                Verdict::MustFail
            } else if l <= t * u512(max) {
                Verdict::MustPass
            } else {
                Verdict::Border
            }
        }
    }
}
