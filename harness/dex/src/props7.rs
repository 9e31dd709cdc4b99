//! P01/P06/P07: requests that must not work. The caller pays less or more than he says, names tokens the pool does not
//! trade, pretends to be a token contract, redeems something that is not the pool's LP token, or asks for minimums of the
//! wrong tokens. Each must be refused and leave every balance as it was; ordinary requests in between keep working.
use crate::eng::*;
use crate::props::step;
use astroport::pair as ap;
use cosmwasm_std::{coin, to_json_binary, Coin};
use serde_json::json;
use world::*;

fn ast(t: &Tok, a: u128) -> Asset {
    Asset { info: t.info.clone(), amount: Uint128::new(a) }
}
fn nat(t: &Tok) -> bool {
    t.info.is_native_token()
}
struct Try<'a, 'b> {
    d: &'a mut Dx<'b>,
    pi: usize,
}
impl Try<'_, '_> {
    fn refuse(&mut self, prop: &str, what: &str, args: String, run: impl FnOnce(&World) -> Result<Tx, String>) {
        let p = self.d.pool(self.pi);
        let l0 = self.d.w.ledger();
        let r = run(&self.d.w);
        let moved = diff(&l0, &self.d.w.ledger());
        self.d.m.step(|| format!("{what} on {:?} {args} => {}", p.kind, short(&r)));
        self.d.m.count(if r.is_ok() { "bad_request_accepted" } else { "bad_request_refused" });
        self.d.m.check(prop, &format!("accepted-{what}-{:?}", p.kind), r.is_err(), || format!("{what} {args} was accepted and moved {moved:?}"));
        self.d.m.check(prop, "refusal-moves-funds", r.is_ok() || moved.is_empty(), || format!("{what} {args} was refused but moved {moved:?}"));
        self.d.m.seen(prop, ("bad", what.to_string(), p.kind, p.toks.iter().map(nat).collect::<Vec<_>>()));
        self.d.m.sample(prop, || format!("{what} on {:?} {args} => {}", p.kind, short(&r)));
    }
    fn foreign(&mut self, native: Option<bool>) -> Tok {
        let p = self.d.pool(self.pi);
        loop {
            let t = self.d.r.pick(&self.d.w.toks).clone();
            if !p.toks.iter().any(|x| x.id == t.id) && native.map_or(true, |n| n == nat(&t)) {
                return t;
            }
        }
    }
    fn swap(&mut self) {
        let p = self.d.pool(self.pi);
        let user = self.d.user();
        let i = self.d.r.idx(2);
        let (t, o) = (p.toks[i].clone(), p.toks[1 - i].clone());
        let a = (self.d.w.pool_bal(&p, i) / self.d.r.range128(20, 100_000)).max(2);
        let msg = |offer: Asset, ask: Option<AssetInfo>| ap::ExecuteMsg::Swap {
            offer_asset: offer,
            ask_asset_info: ask,
            belief_price: None,
            max_spread: Some(Decimal::percent(50)),
            to: None,
        };
        let hook = |ask: Option<AssetInfo>| {
            to_json_binary(&ap::Cw20HookMsg::Swap { ask_asset_info: ask, belief_price: None, max_spread: Some(Decimal::percent(50)), to: None }).unwrap()
        };
        match self.d.r.idx(9) {
            // pays something else than stated
            0 | 1 => {
                let (what, paid): (&str, Vec<Coin>) = if nat(&t) {
                    match self.d.r.idx(5) {
                        0 => ("swap-unpaid", vec![]),
                        1 => ("swap-underpaid", vec![coin(a - 1, &t.id)]),
                        2 => ("swap-underpaid", vec![coin(self.d.r.range128(1, a - 1), &t.id)]),
                        3 => ("swap-overpaid", vec![coin(a + self.d.r.range128(1, a), &t.id)]),
                        _ => {
                            let f = if nat(&o) && self.d.r.chance(1, 2) { o.clone() } else { self.foreign(Some(true)) };
                            ("swap-paid-in-another-coin", vec![coin(a, &f.id)])
                        }
                    }
                } else {
                    // a cw20 token offered without sending it
                    let f = self.foreign(Some(true));
                    if self.d.r.chance(1, 2) { ("swap-cw20-unpaid", vec![]) } else { ("swap-cw20-paid-in-coins", vec![coin(a, &f.id)]) }
                };
                self.refuse("P01", what, format!("offer {a} {} paid {paid:?}", t.id), |w| w.c.exec(&user, &p.addr, &msg(ast(&t, a), None), &paid));
            }
            2 | 3 => {
                let f = self.foreign(None);
                let ask = if self.d.r.chance(1, 2) { Some(o.info.clone()) } else { None };
                self.refuse("P01", "swap-foreign-offer", format!("offer {a} {} ask {ask:?}", f.id), |w| {
                    if nat(&f) {
                        w.c.exec(&user, &p.addr, &msg(ast(&f, a), ask), &[coin(a, &f.id)])
                    } else {
                        w.c.exec(&user, &f.id, &json!({"send": {"contract": p.addr, "amount": a.to_string(), "msg": hook(ask)}}), &[])
                    }
                });
            }
            // pretends to be the token contract
            4 | 5 => {
                let (who, what) = if self.d.r.chance(1, 2) { (user.clone(), "receive-from-user") } else { (self.d.w.owner.clone(), "receive-from-owner") };
                let victim = self.d.user();
                self.refuse("P01", what, format!("as {victim} {a}"), |w| {
                    w.c.exec(&who, &p.addr, &json!({"receive": {"sender": victim, "amount": a.to_string(), "msg": hook(Some(o.info.clone()))}}), &[])
                });
            }
            6 => {
                if !nat(&t) {
                    let junk = [to_json_binary(&json!({"swap": 5})).unwrap(), to_json_binary(&json!({"withdraw_liquidity": {}})).unwrap(), to_json_binary(&json!("x")).unwrap()][self.d.r.idx(3)].clone();
                    self.refuse("P01", "send-with-junk", format!("{a} {}", t.id), |w| {
                        w.c.exec(&user, &t.id, &json!({"send": {"contract": p.addr, "amount": a.to_string(), "msg": junk}}), &[])
                    });
                }
            }
            7 => {
                // more tokens than the user has
                let have = self.d.w.bal(&user, &t);
                self.refuse("P01", "swap-beyond-means", format!("offer {have} + 1 {}", t.id), |w| w.swap(&user, &p, i, 1 - i, have + 1, &Sw::loose()));
            }
            _ => {
                // questions about tokens the pool does not trade
                let f = self.foreign(None);
                let q: Result<ap::SimulationResponse, String> = self.d.w.c.query(&p.addr, &ap::QueryMsg::Simulation { offer_asset: ast(&f, a), ask_asset_info: None });
                let r: Result<ap::ReverseSimulationResponse, String> =
                    self.d.w.c.query(&p.addr, &ap::QueryMsg::ReverseSimulation { offer_asset_info: None, ask_asset: ast(&f, a) });
                self.d.m.seen("P01", ("foreign-quote", p.kind, nat(&f)));
                self.d.m.check("P01", &format!("foreign-quote-{:?}", p.kind), q.is_err(), || format!("{:?} quotes {a} {}: {q:?}", p.kind, f.id));
                self.d.m.check("P01", &format!("foreign-reverse-quote-{:?}", p.kind), r.is_err(), || format!("{:?} reverse-quotes {a} {}: {r:?}", p.kind, f.id));
            }
        }
    }
    fn provide(&mut self) {
        let p = self.d.pool(self.pi);
        let user = self.d.user();
        let s = self.d.st(self.pi);
        let k = self.d.r.range128(20, 1_000_000);
        let amts: Vec<u128> = s.bal.iter().map(|b| (b / k).max(3)).collect();
        let i = self.d.r.idx(2);
        let mut assets: Vec<Asset> = (0..2).map(|x| ast(&p.toks[x], amts[x])).collect();
        let mut funds: Vec<Coin> = (0..2).filter(|x| nat(&p.toks[*x])).map(|x| coin(amts[x], &p.toks[x].id)).collect();
        let mut allow: Vec<(Tok, u128)> = (0..2).filter(|x| !nat(&p.toks[*x])).map(|x| (p.toks[x].clone(), amts[x])).collect();
        let mut auto = None;
        let what;
        match self.d.r.idx(10) {
            0 | 1 => {
                if nat(&p.toks[i]) {
                    let c = funds.iter_mut().find(|c| c.denom == p.toks[i].id).unwrap();
                    match self.d.r.idx(4) {
                        0 => {
                            c.amount -= Uint128::one();
                            what = "provide-underpaid"
                        }
                        1 => {
                            c.amount = Uint128::new(1);
                            what = "provide-underpaid"
                        }
                        2 => {
                            c.amount += Uint128::new(amts[i]);
                            what = "provide-overpaid"
                        }
                        _ => {
                            funds.retain(|c| c.denom != p.toks[i].id);
                            what = "provide-unpaid"
                        }
                    }
                } else {
                    let x = allow.iter_mut().find(|x| x.0.id == p.toks[i].id).unwrap();
                    x.1 = if self.d.r.chance(1, 2) { 0 } else { x.1 - 1 };
                    what = "provide-unallowed";
                }
            }
            2 => {
                let f = self.foreign(None);
                assets[i] = ast(&f, amts[i]);
                funds.retain(|c| c.denom != p.toks[i].id);
                allow.retain(|c| c.0.id != p.toks[i].id);
                if nat(&f) {
                    funds.push(coin(amts[i], &f.id))
                } else {
                    allow.push((f, amts[i]))
                }
                what = "provide-foreign";
            }
            3 => {
                let f = self.foreign(None);
                assets.push(ast(&f, 1 + self.d.r.below(1000) as u128));
                if nat(&f) {
                    funds.push(coin(assets[2].amount.u128(), &f.id))
                } else {
                    allow.push((f, assets[2].amount.u128()))
                }
                what = "provide-third-token";
            }
            4 => {
                // the same token twice
                assets[1 - i] = assets[i].clone();
                let t = &p.toks[i];
                funds.retain(|c| c.denom == t.id);
                allow.retain(|c| c.0.id == t.id);
                if self.d.r.chance(1, 2) {
                    for c in funds.iter_mut() {
                        c.amount += c.amount
                    }
                    for c in allow.iter_mut() {
                        c.1 *= 2
                    }
                }
                what = "provide-twice-the-same";
            }
            5 => {
                // a coin nobody asked for would be lost
                let f = self.foreign(Some(true));
                funds.push(coin(1 + self.d.r.below(1000) as u128, &f.id));
                what = "provide-with-stray-coin";
            }
            9 if nat(&p.toks[i]) => {
                // pays for both, but lists one only
                assets.remove(i);
                what = "provide-unlisted-coin";
            }
            6 | 9 => {
                auto = Some(true);
                what = "provide-stake-without-generator";
            }
            7 => {
                for x in 0..2 {
                    assets[x].amount = Uint128::zero();
                }
                funds.clear();
                allow.clear();
                what = "provide-nothing";
            }
            _ => {
                assets.clear();
                if self.d.r.chance(1, 2) {
                    funds.clear();
                }
                what = "provide-without-list";
            }
        }
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        for (t, a) in &allow {
            if *a > 0 {
                sim::cw20c::allow_cw20(&self.d.w.c, &t.id, &user, &p.addr, *a);
            }
        }
        let args = format!("{assets:?} paid {funds:?} allowed {:?}", allow.iter().map(|x| (x.0.id.clone(), x.1)).collect::<Vec<_>>());
        self.refuse("P06", what, args, |w| {
            w.c.exec(
                &user,
                &p.addr,
                &ap::ExecuteMsg::ProvideLiquidity { assets, slippage_tolerance: Some(Decimal::percent(50)), auto_stake: auto, receiver: None, min_lp_to_receive: None },
                &funds,
            )
        });
        for (t, a) in &allow {
            if *a > 0 {
                let _ = self.d.w.c.exec(&user, &t.id, &json!({"decrease_allowance": {"spender": p.addr, "amount": a.to_string()}}), &[]);
            }
        }
    }
    fn withdraw(&mut self) {
        let p = self.d.pool(self.pi);
        let us = self.d.w.users.clone();
        let Some(user) = us.iter().find(|u| self.d.w.c.bal(u, &p.lp) > 1000).cloned() else { return };
        let have = self.d.w.c.bal(&user, &p.lp);
        let a = self.d.r.log(1000, have);
        let s = self.d.st(self.pi);
        let fair: Vec<u128> = s.bal.iter().map(|b| sim::num::mul_div(*b, a, s.lp)).collect();
        let mut assets: Vec<Asset> = vec![];
        let mut min: Option<Vec<Asset>> = None;
        let mut funds = vec![coin(a, &p.lp)];
        let i = self.d.r.idx(2);
        let what;
        match self.d.r.idx(7) {
            0 => {
                let f = self.foreign(Some(true));
                funds = vec![coin(a, &f.id)];
                what = "withdraw-foreign-coin";
            }
            1 => {
                let Some(t) = p.toks.iter().find(|t| nat(t)) else { return };
                funds = vec![coin(a, &t.id)];
                what = "withdraw-pool-coin";
            }
            2 => {
                let others: Vec<String> = self.d.w.pools.iter().filter(|x| x.lp != p.lp).map(|x| x.lp.clone()).collect();
                let Some(o) = others.iter().find(|l| self.d.w.c.bal(&user, l) > 0) else { return };
                funds = vec![coin(self.d.w.c.bal(&user, o).min(a), o)];
                what = "withdraw-other-lp";
            }
            3 => {
                if self.d.r.chance(1, 2) {
                    funds.clear()
                } else {
                    let f = self.foreign(Some(true));
                    funds.push(coin(1, &f.id));
                    funds.sort_by(|a, b| a.denom.cmp(&b.denom));
                }
                what = "withdraw-not-one-coin";
            }
            4 => {
                assets = vec![ast(&p.toks[i], fair[i] / 2 + 1)];
                what = "withdraw-one-sided";
            }
            5 => {
                // a minimum of something the pool never pays
                let f = self.foreign(None);
                let x = 1 + self.d.r.below(1000) as u128;
                let mut v = vec![ast(&p.toks[i], 0), ast(&f, x)];
                if self.d.r.chance(1, 2) {
                    v.reverse()
                }
                min = Some(v);
                what = "withdraw-foreign-minimum";
            }
            _ => {
                // one minimum out of reach, the other met, in either order
                let over = fair[i].saturating_add(2 + s.bal[i] / sim::num::E18).saturating_add(if self.d.r.chance(1, 2) { 0 } else { fair[i] / 3 });
                let mut v = vec![ast(&p.toks[i], over), ast(&p.toks[1 - i], if self.d.r.chance(1, 2) { 0 } else { fair[1 - i] / 2 })];
                if self.d.r.chance(1, 2) {
                    v.reverse()
                }
                min = Some(v);
                what = "withdraw-minimum-missed";
            }
        }
        let args = format!("worth {fair:?} paid {funds:?} assets {assets:?} min {min:?}");
        self.refuse("P07", what, args, |w| w.c.exec(&user, &p.addr, &ap::ExecuteMsg::WithdrawLiquidity { assets, min_assets_to_receive: min }, &funds));
        // the same two minimums, both met, work in either order
        let slack: Vec<u128> = s.bal.iter().map(|b| 3 + b / sim::num::E18).collect();
        if (0..2).all(|x| fair[x] > 100 + 2 * slack[x] && fair[x] < s.bal[x] / 2) && !extreme(&s, &[]) {
            let mut v: Vec<Asset> = (0..2).map(|x| ast(&p.toks[x], fair[x] - fair[x] / 50 - slack[x])).collect();
            if self.d.r.chance(2, 3) {
                v.reverse()
            }
            let r = self.d.w.c.dry(|| self.d.w.c.exec(&user, &p.addr, &ap::ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: Some(v.clone()) }, &[coin(a, &p.lp)]).map(|_| ()));
            let plain = self.d.w.c.dry(|| self.d.w.withdraw(&user, &p, a, None).map(|_| ()));
            self.d.m.seen("P07", ("minimum-met", p.kind, v[0].info == p.toks[0].info));
            self.d.m.check("P07", &format!("minimum-met-{:?}", p.kind), r.is_ok() || plain.is_err(), || format!("withdrawal of {a} worth {fair:?} with minimums {v:?} refused: {r:?}"));
        }
    }
}
fn hostile(r: &mut Rng, m: &mut Mon) {
    let mut d = Dx::new(m, r);
    // nobody has set up a generator: staking deposits can not work
    let kind = *d.r.pick(&[Kind::Xyk, Kind::Tax, Kind::Stable, Kind::Pcl]);
    for _ in 0..2 {
        let i = d.add_pool(kind);
        d.tick();
        d.seed(i);
    }
    for _ in 0..45 {
        if d.m.failed() {
            return;
        }
        d.tick();
        let pi = d.r.idx(2);
        let which = d.r.idx(5);
        if which < 2 || d.w.lp_supply(&d.w.pools[pi]) == 0 {
            step(&mut d, pi);
            continue;
        }
        let mut t = Try { d: &mut d, pi };
        match which {
            2 => t.swap(),
            3 => t.provide(),
            _ => t.withdraw(),
        }
    }
}
pub fn profile() -> (&'static str, u64, u64, fn(&mut Rng, &mut Mon)) {
    ("hostile", 800, 16_000, hostile)
}
