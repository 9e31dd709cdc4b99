//! P06: deposits whose LP tokens are staked right away (`auto_stake`) with the real incentives contract.
use crate::eng::*;
use astroport::incentives as ai;
use sim::num::*;
use std::collections::BTreeMap;
use world::*;

struct Stk<'a> {
    d: Dx<'a>,
    inc: String,
    rew: String,
    /// (pool, user) -> stake
    st: BTreeMap<(usize, String), u128>,
    on: bool,
}
const P: &str = "P06";
fn js<T: serde::Serialize>(t: &T) -> serde_json::Value {
    serde_json::to_value(t).unwrap()
}
impl Stk<'_> {
    fn people(&self) -> Vec<String> {
        let mut v = self.d.w.users.clone();
        v.extend((0..3).map(|i| format!("wasm1recv{i}")));
        v
    }
    fn pending(&self, pi: usize, u: &str) -> Result<BTreeMap<String, u128>, String> {
        let v: Vec<Asset> =
            self.d.w.c.query(&self.inc, &ai::QueryMsg::PendingRewards { lp_token: self.d.w.pools[pi].lp.clone(), user: u.into() })?;
        let mut o = BTreeMap::new();
        for a in v {
            *o.entry(a.info.to_string()).or_insert(0) += a.amount.u128();
        }
        Ok(o)
    }
    fn audit(&mut self) {
        let people = self.people();
        for pi in 0..self.d.w.pools.len() {
            let lp = self.d.w.pools[pi].lp.clone();
            let mut total = 0;
            for u in &people {
                let q: Result<Uint128, String> = self.d.w.c.query(&self.inc, &ai::QueryMsg::Deposit { lp_token: lp.clone(), user: u.clone() });
                let e = self.st.get(&(pi, u.clone())).copied().unwrap_or(0);
                total += e;
                self.d.m.check(P, "stake", q == Ok(Uint128::new(e)), || format!("{u} has {q:?} of {lp} staked, {e} expected"));
            }
            let b = self.d.w.c.bal(&self.inc, &lp);
            self.d.m.check(P, "stake-total", b == total, || format!("incentives holds {b} of {lp}, {total} was staked"));
        }
    }
    fn generator(&mut self, on: bool) {
        let g = if on { self.inc.clone() } else { "wasm1nosuchcontract".into() };
        let w = &self.d.w;
        w.c.exec(&w.owner, &w.factory, &serde_json::json!({"update_config": {"generator_address": g}}), &[]).expect("generator");
        self.on = on;
    }
    fn deposit(&mut self) {
        let pi = self.d.r.idx(self.d.w.pools.len());
        let p = self.d.pool(pi);
        let ui = self.d.r.idx(5);
        let user = self.d.w.users[ui].clone();
        let amts = self.d.rand_amounts(pi);
        let mut o = Prov { slippage: if self.d.r.chance(1, 2) { Some(Decimal::percent(50)) } else { None }, reversed: self.d.r.chance(1, 5), ..Default::default() };
        if self.d.r.chance(1, 2) {
            let people = self.people();
            o.receiver = Some(self.d.r.pick(&people).clone());
        }
        let recv = o.receiver.clone().unwrap_or(user.clone());
        if !self.d.r.chance(4, 5) {
            o.auto_stake = if self.d.r.chance(1, 2) { Some(false) } else { None };
            let _ = self.d.op_provide(pi, ui, &amts, &o);
            return;
        }
        // what the same deposit mints when it is not staked
        let plain = {
            let w = &self.d.w;
            w.c.dry(|| w.provide(&user, &p, &amts, &o).map(|_| w.lp_supply(&p)))
        };
        let s0 = self.d.st(pi);
        let lock = if s0.lp == 0 { 1000 } else { 0 };
        let minted = plain.as_ref().ok().map(|s1| s1 - s0.lp - lock);
        if let (Some(x), true) = (minted, self.d.r.chance(1, 3)) {
            o.min_lp = Some(match self.d.r.idx(3) {
                0 => x,
                1 => x + 1,
                _ => x / 2,
            });
        }
        let owed = self.pending(pi, &recv).unwrap_or_default();
        o.auto_stake = Some(true);
        let l0 = self.d.w.ledger();
        let res = self.d.w.provide(&user, &p, &amts, &o);
        let l1 = self.d.w.ledger();
        let got = diff(&l0, &l1);
        let what = format!("staking deposit by {user} for {recv} into {:?} {} amts={amts:?} {o:?}", p.kind, p.addr);
        self.d.m.step(|| format!("{what} => {}", short(&res)));
        self.d.m.count(if res.is_ok() { "staked_ok" } else { "staked_rejected" });
        let must = self.on && minted.is_some() && o.min_lp.map_or(true, |x| x <= minted.unwrap());
        if res.is_err() {
            self.d.m.check(P, "stake-refused", !must, || format!("{what} failed although it works unstaked: {}", short(&res)));
            self.d.m.check(P, "stake-refused-moves", got.is_empty(), || format!("{what} was refused but moved {got:?}"));
            return;
        }
        self.d.m.check(P, "stake-accepted", must, || format!("{what} worked; incentives reachable: {}, unstaked: {}", self.on, short(&plain)));
        let Some(x) = minted else { return };
        let mut exp: BTreeMap<(String, String), i128> = BTreeMap::new();
        for (t, a) in p.toks.iter().zip(&amts) {
            *exp.entry((user.clone(), t.id.clone())).or_default() -= *a as i128;
            *exp.entry((p.addr.clone(), t.id.clone())).or_default() += *a as i128;
        }
        *exp.entry((self.inc.clone(), p.lp.clone())).or_default() += x as i128;
        *exp.entry((p.addr.clone(), p.lp.clone())).or_default() += lock as i128;
        for (t, a) in &owed {
            // a stake settles what its owner has earned so far
            *exp.entry((self.inc.clone(), t.clone())).or_default() -= *a as i128;
            *exp.entry((recv.clone(), t.clone())).or_default() += *a as i128;
        }
        exp.retain(|_, v| *v != 0);
        self.d.m.check(P, "stake-ledger", got == exp, || format!("{what} changed balances by {got:?}, expected {exp:?}"));
        *self.st.entry((pi, recv.clone())).or_default() += x;
        let s1 = self.d.st(pi);
        if s0.lp == 0 {
            self.d.sh[pi].live = true;
        }
        self.d.m.check(P, "stake-supply", s1.lp == s0.lp + lock + x, || format!("{what}: supply {} -> {}, {x} minted", s0.lp, s1.lp));
        self.d.m.seen(P, ("staked", p.kind, mag(x), recv == user, s0.lp == 0, !owed.is_empty()));
    }
    fn unstake(&mut self) {
        let pi = self.d.r.idx(self.d.w.pools.len());
        let people = self.people();
        let who = self.d.r.pick(&people).clone();
        let p = self.d.pool(pi);
        let have = self.st.get(&(pi, who.clone())).copied().unwrap_or(0);
        let amt = match self.d.r.idx(4) {
            0 => have,
            1 => have + 1,
            _ => self.d.r.range128(1, have.max(1)),
        };
        let owed = self.pending(pi, &who).unwrap_or_default();
        let l0 = self.d.w.ledger();
        let res = self.d.w.c.exec(&who, &self.inc, &ai::ExecuteMsg::Withdraw { lp_token: p.lp.clone(), amount: Uint128::new(amt) }, &[]);
        let got = diff(&l0, &self.d.w.ledger());
        self.d.m.step(|| format!("{who} unstakes {amt} of {have} from {} => {}", p.addr, short(&res)));
        let ok = amt > 0 && amt <= have;
        self.d.m.check(P, "unstake", res.is_ok() == ok || amt == 0, || format!("{who} unstaking {amt} of {have}: {}", short(&res)));
        if res.is_err() || !ok {
            self.d.m.check(P, "unstake-moves", got.is_empty() || ok, || format!("{who} unstaking {amt} of {have} moved {got:?}"));
            return;
        }
        let mut exp: BTreeMap<(String, String), i128> = BTreeMap::new();
        for (t, a) in owed.iter().map(|(t, a)| (t, *a)).chain([(&p.lp, amt)]) {
            *exp.entry((self.inc.clone(), t.clone())).or_default() -= a as i128;
            *exp.entry((who.clone(), t.clone())).or_default() += a as i128;
        }
        exp.retain(|_, v| *v != 0);
        self.d.m.check(P, "unstake-ledger", got == exp, || format!("{who} unstaking {amt}: {got:?}, expected {exp:?}"));
        *self.st.get_mut(&(pi, who.clone())).unwrap() -= amt;
        // and the tokens are worth what any LP token is worth
        if self.d.r.chance(1, 2) {
            if self.d.w.users.contains(&who) {
                let _ = self.d.op_withdraw(pi, &who, amt, None);
            }
        }
    }
}
fn staked(r: &mut Rng, m: &mut Mon) {
    let mut d = Dx::new(m, r);
    let kinds = [Kind::Xyk, Kind::Tax, Kind::Stable, Kind::Pcl];
    for _ in 0..2 {
        let k = *d.r.pick(&kinds);
        let i = d.add_pool(k);
        d.tick();
        if d.r.chance(2, 3) {
            d.seed(i);
        }
    }
    let owner = d.w.owner.clone();
    let astro = d.w.toks[0].clone();
    let (vest, inc) = {
        let c = &d.w.c;
        use astroport_incentives as ic;
        use astroport_vesting::contract as v;
        let vest = c
            .instantiate(c.store(Code::new("vesting", v::instantiate, v::execute, v::query)), &owner, &serde_json::json!({"owner": owner, "vesting_token": js(&astro.info)}), &[], "vesting")
            .expect("vesting")
            .0;
        let inc = c
            .instantiate(
                c.store(Code::new("incentives", ic::instantiate::instantiate, ic::execute::execute, ic::query::query).with_reply(ic::reply::reply)),
                &owner,
                &serde_json::json!({"owner": owner, "factory": d.w.factory, "astro_token": js(&astro.info), "vesting_contract": vest, "incentivization_fee_info": null, "guardian": null}),
                &[],
                "incentives",
            )
            .expect("incentives")
            .0;
        (vest, inc)
    };
    let _ = vest;
    let rew = "urewards".to_string();
    d.w.c.fund("wasm1patron", &rew, 1 << 100);
    let mut s = Stk { d, inc, rew, st: BTreeMap::new(), on: false };
    let on = s.d.r.chance(9, 10);
    s.generator(on);
    for pi in 0..2 {
        if s.d.r.chance(1, 2) {
            let a = s.d.r.log(20_000_000, 1 << 80);
            let n = s.d.r.range(1, 6);
            let lp = s.d.w.pools[pi].lp.clone();
            let msg = serde_json::json!({"incentivize": {"lp_token": lp, "schedule": {"reward": {"info": {"native_token": {"denom": s.rew}}, "amount": a.to_string()}, "duration_periods": n}}});
            s.d.w.c.exec("wasm1patron", &s.inc, &msg, &[coin(a, &s.rew)]).expect("reward");
        }
    }
    for _ in 0..24 {
        if s.d.m.failed() {
            return;
        }
        s.d.tick();
        match s.d.r.weighted(&[10, 4, 3, 1]) {
            0 => s.deposit(),
            1 => s.unstake(),
            2 => {
                let pi = s.d.r.idx(s.d.w.pools.len());
                if s.d.st(pi).lp > 0 {
                    crate::props::rand_swap(&mut s.d, pi);
                }
            }
            _ => {
                let on = s.d.r.chance(3, 4);
                s.generator(on);
            }
        }
        s.audit();
    }
}
pub fn profile() -> (&'static str, u64, u64, fn(&mut Rng, &mut Mon)) {
    ("staked", 900, 18_000, staked)
}
