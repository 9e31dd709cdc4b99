//! a full deployment where every contract has an owner of its own
use crate::common::*;
use std::collections::BTreeMap;
use world::{Fees, Kind, Prov, Tok, World};
pub const GUARD: &str = "wasm1guardian";
pub const CTRL: &str = "wasm1controller";
pub const TAXADM: &str = "wasm1taxadmin";
pub const GRADM: &str = "wasm1grantadmin";
pub const WLADM: &str = "wasm1listadmin";
pub const MINTER: &str = "wasm1minter";
pub const MKTG: &str = "wasm1marketing";
pub struct City {
    pub w: World,
    /// xyk, tax, stable, pcl, transmuter (indices in w.pools)
    pub xyk: usize,
    pub tax: usize,
    pub stb: usize,
    pub pcl: usize,
    pub trn: usize,
    pub inc: String,
    pub vest: String,
    pub vest2: String,
    pub maker: String,
    pub gran: String,
    pub wl: String,
    pub router: String,
    pub xas: String,
    pub conv: String,
    pub sink: String,
    pub old: Tok,
    /// contract -> its own owner (pools may have none)
    pub own: BTreeMap<String, String>,
    /// contract -> (candidate, last second)
    pub pend: BTreeMap<String, (String, u64)>,
}
pub fn js(t: &Tok) -> serde_json::Value {
    serde_json::to_value(&t.info).unwrap()
}
pub fn bin(v: &serde_json::Value) -> Binary {
    to_json_binary(v).unwrap()
}
impl City {
    pub fn factory(&self) -> String {
        self.w.factory.clone()
    }
    pub fn owner(&self, k: &str) -> String {
        self.own.get(k).unwrap_or(&self.own[&self.w.factory]).clone()
    }
    pub fn pool(&self, i: usize) -> String {
        self.w.pools[i].addr.clone()
    }
    pub fn contracts(&self) -> Vec<String> {
        let mut v = vec![self.factory(), self.w.registry.clone()];
        for x in [&self.inc, &self.vest, &self.vest2, &self.maker, &self.gran, &self.wl, &self.router, &self.xas, &self.conv, &self.sink] {
            v.push(x.clone());
        }
        v.extend(self.w.pools.iter().map(|p| p.addr.clone()));
        v.push(self.w.toks[4].id.clone());
        v.push(self.w.toks[5].id.clone());
        v
    }
    /// (contract, an operation reserved to its owner, coins to send with it)
    pub fn owned(&self, r: &mut Rng) -> Vec<(String, serde_json::Value, Vec<Coin>)> {
        let t = self.w.c.now();
        let astro = self.w.toks[0].id.clone();
        let fee = |x: &mut Rng| {
            let s = json!({"params": bin(&json!({"enable_fee_share": {"fee_share_bps": x.range(1, 1000), "fee_share_address": "wasm1thief"}}))});
            json!({"update_config": s})
        };
        vec![
            (self.factory(), json!({"update_config": {"fee_address": "wasm1thief"}}), vec![]),
            (self.w.registry.clone(), json!({"add": {"native_coins": [["unew", r.range(0, 18)]]}}), vec![]),
            (self.inc.clone(), json!({"update_config": {"guardian": "wasm1thief"}}), vec![]),
            (self.vest.clone(), json!({"register_vesting_accounts": {"vesting_accounts": [{"address": "wasm1thief", "schedules": [{"start_point": {"time": t + 1, "amount": "1000"}, "end_point": null}]}]}}), vec![coin(1000, astro)]),
            (self.maker.clone(), json!({"update_seize_config": {"receiver": "wasm1thief", "seizable_assets": []}}), vec![]),
            (self.gran.clone(), json!({"update_admins": {"add": [], "remove": ["wasm1thief"]}}), vec![]),
            (self.pool(self.stb), fee(r), vec![]),
            (self.pool(self.pcl), fee(r), vec![]),
        ]
    }
}
pub fn build(r: &mut Rng) -> City {
    let mut w = World::new(&[6, 6, 6, 6], &[6, 6], Fees { total: 30, maker: r.below(10_000) as u16 }, r.chance(1, 2));
    let toks = w.toks.clone();
    let xyk = w.xyk(0, 1, r.chance(1, 2)).expect("xyk");
    let p = json!({"tax_configs": {toks[2].id.clone(): {"tax_rate": "0.05", "tax_recipient": "wasm1taxman"}}, "tax_config_admin": TAXADM, "track_asset_balances": false});
    let tax = w.create_pair(Kind::Tax, &[0, 2], Some(bin(&p)), false, "tax".into()).expect("tax");
    let so = if r.chance(1, 2) { Some("wasm1ownstable") } else { None };
    let stb = w.create_pair(Kind::Stable, &[1, 2], Some(bin(&json!({"amp": 100, "owner": so}))), false, "stable".into()).expect("stable");
    let p = json!({"amp": "40", "gamma": "0.000145", "mid_fee": "0.0026", "out_fee": "0.0045", "fee_gamma": "0.00023", "repeg_profit_threshold": "0.000002",
        "min_price_scale_delta": "0.000146", "price_scale": "1", "ma_half_time": 600, "track_asset_balances": null, "fee_share": null});
    let pcl = w.create_pair(Kind::Pcl, &[0, 4], Some(bin(&p)), false, "pcl".into()).expect("pcl");
    let trn = w.create_pair(Kind::Trans, &[1, 3], None, false, "transmuter".into()).expect("transmuter");
    for u in w.users.clone() {
        for i in [xyk, tax, stb, pcl] {
            let p = w.pools[i].clone();
            w.provide(&u, &p, &[1_000_000_000, 1_000_000_000], &Prov { slippage: Some(cosmwasm_std::Decimal::percent(50)), ..Default::default() }).expect("provide");
        }
    }
    let c = &w.c;
    use astroport_incentives as ic;
    use astroport_maker::{contract as mk, reply as mrp};
    use astroport_router::contract as rt;
    use astroport_vesting::contract as v;
    use astroport_xastro_token::contract as x;
    let inst = |code: Code, msg: serde_json::Value| c.instantiate(c.store(code), "wasm1deployer", &msg, &[], "c").expect("deploy").0;
    let vc = || Code::new("vesting", v::instantiate, v::execute, v::query);
    let vest = inst(vc(), json!({"owner": "wasm1ownvest", "vesting_token": js(&toks[0])}));
    let vest2 = inst(vc(), json!({"owner": "wasm1ownvestcw", "vesting_token": js(&toks[4])}));
    let inc = inst(
        Code::new("incentives", ic::instantiate::instantiate, ic::execute::execute, ic::query::query).with_reply(ic::reply::reply),
        json!({"owner": "wasm1owninc", "factory": w.factory, "astro_token": js(&toks[0]), "vesting_contract": vest, "incentivization_fee_info": null, "guardian": GUARD}),
    );
    let maker = inst(
        Code::new("maker", mk::instantiate, mk::execute, mk::query).with_reply(mrp::reply),
        json!({"owner": "wasm1ownmaker", "default_bridge": null, "astro_token": js(&toks[0]), "factory_contract": w.factory, "staking_contract": "wasm1staking",
            "governance_contract": null, "governance_percent": "10", "max_spread": "0.05", "second_receiver_params": null, "collect_cooldown": null}),
    );
    let gran = inst(crate::a05::code(), json!({"owner": "wasm1owngran", "admins": [GRADM], "gas_denom": toks[1].id}));
    let wl = inst(crate::a03::code(), json!({"admins": [WLADM], "mutable": true}));
    let router = inst(Code::new("router", rt::instantiate, rt::execute, rt::query).with_reply(rt::reply), json!({"astroport_factory": w.factory}));
    let xas = inst(
        Code::new("xastro", x::instantiate, x::execute, x::query),
        json!({"name": "Staked", "symbol": "XAS", "decimals": 6, "initial_balances": [{"address": MINTER, "amount": "1000000"}, {"address": "wasm1user0", "amount": "1000000"}],
            "mint": {"minter": MINTER, "cap": null}, "marketing": {"project": "p", "description": "d", "marketing": MKTG, "logo": null}}),
    );
    let conv = {
        use astro_token_converter::contract as k;
        inst(Code::new("converter", k::instantiate, k::execute, k::query), json!({"old_astro_asset_info": js(&toks[5]), "new_astro_denom": "factory/wasm1gov/astro", "outpost_burn_params": null}))
    };
    let sink = inst(sink_code(), json!({}));
    c.fund(&conv, "factory/wasm1gov/astro", 1 << 60);
    for i in 0..3 {
        c.fund(&router, &toks[i].id, 1_000_000);
        c.fund(&maker, &toks[i].id, 1_000_000);
        c.fund(&gran, &toks[i].id, 1_000_000);
        c.fund(&wl, &toks[i].id, 1_000_000);
    }
    // emissions, a reward, an orphaned reward, a vesting schedule in course
    let t = c.now();
    c.exec(OWNER, &w.factory, &json!({"update_config": {"generator_address": inc}}), &[]).expect("generator");
    c.exec("wasm1owninc", &inc, &json!({"update_config": {"generator_controller": CTRL}}), &[]).expect("controller");
    for (o, k, tok) in [("wasm1ownvest", &vest, &toks[0]), ("wasm1ownvestcw", &vest2, &toks[4])] {
        let accs = json!([{"address": "wasm1vested", "schedules": [{"start_point": {"time": t, "amount": "0"}, "end_point": {"time": t + 100_000_000, "amount": "1000000000"}}]}]);
        if tok.id == toks[4].id {
            c.exec("wasm1user0", &tok.id, &json!({"transfer": {"recipient": o, "amount": "1000000000000"}}), &[]).expect("cw20");
            c.exec(o, &tok.id, &json!({"send": {"contract": k, "amount": "1000000000", "msg": bin(&json!({"register_vesting_accounts": {"vesting_accounts": accs}}))}}), &[]).expect("vest");
        } else {
            c.fund(o, &tok.id, 1 << 60);
            c.exec(o, k, &json!({"register_vesting_accounts": {"vesting_accounts": accs}}), &[coin(1_000_000_000, &tok.id)]).expect("vest");
        }
    }
    let lp = w.pools[xyk].lp.clone();
    c.exec(CTRL, &inc, &json!({"setup_pools": {"pools": [[lp, "100"]]}}), &[]).expect("setup pools");
    for (i, n) in [(2usize, 1u64), (1, 20)] {
        let a = 604_800_000_000u128;
        c.exec("wasm1user0", &inc, &json!({"incentivize": {"lp_token": lp, "schedule": {"reward": {"info": js(&toks[i]), "amount": a.to_string()}, "duration_periods": n}}}), &[coin(a, &toks[i].id)])
            .expect("incentivize");
    }
    // nobody staked while the first reward ran: it is orphaned
    c.advance(1000, 1_500_000);
    c.exec("wasm1user0", &inc, &json!({"deposit": {}}), &[coin(1000, &lp)]).expect("stake");
    c.advance(1, 10);
    c.exec("wasm1user0", &inc, &json!({"deposit": {}}), &[coin(1000, &lp)]).expect("stake");
    let mut own: BTreeMap<String, String> = BTreeMap::new();
    own.insert(w.factory.clone(), OWNER.into());
    own.insert(w.registry.clone(), OWNER.into());
    own.insert(vest.clone(), "wasm1ownvest".into());
    own.insert(vest2.clone(), "wasm1ownvestcw".into());
    own.insert(inc.clone(), "wasm1owninc".into());
    own.insert(maker.clone(), "wasm1ownmaker".into());
    own.insert(gran.clone(), "wasm1owngran".into());
    if let Some(o) = so {
        own.insert(w.pools[stb].addr.clone(), o.into());
    }
    let old = toks[5].clone();
    City { w, xyk, tax, stb, pcl, trn, inc, vest, vest2, maker, gran, wl, router, xas, conv, sink, old, own, pend: BTreeMap::new() }
}
