//! Astroport deployment on the simulated chain: factory, native coin registry, tokens, pools.
pub use astroport::asset::{Asset, AssetInfo, PairInfo};
use astroport::factory as fac;
pub use astroport::factory::{PairConfig, PairType};
use astroport::pair as ap;
use astroport::pair_concentrated as apc;
pub use cosmwasm_std::{coin, to_json_binary, Addr, Binary, Coin, CosmosMsg, Decimal, Decimal256, Uint128};
use cosmwasm_std::{DepsMut, Env, MessageInfo, Response, StdError};
use serde::{Deserialize, Serialize};
pub use sim::*;
use std::collections::BTreeMap;

pub const OWNER: &str = "wasm1owner";
pub const MAKER: &str = "wasm1maker";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Xyk,
    Tax,
    Stable,
    Pcl,
    Trans,
}
impl Kind {
    pub fn pt(self) -> PairType {
        match self {
            Kind::Xyk => PairType::Xyk {},
            Kind::Stable => PairType::Stable {},
            Kind::Tax => PairType::Custom("astroport-pair-xyk-sale-tax".into()),
            Kind::Pcl => PairType::Custom("concentrated".into()),
            Kind::Trans => PairType::Custom("transmuter".into()),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub info: AssetInfo,
    pub id: String,
    pub dec: u32,
}
#[derive(Clone, Debug)]
pub struct Pool {
    pub kind: Kind,
    pub addr: String,
    pub lp: String,
    pub toks: Vec<Tok>,
    pub tracker: bool,
    pub note: String,
    /// PCL price scale at creation (token1 in units of token0)
    pub price: f64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fees {
    pub total: u16,
    pub maker: u16,
}
#[derive(Clone)]
pub struct Codes {
    pub factory: u64,
    pub xyk: u64,
    pub tax: u64,
    pub stable: u64,
    pub pcl: u64,
    pub trans: u64,
    pub registry: u64,
    pub tracker: u64,
    pub cw20: u64,
}
pub struct World {
    pub c: Chain,
    pub codes: Codes,
    pub factory: String,
    pub registry: String,
    pub toks: Vec<Tok>,
    pub users: Vec<String>,
    pub fees: BTreeMap<Kind, Fees>,
    pub maker_on: bool,
    pub pools: Vec<Pool>,
    /// current factory owner
    pub owner: String,
    /// pools with an owner of their own
    pub pool_owner: BTreeMap<String, String>,
}
/// i-th native denomination: plain, IBC, token factory, upper case, in rising or falling order
pub fn denom(style: u64, i: usize) -> String {
    let up = (b'a' + i as u8) as char;
    let down = (b'y' - i as u8) as char;
    match (style.wrapping_add(i as u64 * (style >> 32))) % 8 {
        0..=2 => format!("u{up}tok"),
        3 => format!("u{down}tok"),
        4 => format!("ibc/{:X}{:056X}", 0xF000_0000u64 - ((i as u64) << 24), style as u128 * 977),
        5 => format!("factory/wasm1creator{down}/{up}Token"),
        6 => format!("{}OIN", up.to_ascii_uppercase()),
        _ => format!("peggy0x{down}{:039x}", style as u128 * 31),
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Nothing {}
pub fn no_exec(_: DepsMut, _: Env, _: MessageInfo, _: Nothing) -> Result<Response, StdError> {
    Err(StdError::generic_err("no execute"))
}
pub fn tracker_code() -> Code {
    Code::new(
        "tracker",
        astroport_tokenfactory_tracker::contract::instantiate,
        no_exec,
        astroport_tokenfactory_tracker::query::query,
    )
    .with_sudo(astroport_tokenfactory_tracker::contract::sudo)
}
pub fn store_codes(c: &Chain) -> Codes {
    use astroport_factory::contract as f;
    use astroport_native_coin_registry::contract as nr;
    use astroport_pair::contract as x;
    use astroport_pair_concentrated as p;
    use astroport_pair_stable::contract as s;
    use astroport_pair_transmuter as t;
    use astroport_pair_xyk_sale_tax::contract as st;
    Codes {
        factory: c.store(Code::new("factory", f::instantiate, f::execute, f::query).with_reply(f::reply)),
        xyk: c.store(Code::new("xyk", x::instantiate, x::execute, x::query).with_reply(x::reply)),
        tax: c.store(Code::new("tax", st::instantiate, st::execute, st::query).with_reply(st::reply)),
        stable: c.store(Code::new("stable", s::instantiate, s::execute, s::query).with_reply(s::reply)),
        pcl: c.store(
            Code::new("pcl", p::contract::instantiate, p::contract::execute, p::queries::query)
                .with_reply(p::contract::reply),
        ),
        trans: c.store(
            Code::new("trans", t::contract::instantiate, t::contract::execute, t::queries::query)
                .with_reply(t::contract::reply),
        ),
        registry: c.store(Code::new("registry", nr::instantiate, nr::execute, nr::query)),
        tracker: c.store(tracker_code()),
        cw20: c.store(sim::cw20c::cw20_code()),
    }
}
/// snapshot of every bank and cw20 balance: (holder, token) -> amount
pub type Ledger = BTreeMap<(String, String), u128>;
pub fn diff(a: &Ledger, b: &Ledger) -> BTreeMap<(String, String), i128> {
    let mut d = BTreeMap::new();
    for (k, v) in b {
        let o = a.get(k).copied().unwrap_or(0);
        if o != *v {
            d.insert(k.clone(), (*v as i128).wrapping_sub(o as i128));
        }
    }
    for (k, v) in a {
        if !b.contains_key(k) {
            d.insert(k.clone(), -(*v as i128));
        }
    }
    d.retain(|_, v| *v != 0);
    d
}
impl World {
    /// `nat`: decimals of native tokens, `cw`: decimals of cw20 tokens.
    pub fn new(nat: &[u8], cw: &[u8], fees: Fees, maker_on: bool) -> World {
        let c = Chain::new();
        let codes = store_codes(&c);
        let registry = c
            .instantiate(
                codes.registry,
                OWNER,
                &astroport::native_coin_registry::InstantiateMsg { owner: OWNER.into() },
                &[],
                "registry",
            )
            .expect("registry")
            .0;
        let cfg = |k: Kind, code| PairConfig {
            code_id: code,
            pair_type: k.pt(),
            total_fee_bps: fees.total,
            maker_fee_bps: fees.maker,
            is_disabled: false,
            is_generator_disabled: false,
            permissioned: false,
        };
        let factory = c
            .instantiate(
                codes.factory,
                OWNER,
                &fac::InstantiateMsg {
                    pair_configs: vec![
                        cfg(Kind::Xyk, codes.xyk),
                        cfg(Kind::Tax, codes.tax),
                        cfg(Kind::Stable, codes.stable),
                        cfg(Kind::Pcl, codes.pcl),
                        cfg(Kind::Trans, codes.trans),
                    ],
                    token_code_id: codes.cw20,
                    fee_address: if maker_on { Some(MAKER.into()) } else { None },
                    generator_address: None,
                    owner: OWNER.into(),
                    whitelist_code_id: 0,
                    coin_registry_address: registry.clone(),
                    tracker_config: Some(fac::TrackerConfig {
                        code_id: codes.tracker,
                        token_factory_addr: TF_MODULE.into(),
                    }),
                },
                &[],
                "factory",
            )
            .expect("factory")
            .0;
        let users: Vec<String> = (0..5).map(|i| format!("wasm1user{i}")).collect();
        let mut w = World {
            c,
            codes,
            factory,
            registry,
            toks: vec![],
            users,
            fees: [Kind::Xyk, Kind::Tax, Kind::Stable, Kind::Pcl, Kind::Trans].iter().map(|k| (*k, fees)).collect(),
            maker_on,
            pools: vec![],
            owner: OWNER.into(),
            pool_owner: BTreeMap::new(),
        };
        // the shape of the denominations varies with the deployment
        let mut style = fees.total as u64 * 31 + fees.maker as u64 * 7 + maker_on as u64;
        for d in nat.iter().chain(cw) {
            style = style.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(*d as u64 + 1);
        }
        style ^= style >> 29;
        for (i, d) in nat.iter().enumerate() {
            w.add_native(&denom(style, i), *d);
        }
        for (i, d) in cw.iter().enumerate() {
            w.add_cw20(&format!("CW{}", (b'A' + i as u8) as char), *d);
        }
        w
    }
    pub const PURSE: u128 = 1_000_000_000_000_000_000_000_000_000_000_000; // 1e33
    pub fn add_native(&mut self, denom: &str, dec: u8) {
        for u in &self.users {
            self.c.fund(u, denom, Self::PURSE);
        }
        self.c
            .exec(
                OWNER,
                &self.registry,
                &astroport::native_coin_registry::ExecuteMsg::Add { native_coins: vec![(denom.into(), dec)] },
                &[],
            )
            .expect("register coin");
        self.toks.push(Tok { info: AssetInfo::native(denom), id: denom.into(), dec: dec as u32 });
    }
    pub fn add_cw20(&mut self, sym: &str, dec: u8) {
        let h: Vec<(&str, u128)> = self.users.iter().map(|u| (u.as_str(), Self::PURSE)).collect();
        let t = cw20c::new_cw20(&self.c, self.codes.cw20, sym, dec, &h);
        self.toks.push(Tok { info: AssetInfo::cw20_unchecked(&t), id: t, dec: dec as u32 });
    }
    pub fn set_fees(&mut self, k: Kind, f: Fees) -> Result<Tx, String> {
        let code = match k {
            Kind::Xyk => self.codes.xyk,
            Kind::Tax => self.codes.tax,
            Kind::Stable => self.codes.stable,
            Kind::Pcl => self.codes.pcl,
            Kind::Trans => self.codes.trans,
        };
        let r = self.c.exec(
            &self.owner,
            &self.factory,
            &fac::ExecuteMsg::UpdatePairConfig {
                config: PairConfig {
                    code_id: code,
                    pair_type: k.pt(),
                    total_fee_bps: f.total,
                    maker_fee_bps: f.maker,
                    is_disabled: false,
                    is_generator_disabled: false,
                    permissioned: false,
                },
            },
            &[],
        );
        if r.is_ok() {
            self.fees.insert(k, f);
        }
        r
    }
    pub fn create_pair(&mut self, k: Kind, ids: &[usize], params: Option<Binary>, tracker: bool, note: String) -> Result<usize, String> {
        let toks: Vec<Tok> = ids.iter().map(|i| self.toks[*i].clone()).collect();
        let infos: Vec<AssetInfo> = toks.iter().map(|t| t.info.clone()).collect();
        self.c.exec(
            &self.users[0],
            &self.factory,
            &fac::ExecuteMsg::CreatePair { pair_type: k.pt(), asset_infos: infos.clone(), init_params: params },
            &[],
        )?;
        let pi: PairInfo = self.c.query(&self.factory, &fac::QueryMsg::Pair { asset_infos: infos })?;
        self.pools.push(Pool {
            kind: k,
            addr: pi.contract_addr.to_string(),
            lp: pi.liquidity_token,
            toks,
            tracker,
            note,
            price: 1.0,
        });
        Ok(self.pools.len() - 1)
    }
    pub fn xyk(&mut self, a: usize, b: usize, track: bool) -> Result<usize, String> {
        let p = if track {
            Some(to_json_binary(&ap::XYKPoolParams { track_asset_balances: Some(true) }).unwrap())
        } else {
            None
        };
        self.create_pair(Kind::Xyk, &[a, b], p, track, String::new())
    }
    pub fn stable(&mut self, a: usize, b: usize, amp: u64) -> Result<usize, String> {
        let p = to_json_binary(&ap::StablePoolParams { amp, owner: Some(OWNER.into()) }).unwrap();
        let i = self.create_pair(Kind::Stable, &[a, b], Some(p), false, format!("amp={amp}"))?;
        self.pool_owner.insert(self.pools[i].addr.clone(), OWNER.into());
        Ok(i)
    }
    pub fn pcl(&mut self, a: usize, b: usize, p: &apc::ConcentratedPoolParams) -> Result<usize, String> {
        let i = self.create_pair(
            Kind::Pcl,
            &[a, b],
            Some(to_json_binary(p).unwrap()),
            p.track_asset_balances == Some(true),
            format!("{p:?}"),
        )?;
        self.pools[i].price = p.price_scale.to_string().parse().unwrap();
        Ok(i)
    }
    pub fn owner_of(&self, p: &Pool) -> String {
        self.pool_owner.get(&p.addr).unwrap_or(&self.owner).clone()
    }
    /// a pool old enough for its price accumulators (which wrap around) to stand at given values
    pub fn age_accumulators(&self, p: &Pool, v: [u128; 2]) {
        let mut c: serde_json::Value = serde_json::from_slice(&self.c.raw_store(&p.addr)[b"config".as_slice()]).expect("config");
        if c.get("price0_cumulative_last").is_some() {
            c["price0_cumulative_last"] = v[0].to_string().into();
            c["price1_cumulative_last"] = v[1].to_string().into();
        }
        if let Some(l) = c.get_mut("cumulative_prices").and_then(|x| x.as_array_mut()) {
            for (k, e) in l.iter_mut().enumerate() {
                e[2] = v[k % 2].to_string().into();
            }
        }
        self.c.w.borrow_mut().contracts.get_mut(&p.addr).unwrap().store.insert(b"config".to_vec(), serde_json::to_vec(&c).unwrap());
    }
    pub fn pool_bal(&self, p: &Pool, i: usize) -> u128 {
        self.bal(&p.addr, &p.toks[i])
    }
    pub fn bal(&self, who: &str, t: &Tok) -> u128 {
        match &t.info {
            AssetInfo::NativeToken { denom } => self.c.bal(who, denom),
            AssetInfo::Token { contract_addr } => cw20_raw(&self.c, contract_addr.as_str(), who),
        }
    }
    pub fn ledger(&self) -> Ledger {
        let mut l = Ledger::new();
        let w = self.c.w.borrow();
        for (a, m) in &w.bank {
            for (d, v) in m {
                l.insert((a.clone(), d.clone()), *v);
            }
        }
        for t in &self.toks {
            if let AssetInfo::Token { contract_addr } = &t.info {
                for (k, v) in &w.contracts[contract_addr.as_str()].store {
                    if k.starts_with(b"\x00\x07balance") {
                        let who = String::from_utf8_lossy(&k[9..]).to_string();
                        let amt: Uint128 = cosmwasm_std::from_json(v).unwrap();
                        if !amt.is_zero() {
                            l.insert((who, t.id.clone()), amt.u128());
                        }
                    }
                }
            }
        }
        l
    }
    fn funds(&self, toks: &[Tok], amounts: &[u128]) -> Vec<Coin> {
        toks.iter()
            .zip(amounts)
            .filter_map(|(t, a)| match &t.info {
                AssetInfo::NativeToken { denom } if *a > 0 => Some(coin(*a, denom)),
                _ => None,
            })
            .collect()
    }
    pub fn provide(&self, user: &str, p: &Pool, amounts: &[u128], o: &Prov) -> Result<Tx, String> {
        for (t, a) in p.toks.iter().zip(amounts) {
            if let AssetInfo::Token { contract_addr } = &t.info {
                if *a > 0 {
                    cw20c::allow_cw20(&self.c, contract_addr.as_str(), user, &p.addr, *a);
                }
            }
        }
        let mut assets: Vec<Asset> =
            p.toks.iter().zip(amounts).map(|(t, a)| Asset { info: t.info.clone(), amount: Uint128::new(*a) }).collect();
        if o.reversed {
            assets.reverse();
        }
        let r = self.c.exec(
            user,
            &p.addr,
            &ap::ExecuteMsg::ProvideLiquidity {
                assets,
                slippage_tolerance: o.slippage,
                auto_stake: o.auto_stake,
                receiver: o.receiver.clone(),
                min_lp_to_receive: o.min_lp.map(Uint128::new),
            },
            &self.funds(&p.toks, amounts),
        );
        if r.is_err() {
            for (t, a) in p.toks.iter().zip(amounts) {
                if let AssetInfo::Token { contract_addr } = &t.info {
                    if *a > 0 {
                        let _ = self.c.exec(
                            user,
                            contract_addr.as_str(),
                            &cw20::Cw20ExecuteMsg::DecreaseAllowance {
                                spender: p.addr.clone(),
                                amount: Uint128::new(*a),
                                expires: None,
                            },
                            &[],
                        );
                    }
                }
            }
        }
        r
    }
    pub fn withdraw(&self, user: &str, p: &Pool, amount: u128, min: Option<Vec<u128>>) -> Result<Tx, String> {
        self.c.exec(
            user,
            &p.addr,
            &ap::ExecuteMsg::WithdrawLiquidity {
                assets: vec![],
                min_assets_to_receive: min.map(|m| {
                    p.toks
                        .iter()
                        .zip(m)
                        .map(|(t, a)| Asset { info: t.info.clone(), amount: Uint128::new(a) })
                        .collect()
                }),
            },
            &[coin(amount, &p.lp)],
        )
    }
    pub fn swap(&self, user: &str, p: &Pool, i: usize, j: usize, amount: u128, o: &Sw) -> Result<Tx, String> {
        let ask = if p.toks.len() > 2 || o.name_ask { Some(p.toks[j].info.clone()) } else { None };
        match &p.toks[i].info {
            AssetInfo::NativeToken { denom } => self.c.exec(
                user,
                &p.addr,
                &ap::ExecuteMsg::Swap {
                    offer_asset: Asset { info: p.toks[i].info.clone(), amount: Uint128::new(amount) },
                    ask_asset_info: ask,
                    belief_price: o.belief,
                    max_spread: o.max_spread,
                    to: o.to.clone(),
                },
                &[coin(amount, denom)],
            ),
            AssetInfo::Token { contract_addr } => self.c.exec(
                user,
                contract_addr.as_str(),
                &cw20::Cw20ExecuteMsg::Send {
                    contract: p.addr.clone(),
                    amount: Uint128::new(amount),
                    msg: to_json_binary(&ap::Cw20HookMsg::Swap {
                        ask_asset_info: ask,
                        belief_price: o.belief,
                        max_spread: o.max_spread,
                        to: o.to.clone(),
                    })
                    .unwrap(),
                },
                &[],
            ),
        }
    }
    pub fn simulate(&self, p: &Pool, i: usize, j: usize, amount: u128) -> Result<ap::SimulationResponse, String> {
        self.c.query(
            &p.addr,
            &ap::QueryMsg::Simulation {
                offer_asset: Asset { info: p.toks[i].info.clone(), amount: Uint128::new(amount) },
                ask_asset_info: if p.toks.len() > 2 { Some(p.toks[j].info.clone()) } else { None },
            },
        )
    }
    pub fn reverse(&self, p: &Pool, i: usize, j: usize, ask: u128) -> Result<ap::ReverseSimulationResponse, String> {
        self.c.query(
            &p.addr,
            &ap::QueryMsg::ReverseSimulation {
                offer_asset_info: if p.toks.len() > 2 { Some(p.toks[i].info.clone()) } else { None },
                ask_asset: Asset { info: p.toks[j].info.clone(), amount: Uint128::new(ask) },
            },
        )
    }
    /// Transfers a token directly to an address (donation, no entry point of the pool is called).
    pub fn donate(&self, user: &str, to: &str, t: &Tok, amount: u128) -> Result<Tx, String> {
        match &t.info {
            AssetInfo::NativeToken { denom } => self.c.send(user, to, denom, amount),
            AssetInfo::Token { contract_addr } => self.c.exec(
                user,
                contract_addr.as_str(),
                &cw20::Cw20ExecuteMsg::Transfer { recipient: to.into(), amount: Uint128::new(amount) },
                &[],
            ),
        }
    }
    pub fn lp_supply(&self, p: &Pool) -> u128 {
        self.c.supply(&p.lp)
    }
    pub fn update_pool(&self, who: &str, p: &Pool, params: &impl Serialize) -> Result<Tx, String> {
        self.c.exec(who, &p.addr, &ap::ExecuteMsg::UpdateConfig { params: to_json_binary(params).unwrap() }, &[])
    }
}
#[derive(Clone, Debug, Default)]
pub struct Prov {
    pub slippage: Option<Decimal>,
    pub auto_stake: Option<bool>,
    pub receiver: Option<String>,
    pub min_lp: Option<u128>,
    pub reversed: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Sw {
    pub belief: Option<Decimal>,
    pub max_spread: Option<Decimal>,
    pub to: Option<String>,
    pub name_ask: bool,
}
impl Sw {
    pub fn loose() -> Sw {
        Sw { max_spread: Some(Decimal::percent(50)), ..Default::default() }
    }
}
/// Fast cw20 balance straight from the token's storage (cw20-base layout).
pub fn cw20_raw(c: &Chain, token: &str, who: &str) -> u128 {
    let mut k = b"\x00\x07balance".to_vec();
    k.extend(who.as_bytes());
    let w = c.w.borrow();
    w.contracts
        .get(token)
        .and_then(|x| x.store.get(&k))
        .map(|v| cosmwasm_std::from_json::<Uint128>(v).unwrap().u128())
        .unwrap_or(0)
}
