mod model;
use astroport::factory as fac;
use astroport::incentives as ai;
use astroport::incentives::{ExecuteMsg as X, QueryMsg as Q};
use astroport::vesting as av;
use cosmwasm_std::{Deps, DepsMut, Env, MessageInfo, Reply, Response, StdError, StdResult, SubMsg, WasmMsg};
use model::*;
use serde::{Deserialize, Serialize};
use sim::num::*;
use std::collections::{BTreeMap, BTreeSet};
use world::*;

// ------------------------------------------------------------------ an old-style pair with a cw20 LP token
fn lp_inst(deps: DepsMut, env: Env, _i: MessageInfo, m: astroport::pair::InstantiateMsg) -> StdResult<Response> {
    deps.storage.set(b"infos", &cosmwasm_std::to_json_vec(&(m.asset_infos, m.pair_type))?);
    let inst = serde_json::json!({"name":"old lp token","symbol":"OLP","decimals":6,"initial_balances":[],
        "mint":{"minter":env.contract.address,"cap":null},"marketing":null});
    Ok(Response::new().add_submessage(SubMsg::reply_on_success(
        WasmMsg::Instantiate {
            admin: None,
            code_id: m.token_code_id,
            msg: Binary::from(serde_json::to_vec(&inst).unwrap()),
            funds: vec![],
            label: "lp".into(),
        },
        1,
    )))
}
fn lp_reply(deps: DepsMut, _env: Env, m: Reply) -> StdResult<Response> {
    let d = m.result.into_result().map_err(StdError::generic_err)?.data.unwrap();
    let a = cw_utils::parse_instantiate_response_data(d.as_slice()).map_err(|e| StdError::generic_err(e.to_string()))?;
    deps.storage.set(b"lp", a.contract_address.as_bytes());
    Ok(Response::new())
}
#[derive(Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
enum LpQ {
    Pair {},
}
fn lp_query(deps: Deps, env: Env, _m: LpQ) -> StdResult<Binary> {
    let (asset_infos, pair_type): (Vec<AssetInfo>, PairType) =
        cosmwasm_std::from_json(deps.storage.get(b"infos").unwrap())?;
    to_json_binary(&PairInfo {
        asset_infos,
        contract_addr: env.contract.address,
        liquidity_token: String::from_utf8(deps.storage.get(b"lp").unwrap()).unwrap(),
        pair_type,
    })
}
fn legacy_code() -> Code {
    Code::new("oldpair", lp_inst, no_exec, lp_query).with_reply(lp_reply)
}

const CTRL: &str = "wasm1ctrl";
const GUARD: &str = "wasm1guard";
const FEERCV: &str = "wasm1feercv";
const RCV: &str = "wasm1rcv";
type D = BTreeMap<(String, String), i128>;

struct S {
    w: World,
    inc: String,
    vest: String,
    legacy_code: u64,
    m: Model,
    fee: Option<(usize, u128)>,
    blocked: BTreeSet<String>,
    gen_off: BTreeSet<bool>, // legacy?
    broken: BTreeSet<String>,
    vest_paid: u128,
    vcode: u64,
    /// how often the protocol token was replaced
    replaced: u32,
    ext_in: BTreeMap<String, u128>,
    /// pools where a reward with abandoned schedules may come back to life
    clouded: BTreeSet<usize>,
    bypass: u64,
    force: Option<(usize, String, u64, u128)>,
    force_rm: Option<(usize, String)>,
}
fn info(s: &S, id: &str) -> AssetInfo {
    s.w.toks
        .iter()
        .find(|t| t.id == id)
        .map(|t| t.info.clone())
        .unwrap_or_else(|| AssetInfo::native(id))
}
fn is_cw(s: &S, id: &str) -> bool {
    matches!(info(s, id), AssetInfo::Token { .. })
}
fn ent(l: &mut D, who: &str, id: &str, v: i128) {
    let e = l.entry((who.into(), id.into())).or_default();
    *e += v;
    if *e == 0 {
        l.remove(&(who.into(), id.into()));
    }
}
fn bal(s: &S, who: &str, id: &str) -> u128 {
    match info(s, id) {
        AssetInfo::NativeToken { denom } => s.w.c.bal(who, &denom),
        AssetInfo::Token { contract_addr } => cw20_raw(&s.w.c, contract_addr.as_str(), who),
    }
}

fn setup(r: &mut Rng) -> S {
    let mut w = World::new(&[6, 6, 18, 0], &[6, 18], Fees { total: 30, maker: 0 }, false);
    let legacy_code = w.c.store(legacy_code());
    w.c.exec(
        OWNER,
        &w.factory,
        &fac::ExecuteMsg::UpdatePairConfig {
            config: PairConfig {
                code_id: legacy_code,
                pair_type: PairType::Custom("old".into()),
                total_fee_bps: 0,
                maker_fee_bps: 0,
                is_disabled: false,
                is_generator_disabled: false,
                permissioned: false,
            },
        },
        &[],
    )
    .expect("pair config");
    let astro = w.toks[0].clone();
    let vc = astroport_vesting::contract::instantiate;
    let vcode = w.c.store(Code::new(
        "vesting",
        vc,
        astroport_vesting::contract::execute,
        astroport_vesting::contract::query,
    ));
    let vest = w
        .c
        .instantiate(
            vcode,
            OWNER,
            &av::InstantiateMsg { owner: OWNER.into(), vesting_token: astro.info.clone() },
            &[],
            "vesting",
        )
        .expect("vesting")
        .0;
    let icode = w.c.store(
        Code::new(
            "incentives",
            astroport_incentives::instantiate::instantiate,
            astroport_incentives::execute::execute,
            astroport_incentives::query::query,
        )
        .with_reply(astroport_incentives::reply::reply),
    );
    let fee = if r.chance(2, 3) { Some((1usize, r.log(1, 1_000_000_000))) } else { None };
    let inc = w
        .c
        .instantiate(
            icode,
            OWNER,
            &ai::InstantiateMsg {
                owner: OWNER.into(),
                factory: w.factory.clone(),
                astro_token: astro.info.clone(),
                vesting_contract: vest.clone(),
                incentivization_fee_info: fee.map(|(t, a)| ai::IncentivizationFeeInfo {
                    fee_receiver: Addr::unchecked(FEERCV),
                    fee: coin(a, &w.toks[t].id),
                }),
                guardian: Some(GUARD.into()),
            },
            &[],
            "incentives",
        )
        .expect("incentives")
        .0;
    w.c.exec(
        OWNER,
        &w.factory,
        &fac::ExecuteMsg::UpdateConfig {
            token_code_id: None,
            fee_address: None,
            generator_address: Some(inc.clone()),
            whitelist_code_id: None,
            coin_registry_address: None,
        },
        &[],
    )
    .expect("generator address");
    w.c.exec(
        OWNER,
        &inc,
        &X::UpdateConfig {
            astro_token: None,
            vesting_contract: None,
            generator_controller: Some(CTRL.into()),
            guardian: None,
            incentivization_fee_info: None,
            token_transfer_gas_limit: None,
        },
        &[],
    )
    .expect("controller");
    let funds = 1_000_000_000_000_000_000_000_000_000_000u128;
    w.c.fund(OWNER, &astro.id, funds);
    w.c.exec(
        OWNER,
        &vest,
        &av::ExecuteMsg::RegisterVestingAccounts {
            vesting_accounts: vec![av::VestingAccount {
                address: inc.clone(),
                schedules: vec![av::VestingSchedule {
                    start_point: av::VestingSchedulePoint { time: w.c.now(), amount: Uint128::new(funds) },
                    end_point: None,
                }],
            }],
        },
        &[coin(funds, &astro.id)],
    )
    .expect("fund vesting");
    let mut m = Model { astro: astro.id.clone(), emit_ts: w.c.now(), ..Default::default() };
    let n = 2 + r.idx(4);
    let mut combos: Vec<(usize, usize)> = (0..6).flat_map(|a| (a + 1..6).map(move |b| (a, b))).collect();
    r.shuffle(&mut combos);
    let legacy = r.chance(1, 2);
    for (k, (a, b)) in combos.into_iter().take(n).enumerate() {
        if legacy && k == 0 {
            let infos = vec![w.toks[a].info.clone(), w.toks[b].info.clone()];
            w.c.exec(
                OWNER,
                &w.factory,
                &fac::ExecuteMsg::CreatePair {
                    pair_type: PairType::Custom("old".into()),
                    asset_infos: infos.clone(),
                    init_params: None,
                },
                &[],
            )
            .expect("old pair");
            let pi: PairInfo = w.c.query(&w.factory, &fac::QueryMsg::Pair { asset_infos: infos }).expect("pair");
            for u in &w.users {
                w.c.exec(
                    pi.contract_addr.as_str(),
                    &pi.liquidity_token,
                    &cw20::Cw20ExecuteMsg::Mint { recipient: u.clone(), amount: Uint128::new(r.log(1000, 1u128 << 80)) },
                    &[],
                )
                .expect("mint old lp");
            }
            w.toks.push(Tok {
                info: AssetInfo::cw20_unchecked(&pi.liquidity_token),
                id: pi.liquidity_token.clone(),
                dec: 6,
            });
            m.pools.push(mpool(&pi.liquidity_token, true, pi.contract_addr.as_str(), vec![a, b]));
        } else {
            let i = w.xyk(a, b, false).expect("xyk");
            let p = w.pools[i].clone();
            let big = *r.pick(&[1u128 << 20, 1 << 40, 1 << 60, 1 << 80]);
            for u in w.users.clone() {
                let x = r.log(10_000, big);
                w.provide(&u, &p, &[x, x], &Prov { slippage: Some(Decimal::percent(50)), ..Default::default() })
                    .expect("provide");
            }
            m.pools.push(mpool(&p.lp, false, &p.addr, vec![a, b]));
        }
    }
    S {
        w,
        inc,
        vest,
        legacy_code,
        m,
        fee,
        blocked: Default::default(),
        gen_off: Default::default(),
        broken: Default::default(),
        vest_paid: 0,
        vcode,
        replaced: 0,
        ext_in: Default::default(),
        clouded: Default::default(),
        bypass: 1,
        force: None,
        force_rm: None,
    }
}
fn mpool(lp: &str, cw20: bool, pair: &str, assets: Vec<usize>) -> MPool {
    MPool {
        lp: lp.into(),
        cw20,
        pair: pair.into(),
        legacy: cw20,
        assets,
        registered: true,
        total: 0,
        last: 0,
        exists: false,
        rewards: Default::default(),
        int_rate: z(),
        users: Default::default(),
        alloc: None,
    }
}
/// runs `f` and returns its result with the complete ledger difference
fn led<T>(s: &S, f: impl FnOnce() -> T) -> (T, D) {
    let a = s.w.ledger();
    let x = f();
    (x, diff(&a, &s.w.ledger()))
}
fn pending(s: &S, i: usize, u: &str) -> Result<BTreeMap<String, u128>, String> {
    let v: Vec<Asset> =
        s.w.c.query(&s.inc, &Q::PendingRewards { lp_token: s.m.pools[i].lp.clone(), user: u.into() })?;
    let mut o = BTreeMap::new();
    for a in v {
        *o.entry(a.info.to_string()).or_insert(0) += a.amount.u128();
    }
    Ok(o)
}
fn reward_info(s: &S, i: usize) -> Result<Vec<ai::RewardInfo>, String> {
    s.w.c.query(&s.inc, &Q::RewardInfo { lp_token: s.m.pools[i].lp.clone() })
}
/// RewardInfo shows every running reward at the rate its schedules add up to.
fn rates(s: &S, m: &mut Mon, i: usize, now: u64) {
    let p = &s.m.pools[i];
    // protocol rewards are paid in the current protocol token, whatever the pool received before
    let pi: Result<serde_json::Value, String> = s.w.c.query(&s.inc, &serde_json::json!({"pool_info": {"lp_token": p.lp}}));
    for l in [reward_info(s, i).ok().map(|v| serde_json::to_value(v).unwrap()), pi.ok().map(|v| v["rewards"].clone())].into_iter().flatten() {
        for x in l.as_array().into_iter().flatten() {
            if let Some(t) = x["reward"].get("int") {
                let t: AssetInfo = serde_json::from_value(t.clone()).unwrap();
                m.check("I07", "protocol-token", t.to_string() == s.m.astro, || format!("pool {i} reports protocol rewards in {t}, they are paid in {}", s.m.astro));
                if s.replaced > 0 {
                    m.seen("I07", ("replaced", p.int_rate.is_zero(), p.total == 0));
                }
            }
        }
    }
    if s.clouded.contains(&i) {
        return;
    }
    let ri = match reward_info(s, i) {
        Ok(v) => v,
        Err(e) => {
            m.check("I07", "reward-info", false, || format!("RewardInfo of pool {i}: {e}"));
            return;
        }
    };
    let mut got: BTreeMap<(bool, String), f64> = BTreeMap::new();
    for x in &ri {
        let (ext, info) = match &x.reward {
            ai::RewardType::Int(a) => (false, a.to_string()),
            ai::RewardType::Ext { info, .. } => (true, info.to_string()),
        };
        let dup = got.insert((ext, info.clone()), x.rps.to_string().parse().unwrap()).is_some();
        m.check("I07", "reward-twice", !dup, || format!("pool {i} lists {info} twice: {ri:?}"));
    }
    for (t, x) in &p.rewards {
        if s.m.tainted.contains(t) {
            continue;
        }
        let exp = if t == INT {
            f(p.int_rate) / 1e36
        } else if s.m.running(i, t, now) {
            x.scheds.iter().filter(|q| q.0 <= now && now < q.1).map(|q| f(q.2) / 1e36).sum()
        } else {
            0.0
        };
        let key = (t != INT, if t == INT { s.m.astro.clone() } else { t.clone() });
        let have = got.remove(&key).unwrap_or(0.0);
        m.check("I05", "reward-rate", (have - exp).abs() <= exp * 1e-12 + 1e-15, || {
            format!("pool {i} shows {have} of {t} per second, the running schedules add up to {exp}: {ri:?}")
        });
    }
    for ((ext, t), v) in got {
        m.check("I05", "reward-rate", !ext && v == 0.0 || s.m.tainted.contains(&t), || format!("pool {i} shows unknown reward {t} at {v} per second"));
    }
    m.count("reward lists");
}
/// Settles `user` in `pools` after a successful operation and compares what arrived with the reference.
fn settled(s: &mut S, m: &mut Mon, user: &str, pools: &[usize], d: &mut D, what: &str) {
    let now = s.w.c.now();
    let inc = s.inc.clone();
    let vest = s.vest.clone();
    let astro = s.m.astro.clone();
    let mut toks: BTreeSet<String> = Default::default();
    let mut owed_int = z();
    for &i in pools {
        s.m.sync(i, now);
        for (t, int, v) in s.m.owed(i, user) {
            toks.insert(t);
            if int {
                owed_int += v;
            }
        }
        s.m.settle(i, user);
    }
    let int_paid = -d.get(&(vest.clone(), astro.clone())).copied().unwrap_or(0);
    m.check("I04", "vesting-outflow", int_paid >= 0, || format!("{what}: vesting gained {}", -int_paid));
    let int_paid = int_paid.max(0) as u128;
    s.vest_paid += int_paid;
    ent(d, &vest, &astro, int_paid as i128);
    // protocol part on its own
    let hi = fl(owed_int + sc() / u512(1000));
    let lo_slack = 2.0 * pools.len() as f64
        + pools.iter().map(|i| s.m.pools[*i].users.get(user).map(|u| u.amount as f64).unwrap_or(0.0)).sum::<f64>() * 1e-18 * (s.m.ops + 2) as f64;
    m.check("I04", "emission-share", int_paid <= hi && int_paid as f64 + lo_slack + 1.0 >= f(owed_int) / 1e36 * (1.0 - 1e-12), || {
        format!("{what}: {user} got {int_paid} protocol reward, the emission share is {hi}")
    });
    m.check("I03", "protocol-share", int_paid <= hi && int_paid as f64 + lo_slack + 1.0 >= f(owed_int) / 1e36 * (1.0 - 1e-12), || {
        format!("{what}: {user} got {int_paid} protocol reward, pro rata is {hi}")
    });
    let all: BTreeSet<String> = d.keys().filter(|k| k.0 == user).map(|k| k.1.clone()).chain(toks).collect();
    for t in all {
        let got = d.get(&(user.to_string(), t.clone())).copied().unwrap_or(0);
        m.check("I03", "no-charge", got >= 0, || format!("{what}: {user} lost {} of {t}", -got));
        let got = got.max(0) as u128;
        let ext = got.saturating_sub(if t == astro { int_paid } else { 0 });
        ent(d, user, &t, -(got as i128));
        ent(d, &inc, &t, ext as i128);
        let k = (user.to_string(), t.clone());
        let e = s.m.ent.get(&k).copied().unwrap_or(z());
        let e_f = fl(e + sc() / u512(1000));
        let slack = s.m.slack.get(&k).copied().unwrap_or(0.0);
        let paid = s.m.paid.entry(k.clone()).or_insert(0);
        *paid += got;
        if s.broken.contains(&t) {
            // a refused transfer counts as delivered (documented); the amount stays in the contract
            m.check("I01", "refused-transfer", got == 0, || format!("{t} refused transfers but {got} arrived"));
            *paid = e_f.saturating_sub(slack as u128);
            m.count("refused reward transfers");
            continue;
        }
        let paid = *paid;
        if !s.m.tainted.contains(&t) {
            for (pr, sig) in [("I03", "pro-rata"), ("I05", "schedule-share")] {
                m.check(pr, &format!("{sig}-over"), paid <= e_f, || {
                    format!("{what}: {user} received {paid} of {t} so far (now {got}), pro rata entitlement is {e_f}")
                });
                m.check(pr, &format!("{sig}-under"), paid as f64 + slack >= e_f as f64 * (1.0 - 1e-12), || {
                    format!("{what}: {user} received {paid} of {t} so far (now {got}), pro rata entitlement is {e_f} (tolerance {slack:.1})")
                });
            }
            if got > 0 {
                m.count("reward payments");
                m.seen("I03", (t.clone(), pools.len(), what.to_string(), (paid as f64 + 1.0).log10() as i32));
                m.seen("I05", (t.clone(), what.to_string(), s.m.pools[pools[0]].users.len(), (got as f64 + 1.0).log10() as i32));
            }
        } else {
            m.count("payments from abandoned schedules (solvency only)");
        }
    }
    if int_paid > 0 {
        m.count("protocol payments");
        m.seen("I04", (pools.len(), what.to_string(), (int_paid as f64 + 1.0).log10() as i32));
    }
}
fn rest_empty(m: &mut Mon, props: &[&str], d: &D, what: &str) {
    for p in props {
        m.check(p, "unexpected-movement", d.is_empty(), || format!("{what}: unexplained balance changes {d:?}"));
    }
}
fn deposit_raw(s: &S, i: usize, from: &str, to: Option<&str>, amt: u128) -> Result<Tx, String> {
    let p = &s.m.pools[i];
    if p.cw20 {
        s.w.c.exec(
            from,
            &p.lp,
            &cw20::Cw20ExecuteMsg::Send {
                contract: s.inc.clone(),
                amount: Uint128::new(amt),
                msg: if to.is_some() && amt % 2 == 0 {
                    to_json_binary(&ai::Cw20Msg::DepositFor(to.unwrap().into())).unwrap()
                } else {
                    to_json_binary(&ai::Cw20Msg::Deposit { recipient: to.map(|x| x.into()) }).unwrap()
                },
            },
            &[],
        )
    } else {
        s.w.c.exec(from, &s.inc, &X::Deposit { recipient: to.map(|x| x.into()) }, &[coin(amt, &p.lp)])
    }
}
fn short(r: &Result<Tx, String>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => e.chars().take(160).collect(),
    }
}
fn deposit(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let i = r.idx(s.m.pools.len());
    let from = r.pick(&s.w.users).clone();
    let to = if r.chance(1, 4) { Some(r.pick(&s.w.users).clone()) } else { None };
    let lp = s.m.pools[i].lp.clone();
    let have = bal(s, &from, &lp);
    if have == 0 {
        return;
    }
    let amt = match r.idx(4) {
        0 => have,
        1 => r.range128(1, have),
        2 => r.range128(1, have.min(1000)),
        _ => r.log(1, have),
    };
    let staker = to.clone().unwrap_or(from.clone());
    let what = format!("deposit {amt} of pool {i} by {from} for {staker}");
    m.step(|| what.clone());
    let (x, mut d) = led(s, || deposit_raw(s, i, &from, to.as_deref(), amt));
    let ok_expected = s.m.pools[i].registered && !s.broken.contains(&lp);
    if x.is_err() {
        for p in ["I01", "I06"] {
            m.check(p, "deposit-accepted", !ok_expected, || format!("{what} refused: {}", short(&x)));
        }
        m.check("I01", "refused-moves-nothing", d.is_empty(), || format!("{what} refused but {d:?}"));
        m.count("refused deposits");
        return;
    }
    m.check("I06", "deposit-refused", ok_expected, || format!("{what} accepted although the pair is not registered"));
    s.m.ops += 1;
    ent(&mut d, &from, &lp, amt as i128);
    ent(&mut d, &s.inc, &lp, -(amt as i128));
    settled(s, m, &staker, &[i], &mut d, "deposit");
    s.m.add_user(i, &staker, amt);
    rest_empty(m, &["I01", "I02"], &d, &what);
    m.count("deposits");
    m.seen("I01", (0, i, s.m.pools[i].users.len(), s.m.pools[i].cw20, (amt as f64).log10() as i32));
}
fn withdraw(s: &mut S, r: &mut Rng, m: &mut Mon, force: Option<(usize, String, u128)>) {
    let (i, u, amt) = match force {
        Some(x) => x,
        None => {
            let i = r.idx(s.m.pools.len());
            let u = r.pick(&s.w.users).clone();
            let have = s.m.pools[i].users.get(&u).map(|x| x.amount).unwrap_or(0);
            let amt = match r.idx(6) {
                0 | 1 => have,
                2 => have + r.range128(1, 1000),
                3 => r.log(1, have.max(1)),
                _ => r.range128(1, have.max(1)),
            };
            (i, u, amt.max(1))
        }
    };
    let lp = s.m.pools[i].lp.clone();
    let have = s.m.pools[i].users.get(&u).map(|x| x.amount).unwrap_or(0);
    let what = format!("withdraw {amt} of {have} from pool {i} by {u}");
    m.step(|| what.clone());
    let (x, mut d) = led(s, || {
        s.w.c.exec(&u, &s.inc, &X::Withdraw { lp_token: lp.clone(), amount: Uint128::new(amt) }, &[])
    });
    let ok_expected = amt <= have && !s.broken.contains(&lp);
    if x.is_err() {
        for p in ["I01", "I02"] {
            m.check(p, "withdraw-possible", !ok_expected, || format!("{what} refused: {}", short(&x)));
        }
        m.check("I01", "refused-moves-nothing", d.is_empty(), || format!("{what} refused but {d:?}"));
        m.count("refused withdrawals");
        return;
    }
    if !m.check("I01", "withdraw-limit", ok_expected, || format!("{what} accepted")) {
        return;
    }
    s.m.ops += 1;
    ent(&mut d, &u, &lp, -(amt as i128));
    ent(&mut d, &s.inc, &lp, amt as i128);
    settled(s, m, &u, &[i], &mut d, "withdraw");
    let p = &mut s.m.pools[i];
    p.total -= amt;
    let us = p.users.get_mut(&u).unwrap();
    us.amount -= amt;
    if us.amount == 0 {
        p.users.remove(&u);
    }
    rest_empty(m, &["I01", "I02"], &d, &what);
    m.count("withdrawals");
    m.seen("I01", (1, i, amt == have, s.m.pools[i].total == 0, (amt as f64).log10() as i32));
}
fn claim(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let u = r.pick(&s.w.users).clone();
    let mut mine: Vec<usize> = (0..s.m.pools.len()).filter(|i| s.m.pools[*i].users.contains_key(&u)).collect();
    let foreign = mine.is_empty() || r.chance(1, 12);
    let mut list: Vec<usize>;
    if foreign {
        list = vec![r.idx(s.m.pools.len())];
    } else {
        r.shuffle(&mut mine);
        let k = 1 + r.idx(mine.len());
        list = mine[..k].to_vec();
    }
    let dup = r.chance(1, 15);
    if dup {
        list.push(list[0]);
    }
    let ok_expected = !dup && list.iter().all(|i| s.m.pools[*i].users.contains_key(&u));
    let what = format!("claim by {u} in pools {list:?}");
    m.step(|| what.clone());
    let mut quoted: BTreeMap<String, u128> = BTreeMap::new();
    let mut quote_err = None;
    for i in &list {
        match pending(s, *i, &u) {
            Ok(q) => q.into_iter().for_each(|(t, a)| *quoted.entry(t).or_insert(0) += a),
            Err(e) => quote_err = Some(e),
        }
    }
    let msg = X::ClaimRewards { lp_tokens: list.iter().map(|i| s.m.pools[*i].lp.clone()).collect() };
    let infos: Vec<_> = list.iter().map(|i| reward_info(s, *i)).collect();
    let (x, mut d) = led(s, || s.w.c.exec(&u, &s.inc, &msg, &[]));
    if x.is_err() {
        for p in ["I02", "I03", "I07"] {
            m.check(p, "claim-possible", !ok_expected, || format!("{what} refused: {}", short(&x)));
        }
        m.count("refused claims");
        return;
    }
    for p in ["I03", "I07"] {
        m.check(p, "claim-refused", ok_expected, || format!("{what} accepted"));
    }
    if !ok_expected {
        return;
    }
    m.check("I07", "quote-available", quote_err.is_none(), || format!("{what} worked but the quote failed: {quote_err:?}"));
    for (t, q) in &quoted {
        if s.broken.contains(t) {
            continue;
        }
        let got = d.get(&(u.clone(), t.clone())).copied().unwrap_or(0);
        m.check("I07", "quote-equals-claim", got == *q as i128, || format!("{what}: {q} of {t} was quoted, {got} paid"));
        m.seen("I07", (list.len(), t.clone(), (*q as f64 + 1.0).log10() as i32, quoted.len()));
    }
    for ((who, t), v) in &d {
        if who == &u {
            m.check("I07", "paid-was-quoted", quoted.contains_key(t), || format!("{what}: {v} of {t} paid but not quoted"));
        }
    }
    for (i, before) in list.iter().zip(&infos) {
        let after = reward_info(s, *i);
        m.check("I07", "reward-info", before.is_ok() && *before == after, || {
            format!("{what}: RewardInfo of pool {i} said {before:?} and after the claim in the same block {after:?}")
        });
    }
    s.m.ops += 1;
    settled(s, m, &u, &list, &mut d, "claim");
    rest_empty(m, &["I02", "I03", "I07"], &d, &what);
    m.count("claims");
    if r.chance(1, 3) {
        // nothing is left to claim in the same block
        let (x, d) = led(s, || s.w.c.dry(|| s.w.c.exec(&u, &s.inc, &msg, &[])));
        let _ = x;
        let _ = d;
        for i in &list {
            let q = pending(s, *i, &u).unwrap_or_default();
            m.check("I07", "second-claim-empty", q.values().all(|v| *v == 0), || format!("{what}: {q:?} still quoted right after the claim"));
        }
        let (x, d) = led(s, || s.w.c.exec(&u, &s.inc, &msg, &[]));
        m.check("I07", "second-claim-empty", x.is_ok() && d.is_empty(), || format!("{what}, repeated: {} {d:?}", short(&x)));
        if x.is_ok() {
            s.m.ops += 1;
        }
    }
}
fn epoch_end(now: u64, periods: u64) -> u64 {
    EPOCHS_START + ((now - EPOCHS_START) / EPOCH + 1 + periods) * EPOCH
}
fn incentivize(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let now = s.w.c.now();
    let mut who = r.pick(&s.w.users).clone();
    if s.fee.is_some() && r.chance(1, 10) {
        // the one who receives the fee pays it as well
        who = FEERCV.into();
        for t in s.w.toks.iter().filter(|t| !is_cw(s, &t.id)) {
            s.w.c.fund(&who, &t.id, 1 << 91);
        }
    }
    let n = if s.force.is_none() && r.chance(1, 6) { 2 + r.idx(2) } else { 1 };
    let mut items = vec![];
    let mut need: BTreeMap<String, u128> = BTreeMap::new();
    let mut allow: BTreeMap<String, u128> = BTreeMap::new();
    let mut reason: Option<String> = None;
    let mut unsure = false;
    // running sets after the earlier items of this message
    let mut added: Vec<(usize, String)> = vec![];
    let mut fees = 0u128;
    for _ in 0..n {
        let i = r.idx(s.m.pools.len());
        let pool_toks = 6usize;
        unsure |= s.clouded.contains(&i);
        let tok = if r.chance(1, 10) {
            s.m.pools[r.idx(s.m.pools.len())].lp.clone()
        } else if r.chance(1, 6) {
            s.m.astro.clone()
        } else {
            s.w.toks[r.idx(pool_toks)].id.clone()
        };
        let periods = *r.pick(&[1u64, 1, 1, 2, 2, 3, 5, 25, 0, 26]);
        let dur = epoch_end(now, periods) - now;
        let amt = match r.idx(12) {
            0 => dur as u128 - 1,
            1 => dur as u128,
            2 => r.range128(1, dur as u128),
            3 | 4 => dur as u128 * r.range128(1, 50),
            _ => r.log(dur as u128, 1u128 << 90),
        };
        let (i, tok, periods, amt) = s.force.clone().unwrap_or((i, tok, periods, amt));
        let dur = epoch_end(now, periods) - now;
        if periods == 0 || periods > 25 {
            reason.get_or_insert(format!("{periods} periods"));
        } else if amt < dur as u128 {
            reason.get_or_insert("less than one unit per second".into());
        }
        if s.blocked.contains(&tok) {
            reason.get_or_insert("blocked token".into());
        }
        if !s.m.pools[i].registered {
            reason.get_or_insert("unregistered pair".into());
        }
        let is_new = !s.m.running(i, &tok, now) && !added.contains(&(i, tok.clone()));
        if is_new {
            let (mut all, mut foreign) = s.m.ext_count(i, now);
            for (pi, t) in &added {
                if *pi == i {
                    all += 1;
                    if t != &s.m.astro {
                        foreign += 1;
                    }
                }
            }
            if tok != s.m.astro {
                if foreign >= 5 {
                    reason.get_or_insert("sixth reward token".into());
                } else if all >= 5 {
                    unsure = true;
                }
                if let Some((t, a)) = s.fee {
                    fees += a;
                    *need.entry(s.w.toks[t].id.clone()).or_default() += a;
                }
            }
            let q: Result<bool, String> =
                s.w.c.query(&s.inc, &Q::IsFeeExpected { lp_token: s.m.pools[i].lp.clone(), reward: tok.clone() });
            if added.is_empty() && !unsure {
                m.check("I06", "fee-query", q == Ok(tok != s.m.astro), || format!("IsFeeExpected says {q:?} for new reward {tok} in pool {i}"));
            }
            added.push((i, tok.clone()));
        } else if added.is_empty() && !unsure {
            let q: Result<bool, String> =
                s.w.c.query(&s.inc, &Q::IsFeeExpected { lp_token: s.m.pools[i].lp.clone(), reward: tok.clone() });
            m.check("I06", "fee-query", q == Ok(false), || format!("IsFeeExpected says {q:?} for running reward {tok} in pool {i}"));
        }
        if is_cw(s, &tok) {
            *allow.entry(tok.clone()).or_default() += amt;
            if s.broken.contains(&tok) {
                reason.get_or_insert("token refuses transfers".into());
            }
        } else {
            *need.entry(tok.clone()).or_default() += amt;
        }
        items.push((i, tok, periods, amt));
    }
    // what the caller actually sends
    let mut send = need.clone();
    let twist = if s.force.is_some() { 14 } else { r.idx(14) };
    let fee_id = s.fee.map(|(t, _)| s.w.toks[t].id.clone());
    match twist {
        0 => {
            if let Some(k) = send.iter().find(|x| *x.1 > 0).map(|x| x.0.clone()) {
                *send.get_mut(&k).unwrap() -= 1;
                reason.get_or_insert("one unit too little sent".into());
            }
        }
        1 => {
            let k = send.keys().last().cloned().unwrap_or_else(|| s.w.toks[3].id.clone());
            *send.entry(k).or_default() += 1;
            reason.get_or_insert("surplus coins sent".into());
        }
        2 => {
            if send.insert("ucoin".into(), 5).is_none() {
                reason.get_or_insert("foreign coin sent".into());
            }
            s.w.c.fund(&who, "ucoin", 5);
        }
        3 if fees > 0 => {
            let k = fee_id.clone().unwrap();
            *send.get_mut(&k).unwrap() -= fees;
            reason.get_or_insert("fee not sent".into());
        }
        4 => {
            if let Some((k, v)) = allow.iter_mut().next() {
                let _ = k;
                *v = v.saturating_sub(1);
                reason.get_or_insert("allowance too small".into());
            }
        }
        _ => {}
    }
    send.retain(|_, v| *v > 0);
    for (t, a) in send.iter().chain(allow.iter()) {
        if bal(s, &who, t) < *a {
            reason.get_or_insert("caller cannot pay".into());
        }
    }
    for (t, a) in &need {
        if !send.contains_key(t) && *a > 0 {
            reason.get_or_insert("coin missing".into());
        }
    }
    for (t, a) in allow.iter().filter(|x| !s.broken.contains(x.0)) {
        cw20c::allow_cw20(&s.w.c, t, &who, &s.inc, (*a).max(1));
    }
    let coins: Vec<Coin> = send.iter().map(|(d, a)| coin(*a, d)).collect();
    let sch = |it: &(usize, String, u64, u128)| ai::InputSchedule {
        reward: Asset { info: info(s, &it.1), amount: Uint128::new(it.3) },
        duration_periods: it.2,
    };
    let msg = if n == 1 && r.chance(2, 3) {
        X::Incentivize { lp_token: s.m.pools[items[0].0].lp.clone(), schedule: sch(&items[0]) }
    } else {
        X::IncentivizeMany(items.iter().map(|it| (s.m.pools[it.0].lp.clone(), sch(it))).collect())
    };
    let what = format!("incentivize {items:?} by {who} sending {send:?}");
    m.step(|| format!("{what} (expected: {})", reason.clone().unwrap_or("accepted".into())));
    let (x, mut d) = led(s, || s.w.c.exec(&who, &s.inc, &msg, &coins));
    for t in allow.keys() {
        // leave no allowance behind
        let al: cw20::AllowanceResponse =
            s.w.c.query(t, &cw20::Cw20QueryMsg::Allowance { owner: who.clone(), spender: s.inc.clone() }).expect("allowance");
        if !al.allowance.is_zero() && !s.broken.contains(t) {
            s.w.c
                .exec(
                    &who,
                    t,
                    &cw20::Cw20ExecuteMsg::DecreaseAllowance { spender: s.inc.clone(), amount: al.allowance, expires: None },
                    &[],
                )
                .expect("reset allowance");
        }
    }
    if let Err(e) = &x {
        if !unsure {
            m.check("I06", "incentivize-accepted", reason.is_some(), || format!("{what} refused: {e}"));
        }
        m.check("I06", "refused-moves-nothing", d.is_empty(), || format!("{what} refused but {d:?}"));
        m.count("refused schedules");
        m.seen("I06", reason.clone());
        if reason.as_deref() == Some("sixth reward token") {
            m.count("sixth reward tokens refused");
        }
        return;
    }
    let soft = matches!(reason.as_deref(), Some("fee not sent") | Some("sixth reward token"));
    if unsure && soft {
        m.count("schedules on revived rewards");
        if reason.as_deref() == Some("fee not sent") {
            fees = 0;
        }
    } else if !m.check("I06", "incentivize-refused", reason.is_none(), || format!("{what} accepted in spite of: {reason:?}")) {
        return;
    }
    s.m.ops += 1;
    if fees > 0 {
        let (t, _) = s.fee.unwrap();
        let id = s.w.toks[t].id.clone();
        ent(&mut d, FEERCV, &id, -(fees as i128));
        ent(&mut d, &who, &id, fees as i128);
    }
    for (i, tok, periods, amt) in &items {
        ent(&mut d, &who, tok, *amt as i128);
        ent(&mut d, &s.inc, tok, -(*amt as i128));
        *s.ext_in.entry(tok.clone()).or_default() += *amt;
        s.m.sync(*i, now);
        s.m.pools[*i].last = now;
        s.m.pools[*i].exists = true;
        let end = epoch_end(now, *periods);
        let rate = u512(*amt) * sc() / u512((end - now) as u128);
        let re = s.m.pools[*i].rewards.entry(tok.clone()).or_default();
        re.present = true;
        re.scheds.push((now, end, rate));
        m.count("schedules");
        m.seen("I05", (i, tok.clone(), re.scheds.len(), periods));
        m.seen("I02", (i, tok.clone(), re.scheds.len()));
    }
    rest_empty(m, &["I02", "I05", "I06"], &d, &what);
    m.seen("I06", (items.len(), fees > 0, s.m.ext_count(items[0].0, now)));
    // the announced schedule is reported
    for (i, tok, _, _) in &items {
        if s.m.tainted.contains(tok) {
            continue;
        }
        let v: Result<Vec<ai::ScheduleResponse>, String> = s.w.c.query(
            &s.inc,
            &Q::ExternalRewardSchedules { reward: tok.clone(), lp_token: s.m.pools[*i].lp.clone(), start_after: None, limit: None },
        );
        if m.check("I05", "schedule-query", v.is_ok(), || format!("schedules of {tok} in pool {i}: {:?}", v.as_ref().err())) {
            let v = v.unwrap();
            let total: f64 = v.iter().map(|x| x.rps.to_string().parse::<f64>().unwrap() * (x.end_ts - x.start_ts) as f64).sum();
            let re = &s.m.pools[*i].rewards[tok];
            let exp: f64 = re.scheds.iter().map(|(a, b, q)| f(*q) / 1e36 * b.saturating_sub(now.max(*a)) as f64).sum();
            m.check("I05", "schedule-query", rel(total, exp) < 1e-9, || {
                format!("schedules of {tok} in pool {i} add up to {total}, {exp} is still to be emitted: {v:?} model {re:?}")
            });
        }
    }
}
fn remove_reward(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let now = s.w.c.now();
    let i = r.idx(s.m.pools.len());
    let run: Vec<String> = s.m.pools[i].rewards.iter().filter(|(t, x)| t.as_str() != INT && x.present).map(|(t, _)| t.clone()).collect();
    let tok = if run.is_empty() || r.chance(1, 10) { s.w.toks[r.idx(6)].id.clone() } else { r.pick(&run).clone() };
    let caller = if s.force_rm.is_none() && r.chance(1, 8) { r.pick(&[CTRL, GUARD, "wasm1user1"]).to_string() } else { OWNER.to_string() };
    let bypass = s.force_rm.is_some() || r.chance(s.bypass, 16);
    let (i, tok) = s.force_rm.clone().unwrap_or((i, tok));
    let ok_expected = caller == OWNER && s.m.running(i, &tok, now);
    let unsure = caller == OWNER && s.clouded.contains(&i);
    let what = format!("remove reward {tok} from pool {i} by {caller} bypass={bypass}");
    m.step(|| what.clone());
    let (x, mut d) = led(s, || {
        s.w.c.exec(
            &caller,
            &s.inc,
            &X::RemoveRewardFromPool {
                lp_token: s.m.pools[i].lp.clone(),
                reward: tok.clone(),
                bypass_upcoming_schedules: bypass,
                receiver: RCV.into(),
            },
            &[],
        )
    });
    if x.is_err() {
        m.check("I05", "removal-possible", !ok_expected || unsure, || format!("{what} refused: {}", short(&x)));
        m.count("refused removals");
        return;
    }
    m.check("I05", "removal-refused", ok_expected || unsure, || format!("{what} accepted"));
    s.m.ops += 1;
    if !ok_expected {
        return;
    }
    s.m.sync(i, now);
    let re = s.m.pools[i].rewards.get_mut(&tok).unwrap();
    let mut rem = re.orphan;
    let first_end = re.scheds.iter().map(|x| x.1).filter(|e| *e > now).min().unwrap_or(now);
    let mut left = z();
    for (a, b, q) in &re.scheds {
        let e = (*b).max(now) - now.max(*a);
        if bypass {
            let near = first_end.min(*b).saturating_sub(now.max(*a));
            rem += *q * u512(near as u128);
            left += *q * u512((e - near) as u128);
        } else {
            rem += *q * u512(e as u128);
        }
    }
    re.orphan = z();
    re.scheds.clear();
    re.present = false;
    let got = d.get(&(RCV.to_string(), tok.clone())).copied().unwrap_or(0);
    ent(&mut d, RCV, &tok, -got);
    ent(&mut d, &s.inc, &tok, got);
    if !left.is_zero() {
        s.m.tainted.insert(tok.clone());
        s.clouded.insert(i);
        m.count("removals abandoning later schedules");
    }
    if s.broken.contains(&tok) {
        m.check("I05", "refused-transfer", got == 0, || format!("{what}: {got} arrived"));
    } else if !s.m.tainted.contains(&tok) {
        let hi = fl(rem + sc() / u512(1000));
        let slack = 2.0 + hi as f64 * 1e-12;
        let sl2 = slack + s.m.pools[i].users.len() as f64;
        for p in ["I02", "I05"] {
            m.check(p, "removal-over", got >= 0 && got as u128 <= hi, || format!("{what}: {got} returned, {hi} is unemitted or unearned"));
            m.check(p, "removal-under", got as f64 + sl2 >= hi as f64, || format!("{what}: {got} returned, {hi} is unemitted or unearned"));
        }
        m.seen("I05", ("rm", i, (hi as f64 + 1.0).log10() as i32));
        m.seen("I02", ("rm", i, (hi as f64 + 1.0).log10() as i32));
    }
    rest_empty(m, &["I02", "I05"], &d, &what);
    m.count("removals");
}
/// Whatever the batch size, claiming again and again pays every orphaned reward.
fn drain_orphans(s: &mut S, r: &mut Rng, m: &mut Mon) {
    if !r.chance(1, 3) {
        return;
    }
    let limit = *r.pick(&[1u8, 1, 2, 5]);
    let known: BTreeMap<String, u128> = s
        .m
        .orphans
        .iter()
        .filter(|(t, _)| !s.m.tainted.contains(*t) && !s.broken.contains(*t))
        .map(|(t, v)| (t.clone(), fl(*v).saturating_sub(s.m.orphan_parts.get(t).copied().unwrap_or(0) as u128 + 1)))
        .filter(|(_, v)| *v > 1000)
        .collect();
    let w = &s.w;
    let inc = s.inc.clone();
    let (n, missing) = w.c.dry(|| {
        let l0 = w.ledger();
        let mut n = 0;
        while n < 60 && w.c.exec(OWNER, &inc, &X::ClaimOrphanedRewards { limit: Some(limit), receiver: RCV.into() }, &[]).is_ok() {
            n += 1;
        }
        let d = diff(&l0, &w.ledger());
        let missing: Vec<(String, u128)> =
            known.iter().filter(|(t, _)| d.get(&(RCV.to_string(), (*t).clone())).copied().unwrap_or(0) == 0).map(|(t, v)| (t.clone(), *v)).collect();
        (n, missing)
    });
    m.check("I05", "orphans-drain", missing.is_empty(), || format!("{n} claims of orphaned rewards with limit {limit} left {missing:?} unpaid"));
    if !known.is_empty() {
        m.seen("I05", ("drain", known.len(), n, limit));
        m.count("orphan drains");
    }
}
fn claim_orphans(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let caller = if r.chance(1, 8) { r.pick(&[CTRL, GUARD, "wasm1user1"]).to_string() } else { OWNER.to_string() };
    let limit: Option<u8> = if r.chance(1, 2) || !s.broken.is_empty() { None } else { Some(*r.pick(&[1u8, 1, 2, 3, 10, 255])) };
    let what = format!("claim orphaned rewards by {caller} limit {limit:?}");
    m.step(|| what.clone());
    drain_orphans(s, r, m);
    let (x, mut d) =
        led(s, || s.w.c.exec(&caller, &s.inc, &X::ClaimOrphanedRewards { limit, receiver: RCV.into() }, &[]));
    // what certainly was recorded, up to one unit per recorded part
    let known: BTreeMap<String, (u128, u64)> =
        s.m.orphans.iter().map(|(t, v)| (t.clone(), (fl(*v), s.m.orphan_parts.get(t).copied().unwrap_or(0)))).collect();
    if x.is_err() {
        let must = caller == OWNER && known.iter().any(|(t, (v, n))| *v > *n as u128 + 1 && !s.m.tainted.contains(t));
        m.check("I05", "orphans-claimable", !must, || format!("{what} refused ({}) although {known:?} is orphaned", short(&x)));
        m.count("refused orphan claims");
        return;
    }
    m.check("I05", "orphans-owner-only", caller == OWNER, || format!("{what} accepted"));
    s.m.ops += 1;
    let toks: BTreeSet<String> = d.keys().map(|k| k.1.clone()).chain(known.keys().cloned()).collect();
    let paid: Vec<String> = d.keys().filter(|k| k.0 == RCV).map(|k| k.1.clone()).collect();
    m.check("I05", "orphans-limit", paid.len() <= limit.unwrap_or(10).min(10) as usize, || format!("{what}: paid {paid:?}"));
    for t in toks {
        let got = d.get(&(RCV.to_string(), t.clone())).copied().unwrap_or(0);
        if got == 0 && limit.is_some() {
            // left for the next time (or less than one unit, which stays in the contract)
            continue;
        }
        ent(&mut d, RCV, &t, -got);
        ent(&mut d, &s.inc, &t, got);
        let (v, n) = known.get(&t).copied().unwrap_or((0, 0));
        let whole = s.m.orphans.insert(t.clone(), z()).unwrap_or(z());
        s.m.orphan_parts.insert(t.clone(), 0);
        let _ = whole;
        if s.m.tainted.contains(&t) || s.broken.contains(&t) {
            continue;
        }
        for p in ["I02", "I05"] {
            m.check(p, "orphans-over", got >= 0 && got as u128 <= fl(whole + sc() / u512(1000)), || format!("{what}: {got} of {t} paid, {v} was orphaned"));
            m.check(p, "orphans-under", got as f64 + n as f64 + 2.0 + v as f64 * 1e-12 >= v as f64, || format!("{what}: {got} of {t} paid, {v} was orphaned"));
        }
        if got > 0 {
            m.count("orphaned rewards paid");
            m.seen("I05", ("orphan", t.clone(), (got as f64).log10() as i32));
        }
    }
    rest_empty(m, &["I02", "I05"], &d, &what);
}
fn setup_pools(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let now = s.w.c.now();
    let caller = r.pick(&[OWNER, OWNER, OWNER, CTRL, CTRL, GUARD, "wasm1user0"]).to_string();
    let mut ids: Vec<usize> = (0..s.m.pools.len()).collect();
    r.shuffle(&mut ids);
    let k = r.idx(ids.len() + 1);
    ids.truncate(k);
    let mut list: Vec<(usize, u128)> = ids
        .iter()
        .map(|i| (*i, if r.chance(1, 25) { 0 } else { *r.pick(&[1u128, 2, 3, 10, 100, 1000, 1_000_000_000, 999_999_937]) }))
        .collect();
    if r.chance(1, 15) && !list.is_empty() {
        list.push((list[0].0, 7));
    }
    let mut bad: Option<&str> = None;
    if caller != OWNER && caller != CTRL {
        bad = Some("caller");
    } else if list.iter().any(|x| x.1 == 0) {
        bad = Some("zero points");
    } else if list.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() != list.len() {
        bad = Some("duplicate");
    }
    for (i, _) in &list {
        let p = &s.m.pools[*i];
        if !p.registered {
            bad.get_or_insert("unregistered");
        } else if p.assets.iter().any(|a| s.blocked.contains(&s.w.toks[*a].id)) {
            bad.get_or_insert("blocked token");
        } else if s.gen_off.contains(&p.legacy) {
            bad.get_or_insert("blocked pair type");
        }
    }
    let what = format!("setup pools {list:?} by {caller}");
    m.step(|| format!("{what} (expected {bad:?})"));
    let msg = X::SetupPools { pools: list.iter().map(|(i, a)| (s.m.pools[*i].lp.clone(), Uint128::new(*a))).collect() };
    let (x, d) = led(s, || s.w.c.exec(&caller, &s.inc, &msg, &[]));
    if x.is_err() {
        for p in ["I04", "I06"] {
            m.check(p, "setup-accepted", bad.is_some(), || format!("{what} refused: {}", short(&x)));
        }
        m.count("refused set-ups");
        m.seen("I06", ("setup", bad));
        return;
    }
    for p in ["I04", "I06"] {
        m.check(p, "setup-refused", bad.is_none(), || format!("{what} accepted in spite of: {bad:?}"));
    }
    if bad.is_some() {
        return;
    }
    s.m.ops += 1;
    s.m.emit(now);
    s.m.sync_active(now);
    for (i, _) in &list {
        s.m.sync(*i, now);
        s.m.pools[*i].last = now;
    }
    for p in &mut s.m.pools {
        p.alloc = None;
    }
    for (i, a) in &list {
        s.m.pools[*i].alloc = Some(*a);
    }
    s.m.redivide();
    rest_empty(m, &["I04"], &d, &what);
    m.count("set-ups");
    m.seen("I04", list.clone());
}
fn set_rate(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let now = s.w.c.now();
    let caller = r.pick(&[OWNER, OWNER, OWNER, OWNER, CTRL, GUARD, "wasm1user0"]).to_string();
    let a = match r.idx(5) {
        0 => 0,
        1 => r.range128(1, 10),
        _ => r.log(1, 10u128.pow(18)),
    };
    let what = format!("set {a} tokens per second by {caller}");
    m.step(|| what.clone());
    let x = s.w.c.exec(&caller, &s.inc, &X::SetTokensPerSecond { amount: Uint128::new(a) }, &[]);
    m.check("I04", "rate-owner-only", x.is_ok() == (caller == OWNER), || format!("{what}: {}", short(&x)));
    if x.is_ok() && caller == OWNER {
        s.m.ops += 1;
        s.m.emit(now);
        s.m.sync_active(now);
        s.m.aps = a;
        s.m.redivide();
        m.count("rate changes");
    }
}
/// deactivates the given pools in the model
fn drop_pools(s: &mut S, out: &[usize]) {
    let now = s.w.c.now();
    if out.is_empty() {
        return;
    }
    s.m.emit(now);
    s.m.sync_active(now);
    for i in out {
        s.m.pools[*i].alloc = None;
    }
    s.m.redivide();
}
fn block(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let caller = r.pick(&[OWNER, OWNER, GUARD, GUARD, CTRL, "wasm1user0"]).to_string();
    let pick = |r: &mut Rng, n: usize| -> Vec<String> {
        (0..n).map(|_| s.w.toks[r.idx(6)].id.clone()).collect()
    };
    let n_add = r.weighted(&[3, 4, 3]);
    let add = pick(r, n_add);
    let remove: Vec<String> = if r.chance(3, 4) {
        s.blocked.iter().filter(|_| r.chance(1, 2)).cloned().collect()
    } else {
        pick(r, 1)
    };
    let both: Vec<&String> = add.iter().chain(remove.iter()).collect();
    let uniq = both.iter().collect::<BTreeSet<_>>().len() == both.len();
    let ok_expected = (caller == OWNER || caller == GUARD)
        && uniq
        && remove.iter().all(|t| s.blocked.contains(t))
        && add.iter().all(|t| !s.blocked.contains(t) && t != &s.m.astro);
    let what = format!("block {add:?} unblock {remove:?} by {caller}");
    m.step(|| what.clone());
    let msg = X::UpdateBlockedTokenslist {
        add: add.iter().map(|t| info(s, t)).collect(),
        remove: remove.iter().map(|t| info(s, t)).collect(),
    };
    let x = s.w.c.exec(&caller, &s.inc, &msg, &[]);
    for p in ["I04", "I06"] {
        m.check(p, "block-list", x.is_ok() == ok_expected, || format!("{what}: {} (expected ok={ok_expected})", short(&x)));
    }
    if x.is_ok() {
        s.m.ops += 1;
        for t in &remove {
            s.blocked.remove(t);
        }
        for t in &add {
            s.blocked.insert(t.clone());
        }
        let out: Vec<usize> = (0..s.m.pools.len())
            .filter(|i| {
                let p = &s.m.pools[*i];
                p.alloc.is_some() && p.assets.iter().any(|a| add.contains(&s.w.toks[*a].id))
            })
            .collect();
        m.seen("I04", ("block", out.len(), add.len()));
        drop_pools(s, &out);
        m.count("block list updates");
    }
    let mut got: BTreeSet<String> = Default::default();
    let mut after = None;
    loop {
        let v: Vec<AssetInfo> =
            s.w.c.query(&s.inc, &Q::BlockedTokensList { start_after: after.clone(), limit: Some(2) }).expect("blocked list");
        if v.is_empty() {
            break;
        }
        after = v.last().cloned();
        v.iter().for_each(|a| {
            got.insert(a.to_string());
        });
    }
    m.check("I06", "block-list-query", got == s.blocked, || format!("blocked tokens reported {got:?}, expected {:?}", s.blocked));
}
fn pair_admin(s: &mut S, r: &mut Rng, m: &mut Mon) {
    match r.idx(3) {
        0 => {
            if !r.chance(1, 4) {
                return;
            }
            let i = r.idx(s.m.pools.len());
            if !s.m.pools[i].registered {
                return;
            }
            let infos: Vec<AssetInfo> = s.m.pools[i].assets.iter().map(|a| s.w.toks[*a].info.clone()).collect();
            let what = format!("deregister pool {i}");
            m.step(|| what.clone());
            let x = s.w.c.exec(OWNER, &s.w.factory, &fac::ExecuteMsg::Deregister { asset_infos: infos }, &[]);
            m.check("I04", "deregister-possible", x.is_ok(), || format!("{what}: {}", short(&x)));
            if x.is_ok() {
                s.m.ops += 1;
                s.m.pools[i].registered = false;
                if s.m.pools[i].alloc.is_some() {
                    drop_pools(s, &[i]);
                    m.seen("I04", ("deregister", s.m.aps == 0));
                }
                m.count("deregistrations");
            }
        }
        1 => {
            let legacy = r.chance(1, 2);
            let off = !s.gen_off.contains(&legacy);
            m.step(|| format!("emissions for pair type old={legacy} off={off}"));
            s.w.c
                .exec(
                    OWNER,
                    &s.w.factory,
                    &fac::ExecuteMsg::UpdatePairConfig {
                        config: PairConfig {
                            code_id: if legacy { s.legacy_code } else { s.w.codes.xyk },
                            pair_type: if legacy { PairType::Custom("old".into()) } else { PairType::Xyk {} },
                            total_fee_bps: 30,
                            maker_fee_bps: 0,
                            is_disabled: false,
                            is_generator_disabled: off,
                            permissioned: false,
                        },
                    },
                    &[],
                )
                .expect("pair config");
            if off {
                s.gen_off.insert(legacy);
            } else {
                s.gen_off.remove(&legacy);
            }
        }
        _ => {
            let out: Vec<usize> = (0..s.m.pools.len())
                .filter(|i| s.m.pools[*i].alloc.is_some() && s.gen_off.contains(&s.m.pools[*i].legacy))
                .collect();
            m.step(|| format!("deactivate blocked pools, expected {out:?}"));
            let x = s.w.c.exec("wasm1anyone", &s.inc, &X::DeactivateBlockedPools {}, &[]);
            m.check("I04", "deactivate-blocked", x.is_ok(), || format!("DeactivateBlockedPools: {}", short(&x)));
            if x.is_ok() {
                s.m.ops += 1;
                m.seen("I04", ("deact", out.len()));
                drop_pools(s, &out);
            }
        }
    }
}
/// The protocol token is replaced (as in the ASTRO token migration): emissions come from a new vesting contract in the new
/// token from now on, whatever has accrued included.
fn new_astro(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let cand: Vec<usize> = (0..4).filter(|t| s.w.toks[*t].id != s.m.astro && !s.blocked.contains(&s.w.toks[*t].id)).collect();
    if cand.is_empty() {
        return;
    }
    let t = s.w.toks[*r.pick(&cand)].clone();
    m.step(|| format!("protocol token becomes {}", t.id));
    let vest = s
        .w
        .c
        .instantiate(s.vcode, OWNER, &av::InstantiateMsg { owner: OWNER.into(), vesting_token: t.info.clone() }, &[], "vesting")
        .expect("vesting")
        .0;
    let funds = 1_000_000_000_000_000_000_000_000_000_000u128;
    s.w.c.fund(OWNER, &t.id, funds);
    s.w.c
        .exec(
            OWNER,
            &vest,
            &av::ExecuteMsg::RegisterVestingAccounts {
                vesting_accounts: vec![av::VestingAccount {
                    address: s.inc.clone(),
                    schedules: vec![av::VestingSchedule {
                        start_point: av::VestingSchedulePoint { time: s.w.c.now(), amount: Uint128::new(funds) },
                        end_point: None,
                    }],
                }],
            },
            &[coin(funds, &t.id)],
        )
        .expect("fund vesting");
    let x = s.w.c.exec(OWNER, &s.inc, &serde_json::json!({"update_config": {"astro_token": t.info, "vesting_contract": vest}}), &[]);
    m.check("I04", "token-replacement", x.is_ok(), || format!("replacing the protocol token failed: {}", short(&x)));
    if x.is_ok() {
        s.vest = vest;
        s.m.astro = t.id;
        s.replaced += 1;
        for i in 0..s.m.pools.len() {
            s.clouded.insert(i);
        }
        m.count("protocol token replaced");
    }
}
fn misc(s: &mut S, r: &mut Rng, m: &mut Mon) {
    match r.idx(6) {
        0 => {
            // the fee changes
            let t = *r.pick(&[1usize, 1, 3, 0]);
            let a = r.log(1, 1_000_000_000);
            m.step(|| format!("fee becomes {a} of token {t}"));
            s.w.c
                .exec(
                    OWNER,
                    &s.inc,
                    &X::UpdateConfig {
                        astro_token: None,
                        vesting_contract: None,
                        generator_controller: None,
                        guardian: None,
                        incentivization_fee_info: Some(ai::IncentivizationFeeInfo {
                            fee_receiver: Addr::unchecked(FEERCV),
                            fee: coin(a, &s.w.toks[t].id),
                        }),
                        token_transfer_gas_limit: None,
                    },
                    &[],
                )
                .expect("fee update");
            s.fee = Some((t, a));
        }
        1 | 2 => {
            // a cw20 token starts or stops refusing transfers
            let cw: Vec<String> = s.w.toks[4..6].iter().map(|t| t.id.clone()).collect();
            let t = r.pick(&cw).clone();
            let b = !s.broken.contains(&t);
            m.step(|| format!("{t} refuses transfers: {b}"));
            s.w.c.set_broken(&t, b);
            if b {
                s.broken.insert(t);
            } else {
                s.broken.remove(&t);
            }
        }
        3 => {
            // somebody sends tokens to the contract
            let u = r.pick(&s.w.users).clone();
            let t = s.w.toks[r.idx(4)].clone();
            let a = r.log(1, 1_000_000);
            m.step(|| format!("{u} sends {a} {} to the contract", t.id));
            s.w.donate(&u, &s.inc, &t, a).expect("donation");
        }
        4 => {
            // deposits of tokens that are no LP tokens of registered pairs
            let u = "wasm1user0";
            let fake = s.w.c.create_denom("wasm1user0", "lp");
            s.w.c.fund(u, &fake, 1000);
            let odd = format!("factory/{}/other", s.m.pools[0].pair);
            s.w.c.fund(u, &odd, 1000);
            for dn in [fake, odd, s.w.toks[1].id.clone()] {
                let x = s.w.c.exec(u, &s.inc, &X::Deposit { recipient: None }, &[coin(10, &dn)]);
                m.check("I06", "foreign-deposit", x.is_err(), || format!("deposit of {dn} accepted"));
                let x = s.w.c.dry(|| {
                    s.w.c.exec(
                        OWNER,
                        &s.inc,
                        &X::SetupPools { pools: vec![(dn.clone(), Uint128::one())] },
                        &[],
                    )
                });
                m.check("I06", "foreign-setup", x.is_err(), || format!("emissions for {dn} accepted"));
                let a = 30 * EPOCH as u128;
                let mut cs = vec![coin(a, &s.w.toks[2].id)];
                if let Some((t, fa)) = s.fee {
                    if t == 2 {
                        cs = vec![coin(a + fa, &s.w.toks[2].id)];
                    } else {
                        cs.push(coin(fa, &s.w.toks[t].id));
                        cs.sort_by(|a, b| a.denom.cmp(&b.denom));
                    }
                }
                let x = s.w.c.dry(|| {
                    s.w.c.exec(
                        u,
                        &s.inc,
                        &X::Incentivize {
                            lp_token: dn.clone(),
                            schedule: ai::InputSchedule {
                                reward: Asset { info: s.w.toks[2].info.clone(), amount: Uint128::new(a) },
                                duration_periods: 1,
                            },
                        },
                        &cs,
                    )
                });
                m.check("I06", "foreign-incentivize", x.is_err(), || format!("schedule for {dn} accepted"));
            }
            // a cw20 token that is no LP token
            let t = s.w.toks[4].id.clone();
            if !s.broken.contains(&t) {
                let x = s.w.c.exec(
                    u,
                    &t,
                    &cw20::Cw20ExecuteMsg::Send {
                        contract: s.inc.clone(),
                        amount: Uint128::new(5),
                        msg: to_json_binary(&ai::Cw20Msg::Deposit { recipient: None }).unwrap(),
                    },
                    &[],
                );
                m.check("I06", "foreign-deposit", x.is_err(), || format!("deposit of cw20 {t} accepted"));
            }
        }
        _ => {
            // only the factory deactivates single pools
            let i = r.idx(s.m.pools.len());
            let x = s.w.c.exec("wasm1user0", &s.inc, &X::DeactivatePool { lp_token: s.m.pools[i].lp.clone() }, &[]);
            m.check("I04", "deactivate-factory-only", x.is_err(), || format!("a user deactivated pool {i}"));
        }
    }
}
fn audit(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let now = s.w.c.now();
    // I04: configuration and active set
    let c: ai::Config = s.w.c.query(&s.inc, &Q::Config {}).expect("config");
    let act: Vec<(String, Uint128)> = s.w.c.query(&s.inc, &Q::ActivePools {}).expect("active pools");
    let got: BTreeMap<String, u128> = act.iter().map(|(a, b)| (a.clone(), b.u128())).collect();
    let exp: BTreeMap<String, u128> = s.m.pools.iter().filter_map(|p| p.alloc.map(|a| (p.lp.clone(), a))).collect();
    m.check("I04", "active-set", got == exp && act.len() == exp.len(), || format!("active pools {act:?}, expected {exp:?}"));
    m.check("I04", "total-alloc", c.total_alloc_points.u128() == s.m.total_alloc(), || {
        format!("total allocation {} but the active pools add up to {}", c.total_alloc_points, s.m.total_alloc())
    });
    m.check("I04", "rate", c.astro_per_second.u128() == s.m.aps, || format!("rate {} expected {}", c.astro_per_second, s.m.aps));
    s.m.emit(now);
    m.check("I04", "total-emission", s.vest_paid <= fl(s.m.emitted), || format!("{} emitted so far, at most {} allowed", s.vest_paid, fl(s.m.emitted)));
    {
        let lim = r.range(1, 4) as u8;
        let mut all: Vec<String> = vec![];
        for _ in 0..60 {
            let v: Result<Vec<String>, String> = s.w.c.query(&s.inc, &Q::ListPools { start_after: all.last().cloned(), limit: Some(lim) });
            m.check("I01", "pool-list", v.is_ok(), || format!("ListPools: {v:?}"));
            let v = v.unwrap_or_default();
            if v.is_empty() {
                break;
            }
            all.extend(v);
        }
        let got: BTreeSet<String> = all.iter().cloned().collect();
        let exp: BTreeSet<String> = s.m.pools.iter().filter(|p| p.exists).map(|p| p.lp.clone()).collect();
        m.check("I01", "pool-list", got == exp && all.len() == exp.len(), || format!("ListPools (by {lim}) gives {all:?}, expected {exp:?}"));
    }
    for (i, p) in s.m.pools.iter().enumerate() {
        if !p.exists {
            continue;
        }
        let pi: Result<ai::PoolInfoResponse, String> = s.w.c.query(&s.inc, &Q::PoolInfo { lp_token: p.lp.clone() });
        let Ok(pi) = pi else {
            m.check("I01", "pool-info", false, || format!("pool {i}: {pi:?}"));
            continue;
        };
        rates(s, m, i, now);
        m.check("I01", "pool-total", pi.total_lp.u128() == p.total, || format!("pool {i}: total {} expected {}", pi.total_lp, p.total));
        for u in &s.w.users {
            let d: Uint128 = s.w.c.query(&s.inc, &Q::Deposit { lp_token: p.lp.clone(), user: u.clone() }).expect("deposit query");
            let e = p.users.get(u).map(|x| x.amount).unwrap_or(0);
            m.check("I01", "user-stake", d.u128() == e, || format!("pool {i}: stake of {u} is {d}, expected {e}"));
        }
        let lim = r.range(1, 4) as u8;
        let mut seen: BTreeMap<String, u128> = BTreeMap::new();
        let mut n = 0usize;
        let mut after = None;
        for _ in 0..40 {
            let v: Vec<(String, Uint128)> = s
                .w
                .c
                .query(&s.inc, &Q::PoolStakers { lp_token: p.lp.clone(), start_after: after.clone(), limit: Some(lim) })
                .expect("stakers");
            if v.is_empty() {
                break;
            }
            m.check("I01", "page-size", v.len() <= lim as usize, || format!("PoolStakers returned {} entries with limit {lim}", v.len()));
            after = v.last().map(|x| x.0.clone());
            n += v.len();
            seen.extend(v.into_iter().map(|(a, b)| (a, b.u128())));
        }
        let e: BTreeMap<String, u128> = p.users.iter().map(|(a, b)| (a.clone(), b.amount)).collect();
        m.check("I01", "stakers", seen == e && n == e.len(), || format!("pool {i}: stakers {seen:?} expected {e:?}"));
    }
    // I01 / I02: custody and solvency
    let ids: BTreeSet<String> =
        s.w.toks.iter().map(|t| t.id.clone()).chain(s.m.pools.iter().map(|p| p.lp.clone())).collect();
    for t in ids {
        let b = bal(s, &s.inc, &t);
        let st = s.m.staked(&t);
        m.check("I01", "custody", b >= st, || format!("the contract holds {b} of {t}, {st} is staked"));
        let li = s.m.liability(&t, now);
        if !s.m.tainted.contains(&t) {
            m.check("I02", "funded", u512(b) * sc() + sc() / u512(1000) >= u512(st) * sc() + li, || {
                format!("the contract holds {b} of {t}; staked {st}, owed or to be emitted {}", fl(li))
            });
        }
        if t != s.m.astro {
            // black box: everything quoted to stakers is there
            let mut q = 0u128;
            for i in 0..s.m.pools.len() {
                for u in s.m.pools[i].users.keys() {
                    match pending(s, i, u) {
                        Ok(p) => q += p.get(&t).copied().unwrap_or(0),
                        Err(e) => {
                            m.check("I02", "quote-available", false, || format!("pending rewards of {u} in pool {i}: {e}"));
                            m.check("I07", "quote-available", false, || format!("pending rewards of {u} in pool {i}: {e}"));
                        }
                    }
                }
            }
            m.check("I02", "quotes-funded", b >= st + q, || format!("the contract holds {b} of {t}; staked {st}, quoted to stakers {q}"));
        }
    }
    m.count("audits");
    m.seen("I01", (s.m.pools.iter().map(|p| p.users.len()).collect::<Vec<_>>(), s.blocked.len()));
}
fn advance(s: &S, r: &mut Rng, m: &mut Mon) {
    let now = s.w.c.now();
    let dt = match r.idx(8) {
        0 | 1 => return,
        2 => 1,
        3 => r.range(2, 3600),
        4 => r.range(3600, 3 * 86400),
        5 => {
            // to the next epoch boundary, or right beside it
            let e = epoch_end(now, 0) - now;
            (e + r.idx(3) as u64).saturating_sub(1).max(1)
        }
        6 => EPOCH,
        _ => r.range(86400, 5 * EPOCH),
    };
    m.step(|| format!("advance {dt} s"));
    s.w.c.advance(1 + dt / 6, dt);
}
fn life(r: &mut Rng, m: &mut Mon) {
    live(setup(r), r, m)
}
/// rewards are often removed while later schedules are abandoned, and brought back
fn abandon(r: &mut Rng, m: &mut Mon) {
    let mut s = setup(r);
    s.bypass = 12;
    if r.chance(1, 2) {
        let i = r.idx(s.m.pools.len());
        let tok = s.w.toks[r.idx(6)].id.clone();
        for _ in 0..3 {
            deposit(&mut s, r, m);
        }
        let (a, b, c) = (r.range(2, 12), r.range(4, 25), r.range(1, 8));
        for k in [a.min(b), a.max(b)] {
            let amt = r.log(100 * EPOCH as u128, 1u128 << 80);
            s.force = Some((i, tok.clone(), k, amt));
            incentivize(&mut s, r, m);
            s.force = None;
            advance(&s, r, m);
        }
        s.force_rm = Some((i, tok.clone()));
        remove_reward(&mut s, r, m);
        s.force_rm = None;
        s.force = Some((i, tok.clone(), c, r.log(30 * EPOCH as u128, 1u128 << 50)));
        incentivize(&mut s, r, m);
        s.force = None;
        for _ in 0..8 {
            if m.failed() {
                return;
            }
            s.w.c.advance(100_000, r.range(1, 6) * EPOCH);
            match r.idx(3) {
                0 => claim(&mut s, r, m),
                1 => deposit(&mut s, r, m),
                _ => withdraw(&mut s, r, m, None),
            }
            audit(&mut s, r, m);
        }
    }
    live(s, r, m)
}
/// one pool is given as many reward tokens as it takes, and one more
fn crowd(s: &mut S, r: &mut Rng, m: &mut Mon) {
    let i = r.idx(s.m.pools.len());
    let mut toks: Vec<String> = s.w.toks[..6].iter().map(|t| t.id.clone()).collect();
    toks.retain(|t| t != &s.m.astro && !s.blocked.contains(t));
    toks.extend(s.m.pools.iter().map(|p| p.lp.clone()));
    if r.chance(1, 4) {
        toks.push(s.m.astro.clone());
    }
    r.shuffle(&mut toks);
    toks.truncate(8);
    for t in toks {
        if m.failed() {
            return;
        }
        s.force = Some((i, t, r.range(1, 4), r.log(10 * EPOCH as u128, 1u128 << 60)));
        incentivize(s, r, m);
        s.force = None;
        if r.chance(1, 3) {
            s.w.c.advance(10, r.range(1, EPOCH / 4));
        }
    }
    m.count("crowded pools");
    if r.chance(1, 2) {
        deposit(s, r, m);
    }
    audit(s, r, m);
}
fn live(mut s: S, r: &mut Rng, m: &mut Mon) {
    let n = 30 + r.idx(90);
    let scale: Vec<u64> = match r.idx(4) {
        0 => vec![10, 8, 8, 10, 5, 3, 1, 1, 1, 1, 2], // external rewards
        1 => vec![8, 6, 8, 1, 1, 1, 6, 5, 4, 4, 1],   // protocol emissions
        2 => vec![4, 8, 6, 10, 8, 4, 1, 1, 2, 1, 2],  // few stakers, many removals
        _ => vec![8, 6, 7, 7, 3, 2, 3, 3, 3, 2, 2],
    };
    let swaps = r.chance(1, 6);
    for k in 0..n {
        if m.failed() {
            return;
        }
        advance(&s, r, m);
        if swaps && r.chance(1, 15) {
            new_astro(&mut s, r, m);
        }
        if r.chance(1, 600) {
            crowd(&mut s, r, m);
        }
        match r.weighted(&scale) {
            0 => deposit(&mut s, r, m),
            1 => withdraw(&mut s, r, m, None),
            2 => claim(&mut s, r, m),
            3 => incentivize(&mut s, r, m),
            4 => remove_reward(&mut s, r, m),
            5 => claim_orphans(&mut s, r, m),
            6 => setup_pools(&mut s, r, m),
            7 => set_rate(&mut s, r, m),
            8 => block(&mut s, r, m),
            9 => pair_admin(&mut s, r, m),
            _ => misc(&mut s, r, m),
        }
        if k % 5 == 4 {
            audit(&mut s, r, m);
        }
    }
    wind_up(&mut s, r, m);
}
/// everybody leaves; what remains is rounding dust and refused transfers
fn wind_up(s: &mut S, r: &mut Rng, m: &mut Mon) {
    m.step(|| "wind up".into());
    for t in s.broken.clone() {
        s.w.c.set_broken(&t, false);
    }
    let had_broken = !s.broken.is_empty();
    s.broken.clear();
    if r.chance(2, 3) {
        s.w.c.advance(1000, 30 * EPOCH);
    }
    for i in 0..s.m.pools.len() {
        for (u, x) in s.m.pools[i].users.clone() {
            if m.failed() {
                return;
            }
            withdraw(s, r, m, Some((i, u, x.amount)));
        }
    }
    let _ = had_broken;
    audit(s, r, m);
    claim_orphans(s, r, m);
    audit(s, r, m);
    for p in &s.m.pools {
        m.check("I01", "all-returned", p.total == 0, || format!("{} still staked", p.total));
    }
    m.count("complete lives");
}
fn main() {
    const R: &str = "distinct tuples of (operation class, pools and tokens involved, order of magnitude, number of stakers/schedules)";
    let props = ["I01", "I02", "I03", "I04", "I05", "I06", "I07"];
    let specs = props
        .iter()
        .map(|p| Spec { prop: p, profiles: vec![("life", 12_000, 300_000, life), ("abandon", 4_000, 100_000, abandon)], rule: R })
        .collect();
    sim::main_with("inc", specs);
}
