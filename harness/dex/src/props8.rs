//! P20: routes through a token whose contract talks back. While it is being transferred or sent it may call anything: the
//! router again (with a route of its own), the pools of the route, the router's internal entry points. Whatever it does, a
//! route that succeeds has delivered at least the trader's minimum to the receiver.
use crate::eng::*;
use astroport::pair as ap;
use astroport::router as rt;
use cosmwasm_std::{coin, from_json, to_json_binary, CosmosMsg, Deps, DepsMut, Env, MessageInfo, Reply, Response, StdError, SubMsg, WasmMsg};
use serde::Serialize;
use serde_json::json;
use sim::Code;
use world::*;

const ARM: &[u8] = b"arm";
type Val = serde_json::Value;
fn evil_exec(deps: DepsMut, env: Env, info: MessageInfo, msg: Val) -> Result<Response, cw20_base::ContractError> {
    if let Some(v) = msg.get("arm") {
        deps.storage.set(ARM, v.to_string().as_bytes());
        return Ok(Response::new());
    }
    let m: cw20::Cw20ExecuteMsg = serde_json::from_value(msg).map_err(|e| StdError::generic_err(e.to_string()))?;
    let moves = matches!(m, cw20::Cw20ExecuteMsg::Send { .. } | cw20::Cw20ExecuteMsg::Transfer { .. } | cw20::Cw20ExecuteMsg::TransferFrom { .. });
    let armed = if moves { deps.storage.get(ARM) } else { None };
    let mut extra: Vec<SubMsg> = vec![];
    if let Some(a) = armed {
        // [wait, [messages]]: strike at the given transfer
        let (wait, list): (u64, Vec<CosmosMsg>) = serde_json::from_slice(&a).map_err(|e| StdError::generic_err(e.to_string()))?;
        if wait == 0 {
            deps.storage.remove(ARM);
            extra = list.into_iter().map(|x| SubMsg::reply_on_error(x, 7)).collect();
        } else {
            deps.storage.set(ARM, serde_json::to_string(&(wait - 1, list)).unwrap().as_bytes());
        }
    }
    let early = env.block.height % 2 == 0;
    let mut r = cw20_base::contract::execute(deps, env, info, m)?;
    if early {
        extra.append(&mut r.messages);
        r.messages = extra;
    } else {
        r.messages.append(&mut extra);
    }
    Ok(r)
}
fn evil_reply(_: DepsMut, _: Env, _: Reply) -> Result<Response, StdError> {
    Ok(Response::new())
}
fn evil_query(deps: Deps, env: Env, msg: Val) -> Result<cosmwasm_std::Binary, StdError> {
    cw20_base::contract::query(deps, env, serde_json::from_value(msg).map_err(|e| StdError::generic_err(e.to_string()))?)
}
fn op(a: &Tok, b: &Tok) -> rt::SwapOperation {
    rt::SwapOperation::AstroSwap { offer_asset_info: a.info.clone(), ask_asset_info: b.info.clone() }
}
fn run_msg(c: &str, m: &impl Serialize, funds: Vec<cosmwasm_std::Coin>) -> CosmosMsg {
    WasmMsg::Execute { contract_addr: c.into(), msg: to_json_binary(m).unwrap(), funds }.into()
}
pub fn hostile(r: &mut Rng, m: &mut Mon) {
    let mut w = World::new(&[6, 6, 6], &[6], Fees { total: *r.pick(&[0, 30, 300]), maker: 3333 }, r.chance(1, 2));
    let code = w.c.store(Code::new("evil", cw20_base::contract::instantiate, evil_exec, evil_query).with_reply(evil_reply));
    let h: Vec<(&str, u128)> = w.users.iter().map(|u| (u.as_str(), 1 << 100)).collect();
    let ev = sim::cw20c::new_cw20(&w.c, code, "EVIL", 6, &h);
    let id = w.toks.len();
    w.toks.push(Tok { info: AssetInfo::cw20_unchecked(&ev), id: ev.clone(), dec: 6 });
    sim::cw20c::mint_cw20(&w.c, &ev, &ev, 1 << 100);
    for t in 0..3 {
        w.c.fund(&ev, &w.toks[t].id, 1 << 100);
    }
    // every pair of tokens has a pool
    let n = w.toks.len();
    let mut ix = std::collections::BTreeMap::new();
    for a in 0..n {
        for b in a + 1..n {
            let p = if a < 3 && r.chance(1, 4) { w.stable(a, b, 100) } else { w.xyk(a, b, r.chance(1, 3)) }.expect("pool");
            ix.insert((a, b), p);
            let pl = w.pools[p].clone();
            let amts: Vec<u128> = (0..2).map(|_| r.range128(1_000_000_000, 2_000_000_000)).collect();
            w.provide("wasm1user0", &pl, &amts, &Prov { slippage: Some(Decimal::percent(50)), ..Default::default() }).expect("seed");
        }
    }
    let router = {
        use astroport_router::contract as x;
        let c = w.c.store(Code::new("router", x::instantiate, x::execute, x::query).with_reply(x::reply));
        w.c.instantiate(c, OWNER, &rt::InstantiateMsg { astroport_factory: w.factory.clone() }, &[], "router").expect("router").0
    };
    for _ in 0..12 {
        if m.failed() {
            return;
        }
        w.c.advance(r.range(1, 4), r.range(1, 1000));
        let hops = 1 + r.idx(4);
        let mut path = vec![r.idx(n)];
        while path.len() <= hops {
            let t = if r.chance(1, 2) && *path.last().unwrap() != id { id } else { r.idx(n) };
            if t != *path.last().unwrap() {
                path.push(t)
            }
        }
        let (s, t) = (path[0], *path.last().unwrap());
        let ops: Vec<_> = path.windows(2).map(|x| op(&w.toks[x[0]], &w.toks[x[1]])).collect();
        let user = format!("wasm1user{}", r.idx(3));
        let amount = r.log(1000, 20_000_000);
        let to = if r.chance(1, 3) { Some("wasm1recv1".to_string()) } else { None };
        let recv = to.clone().unwrap_or(user.clone());
        let go = |min: Option<u128>| {
            let (o, mi) = (ops.clone(), min.map(Uint128::new));
            match &w.toks[s].info {
                AssetInfo::NativeToken { denom } => {
                    w.c.exec(&user, &router, &rt::ExecuteMsg::ExecuteSwapOperations { operations: o, minimum_receive: mi, to: to.clone(), max_spread: Some(Decimal::percent(50)) }, &[coin(amount, denom)])
                }
                AssetInfo::Token { contract_addr } => w.c.exec(
                    &user,
                    contract_addr.as_str(),
                    &json!({"send": {"contract": router, "amount": amount.to_string(), "msg": to_json_binary(&rt::Cw20HookMsg::ExecuteSwapOperations { operations: o, minimum_receive: mi, to: to.clone(), max_spread: Some(Decimal::percent(50)) }).unwrap()}}),
                    &[],
                ),
            }
        };
        let bal = || w.bal(&recv, &w.toks[t]);
        let outside = s != t || recv != user;
        if !outside {
            continue;
        }
        let before = bal();
        let honest = w.c.dry(|| go(None).map(|_| bal() - before));
        let min = match &honest {
            Ok(v) if *v > 0 => *v - *v / r.range128(2, 200),
            _ => continue,
        };
        // the token's answers
        let mut list: Vec<CosmosMsg> = vec![];
        for _ in 0..1 + r.idx(3) {
            let (a, b) = (r.idx(3), r.idx(n));
            if a == b {
                continue;
            }
            let x = r.log(10, 1 << 40);
            let pool = |a: usize, b: usize| w.pools[ix[&(a.min(b), a.max(b))]].addr.clone();
            list.push(match r.idx(6) {
                // a route of its own through the router
                0 | 1 => run_msg(
                    &router,
                    &rt::ExecuteMsg::ExecuteSwapOperations {
                        operations: vec![op(&w.toks[a], &w.toks[b])],
                        minimum_receive: if r.chance(1, 2) { None } else { Some(Uint128::zero()) },
                        to: if r.chance(1, 3) { Some(recv.clone()) } else { Some("wasm1thief".into()) },
                        max_spread: Some(Decimal::percent(50)),
                    },
                    vec![coin(r.log(10, 100_000), &w.toks[a].id)],
                ),
                // sells itself into the pool the route goes through next
                2 => {
                    let k = path.iter().position(|p| *p == id).map(|k| path.get(k + 1).copied().unwrap_or(0)).unwrap_or(0);
                    let k = if k == id { 0 } else { k };
                    let m = to_json_binary(&ap::Cw20HookMsg::Swap { ask_asset_info: None, belief_price: Some(Decimal::MAX), max_spread: Some(Decimal::percent(50)), to: Some("wasm1thief".into()) }).unwrap();
                    run_msg(&ev, &json!({"send": {"contract": pool(id, k), "amount": x.to_string(), "msg": m}}), vec![])
                }
                // buys
                3 => run_msg(
                    &pool(a, id),
                    &ap::ExecuteMsg::Swap { offer_asset: Asset { info: w.toks[a].info.clone(), amount: Uint128::new(x) }, ask_asset_info: None, belief_price: Some(Decimal::MAX), max_spread: Some(Decimal::percent(50)), to: Some("wasm1thief".into()) },
                    vec![coin(x, &w.toks[a].id)],
                ),
                // forged receipts and internal hops
                4 => run_msg(
                    &router,
                    &json!({"receive": {"sender": "wasm1thief", "amount": x.to_string(), "msg": to_json_binary(&rt::Cw20HookMsg::ExecuteSwapOperations { operations: vec![op(&w.toks[a], &w.toks[b])], minimum_receive: None, to: None, max_spread: None }).unwrap()}}),
                    vec![],
                ),
                _ => run_msg(&router, &rt::ExecuteMsg::ExecuteSwapOperation { operation: op(&w.toks[a], &w.toks[b]), to: Some("wasm1thief".into()), max_spread: None, single: false }, vec![]),
            });
        }
        let wait = r.idx(2 + hops);
        w.c.exec("wasm1user4", &ev, &json!({"arm": [wait, list]}), &[]).expect("arm");
        let tx = go(Some(min));
        let got = bal() - before;
        let struck = !w.c.raw_store(&ev).contains_key(ARM);
        w.c.exec("wasm1user4", &ev, &json!({"arm": [1_000_000_000u64, []]}), &[]).expect("disarm");
        m.step(|| format!("{user} routes {amount} along {path:?} for at least {min} (undisturbed {honest:?}); token {id} answers transfer {wait} with {} => {} ({got})", serde_json::to_string(&list).unwrap(), short(&tx)));
        if let Ok(tx) = &tx {
            m.check("P20", "minimum-disturbed", got >= min, || format!("route {path:?} of {amount} delivered {got} to {recv}, minimum {min}"));
            if let Some(d) = &tx.data {
                if let Ok(x) = from_json::<rt::SwapResponseData>(d) {
                    m.check("P20", "response-disturbed", x.return_amount.u128() == got, || format!("response data {}, delivered {got}", x.return_amount));
                }
            }
            m.count("disturbed routes executed");
        } else {
            m.count("disturbed routes refused");
        }
        if struck {
            m.seen("P20", ("hostile", path.iter().position(|p| *p == id), hops, wait, tx.is_ok(), list.len()));
            m.count("interruptions");
        }
    }
}
