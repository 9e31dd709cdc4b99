//! A03: the whitelisted proxy account.
use crate::common::*;
use std::collections::BTreeMap;
const P: &str = "A03";
pub fn code() -> Code {
    use astroport_whitelist::contract as k;
    let e = Code::new("whitelist", w_inst, k::execute, k::query);
    let i = Code::new("whitelist", k::instantiate, no_exec, k::query).with_sudo(k::sudo);
    Code { instantiate: i.instantiate, ..e }.with_sudo(k::sudo)
}
fn w_inst(_: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: cosmwasm_std::MessageInfo, _: serde_json::Value) -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> {
    unreachable!()
}
#[derive(Clone, Debug)]
enum Rl {
    Bank(String, Vec<(String, u128)>),
    /// contract, message, funds
    Call(String, serde_json::Value, Vec<(String, u128)>),
    Ibc(String, u128),
    /// the proxy calling itself
    Own(serde_json::Value, Box<Op>),
}
#[derive(Clone, Debug)]
enum Op {
    Exec(Vec<Rl>),
    Freeze,
    Admins(Vec<String>),
}
#[derive(Clone, Debug, PartialEq)]
struct Wm {
    admins: Vec<String>,
    mutable: bool,
    bal: BTreeMap<String, u128>,
}
const DEN: [&str; 2] = ["uaa", "ubb"];
fn coins_js(f: &[(String, u128)]) -> serde_json::Value {
    f.iter().map(|(d, a)| json!({"denom": d, "amount": a.to_string()})).collect()
}
fn js_rl(me: &str, r: &Rl, t: u64) -> serde_json::Value {
    match r {
        Rl::Bank(to, f) => json!({"bank": {"send": {"to_address": to, "amount": coins_js(f)}}}),
        Rl::Call(k, msg, f) => json!({"wasm": {"execute": {"contract_addr": k, "msg": to_json_binary(msg).unwrap(), "funds": coins_js(f)}}}),
        Rl::Ibc(d, a) => json!({"custom": {"ibc_transfer": {"source_port": "transfer", "source_channel": "channel-3", "token": {"denom": d, "amount": a.to_string()},
            "sender": me, "receiver": "cosmos1far", "timeout_height": {"revision_number": null, "revision_height": null}, "timeout_timestamp": t, "memo": "m",
            "fee": {"recv_fee": [], "ack_fee": [], "timeout_fee": []}}}}),
        Rl::Own(msg, _) => json!({"wasm": {"execute": {"contract_addr": me, "msg": to_json_binary(msg).unwrap(), "funds": []}}}),
    }
}
fn js_op(me: &str, o: &Op, t: u64) -> serde_json::Value {
    match o {
        Op::Exec(v) => json!({"execute": {"msgs": v.iter().map(|r| js_rl(me, r, t)).collect::<Vec<_>>()}}),
        Op::Freeze => json!({"freeze": {}}),
        Op::Admins(a) => json!({"update_admins": {"admins": a}}),
    }
}
/// what the chain must do; events as strings
fn model(w: &mut Wm, me: &str, sender: &str, o: &Op, ev: &mut Vec<String>) -> Result<(), ()> {
    let adm = w.admins.iter().any(|a| a == sender);
    match o {
        Op::Exec(v) => {
            if !adm {
                return Err(());
            }
            for r in v {
                let mut pay = |to: &str, f: &[(String, u128)], ev: &mut Vec<String>| -> Result<(), ()> {
                    for (d, a) in f {
                        let b = w.bal.entry(d.clone()).or_insert(0);
                        *b = b.checked_sub(*a).ok_or(())?;
                        ev.push(format!("pay {to} {a}{d}"));
                    }
                    Ok(())
                };
                match r {
                    Rl::Bank(to, f) => pay(to, f, ev)?,
                    Rl::Call(k, msg, f) => {
                        ev.push(format!("call {k} {msg}"));
                        pay(k, f, ev)?;
                    }
                    Rl::Ibc(d, a) => {
                        pay("wasm1escrowchannel3", &[(d.clone(), *a)], ev)?;
                        ev.push(format!("ibc channel-3 cosmos1far {a}{d}"));
                    }
                    Rl::Own(msg, o) => {
                        ev.push(format!("call {me} {msg}"));
                        model(w, me, me, o, ev)?;
                    }
                }
            }
        }
        Op::Freeze => {
            if !(adm && w.mutable) {
                return Err(());
            }
            w.mutable = false;
        }
        Op::Admins(a) => {
            if !(adm && w.mutable) || a.iter().any(|x| x.starts_with('W')) {
                return Err(());
            }
            w.admins = a.clone();
        }
    }
    Ok(())
}
fn seen_events(tx: &Tx, me: &str) -> Vec<String> {
    let mut v = vec![];
    let mut top = true;
    for e in &tx.log {
        match e {
            Ev::Transfer { from, to, denom, amount } if from == me => v.push(format!("pay {to} {amount}{denom}")),
            Ev::Call { sender, contract, msg } => {
                if top && contract == me && sender != me {
                    top = false;
                    continue;
                }
                let m: serde_json::Value = serde_json::from_str(msg).unwrap_or(serde_json::Value::Null);
                v.push(if sender == me { format!("call {contract} {m}") } else { format!("foreign call {sender} {contract}") });
            }
            Ev::Ibc { channel, to, denom, amount, .. } => v.push(format!("ibc {channel} {to} {amount}{denom}")),
            Ev::Stargate { type_url, .. } => v.push(format!("stargate {type_url}")),
            Ev::Mint { .. } | Ev::Burn { .. } => v.push(format!("{e:?}")),
            _ => {}
        }
    }
    v
}
fn admins(r: &mut Rng, me: &str) -> Vec<String> {
    let mut a: Vec<String> = USERS.iter().map(|x| x.to_string()).filter(|_| r.chance(1, 2)).collect();
    if r.chance(1, 8) {
        a.push(me.to_string());
    }
    r.shuffle(&mut a);
    if r.chance(1, 12) && !a.is_empty() {
        a.push(a[0].clone());
    }
    a
}
fn gen_rl(r: &mut Rng, w: &Wm, me: &str, sinks: &[String], depth: u32) -> Rl {
    let fund = |r: &mut Rng| -> Vec<(String, u128)> {
        let mut f = vec![];
        for d in DEN {
            if r.chance(1, 2) {
                let b = w.bal.get(d).copied().unwrap_or(0);
                f.push((d.to_string(), if r.chance(1, 12) { b + 1 } else { r.range128(1, (b / 4).max(1)) }));
            }
        }
        f
    };
    match r.below(if depth == 0 { 8 } else { 6 }) {
        0 | 1 => {
            let mut f = fund(r);
            if f.is_empty() {
                f.push((DEN[0].into(), 1));
            }
            Rl::Bank(r.pick(&USERS).to_string(), f)
        }
        2 => Rl::Ibc(r.pick(&DEN).to_string(), r.range128(1, 1000)),
        3 | 4 | 5 => Rl::Call(r.pick(sinks).clone(), json!({"ping": {"n": r.below(1000)}}), fund(r)),
        _ => {
            let o = gen_op(r, w, me, sinks, depth + 1);
            Rl::Own(js_op(me, &o, u64::MAX / 2), Box::new(o))
        }
    }
}
fn gen_op(r: &mut Rng, w: &Wm, me: &str, sinks: &[String], depth: u32) -> Op {
    match r.weighted(&[10, 1, 4]) {
        0 => {
            let n = if r.chance(1, 10) { 0 } else { 1 + r.idx(4) };
            Op::Exec((0..n).map(|_| gen_rl(r, w, me, sinks, depth)).collect())
        }
        1 => Op::Freeze,
        _ => {
            let mut a = admins(r, me);
            if r.chance(1, 15) {
                a.push("WASM1BAD".into());
            }
            Op::Admins(a)
        }
    }
}
pub fn proxy(r: &mut Rng, m: &mut Mon) {
    let c = Chain::new();
    let k = c.store(code());
    let sk = c.store(sink_code());
    let sinks: Vec<String> = (0..2).map(|_| c.instantiate(sk, OWNER, &json!({}), &[], "sink").unwrap().0).collect();
    let mut w = Wm { admins: admins(r, "wasm1nobody"), mutable: r.chance(4, 5), bal: BTreeMap::new() };
    let me = c.instantiate(k, OWNER, &json!({"admins": w.admins, "mutable": w.mutable}), &[], "proxy").expect("whitelist").0;
    if r.chance(1, 20) {
        let res = c.instantiate(k, OWNER, &json!({"admins": ["WASM1BAD"], "mutable": true}), &[], "proxy").map(|x| x.1);
        must_refuse(m, P, "invalid-admin-at-instantiation", &res);
    }
    for d in DEN {
        let a = r.log(10, 1 << 70);
        c.fund(&me, d, a);
        w.bal.insert(d.into(), a);
    }
    let steps = r.range(4, 40);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        c.advance(1, r.range(1, 10));
        // the queries tell the truth
        let q: serde_json::Value = c.query(&me, &json!({"admin_list": {}})).expect("admin list");
        m.check(P, "admin-list", q == json!({"admins": w.admins, "mutable": w.mutable}), || format!("reported {q}, modelled {w:?}"));
        for u in USERS.iter().map(|x| x.to_string()).chain([me.clone(), OWNER.to_string(), sinks[0].clone()]) {
            let q: serde_json::Value = c.query(&me, &json!({"can_execute": {"sender": u, "msg": {"bank": {"send": {"to_address": u, "amount": []}}}}})).expect("can execute");
            let want = w.admins.contains(&u);
            m.check(P, "can-execute", q["can_execute"] == want, || format!("{u}: {q}, modelled {want}"));
        }
        let who: String = match r.below(10) {
            0 => OWNER.to_string(),
            1 => sinks[0].clone(),
            2 | 3 => r.pick(&USERS).to_string(),
            _ if w.admins.is_empty() => r.pick(&USERS).to_string(),
            _ => {
                let a = r.pick(&w.admins).clone();
                if a == me { r.pick(&USERS).to_string() } else { a }
            }
        };
        let op = gen_op(r, &w, &me, &sinks, 0);
        let msg = js_op(&me, &op, u64::MAX / 2);
        m.step(|| format!("{who}: {msg}"));
        let mut w2 = w.clone();
        let mut ev = vec![];
        let want = model(&mut w2, &me, &who, &op, &mut ev);
        let before = c.bal(&who, DEN[0]);
        let res = attempt(&c, m, P, || c.exec(&who, &me, &msg, &[]));
        let _ = before;
        if want.is_err() {
            must_refuse(m, P, "call", &res);
            m.seen(P, (0, w.admins.contains(&who), w.mutable, matches!(op, Op::Exec(_)), matches!(op, Op::Freeze)));
            continue;
        }
        if !must_accept(m, P, "call", &res) {
            return;
        }
        w = w2;
        let got = seen_events(&res.unwrap(), &me);
        m.check(P, "relayed", got == ev, || format!("the proxy did {got:?}, asked for {ev:?}"));
        for (d, a) in &w.bal {
            m.check(P, "balance", c.bal(&me, d) == *a, || format!("{d}: {} vs {a}", c.bal(&me, d)));
        }
        m.count_n("messages relayed", ev.len() as u64);
        let kinds: Vec<u8> = match &op {
            Op::Exec(v) => v.iter().map(|x| match x { Rl::Bank(..) => 0, Rl::Call(_, _, f) => 1 + f.len() as u8, Rl::Ibc(..) => 5, Rl::Own(..) => 6 }).collect(),
            Op::Freeze => vec![7],
            Op::Admins(a) => vec![8, a.len() as u8],
        };
        m.seen(P, (kinds, w.admins.len(), w.mutable));
        m.sample(P, || format!("{who}: {} -> {ev:?}", msg));
    }
}
