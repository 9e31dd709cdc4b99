//! T07: the old-to-new token converters.
use crate::common::*;
const P: &str = "T07";
pub fn code(neutron: bool) -> Code {
    use astro_token_converter::contract as k;
    use astro_token_converter_neutron::contract as n;
    if !neutron {
        return Code::new("converter", k::instantiate, k::execute, k::query);
    }
    let a = Code::new("converter-neutron", n::instantiate, no_exec, n::query);
    let b = Code::new("converter-neutron", n_inst, n::execute, n_query);
    Code { execute: b.execute, ..a }
}
type ND<'a> = cosmwasm_std::DepsMut<'a, neutron_sdk::bindings::query::NeutronQuery>;
fn n_inst(_: ND, _: cosmwasm_std::Env, _: cosmwasm_std::MessageInfo, _: serde_json::Value) -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> {
    unreachable!()
}
fn n_query(_: cosmwasm_std::Deps<neutron_sdk::bindings::query::NeutronQuery>, _: cosmwasm_std::Env, _: serde_json::Value) -> Result<Binary, cosmwasm_std::StdError> {
    unreachable!()
}
/// deploys a converter from `old` to `new`
pub fn deploy(c: &Chain, old: serde_json::Value, new: &str, neutron: bool, cw: bool) -> String {
    let code = c.store(code(neutron));
    let bp = if cw { json!(null) } else { json!({"terra_burn_addr": "terra1burn", "old_astro_transfer_channel": "channel-7"}) };
    c.instantiate(code, OWNER, &json!({"old_astro_asset_info": old, "new_astro_denom": new, "outpost_burn_params": bp}), &[], "converter")
        .expect("converter")
        .0
}
pub fn convert(r: &mut Rng, m: &mut Mon) {
    let c = Chain::new();
    let cwcode = c.store(cw20c::cw20_code());
    // hub (cw20 old token), outpost (old token came by IBC), neutron outpost
    let flavour = r.below(3);
    let (cw, neutron) = (flavour == 0, flavour == 2);
    let new = "factory/wasm1gov/astro";
    let all: Vec<(&str, u128)> = USERS.iter().map(|u| (*u, 1u128 << 100)).collect();
    let fake = cw20c::new_cw20(&c, cwcode, "FAKE", 6, &all);
    let old = if cw { cw20c::new_cw20(&c, cwcode, "ASTRO", 6, &all) } else { "ibc/oldastro".to_string() };
    for u in USERS {
        for d in ["uother", "untrn", new] {
            c.fund(u, d, 1 << 90);
        }
        if !cw {
            c.fund(u, &old, 1 << 100);
        }
    }
    let info = if cw { json!({"token": {"contract_addr": old}}) } else { json!({"native_token": {"denom": old}}) };
    // senseless deployments are refused
    if r.chance(1, 10) {
        let k = c.store(code(neutron));
        let bp = json!({"terra_burn_addr": "terra1burn", "old_astro_transfer_channel": "channel-7"});
        let none = json!(null);
        let bad = [
            (json!({"native_token": {"denom": "uluna"}}), &bp),
            (json!({"native_token": {"denom": new}}), &bp),
            (json!({"native_token": {"denom": "ibc/old"}}), &none),
            (json!({"token": {"contract_addr": fake}}), &bp),
            (json!({"token": {"contract_addr": "Nonsense"}}), &none),
        ];
        let (o, b) = r.pick(&bad);
        let res = c.instantiate(k, OWNER, &json!({"old_astro_asset_info": o, "new_astro_denom": new, "outpost_burn_params": b}), &[], "x").map(|x| x.1);
        must_refuse(m, P, "senseless-deployment", &res);
    }
    let cv = deploy(&c, info, new, neutron, cw);
    if neutron {
        c.w.borrow_mut().ibc_fee = (r.below(3) as u128 * r.log(1, 100_000), r.below(3) as u128 * r.log(1, 100_000));
    }
    let cws = vec![fake.clone(), if cw { old.clone() } else { fake.clone() }];
    let holders: Vec<String> = USERS.iter().map(|x| x.to_string()).chain([cv.clone(), "wasm1outsider".into()]).collect();
    let stock = r.log(1, 1 << 100);
    c.fund(&cv, new, stock);
    let old_bal = |who: &str| if cw { c.cw20_bal(&old, who) } else { c.bal(who, &old) };
    let (mut taken, mut gone) = (0u128, 0u128);
    let steps = r.range(4, 40);
    for _ in 0..steps {
        if m.failed() {
            return;
        }
        let u = r.pick(&USERS).to_string();
        let have_new = c.bal(&cv, new);
        let recv = match r.below(4) {
            0 => Some(r.pick(&USERS).to_string()),
            1 => Some(if r.chance(1, 3) { "Bad Address".to_string() } else if r.chance(1, 4) { cv.clone() } else { "wasm1outsider".to_string() }),
            _ => None,
        };
        let l0 = ledger(&c, &cws, &holders);
        let check = |m: &mut Mon, what: &str, e: Exp| {
            let d = diff(&l0, &ledger(&c, &cws, &holders));
            m.check(P, what, d == e.0, || format!("{what}: {d:?}, expected {:?}", e.0));
        };
        match r.weighted(&[8, 3, 3, 2, 2]) {
            0 => {
                let a = match r.below(6) {
                    0 => have_new,
                    1 => have_new.saturating_add(1),
                    _ => amount(r, (have_new / 2).max(5)),
                };
                if a == 0 || a > old_bal(&u) {
                    continue;
                }
                m.step(|| format!("{u} converts {a} (stock {have_new}) for {recv:?}"));
                let bad = recv.as_deref() == Some("Bad Address");
                let res = if cw {
                    let msg = to_json_binary(&json!({"receiver": recv})).unwrap();
                    attempt(&c, m, P, || c.exec(&u, &old, &json!({"send": {"contract": cv, "amount": a.to_string(), "msg": msg}}), &[]))
                } else {
                    attempt(&c, m, P, || c.exec(&u, &cv, &json!({"convert": {"receiver": recv}}), &[coin(a, &old)]))
                };
                if bad || a > have_new {
                    must_refuse(m, P, if bad { "invalid-receiver" } else { "conversion-beyond-stock" }, &res);
                } else if must_accept(m, P, "conversion", &res) {
                    let to = recv.unwrap_or(u.clone());
                    check(m, "conversion-ledger", Exp::new().add(&u, &old, -(a as i128)).add(&cv, &old, a as i128).add(&cv, new, -(a as i128)).add(&to, new, a as i128));
                    taken += a;
                    m.count("conversions");
                    m.seen(P, (flavour, (a as f64).log10() as i32, to == u, a == have_new));
                    m.sample(P, || format!("{a} old tokens of {u} became {a} new tokens of {to}"));
                }
            }
            1 => {
                // anything else must not be converted
                let a = amount(r, 1 << 40);
                let (what, res) = match r.below(7) {
                    0 => ("foreign-cw20", attempt(&c, m, P, || c.exec(&u, &fake, &json!({"send": {"contract": cv, "amount": a.to_string(), "msg": to_json_binary(&json!({})).unwrap()}}), &[]))),
                    1 => ("foreign-coin", attempt(&c, m, P, || c.exec(&u, &cv, &json!({"convert": {}}), &[coin(a, "uother")]))),
                    2 => ("no-coin", attempt(&c, m, P, || c.exec(&u, &cv, &json!({"convert": {}}), &[]))),
                    3 => ("new-for-new", attempt(&c, m, P, || c.exec(&u, &cv, &json!({"convert": {}}), &[coin(a, new)]))),
                    4 => ("forged-hook", attempt(&c, m, P, || c.exec(&u, &cv, &json!({"receive": {"sender": u, "amount": a.to_string(), "msg": to_json_binary(&json!({})).unwrap()}}), &[]))),
                    5 if !cw => ("two-coins", attempt(&c, m, P, || c.exec(&u, &cv, &json!({"convert": {}}), &[coin(a, &old), coin(5, "uother")]))),
                    _ => ("garbage", attempt(&c, m, P, || c.exec(&u, &cv, &json!({"withdraw": {"amount": "1"}}), &[]))),
                };
                m.step(|| format!("{u} tries {what} {a}"));
                must_refuse(m, P, what, &res);
            }
            2 => {
                // burn, by anybody
                let b = old_bal(&cv);
                let pay = r.chance(1, 6);
                m.step(|| format!("{u} burns the collected {b}, paying: {pay}"));
                let f = if pay { vec![coin(7, "uother")] } else { vec![] };
                let sup = |c: &Chain| -> u128 {
                    let v: serde_json::Value = c.query(&cws[1], &json!({"token_info": {}})).unwrap();
                    v["total_supply"].as_str().unwrap().parse().unwrap()
                };
                let s0 = sup(&c);
                let res = attempt(&c, m, P, || c.exec(&u, &cv, &json!({"burn": {}}), &f));
                if !cw || pay || b == 0 {
                    must_refuse(m, P, "impossible-burn", &res);
                } else if must_accept(m, P, "burn", &res) {
                    check(m, "burn-ledger", Exp::new().add(&cv, &old, -(b as i128)));
                    m.check(P, "burn-supply", s0 - sup(&c) == b, || format!("burning {b} reduced the supply by {}", s0 - sup(&c)));
                    gone += b;
                    m.count("burns");
                }
            }
            3 => {
                let b = old_bal(&cv);
                let timeout = match r.below(6) {
                    0 => Some(119),
                    1 => Some(601),
                    2 => Some(120),
                    3 => Some(600),
                    4 => Some(r.range(121, 599)),
                    _ => None,
                };
                let (ack, tmo) = c.w.borrow().ibc_fee;
                let fees = if neutron { ack + tmo } else { 0 };
                let funds = match r.below(4) {
                    0 => vec![coin(5, "uother")],
                    1 | 2 if neutron => vec![coin(fees.max(1) - r.below(2).min(fees.max(1) as u64 - 1) as u128, "untrn")],
                    1 => vec![coin(5, &*if cw { "untrn".to_string() } else { old.clone() })],
                    _ => vec![],
                };
                let paid = funds.iter().filter(|x| x.denom == "untrn").map(|x| x.amount.u128()).sum::<u128>();
                let purse = c.bal(&cv, "untrn") + paid;
                let pay_ok = if neutron { funds.iter().all(|f| f.denom == "untrn") } else { funds.is_empty() };
                let ok = !cw && b > 0 && pay_ok && purse >= fees && timeout.map(|t| (120..=600).contains(&t)).unwrap_or(true);
                m.step(|| format!("{u} sends the collected {b} home, timeout {timeout:?}, {funds:?}, fees {fees}, purse {purse}"));
                let res = attempt(&c, m, P, || c.exec(&u, &cv, &json!({"transfer_for_burning": {"timeout": timeout}}), &funds));
                if !ok {
                    must_refuse(m, P, "impossible-transfer-home", &res);
                } else if must_accept(m, P, "transfer-home", &res) {
                    let mut e = Exp::new().add(&cv, &old, -(b as i128)).add("wasm1escrowchannel7", &old, b as i128);
                    if paid > 0 {
                        e = e.add(&u, "untrn", -(paid as i128)).add(&cv, "untrn", paid as i128);
                    }
                    if fees > 0 {
                        e = e.add(&cv, "untrn", -(fees as i128)).add("wasm1feerefunder", "untrn", fees as i128);
                    }
                    check(m, "home-ledger", e);
                    let want = Ev::Ibc {
                        sender: cv.clone(),
                        channel: "channel-7".into(),
                        to: "terra1burn".into(),
                        denom: old.clone(),
                        amount: b,
                        timeout_ns: (c.now() + timeout.unwrap_or(300)) * 1_000_000_000,
                    };
                    let n = res.as_ref().unwrap().log.iter().filter(|e| matches!(e, Ev::Ibc { .. })).count();
                    m.check(P, "home-transfer", n == 1 && res.as_ref().unwrap().log.contains(&want), || format!("IBC messages {:?}, expected {want:?}", res.as_ref().unwrap().log));
                    gone += b;
                    m.count("transfers home");
                }
            }
            _ => {
                // stray deposits of any token; time passes
                let a = amount(r, 1 << 40);
                match r.below(3) {
                    0 => {
                        let s = c.bal(&u, new).min(a);
                        if s > 0 {
                            c.send(&u, &cv, new, s).unwrap();
                        }
                    }
                    1 if !cw => {
                        c.send(&u, &cv, &old, a).unwrap();
                        taken += a;
                    }
                    1 => {
                        c.exec(&u, &old, &json!({"transfer": {"recipient": cv, "amount": a.to_string()}}), &[]).unwrap();
                        taken += a;
                    }
                    _ => {
                        c.send(&u, &cv, "untrn", a.min(c.bal(&u, "untrn"))).ok();
                    }
                }
                c.advance(1, r.range(1, 10000));
            }
        }
        let left = old_bal(&cv);
        m.check(P, "old-tokens-kept", left + gone == taken, || format!("{left} old tokens in the converter, took {taken}, burnt or sent home {gone}"));
    }
    m.count("complete lives");
}
