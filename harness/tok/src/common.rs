pub use cosmwasm_std::{coin, to_json_binary, Binary, Coin, Uint128};
pub use serde_json::json;
pub use sim::num::*;
pub use sim::*;
use std::collections::BTreeMap;
pub const OWNER: &str = "wasm1owner";
pub const USERS: [&str; 4] = ["wasm1user0", "wasm1user1", "wasm1user2", "wasm1user3"];
pub type Ledger = BTreeMap<(String, String), u128>;
/// every bank balance plus the balances of the given cw20 tokens for the given holders
pub fn ledger(c: &Chain, cw20s: &[String], holders: &[String]) -> Ledger {
    let mut l = BTreeMap::new();
    for (a, m) in &c.w.borrow().bank {
        for (d, v) in m {
            l.insert((a.clone(), d.clone()), *v);
        }
    }
    for t in cw20s {
        for h in holders {
            let v = c.cw20_bal(t, h);
            if v > 0 {
                l.insert((h.clone(), t.clone()), v);
            }
        }
    }
    l
}
pub fn diff(a: &Ledger, b: &Ledger) -> BTreeMap<(String, String), i128> {
    world::diff(a, b)
}
/// expected ledger difference builder
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Exp(pub BTreeMap<(String, String), i128>);
impl Exp {
    pub fn new() -> Exp {
        Exp::default()
    }
    pub fn add(mut self, who: &str, tok: &str, v: i128) -> Exp {
        let e = self.0.entry((who.into(), tok.into())).or_insert(0);
        *e += v;
        self.0.retain(|_, v| *v != 0);
        self
    }
}
/// runs `f`; when it fails nothing may have changed
pub fn attempt(c: &Chain, m: &mut Mon, prop: &str, f: impl FnOnce() -> Result<Tx, String>) -> Result<Tx, String> {
    let d = c.digest();
    let r = f();
    if r.is_err() {
        let e = c.digest();
        m.check(prop, "refusal-effect", d == e, || format!("a refused operation changed state: {:?}", r));
    }
    r
}
/// `r` must be a refusal
pub fn must_refuse(m: &mut Mon, prop: &str, what: &str, r: &Result<Tx, String>) {
    m.check(prop, &format!("accepted-{what}"), r.is_err(), || format!("{what} was accepted"));
    m.count(&format!("refused: {what}"));
}
/// `r` must be accepted
pub fn must_accept(m: &mut Mon, prop: &str, what: &str, r: &Result<Tx, String>) -> bool {
    let e = r.as_ref().err().cloned();
    m.check(prop, &format!("refused-{what}"), r.is_ok(), || format!("{what} was refused: {}", e.unwrap()))
}
pub fn no_exec(_: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: cosmwasm_std::MessageInfo, _: serde_json::Value) -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> {
    Err(cosmwasm_std::StdError::generic_err("no execute"))
}
/// a contract that accepts every message (and any funds) and does nothing
pub fn sink_code() -> Code {
    let ok = || Resp { messages: vec![], attributes: vec![], data: None };
    Code {
        name: "sink".into(),
        instantiate: Box::new(move |_, _| Ok(ok())),
        execute: Box::new(move |_, _| Ok(ok())),
        query: Box::new(|_, _| Err("no query".into())),
        reply: None,
        sudo: None,
        migrate: None,
    }
}
/// amounts of very different sizes, often at the edges
pub fn amount(r: &mut Rng, max: u128) -> u128 {
    match r.below(6) {
        0 => r.range128(1, 10).min(max.max(1)),
        1 => r.log(1, max.max(1)),
        2 => max.max(1),
        _ => r.range128(1, max.max(1)),
    }
}
