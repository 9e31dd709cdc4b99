//! cw20 token code (the real cw20-base).
use crate::{Chain, Code};
use cosmwasm_std::Uint128;
pub fn cw20_code() -> Code {
    Code::new(
        "cw20",
        cw20_base::contract::instantiate,
        cw20_base::contract::execute,
        cw20_base::contract::query,
    )
}
pub fn new_cw20(c: &Chain, code: u64, symbol: &str, decimals: u8, holders: &[(&str, u128)]) -> String {
    let msg = cw20_base::msg::InstantiateMsg {
        name: format!("token {symbol}"),
        symbol: symbol.into(),
        decimals,
        initial_balances: holders
            .iter()
            .map(|(a, b)| cw20::Cw20Coin { address: a.to_string(), amount: Uint128::new(*b) })
            .collect(),
        mint: Some(cw20::MinterResponse { minter: "wasm1minter".into(), cap: None }),
        marketing: None,
    };
    c.instantiate(code, "wasm1minter", &msg, &[], symbol).expect("cw20").0
}
pub fn mint_cw20(c: &Chain, token: &str, to: &str, amount: u128) {
    c.exec(
        "wasm1minter",
        token,
        &cw20::Cw20ExecuteMsg::Mint { recipient: to.into(), amount: Uint128::new(amount) },
        &[],
    )
    .expect("mint");
}
pub fn allow_cw20(c: &Chain, token: &str, owner: &str, spender: &str, amount: u128) {
    c.exec(
        owner,
        token,
        &cw20::Cw20ExecuteMsg::IncreaseAllowance {
            spender: spender.into(),
            amount: Uint128::new(amount),
            expires: None,
        },
        &[],
    )
    .expect("allow");
}
