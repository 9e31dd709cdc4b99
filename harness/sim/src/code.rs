//! Type-erased contract code.
use cosmwasm_std::*;
use serde::de::DeserializeOwned;
use serde::Serialize;

pub struct Resp {
    pub messages: Vec<SubMsg<serde_json::Value>>,
    pub attributes: Vec<(String, String)>,
    pub data: Option<Binary>,
}
pub struct Ctx<'a> {
    pub storage: &'a mut dyn Storage,
    pub api: &'a dyn Api,
    pub querier: &'a dyn Querier,
    pub env: Env,
}
type F<A> = Box<dyn Fn(Ctx, A) -> Result<Resp, String>>;
pub struct Code {
    pub name: String,
    pub instantiate: F<(MessageInfo, Vec<u8>)>,
    pub execute: F<(MessageInfo, Vec<u8>)>,
    pub query: Box<dyn Fn(Ctx, Vec<u8>) -> Result<Binary, String>>,
    pub reply: Option<F<Reply>>,
    pub sudo: Option<F<Vec<u8>>>,
    pub migrate: Option<F<Vec<u8>>>,
}
fn dm<'a, Q: CustomQuery>(
    storage: &'a mut dyn Storage,
    api: &'a dyn Api,
    querier: &'a dyn Querier,
) -> DepsMut<'a, Q> {
    DepsMut {
        storage,
        api,
        querier: QuerierWrapper::new(querier),
    }
}
fn norm<C: Serialize>(r: Response<C>) -> Resp {
    let mut attributes: Vec<(String, String)> = r
        .attributes
        .into_iter()
        .map(|a| (a.key, a.value))
        .collect();
    for e in r.events {
        for a in e.attributes {
            attributes.push((format!("{}/{}", e.ty, a.key), a.value));
        }
    }
    Resp {
        messages: r
            .messages
            .into_iter()
            .map(|m| SubMsg {
                id: m.id,
                gas_limit: m.gas_limit,
                reply_on: m.reply_on,
                msg: match m.msg {
                    CosmosMsg::Bank(x) => CosmosMsg::Bank(x),
                    CosmosMsg::Wasm(x) => CosmosMsg::Wasm(x),
                    CosmosMsg::Stargate { type_url, value } => {
                        CosmosMsg::Stargate { type_url, value }
                    }
                    CosmosMsg::Ibc(x) => CosmosMsg::Ibc(x),
                    CosmosMsg::Custom(c) => CosmosMsg::Custom(serde_json::to_value(&c).unwrap()),
                    _ => panic!("unsupported cosmos msg"),
                },
            })
            .collect(),
        attributes,
        data: r.data,
    }
}
pub fn parse<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    from_json::<T>(b).map_err(|e| format!("PARSE: {e}"))
}
impl Code {
    pub fn new<Q, I, E, QM, C1, C2, E1, E2, E3>(
        name: &str,
        i: fn(DepsMut<Q>, Env, MessageInfo, I) -> Result<Response<C1>, E1>,
        e: fn(DepsMut<Q>, Env, MessageInfo, E) -> Result<Response<C2>, E2>,
        q: fn(Deps<Q>, Env, QM) -> Result<Binary, E3>,
    ) -> Code
    where
        Q: CustomQuery + 'static,
        I: DeserializeOwned + 'static,
        E: DeserializeOwned + 'static,
        QM: DeserializeOwned + 'static,
        C1: Serialize + 'static,
        C2: Serialize + 'static,
        E1: std::fmt::Display + 'static,
        E2: std::fmt::Display + 'static,
        E3: std::fmt::Display + 'static,
    {
        Code {
            name: name.to_string(),
            instantiate: Box::new(move |c, (info, m)| {
                let env = c.env.clone();
                i(dm(c.storage, c.api, c.querier), env, info, parse(&m)?)
                    .map(norm)
                    .map_err(|e| e.to_string())
            }),
            execute: Box::new(move |c, (info, m)| {
                let env = c.env.clone();
                e(dm(c.storage, c.api, c.querier), env, info, parse(&m)?)
                    .map(norm)
                    .map_err(|e| e.to_string())
            }),
            query: Box::new(move |c, m| {
                let env = c.env.clone();
                let d: DepsMut<Q> = dm(c.storage, c.api, c.querier);
                q(d.as_ref(), env, parse(&m)?).map_err(|e| e.to_string())
            }),
            reply: None,
            sudo: None,
            migrate: None,
        }
    }
    pub fn with_reply<Q, C, E1>(
        mut self,
        f: fn(DepsMut<Q>, Env, Reply) -> Result<Response<C>, E1>,
    ) -> Self
    where
        Q: CustomQuery + 'static,
        C: Serialize + 'static,
        E1: std::fmt::Display + 'static,
    {
        self.reply = Some(Box::new(move |c, r| {
            let env = c.env.clone();
            f(dm(c.storage, c.api, c.querier), env, r)
                .map(norm)
                .map_err(|e| e.to_string())
        }));
        self
    }
    pub fn with_sudo<Q, M, C, E1>(
        mut self,
        f: fn(DepsMut<Q>, Env, M) -> Result<Response<C>, E1>,
    ) -> Self
    where
        Q: CustomQuery + 'static,
        M: DeserializeOwned + 'static,
        C: Serialize + 'static,
        E1: std::fmt::Display + 'static,
    {
        self.sudo = Some(Box::new(move |c, m| {
            let env = c.env.clone();
            f(dm(c.storage, c.api, c.querier), env, parse(&m)?)
                .map(norm)
                .map_err(|e| e.to_string())
        }));
        self
    }
    pub fn with_migrate<Q, M, C, E1>(
        mut self,
        f: fn(DepsMut<Q>, Env, M) -> Result<Response<C>, E1>,
    ) -> Self
    where
        Q: CustomQuery + 'static,
        M: DeserializeOwned + 'static,
        C: Serialize + 'static,
        E1: std::fmt::Display + 'static,
    {
        self.migrate = Some(Box::new(move |c, m| {
            let env = c.env.clone();
            f(dm(c.storage, c.api, c.querier), env, parse(&m)?)
                .map(norm)
                .map_err(|e| e.to_string())
        }));
        self
    }
}
