use crate::code::*;
use crate::proto;
use cosmwasm_std::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const TF_MODULE: &str = "wasm1tokenfactorymodule";
pub const START_TIME: u64 = 1_700_000_000;
pub const START_HEIGHT: u64 = 1_000_000;

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    pub static IN_CONTRACT: Cell<u32> = Cell::new(0);
}
/// Keeps panics inside contract code quiet (they are transaction aborts, as in wasm) but remembers them.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_CONTRACT.with(|c| c.get()) > 0 {
            LAST_PANIC.with(|l| *l.borrow_mut() = i.to_string().replace('\n', " "));
        } else {
            old(i)
        }
    }));
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Transfer { from: String, to: String, denom: String, amount: u128 },
    Mint { to: String, denom: String, amount: u128 },
    Burn { from: String, denom: String, amount: u128 },
    Call { sender: String, contract: String, msg: String },
    Attr { contract: String, attrs: Vec<(String, String)> },
    Stargate { sender: String, type_url: String, value: Vec<u8> },
    Ibc { sender: String, channel: String, to: String, denom: String, amount: u128, timeout_ns: u64 },
}
#[derive(Clone)]
pub struct Contract {
    pub code: usize,
    pub creator: String,
    pub admin: Option<String>,
    pub label: String,
    pub store: BTreeMap<Vec<u8>, Vec<u8>>,
}
#[derive(Clone, Debug)]
pub struct Denom {
    pub admin: String,
    pub hook: Option<String>,
}
enum Undo {
    Store(String, Vec<u8>, Option<Vec<u8>>),
    Bank(String, String, Option<u128>),
    Supply(String, Option<u128>),
    NewContract(String),
    Meta(String, usize, Option<String>),
    Denom(String, Option<Denom>),
    Grant((String, String), Option<Vec<u8>>),
}
pub struct World {
    pub height: u64,
    pub time_ns: u64,
    pub contracts: BTreeMap<String, Contract>,
    pub bank: BTreeMap<String, BTreeMap<String, u128>>,
    pub supply: BTreeMap<String, u128>,
    pub denoms: BTreeMap<String, Denom>,
    pub grants: BTreeMap<(String, String), Vec<u8>>,
    pub log: Vec<Ev>,
    pub next_id: u64,
    pub tx: u64,
    pub panics: u64,
    pub calls: u64,
    /// contracts for which every execute fails (fault injection: paused/broken external contract)
    pub broken: BTreeMap<String, bool>,
    /// Neutron's minimum relayer fees (ack, timeout), in untrn
    pub ibc_fee: (u128, u128),
    undo: Vec<Undo>,
}
pub type W = Rc<RefCell<World>>;

pub struct SimApi;
impl Api for SimApi {
    fn addr_validate(&self, h: &str) -> StdResult<Addr> {
        if h.starts_with("wasm1")
            && h.len() >= 7
            && h.len() <= 90
            && h.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())
        {
            Ok(Addr::unchecked(h))
        } else {
            Err(StdError::generic_err(format!("invalid address {h}")))
        }
    }
    fn addr_canonicalize(&self, h: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(h)?;
        Ok(CanonicalAddr::from(h.as_bytes()))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        let s = String::from_utf8(c.as_slice().to_vec())
            .map_err(|_| StdError::generic_err("bad canonical"))?;
        self.addr_validate(&s)
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn secp256k1_recover_pubkey(
        &self,
        _: &[u8],
        _: &[u8],
        _: u8,
    ) -> Result<Vec<u8>, RecoverPubkeyError> {
        Err(RecoverPubkeyError::unknown_err(1))
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn ed25519_batch_verify(
        &self,
        _: &[&[u8]],
        _: &[&[u8]],
        _: &[&[u8]],
    ) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn debug(&self, _: &str) {}
}

pub struct St {
    w: W,
    addr: String,
}
impl Storage for St {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.w.borrow().contracts.get(&self.addr)?.store.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        let mut w = self.w.borrow_mut();
        let old = w
            .contracts
            .get_mut(&self.addr)
            .unwrap()
            .store
            .insert(key.to_vec(), value.to_vec());
        w.undo.push(Undo::Store(self.addr.clone(), key.to_vec(), old));
    }
    fn remove(&mut self, key: &[u8]) {
        let mut w = self.w.borrow_mut();
        let old = w.contracts.get_mut(&self.addr).unwrap().store.remove(key);
        w.undo.push(Undo::Store(self.addr.clone(), key.to_vec(), old));
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let w = self.w.borrow();
        let s = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let e = end.map_or(Bound::Unbounded, |s| Bound::Excluded(s.to_vec()));
        let mut v: Vec<Record> = w.contracts[&self.addr]
            .store
            .range((s, e))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        if order == Order::Descending {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
}

#[derive(Clone)]
pub struct Chain {
    pub w: W,
    pub codes: Rc<RefCell<Vec<Rc<Code>>>>,
}
#[derive(Clone, Debug, Default)]
pub struct Tx {
    pub data: Option<Vec<u8>>,
    pub log: Vec<Ev>,
}
impl Tx {
    pub fn attr(&self, contract: &str, key: &str) -> Option<String> {
        self.log.iter().rev().find_map(|e| match e {
            Ev::Attr { contract: c, attrs } if c == contract => {
                attrs.iter().rev().find(|(k, _)| k == key).map(|(_, v)| v.clone())
            }
            _ => None,
        })
    }
    pub fn attrs(&self, contract: &str, key: &str) -> Vec<String> {
        let mut out = vec![];
        for e in &self.log {
            if let Ev::Attr { contract: c, attrs } = e {
                if c == contract {
                    out.extend(attrs.iter().filter(|(k, _)| k == key).map(|(_, v)| v.clone()));
                }
            }
        }
        out
    }
    pub fn attr_u128(&self, contract: &str, key: &str) -> Option<u128> {
        self.attr(contract, key)?.parse().ok()
    }
}
type R<T> = Result<T, String>;

struct Q(Chain);
impl Querier for Q {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<serde_json::Value> = match serde_json::from_slice(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        self.0.handle_query(req)
    }
}
fn okb<T: Serialize>(t: &T) -> QuerierResult {
    SystemResult::Ok(ContractResult::Ok(to_json_binary(t).unwrap()))
}
fn errb(e: String) -> QuerierResult {
    SystemResult::Ok(ContractResult::Err(e))
}

impl Default for Chain {
    fn default() -> Self {
        Self::new()
    }
}
impl Chain {
    pub fn new() -> Self {
        Chain {
            w: Rc::new(RefCell::new(World {
                height: START_HEIGHT,
                time_ns: START_TIME * 1_000_000_000,
                contracts: BTreeMap::new(),
                bank: BTreeMap::new(),
                supply: BTreeMap::new(),
                denoms: BTreeMap::new(),
                grants: BTreeMap::new(),
                log: vec![],
                next_id: 0,
                tx: 0,
                panics: 0,
                calls: 0,
                broken: BTreeMap::new(),
                ibc_fee: (0, 0),
                undo: vec![],
            })),
            codes: Rc::new(RefCell::new(vec![])),
        }
    }
    pub fn store(&self, c: Code) -> u64 {
        self.codes.borrow_mut().push(Rc::new(c));
        self.codes.borrow().len() as u64
    }
    pub fn now(&self) -> u64 {
        self.w.borrow().time_ns / 1_000_000_000
    }
    pub fn height(&self) -> u64 {
        self.w.borrow().height
    }
    pub fn advance(&self, blocks: u64, secs: u64) {
        let mut w = self.w.borrow_mut();
        w.height += blocks;
        w.time_ns += secs * 1_000_000_000;
    }
    pub fn set_time(&self, secs: u64) {
        self.w.borrow_mut().time_ns = secs * 1_000_000_000;
    }
    pub fn calls(&self) -> u64 {
        self.w.borrow().calls
    }
    pub fn panics(&self) -> u64 {
        self.w.borrow().panics
    }
    pub fn set_broken(&self, c: &str, b: bool) {
        self.w.borrow_mut().broken.insert(c.to_string(), b);
    }
    fn env(&self, addr: &str) -> Env {
        let w = self.w.borrow();
        Env {
            block: BlockInfo {
                height: w.height,
                time: Timestamp::from_nanos(w.time_ns),
                chain_id: "sim-1".into(),
            },
            transaction: Some(TransactionInfo { index: w.tx as u32 }),
            contract: ContractInfo { address: Addr::unchecked(addr) },
        }
    }
    fn code_of(&self, addr: &str) -> Option<Rc<Code>> {
        let c = self.w.borrow().contracts.get(addr)?.code;
        Some(self.codes.borrow()[c - 1].clone())
    }
    fn guarded<T>(&self, f: impl FnOnce() -> R<T>) -> R<T> {
        self.w.borrow_mut().calls += 1;
        IN_CONTRACT.with(|c| c.set(c.get() + 1));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CONTRACT.with(|c| c.set(c.get() - 1));
        match r {
            Ok(r) => r,
            Err(_) => {
                self.w.borrow_mut().panics += 1;
                Err(format!("PANIC: {}", LAST_PANIC.with(|l| l.borrow().clone())))
            }
        }
    }
    // ---------- checkpoints
    fn mark(&self) -> (usize, usize) {
        let w = self.w.borrow();
        (w.undo.len(), w.log.len())
    }
    fn rollback(&self, m: (usize, usize)) {
        let mut w = self.w.borrow_mut();
        while w.undo.len() > m.0 {
            match w.undo.pop().unwrap() {
                Undo::Store(a, k, v) => {
                    let st = &mut w.contracts.get_mut(&a).unwrap().store;
                    match v {
                        Some(v) => st.insert(k, v),
                        None => st.remove(&k),
                    };
                }
                Undo::Bank(a, d, v) => {
                    let m = w.bank.entry(a).or_default();
                    match v {
                        Some(v) => m.insert(d, v),
                        None => m.remove(&d),
                    };
                }
                Undo::Supply(d, v) => {
                    match v {
                        Some(v) => w.supply.insert(d, v),
                        None => w.supply.remove(&d),
                    };
                }
                Undo::NewContract(a) => {
                    w.contracts.remove(&a);
                }
                Undo::Meta(a, code, admin) => {
                    let c = w.contracts.get_mut(&a).unwrap();
                    c.code = code;
                    c.admin = admin;
                }
                Undo::Denom(d, v) => {
                    match v {
                        Some(v) => w.denoms.insert(d, v),
                        None => w.denoms.remove(&d),
                    };
                }
                Undo::Grant(k, v) => {
                    match v {
                        Some(v) => w.grants.insert(k, v),
                        None => w.grants.remove(&k),
                    };
                }
            }
        }
        w.log.truncate(m.1);
    }
    /// Runs `f` and then reverts everything it did ("what would happen if"), clock included.
    pub fn dry<T>(&self, f: impl FnOnce() -> T) -> T {
        // keep the undo journal of `f` alive: nested top-level txs only drop it at depth 0
        let m = self.mark();
        let (h, t, n, tx) = {
            let w = self.w.borrow();
            (w.height, w.time_ns, w.next_id, w.tx)
        };
        DRY.with(|d| d.set(d.get() + 1));
        let r = f();
        DRY.with(|d| d.set(d.get() - 1));
        self.rollback(m);
        let mut w = self.w.borrow_mut();
        w.height = h;
        w.time_ns = t;
        w.next_id = n;
        w.tx = tx;
        r
    }
    fn top(&self, f: impl FnOnce() -> R<Option<Vec<u8>>>) -> R<Tx> {
        self.w.borrow_mut().tx += 1;
        let m = self.mark();
        let r = f();
        let out = match r {
            Ok(data) => {
                let log = self.w.borrow().log[m.1..].to_vec();
                Ok(Tx { data, log })
            }
            Err(e) => {
                self.rollback(m);
                Err(e)
            }
        };
        if DRY.with(|d| d.get()) == 0 {
            let mut w = self.w.borrow_mut();
            w.undo.clear();
            w.log.clear();
        }
        out
    }
    // ---------- bank
    pub fn bal(&self, addr: &str, denom: &str) -> u128 {
        self.w
            .borrow()
            .bank
            .get(addr)
            .and_then(|m| m.get(denom))
            .copied()
            .unwrap_or(0)
    }
    pub fn supply(&self, denom: &str) -> u128 {
        self.w.borrow().supply.get(denom).copied().unwrap_or(0)
    }
    fn set_bal(&self, addr: &str, denom: &str, v: u128) {
        let mut w = self.w.borrow_mut();
        let m = w.bank.entry(addr.to_string()).or_default();
        let old = if v == 0 { m.remove(denom) } else { m.insert(denom.to_string(), v) };
        w.undo.push(Undo::Bank(addr.to_string(), denom.to_string(), old));
    }
    fn set_supply(&self, denom: &str, v: u128) {
        let mut w = self.w.borrow_mut();
        let old = w.supply.insert(denom.to_string(), v);
        w.undo.push(Undo::Supply(denom.to_string(), old));
    }
    fn log(&self, e: Ev) {
        self.w.borrow_mut().log.push(e)
    }
    fn move_coin(&self, from: &str, to: &str, denom: &str, amount: u128) -> R<()> {
        let b = self.bal(from, denom);
        if b < amount {
            return Err(format!("BANK: insufficient funds: {from} has {b} {denom}, needs {amount}"));
        }
        self.set_bal(from, denom, b - amount);
        let t = self.bal(to, denom);
        let t = t.checked_add(amount).ok_or("BANK: overflow")?;
        self.set_bal(to, denom, t);
        self.log(Ev::Transfer {
            from: from.into(),
            to: to.into(),
            denom: denom.into(),
            amount,
        });
        Ok(())
    }
    fn hooks(&self, from: &str, to: &str, denom: &str, amount: u128) -> R<()> {
        let hook = self.w.borrow().denoms.get(denom).and_then(|d| d.hook.clone());
        if let Some(h) = hook {
            for name in ["block_before_send", "track_before_send"] {
                let msg = serde_json::json!({name: {"from": from, "to": to,
                    "amount": {"denom": denom, "amount": amount.to_string()}}});
                let m = self.mark();
                let r = self.sudo_inner(&h, serde_json::to_vec(&msg).unwrap());
                if let Err(e) = r {
                    self.rollback(m);
                    if name == "block_before_send" {
                        return Err(e);
                    }
                }
            }
        }
        Ok(())
    }
    fn bank_send(&self, from: &str, to: &str, coins: &[Coin]) -> R<()> {
        for c in coins {
            if c.amount.is_zero() {
                return Err("BANK: cannot transfer empty coins amount".into());
            }
        }
        for c in coins {
            self.hooks(from, to, &c.denom, c.amount.u128())?;
            self.move_coin(from, to, &c.denom, c.amount.u128())?;
        }
        Ok(())
    }
    /// Genesis-style mint, outside of any contract.
    pub fn fund(&self, addr: &str, denom: &str, amount: u128) {
        if amount == 0 {
            return;
        }
        let s = self.supply(denom);
        self.set_supply(denom, s.checked_add(amount).expect("supply overflow"));
        let b = self.bal(addr, denom);
        self.set_bal(addr, denom, b + amount);
    }
    pub fn send(&self, from: &str, to: &str, denom: &str, amount: u128) -> R<Tx> {
        self.top(|| {
            self.bank_send(from, to, &[coin(amount, denom)])?;
            Ok(None)
        })
    }
    pub fn create_denom(&self, creator: &str, sub: &str) -> String {
        let d = format!("factory/{creator}/{sub}");
        self.w
            .borrow_mut()
            .denoms
            .insert(d.clone(), Denom { admin: creator.into(), hook: None });
        d
    }
    pub fn set_hook(&self, denom: &str, hook: Option<String>) {
        self.w.borrow_mut().denoms.get_mut(denom).unwrap().hook = hook;
    }
    pub fn tf_mint(&self, denom: &str, to: &str, amount: u128) -> R<Tx> {
        self.top(|| self.tf_mint_inner(denom, to, amount).map(|_| None))
    }
    pub fn tf_burn(&self, denom: &str, from: &str, amount: u128) -> R<Tx> {
        self.top(|| self.tf_burn_inner(denom, from, amount).map(|_| None))
    }
    fn tf_mint_inner(&self, denom: &str, to: &str, amount: u128) -> R<()> {
        if amount == 0 {
            return Err("TF: invalid amount".into());
        }
        let s = self.supply(denom).checked_add(amount).ok_or("TF: supply overflow")?;
        self.set_supply(denom, s);
        let b = self.bal(TF_MODULE, denom);
        self.set_bal(TF_MODULE, denom, b + amount);
        self.hooks(TF_MODULE, to, denom, amount)?;
        let b = self.bal(TF_MODULE, denom);
        self.set_bal(TF_MODULE, denom, b - amount);
        let t = self.bal(to, denom);
        self.set_bal(to, denom, t + amount);
        self.log(Ev::Mint { to: to.into(), denom: denom.into(), amount });
        Ok(())
    }
    fn tf_burn_inner(&self, denom: &str, from: &str, amount: u128) -> R<()> {
        if amount == 0 {
            return Err("TF: invalid amount".into());
        }
        let b = self.bal(from, denom);
        if b < amount {
            return Err(format!("TF: burn {amount} of {b} {denom}"));
        }
        self.hooks(from, TF_MODULE, denom, amount)?;
        self.set_bal(from, denom, b - amount);
        let s = self.supply(denom);
        self.set_supply(denom, s - amount);
        self.log(Ev::Burn { from: from.into(), denom: denom.into(), amount });
        Ok(())
    }
    // ---------- queries
    fn handle_query(&self, req: QueryRequest<serde_json::Value>) -> QuerierResult {
        use cosmwasm_std::BankQuery as B;
        match req {
            QueryRequest::Bank(B::Balance { address, denom }) => {
                let mut r = BalanceResponse::default();
                r.amount = coin(self.bal(&address, &denom), denom);
                okb(&r)
            }
            QueryRequest::Bank(B::AllBalances { address }) => {
                let mut r = AllBalanceResponse::default();
                if let Some(m) = self.w.borrow().bank.get(&address) {
                    r.amount = m.iter().map(|(d, a)| coin(*a, d)).collect();
                }
                okb(&r)
            }
            QueryRequest::Bank(B::Supply { denom }) => {
                let mut r = SupplyResponse::default();
                r.amount = coin(self.supply(&denom), denom);
                okb(&r)
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                match self.query_raw(&contract_addr, msg.to_vec()) {
                    Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
                    Err(e) if e.starts_with("NOCONTRACT") => {
                        SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr })
                    }
                    Err(e) => errb(e),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                let w = self.w.borrow();
                match w.contracts.get(&contract_addr) {
                    Some(c) => SystemResult::Ok(ContractResult::Ok(
                        c.store.get(key.as_slice()).cloned().unwrap_or_default().into(),
                    )),
                    None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                }
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                let w = self.w.borrow();
                match w.contracts.get(&contract_addr) {
                    Some(c) => {
                        let mut r = ContractInfoResponse::default();
                        r.code_id = c.code as u64;
                        r.creator = c.creator.clone();
                        r.admin = c.admin.clone();
                        okb(&r)
                    }
                    None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                }
            }
            QueryRequest::Stargate { path, .. } => {
                errb(format!("stargate query {path} unsupported"))
            }
            QueryRequest::Custom(v) if v.get("min_ibc_fee").is_some() => {
                let (a, t) = self.w.borrow().ibc_fee;
                let f = |x: u128| if x > 0 { vec![coin(x, "untrn")] } else { vec![] };
                okb(&serde_json::json!({"min_fee": {"recv_fee": [], "ack_fee": f(a), "timeout_fee": f(t)}}))
            }
            QueryRequest::Custom(v) => errb(format!("custom query {v} unsupported")),
            _ => errb("unsupported query".into()),
        }
    }
    pub fn query_raw(&self, addr: &str, msg: Vec<u8>) -> R<Binary> {
        let code = self.code_of(addr).ok_or_else(|| format!("NOCONTRACT {addr}"))?;
        let env = self.env(addr);
        let mut st = St { w: self.w.clone(), addr: addr.into() };
        let q = Q(self.clone());
        self.guarded(|| {
            (code.query)(Ctx { storage: &mut st, api: &SimApi, querier: &q, env }, msg)
        })
    }
    pub fn query<T: DeserializeOwned>(&self, addr: &str, msg: &impl Serialize) -> R<T> {
        let b = self.query_raw(addr, to_json_vec(msg).unwrap())?;
        from_json(&b).map_err(|e| format!("DECODE: {e}"))
    }
    pub fn cw20_bal(&self, token: &str, addr: &str) -> u128 {
        let r: cw20::BalanceResponse = self
            .query(token, &cw20::Cw20QueryMsg::Balance { address: addr.into() })
            .expect("cw20 balance");
        r.balance.u128()
    }
    pub fn raw_store(&self, addr: &str) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.w.borrow().contracts[addr].store.clone()
    }
    /// who may migrate a contract
    pub fn admin_of(&self, addr: &str) -> Option<String> {
        self.w.borrow().contracts.get(addr).and_then(|c| c.admin.clone())
    }
    /// who may mint a token factory denom and attach hooks to it
    pub fn denom_admin(&self, denom: &str) -> Option<String> {
        self.w.borrow().denoms.get(denom).map(|d| d.admin.clone())
    }
    pub fn denom_hook(&self, denom: &str) -> Option<String> {
        self.w.borrow().denoms.get(denom).and_then(|d| d.hook.clone())
    }
    /// all contracts, by address
    pub fn all_contracts(&self) -> Vec<String> {
        self.w.borrow().contracts.keys().cloned().collect()
    }
    pub fn is_contract(&self, addr: &str) -> bool {
        self.w.borrow().contracts.contains_key(addr)
    }
    /// Digest of everything a transaction can change (for "nothing changed" monitors).
    pub fn digest(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        let w = self.w.borrow();
        for (a, c) in &w.contracts {
            (a, c.code, &c.admin).hash(&mut h);
            c.store.hash(&mut h);
        }
        for (a, m) in &w.bank {
            if !m.is_empty() {
                (a, m).hash(&mut h);
            }
        }
        w.supply.hash(&mut h);
        w.grants.hash(&mut h);
        for (d, x) in &w.denoms {
            (d, &x.admin, &x.hook).hash(&mut h);
        }
        h.finish()
    }
    // ---------- transactions
    pub fn instantiate(
        &self,
        code: u64,
        sender: &str,
        msg: &impl Serialize,
        funds: &[Coin],
        label: &str,
    ) -> R<(String, Tx)> {
        let mut addr = String::new();
        let tx = self.top(|| {
            let (a, d) = self.inst_inner(
                sender,
                code,
                Some("wasm1chainadmin".into()),
                to_json_vec(msg).unwrap(),
                funds,
                label,
            )?;
            addr = a;
            Ok(d)
        })?;
        Ok((addr, tx))
    }
    pub fn exec(&self, sender: &str, contract: &str, msg: &impl Serialize, funds: &[Coin]) -> R<Tx> {
        let m = to_json_vec(msg).unwrap();
        self.top(|| self.exec_inner(sender, contract, m, funds))
    }
    pub fn exec_raw(&self, sender: &str, contract: &str, msg: Vec<u8>, funds: &[Coin]) -> R<Tx> {
        self.top(|| self.exec_inner(sender, contract, msg, funds))
    }
    pub fn migrate(&self, sender: &str, contract: &str, code: u64, msg: &impl Serialize) -> R<Tx> {
        let m = to_json_vec(msg).unwrap();
        self.top(|| self.migrate_inner(sender, contract, code as usize, m))
    }
    /// Dispatches arbitrary messages as `sender` (a wallet) in one transaction.
    pub fn multi(&self, sender: &str, msgs: Vec<CosmosMsg>) -> R<Tx> {
        self.top(|| {
            for m in msgs {
                let v: CosmosMsg<serde_json::Value> = match m {
                    CosmosMsg::Bank(x) => CosmosMsg::Bank(x),
                    CosmosMsg::Wasm(x) => CosmosMsg::Wasm(x),
                    CosmosMsg::Stargate { type_url, value } => CosmosMsg::Stargate { type_url, value },
                    _ => return Err("unsupported".into()),
                };
                self.dispatch(sender, v)?;
            }
            Ok(None)
        })
    }
    pub fn sudo(&self, contract: &str, msg: &impl Serialize) -> R<Tx> {
        let m = to_json_vec(msg).unwrap();
        self.top(|| self.sudo_inner(contract, m))
    }
    fn check_funds(&self, funds: &[Coin]) -> R<()> {
        for w in funds.windows(2) {
            if w[0].denom >= w[1].denom {
                return Err("BANK: coins must be sorted and unique".into());
            }
        }
        Ok(())
    }
    fn inst_inner(
        &self,
        sender: &str,
        code_id: u64,
        admin: Option<String>,
        msg: Vec<u8>,
        funds: &[Coin],
        label: &str,
    ) -> R<(String, Option<Vec<u8>>)> {
        let code = self
            .codes
            .borrow()
            .get((code_id as usize).wrapping_sub(1))
            .cloned()
            .ok_or_else(|| format!("no code {code_id}"))?;
        let addr = {
            let mut w = self.w.borrow_mut();
            w.next_id += 1;
            // scrambled so that address order differs from creation order
            let x = w.next_id.wrapping_mul(0x9E3779B97F4A7C15) >> 40;
            let addr = format!("wasm1c{:06x}n{}", x, w.next_id);
            w.contracts.insert(
                addr.clone(),
                Contract {
                    code: code_id as usize,
                    creator: sender.into(),
                    admin,
                    label: label.into(),
                    store: BTreeMap::new(),
                },
            );
            w.undo.push(Undo::NewContract(addr.clone()));
            addr
        };
        let mut funds = funds.to_vec();
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        self.check_funds(&funds)?;
        self.bank_send(sender, &addr, &funds)?;
        let env = self.env(&addr);
        let info = MessageInfo { sender: Addr::unchecked(sender), funds };
        let mut st = St { w: self.w.clone(), addr: addr.clone() };
        let q = Q(self.clone());
        let resp = self.guarded(|| {
            (code.instantiate)(
                Ctx { storage: &mut st, api: &SimApi, querier: &q, env },
                (info, msg),
            )
        })?;
        let data = self.handle_resp(&addr, resp)?;
        Ok((addr, data))
    }
    fn exec_inner(&self, sender: &str, contract: &str, msg: Vec<u8>, funds: &[Coin]) -> R<Option<Vec<u8>>> {
        let code = self.code_of(contract).ok_or_else(|| format!("NOCONTRACT {contract}"))?;
        if self.w.borrow().broken.get(contract).copied().unwrap_or(false) {
            return Err(format!("BROKEN {contract}"));
        }
        let mut funds = funds.to_vec();
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        self.check_funds(&funds)?;
        self.log(Ev::Call {
            sender: sender.into(),
            contract: contract.into(),
            msg: String::from_utf8_lossy(&msg).to_string(),
        });
        self.bank_send(sender, contract, &funds)?;
        let env = self.env(contract);
        let info = MessageInfo { sender: Addr::unchecked(sender), funds };
        let mut st = St { w: self.w.clone(), addr: contract.into() };
        let q = Q(self.clone());
        let resp = self.guarded(|| {
            (code.execute)(
                Ctx { storage: &mut st, api: &SimApi, querier: &q, env },
                (info, msg),
            )
        })?;
        self.handle_resp(contract, resp)
    }
    fn sudo_inner(&self, contract: &str, msg: Vec<u8>) -> R<Option<Vec<u8>>> {
        let code = self.code_of(contract).ok_or_else(|| format!("NOCONTRACT {contract}"))?;
        let f = code.sudo.as_ref().ok_or("no sudo")?;
        let env = self.env(contract);
        let mut st = St { w: self.w.clone(), addr: contract.into() };
        let q = Q(self.clone());
        let resp = self
            .guarded(|| f(Ctx { storage: &mut st, api: &SimApi, querier: &q, env }, msg))?;
        self.handle_resp(contract, resp)
    }
    fn migrate_inner(&self, sender: &str, contract: &str, code_id: usize, msg: Vec<u8>) -> R<Option<Vec<u8>>> {
        {
            let mut w = self.w.borrow_mut();
            let c = w.contracts.get_mut(contract).ok_or("NOCONTRACT")?;
            if c.admin.as_deref() != Some(sender) && sender != "wasm1chainadmin" {
                return Err("migrate: unauthorized".into());
            }
            let u = Undo::Meta(contract.into(), c.code, c.admin.clone());
            c.code = code_id;
            w.undo.push(u);
        }
        let code = self.code_of(contract).unwrap();
        let f = code.migrate.as_ref().ok_or("no migrate")?;
        let env = self.env(contract);
        let mut st = St { w: self.w.clone(), addr: contract.into() };
        let q = Q(self.clone());
        let resp = self
            .guarded(|| f(Ctx { storage: &mut st, api: &SimApi, querier: &q, env }, msg))?;
        self.handle_resp(contract, resp)
    }
    fn reply_inner(&self, contract: &str, reply: Reply) -> R<Option<Vec<u8>>> {
        let code = self.code_of(contract).unwrap();
        let f = code.reply.as_ref().ok_or("no reply entry point")?;
        let env = self.env(contract);
        let mut st = St { w: self.w.clone(), addr: contract.into() };
        let q = Q(self.clone());
        let resp = self
            .guarded(|| f(Ctx { storage: &mut st, api: &SimApi, querier: &q, env }, reply))?;
        self.handle_resp(contract, resp)
    }
    fn handle_resp(&self, contract: &str, resp: Resp) -> R<Option<Vec<u8>>> {
        self.log(Ev::Attr { contract: contract.into(), attrs: resp.attributes });
        let mut data = resp.data.map(|b| b.to_vec());
        for sm in resp.messages {
            let m = self.mark();
            match self.dispatch(contract, sm.msg) {
                Ok(d) => {
                    if matches!(sm.reply_on, ReplyOn::Always | ReplyOn::Success) {
                        let r = self.reply_inner(
                            contract,
                            Reply {
                                id: sm.id,
                                result: SubMsgResult::Ok(SubMsgResponse {
                                    events: vec![],
                                    data: d.map(Binary),
                                }),
                            },
                        )?;
                        if r.is_some() {
                            data = r;
                        }
                    }
                }
                Err(e) => {
                    self.rollback(m);
                    if matches!(sm.reply_on, ReplyOn::Always | ReplyOn::Error) {
                        let r = self.reply_inner(
                            contract,
                            Reply { id: sm.id, result: SubMsgResult::Err(e) },
                        )?;
                        if r.is_some() {
                            data = r;
                        }
                    } else {
                        return Err(e);
                    }
                }
            }
        }
        Ok(data)
    }
    /// Returns the protobuf-encoded message response data, as x/wasm hands it to `reply`.
    fn dispatch(&self, sender: &str, msg: CosmosMsg<serde_json::Value>) -> R<Option<Vec<u8>>> {
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                SimApi.addr_validate(&to_address).map_err(|e| e.to_string())?;
                if amount.is_empty() {
                    return Err("BANK: empty send".into());
                }
                self.bank_send(sender, &to_address, &amount)?;
                Ok(None)
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                for c in amount {
                    let b = self.bal(sender, &c.denom);
                    let a = c.amount.u128();
                    if a == 0 || b < a {
                        return Err("BANK: bad burn".into());
                    }
                    self.set_bal(sender, &c.denom, b - a);
                    let s = self.supply(&c.denom);
                    self.set_supply(&c.denom, s - a);
                    self.log(Ev::Burn { from: sender.into(), denom: c.denom, amount: a });
                }
                Ok(None)
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let d = self.exec_inner(sender, &contract_addr, msg.to_vec(), &funds)?;
                Ok(Some(d.map(|d| proto::field(1, &d)).unwrap_or_default()))
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate { admin, code_id, msg, funds, label }) => {
                let (a, d) = self.inst_inner(sender, code_id, admin, msg.to_vec(), &funds, &label)?;
                let mut out = proto::field(1, a.as_bytes());
                if let Some(d) = d {
                    out.extend(proto::field(2, &d));
                }
                Ok(Some(out))
            }
            CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr, new_code_id, msg }) => {
                self.migrate_inner(sender, &contract_addr, new_code_id as usize, msg.to_vec())
            }
            CosmosMsg::Wasm(WasmMsg::UpdateAdmin { contract_addr, admin }) => {
                let mut w = self.w.borrow_mut();
                let c = w.contracts.get_mut(&contract_addr).ok_or("NOCONTRACT")?;
                if c.admin.as_deref() != Some(sender) {
                    return Err("update admin: unauthorized".into());
                }
                let u = Undo::Meta(contract_addr.clone(), c.code, c.admin.clone());
                c.admin = Some(admin);
                w.undo.push(u);
                Ok(None)
            }
            CosmosMsg::Stargate { type_url, value } => self.stargate(sender, &type_url, &value),
            CosmosMsg::Ibc(IbcMsg::Transfer { channel_id, to_address, amount, timeout }) => self.ibc(
                sender,
                &channel_id,
                &to_address,
                &amount.denom,
                amount.amount.u128(),
                timeout.timestamp().map(|t| t.nanos()).unwrap_or(0),
            ),
            CosmosMsg::Custom(v) => {
                if let Some(t) = v.get("ibc_transfer") {
                    let s = |k: &str| t[k].as_str().unwrap_or("").to_string();
                    let amount: u128 = t["token"]["amount"].as_str().unwrap_or("0").parse().unwrap_or(0);
                    // relayer fee paid by the sender
                    for f in ["ack_fee", "timeout_fee", "recv_fee"] {
                        if let Some(a) = t["fee"][f].as_array() {
                            for c in a {
                                let amt: u128 = c["amount"].as_str().unwrap_or("0").parse().unwrap_or(0);
                                if amt > 0 {
                                    self.move_coin(sender, "wasm1feerefunder", c["denom"].as_str().unwrap_or(""), amt)?;
                                }
                            }
                        }
                    }
                    if s("sender") != sender {
                        return Err("ibc_transfer: sender mismatch".into());
                    }
                    return self.ibc(
                        sender,
                        &s("source_channel"),
                        &s("receiver"),
                        t["token"]["denom"].as_str().unwrap_or(""),
                        amount,
                        t["timeout_timestamp"].as_u64().unwrap_or(0),
                    );
                }
                Err(format!("custom msg {v} unsupported"))
            }
            _ => Err("unsupported message".into()),
        }
    }
    fn ibc(&self, sender: &str, channel: &str, to: &str, denom: &str, amount: u128, timeout_ns: u64) -> R<Option<Vec<u8>>> {
        if amount == 0 {
            return Err("IBC: zero amount".into());
        }
        if timeout_ns <= self.w.borrow().time_ns {
            return Err("IBC: timeout in the past".into());
        }
        self.move_coin(sender, &format!("wasm1escrow{}", channel.replace('-', "")), denom, amount)?;
        self.log(Ev::Ibc {
            sender: sender.into(),
            channel: channel.into(),
            to: to.into(),
            denom: denom.into(),
            amount,
            timeout_ns,
        });
        Ok(None)
    }
    fn stargate(&self, sender: &str, type_url: &str, value: &Binary) -> R<Option<Vec<u8>>> {
        let m = proto::decode(value).ok_or("STARGATE: undecodable")?;
        self.log(Ev::Stargate {
            sender: sender.into(),
            type_url: type_url.into(),
            value: value.to_vec(),
        });
        let short = type_url.rsplit('.').next().unwrap_or("");
        let module = type_url.split('.').nth(1).unwrap_or("");
        if m.str(1) != sender {
            return Err(format!("STARGATE: signer {} is not {sender}", m.str(1)));
        }
        let is_admin = |d: &str| -> R<()> {
            match self.w.borrow().denoms.get(d) {
                Some(x) if x.admin == sender => Ok(()),
                _ => Err(format!("TF: {sender} is not admin of {d}")),
            }
        };
        match (module, short) {
            ("tokenfactory", "MsgCreateDenom") => {
                let sub = m.str(2);
                if sub.len() > 44 {
                    return Err("TF: subdenom too long".into());
                }
                let d = format!("factory/{sender}/{sub}");
                let mut w = self.w.borrow_mut();
                if w.denoms.contains_key(&d) {
                    return Err("TF: denom exists".into());
                }
                w.denoms.insert(d.clone(), Denom { admin: sender.into(), hook: None });
                w.undo.push(Undo::Denom(d.clone(), None));
                Ok(Some(proto::field(1, d.as_bytes())))
            }
            ("tokenfactory", "MsgMint") => {
                let (d, a) = m.coin(2).ok_or("TF: no coin")?;
                is_admin(&d)?;
                let to = m.str(3);
                let to = if to.is_empty() { sender.to_string() } else { to };
                self.tf_mint_inner(&d, &to, a)?;
                Ok(Some(vec![]))
            }
            ("tokenfactory", "MsgBurn") => {
                let (d, a) = m.coin(2).ok_or("TF: no coin")?;
                is_admin(&d)?;
                let from = m.str(3);
                let from = if from.is_empty() { sender.to_string() } else { from };
                self.tf_burn_inner(&d, &from, a)?;
                Ok(Some(vec![]))
            }
            ("tokenfactory", "MsgSetBeforeSendHook") => {
                let d = m.str(2);
                is_admin(&d)?;
                let h = m.str(3);
                let mut w = self.w.borrow_mut();
                let old = w.denoms.get(&d).cloned();
                w.undo.push(Undo::Denom(d.clone(), old));
                w.denoms.get_mut(&d).unwrap().hook = if h.is_empty() { None } else { Some(h) };
                Ok(Some(vec![]))
            }
            ("tokenfactory", "MsgSetDenomMetadata") => {
                let d = m.msg(2).map(|x| x.str(3)).unwrap_or_default();
                is_admin(&d)?;
                Ok(Some(vec![]))
            }
            ("feegrant", "MsgGrantAllowance") => {
                let k = (m.str(1), m.str(2));
                let mut w = self.w.borrow_mut();
                if k.0 == k.1 || w.grants.contains_key(&k) {
                    return Err("FEEGRANT: fee allowance already exists".into());
                }
                w.grants.insert(k.clone(), m.bytes(3).unwrap_or(&[]).to_vec());
                w.undo.push(Undo::Grant(k, None));
                Ok(Some(vec![]))
            }
            ("feegrant", "MsgRevokeAllowance") => {
                let k = (m.str(1), m.str(2));
                let mut w = self.w.borrow_mut();
                match w.grants.remove(&k) {
                    Some(v) => {
                        w.undo.push(Undo::Grant(k, Some(v)));
                        Ok(Some(vec![]))
                    }
                    None => Err("FEEGRANT: not found".into()),
                }
            }
            _ => Err(format!("STARGATE: {type_url} unsupported")),
        }
    }
}
thread_local! {
    static DRY: Cell<u32> = Cell::new(0);
}
