//! Reference accounting of the incentives contract: continuous pro-rata accrual with 1e-36 resolution.
use cosmwasm_std::Uint512;
use sim::num::u512;
use std::collections::{BTreeMap, BTreeSet};
pub type U = Uint512;
pub fn sc() -> U {
    u512(10u128.pow(36))
}
pub const EPOCH: u64 = 7 * 86400;
pub const EPOCHS_START: u64 = 1_696_809_600;
pub fn z() -> U {
    Uint512::zero()
}
/// whole units of a scaled amount, as u128
pub fn fl(x: U) -> u128 {
    sim::num::to128(x / sc()).unwrap_or(u128::MAX)
}
#[derive(Clone, Default, Debug)]
pub struct Rew {
    pub scheds: Vec<(u64, u64, U)>,
    pub orphan: U,
    pub idx: U,
    pub present: bool,
}
#[derive(Clone, Default, Debug)]
pub struct User {
    pub amount: u128,
    /// index of each reward at the last settlement
    pub idx: BTreeMap<String, U>,
    /// number of contract operations at the last settlement
    pub ops: u64,
}
/// the key of protocol emissions among a pool's rewards
pub const INT: &str = "<protocol>";
#[derive(Clone, Debug)]
pub struct MPool {
    pub lp: String,
    pub cw20: bool,
    pub pair: String,
    pub legacy: bool,
    pub assets: Vec<usize>,
    pub registered: bool,
    pub total: u128,
    pub last: u64,
    /// the contract knows this pool
    pub exists: bool,
    pub rewards: BTreeMap<String, Rew>,
    pub int_rate: U,
    pub users: BTreeMap<String, User>,
    pub alloc: Option<u128>,
}
#[derive(Default)]
pub struct Model {
    pub pools: Vec<MPool>,
    pub aps: u128,
    pub ops: u64,
    /// scaled orphaned amounts: known to be recorded / possibly recorded
    pub orphans: BTreeMap<String, U>,
    pub orphan_parts: BTreeMap<String, u64>,
    /// scaled entitlement settled so far, amount paid (or lost in a refused transfer), allowed shortfall, per (user, token)
    pub ent: BTreeMap<(String, String), U>,
    pub paid: BTreeMap<(String, String), u128>,
    pub slack: BTreeMap<(String, String), f64>,
    /// tokens whose schedules were abandoned on purpose: only solvency is judged
    pub tainted: BTreeSet<String>,
    /// scaled integral of the emission rate while some pool was active
    pub emitted: U,
    pub emit_ts: u64,
    pub deposited: BTreeMap<String, u128>,
    pub astro: String,
}
fn overlap(a: u64, b: u64, c: u64, d: u64) -> u64 {
    b.min(d).saturating_sub(a.max(c))
}
impl Model {
    pub fn total_alloc(&self) -> u128 {
        self.pools.iter().filter_map(|p| p.alloc).sum()
    }
    pub fn emit(&mut self, now: u64) {
        if self.total_alloc() > 0 {
            self.emitted += u512(self.aps) * sc() * u512((now - self.emit_ts) as u128);
        }
        self.emit_ts = now;
    }
    /// Brings pool `i` to `now` (called when an operation touches the pool).
    pub fn sync(&mut self, i: usize, now: u64) {
        let p = &mut self.pools[i];
        let (from, total) = (p.last, p.total);
        if now <= from {
            return;
        }
        let int_rate = p.int_rate;
        for (tok, r) in p.rewards.iter_mut() {
            let mut col = z();
            if tok == INT {
                col = int_rate * u512((now - from) as u128);
            } else {
                if !r.present {
                    continue;
                }
                for (a, b, rate) in &r.scheds {
                    col += *rate * u512(overlap(from, now, *a, *b) as u128);
                }
            }
            if total > 0 {
                r.idx += (r.orphan + col) / u512(total);
                r.orphan = z();
            } else {
                r.orphan += col;
            }
            if tok != INT && r.scheds.iter().all(|s| s.1 <= now) {
                r.present = false;
                r.scheds.clear();
                if !r.orphan.is_zero() {
                    *self.orphans.entry(tok.clone()).or_insert(z()) += r.orphan;
                    *self.orphan_parts.entry(tok.clone()).or_default() += 1;
                    r.orphan = z();
                }
            }
        }
        p.last = now;
    }
    /// rewards a user would be owed (scaled) per (token, is protocol) if the pool were settled now
    pub fn owed(&self, i: usize, user: &str) -> Vec<(String, bool, U)> {
        let p = &self.pools[i];
        let u = match p.users.get(user) {
            Some(u) => u,
            None => return vec![],
        };
        p.rewards
            .iter()
            .map(|(t, r)| {
                let d = r.idx - u.idx.get(t).copied().unwrap_or(z());
                let tok = if t == INT { self.astro.clone() } else { t.clone() };
                (tok, t == INT, d * u512(u.amount))
            })
            .collect()
    }
    /// Settles a user's position in pool `i`; the pool must be synced.
    pub fn settle(&mut self, i: usize, user: &str) {
        let o = self.owed(i, user);
        let ops = self.ops;
        let p = &mut self.pools[i];
        if let Some(u) = p.users.get_mut(user) {
            let since = (ops - u.ops + 2) as f64;
            for (t, _, v) in &o {
                let k = (user.to_string(), t.clone());
                *self.ent.entry(k.clone()).or_insert(z()) += *v;
                *self.slack.entry(k).or_default() += 3.0 + u.amount as f64 * 1e-18 * since;
            }
            u.idx = p.rewards.iter().map(|(t, r)| (t.clone(), r.idx)).collect();
            u.ops = ops;
        }
    }
    pub fn add_user(&mut self, i: usize, user: &str, amount: u128) {
        let ops = self.ops;
        let p = &mut self.pools[i];
        let idx: BTreeMap<String, U> = p.rewards.iter().map(|(t, r)| (t.clone(), r.idx)).collect();
        let u = p.users.entry(user.into()).or_insert(User { amount: 0, idx, ops });
        u.amount += amount;
        p.total += amount;
        p.exists = true;
    }
    /// Re-divides protocol emissions; all active pools and those that were active must be synced before.
    pub fn redivide(&mut self) {
        let t = self.total_alloc();
        let aps = u512(self.aps) * sc();
        for p in &mut self.pools {
            p.int_rate = match p.alloc {
                Some(a) => {
                    p.rewards.entry(INT.into()).or_default();
                    p.exists = true;
                    aps * u512(a) / u512(t)
                }
                None => z(),
            };
        }
    }
    pub fn sync_active(&mut self, now: u64) {
        for i in 0..self.pools.len() {
            if self.pools[i].alloc.is_some() {
                self.sync(i, now);
            }
        }
    }
    /// number of external rewards of pool `i` that still run at `now`: (all, without the protocol token)
    pub fn ext_count(&self, i: usize, now: u64) -> (usize, usize) {
        let v: Vec<&String> = self.pools[i]
            .rewards
            .iter()
            .filter(|(t, r)| t.as_str() != INT && r.present && r.scheds.iter().any(|s| s.1 > now))
            .map(|(t, _)| t)
            .collect();
        (v.len(), v.iter().filter(|t| **t != &self.astro).count())
    }
    pub fn running(&self, i: usize, tok: &str, now: u64) -> bool {
        self.pools[i].rewards.get(tok).map(|r| r.present && r.scheds.iter().any(|s| s.1 > now)).unwrap_or(false)
    }
    /// what the contract must hold of `tok` besides staked tokens: owed to stakers, orphaned, not yet emitted
    pub fn liability(&self, tok: &str, now: u64) -> U {
        let mut s = self.orphans.get(tok).copied().unwrap_or(z());
        for p in &self.pools {
            if let Some(r) = p.rewards.get(tok) {
                s += r.orphan;
                for (a, b, rate) in &r.scheds {
                    s += *rate * u512(overlap(p.last, u64::MAX, *a, *b) as u128);
                }
                for u in p.users.values() {
                    s += (r.idx - u.idx.get(tok).copied().unwrap_or(z())) * u512(u.amount);
                }
            }
        }
        let _ = now;
        s
    }
    pub fn staked(&self, tok: &str) -> u128 {
        self.pools.iter().filter(|p| p.lp == tok).map(|p| p.total).sum()
    }
}
