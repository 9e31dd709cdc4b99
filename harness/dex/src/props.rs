use crate::eng::*;
use sim::num::*;
use world::*;

/// Generic random history over pools of one kind.
pub fn history(d: &mut Dx, kind: Kind, steps: usize, mut extra: impl FnMut(&mut Dx, usize)) {
    let npools = 1 + d.r.idx(2);
    for _ in 0..npools {
        let i = d.add_pool(kind);
        d.tick();
        d.seed(i);
    }
    for _ in 0..steps {
        d.tick();
        let pi = d.r.idx(d.w.pools.len());
        step(d, pi);
        extra(d, pi);
        if d.m.failed() {
            return;
        }
    }
}
pub fn step(d: &mut Dx, pi: usize) {
    match d.r.weighted(&[50, 16, 14, 3, 3, 4, 2]) {
        0 => rand_swap(d, pi),
        1 => {
            let amts = d.rand_amounts(pi);
            let ui = d.r.idx(5);
            let mut o = Prov::default();
            o.slippage = if d.r.chance(1, 2) { Some(Decimal::percent(50)) } else { None };
            o.reversed = d.r.chance(1, 5);
            if d.r.chance(1, 6) {
                o.receiver = Some(party(d, pi));
            }
            if d.r.chance(1, 4) {
                let v: Result<Uint128, String> = {
                    let p = d.pool(pi);
                    let assets = p.toks.iter().zip(&amts).map(|(t, a)| Asset { info: t.info.clone(), amount: Uint128::new(*a) }).collect();
                    d.w.c.query(&p.addr, &astroport::pair::QueryMsg::SimulateProvide { assets, slippage_tolerance: o.slippage })
                };
                if let Ok(v) = v {
                    // around the expected amount
                    let v = v.u128();
                    o.min_lp = Some(match d.r.idx(3) {
                        0 => v,
                        1 => v + 1 + v / 100,
                        _ => v / 2,
                    });
                }
            }
            let _ = d.op_provide(pi, ui, &amts, &o);
        }
        2 => rand_withdraw(d, pi),
        3 => {
            let p = d.pool(pi);
            let t = p.toks[d.r.idx(p.toks.len())].clone();
            let b = d.w.bal(&p.addr, &t);
            let a = d.r.log(1, (b / 5).max(2));
            let u = d.user();
            let _ = d.w.donate(&u, &p.addr, &t, a);
            d.sh[pi].donated = 1.0;
            d.m.step(|| format!("donate {a} {} to {}", t.id, p.addr));
        }
        4 => {
            let kind = d.w.pools[pi].kind;
            let f = Fees { total: *d.r.pick(&[0u16, 1, 10, 30, 100, 500, 2000, 9999, 10000]), maker: *d.r.pick(&[0u16, 1, 3333, 5000, 10000]) };
            d.w.set_fees(kind, f).expect("fees");
            d.m.step(|| format!("set fees {kind:?} {f:?}"));
        }
        5 => toggle_share(d, pi),
        _ => {
            if !d.w.maker_on {
                d.w.c
                    .exec(
                        &d.w.owner,
                        &d.w.factory,
                        &astroport::factory::ExecuteMsg::UpdateConfig {
                            token_code_id: None,
                            fee_address: Some(MAKER.into()),
                            generator_address: None,
                            whitelist_code_id: None,
                            coin_registry_address: None,
                        },
                        &[],
                    )
                    .expect("maker on");
                d.w.maker_on = true;
                d.m.step(|| "maker address set".into());
            }
        }
    }
}
pub fn toggle_share(d: &mut Dx, pi: usize) {
    let p = d.pool(pi);
    if matches!(p.kind, Kind::Tax | Kind::Trans) {
        return;
    }
    if d.sh[pi].fee_share.is_some() && d.r.chance(1, 2) {
        d.w.update_pool(&d.w.owner_of(&p), &p, &astroport::pair::XYKPoolUpdateParams::DisableFeeShare).expect("disable share");
        d.sh[pi].fee_share = None;
        d.m.step(|| "fee share off".into());
    } else {
        let bps = *d.r.pick(&[0u16, 1, 10, 333, 999, 1000, 1001, 5000, 10000]);
        // sometimes a trader, the fee collector or the owner
        let rec = match d.r.idx(if d.m.wants("P16") || d.m.wants("P20") { 3 } else { 6 }) {
            3 => d.user(),
            4 => MAKER.to_string(),
            5 => OWNER.to_string(),
            k => format!("wasm1share{}", k % 2),
        };
        let r = d.w.update_pool(
            &d.w.owner_of(&p),
            &p,
            &astroport::pair::XYKPoolUpdateParams::EnableFeeShare { fee_share_bps: bps, fee_share_address: rec.clone() },
        );
        let legal = bps > 0 && bps <= 1000;
        d.m.check("P02", "fee-share-bounds", r.is_ok() == legal, || format!("EnableFeeShare {bps} bps => {}", short(&r)));
        if r.is_ok() {
            d.sh[pi].fee_share = Some((bps, rec));
        }
        d.m.step(|| format!("fee share {bps} => {}", short(&r)));
    }
}
pub fn rand_amount(d: &mut Dx, pi: usize, i: usize) -> u128 {
    let b = {
        let p = &d.w.pools[pi];
        d.w.pool_bal(p, i)
    };
    match d.r.weighted(&[4, 70, 20, 6]) {
        0 => d.r.log(1, 1000),
        1 => d.r.log((b / 1_000_000).max(1), (b / 10).max(2)),
        2 => d.r.log((b / 10_000).max(1), b.max(2)),
        _ => d.r.log(b.max(2), b.max(2).saturating_mul(20)),
    }
}
/// a receiver: mostly somebody else, at times one of the parties of the operation itself
pub fn party(d: &mut Dx, pi: usize) -> String {
    let p = d.pool(pi);
    match d.r.weighted(&[60, 8, 6, 6, 8, 6, 6]) {
        0 => format!("wasm1recv{}", d.r.idx(3)),
        1 => d.user(),
        2 => MAKER.into(),
        3 => OWNER.into(),
        4 => d.sh[pi].fee_share.as_ref().map_or("wasm1share1".into(), |x| x.1.clone()),
        5 => d.w.factory.clone(),
        // paying the pool itself counts as a donation
        _ if ["P01", "P02", "P03", "P06"].iter().any(|x| d.m.wants(x)) => p.addr,
        _ => "wasm1recv0".into(),
    }
}
pub fn rand_swap(d: &mut Dx, pi: usize) {
    let p = d.pool(pi);
    let i = d.r.idx(p.toks.len());
    let mut j = d.r.idx(p.toks.len() - 1);
    if j >= i {
        j += 1
    }
    let a = rand_amount(d, pi, i);
    let mut o = Sw::default();
    if d.r.chance(5, 6) {
        o.max_spread = Some(Decimal::percent(50));
    }
    if d.r.chance(1, 5) {
        o.to = Some(party(d, pi));
    }
    o.name_ask = d.r.chance(1, 4);
    let u = d.user();
    let _ = d.op_swap(pi, &u, i, j, a, &o);
}
pub fn rand_withdraw(d: &mut Dx, pi: usize) {
    let p = d.pool(pi);
    let holders: Vec<String> =
        (0..5).map(|i| format!("wasm1user{i}")).chain((0..3).map(|i| format!("wasm1recv{i}"))).filter(|h| d.w.c.bal(h, &p.lp) > 0).collect();
    if holders.is_empty() {
        return;
    }
    let u = holders[d.r.idx(holders.len())].clone();
    let b = d.w.c.bal(&u, &p.lp);
    let a = match d.r.idx(4) {
        0 => b,
        1 => d.r.log(1, b),
        _ => d.r.range128(b / 20 + 1, b),
    }
    .min(b);
    let min = if d.r.chance(1, 3) {
        let s = d.st(pi);
        let f = [90u128, 100, 101, 120][d.r.idx(4)];
        Some(s.bal.iter().map(|x| mul_div(mul_div(*x, a, s.lp), f, 100)).collect())
    } else {
        None
    };
    let _ = d.op_withdraw(pi, &u, a, min);
}
/// Everybody leaves: all LP except the locked minimum can be withdrawn.
pub fn drain(d: &mut Dx, pi: usize) {
    let p = d.pool(pi);
    let holders: Vec<String> = (0..5).map(|i| format!("wasm1user{i}")).chain((0..3).map(|i| format!("wasm1recv{i}"))).collect();
    for h in holders {
        let b = d.w.c.bal(&h, &p.lp);
        if b > 0 {
            let _ = d.op_withdraw(pi, &h, b, None);
        }
    }
}
macro_rules! kinds {
    ($($name:ident $kind:ident $steps:expr;)*) => { $(fn $name(r: &mut Rng, m: &mut Mon) {
        let mut d = Dx::new(m, r);
        history(&mut d, Kind::$kind, $steps, |_, _| {});
        if d.r.chance(1, 3) && !d.m.failed() {
            for i in 0..d.w.pools.len() { drain(&mut d, i); }
            let i = d.r.idx(d.w.pools.len());
            d.tick();
            for _ in 0..6 { step(&mut d, i); }
        }
    })* };
}
kinds! {
    xyk Xyk 60;
    tax Tax 60;
    stable Stable 50;
    pcl Pcl 40;
}
type P = (&'static str, u64, u64, fn(&mut Rng, &mut Mon));
fn all(n: u64) -> Vec<P> {
    vec![("xyk", n, n * 20, xyk), ("tax", n, n * 20, tax), ("stable", n, n * 20, stable), ("pcl", n, n * 20, pcl)]
}
pub fn specs() -> Vec<Spec> {
    vec![
        Spec { prop: "P01", profiles: all(900), rule: "distinct (pool type, magnitudes of offer and output, fee/tax/recipient configuration) swaps whose complete ledger difference was compared" },
        Spec { prop: "P02", profiles: all(900), rule: "distinct (pool type, fee rates, share bps, maker presence, commission magnitude)" },
        Spec { prop: "P03", profiles: vec![("xyk", 1500, 30_000, xyk), ("tax", 900, 18_000, tax)], rule: "distinct magnitudes of pool sides, offers and LP supply" },
        Spec { prop: "P04", profiles: vec![("stable", 1800, 36_000, stable)], rule: "distinct (operation, amp bucket, magnitudes)" },
        Spec { prop: "P05", profiles: vec![("pcl", 1500, 30_000, pcl)], rule: "distinct (operation, amp, gamma, scale buckets, magnitudes)" },
        Spec { prop: "P06", profiles: all(900), rule: "distinct (pool type, first provide, magnitudes of deposits and mint)" },
        Spec { prop: "P07", profiles: all(900), rule: "distinct (pool type, magnitudes, pool emptied)" },
        Spec { prop: "P09", profiles: all(900), rule: "distinct (query kind, pool type, magnitudes)" },
        Spec { prop: "ALL", profiles: all(100), rule: "debug" },
    ]
}
