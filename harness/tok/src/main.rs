mod common;
mod conv;
mod maker;
mod pools;
mod t01;
mod t02;
mod t04;
mod t05;
use sim::Spec;
fn main() {
    const STK: &str = "distinct tuples of (magnitude of the deposit, magnitude of the supply, eighths of the exchange rate)";
    let specs = vec![
        Spec { prop: "T01", profiles: vec![("life", 20_000, 200_000, t01::life), ("migrated", 6000, 60_000, t01::migrated)],
            rule: "distinct tuples of (schedules of the account, active ones, claimed before, something claimable, exhausted, order of magnitude)" },
        Spec { prop: "T02", profiles: vec![("staking", 20_000, 300_000, t02::staking)], rule: STK },
        Spec { prop: "T03", profiles: vec![("staking", 20_000, 300_000, t02::staking)], rule: STK },
        Spec { prop: "T04", profiles: vec![("tracker", 20_000, 300_000, t04::tracker), ("pools", 1500, 20_000, t04::lp_tokens)],
            rule: "distinct tuples of (tracking unit, changes of the account, supply events, past/now/future, changes at the queried moment)" },
        Spec { prop: "T05", profiles: vec![("token", 20_000, 300_000, t05::token)],
            rule: "distinct tuples of (changes of the account, supply changes, past/now/future, changes in the queried block, allowances)" },
        Spec { prop: "T06", profiles: vec![("collector", 15_000, 250_000, maker::maker)],
            rule: "distinct tuples of (distribution mode, which receivers exist, assets collected, longest route, fees flow back, magnitude)" },
        Spec { prop: "T07", profiles: vec![("convert", 20_000, 300_000, conv::convert)],
            rule: "distinct tuples of (converter flavour, magnitude, receiver is the sender, whole stock)" },
        Spec { prop: "T08", profiles: vec![("pool", 20_000, 300_000, pools::xastro)],
            rule: "distinct tuples of (direction, magnitude of the offer, magnitude of the supply, magnitude of the exchange rate)" },
        Spec { prop: "T09", profiles: vec![("pool", 20_000, 300_000, pools::converter)],
            rule: "distinct tuples of (old token kind, chain, magnitude, receiver is the sender, whole stock)" },
    ];
    sim::main_with("tok", specs);
}
