mod a01;
mod a02;
mod a03;
mod a04;
mod a05;
mod a06;
mod a07;
mod a08;
mod a09;
mod city;
mod common;
use sim::Spec;
fn main() {
    let specs = vec![
        Spec { prop: "A01", profiles: vec![("roles", 200, 3_000, a01::roles)],
            rule: "distinct tuples of (operation, outcome for the role holder) and (operation, kind of intruder, proposals pending)" },
        Spec { prop: "A02", profiles: vec![("ownership", 1_500, 20_000, a02::ownership)],
            rule: "distinct tuples of (contract, operation, pending or in time, seconds left capped at 2)" },
        Spec { prop: "A03", profiles: vec![("proxy", 20_000, 300_000, a03::proxy)],
            rule: "distinct tuples of (kinds of relayed messages, number of admins, mutable)" },
        Spec { prop: "A04", profiles: vec![("registry", 8_000, 100_000, a04::registry)],
            rule: "distinct tuples of (operation, coins concerned, list length, entries)" },
        Spec { prop: "A05", profiles: vec![("grants", 15_000, 200_000, a05::grants)],
            rule: "distinct tuples of (operation, variant, coins sent, by the owner, grants alive)" },
        Spec { prop: "A06", profiles: vec![("oracle", 2_500, 40_000, a06::oracle)],
            rule: "distinct tuples of (pool kind, update, trading segments, periods elapsed, lateness) and (pool kind, direction, zero average, magnitude)" },
        Spec { prop: "A07", profiles: vec![("buffer", 20_000, 400_000, a07::buffer)],
            rule: "distinct tuples of (capacity, uncommitted values, stored values, wrap-arounds)" },
        Spec { prop: "A08", profiles: vec![("upgrades", 15_000, 200_000, a08::upgrades)],
            rule: "distinct tuples of (contract, answer or operation compared, served or refused) and (contract, version upgraded from, variant)" },
        Spec { prop: "A09", profiles: vec![("settings", 6_000, 100_000, a09::settings)],
            rule: "distinct tuples of (contract, settings named in the request) and (contract, refused, settings named)" },
    ];
    sim::main_with("per", specs);
}
