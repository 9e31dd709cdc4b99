mod eng;
mod model;
mod props;
mod props2;
mod props3;
mod props4;
mod props5;
mod props6;
mod props7;
mod props8;
fn main() {
    let mut v = props::specs();
    v.extend(props2::specs());
    v.extend(props3::specs());
    v.extend(props4::specs());
    v.extend(props5::specs());
    // the transmuter joins the properties that speak about every pool type
    for s in v.iter_mut() {
        if matches!(s.prop, "P01" | "P06" | "P07" | "P09" | "P10") {
            s.profiles.push(props4::trans_profile(800));
        }
    }
    for s in v.iter_mut().filter(|s| matches!(s.prop, "P01" | "P06" | "P07")) {
        s.profiles.push(props7::profile());
    }
    for s in v.iter_mut().filter(|s| s.prop == "P06") {
        s.profiles.push(props6::profile());
    }
    for s in v.iter_mut().filter(|s| s.prop == "P20") {
        s.profiles.push(("hostile", 2_000, 40_000, props8::hostile));
    }
    sim::main_with("dex", v);
}
