//! Integer helpers for the oracles (independent of the contracts' own arithmetic helpers).
use cosmwasm_std::{Decimal, Uint256, Uint512};
pub fn u512(x: u128) -> Uint512 {
    Uint512::from(x)
}
pub fn u256(x: u128) -> Uint256 {
    Uint256::from(x)
}
/// floor(a*b/c)
pub fn mul_div(a: u128, b: u128, c: u128) -> u128 {
    let r = u512(a) * u512(b) / u512(c);
    to128(r).expect("mul_div overflow")
}
pub fn mul_div_ceil(a: u128, b: u128, c: u128) -> u128 {
    let n = u512(a) * u512(b);
    let q = n / u512(c);
    let q = if q * u512(c) == n { q } else { q + u512(1) };
    to128(q).expect("mul_div_ceil overflow")
}
pub fn to128(r: Uint512) -> Option<u128> {
    r.to_string().parse().ok()
}
pub fn f(r: Uint512) -> f64 {
    r.to_string().parse().unwrap()
}
pub fn isqrt512(n: Uint512) -> Uint512 {
    if n.is_zero() {
        return n;
    }
    // Newton from above
    let two = u512(2);
    let mut bits = 0u32;
    let mut t = n;
    while !t.is_zero() {
        t = t / two;
        bits += 1;
    }
    let mut x = u512(1) << ((bits + 1) / 2);
    loop {
        let y = (x + n / x) / two;
        if y >= x {
            return x;
        }
        x = y;
    }
}
/// Decimal atomics (1e18 fixed point)
pub fn dec(d: Decimal) -> u128 {
    d.atomics().u128()
}
pub const E18: u128 = 1_000_000_000_000_000_000;
pub fn pow10(n: u32) -> u128 {
    10u128.pow(n)
}
/// relative difference
pub fn rel(a: f64, b: f64) -> f64 {
    if a == b {
        0.0
    } else {
        (a - b).abs() / a.abs().max(b.abs())
    }
}
