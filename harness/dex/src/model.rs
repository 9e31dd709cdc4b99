//! Independent reference arithmetic for the pool curves.
use cosmwasm_std::Uint512;
use sim::num::*;

/// exact floor(y - floor18(x*y/(x+dx))): constant-product output before fee
pub fn xyk_gross(x: u128, y: u128, dx: u128) -> u128 {
    let e18 = u512(E18);
    let v = u512(x) * u512(y) * e18 / (u512(x) + u512(dx));
    to128((u512(y) * e18 - v) / e18).unwrap()
}

/// StableSwap invariant in fixed point (1e27 per token), solved with integers.
const S27: u128 = 1_000_000_000_000_000_000_000_000_000;
pub fn fx(amount: u128, dec: u32) -> Uint512 {
    u512(amount) * u512(S27) / u512(pow10(dec))
}
pub fn fx_f(v: Uint512) -> f64 {
    f(v) / 1e27
}
/// `amp` carries two decimals (AMP_PRECISION = 100)
pub fn stable_d(amp: u64, x: Uint512, y: Uint512) -> Uint512 {
    let s = x + y;
    if s.is_zero() {
        return s;
    }
    let a2 = u512(2 * amp as u128);
    let h = u512(100);
    let mut d = s;
    for _ in 0..400 {
        let dp = d * d / (u512(2) * x) * d / (u512(2) * y);
        let num = (a2 * s + u512(200) * dp) * d;
        let den = if amp * 2 >= 100 { (a2 - h) * d + u512(300) * dp } else { u512(300) * dp - (h - a2) * d };
        let nd = num / den;
        let diff = if nd > d { nd - d } else { d - nd };
        d = nd;
        if diff <= u512(1) {
            break;
        }
    }
    d
}
/// other side of the pool for invariant d when one side is x
pub fn stable_y(amp: u64, x: Uint512, d: Uint512) -> Uint512 {
    let a2 = u512(2 * amp as u128);
    // c = d^3*100/(4*x*a2) ; b = x + d*100/a2
    let c = d * d / (u512(4) * x) * d * u512(100) / a2;
    let b = x + d * u512(100) / a2;
    let mut y = d;
    for _ in 0..400 {
        let ny = (y * y + c) / (u512(2) * y + b - d);
        let diff = if ny > y { ny - y } else { y - ny };
        y = ny;
        if diff <= u512(1) {
            break;
        }
    }
    y
}
/// gross output of a stable swap in units of the ask token (fixed point 1e27 tokens)
pub fn stable_gross(amp: u64, x: u128, xd: u32, y: u128, yd: u32, dx: u128) -> Uint512 {
    let d = stable_d(amp, fx(x, xd), fx(y, yd));
    let ny = stable_y(amp, fx(x + dx, xd), d);
    let yy = fx(y, yd);
    if ny > yy {
        u512(0)
    } else {
        yy - ny
    }
}

/// Concentrated (PCL / curve v2 twocrypto) invariant residual, scaled by D^2.
fn pcl_f(d: f64, x0: f64, x1: f64, a: f64, g: f64) -> f64 {
    let k0 = 4.0 * (x0 / d) * (x1 / d);
    // g + 1 - k0 computed without cancellation: 1-k0 = ((x0+x1)^2-4x0x1 + d^2-(x0+x1)^2)/d^2
    let s = x0 + x1;
    let om = ((x0 - x1) / d) * ((x0 - x1) / d) + (d - s) / d * ((d + s) / d);
    let k = a * k0 * g * g / ((g + om) * (g + om));
    // F/D^2 = k*(s/d - 1) + x0x1/d^2 - 1/4
    k * (s - d) / d - om / 4.0
}
pub fn pcl_d(x0: f64, x1: f64, a: f64, g: f64) -> f64 {
    let (mut lo, mut hi) = (2.0 * (x0 * x1).sqrt(), x0 + x1);
    if hi - lo <= 1e-15 * hi {
        return hi;
    }
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if m == lo || m == hi {
            break;
        }
        if pcl_f(m, x0, x1, a, g) > 0.0 {
            lo = m
        } else {
            hi = m
        }
    }
    0.5 * (lo + hi)
}
/// the balance of the other side such that the invariant equals d
pub fn pcl_y(x: f64, d: f64, a: f64, g: f64) -> f64 {
    // D is increasing in y
    let (mut lo, mut hi) = (0.0f64, d * d / (4.0 * x)); // k0 = 1 at the upper end
    for _ in 0..300 {
        let m = 0.5 * (lo + hi);
        if m == lo || m == hi {
            break;
        }
        // at fixed d, F grows with y
        if pcl_f(d, x, m, a, g) < 0.0 {
            lo = m
        } else {
            hi = m
        }
    }
    0.5 * (lo + hi)
}
pub fn tf(amount: u128, dec: u32) -> f64 {
    amount as f64 / 10f64.powi(dec as i32)
}
