//! Mathematical definitions shared by contracts.

/// The exact value of `base ^ exp`, or none if it does not fit in 32 bits.
pub fn exact_pow(base: i32, exp: u32) -> Option<i64> {
    match base {
        0 => return Some(if exp == 0 { 1 } else { 0 }),
        1 => return Some(1),
        -1 => return Some(if exp % 2 == 0 { 1 } else { -1 }),
        _ => (),
    }
    if exp > 31 {
        return None;
    }
    let mut v = 1i64;
    for _ in 0..exp {
        v *= base as i64;
        if v < i32::MIN as i64 || v > i32::MAX as i64 {
            return None;
        }
    }
    Some(v)
}


/// Shifts `a` left by `b` bits one bit at a time, or returns none if `b` is negative.
pub fn shl(a: i32, b: i32) -> Option<i32> {
    if b < 0 {
        return None;
    }
    let mut v = a;
    let mut i = 0;
    while i < 32 {
        if i < b {
            v = v.wrapping_add(v);
        }
        i += 1;
    }
    Some(v)
}

/// Shifts `a` right by `b` bits one bit at a time, or returns none if `b` is negative.
pub fn shr(a: i32, b: i32) -> Option<i32> {
    if b < 0 {
        return None;
    }
    let mut v = a;
    let mut i = 0;
    while i < 32 {
        if i < b {
            v = (v as i64).div_euclid(2) as i32;
        }
        i += 1;
    }
    Some(v)
}

/// Rounds half away from zero without relying on `f64::round`.
pub fn round(d: f64) -> f64 {
    // Doubles with a magnitude of 2^52 or more have no fractional part.
    if d.is_nan() || d.abs() >= 4503599627370496.0 {
        return d;
    }
    let t = d as i64 as f64;
    let rest = d - t;
    if rest >= 0.5 {
        t + 1.0
    } else if rest <= -0.5 {
        t - 1.0
    } else {
        t
    }
}

/// Rounds towards negative infinity.
pub fn floor(d: f64) -> f64 {
    if d.is_nan() || d.abs() >= 4503599627370496.0 {
        return d;
    }
    let t = d as i64 as f64;
    if t > d {
        t - 1.0
    } else {
        t
    }
}

/// Rounds towards zero.
pub fn trunc(d: f64) -> f64 {
    if d.is_nan() || d.abs() >= 4503599627370496.0 {
        return d;
    }
    d as i64 as f64
}

/// The 32-bit integer with the value of the integral `d`, if there is one.
pub fn to_i32(d: f64) -> Option<i32> {
    if d >= -2147483648.0 && d <= 2147483647.0 {
        Some(d as i64 as i32)
    } else {
        None
    }
}
