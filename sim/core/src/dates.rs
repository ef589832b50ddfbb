//! RFC 3339 instants, independent of the `time` crate: the canonical spelling has nine digits of
//! fraction and a numeric offset.

/// `Ok(canonical)`, `Err(true)` where implementations may differ, `Err(false)` if malformed.
pub fn canon(x: &str) -> Result<String, bool> {
    let b = x.as_bytes();
    let dig = |i: usize| b.get(i).is_some_and(u8::is_ascii_digit);
    let num = |i: usize, n: usize| x[i..i + n].parse::<u32>().unwrap_or(0);
    if b.len() < 20 {
        return Err(false);
    }
    if !x.is_ascii() {
        return Err(false);
    }
    for i in [0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18] {
        if !dig(i) {
            return Err(false);
        }
    }
    if b[4] != b'-' || b[7] != b'-' || b[13] != b':' || b[16] != b':' {
        return Err(false);
    }
    if b[10] != b'T' {
        // RFC 3339 lets applications use another separator; readers differ in which they take.
        return Err(true);
    }
    let mut i = 19;
    let mut frac = String::new();
    if b[i] == b'.' {
        i += 1;
        while dig(i) {
            frac.push(b[i] as char);
            i += 1;
        }
        if frac.is_empty() {
            return Err(false);
        }
    }
    let off = match b.get(i) {
        Some(b'Z') if i + 1 == b.len() => "+00:00".to_string(),
        Some(b'z') if i + 1 == b.len() => return Err(true),
        Some(sg @ (b'+' | b'-')) if i + 6 == b.len() => {
            if !dig(i + 1) || !dig(i + 2) || b[i + 3] != b':' || !dig(i + 4) || !dig(i + 5) {
                return Err(false);
            }
            let (h, m) = (num(i + 1, 2), num(i + 4, 2));
            if h > 23 || m > 59 {
                return Err(true);
            }
            if h == 0 && m == 0 {
                "+00:00".into()
            } else {
                format!("{}{h:02}:{m:02}", *sg as char)
            }
        }
        _ => return Err(false),
    };
    let (y, mo, d) = (num(0, 4), num(5, 2), num(8, 2));
    let (h, mi, se) = (num(11, 2), num(14, 2), num(17, 2));
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let dm = match mo {
        2 => 28 + leap as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    if mo == 0 || mo > 12 || d == 0 || d > dm || h > 23 || mi > 59 || se > 60 {
        return Err(false);
    }
    if se == 60 || frac.len() > 9 {
        return Err(true);
    }
    while frac.len() < 9 {
        frac.push('0');
    }
    Ok(format!(
        "{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{se:02}.{frac}{off}"
    ))
}

/// Days since 1970-01-01 of a proleptic Gregorian date.
pub fn days(y: i64, m: u32, d: u32) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let mp = (m as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

fn civil(z: i64) -> (i64, u32, u32) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}

/// Canonical spelling of an instant as shown on a clock with the given offset; `None` when RFC
/// 3339 cannot express it.
pub fn spell(unix_nanos: i128, offset_secs: i32) -> Option<String> {
    if offset_secs % 60 != 0 {
        return None;
    }
    let local = unix_nanos + offset_secs as i128 * 1_000_000_000;
    let secs = local.div_euclid(1_000_000_000) as i64;
    let nanos = local.rem_euclid(1_000_000_000);
    let (y, m, d) = civil(secs.div_euclid(86_400));
    if !(0..=9999).contains(&y) {
        return None;
    }
    let t = secs.rem_euclid(86_400);
    let o = offset_secs.abs() / 60;
    Some(format!(
        "{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}.{nanos:09}{}{:02}:{:02}",
        t / 3600,
        t / 60 % 60,
        t % 60,
        if offset_secs < 0 { '-' } else { '+' },
        o / 60,
        o % 60
    ))
}

/// The instant and offset of a canonical spelling.
pub fn instant(c: &str) -> (i128, i32) {
    let n = |a: usize, b: usize| c[a..b].parse::<i64>().unwrap_or(0);
    let off = {
        let t = &c[c.len() - 6..];
        let v = (t[1..3].parse::<i32>().unwrap_or(0) * 60 + t[4..6].parse::<i32>().unwrap_or(0)) * 60;
        if t.starts_with('-') {
            -v
        } else {
            v
        }
    };
    let secs = days(n(0, 4), n(5, 7) as u32, n(8, 10) as u32) * 86_400
        + n(11, 13) * 3600
        + n(14, 16) * 60
        + n(17, 19)
        - off as i64;
    (secs as i128 * 1_000_000_000 + n(20, 29) as i128, off)
}
