//! Proleptic Gregorian calendar, independent of chrono. A `Day` is a number of days since 1970-01-01.
pub type Day = i64;

pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn mlen(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => if leap(y) { 29 } else { 28 },
        _ => 31,
    }
}
pub fn day(y: i64, m: i64, d: i64) -> Day {
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn ymd(z: Day) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (if m <= 2 { y + 1 } else { y }, m, d)
}
/// 0 = Monday
pub fn weekday(d: Day) -> i64 {
    (d + 3).rem_euclid(7)
}
pub fn clamped(y: i64, m: i64, d: i64) -> Day {
    day(y, m, d.clamp(1, mlen(y, m)))
}
pub const WD: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];

/// The handful of strftime directives the checks use.
pub fn fmt(d: Day, f: &str) -> String {
    let (y, m, dd) = ymd(d);
    const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    let mut out = String::new();
    let mut it = f.chars();
    while let Some(c) = it.next() {
        if c != '%' {
            out.push(c);
            continue;
        }
        match it.next().unwrap() {
            'Y' => out.push_str(&format!("{y:04}")),
            'y' => out.push_str(&format!("{:02}", y % 100)),
            'm' => out.push_str(&format!("{m:02}")),
            'd' => out.push_str(&format!("{dd:02}")),
            'b' => out.push_str(MON[m as usize - 1]),
            'j' => out.push_str(&format!("{:03}", d - day(y, 1, 1) + 1)),
            x => panic!("directive {x}"),
        }
    }
    out
}
pub fn iso(d: Day) -> String {
    fmt(d, "%Y-%m-%d")
}
pub fn sl(d: Day) -> String {
    fmt(d, "%Y/%m/%d")
}

pub fn selftest() {
    assert_eq!(day(1970, 1, 1), 0);
    assert_eq!(day(2000, 3, 1), 11017);
    assert_eq!(weekday(day(2026, 10, 29)), 3);
    let mut prev = day(1899, 12, 31);
    for y in 1900..2200 {
        for m in 1..=12 {
            for d in 1..=mlen(y, m) {
                let x = day(y, m, d);
                assert_eq!(x, prev + 1);
                assert_eq!(ymd(x), (y, m, d));
                prev = x;
            }
        }
    }
}
