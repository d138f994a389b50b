//! C23: a run that is under way at midnight is a run of one day.
use super::layout::sorted_entries;
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::sut::*;
use std::collections::BTreeMap;

const T: Day = 19782; // 2024-02-29, a Thursday

type Seen = (String, bool, i32, BTreeMap<String, String>);
fn observe(ctx: &mut Ctx, files: &[(String, String)], r: &Req) -> (Seen, bool) {
    ctx.reset();
    for (n, c) in files {
        ctx.put(n, c);
    }
    let x = ctx.run(r);
    let fs = ctx.srv.snapshot().into_iter().map(|(n, c)| (n, sorted_entries(&String::from_utf8_lossy(&c)))).collect();
    let t = x.ticked();
    ((x.out, x.err.is_empty(), x.status, fs), t)
}
/// The clock jumps after each possible number of readings of it.
fn jumps(ctx: &mut Ctx, files: &[(String, String)], r: &Req, by: i64) -> Check {
    let (before, _) = observe(ctx, files, r);
    let (after, _) = observe(ctx, files, &Req { clock: r.clock + by, ..r.clone() });
    ctx.outcome(if before == after { "the days are alike" } else { "the days differ" });
    for k in 1.. {
        let (x, ticked) = observe(ctx, files, &Req { tick: Some((k, by)), ..r.clone() });
        ctx.t.traces += 1;
        ctx.need(x == before || x == after, || {
            format!(
                "silverfox {:?}: the clock moves on by {by} s after it was read {k} times, and the result is neither that of the day before nor that of the day after.\ngot: {:?}\nbefore: {:?}\nafter: {:?}",
                r.args, x, before, after
            )
        })?;
        if !ticked {
            break;
        }
    }
    Ok(())
}
fn files(j: String) -> Vec<(String, String)> {
    vec![
        (JF.into(), j),
        ("x.csv".into(), "date,description,amount\n2024/02/27,a shop,-3\n2024/03/02,fox,4\n".into()),
        ("r".into(), "fields date, description, amount\naccount assets:a\n".into()),
    ]
}
const HEAD: &str = "account income:i\naccount expenses:x\naccount expenses:unknown\naccount income:unknown\n";
const FREQS: [&str; 17] = [
    "every friday", "every thursday", "every saturday", "every 1st", "every 29th", "every 31st", "every 2nd", "every 15th", "every other friday starting 2024/02/16", "every other friday starting 2024/02/23",
    "every other 1st starting 2024/01/01", "every other 31st starting 2023/12/31", "every year starting 2023/03/01", "every year starting 2020/02/29", "2024/03/01", "2024/03/02", "2024/02/29",
];
/// (subcommand and its other arguments)
const SUBS: [&[&str]; 5] = [&["e", "-f", JF], &["e", "-n", "-f", JF], &["b", "-f", JF], &["r", "-f", JF], &["i", "-f", JF, "--csv", "x.csv", "--rules", "r"]];
const SAVED: [&str; 8] = [
    "",
    "2024/02/20 * s\n    envelope assets:a food 7\n",
    "2024/02/28 * s\n    envelope assets:a food 7\n",
    "2024/02/29 * s\n    envelope assets:a food 7\n",
    "2024/03/01 * s\n    envelope assets:a food 7\n",
    "2024/02/20 * s\n    envelope assets:a food 46\n2024/02/29 * s\n    assets:a    -5\n    expenses:x\n",
    "2024/02/29 * s\n    envelope assets:a food 3\n2024/02/20 * s\n    envelope assets:a food 11\n",
    "2024/01/20 * s\n    envelope assets:a food 30\n2024/02/28 * s\n    assets:a    -40\n    expenses:x\n2024/02/29 * s\n    envelope assets:a food 46\n",
];

pub fn c23(h: &Harness) -> i32 {
    let last = (T + 1) * 86400 - 1;
    let b = [FREQS.len(), 2, SAVED.len(), 3, SUBS.len()];
    h.explore("one envelope: frequency x funding x saved x available x command, midnight at every reading of the clock", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let j = format!(
            "account assets:a\n    expense food due {}\n        amount 46\n        for expenses:x\n        funding {}\n{HEAD}2024/01/10 * in\n    assets:a    {}\n    income:i\n{}",
            FREQS[d[0]], ["aggressive", "conservative"][d[1]], [400, 60, 20][d[3]], SAVED[d[2]]
        );
        ctx.state(&d);
        jumps(ctx, &files(j), &Req { clock: last, ..req(T, SUBS[d[4]]) }, 1)
    });
    // two envelopes that want the same money
    let nf = if h.thorough { FREQS.len() } else { 9 };
    let b = [nf, nf, 4, 2, 3];
    h.explore("two envelopes: frequencies x funding x available x command, midnight at every reading of the clock", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let j = format!(
            "account assets:a\n    expense food due {}\n        amount 46\n        funding {}\n    goal trip by {}\n        amount 30\n        funding {}\n{HEAD}2024/01/10 * in\n    assets:a    {}\n    income:i\n2024/02/28 * s\n    envelope assets:a food 7\n2024/02/29 * s\n    envelope assets:a trip 9\n",
            FREQS[d[0]], ["aggressive", "conservative"][d[2] % 2], FREQS[d[1]], ["aggressive", "conservative"][d[2] / 2], [400, 50][d[3]]
        );
        ctx.state(&(1, &d));
        jumps(ctx, &files(j), &Req { clock: last, ..req(T, SUBS[d[4]]) }, 1)
    });
    // other midnights, in other zones; the machine sleeps for some days; the clock is set back
    let zones = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kathmandu", "Pacific/Apia"];
    let days = [T, day(2024, 12, 31), day(2024, 3, 30), day(2024, 3, 31), day(2024, 10, 26), day(2023, 2, 28), day(2024, 4, 30)];
    let bys = [1, 86400, 3 * 86400, 40 * 86400, -86400, 3600, -3600];
    let b = [zones.len(), days.len(), bys.len(), 4, 2];
    h.explore("zones x days x jumps x instants x funding, at every reading of the clock", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let m = ["aggressive", "conservative"][d[4]];
        let t = days[d[1]];
        let j = format!(
            "account assets:a\n    expense food due every 1st\n        amount 46\n        funding {m}\n    expense tea due every sunday\n        amount 12\n        funding {m}\n    goal trip by {}\n        amount 90\n        funding {m}\n{HEAD}2022/01/10 * in\n    assets:a    400\n    income:i\n{} * s\n    envelope assets:a food 7\n    envelope assets:a trip 3\n",
            sl(t + 1), sl(t - 9)
        );
        let off = [0i64, -3600, 18900, -50400][d[3]]; // midnight in UTC, near Berlin, Kathmandu, Apia
        ctx.state(&(2, &d));
        let r = Req { clock: (t + 1) * 86400 - 1 + off, env: vec![("TZ".into(), zones[d[0]].into())], ..req(t, &["e", "-f", JF]) };
        jumps(ctx, &files(j), &r, bys[d[2]])
    });
    // long journals: the clock may be read for every entry
    let ns: &[usize] = if h.thorough { &[1, 2, 3, 10, 50] } else { &[2, 12] };
    let b = [ns.len(), FREQS.len(), 2, 4];
    h.explore("many entries: number x frequency x funding x command, at every reading of the clock", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mut j = format!(
            "account assets:a\n    expense food due {}\n        amount 46\n        for expenses:x\n        funding {}\n{HEAD}2024/01/10 * in\n    assets:a    400\n    income:i\n",
            FREQS[d[1]], ["aggressive", "conservative"][d[2]]
        );
        for k in 0..ns[d[0]] as i64 {
            j += &format!("{} * s\n    envelope assets:a food {}\n{} * s\n    assets:a    -1\n    expenses:x\n", sl(T + 2 - k * 3), k + 1, sl(T - k * 5));
        }
        ctx.state(&(3, &d));
        jumps(ctx, &files(j), &Req { clock: last, ..req(T, SUBS[d[3]]) }, 1)
    });
    h.finish(
        "frequencies, funding methods, money saved and available, commands, zones and days; the clock moves to the next day (or by hours, days, weeks, back) after each possible number of readings in the run: reports, verdict and files are those of a run entirely before or entirely after. A state is a distinct journal, command and jump",
        &["one jump of the clock in a run"],
    )
}
