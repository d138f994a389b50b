//! C06 (due dates) and C07 (money moves to `now` on the due date): every day x every kind of envelope.
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::model::*;
use crate::outparse as op;

pub fn e(freq: Freq, starting: Option<Day>) -> Env {
    Env { goal: false, name: String::new(), freq, starting, amount: amt(64.0, ""), fors: vec![], funding: Funding::Unset }
}

/// the envelopes that stay the same whatever day it is
fn fixed() -> Vec<Env> {
    let mut v = vec![e(Freq::Never, None)];
    for w in 0..7 {
        v.push(e(Freq::Weekly(w), None));
        v.push(e(Freq::Weekly(w), Some(day(2016, 2, 25) + (w - weekday(day(2016, 2, 25))).rem_euclid(7))));
    }
    for n in 1..=31 {
        v.push(e(Freq::Monthly(n), None));
    }
    for (y, m, n) in [(2015, 12, 31), (2016, 1, 31), (2016, 2, 15), (2024, 2, 1), (2011, 4, 30)] {
        v.push(e(Freq::Monthly(n), Some(day(y, m, n))));
    }
    for k in 0..14 {
        v.push(e(Freq::Biweekly, Some(day(2004, 2, 20) + k)));
    }
    for (y, m, d) in [(1999, 12, 27), (2012, 12, 31), (2016, 2, 29), (2030, 1, 1)] {
        v.push(e(Freq::Biweekly, Some(day(y, m, d))));
    }
    for m in 1..=12 {
        for d in [1, 15, 28, 29, 30, 31] {
            if d <= mlen(2000, m) {
                v.push(e(Freq::Bimonthly, Some(day(2000, m, d))));
            }
        }
    }
    for d in [29, 30, 31] {
        v.push(e(Freq::Bimonthly, Some(day(2013, 12, d))));
        v.push(e(Freq::Bimonthly, Some(day(2018, 7, d))));
        v.push(e(Freq::Bimonthly, Some(day(2018, 8, d))));
    }
    for (y, m, d) in [
        (1996, 2, 29), (2000, 2, 29), (2004, 2, 29), (2016, 2, 29), (2028, 2, 29), (2001, 2, 28), (2000, 2, 28), (2000, 3, 1), (2003, 12, 31), (2004, 12, 31),
        (2005, 1, 1), (2010, 6, 15), (2019, 10, 31), (2031, 3, 31),
    ] {
        v.push(e(Freq::Yearly, Some(day(y, m, d))));
    }
    for (y, m, d) in [(2000, 2, 29), (2004, 1, 1), (2015, 12, 31), (2024, 2, 29)] {
        v.push(e(Freq::Once(day(y, m, d)), None));
    }
    v
}
/// envelopes placed relative to the day
fn relative(t: Day) -> Vec<Env> {
    let mut v = vec![];
    for k in [-400, -31, -8, -2, -1, 0, 1, 2, 7, 27, 28, 29, 30, 31, 32, 365, 366, 1500] {
        v.push(e(Freq::Once(t + k), None));
        v.push(e(Freq::Once(t + k), Some(t + k - 20)));
    }
    for k in [-400, -366, -365, -63, -62, -61, -60, -59, -28, -15, -14, -13, -7, -1, 0, 1, 2, 6, 7, 13, 14, 15, 29, 31, 60, 200, 366, 731] {
        let s = t + k;
        v.push(e(Freq::Biweekly, Some(s)));
        v.push(e(Freq::Bimonthly, Some(s)));
        v.push(e(Freq::Yearly, Some(s)));
        v.push(e(Freq::Weekly(weekday(s)), Some(s)));
        v.push(e(Freq::Monthly(ymd(s).2), Some(s)));
        {
            // a starting date that is not on the day of the week or month
            v.push(e(Freq::Weekly((weekday(s) + 3) % 7), Some(s)));
            v.push(e(Freq::Monthly(ymd(s).2 % 28 + 1), Some(s)));
        }
    }
    v
}

fn doc(es: &mut [Env], df: &str) -> String {
    let mut s = String::new();
    if df != "%Y/%m/%d" {
        s += &format!("date_format {df}\n");
    }
    s += "account assets:a\n";
    for (i, v) in es.iter_mut().enumerate() {
        v.name = format!("e{i}");
        v.goal = i % 5 == 4;
        s += &v.text(df);
    }
    s
}

fn judge(ctx: &mut Ctx, es: &[Env], r: &crate::sut::Res, today: Day, tz: &str) -> Check {
    let v = env_out(ctx, r)?;
    ctx.need(v.len() == 1 && v[0].envs.len() == es.len(), || format!("{} envelopes are shown, expected {}", v.iter().map(|a| a.envs.len()).sum::<usize>(), es.len()))?;
    let m: std::collections::HashMap<(&str, bool), &op::EnvOut> = v[0].envs.iter().map(|x| ((x.name.as_str(), x.goal), x)).collect();
    for x in es {
        let Some(g) = m.get(&(x.name.as_str(), x.goal)) else { return ctx.fail(format!("envelope {} is not shown", x.name)) };
        let want = x.next_due(today);
        ctx.need(g.due == want, || {
            format!("`{}`: next due date on {} ({}){tz} is shown as {:?}, expected {:?}", x.header("%Y/%m/%d"), iso(today), WD[weekday(today) as usize], g.due.map(iso), want.map(iso))
        })?;
        ctx.t.states.insert(hash(&(x.freq_key(), want.map(|d| d - today), today % 1461)));
    }
    ctx.t.traces += es.len() as u64;
    Ok(())
}
impl Env {
    pub fn freq_key(&self) -> String {
        format!("{:?}", self.freq).split('(').next().unwrap().to_string()
    }
}

/// days on which a daylight-saving zone of the American rule is on summer time at midnight
fn edt_at_midnight(d: Day) -> bool {
    let (y, _, _) = ymd(d);
    let first_sunday = |m: i64| (day(y, m, 1)..).find(|x| weekday(*x) == 6).unwrap();
    let (b, e) = (first_sunday(3) + 7, first_sunday(11));
    d > b && d <= e
}
/// the same for the European rule (change at 1:00 UTC on the last Sundays of March and October), zone UTC+1/+2
fn cest_at_midnight(d: Day) -> bool {
    let (y, _, _) = ymd(d);
    let last_sunday = |m: i64| (day(y, m, mlen(y, m) - 6)..).find(|x| weekday(*x) == 6).unwrap();
    d > last_sunday(3) && d <= last_sunday(10)
}

pub fn c06(h: &Harness) -> i32 {
    let spans: Vec<(Day, Day)> = if h.thorough {
        vec![(day(1999, 1, 1), day(2041, 1, 1)), (day(2095, 12, 1), day(2104, 4, 1)), (day(1969, 12, 1), day(1970, 3, 1))]
    } else {
        vec![(day(1999, 11, 1), day(2000, 4, 1)), (day(2002, 12, 1), day(2005, 2, 1)), (day(2015, 1, 1), day(2029, 4, 1)), (day(2099, 12, 1), day(2101, 4, 1))]
    };
    let days: Vec<Day> = spans.iter().flat_map(|(a, b)| *a..*b).collect();
    let fx = fixed();
    h.explore(&format!("every day of {} spans x {} fixed and {} relative envelopes", spans.len(), fx.len(), relative(0).len()), days.len(), |ctx, i| {
        let t = days[i];
        let mut es = fx.clone();
        es.extend(relative(t));
        let s = doc(&mut es, "%Y/%m/%d");
        ctx.put(JF, &s);
        let r = report(ctx, t, "e");
        judge(ctx, &es, &r, t, "")?;
        ctx.outcome(&format!("day {} of a month of {}", ymd(t).2, mlen(ymd(t).0, ymd(t).1)));
        ctx.sample(|| format!("on {}: {}", iso(t), r.out.lines().skip(3).take(9).collect::<Vec<_>>().join("\n")));
        Ok(())
    });
    // every time of day and time zone: the day changes at local midnight
    let mut zones: Vec<(String, i64)> = vec![("UTC".into(), 0)];
    for q in -12 * 4..=14 * 4i64 {
        if !h.thorough && q % 4 != 0 && ![-38, -14, 14, 22, 23, 35, 38, 51].contains(&q) {
            continue;
        }
        // POSIX offsets count westward
        let (a, hh, mm) = (if q < 0 { "" } else { "-" }, q.abs() / 4, q.abs() % 4 * 15);
        zones.push((format!("<X>{a}{hh}:{mm:02}"), q * 900));
    }
    for z in &mut zones {
        z.0 = z.0.replace("<X>", "XYZ");
    }
    let tdays = [day(2023, 12, 30), day(2024, 2, 27), day(2024, 2, 28), day(2024, 2, 29), day(2024, 3, 31), day(2024, 12, 31), day(2025, 1, 1), day(2025, 2, 28)];
    let secs = [0i64, 1, 1800, 3599, 3600, 43199, 43200, 79200, 82800, 86399];
    h.explore("time zones x days x times of day", zones.len() * tdays.len(), |ctx, i| {
        let (tz, off) = &zones[i % zones.len()];
        let t = tdays[i / zones.len()];
        let mut es = relative(t);
        es.extend(fx.iter().take(46).cloned());
        let s = doc(&mut es, "%Y/%m/%d");
        ctx.put(JF, &s);
        for sec in secs {
            let mut q = req(t, &["e", "-n", "-f", JF]);
            q.env = vec![("TZ".into(), tz.clone())];
            q.clock = t * 86400 + sec - off;
            let r = ctx.run(&q);
            judge(ctx, &es, &r, t, &format!(" at {sec} s after midnight in zone {tz}"))?;
        }
        ctx.outcome("time zone");
        Ok(())
    });
    let (a, b) = if h.thorough { (day(2023, 1, 1), day(2026, 1, 1)) } else { (day(2024, 1, 1), day(2025, 1, 1)) };
    h.explore("zones with summer time x every day x around both midnights", ((b - a) * 2) as usize, |ctx, i| {
        let t = a + i as i64 / 2;
        let (tz, off): (&str, fn(Day) -> i64) = if i % 2 == 0 {
            ("EST5EDT,M3.2.0,M11.1.0", |d| if edt_at_midnight(d) { -4 * 3600 } else { -5 * 3600 })
        } else {
            ("CET-1CEST,M3.5.0,M10.5.0/3", |d| if cest_at_midnight(d) { 2 * 3600 } else { 3600 })
        };
        let mut es = relative(t);
        let s = doc(&mut es, "%Y/%m/%d");
        ctx.put(JF, &s);
        for c in [t * 86400 - off(t), t * 86400 - off(t) + 3000, (t + 1) * 86400 - off(t + 1) - 1, (t + 1) * 86400 - off(t + 1) - 3000] {
            let mut q = req(t, &["e", "-n", "-f", JF]);
            q.env = vec![("TZ".into(), tz.into())];
            q.clock = c;
            let r = ctx.run(&q);
            judge(ctx, &es, &r, t, &format!(" in zone {tz}"))?;
        }
        ctx.outcome("summer time");
        Ok(())
    });
    // the ways to write a header
    let t0s: Vec<Day> = (0..if h.thorough { 400 } else { 40 }).map(|k| day(2020, 1, 10) + k * 9).collect();
    h.explore("spellings of headers x date formats x days", t0s.len() * 3, |ctx, i| {
        let t = t0s[i / 3];
        let df = ["%Y/%m/%d", "%Y-%m-%d", "%d.%m.%y"][i % 3];
        let mut lines: Vec<(String, Option<Day>)> = vec![];
        for w in 0..7usize {
            let want = e(Freq::Weekly(w as i64), None).next_due(t);
            for n in [WD[w].to_string(), WD[w][..3].to_string(), WD[w].to_lowercase(), WD[w][..3].to_lowercase(), WD[w].to_uppercase()] {
                for p in ["due every", "by every", "due by every"] {
                    lines.push((format!("{p} {n}"), want));
                }
                let s = t - 30 + (w as i64 - weekday(t - 30)).rem_euclid(7);
                lines.push((format!("due every other {n} starting {}", fmt(s, df)), e(Freq::Biweekly, Some(s)).next_due(t)));
            }
        }
        for n in 1..=31 {
            let want = e(Freq::Monthly(n), None).next_due(t);
            for x in [nth(n), n.to_string(), format!("{n}th")] {
                for p in ["due every", "by every"] {
                    lines.push((format!("{p} {x}"), want));
                }
            }
        }
        for k in [-40, 0, 1, 50] {
            for p in ["by", "due", "due by"] {
                lines.push((format!("{p} {}", fmt(t + k, df)), e(Freq::Once(t + k), None).next_due(t)));
            }
        }
        for p in ["due every year", "by every year", "due by every year"] {
            for k in [-500, 3] {
                lines.push((format!("{p} starting {}", fmt(t + k, df)), e(Freq::Yearly, Some(t + k)).next_due(t)));
            }
        }
        lines.push(("no date".into(), None));
        let mut s = format!("date_format {df}\naccount assets:a\n");
        for (k, (l, _)) in lines.iter().enumerate() {
            s += &format!("  expense e{k} {l}\n    amount 10\n");
        }
        ctx.put(JF, &s);
        let r = report(ctx, t, "e");
        let v = env_out(ctx, &r)?;
        ctx.need(v.len() == 1 && v[0].envs.len() == lines.len(), || "envelopes are missing from the report".into())?;
        for (k, (l, want)) in lines.iter().enumerate() {
            let g = v[0].envs.iter().find(|x| x.name == format!("e{k}"));
            ctx.need(g.is_some_and(|g| g.due == *want), || format!("`{l}`: next due date on {} is {:?}, expected {:?}", iso(t), g.and_then(|g| g.due).map(iso), want.map(iso)))?;
        }
        ctx.t.traces += lines.len() as u64;
        ctx.outcome("header spellings");
        Ok(())
    });
    // startings long ago
    let old: Vec<Day> = [(1, 1, 1), (4, 2, 29), (999, 12, 31), (1000, 2, 28), (1300, 6, 30), (1398, 1, 31), (1582, 10, 4), (1600, 2, 29), (1750, 5, 31), (1899, 12, 31), (1900, 1, 30), (1930, 8, 31), (1969, 12, 31), (1970, 1, 1), (1970, 1, 2)].iter().map(|(y, m, d)| day(*y, *m, *d)).collect();
    let late = [day(2019, 12, 31), day(2024, 2, 28), day(2024, 2, 29), day(2024, 3, 1), day(2025, 2, 28), day(2025, 6, 30), day(2200, 2, 28), day(2399, 12, 31), day(2400, 2, 29)];
    h.explore("startings long ago and days long from now, every phase of two weeks", late.len() * 15, |ctx, i| {
        let t = late[i / 15] + i as i64 % 15 - 7;
        let mut es = vec![];
        for o in &old {
            for k in 0..14 {
                es.push(e(Freq::Biweekly, Some(o + k)));
            }
            for k in [0, 1, 2, 31, 59] {
                es.push(e(Freq::Bimonthly, Some(o + k)));
                es.push(e(Freq::Yearly, Some(o + k)));
            }
            es.push(e(Freq::Monthly(31), Some(*o)));
            es.push(e(Freq::Weekly(2), Some(*o)));
            es.push(e(Freq::Once(*o), None));
        }
        let s = doc(&mut es, "%Y/%m/%d");
        ctx.put(JF, &s);
        let r = report(ctx, t, "e");
        judge(ctx, &es, &r, t, "")
    });
    // names that are words of headers; dates far away
    let odd = ["no", "casino", "due", "every", "date", "nodate", "year", "other", "Friday", "5th", "no-date", "expense", "goal", "amount", "for", "funding", "account", "envelope", "include", "2030/01/01", "up_to_date", "restarting", "starting_", "rugby", "by_", "overdue", "no_", "31", "1", "by"];
    h.explore("names that are words of headers x frequencies x kind x days", odd.len() * 2 * t0s.len().min(40), |ctx, i| {
        let d = digits(i, &[odd.len(), 2, t0s.len().min(40)]);
        let t = t0s[d[2]];
        let far = [day(2999, 12, 31), day(3000, 1, 1), day(9999, 12, 31), day(2262, 4, 12), day(4000, 2, 29)];
        let mut forms = vec![e(Freq::Once(t + 9), None), e(Freq::Never, None)];
        forms.extend(far.iter().map(|f| e(Freq::Once(*f), None)));
        if odd[d[0]] != "by" {
            forms.extend([e(Freq::Monthly(5), None), e(Freq::Weekly(4), None), e(Freq::Yearly, Some(t - 400)), e(Freq::Bimonthly, Some(t - 40)), e(Freq::Biweekly, Some(t - 5)), e(Freq::Monthly(31), Some(t + 70)), e(Freq::Yearly, Some(day(2999, 2, 28))), e(Freq::Yearly, Some(day(3000, 1, 1))), e(Freq::Monthly(9), Some(day(9998, 3, 9)))]);
        }
        for f in &forms {
            let mut x = f.clone();
            x.name = odd[d[0]].into();
            x.goal = d[1] == 1;
            let mut y = e(Freq::Monthly(7), None);
            y.name = "other_one".into();
            ctx.put(JF, &format!("account assets:a\n{}{}", x.text("%Y/%m/%d"), y.text("%Y/%m/%d")));
            let r = report(ctx, t, "e");
            judge(ctx, &[x, y], &r, t, "")?;
        }
        ctx.outcome("names");
        Ok(())
    });
    if !h.stop() {
        h.explore("probe: every other 15th starting on another day", 1, |ctx, _| {
            ctx.put(JF, "account assets:a\n  expense electricity due every other 15th starting 2020/01/20\n    amount 10\n");
            let r = report(ctx, day(2020, 2, 1), "e");
            let v = env_out(ctx, &r)?;
            let d = v.first().and_then(|a| a.envs.first()).and_then(|x| x.due);
            if d.is_none_or(|d| ymd(d).2 != 15) {
                if !h.known("every-other-unaligned") {
                    return ctx.fail(format!("`every other 15th starting 2020/01/20` is due on {:?}, not on a 15th", d.map(iso)));
                }
                h.known_hit("`every other 15th starting 2020/01/20` (README) is due on the 20th of every other month, not on the 15th");
            }
            Ok(())
        });
    }
    h.finish(
        "on every day of the listed spans, the next due date of every envelope of a set that has all weekdays, all days of the month, every-other-week/month and yearly starts (all phases, all month ends, 29 February), one-time dates and startings around the day; every time zone offset and summer-time zones at instants around midnight; all spellings of headers; startings long ago. A state is a distinct (frequency, distance to the due date, day in the 4-year cycle)",
        &["today lies between 1970 and 2104; startings and one-time dates lie further off", "for every-other envelopes the starting date is on the envelope's day"],
    )
}

// ------------------------------------------------------------------------------------------- C07
fn c07_envs(a: Day, b: Day) -> Vec<Vec<Env>> {
    let mut v = vec![];
    for w in 0..7 {
        v.push(e(Freq::Weekly(w), None));
        v.push(e(Freq::Weekly(w), Some(a + 17 + (w - weekday(a + 17)).rem_euclid(7))));
    }
    for n in 1..=31 {
        v.push(e(Freq::Monthly(n), None));
    }
    for n in [1, 5, 28, 29, 30, 31] {
        let mid = (a + b) / 2;
        let (y, m, _) = ymd(mid);
        v.push(e(Freq::Monthly(n), Some(clamped(y, m, n))));
    }
    for k in 0..14 {
        v.push(e(Freq::Biweekly, Some(a - 9 + 3 * k)));
    }
    for k in [-70, -62, -61, -60, -31, -30, -29, -28, -1, 0, 1, 10, 20, 21, 22, 30, 31, 32, 33, 60] {
        v.push(e(Freq::Bimonthly, Some(a + k)));
    }
    let (y, m, _) = ymd(a);
    let pm = |k: i64| { let z = y * 12 + m - 1 + k; (z.div_euclid(12), z.rem_euclid(12) + 1) };
    for k in -3..2 {
        let (py, pmn) = pm(k);
        v.push(e(Freq::Bimonthly, Some(day(py, pmn, mlen(py, pmn)))));
    }
    for k in [-1461, -731, -366, -365, -364, -340, -330, 1, 25] {
        v.push(e(Freq::Yearly, Some(a + k)));
    }
    v.push(e(Freq::Yearly, Some(day(2016, 2, 29))));
    v.push(e(Freq::Yearly, Some(day(2012, 2, 29))));
    for k in (-1..b - a).chain([70]) {
        v.push(e(Freq::Once(a + k), None));
    }
    // one-time envelopes and startings before, on and after their dates
    for k in [3, 20] {
        for s in [-40, -1, 0, 1, 2, 10] {
            v.push(e(Freq::Once(a + k), Some(a + k + s)));
        }
    }
    v.push(e(Freq::Never, Some(a + 9)));
    v.push(e(Freq::Never, None));
    v.chunks(22).map(|c| c.to_vec()).collect()
}

pub fn c07(h: &Harness) -> i32 {
    // windows [a, b): deposits on every day, looked at on every day
    let mut wins: Vec<(Day, i64)> = vec![
        (day(2019, 12, 5), 45), (day(2020, 1, 25), 50), (day(2021, 1, 25), 45), (day(2023, 4, 20), 50), (day(2024, 2, 10), 45), (day(2024, 7, 20), 50),
        (day(2024, 11, 20), 50),
    ];
    if h.thorough {
        wins = (0..30).map(|k| (day(2019, 1, 1) + k * 61, 66)).collect();
        wins.push((day(2000, 1, 25), 50));
        wins.push((day(2100, 1, 25), 50));
    }
    let jobs: Vec<(Day, i64, usize)> = wins.iter().flat_map(|(a, n)| (0..c07_envs(*a, a + n).len()).map(move |g| (*a, *n, g))).collect();
    h.explore("deposits on every day of a window, looked at on every day, all envelope kinds", jobs.len() * 4, |ctx, i| {
        let (a, n, g) = jobs[i / 4];
        let sym = ["", "", "$", "BTC"][i % 4];
        let mut es = c07_envs(a, a + n)[g].clone();
        for (k, x) in es.iter_mut().enumerate() {
            x.name = format!("e{k}");
            x.goal = k % 3 == 1;
            // weights identify the days that are counted
            x.amount = amt(4096.0, sym);
            if i % 2 == 1 {
                x.fors = vec![X.into()];
            }
        }
        let mut items = vec![Item::Account(A.into(), es.clone()), acct(X), acct(I)];
        for k in 0..n {
            let w = (k + 1) as f64 + 1.0 / 64.0;
            if i % 2 == 0 {
                items.push(Item::Entry(entry(a + k, "in", es.iter().map(|x| envp(A, &x.name, amt(w, sym))).collect())));
                if k % 7 == 3 {
                    items.push(Item::Entry(entry(a + k, "out", es.iter().map(|x| envp(A, &x.name, amt(-w / 2.0, sym))).collect())));
                }
            } else {
                // refunds and spending on the linked account
                let s = if k % 5 == 2 { -1.0 } else { 1.0 };
                items.push(Item::Entry(entry(a + k, "linked", vec![real(A, Some(amt(s * w, sym))), real(X, None)])));
            }
        }
        ctx.put(JF, &render(&items));
        let mut tot: Option<Vec<f64>> = None;
        for t in a - 2..a + n + if h.thorough { 40 } else { 3 } {
            let w = eval(&items, t).unwrap();
            let r = report(ctx, t, "e");
            chk_env(ctx, &w, &r, t, EnvOpts { due: false, split: true, available: true })?;
            // the sum does not depend on the day
            let v = env_out(ctx, &r)?;
            let mut s: Vec<(bool, String, f64)> = v[0].envs.iter().map(|x| (x.goal, x.name.clone(), x.now.mag + x.next.mag)).collect();
            s.sort_by(|p, q| (p.0, &p.1).cmp(&(q.0, &q.1)));
            let s: Vec<f64> = s.iter().map(|x| x.2).collect();
            if let Some(p) = &tot {
                ctx.need(p.iter().zip(&s).all(|(x, y)| op::close(*x, *y)), || format!("what the envelopes hold changed on {} without an entry", iso(t)))?;
            }
            tot = Some(s);
            for x in &w.accounts[A].envs {
                ctx.state(&(x.0.freq_key(), x.1.now.to_bits(), x.1.next.to_bits()));
            }
            ctx.t.traces += es.len() as u64;
        }
        ctx.outcome(if i % 2 == 0 { "manual moves" } else { "linked spending" });
        ctx.sample(|| render(&items).lines().take(40).collect::<Vec<_>>().join("\n"));
        Ok(())
    });
    // small histories: one or two movements around a due date, looked at around it
    let kinds: Vec<Env> = {
        let s = day(2024, 1, 31);
        vec![
            e(Freq::Weekly(2), None), e(Freq::Monthly(29), None), e(Freq::Monthly(31), None), e(Freq::Monthly(1), None), e(Freq::Biweekly, Some(day(2024, 1, 17))),
            e(Freq::Biweekly, Some(day(2024, 2, 28))), e(Freq::Bimonthly, Some(day(2023, 12, 31))), e(Freq::Bimonthly, Some(day(2024, 2, 29))),
            e(Freq::Yearly, Some(day(2020, 2, 29))), e(Freq::Yearly, Some(day(2024, 3, 1))), e(Freq::Once(day(2024, 2, 29)), None), e(Freq::Never, None),
            e(Freq::Monthly(31), Some(s)),
        ]
    };
    let base = day(2024, 2, 27);
    let days: Vec<Day> = (0..5).map(|k| base + k).collect();
    // (day, amount) pairs
    let mv = [8.0, -3.0, -20.0, 0.03125, 1048576.0];
    let nd = days.len();
    h.explore("all pairs of movements around due dates x days x order in the file", kinds.len() * (nd * mv.len()).pow(2) * 2, |ctx, i| {
        let d = digits(i, &[kinds.len(), nd, mv.len(), nd, mv.len(), 2]);
        let sym = ["", "BTC"][d[5]];
        let mut x = kinds[d[0]].clone();
        x.name = "food".into();
        x.amount.sym = sym.into();
        let items = vec![
            Item::Account(A.into(), vec![x]),
            Item::Entry(entry(days[d[1]], "one", vec![envp(A, "food", amt(mv[d[2]], sym))])),
            Item::Entry(entry(days[d[3]], "two", vec![envp(A, "food", amt(mv[d[4]] / 2.0, sym))])),
        ];
        ctx.put(JF, &render(&items));
        for t in base - 1..base + 8 {
            let w = eval(&items, t).unwrap();
            let r = report(ctx, t, "e");
            chk_env(ctx, &w, &r, t, EnvOpts { due: false, split: true, available: true })?;
            ctx.t.traces += 1;
        }
        ctx.outcome("pairs of movements");
        Ok(())
    });
    super::wide::envs(h);
    h.finish(
        "windows of 45-50 days (thorough: 66, all year) around year end, leap and common February, month ends: a movement of its own size on every day, looked at on every day before, in and after the window, for every kind of frequency (all weekdays, all days of the month, all phases); all pairs of movements around due dates in both file orders; wide journals (up to 257 postings, 129 currencies, 33 envelopes, 100 linked accounts, 257 accounts; all pairs of look-alike names; magnitudes 1e-8 to 1e12). A state is a distinct (frequency, now, next)",
        &["withdrawals come out of `now` whatever their date", "amounts are dyadic"],
    )
}
