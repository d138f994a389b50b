//! C12 (funded at most once a day, never with --no-move) and C13 (what is written is what is read back).
use super::funds::*;
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::model::*;
use crate::outparse as op;
use std::collections::BTreeSet;

const T0: Day = 19737; // 2024-01-15, a Monday

// ------------------------------------------------------------------------------------------- C12
const HEAD: &str = "account assets:a
    expense food due every 20th
        amount 64
        for expenses:x
        funding aggressive
    expense car due every Thursday
        amount 21
        for expenses:x
        funding conservative
    goal trip by 2024/03/01
        amount 500
        funding aggressive
account assets:b
    expense rainy due every 17th
        amount 100
        for expenses:x
        funding conservative
    goal coin due every Friday
        amount 3 BTC
        funding aggressive
account expenses:x
account income:i
account liabilities:l
";
const FIRST: &str = "include inc.sfox
2024/01/02 * start
    assets:a    90
    income:i
2024/01/03 * start
    assets:b    50
    income:i
";
#[derive(Clone)]
struct S12 {
    head: String,
    body: String,
    tail: String,
    inc: String,
    today: Day,
    funded: BTreeSet<(String, String)>,
    last: Day,
}
const OPS: usize = 17;
fn op_name(o: usize) -> &'static str {
    ["balance", "envelopes", "register", "import", "report -n", "back-dated income", "future spending", "inserted spending", "back-dated envelope move", "spending in the included file",
     "today's income", "today's linked spending", "future envelope move", "money for b", "refund yesterday", "account order changed", "next day"][o]
}
fn ent(d: Day, ps: &[&str]) -> String {
    let mut s = format!("{} ~ edit\n", sl(d));
    ps.iter().for_each(|p| s += &format!("    {p}\n"));
    s
}
fn write12(ctx: &mut Ctx, s: &S12) {
    ctx.put("inc.sfox", &s.inc);
    ctx.put(JF, &format!("{}{}{}", s.head, s.body, s.tail));
}
fn step12(ctx: &mut Ctx, s: &mut S12, o: usize, depth: usize) -> Check {
    let t = s.today;
    match o {
        0..=3 => {
            let a: &[&str] = [&["b", "-f", JF][..], &["envelopes", "-f", JF], &["register", "--file", JF], &["import", "-f", JF, "--csv", "imp.csv"]][o];
            for again in 0..2 {
                if again == 1 && o == 3 {
                    break;
                }
                let (_, v, after) = fund(ctx, &req(t, a), JF)?;
                ctx.need(ctx.get("inc.sfox") == s.inc, || "an included file was changed".into())?;
                for e in &v {
                    for p in &e.posts {
                        if let Some(n) = &p.env {
                            ctx.need(e.date == sl(t), || format!("an automatic move is dated {}, today is {}", e.date, sl(t)))?;
                            let k = (p.acct.clone(), n.clone());
                            ctx.need(!s.funded.contains(&k), || format!("{} {} was already funded on {} and is funded again by `{}`", k.0, k.1, sl(t), op_name(o)))?;
                            s.funded.insert(k);
                        }
                    }
                }
                ctx.need(again == 0 || v.is_empty(), || format!("`{}` ran twice on {} with nothing changed, and the second run appended {v:?}", op_name(o), sl(t)))?;
                let base = s.head.len() + s.body.len();
                s.tail = after[base..].to_string();
            }
        }
        4 => {
            let before = ctx.srv.snapshot();
            let a: &[&str] = [&["b", "-n", "-f", JF][..], &["e", "-f", JF, "--no-move"], &["register", "--file", JF, "-n"]][depth % 3];
            let r = ctx.run(&req(t, a));
            need_ok(ctx, &r, "a report")?;
            ctx.need(ctx.srv.snapshot() == before, || format!("{a:?} changed a file"))?;
        }
        5 => s.tail += &ent(t - 3, &["assets:a    200", "income:i"]),
        6 => s.tail += &ent(t + 4, &["assets:a    -7", "expenses:x"]),
        7 => s.body = format!("{}{}", ent(t - 2, &["assets:a    -5", "expenses:x"]), s.body),
        8 => s.tail += &ent(t - 2, &["envelope assets:a food 3", "envelope assets:a car -2"]),
        9 => s.inc += &ent(t - 1, &["assets:a    -2", "assets:b    -2", "expenses:x"]),
        10 => s.tail += &ent(t, &["assets:a    40", "income:i"]),
        11 => s.tail += &ent(t, &["assets:b    -6", "expenses:x"]),
        12 => s.tail += &ent(t + 1, &["envelope assets:a trip 1", "envelope assets:b rainy 1", "envelope assets:a food 1"]),
        13 => s.tail += &ent(t - 1, &["assets:b    7 BTC", "liabilities:l    -7 BTC"]),
        14 => s.tail += &ent(t - 1, &["expenses:x    -9", "assets:a    9"]),
        15 => s.tail += &ent(t - 5, &["assets:a    -30", "liabilities:l"]),
        _ => {
            s.today += 1;
            s.funded.clear();
        }
    }
    if o >= 5 {
        write12(ctx, s);
    }
    Ok(())
}
fn dfs12(ctx: &mut Ctx, s: &S12, ops: &[usize], depth: usize, max: usize) -> Check {
    for &o in ops {
        let mut n = s.clone();
        ctx.trace.clear();
        write12(ctx, &n);
        step12(ctx, &mut n, o, depth)?;
        ctx.state(&(&n.body, &n.tail, &n.inc, n.today));
        ctx.outcome(&format!("{} envelopes funded today", n.funded.len()));
        if depth < max {
            dfs12(ctx, &n, ops, depth + 1, max)?;
        } else {
            ctx.t.traces += 1;
            // the last word: a run on whatever state this is
            if o > 3 {
                ctx.trace.clear();
                write12(ctx, &n);
                step12(ctx, &mut n, depth % 3, depth)?;
            }
        }
    }
    Ok(())
}
fn s12() -> S12 {
    S12 { head: HEAD.into(), body: FIRST.into(), tail: String::new(), inc: String::new(), today: T0, funded: BTreeSet::new(), last: T0 }
}
fn put12(ctx: &mut Ctx) {
    ctx.put("imp.csv", "date,description,amount\n2024/01/07,Coffee,-3\n2024/01/15,Tea,-2\n");
    ctx.put("imp.csv.rules", "fields date, description, amount\naccount1 liabilities:l\namount1 %amount%\naccount2 income:i\n");
}
pub fn c12(h: &Harness) -> i32 {
    let all: Vec<usize> = (0..OPS).collect();
    let go = |what: &str, ops: &[usize], max: usize| {
        h.explore(what, ops.len() * ops.len(), |ctx, i| {
            put12(ctx);
            let mut s = s12();
            write12(ctx, &s);
            for (k, o) in [ops[i / ops.len()], ops[i % ops.len()]].into_iter().enumerate() {
                step12(ctx, &mut s, o, k)?;
            }
            ctx.sample(|| format!("{} then {} ...", op_name(ops[i / ops.len()]), op_name(ops[i % ops.len()])));
            dfs12(ctx, &s, ops, 3, max)
        });
    };
    go("all sequences of runs, edits and days", &all, if h.thorough { 5 } else { 4 });
    go("longer sequences of the main operations", &[0, 1, 5, 7, 8, 12, 16], if h.thorough { 7 } else { 5 });
    // back-dated, future and today's entries of every envelope-moving kind at every place of the file, in every order
    let kinds: Vec<Vec<&str>> = vec![
        vec!["envelope assets:a food 3"],
        vec!["envelope assets:a food -3"],
        vec!["assets:a    -5", "expenses:x"],
        vec!["assets:a    5", "expenses:x    -5"],
        vec!["assets:a    500", "income:i"],
        vec!["envelope assets:a food -500"],
        vec!["assets:a    -500", "expenses:x"],
    ];
    let dates = [-400, -30, -1, 0, 1, 40];
    let b = [kinds.len(), dates.len(), 3, kinds.len(), dates.len(), 3];
    h.explore("funded, then two entries of any date at any place", product(&b), |ctx, i| {
        let d = digits(i, &b);
        put12(ctx);
        let mut s = s12();
        write12(ctx, &s);
        step12(ctx, &mut s, 0, 0)?;
        for k in 0..2 {
            let t = ent(T0 + dates[d[3 * k + 1]], &kinds[d[3 * k]]);
            match d[3 * k + 2] {
                0 => s.tail += &t,
                1 => s.body = format!("{t}{}", s.body),
                _ => s.inc += &t,
            }
        }
        write12(ctx, &s);
        step12(ctx, &mut s, 1, 0)?;
        ctx.state(&(&s.body, &s.tail, &s.inc, s.today));
        ctx.t.traces += 1;
        Ok(())
    });
    // every day: funded once, and not again
    let spans = [(day(2023, 12, 1), 460), (day(1999, 12, 25), 75), (day(2100, 2, 20), 15)];
    let ds: Vec<Day> = spans.iter().flat_map(|(a, n)| (0..*n).map(move |k| a + k)).collect();
    h.explore("every day x funding: three runs, an entry of another day before the last", ds.len() * 2, |ctx, i| {
        let (t, m) = (ds[i / 2], i % 2);
        let due = |n: i64, k: &str| format!("    {k} e{n} due every {n}th\n        amount 3000\n        for expenses:x\n        funding {}\n", ["aggressive", "conservative"][m]);
        let mut s = format!("account assets:a\n{}{}{}    goal g by {}\n        amount 1000\n        funding {}\naccount expenses:x\naccount income:i\n", due(1, "expense"), due(15, "goal"), due(31, "expense"), sl(t + 40), ["aggressive", "conservative"][1 - m]);
        s += &format!("{} * in\n    assets:a    20000\n    income:i\n", sl(t - 70));
        ctx.put(JF, &s);
        let mut seen: BTreeSet<(String, String)> = BTreeSet::new();
        for k in 0..4 {
            if k == 3 {
                let j = ctx.get(JF);
                ctx.put(JF, &format!("{j}{}{}", ent(t - 1, &["assets:a    -5", "expenses:x"]), ent(t + 1, &["assets:a    -5", "expenses:x"])));
            }
            let (_, v, _) = fund(ctx, &req(t, &[["b", "e", "r", "e"][k], "-f", JF]), JF)?;
            ctx.need(k != 0 || !v.is_empty(), || format!("nothing was funded on {}", sl(t)))?;
            for p in v.iter().flat_map(|e| &e.posts) {
                let key = (p.acct.clone(), p.env.clone().unwrap_or_default());
                ctx.need(seen.insert(key), || format!("on {}, run {k} funds an envelope again: {v:?}", sl(t)))?;
            }
        }
        ctx.t.traces += 1;
        ctx.state(&(t, m));
        ctx.outcome("every day");
        Ok(())
    });
    // times of day and zones
    let zones = [("UTC", 0i64), ("XYZ-5:30", 19800), ("XYZ8", -28800), ("XYZ-14", 50400), ("XYZ12", -43200)];
    let secs = [0i64, 1, 3600, 43200, 50400, 79200, 86399];
    let b = [zones.len(), secs.len(), secs.len()];
    h.explore("two runs at any two times of a day in any zone", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let (tz, off) = zones[d[0]];
        put12(ctx);
        let s = s12();
        write12(ctx, &s);
        let mut seen: BTreeSet<(String, String)> = BTreeSet::new();
        for k in [secs[d[1]].min(secs[d[2]]), secs[d[1]].max(secs[d[2]])] {
            let mut q = req(T0, &["b", "-f", JF]);
            q.env = vec![("TZ".into(), tz.into())];
            q.clock = T0 * 86400 + k - off;
            let (_, v, _) = fund(ctx, &q, JF)?;
            for p in v.iter().flat_map(|e| &e.posts) {
                let key = (p.acct.clone(), p.env.clone().unwrap_or_default());
                ctx.need(seen.insert(key), || format!("funded twice on the same day in zone {tz}: {v:?}"))?;
            }
            for e in &v {
                ctx.need(e.date == sl(T0), || format!("dated {} on {} in zone {tz}", e.date, sl(T0)))?;
            }
        }
        ctx.need(!seen.is_empty(), || "nothing was funded".into())?;
        ctx.t.traces += 1;
        Ok(())
    });
    // --no-move at every place of the arguments, on many days
    let subs = ["b", "balance", "e", "envelopes", "r", "register", "bal", "env"];
    let flags = ["-n", "--no-move"];
    let forms: Vec<Vec<&str>> = vec![vec!["N", "-f", JF], vec!["-f", JF, "N"], vec!["N", "--file", JF, "N"], vec!["--csv", "imp.csv", "N", "-f", JF], vec!["-f", JF, "N", "--rules", "x"], vec!["N", "-n", "N", "-f", JF]];
    let b = [subs.len(), flags.len(), forms.len(), 40];
    h.explore("--no-move anywhere among the arguments x days", product(&b), |ctx, i| {
        let d = digits(i, &b);
        put12(ctx);
        let mut s = s12();
        s.today = T0 - 8 + d[3] as i64;
        write12(ctx, &s);
        let before = ctx.srv.snapshot();
        let mut a = vec![subs[d[0]]];
        a.extend(forms[d[2]].iter().map(|x| if *x == "N" { flags[d[1]] } else { x }));
        let r = ctx.run(&req(s.today, &a));
        need_ok(ctx, &r, "a report")?;
        ctx.need(ctx.srv.snapshot() == before, || format!("{a:?} changed a file"))?;
        ctx.t.traces += 1;
        Ok(())
    });
    h.explore("commands that do nothing yet, with --no-move", 8 * 2 * 3 * 40, |ctx, i| {
        let d = digits(i, &[8, 2, 3, 40]);
        put12(ctx);
        let mut s = s12();
        s.today = T0 - 8 + d[3] as i64;
        write12(ctx, &s);
        let before = ctx.srv.snapshot();
        let mut a = vec![["s", "summary", "sum", "n", "new", "ne", "i", "import"][d[0]], "-f", JF];
        a.insert([1, 1, 3][d[2]], flags[d[1]]);
        if d[2] == 1 {
            a.push(flags[1 - d[1]]);
        }
        ctx.run(&req(s.today, &a));
        ctx.need(ctx.srv.snapshot() == before, || format!("{a:?} changed a file"))?;
        ctx.t.traces += 1;
        Ok(())
    });
    super::wide::explore(h, |ctx, items, _| {
        let t = super::wide::T;
        let before = ctx.srv.snapshot();
        let r = report(ctx, t, "b");
        need_ok(ctx, &r, "a report")?;
        ctx.need(ctx.srv.snapshot() == before, || "a report with -n changed a file".into())?;
        let (_, v, after) = fund(ctx, &req(t, &["b", "-f", JF]), JF)?;
        let mut seen = BTreeSet::new();
        for (a, n, _) in moves(ctx, &v)? {
            ctx.need(seen.insert((a.clone(), n.clone())), || format!("{a} {n} is funded twice in one run: {v:?}"))?;
        }
        // again, and again after an entry of another day
        let (_, v2, _) = fund(ctx, &req(t, &["e", "-f", JF]), JF)?;
        ctx.need(v2.is_empty(), || format!("a second run on the same day appended {v2:?}"))?;
        let Some(Item::Account(an, _)) = items.iter().find(|x| matches!(x, Item::Account(_, e) if !e.is_empty())) else { return Ok(()) };
        ctx.put(JF, &format!("{after}{} * more\n    {an}    100000\n    {an}    -100000\n", sl(t - 1)));
        let (_, v3, _) = fund(ctx, &req(t, &["r", "-f", JF]), JF)?;
        for (a, n, _) in moves(ctx, &v3)? {
            ctx.need(!seen.contains(&(a.clone(), n.clone())), || format!("{a} {n} is funded a second time on the same day: {v3:?}"))?;
        }
        Ok(())
    });
    h.explore("import --no-move only imports", 6, |ctx, i| {
        put12(ctx);
        let s = s12();
        write12(ctx, &s);
        let mut a = vec!["import", "-f", JF, "--csv", "imp.csv"];
        a.insert([1, 3, 5][i % 3], flags[i / 3]);
        let before = ctx.get(JF);
        let r = ctx.run(&req(T0, &a));
        need_ok(ctx, &r, "an import")?;
        let after = ctx.get(JF);
        ctx.need(after.starts_with(&before) && op::entries(&after[before.len()..]).is_some_and(|v| v.len() == 2 && v.iter().all(|e| e.posts.iter().all(|p| p.env.is_none()))), || {
            format!("import with --no-move appended {:?}", &after[before.len().min(after.len())..])
        })?;
        Ok(())
    });
    h.finish(
        "all sequences of 4 (thorough: 5) of 17 operations (four commands, a report with -n, eleven edits: back-dated, future and today's entries, inserted before, in the included file; next day), longer sequences (5; thorough: 7) of seven; all pairs of entries of any date and place after funding; all pairs of times of a day in five zones; --no-move at every place of the arguments on 40 days and with every subcommand; wide journals (up to 257 postings, 129 currencies, 33 envelopes, 100 linked accounts, 257 accounts; all pairs of look-alike names; magnitudes 1e-8 to 1e12). No envelope is funded twice on a day, a repeated run appends nothing, nothing is written with --no-move. A state is a distinct set of files and day",
        &["an envelope that could not be funded on a day because there was no money may be funded later that day"],
    )
}

// ------------------------------------------------------------------------------------------- C13
const DFS: [&str; 8] = ["%Y/%m/%d", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%d-%b-%Y", "%Y%m%d", "%d.%m.%y", "%Y.%j"];
const ENDS: [&str; 12] = ["", "\n", "\n\n\n", "  ", "\n   ", " // a comment", "\n// a comment", "\r\n", "\t", "\n; c", "\n\t// c\n", "\n  \n  "];
const SYMS: [&str; 9] = ["", "$", "€", "BTC", "EUR", "kr", "US$", "₿", "Pts_x"];

struct W13<'a> {
    df: &'a str,
    today: Day,
    sub: &'a str,
}
/// One writing run on the journal that is there: prefix, form of the entry, reports now and later.
fn writing(ctx: &mut Ctx, w: &W13, must_write: bool) -> Check {
    let before = ctx.get(JF);
    let e0 = report(ctx, w.today, "e");
    let old = env_out(ctx, &e0)?;
    let (r, v, after) = fund(ctx, &req(w.today, &[w.sub, "-f", JF]), JF)?;
    let again = report(ctx, w.today, w.sub);
    need_ok(ctx, &again, "the journal after a run that appended to it")?;
    ctx.need(r.out == again.out, || format!("the writing run reported {:?}, a later run reports {:?}", r.out, again.out))?;
    ctx.need(!must_write || !v.is_empty(), || "nothing was funded although money is there".into())?;
    ctx.need(v.len() <= 1, || format!("{} entries were appended", v.len()))?;
    let e1 = report(ctx, w.today, "e");
    let new = env_out(ctx, &e1)?;
    let mut mv = moves(ctx, &v)?;
    for e in &v {
        ctx.need(e.date == fmt(w.today, w.df), || format!("the entry is dated {:?}, today is {:?}", e.date, fmt(w.today, w.df)))?;
        ctx.need(e.status == "~", || format!("the entry has status {:?}", e.status))?;
        ctx.need(!e.posts.is_empty(), || "the entry has no postings".into())?;
    }
    for (a, b) in old.iter().zip(&new) {
        for (x, y) in a.envs.iter().zip(&b.envs) {
            let got = y.now.mag + y.next.mag - x.now.mag - x.next.mag;
            let mine: Vec<usize> = (0..mv.len()).filter(|k| mv[*k].0 == a.name && mv[*k].1 == x.name).collect();
            let sum: f64 = mine.iter().map(|k| mv[*k].2.mag).sum();
            let tol = 2e-8 + 1e-11 * (y.now.mag.abs() + y.next.mag.abs() + x.now.mag.abs());
            let count = mine.len() <= 1 && (got.abs() <= tol || mine.len() == 1) && (mine.is_empty() || sum > 0.0);
            ctx.need((got - sum).abs() <= tol && count && mine.iter().all(|k| mv[*k].2.sym == x.target.sym), || {
                format!("envelope {} of {} changed by {got}, the entry says {:?}", x.name, a.name, mine.iter().map(|k| &mv[*k].2).collect::<Vec<_>>())
            })?;
            for k in mine.into_iter().rev() {
                mv.remove(k);
            }
        }
    }
    ctx.need(mv.is_empty(), || format!("the entry has postings to envelopes that do not exist: {mv:?}"))?;
    ctx.t.traces += 1;
    ctx.state(&after);
    ctx.outcome(&format!("{} bytes appended", after.len() - before.len()));
    Ok(())
}
fn j13(df: &str, sym: &str, mags: [f64; 3], names: (&str, &str), today: Day) -> String {
    let mut s = String::new();
    if df != "%Y/%m/%d" {
        s += &format!("date_format {df}\n");
    }
    let (an, en) = names;
    let a = |m: f64| amt(m, sym).text();
    s += &format!(
        "account {an}\n    expense {en} due every 20th\n        amount {}\n        funding conservative\n    goal big by {}\n        amount {}\n        funding aggressive\n    expense idle no date\n        amount 5\naccount income:i\n{} * start\n    {an}    {}\n    income:i",
        a(mags[0]),
        fmt(today + 50, df),
        a(mags[1]),
        fmt(today - 3, df),
        a(mags[2]),
    );
    s
}
pub fn c13(h: &Harness) -> i32 {
    let mags = [[100.0, 7.0, 500.0], [0.07, 1e6, 3.3], [10.0 / 4.0, 0.00000003, 0.00000009], [123456789.25, 98765432.125, 1e9], [1.0, 1.0, 1.0]];
    let names = [("assets:a", "food"), ("assets", "food-and_drink"), ("активы:счёт", "еда"), ("a:b:c:d:e:f:g:h:i:j:k:l:m:n:o:p:q:r:s:t:u:v:w", "a_very_long_envelope_name_that_goes_past_the_column_of_amounts"), ("assets:1", "2024"), ("assets:a", "-x-"), ("-assets:-a-", "x-"), ("assets:a", "--"), ("assets:a", "'x'"), ("assets:a.b", "x.y."), ("assets:(a)", "(x)"), ("assets:a", "_x"), ("assets:$", "$5"), ("assets:a", "5%"), ("assets:a", "*"), ("assets:a", "\"q\"")];
    let b = [DFS.len(), ENDS.len(), SYMS.len(), 3];
    h.explore("date formats x file endings x currencies x subcommands", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let s = j13(DFS[d[0]], SYMS[d[2]], mags[0], names[0], T0);
        // an ending that continues the last posting is not one
        ctx.put(JF, &format!("{s}{}", ENDS[d[1]]));
        ctx.sample(|| format!("{s}{}", ENDS[d[1]]));
        let w = W13 { df: DFS[d[0]], today: T0, sub: ["b", "e", "r"][d[3]] };
        writing(ctx, &w, true)
    });
    let b = [mags.len(), names.len(), SYMS.len(), 3, 2];
    h.explore("amounts x names x currencies", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let s = j13(DFS[d[4] * 2], SYMS[d[2]], mags[d[0]], names[d[1]], T0);
        ctx.put(JF, &s);
        writing(ctx, &W13 { df: DFS[d[4] * 2], today: T0, sub: ["b", "e", "r"][d[3]] }, false)
    });
    // envelopes of the same names in several accounts, of both kinds, with names that are accounts
    let accs = ["assets:a", "assets:b", "food", "liabilities:l", "Assets:a"];
    let envs = ["food", "Food", "assets:a", "foo", "foodx"];
    let b = [32, 5, 5, 3, 2];
    h.explore("which of five accounts have envelopes x names of two x kinds x funding", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mut s = String::from("account income:i\n");
        let mut want = vec![];
        for (k, a) in accs.iter().enumerate() {
            s += &format!("account {a}\n");
            if d[0] >> k & 1 == 1 {
                let mut es = vec![(d[1], d[3] > 0)];
                if d[1] != d[2] {
                    es.push((d[2], d[3] == 1));
                }
                for (n, g) in es {
                    s += &format!("    {} {} due every 20th\n        amount {}\n        funding {}\n", ["expense", "goal"][g as usize], envs[n], 10 + 3 * k + n, ["aggressive", "conservative"][d[4]]);
                    want.push(format!("{a} {}", envs[n]));
                }
            }
        }
        for (k, a) in accs.iter().enumerate() {
            s += &format!("2024/01/02 * start\n    {a}    {}\n    income:i\n", 200 + k);
        }
        ctx.put(JF, &s);
        writing(ctx, &W13 { df: DFS[0], today: T0, sub: ["b", "e", "r"][i % 3] }, d[0] > 0)?;
        // there is money for every one of them
        let text = ctx.get(JF);
        let Some(es) = op::entries(&text[s.len()..]) else { return ctx.fail(format!("appended {:?}", &text[s.len()..])) };
        let mut got: Vec<String> = es.iter().flat_map(|e| &e.posts).map(|p| format!("{} {}", p.acct, p.env.clone().unwrap_or_default())).collect();
        got.sort();
        want.sort();
        ctx.need(got == want, || format!("the envelopes {want:?} had to be funded, the entry has {got:?}"))
    });
    let nd = if h.thorough { 400 } else { 60 };
    h.explore("every day x date formats", nd * DFS.len(), |ctx, i| {
        let (t, df) = (day(2023, 12, 20) + (i / DFS.len()) as i64, DFS[i % DFS.len()]);
        ctx.put(JF, &j13(df, "$", mags[0], names[0], t));
        writing(ctx, &W13 { df, today: t, sub: "e" }, true)
    });
    // histories: a run on each of several days, appending again and again
    let b = [DFS.len(), SYMS.len(), 1 << 5];
    h.explore("run on any subset of five days, appending each time", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let df = DFS[d[0]];
        ctx.put(JF, &j13(df, SYMS[d[1]], mags[1], names[0], T0));
        for k in 0..5 {
            if d[2] >> k & 1 == 1 {
                writing(ctx, &W13 { df, today: T0 + k, sub: ["b", "e", "r"][(k % 3) as usize] }, false)?;
            }
        }
        Ok(())
    });
    // the date format that is in force where the entry is appended
    let places = ["date_format DF\ninclude inc.sfox\n", "include inc.sfox\ndate_format DF\n", "include df.sfox\ninclude inc.sfox\n", "include inc.sfox\ninclude df.sfox\n"];
    let b = [places.len(), DFS.len(), DFS.len(), 2];
    h.explore("date formats set twice, in the journal and in included files", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let (f1, f2) = (DFS[d[1]], DFS[d[2]]);
        ctx.put("df.sfox", &format!("date_format {f2}\n"));
        // inc.sfox is read under the format in force there, and changes it
        let head = places[d[0]].replace("DF", f2);
        let in_force = if d[0] % 2 == 0 { f2 } else { f1 };
        let body = format!("{} * inc\n    assets:a    1\n    income:i\n", fmt(T0 - 1, in_force));
        let sets = d[3] == 1;
        ctx.put("inc.sfox", &if sets { format!("{body}date_format {f1}\n") } else { body });
        ctx.put(JF, &format!("{}\n{head}", j13(f1, "$", mags[0], names[0], T0)));
        let last = match d[0] % 2 {
            0 => if sets { f1 } else { f2 },
            _ => f2,
        };
        let inc = ctx.get("inc.sfox");
        writing(ctx, &W13 { df: last, today: T0, sub: "b" }, true)?;
        ctx.need(ctx.get("inc.sfox") == inc, || "an included file was changed".into())?;
        // and the next day on top of it
        writing(ctx, &W13 { df: last, today: T0 + 1, sub: "e" }, false)
    });
    // however many entries there are, and whatever the last line ends with
    let b = [40, ENDS.len(), 3, 2];
    h.explore("numbers of entries x file endings x last item x funding or import", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mut s = j13(DFS[0], "", mags[0], names[0], T0);
        for k in 0..d[0] {
            s += &format!("\n{} * more {k}\n    assets:a    {}\n    income:i", sl(T0 - 60 + k as i64), k + 1);
        }
        s += ["", "\naccount assets:last", "\n// the end"][d[2]];
        s += ENDS[d[1]];
        ctx.put(JF, &s);
        if d[3] == 0 {
            return writing(ctx, &W13 { df: DFS[0], today: T0, sub: ["b", "e", "r"][d[0] % 3] }, true);
        }
        ctx.put("x.csv", "date,description,amount\n2024/01/09,Coffee,-3\n");
        ctx.put("x.csv.rules", "fields date, description, amount\naccount1 assets:a\namount1 %amount%\naccount2 income:i\n");
        let r = ctx.run(&req(T0, &["import", "-n", "-f", JF, "--csv", "x.csv"]));
        need_ok(ctx, &r, "an import")?;
        let after = ctx.get(JF);
        let v = after.strip_prefix(&s).and_then(op::entries);
        ctx.need(v.as_ref().is_some_and(|v| v.len() == 1 && v[0].desc == "Coffee") && after[s.len()..].starts_with('\n'), || format!("after an import to a journal of {} entries ending in {:?} the journal is {after:?}", d[0] + 1, ENDS[d[1]]))?;
        let b = report(ctx, T0, "b");
        need_ok(ctx, &b, "the journal after an import")?;
        let bal = op::balance(&b.out).and_then(|v| v.into_iter().find(|x| x.0 == "assets:a")).map(|x| x.1).unwrap_or_default();
        let want = 500.0 - 3.0 + (d[0] * (d[0] + 1) / 2) as f64;
        ctx.need(op::same_pool(&bal, &Pool::from([(String::new(), want)])), || format!("after the import the balance is {bal:?}, expected {want}"))?;
        ctx.t.traces += 1;
        ctx.state(&after);
        Ok(())
    });
    super::wide::explore(h, |ctx, _, _| writing(ctx, &W13 { df: "%Y/%m/%d", today: super::wide::T, sub: "e" }, false));
    // imports
    let b = [DFS.len(), ENDS.len(), SYMS.len(), 2];
    h.explore("imports x date formats x file endings x currencies", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let (df, sym) = (DFS[d[0]], SYMS[d[2]]);
        let s = format!("{}{}", j13(df, sym, mags[0], names[0], T0), ENDS[d[1]]);
        ctx.put(JF, &s);
        let f2 = DFS[(d[0] + 3) % DFS.len()];
        let q = |x: f64| amt(x, sym).text();
        ctx.put("x.csv", &format!("date,description,amount\n{},Coffee and/or tea,{}\n{},Shop,{}\n", fmt(T0 - 9, f2), q(-3.125), fmt(T0 + 3, f2), q(0.5)));
        ctx.put("x.csv.rules", &format!("date_format {f2}\nfields date, description, amount\naccount1 assets:a\namount1 %amount%\naccount2 income:i\n"));
        let mut a = vec!["import", "-f", JF, "--csv", "x.csv"];
        if d[3] == 1 {
            a.push("-n");
        }
        let r = ctx.run(&req(T0, &a));
        need_ok(ctx, &r, "an import")?;
        let after = ctx.get(JF);
        ctx.need(after.starts_with(&s), || format!("import changed what the journal contained: {after:?}"))?;
        let v = op::entries(&after[s.len()..]);
        let good = v.as_ref().is_some_and(|v| {
            v.len() == 3 - d[3]
                && v[v.len() - 2..].iter().zip([(T0 - 9, "Coffee and/or tea", -3.125), (T0 + 3, "Shop", 0.5)]).all(|(e, (t, ds, m))| {
                    e.date == fmt(t, df) && e.desc == ds && e.posts.iter().any(|p| p.acct == "assets:a" && p.amt.as_ref().is_some_and(|x| x.sym == sym && op::close(x.mag, m)))
                })
        });
        ctx.need(good, || format!("import appended {:?}", &after[s.len()..]))?;
        let b = report(ctx, T0, "b");
        need_ok(ctx, &b, "the journal after an import")?;
        let bal = op::balance(&b.out).and_then(|v| v.into_iter().find(|x| x.0 == "assets:a")).map(|x| x.1).unwrap_or_default();
        ctx.need(op::same_pool(&bal, &Pool::from([(sym.to_string(), 500.0 - 3.125 + 0.5)])), || format!("after the import the balance is {bal:?}"))?;
        ctx.t.traces += 1;
        ctx.state(&after);
        ctx.outcome("import");
        Ok(())
    });
    // the local day is the date of the entry
    let zones = [("XYZ-5:30", 19800i64), ("XYZ8", -28800), ("XYZ-14", 50400), ("XYZ12", -43200)];
    h.explore("the entry's date in time zones", zones.len() * 4, |ctx, i| {
        let (tz, off) = zones[i % 4];
        ctx.put(JF, &j13("%Y-%m-%d", "$", mags[0], names[0], T0));
        let mut q = req(T0, &["b", "-f", JF]);
        q.env = vec![("TZ".into(), tz.into())];
        q.clock = T0 * 86400 + [0, 1, 43200, 86399][i / 4] - off;
        let (_, v, _) = fund(ctx, &q, JF)?;
        ctx.need(v.len() == 1 && v[0].date == iso(T0), || format!("in zone {tz} the entry is {v:?}, today is {}", iso(T0)))?;
        ctx.t.traces += 1;
        Ok(())
    });
    h.finish(
        "all combinations of 8 date formats, 12 file endings, 9 currencies and 3 subcommands; amounts and names; every day of a stretch; runs on all subsets of five days; date formats set twice in the journal and in included files; imports likewise; time zones; wide journals (up to 257 postings, 129 currencies, 33 envelopes, 100 linked accounts, 257 accounts; all pairs of look-alike names; magnitudes 1e-8 to 1e12). After every writing run: the earlier bytes are a prefix, what follows is one entry of today's date and cleared status with one posting per envelope that changed, the journal loads and a read-only run gives the same report. A state is a distinct journal",
        &["date formats without blanks", "symbols without digits, dots, commas or signs"],
    )
}
