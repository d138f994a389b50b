//! C16 (an import appends exactly the entries its rules say), C17 (an import never makes a journal unreadable).
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::model::*;
use crate::outparse as op;
use std::collections::BTreeMap;

const TODAY: Day = 19800;
const DEFS: [&str; 8] = ["assets:a", "assets:b", "expenses:x", "income:i", "expenses:unknown", "income:unknown", "unknown", "liabilities:l"];

// ------------------------------------------------------------------------------------------- rules as data
#[derive(Clone, Debug)]
pub enum R {
    /// a rule line: name and value (`-` resets)
    S(&'static str, &'static str),
    /// an `if` block: patterns (the first one on the `if` line when true) and rules
    If(bool, &'static [&'static str], Vec<R>),
    /// include of a file with these rules
    Inc(&'static str, &'static str, Vec<R>),
}
use R::*;
/// text, and the included files
fn render_rules(rs: &[R], indent: &str, files: &mut Vec<(String, String)>) -> String {
    let mut o = String::new();
    for r in rs {
        match r {
            S(k, v) => o += &format!("{indent}{k} {v}\n"),
            If(inline, pats, rs) => {
                o += if *inline { "if " } else { "if\n" };
                for p in *pats {
                    o += &format!("{p}\n");
                }
                o += &render_rules(rs, "    ", files);
            }
            Inc(word, f, rs) => {
                let t = render_rules(rs, "", files);
                files.push((f.to_string(), t));
                o += &format!("{indent}{word} {f}\n");
            }
        }
    }
    o
}
#[derive(Clone, Debug, Default)]
struct M {
    accounts: BTreeMap<String, String>,
    amounts: BTreeMap<String, String>,
    vals: BTreeMap<&'static str, String>,
    fields: Vec<String>,
    blocks: Vec<(Vec<String>, M)>,
}
fn default_of(k: &str) -> &'static str {
    match k {
        "comment" | "payee" => "",
        "date_format" => "%Y/%m/%d",
        "date" => "%date%",
        "decimal_symbol" => ".",
        "description" => "%description%",
        "skip" => "1",
        "status" => "~",
        _ => unreachable!(),
    }
}
impl M {
    fn get(&self, k: &'static str) -> String {
        self.vals.get(k).cloned().unwrap_or(default_of(k).into())
    }
    fn add(&mut self, rs: &[R]) {
        for r in rs {
            match r {
                S("fields", v) => self.fields.extend(v.split(',').map(|s| s.trim().to_string())),
                S(k, v) => {
                    let key = match *k {
                        "note" => "comment",
                        "decimal" => "decimal_symbol",
                        k => k,
                    };
                    if let Some(i) = key.strip_prefix("amount") {
                        if *v == "-" { self.amounts.remove(i); } else { self.amounts.insert(i.into(), v.to_string()); }
                    } else if let Some(i) = key.strip_prefix("account") {
                        if *v == "-" { self.accounts.remove(i); } else { self.accounts.insert(i.into(), v.to_string()); }
                    } else if *v == "-" {
                        self.vals.remove(key);
                    } else {
                        self.vals.insert(key, v.to_string());
                    }
                }
                If(_, pats, rs) => {
                    let mut b = self.clone();
                    b.blocks.clear();
                    b.add(rs);
                    self.blocks.push((pats.iter().map(|s| s.to_string()).collect(), b));
                }
                Inc(_, _, rs) => self.add(rs),
            }
        }
    }
}
/// What the rules make of a record.
#[derive(Clone, Debug)]
enum Out {
    Entry(op::JEntry),
    Refuse,
    /// not said by the property: nothing is compared from here on
    Open,
}
fn inject(t: &str, vars: &BTreeMap<String, String>) -> Option<String> {
    let mut o = String::new();
    let mut rest = t;
    while let Some(i) = rest.find('%') {
        o += &rest[..i];
        rest = &rest[i + 1..];
        if let Some(r) = rest.strip_prefix('%') {
            o.push('%');
            rest = r;
            continue;
        }
        let j = rest.find('%')?;
        o += vars.get(&rest[..j])?;
        rest = &rest[j + 1..];
    }
    o += rest;
    Some(o)
}
fn date_in(s: &str, f: &str) -> Option<Day> {
    // digits of fixed width only, as the records have them
    let (pos, sep): ([usize; 3], char) = match f {
        "%Y/%m/%d" => ([0, 1, 2], '/'),
        "%d.%m.%Y" => ([2, 1, 0], '.'),
        "%m-%d-%Y" => ([2, 0, 1], '-'),
        _ => return None,
    };
    let p: Vec<i64> = s.split(sep).map(|x| x.parse().ok()).collect::<Option<_>>()?;
    if p.len() != 3 {
        return None;
    }
    let (y, m, d) = (p[pos[0]], p[pos[1]], p[pos[2]]);
    if !(1..=12).contains(&m) || !(1..=31).contains(&d) {
        return None;
    }
    let day = day(y, m, d);
    if ymd(day) == (y, m, d) { Some(day) } else { None }
}
/// `<number>`, `<number> SYM`, `SYM<number>`; other signs between digits are separators
fn amount_in(s: &str, dec: char) -> Option<Amt> {
    let s = s.trim();
    let sym: String = s.chars().filter(|c| c.is_alphabetic() || *c == '$').collect();
    let n: String = s.chars().filter(|c| c.is_ascii_digit() || *c == dec || *c == '-').collect();
    let neg = n.matches('-').count() % 2 == 1;
    let n = n.replace('-', "").replace(dec, ".");
    if !n.contains(|c: char| c.is_ascii_digit()) {
        return None;
    }
    let m: f64 = n.parse().ok()?;
    Some(Amt { mag: if neg { -m } else { m }, sym })
}
fn of_record(m: &M, rec: &[&str], defined: &[&str]) -> Out {
    for (pats, b) in &m.blocks {
        if pats.iter().any(|p| rec.iter().any(|f| f.to_lowercase().contains(&p.to_lowercase()))) {
            return of_record(b, rec, defined);
        }
    }
    let vars: BTreeMap<String, String> = m.fields.iter().cloned().zip(rec.iter().map(|s| s.to_string())).collect();
    let Some(d) = inject(&m.get("date"), &vars) else { return Out::Open };
    let Some(date) = date_in(&d, &m.get("date_format")) else { return Out::Refuse };
    let Some(status) = inject(&m.get("status"), &vars) else { return Out::Open };
    if !["?", "~", "*"].contains(&status.as_str()) {
        return Out::Refuse;
    }
    let text = |k: &'static str| -> Option<Option<String>> {
        let t = m.get(k);
        if t.trim().is_empty() { return Some(None) }
        inject(&t, &vars).map(|s| Some(s.trim().to_string()))
    };
    let (Some(desc), Some(payee), Some(comment)) = (text("description"), text("payee"), text("comment")) else { return Out::Open };
    let dec = m.get("decimal_symbol").chars().next().unwrap();
    let mut accounts = m.accounts.clone();
    let mut amounts = m.amounts.clone();
    if accounts.is_empty() {
        accounts.insert("".into(), "%account%".into());
    }
    if amounts.is_empty() {
        amounts.insert("".into(), "%amount%".into());
    }
    let mut posts: Vec<op::JPost> = vec![];
    let mut costs: Vec<Option<Amt>> = vec![];
    for (i, a) in &accounts {
        let Some(acct) = inject(a, &vars) else { return Out::Open };
        if acct.trim().is_empty() || acct.contains(char::is_whitespace) {
            return Out::Open;
        }
        if !defined.contains(&acct.as_str()) {
            return Out::Refuse;
        }
        let (mut amt, mut rest, mut cost) = (None, String::new(), None);
        if let Some(t) = amounts.get(i) {
            let Some(t) = inject(t, &vars) else { return Out::Open };
            let (t, c) = match t.split_once('@') {
                Some((t, c)) => (t.to_string(), Some(c.to_string())),
                None => (t, None),
            };
            if !t.trim().is_empty() {
                match amount_in(&t, dec) {
                    Some(a) => amt = Some(a),
                    None => return Out::Refuse,
                }
            } else if c.is_some() {
                return Out::Open;
            }
            if let Some(c) = c {
                let Some(c) = amount_in(&c, dec) else { return Out::Refuse };
                rest = "@".into();
                cost = Some(c);
            }
        }
        posts.push(op::JPost { acct, env: None, amt, rest });
        costs.push(cost);
    }
    if posts.len() == 1 {
        let Some(a) = &posts[0].amt else { return Out::Refuse };
        let to = if a.mag < 0.0 { "expenses:unknown" } else if a.mag > 0.0 { "income:unknown" } else { "unknown" };
        if !defined.contains(&to) {
            return Out::Refuse;
        }
        posts.push(op::JPost { acct: to.into(), env: None, amt: None, rest: String::new() });
        costs.push(None);
    }
    // must balance
    let blanks = posts.iter().filter(|p| p.amt.is_none()).count();
    let mut syms: Vec<&str> = posts.iter().filter_map(|p| p.amt.as_ref().map(|a| a.sym.as_str())).collect();
    syms.sort();
    syms.dedup();
    if blanks > 1 || syms.is_empty() {
        return Out::Refuse;
    }
    if syms.len() == 1 {
        let s: f64 = posts.iter().filter_map(|p| p.amt.as_ref().map(|a| a.mag)).sum();
        if blanks == 0 && s.abs() > 1e-9 {
            return Out::Refuse;
        }
    } else {
        return Out::Open;
    }
    // the numbers of the costs
    for (p, c) in posts.iter_mut().zip(&costs) {
        if let Some(c) = c {
            p.rest = format!("@ {}", c.mag);
        }
    }
    Out::Entry(op::JEntry { date: sl(date), status, desc: desc.unwrap_or_default(), payee, comment, posts })
}
fn csv_text(recs: &[Vec<&str>]) -> String {
    let f = |s: &str| {
        if s.contains([',', '"', '\n', '\r']) || s.is_empty() { format!("\"{}\"", s.replace('"', "\"\"")) } else { s.to_string() }
    };
    recs.iter().map(|r| r.iter().map(|s| f(s)).collect::<Vec<_>>().join(",") + "\n").collect()
}
fn journal(defined: &[&str]) -> String {
    let mut j: String = defined.iter().map(|a| format!("account {a}\n")).collect();
    j += "2024/01/01 * first\n    assets:a    5\n    income:i\n";
    j
}
fn same(g: &op::JEntry, w: &op::JEntry) -> bool {
    let cost = |r: &str| r.strip_prefix('@').and_then(|x| x.trim().parse::<f64>().ok());
    let post = |a: &op::JPost, b: &op::JPost| {
        a.acct == b.acct
            && a.env.is_none()
            && match (&a.amt, &b.amt) {
                (None, None) => true,
                (Some(x), Some(y)) => x.sym == y.sym && op::close(x.mag, y.mag),
                _ => false,
            }
            && (a.rest == b.rest || matches!((cost(&a.rest), cost(&b.rest)), (Some(x), Some(y)) if op::close(x, y)))
    };
    let ord = |e: &op::JEntry| {
        let mut p = e.posts.clone();
        p.sort_by(|a, b| (&a.acct, format!("{:?}", a.amt)).cmp(&(&b.acct, format!("{:?}", b.amt))));
        p
    };
    let none_if_empty = |s: &Option<String>| s.clone().filter(|s| !s.is_empty());
    let (p, q) = (ord(g), ord(w));
    g.date == w.date
        && g.status == w.status
        && g.desc == w.desc
        && none_if_empty(&g.payee) == none_if_empty(&w.payee)
        && none_if_empty(&g.comment) == none_if_empty(&w.comment)
        && p.len() == q.len()
        && p.iter().zip(&q).all(|(a, b)| post(a, b))
}
/// One import, compared with the model.
fn import(ctx: &mut Ctx, rules: &[R], recs: &[Vec<&str>]) -> Check {
    import_in(ctx, rules, recs, &DEFS, &csv_text(recs))
}
fn import_in(ctx: &mut Ctx, rules: &[R], recs: &[Vec<&str>], defs: &[&str], csv: &str) -> Check {
    let mut files = vec![];
    let text = render_rules(rules, "", &mut files);
    let j = journal(defs);
    ctx.put(JF, &j);
    ctx.put("x.csv", csv);
    ctx.put("x.csv.rules", &text);
    for (f, t) in &files {
        ctx.put(f, t);
    }
    let mut m = M::default();
    m.add(rules);
    let skip: usize = m.get("skip").parse().unwrap();
    let mut want = vec![];
    let mut end = Out::Entry(op::JEntry { date: String::new(), status: String::new(), desc: String::new(), payee: None, comment: None, posts: vec![] });
    for r in recs.iter().skip(skip) {
        match of_record(&m, r, defs) {
            Out::Entry(e) => want.push(e),
            o => {
                end = o;
                break;
            }
        }
    }
    let r = ctx.run(&req(TODAY, &["import", "-n", "-f", JF, "--csv", "x.csv"]));
    let after = ctx.get(JF);
    let what = || format!("rules:\n{text}\ncsv:\n{csv}");
    ctx.need(!r.crashed() && after.starts_with(&j), || format!("import damaged the journal or crashed: {}\njournal: {after}\n{}", show(&r), what()))?;
    let Some(got) = op::entries(&after[j.len()..]) else { return ctx.fail(format!("what was appended is not readable: {:?}\n{}", &after[j.len()..], what())) };
    let open = matches!(end, Out::Open);
    ctx.need(if open { got.len() >= want.len() } else { got.len() == want.len() }, || {
        format!("{} entries were appended, the rules make {}: {:?}\n{}\n{}", got.len(), want.len(), &after[j.len()..], show(&r), what())
    })?;
    for (g, w) in got.iter().zip(&want) {
        ctx.need(same(g, w), || format!("appended {g:?}\nthe rules say {w:?}\n{}", what()))?;
    }
    match end {
        Out::Open => ctx.outcome("partly open"),
        Out::Refuse => {
            ctx.need(!r.err.trim().is_empty(), || format!("a record was not imported and nothing was reported\n{}", what()))?;
            ctx.outcome(&format!("{} entries, then refused", want.len()));
        }
        Out::Entry(_) => {
            need_ok(ctx, &r, &what())?;
            ctx.outcome(&format!("{} entries", want.len()));
        }
    }
    ctx.t.traces += 1;
    ctx.state(&format!("{want:?}"));
    ctx.sample(|| format!("{text} => {:?}", &after[j.len()..]));
    Ok(())
}

const FIELDS: R = S("fields", "date, description, amount, note, st, date2, account, cur");
const HEADER: [&str; 8] = ["2024/03/03", "header", "9", "h", "*", "03.03.2024", "assets:a", "USD"];
const RECS: [[&str; 8]; 7] = [
    ["2024/01/05", "Corner Shop", "-12.5", "weekly", "?", "05.01.2024", "assets:a", "USD"],
    ["2024/02/29", "Größe BANK fee", "3", "a, b", "~", "01.03.2024", "assets:b", "BTC"],
    ["2023/12/31", "the \"fox\"", "0", "", "*", "31.12.2023", "assets:a", "EUR"],
    ["2024/01/01", "shop & bank", "1,234.5", "100% sure", "?", "02.01.2024", "assets:b", "USD"],
    ["2024/01/01", "GRÖSSE", "-0,75", "%amount%", "*", "11.11.2024", "liabilities:l", "USD"],
    ["2024/06/30", "last", "-7", "shop", "x", "30.06.2024", "assets:a", "USD"],
    ["2024/07/01", "after last", "7", "-", "~", "01.07.2024", "assets:a", "USD"],
];
fn vocabulary() -> Vec<R> {
    vec![
        S("account", "assets:b"),
        S("account", "%account%"),
        S("account", "-"),
        S("amount", "-%amount%"),
        S("amount", "%amount% EUR"),
        S("amount", "%amount% %cur% @ 2.5"),
        S("amount", "-"),
        S("account2", "expenses:x"),
        S("amount2", "-%amount%"),
        S("account2", "-"),
        S("amount2", "%amount%"),
        S("amount2", "-"),
        S("comment", "c %note%"),
        S("note", "only %amount% 50%% of %description%"),
        S("comment", "-"),
        S("payee", "%description%"),
        S("payee", "Fox & sons"),
        S("payee", "-"),
        S("description", "D: %description% / %note%"),
        S("description", "-"),
        S("status", "?"),
        S("status", "%st%"),
        S("status", "-"),
        S("date", "%date2%"),
        S("date_format", "%d.%m.%Y"),
        S("date", "-"),
        S("date_format", "-"),
        S("decimal_symbol", ","),
        S("decimal", "-"),
        S("skip", "0"),
        S("skip", "3"),
        S("skip", "-"),
        If(true, &["shop"], vec![S("comment", "in a shop")]),
        If(true, &["BANK"], vec![S("account", "assets:b"), S("payee", "-")]),
        If(false, &["nothing has this", "größe"], vec![S("status", "*"), S("amount", "%amount% USD")]),
        If(true, &["the \"FOX\"", "-12.5"], vec![S("date_format", "-"), S("date", "-"), S("description", "fox")]),
        If(true, &["last"], vec![Inc("use", "block.rules", vec![S("status", "~"), S("note", "-")])]),
        Inc("include", "more.rules", vec![S("comment", "from more"), If(true, &["fox"], vec![S("payee", "F.")])]),
        If(true, &["weekly"], vec![S("account2", "expenses:x"), S("amount2", "-%amount%"), S("decimal", ",")]),
    ]
}
fn st(s: impl Into<String>) -> &'static str {
    Box::leak(s.into().into_boxed_str())
}
/// many fields, patterns, blocks, postings and records; long names and values
fn import_sizes(h: &Harness) {
    type Case = (Vec<R>, Vec<Vec<&'static str>>, Vec<&'static str>);
    let mut cs: Vec<(String, Case)> = vec![];
    let far: &[usize] = if h.thorough { &[24, 25, 31, 32, 33, 40, 48, 50, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300] } else { &[24, 32, 33, 50, 64, 65, 100, 129] };
    let sizes: Vec<usize> = (1..=20).chain(far.iter().copied()).collect();
    let base = || vec![S("fields", "date, description, amount, note"), S("account", "assets:a"), S("amount", "%amount%")];
    let rec = |d: &'static str, a: &'static str, n: &'static str| vec!["2024/01/05", d, a, n];
    let head = rec("header", "1", "h");
    for &k in &sizes {
        // k more columns, one of them used
        let names: Vec<String> = (0..k).map(|j| format!("f{j}")).collect();
        for at in [0, k / 2, k - 1] {
            for place in 0..2 {
                let all = if place == 0 { format!("date, description, amount, {}", names.join(", ")) } else { format!("{}, date, description, amount", names.join(",")) };
                let own = ["2024/01/05", "shop", "-3"];
                let vals: Vec<&'static str> = (0..k).map(|j| st(format!("v{j}"))).collect();
                let r: Vec<&'static str> = if place == 0 { own.iter().copied().chain(vals).collect() } else { vals.into_iter().chain(own).collect() };
                let pat: &'static [&'static str] = Box::leak(vec![st(format!("v{at}"))].into_boxed_slice());
                cs.push((format!("{k} fields"), (vec![S("fields", st(all.clone())), S("account", "assets:a"), S("comment", st(format!("%f{at}% of %f0%")))], vec![r.clone(), r.clone(), r.clone()], vec![])));
                cs.push((format!("{k} fields and a pattern"), (vec![S("fields", st(all)), S("account", "assets:a"), If(true, pat, vec![S("payee", "matched")])], vec![r.clone(), r], vec![])));
            }
        }
        // k patterns of a block, one of which matches; k blocks; the word comes last
        for at in [0, k / 2, k - 1, k] {
            let r = vec![head.clone(), rec(st(format!("a word{at}x b")), "-3", "n"), rec("none", "4", "-"), rec("y", "4", st(format!("word{at}x")))];
            let pats: &'static [&'static str] = Box::leak((0..k).map(|j| st(format!("word{j}x"))).collect::<Vec<_>>().into_boxed_slice());
            for inline in [true, false] {
                let mut v = base();
                v.push(If(inline, pats, vec![S("payee", "matched"), S("status", "*")]));
                v.push(If(true, &["none"], vec![S("payee", "none")]));
                cs.push((format!("{k} patterns"), (v, r.clone(), vec![])));
            }
            let mut v = base();
            for j in 0..k {
                let p: &'static [&'static str] = Box::leak(vec![pats[j]].into_boxed_slice());
                v.push(If(j % 2 == 0, p, vec![S("payee", st(format!("block {j}"))), S(["status", "comment"][j % 2], ["*", "c"][j % 2])]));
            }
            cs.push((format!("{k} blocks"), (v, r, vec![])));
        }
        // k rules in a block: the last one counts
        let mut v = base();
        v.push(If(true, &["shop"], (0..k).map(|j| S(["payee", "comment", "description"][j % 3], st(format!("r{j}")))).collect()));
        cs.push((format!("{k} rules in a block"), (v, vec![head.clone(), rec("shop", "1", "n"), rec("none", "1", "n")], vec![])));
        let mut v = base();
        v.extend((0..k).map(|j| S(["payee", "comment", "status", "description"][j % 4], if j % 4 == 2 { ["*", "?"][j % 2] } else { st(format!("r{j} %note%")) })));
        cs.push((format!("{k} rules"), (v, vec![head.clone(), rec("shop", "1", "n")], vec![])));
        // k postings
        if k <= 65 {
            let defs: Vec<&'static str> = (0..k).map(|j| st(format!("expenses:p{j}"))).collect();
            for blank in [false, true] {
                let mut v = vec![S("fields", "date, description, amount, note")];
                for j in 0..k {
                    v.push(S(st(format!("account{}", j + 1)), defs[j]));
                    v.push(S(st(format!("amount{}", j + 1)), if j % 2 == 0 { "%amount%" } else { "-%amount%" }));
                }
                v.push(S("account_last", "assets:a"));
                if !blank {
                    v.push(S("amount_last", if k % 2 == 0 { "0" } else { "-%amount%" }));
                }
                cs.push((format!("{k} postings"), (v, vec![head.clone(), rec("shop", "2.5", "n"), rec("x", "-1", "n")], defs.clone())));
            }
        }
        // k records
        let recs: Vec<Vec<&'static str>> = (0..k + 1).map(|j| rec(st(format!("record {j}")), st(format!("{}.{}", j as i64 - 3, j % 10)), "n")).collect();
        cs.push((format!("{k} records"), (base(), recs, vec![])));
    }
    for k in [511usize, 513, 1025, 1500] {
        let recs: Vec<Vec<&'static str>> = (0..k + 1).map(|j| rec(st(format!("record {j}")), st(format!("{}.{}", j as i64 - 3, j % 10)), "n")).collect();
        cs.push((format!("{k} records"), (base(), recs, vec![])));
    }
    // several long texts at once
    let tl = [3usize, 20, 40, 79, 81, 100, 129, 260];
    for i in 0..tl.len().pow(3) {
        let d = digits(i, &[tl.len(); 3]);
        let long = |a: &str, k: usize| -> &'static str { st(a.chars().cycle().take(k).collect::<String>()) };
        let mut v = base();
        for (j, (key, t)) in [("description", "some words "), ("payee", "abcdefgh"), ("comment", "éa b")].iter().enumerate() {
            v.push(S(key, st(format!("<{}>", long(t, tl[d[j]]).trim()))));
        }
        cs.push((format!("texts of {:?} characters", d.iter().map(|x| tl[*x]).collect::<Vec<_>>()), (v, vec![head.clone(), rec("shop", "1", "n")], vec![])));
    }
    for k in (1..=if h.thorough { 130 } else { 66 }).chain([80, 100, 128, 200, 256]) {
        let long = |a: &str| -> &'static str { st(a.chars().cycle().take(k).collect::<String>()) };
        let acct = st(format!("expenses:{}", long("abcdef")));
        let deep = st(format!("expenses{}", (0..k.min(60)).map(|j| format!(":s{j}")).collect::<String>()));
        for a in [acct, deep] {
            let mut v = base();
            v.push(S("account2", a));
            v.push(S("amount2", "-%amount%"));
            cs.push((format!("an account name of {} characters", a.len()), (v, vec![head.clone(), rec("shop", "1234567.25", "n")], vec![a])));
            cs.push((format!("an account name of {} characters, alone", a.len()), (vec![S("fields", "date, description, amount, note"), S("account", a), S("amount", "%amount% EUR @ 1.25")], vec![head.clone(), rec("shop", "1234567.25", "n")], vec![a])));
        }
        for key in ["description", "comment", "payee"] {
            for t in ["abcdefghi", "word ", "é", "ab c d"] {
                let mut v = base();
                v.push(S(key, st(format!("<{}>", long(t).trim()))));
                cs.push((format!("a {key} of {k} characters in the rules"), (v, vec![head.clone(), rec("shop", "1", "n")], vec![])));
                let mut v = base();
                v.push(S(key, "(%note%)"));
                cs.push((format!("a {key} of {k} characters in the csv"), (v, vec![head.clone(), rec("shop", "1", st(long(t).trim()))], vec![])));
            }
        }
        if k <= 15 {
            for a in [format!("{}", "123456789012345".split_at(k).0), format!("-0.{}", "123456781234567".split_at(k.min(8)).0), format!("{}.5", "987654321098765".split_at(k.min(14)).0)] {
                for sym in ["%amount%", "%amount% EUR", "$%amount%"] {
                    cs.push((format!("an amount of {k} digits"), (vec![S("fields", "date, description, amount, note"), S("account", "assets:a"), S("amount", sym)], vec![head.clone(), rec("shop", st(a.clone()), "n")], vec![])));
                }
            }
        }
        if k <= 40 {
            let sym = st(format!("%amount% {}", long("EURO")));
            cs.push((format!("a currency of {k} letters"), (vec![S("fields", "date, description, amount, note"), S("account", "assets:a"), S("amount", sym)], vec![head.clone(), rec("shop", "12.5", "n"), rec("shop", "-1", "n")], vec![])));
        }
    }
    h.explore("many fields, patterns, blocks, rules, postings and records; long names, texts and amounts", cs.len(), |ctx, i| {
        let (what, (rules, recs, more)) = &cs[i];
        let defs: Vec<&str> = DEFS.iter().copied().chain(more.iter().copied()).collect();
        import_in(ctx, rules, recs, &defs, &csv_text(recs)).map_err(|mut v| {
            v.msg = format!("{what}: {}", v.msg);
            v
        })
    });
}
/// rules files that include themselves, and files included again without a loop
pub fn rule_cycles(h: &Harness) {
    h.explore("rules files: loops of 1 to 5, entered after 0 to 3, inside and outside of blocks; files used twice", 5 * 4 * 3 * 2 * 2, |ctx, i| {
        let d = digits(i, &[5, 4, 3, 2, 2]);
        let (len, lead) = (d[0] + 1, d[1]);
        let word = ["include", "use"][d[3]];
        let twice = d[4] == 1;
        let n = len + lead;
        let name = |k: usize| if k == 0 { "x.csv.rules".to_string() } else { format!("r{k}.rules") };
        for k in 0..n {
            let next = if k + 1 < n { name(k + 1) } else { name(lead) };
            let inc = match d[2] {
                0 => format!("{word} {next}\n"),
                1 => format!("if shop\n    {word} {next}\n"),
                _ => format!("comment c{k}\n{word} {next}\nstatus *\n"),
            };
            let body = if twice { if k + 1 < n { format!("{word} {next}\ncomment c{k}\n{word} {next}\n") } else { "status *\n".into() } } else { inc };
            ctx.put(&name(k), &format!("{}{body}", if k == 0 { "fields date, description, amount\naccount assets:a\n" } else { "" }));
        }
        let j = journal(&DEFS);
        ctx.put(JF, &j);
        ctx.put("x.csv", "h,h,h\n2024/01/05,shop,-3\n");
        let r = ctx.run(&req(TODAY, &["import", "-n", "-f", JF, "--csv", "x.csv"]));
        ctx.need(!r.crashed(), || format!("import crashed: {}", show(&r)))?;
        let after = ctx.get(JF);
        if twice {
            need_ok(ctx, &r, "rules that use a file twice")?;
            let Some(v) = after.strip_prefix(&j).and_then(op::entries) else { return ctx.fail(format!("the journal became {after:?}")) };
            let want = if n > 1 { Some("c0".to_string()) } else { None };
            ctx.need(v.len() == 1 && v[0].status == "*" && (v[0].comment == want || n > 2), || format!("rules that use a file twice make {v:?}"))?;
            ctx.outcome("used twice");
        } else {
            need_refused(ctx, &r, "rules that include themselves")?;
            ctx.need(after == j, || "the journal was changed although the rules are refused".into())?;
            ctx.outcome("loop of rules refused");
        }
        ctx.t.traces += 1;
        ctx.state(&(12, &d));
        Ok(())
    });
}
/// what may stand in a csv file and in a rules file, and has to come through
fn import_texts(h: &Harness) {
    let vals: [&'static str; 34] = [
        "#5 shop", "#", "# x", "x #1", " lead", "trail ", "  both  ", "in  the   middle", "tab\there", "back\\slash", "a\\\"b", "\\\"", "end\\", "'q'", "'", "\"", "\"\"", "a\"", "\"all\"", "a|b", "=1+1", "@x", "x@y", "!x", "a = b", "[x", "x)", "\u{a0}x", "1", "-", "--", ",", "ÀÉ", "x,y,",
    ];
    let templates: [&'static str; 10] = ["%note%", "a%note%b", "a %note% b", "%note%x", "x%note%", "two  spaces %note%", "tab\tin %note%", "x", "%note% %note%", "é %note%"];
    let keys: [&'static str; 3] = ["description", "comment", "payee"];
    let cols: [(&'static str, [usize; 4]); 4] = [("date, description, amount, note", [0, 1, 2, 3]), ("note, date, description, amount", [3, 0, 1, 2]), ("description, note, amount, date", [1, 3, 2, 0]), ("amount, note, date, description", [2, 3, 0, 1])];
    let b = [vals.len(), templates.len(), 3, cols.len(), 4];
    h.explore("values x texts x where they go x order of columns x way to write the csv", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let (v, t) = (vals[d[0]], templates[d[1]]);
        // what a journal cannot hold is C17's; brackets belong to payees
        if (v.contains(['[', ']']) && d[2] != 1) || d[2] == 2 && v.contains(['(', ')']) {
            return Ok(());
        }
        // the spaces around a whole text do not count
        let src = ["2024/01/05", "shop", "-3", v];
        let rec: Vec<&str> = cols[d[3]].1.iter().map(|k| src[*k]).collect();
        let plain: Vec<&str> = cols[d[3]].1.iter().map(|k| ["2024/01/06", "second", "4", "p"][*k]).collect();
        let recs = vec![plain.clone(), rec, plain];
        let rules = [S("fields", cols[d[3]].0), S("account", "assets:a"), S("amount", "%amount%"), S(keys[d[2]], t)];
        let csv = csv_text(&recs);
        let csv = match d[4] {
            1 => csv.replace('\n', "\r\n"),
            2 => csv.trim_end().to_string(),
            // every field in quotes
            3 => recs.iter().map(|r| r.iter().map(|f| format!("\"{}\"", f.replace('"', "\"\""))).collect::<Vec<_>>().join(",") + "\n").collect(),
            _ => csv,
        };
        import_in(ctx, &rules, &recs, &DEFS, &csv)
    });
    // names of fields that look alike
    let names: [&'static str; 20] = ["note", "Note", "NOTE", "notes", "not", "note2", "note_2", "note-2", "n", "N", "nöte", "a b", "2", "no", "NOTe", "e", "note.", "my note", "x:y", "no_te"];
    let nn = names.len();
    h.explore("all pairs of field names", nn * nn * 3 * 2, |ctx, i| {
        let d = digits(i, &[nn, nn, 3, 2]);
        if d[0] == d[1] {
            return Ok(());
        }
        let (p, q) = (names[d[0]], names[d[1]]);
        let f = st(if d[3] == 0 { format!("date, {p}, description, amount, {q}") } else { format!("  date ,{p},description,  {q}  ,amount") });
        let rec = if d[3] == 0 { vec!["2024/01/05", "first", "shop", "-3", "second"] } else { vec!["2024/01/05", "first", "shop", "second", "-3"] };
        let t = st([format!("%{p}% and %{q}%"), format!("%{q}%"), format!("100%% %{p}%")][d[2]].clone());
        let rules = [S("fields", f), S("account", "assets:a"), S("comment", t), S("description", t)];
        import(ctx, &rules, &[rec.clone(), rec])
    });
    // values of one character, and with spaces around the name and the value
    let vs: Vec<&'static str> = ["x", "?", "1", "é", ".", "a", "*", "~", "xy", "a  b", "a\tb", "_", "%%", "%note%", "=", "#", "\\", "\"", "'", "&", ",", "|", "+", "<", "x-y", "--", "-x", "- x", "- -", "-  %note%", "-%note%", "%note% -", "x -", "- x -"].to_vec();
    let gaps = [" ", "  ", "\t", "     ", " \t "];
    let b = [vs.len(), 3, gaps.len(), 3, 2];
    h.explore("short values x rule x space between name and value x space after it x in a block", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let v = vs[d[0]];
        if d[1] == 2 && v.contains(['[', ']']) {
            return Ok(());
        }
        let m = [S("fields", "date, description, amount, note"), S("account", "assets:a"), S("amount", "%amount%"), if d[4] == 0 { S(keys[d[1]], v) } else { If(true, &["shop"], vec![S(keys[d[1]], v)]) }];
        let recs = vec![vec!["x"; 4], vec!["2024/01/05", "shop", "-3", "n"], vec!["2024/01/06", "other", "3", "m"]];
        // the text of the rules is written here, with the spaces
        let mut files = vec![];
        let text = render_rules(&m, "", &mut files);
        let line = format!("{} {v}\n", keys[d[1]]);
        let text = text.replace(&line, &format!("{}{}{v}{}\n", keys[d[1]], gaps[d[2]], ["", "  ", "\t"][d[3]]));
        let odd = S("include", "real.rules");
        ctx.put("real.rules", &text);
        let j = journal(&DEFS);
        ctx.put(JF, &j);
        ctx.put("x.csv", &csv_text(&recs));
        ctx.put("x.csv.rules", &text);
        let _ = odd;
        let r = ctx.run(&req(TODAY, &["import", "-n", "-f", JF, "--csv", "x.csv"]));
        need_ok(ctx, &r, &text)?;
        let after = ctx.get(JF);
        let Some(got) = after.strip_prefix(&j).and_then(op::entries) else { return ctx.fail(format!("import of {text} made {after}")) };
        let mut mm = M::default();
        mm.add(&m);
        let want: Vec<Out> = recs.iter().skip(1).map(|r| of_record(&mm, r, &DEFS)).collect();
        ctx.need(got.len() == 2, || format!("{} entries: {after}\n{text}", got.len()))?;
        for (g, w) in got.iter().zip(&want) {
            let Out::Entry(w) = w else { panic!("{text}") };
            ctx.need(same(g, w), || format!("appended {g:?}\nthe rules say {w:?}\n{text}"))?;
        }
        ctx.t.traces += 1;
        ctx.state(&text);
        Ok(())
    });
}
pub fn c16(h: &Harness) -> i32 {
    let v = vocabulary();
    let n = v.len();
    let mut all: Vec<Vec<&str>> = vec![HEADER.to_vec()];
    all.extend(RECS.iter().map(|r| r.to_vec()));
    let depth = if h.thorough { 4 } else { 3 };
    for d in 0..=depth {
        h.explore(&format!("rules files of {d} rules after the first three, one csv of eight records"), n.pow(d), |ctx, i| {
            let mut rules = vec![FIELDS, S("account", "assets:a"), S("amount", "%amount%")];
            rules.extend(digits(i, &vec![n; d as usize]).into_iter().map(|k| v[k].clone()));
            import(ctx, &rules, &all)
        });
    }
    // without a base
    let d = if h.thorough { 3 } else { 2 };
    h.explore(&format!("rules files of {d} rules after `fields`"), n.pow(d), |ctx, i| {
        let mut rules = vec![FIELDS];
        rules.extend(digits(i, &vec![n; d as usize]).into_iter().map(|k| v[k].clone()));
        import(ctx, &rules, &all)
    });
    // blocks: every assignment of patterns to three blocks with different rules, and every place of a rule between them
    let pats: [&'static [&'static str]; 9] = [&["shop"], &["SHOP"], &["größe"], &["fee", "quoted"], &["nothing", "fox"], &["2024/01"], &["bank"], &["1"], &["no such", "neither"]];
    let np = pats.len();
    h.explore("three `if` blocks, every choice of patterns and of the place of another rule", np * np * np * 4, |ctx, i| {
        let d = digits(i, &[np, np, np, 4]);
        let mut rules = vec![FIELDS, S("account", "assets:a"), S("amount", "%amount%")];
        let blocks = [
            If(true, pats[d[0]], vec![S("comment", "first"), S("status", "*")]),
            If(false, pats[d[1]], vec![S("comment", "second"), S("payee", "P")]),
            If(true, pats[d[2]], vec![S("note", "third %amount%"), S("description", "x")]),
        ];
        for (k, b) in blocks.into_iter().enumerate() {
            if d[3] == k {
                rules.push(S("payee", "between"));
                rules.push(S("comment", "also between"));
            }
            rules.push(b);
        }
        import(ctx, &rules, &all)
    });
    // patterns and records that differ in case, beyond ASCII
    let words: [(&'static [&'static str], [&'static str; 4]); 6] = [
        (&["CAFÉ"], ["café", "Café x", "cafe", "CAFÉ"]),
        (&["größe"], ["GRÖßE", "größe", "GröSSe", "grosse"]),
        (&["Кофе"], ["кофе и чай", "КОФЕ", "Коф", "кОфЕ."]),
        (&["no", "ÆØÅ"], ["x æøå y", "Æøå", "aeoa", "ÆØÅ"]),
        (&["éa"], ["ÉA", "xÉa", "éb", "é a"]),
        (&["AbC"], ["abc", "xABCx", "ab c", "aBc"]),
    ];
    h.explore("patterns and records that differ in case", words.len() * 4 * 4 * 3, |ctx, i| {
        let d = digits(i, &[words.len(), 4, 4, 3]);
        let (p, w) = words[d[0]];
        let rules = [FIELDS, S("account", "assets:a"), If(d[2] % 2 == 0, p, vec![S("payee", "matched"), S("status", "*")])];
        // the word in the description, in the note, or in both
        let rec = vec!["2024/01/05", if d[3] != 1 { w[d[1]] } else { "plain" }, "-1", if d[3] > 0 { w[d[2]] } else { "plain" }, "~", "05.01.2024", "assets:a", "USD"];
        import(ctx, &rules, &[HEADER.to_vec(), rec])
    });
    // columns that have no name still belong to the record
    let named: [&'static str; 4] = ["date", "date, description", "date, description, amount", "date, description, amount, note, st, date2, account"];
    h.explore("more columns than names, patterns in the columns without a name", named.len() * 9 * 4 * 2, |ctx, i| {
        let d = digits(i, &[named.len(), 9, 4, 2]);
        let p: &'static [&'static str] = [&["weekly"][..], &["btc"], &["LIABILITIES"], &["01.03"], &["no such"], &["corner"], &["no", "usd"], &["31.12.2023", "11.11"], &["100%"]][d[1]];
        let vals = [S("account", "assets:b"), S("description", "fixed"), S("amount", "-3 EUR"), S("status", "*")];
        let mut rules = vec![S("fields", named[d[0]]), S("account", "assets:a"), S("amount", "4"), S("description", "d"), If(d[3] == 0, p, vec![vals[d[2]].clone()])];
        if d[0] > 1 {
            rules[2] = S("amount", "%amount%");
        }
        import(ctx, &rules, &all)
    });
    // texts and values: substitution in one pass
    let templates = ["%note%", "a %note% b", "%note%%note%", "%%", "%% %note%", "100%% %note% %description%", "x%note%", "(%description%)", "%%note%%", "%amount%%%", "plain", "%note% %%", "Größe %note%"];
    let values: [&'static str; 18] = ["v", "%", "%%", "%date%", "%note%", "%amount% x", "100%", "a%b", "Größe", "x, y", "say \"hi\"", "C:\\d", "$1", "{}", "a  b", "é%é", "!=@", "-"];
    let keys: [&'static str; 3] = ["description", "comment", "payee"];
    let (nt, nv) = (templates.len(), values.len());
    h.explore("texts and values", nt * nv * nv * 3, |ctx, i| {
        let d = digits(i, &[nt, nv, nv, 3]);
        let rules = [FIELDS, S("account", "assets:a"), S(keys[d[3]], templates[d[0]])];
        if templates[d[0]] == "%%note%%" {
            return Ok(()); // could be read in two ways
        }
        let desc = if d[3] == 0 { values[d[2]] } else { values[d[2]] };
        let rec = vec!["2024/01/05", desc, "-1", values[d[1]], "~", "05.01.2024", "assets:a", "USD"];
        import(ctx, &rules, &[HEADER.to_vec(), rec])
    });
    // amounts and decimal symbols
    let ams: [&'static str; 20] = ["1·5", "-12·25", "1.234·5", "2٫75", "1", "-1", "1.5", "1,5", "-1,234.5", "1.234,5", "0", "0.00", "0.1", "0.125", "1e3", "", "abc", "--2", "12345678.87654321", "-0.00000001"];
    let tmpl: [&'static str; 7] = ["%amount%", "-%amount%", "%amount% EUR", "$%amount%", "$ %amount%", "%amount% EUR @ 2", "%amount% EUR @ %cur%"];
    let (na, nt) = (ams.len(), tmpl.len());
    h.explore("amounts", na * nt * 5 * 3, |ctx, i| {
        let d = digits(i, &[na, nt, 5, 3]);
        let mut rules = vec![FIELDS, S("account", "assets:a"), S("amount", tmpl[d[1]])];
        match d[2] {
            1 => rules.push(S("decimal_symbol", ",")),
            2 => rules.push(S("decimal", "'")),
            3 => rules.push(S("decimal", "·")),
            4 => rules.push(S("decimal_symbol", "٫")),
            _ => {}
        }
        if d[3] > 0 {
            rules.push(S("account_other", "expenses:x"));
        }
        if d[3] > 1 {
            rules.push(S("amount_other", ["-%amount%", "%amount%", "-%amount% EUR", "$-%amount%", "$-%amount%", "-%amount% EUR", "-%amount% EUR"][d[1]]));
        }
        let a = ams[d[0]];
        if (a.contains('·') && d[2] != 3) || (a.contains('٫') && d[2] != 4) {
            return Ok(()); // a currency, then
        }
        if a == "1e3" || a.is_empty() {
            // nothing is promised about exponents; an empty amount leaves a posting blank
            return Ok(());
        }
        let rec = vec!["2024/01/05", "x", a, "", "~", "05.01.2024", "assets:a", "5"];
        import(ctx, &rules, &[HEADER.to_vec(), rec.clone(), RECS[6].to_vec()].into_iter().map(|mut r| { r[7] = "5"; r }).collect::<Vec<_>>())
    });
    // numbers of records and how many are skipped
    let mx = if h.thorough { 5 } else { 4 };
    let nr = RECS.len();
    for k in 0..=mx {
        h.explore(&format!("{k} records, 0 to {} skipped", mx), nr.pow(k) * (mx as usize + 1), |ctx, i| {
            let d = digits(i, &vec![nr; k as usize]);
            let skip = ["0", "1", "2", "3", "4", "5"][i / nr.pow(k)];
            let recs: Vec<Vec<&str>> = d.iter().map(|r| RECS[*r].to_vec()).collect();
            import(ctx, &[FIELDS, S("account", "assets:a"), S("skip", skip), S("status", "%st%")], &recs)
        });
    }
    // many records, most of them skipped
    let many = [9usize, 31, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000];
    h.explore("long csv files x how many records are skipped", many.len() * 4, |ctx, i| {
        let d = digits(i, &[many.len(), 4]);
        let k = many[d[0]];
        let recs: Vec<Vec<&str>> = (0..k + d[1]).map(|j| vec!["2024/01/05", st(format!("record {j}")), "-3", "n"]).collect();
        import(ctx, &[S("fields", "date, description, amount, note"), S("skip", st(k.to_string())), S("account", "assets:a")], &recs)
    });
    // resets of numbered rules, after others of that and other numbers, in and out of blocks
    let nums = ["", "1", "2", "_x"];
    let b = [nums.len(), nums.len(), 3, 2, 2];
    h.explore("numbered accounts and amounts reset, in and out of blocks", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mut rules = vec![S("fields", "date, description, amount")];
        for (k, n) in nums.iter().enumerate() {
            rules.push(S(st(format!("account{n}")), DEFS[k]));
            rules.push(S(st(format!("amount{n}")), ["%amount%", "-%amount%", "1", "-1"][k]));
        }
        let mut more = vec![];
        if d[2] != 1 {
            more.push(S(st(format!("amount{}", nums[d[0]])), "-"));
        }
        if d[2] != 0 {
            more.push(S(st(format!("account{}", nums[d[1]])), "-"));
            more.push(S(st(format!("amount{}", nums[d[1]])), "-"));
        }
        if d[3] == 1 {
            more = vec![If(true, &["shop"], more)];
        }
        rules.extend(more);
        if d[4] == 1 {
            rules.push(S("amount1", "-%amount%"));
        }
        import(ctx, &rules, &[vec!["h"; 3], vec!["2024/01/05", "shop", "3"], vec!["2024/01/06", "other", "-2"]])
    });
    // records that are longer or shorter than the others
    h.explore("records of other lengths than the first", 4 * 4 * 3 * 2, |ctx, i| {
        let d = digits(i, &[4, 4, 3, 2]);
        let full = ["2024/01/05", "shop", "-3", "n", "o", "p"];
        let lens = [[4, 4, 4], [3, 4, 4], [4, 3, 4], [4, 4, 3]][d[0]];
        let lens: Vec<usize> = lens.iter().enumerate().map(|(k, l)| if *l == 3 { [3, 5, 6, 2][d[1]] } else if k == d[2] { *l } else { *l }).collect();
        let recs: Vec<Vec<&str>> = lens.iter().map(|l| full[..*l].to_vec()).collect();
        let even = lens.iter().all(|l| *l == lens[0]);
        let (j, csv) = (journal(&DEFS), csv_text(&recs));
        ctx.put(JF, &j);
        ctx.put("x.csv", &csv);
        ctx.put("x.csv.rules", &format!("fields date, description, amount\naccount assets:a\nskip {}\n", d[3]));
        let r = ctx.run(&req(TODAY, &["import", "-n", "-f", JF, "--csv", "x.csv"]));
        let after = ctx.get(JF);
        ctx.need(!r.crashed() && after.starts_with(&j), || format!("import damaged the journal or crashed: {}", show(&r)))?;
        let Some(v) = op::entries(&after[j.len()..]) else { return ctx.fail(format!("what was appended is not readable: {:?}", &after[j.len()..])) };
        if even {
            ctx.need(v.len() == 3 - d[3] && r.err.is_empty(), || format!("{} entries of three records, {} skipped: {}", v.len(), d[3], show(&r)))?;
        } else {
            // a record that lacks columns, or has more than the others, is a mistake in the file
            ctx.need(!r.err.trim().is_empty(), || format!("a csv file whose records have different lengths ({lens:?}) was imported without a word: {:?}", &after[j.len()..]))?;
        }
        ctx.t.traces += 1;
        ctx.state(&(11, &d));
        ctx.outcome(if even { "even records" } else { "ragged records refused" });
        Ok(())
    });
    rule_cycles(h);
    import_sizes(h);
    import_texts(h);
    // texts that a journal may not be able to hold: refused, or written as they are
    let odd: [&'static str; 22] = ["[b]", "a [b]", "[b] a", "a[b]c", "a ]b", "a [b", "]x[", "[]", "[", "]", "[[a]]", "a [b] [c]", "// a", "a // b", "a;b", "; a", "a//b", "-a", "* a", "~", "a\tb", "é [ü]"];
    let tm: [&'static str; 4] = ["%note%", "a %note%", "%note% b", "%note%%note%"];
    let b = [odd.len(), tm.len(), 3, 3];
    h.explore("texts a journal may not be able to hold x place x with other texts: refused, or as they are", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mut rules = vec![FIELDS, S("account", "assets:a")];
        for (k, key) in keys.iter().enumerate() {
            if k == d[2] {
                rules.push(S(key, tm[d[1]]));
            } else if d[3] == 1 || d[3] == 2 && k > d[2] {
                rules.push(S(key, "other"));
            } else if k == 0 {
                rules.push(S(key, "d"));
            }
        }
        let rec = vec!["2024/01/05", "x", "-1", odd[d[0]], "~", "05.01.2024", "assets:a", "USD"];
        let recs = [HEADER.to_vec(), rec.clone()];
        let mut m = M::default();
        m.add(&rules);
        let Out::Entry(want) = of_record(&m, &rec, &DEFS) else { panic!("the model refuses {rec:?}") };
        let (text, csv, j) = (render_rules(&rules, "", &mut vec![]), csv_text(&recs), journal(&DEFS));
        ctx.put(JF, &j);
        ctx.put("x.csv", &csv);
        ctx.put("x.csv.rules", &text);
        let r = ctx.run(&req(TODAY, &["import", "-n", "-f", JF, "--csv", "x.csv"]));
        let after = ctx.get(JF);
        let what = || format!("rules:\n{text}\ncsv:\n{csv}\n{}\njournal:\n{after}", show(&r));
        ctx.need(!r.crashed() && after.starts_with(&j), || format!("import damaged the journal or crashed: {}", what()))?;
        // brackets and comment signs may read as something else, but the line has the texts as they are
        let lines: Vec<&str> = after[j.len()..].lines().filter(|l| !l.trim().is_empty() && !l.starts_with(char::is_whitespace)).collect();
        let words = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
        let mut line = format!("{} {} {}", want.date, want.status, want.desc);
        if let Some(p) = &want.payee {
            line += &format!(" [{p}]");
        }
        if let Some(c) = &want.comment {
            line += &format!(" // {c}");
        }
        match lines.as_slice() {
            [] => ctx.need(!r.err.is_empty(), || format!("a record was dropped silently: {}", what()))?,
            [l] => ctx.need(words(l) == words(&line), || format!("appended {l:?}, the rules say {line:?}: {}", what()))?,
            _ => return ctx.fail(format!("{} entries of one record: {}", lines.len(), what())),
        }
        ctx.t.traces += 1;
        ctx.state(&(10, &d));
        ctx.outcome(if lines.is_empty() { "text refused" } else { "text written" });
        Ok(())
    });
    // records without any value are records
    h.explore("records with and without values x skip", 3usize.pow(4) * 4 * 2, |ctx, i| {
        let d = digits(i, &[3, 3, 3, 3, 4, 2]);
        let empty = vec![""; 8];
        let mut full = RECS[0].to_vec();
        full[2] = "7";
        let blank = vec![" ", "", "  ", "", "", " ", "", ""];
        let recs: Vec<Vec<&str>> = d[..4].iter().map(|k| [&full, &empty, &blank][*k].clone()).collect();
        let mut rules = vec![S("fields", "a, b, amount"), S("account", "assets:a"), S("date", "2024/02/03"), S("skip", ["0", "1", "2", "3"][d[4]]), S("description", "d %b%")];
        rules.push(if d[5] == 0 { S("amount", "5") } else { S("amount", "1%amount%") });
        import(ctx, &rules, &recs)
    });
    // patterns that look like rules
    let pats: [&'static [&'static str]; 34] = [&["if abc"], &["if if abc"], &["iff"], &["amount"], &["account assets:a"], &["skip 1"], &["-"], &["%d%"], &["a|b"], &["a.b"], &["a*b"], &["^a"], &["b$"], &["(a)"], &["[ab]"], &["a+b"], &["a?b"], &["a\\b"], &["{x}"], &["a&b"], &["#ab"], &["a@b"], &["a!b"], &["'a'"], &["a,b"], &["a=b"], &["a:b"], &["<ab>"], &["a~b"], &["a_b"], &["`a`"], &["a/b"], &["!a"], &["x", "a|b"]];
    let vals: [&'static str; 46] = ["a", "b", "ab", "aab", "a|b", "xa|bx", "a.b", "axb", "a*b", "^a", "b$", "(a)", "[ab]", "a+b", "a?b", "a\\b", "{x}", "a&b", "#ab", "a@b", "a!b", "'a'", "a,b", "a=b", "a:b", "<ab>", "a~b", "a_b", "`a`", "a/b", "!a", "A|B", "A.B", "!c", "abc", "if abc", "if if abc", "if", "iff", "amount", "account assets:a", "skip 1", "a-b", "%d%", "x", "if\u{a0}abc"];
    h.explore("patterns that look like rules", pats.len() * vals.len() * 2, |ctx, i| {
        let d = digits(i, &[pats.len(), vals.len(), 2]);
        let rules = [S("fields", "date, d, amount"), S("account", "assets:a"), S("description", "x"), If(true, pats[d[0]], vec![S("payee", "matched")])];
        let other = if d[2] == 0 { "if x" } else { "7" };
        import(ctx, &rules, &[vec!["h", "h", "h", "h"], vec!["2024/01/05", vals[d[1]], "1", other], vec!["2024/01/06", "abc", "2", vals[d[1]]]])
    });
    // every sign at the beginning, in the middle and at the end of a pattern
    const SIGNS: [&str; 31] = ["!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", "<", "=", ">", "?", "@", "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~"];
    let form = |s: &str, k: usize| -> &'static str { Box::leak(match k { 0 => format!("{s}ab"), 1 => format!("a{s}b"), 2 => format!("ab{s}"), 3 => format!("{s} ab"), 4 => format!("{s}{s}ab"), 5 => format!("ab {s} ab"), 6 => "ab".into(), 7 => "a b".into(), _ => "xabx".into() }.into_boxed_str()) };
    h.explore("patterns with every sign x values with and without it", SIGNS.len() * 6 * 9 * 3, |ctx, i| {
        let d = digits(i, &[SIGNS.len(), 6, 9, 3]);
        let (p, v) = (form(SIGNS[d[0]], d[1]), form(SIGNS[d[0]], d[2]));
        if p.contains("//") {
            return Ok(()); // a comment
        }
        let pats: &'static [&'static str] = Box::leak(if d[3] == 2 { vec!["nothing", p] } else { vec![p] }.into_boxed_slice());
        let rules = [S("fields", "date, d, amount"), S("account", "assets:a"), S("description", "x"), If(d[3] == 0, pats, vec![S("payee", "matched")])];
        import(ctx, &rules, &[vec!["h", "h", "h"], vec!["2024/01/05", v, "1"], vec!["2024/01/06", "other", "2"]])
    });
    // dates: the bank's format and the journal's
    const BANK: [&str; 12] = ["%Y/%m/%d", "%d.%m.%Y", "%m-%d-%Y", "%m/%d/%y", "%d/%m/%y", "%Y%m%d", "%d-%b-%Y", "%b %d %Y", "%d %b %y", "%Y-%j", "%j.%y", "on %d.%m. in %Y"];
    const OWN: [&str; 7] = ["", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%Y%j", "%d/%m/%y", "%d-%b-%Y"];
    let spans = [(day(2019, 12, 20), 440i64), (day(1999, 12, 20), 80), (day(2068, 12, 1), 31), (day(1970, 1, 1), 60), (day(2100, 2, 1), 60), (day(1900, 2, 1), 40), (day(9998, 12, 20), 30)];
    let b = [BANK.len(), OWN.len(), spans.len(), 5];
    h.explore("dates: every day of spans x format of the rules x format of the journal x how the rules are written", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let (bank, own, (from, n)) = (BANK[d[0]], OWN[d[1]], spans[d[2]]);
        let y = ymd(from).0;
        // two digits are years from 1970 to 2069
        let lost = !(1970..2069).contains(&y) && own.contains("%y");
        if !(1970..2069).contains(&y) && bank.contains("%y") {
            return Ok(());
        }
        let own1 = if own.is_empty() { "%Y/%m/%d" } else { own };
        let head = format!("{}account assets:a\naccount expenses:unknown\n", if own.is_empty() { String::new() } else { format!("date_format {own}\n") });
        let days: Vec<Day> = (0..n).map(|k| from + if d[3] == 1 { n - 1 - k } else { k }).collect();
        let mut csv = String::new();
        for (k, x) in days.iter().enumerate() {
            let t = fmt(*x, bank);
            csv += &match d[3] {
                2 => format!("{k},-1,\"{t}\"\n"),
                3 => format!("\"{t}\",-1,{k},x\n"),
                _ => format!("{t},-1,{k}\n"),
            };
        }
        let rules = match d[3] {
            2 => format!("skip 0\nfields d, amount, when\ndate %when%\ndescription %d%\naccount assets:a\namount %amount%\ndate_format {bank}\n"),
            // the format stands in a block that applies to all
            3 => format!("skip 0\ndate_format %S\nfields date, amount, d\ndescription %d%\naccount assets:a\namount %amount%\nif x\n    date_format {bank}\n"),
            _ => format!("date_format {bank}\nskip 0\nfields date, amount, d\ndescription %d%\naccount assets:a\namount %amount%\n"),
        };
        ctx.put(JF, &head);
        ctx.put("x.csv", &csv);
        ctx.put("x.csv.rules", &rules);
        let q = req(from + if d[3] == 4 { -500 } else { 10 }, &["import", "-n", "-f", JF, "--csv", "x.csv"]);
        let r = ctx.run(&q);
        if lost {
            // the journal can't hold these dates
            need_refused(ctx, &r, &format!("import with\n{rules}of\n{csv}into a journal with dates {own:?}"))?;
            ctx.need(ctx.get(JF) == head, || "an entry was written whose date the journal can't hold".into())?;
            ctx.outcome("dates the journal can't hold");
            return Ok(());
        }
        need_ok(ctx, &r, &format!("import with\n{rules}of\n{csv}"))?;
        let text = ctx.get(JF);
        let Some(es) = text.strip_prefix(&head).and_then(op::entries) else { return ctx.fail(format!("the journal became {text:?}")) };
        ctx.need(es.len() == days.len(), || format!("{} entries of {} records with\n{rules}", es.len(), days.len()))?;
        for (k, (e, x)) in es.iter().zip(&days).enumerate() {
            ctx.need(e.date == fmt(*x, own1) && e.desc == k.to_string(), || format!("record {k} of {} ({:?} as {bank:?}) became {e:?} in a journal with dates {own1:?}", iso(*x), fmt(*x, bank)))?;
        }
        let r = report(ctx, from, "b");
        need_ok(ctx, &r, "a report afterwards")?;
        ctx.t.traces += n as u64;
        ctx.state(&(9, &d));
        ctx.outcome("dates");
        Ok(())
    });
    h.finish(
        "all rules files of so many rules over a vocabulary of 39 rules, resets, if blocks and includes; all pattern assignments of three if blocks; products of texts, values, amounts and decimal symbols; all sequences of records; many records, fields, patterns, blocks and rules; up to 1500 records and several long texts at once; features of csv files, pairs of field names; dates that a journal cannot hold; every day of several spans in twelve date formats of the bank and seven of the journal: the entries that import appends are compared with an independent model of the rules",
        &["patterns lie within one field", "texts without comment signs (`//`, `;`)", "posting order within an entry is not compared"],
    )
}

// ------------------------------------------------------------------------------------------- C17
const BASE: [&str; 8] = DEFS;
/// What a report shows: real balances of expenses:x and the number of register items
fn seen(ctx: &mut Ctx, what: &str) -> Result<(Pool, usize), Violation> {
    let r = ctx.run(&req(TODAY, &["b", "-n", "-f", JF]));
    need_ok(ctx, &r, what)?;
    let Some(b) = op::balance(&r.out) else { return ctx.fail(format!("{what}: balance is not readable: {}", show(&r))) };
    let mut p = Pool::new();
    for (n, a) in b {
        if n == "assets:a" {
            for x in a {
                pool_add(&mut p, &x);
            }
        }
    }
    let r = ctx.run(&req(TODAY, &["r", "-n", "-f", JF]));
    need_ok(ctx, &r, what)?;
    Ok((p, r.out.lines().filter(|l| l.contains(" -> ")).count()))
}
struct Case<'a> {
    journal: String,
    rules: String,
    recs: Vec<Vec<&'a str>>,
    /// the amount that each record moves into assets:a (None: not known)
    moves: Vec<Option<f64>>,
    /// the first record that cannot be written, if that is certain
    bad: Option<usize>,
    /// every record is certainly fine but for those that are not known
    certain: bool,
}
fn unreadable(ctx: &mut Ctx, c: &Case) -> Check {
    ctx.put(JF, &c.journal);
    ctx.put("x.csv", &csv_text(&c.recs));
    ctx.put("r", &c.rules);
    let before = ctx.srv.snapshot();
    let what = || format!("import of\n{}with\n{}into\n{}", csv_text(&c.recs), c.rules, c.journal);
    let l = ctx.run(&req(TODAY, &["b", "-n", "-f", JF]));
    let loaded = l.status == 0 && l.err.is_empty();
    let r = ctx.run(&req(TODAY, &["import", "-n", "-f", JF, "--csv", "x.csv", "--rules", "r"]));
    ctx.need(!r.crashed(), || format!("{} crashed: {}", what(), show(&r)))?;
    let after = ctx.srv.snapshot();
    if !loaded {
        ctx.need(after == before && !r.err.is_empty(), || format!("{}: the journal does not load, but a file was changed", what()))?;
        ctx.outcome("journal does not load");
        ctx.t.traces += 1;
        return Ok(());
    }
    ctx.need(after.keys().eq(before.keys()) && after[JF].starts_with(&before[JF]), || format!("{}: changed earlier text or other files", what()))?;
    let n = c.recs.len() - 1;
    // the journal as it was
    ctx.put_bytes(JF, &before[JF]);
    let (p0, k0) = seen(ctx, "before")?;
    ctx.put_bytes(JF, &after[JF]);
    let (p1, k1) = seen(ctx, &format!("the journal after {}\n(now {:?})", what(), String::from_utf8_lossy(&after[JF])))?;
    // a beginning of the records
    let by_text = c.moves.iter().all(|m| m.is_none()); // movements of nothing are not in the register
    let k1 = if by_text { k0 + String::from_utf8_lossy(&after[JF][before[JF].len()..]).lines().filter(|l| l.starts_with(|x: char| !x.is_whitespace())).count() } else { k1 };
    let k = k1.saturating_sub(k0);
    ctx.need(k1 >= k0 && k <= n, || format!("{}: {} entries before, {} after", what(), k0, k1))?;
    if k < n {
        ctx.need(!r.err.trim().is_empty(), || format!("{}: only {k} of {n} records were imported and nothing was reported", what()))?;
    } else {
        ctx.need(r.err.is_empty(), || format!("{}: all records were imported, but: {}", what(), show(&r)))?;
    }
    if let Some(b) = c.bad {
        ctx.need(k == b, || format!("{}: record {b} cannot be written, but {k} entries were: {:?}", what(), String::from_utf8_lossy(&after[JF][before[JF].len()..])))?;
    } else if c.certain {
        ctx.need(k == n, || format!("{}: every record is fine, but only {k} were imported: {}", what(), show(&r)))?;
    }
    if c.moves[..k].iter().all(|m| m.is_some()) {
        let d: f64 = c.moves[..k].iter().flatten().sum();
        let g = |p: &Pool| p.get("").copied().unwrap_or(0.0);
        ctx.need(op::close(g(&p1) - g(&p0), d), || format!("{}: {k} entries written; assets:a went from {p0:?} to {p1:?}", what()))?;
    }
    ctx.outcome(&format!("{k} of {n} written"));
    ctx.t.traces += 1;
    ctx.state(&(k, String::from_utf8_lossy(&after[JF]).into_owned()));
    ctx.sample(|| what());
    Ok(())
}
pub fn c17(h: &Harness) -> i32 {
    const TEXTS: [&str; 52] = [
        "[", "]", "[]", "][", "[x", "x]", "a [b] c", "[a] [b]", "]a[", "\n", "\r\n", "\r", "x\ny", "x\n y", "//", ";", "x // y", "x ; [", "2024/01/02 * fake",
        "\n2024/01/01 * fake\n    assets:a    5\n    income:i\n", "\naccount assets:evil", "\n    expenses:x    5", "\n    expenses:x", "\ninclude nothing", "*", "~ x", "\t", "\t[", "\u{2028}x", "\u{85}x", "\u{b}",
        "", "   ", "!", "@ 5", "= 5", "\"", "\u{feff}", "🦊", "é[é", "x [\n]", "[p]\n[q]", "\n;", "-",
        "x\n\u{a0}y", "x\n\u{3000}expenses:x    5", "x\n\u{a0}\u{a0}\u{a0}\u{a0}expenses:x    5", "x\n\u{c}y", "x\u{c}y", "x\n\ty", "x\n\n", "x\n\u{2003}[",
    ];
    // where the text goes: field of the record x rules
    let rules: [(&str, &str); 10] = [
        ("description", "fields date, d, amount, account, text\ndescription %text%\naccount assets:a\n"),
        ("middle of the description", "fields date, d, amount, account, text\ndescription %d%%text%%d%\naccount assets:a\n"),
        ("payee", "fields date, description, amount, account, text\npayee %text%\naccount assets:a\n"),
        ("comment", "fields date, description, amount, account, text\ncomment %text%\naccount assets:a\n"),
        ("payee and comment", "fields date, description, amount, account, text\npayee p%text%\ncomment %text% c\naccount assets:a\n"),
        ("end of the description, with a payee", "fields date, d, amount, account, text\ndescription %d% %text%\npayee someone\ncomment c\naccount assets:a\n"),
        ("after an account", "fields date, description, amount, account, text\naccount assets:a\naccount2 expenses:x%text%\namount %amount%\n"),
        ("after an amount", "fields date, description, amount, account, text\naccount assets:a\namount %amount%%text%\n"),
        ("before an amount", "fields date, description, amount, account, text\naccount assets:a\namount %text%%amount%\n"),
        ("account", "fields date, description, amount, account, text\naccount1 assets:a\namount1 %amount%\naccount2 %text%\n"),
    ];
    let defs: String = BASE.iter().map(|a| format!("account {a}\n")).collect();
    let body = "2024/01/01 * first\n    assets:a    5\n    income:i\n";
    let journals = [format!("{defs}{body}"), format!("{defs}{body}").trim_end().to_string(), format!("{defs}{body}// a comment at the end")];
    let (nt, nr) = (TEXTS.len(), rules.len());
    h.explore("strange texts in every place of an entry, first, middle or last of three records", nt * nr * 3 * 3, |ctx, i| {
        let d = digits(i, &[nt, nr, 3, 3]);
        let mut recs = vec![vec!["date", "description", "amount", "account", "text"]];
        let mut moves = vec![];
        for k in 0..3 {
            let am = ["1", "-10", "100"][k];
            let t = if k == d[2] { TEXTS[d[0]] } else { ["fine", "fine", "fine", "fine", "fine", "fine", "", "", "", "expenses:x"][d[1]] };
            recs.push(vec!["2024/02/03", ["one", "two", "three"][k], am, "assets:a", t]);
            let num = d[1] == 7 || d[1] == 8;
            moves.push(if num && k == d[2] { None } else { am.parse().ok() });
        }
        let t = TEXTS[d[0]];
        let (texty, header) = (d[1] < 6, [0usize, 1, 2, 4, 5].contains(&d[1]));
        // a line break in any text, or an open bracket in the head line, cannot be read back
        let _ = header;
        let bad = if (texty && t.contains('\n') && !(t.ends_with('\n') && t.trim().is_empty())) || (d[1] == 9 && t.split_whitespace().next().is_some_and(|x| !BASE.contains(&x))) { Some(d[2]) } else { None };
        let bad = if d[1] == 9 && t.trim_start().starts_with([';', '/']) { None } else { bad };
        unreadable(ctx, &Case { journal: journals[d[3]].clone(), rules: rules[d[1]].1.into(), recs, moves, bad, certain: false })
    });
    // pairs of strange texts in description and payee
    h.explore("pairs of strange texts in description, payee and comment", nt * nt * 3, |ctx, i| {
        let d = digits(i, &[nt, nt, 3]);
        let r = ["fields date, a, b, amount\ndescription %a%\npayee %b%\naccount assets:a\n", "fields date, a, b, amount\ndescription %a%\ncomment %b%\naccount assets:a\n", "fields date, a, b, amount\ndescription x\npayee %a%\ncomment %b%\naccount assets:a\n"][d[2]];
        let recs = vec![vec!["h", "h", "h", "h"], vec!["2024/02/03", TEXTS[d[0]], TEXTS[d[1]], "7"], vec!["2024/02/03", "fine", "fine", "70"]];
        unreadable(ctx, &Case { journal: journals[0].clone(), rules: r.into(), recs, moves: vec![Some(7.0), Some(70.0)], bad: None, certain: false })
    });
    // amounts
    const AMS: [&str; 30] = [
        "", "nan", "inf", "-inf", "1e400", "1e3", "1.2.3", "١٢", "1-2", "--1", "-", ".", ",", "99999999999999999999999", "0.000000001", "-0", "0", "1/3", "$5 EUR", "5 EUR 6", "5 EUR", "$", "5 @", "5 @ x", "5 EUR @ 2", "5 = 4", "5 EUR = 0",
        "5 ! 5", "5 ! ", "1 2",
    ];
    let arules = [
        "fields date, description, amount, x\naccount assets:a\n",
        "fields date, description, amount, x\naccount assets:a\namount %amount%\naccount2 expenses:x\n",
        "fields date, description, amount, x\naccount assets:a\namount %amount%\naccount2 expenses:x\namount2 -%amount%\n",
        "fields date, description, amount, x\naccount assets:a\namount %amount%\naccount2 expenses:x\namount2 %amount% USD\naccount3 income:i\n",
        "fields date, description, amount, x\naccount assets:a\naccount2 expenses:x\namount2 %amount%\naccount3 income:i\n",
        "fields date, description, amount, x\naccount assets:a\namount %amount%\naccount2 expenses:x\namount2 1\n",
        "fields date, description, amount, x\naccount assets:a\namount %amount%\naccount2 expenses:x\namount2 -%amount%\ndecimal_symbol ,\n",
    ];
    let na = AMS.len();
    h.explore("strange amounts in several postings", na * arules.len() * 3, |ctx, i| {
        let d = digits(i, &[na, arules.len(), 3]);
        let mut recs = vec![vec!["h", "h", "h", "h"]];
        for k in 0..3 {
            recs.push(vec!["2024/02/03", "x", if k == d[2] { AMS[d[0]] } else { "4" }, ""]);
        }
        // two blanks, or postings that do not sum to zero
        let bad = match d[1] {
            4 => Some(0),
            5 if d[2] > 0 => Some(0),
            _ => None,
        };
        unreadable(ctx, &Case { journal: journals[0].clone(), rules: arules[d[1]].into(), recs, moves: vec![None; 3], bad, certain: false })
    });
    // currencies whose symbols mean something else in a journal: refused, or what the bank says
    let syms = ["@", "=", "!", "@@", "!!", "==", "@=", "=x", "x@", "!x", "%", "#", "&", "*", "~", "?", "+", "'", "^", "_", "|", "[", "]", "(", ":", "a/b", "€", "x y"];
    let lay = ["SN", "S N", "NS", "N S"];
    let srules = [arules[0], arules[1], arules[2], "fields date, description, amount, x\naccount assets:a\namount %amount%\naccount2 expenses:x\namount2 -5\n", "fields date, description, amount, x\naccount assets:a\namount %amount%\naccount2 expenses:x\namount2 -%amount%\naccount3 income:i\namount3 0\n"];
    let b = [syms.len(), lay.len(), srules.len(), 3];
    h.explore("symbols that mean something in a journal x layout x rules x which record", product(&b), |ctx, i| {
        let d = digits(i, &b);
        // these begin a cost or an assertion when a space stands beside them
        if d[1] % 2 == 1 && syms[d[0]].starts_with(['@', '=', '!']) {
            return Ok(());
        }
        let t = lay[d[1]].replace('N', "5").replace('S', syms[d[0]]);
        let mut recs = vec![vec!["h", "h", "h", "h"]];
        for k in 0..3 {
            recs.push(vec!["2024/02/03", "x", if k == d[3] { &t } else { "5" }, ""]);
        }
        unreadable(ctx, &Case { journal: journals[0].clone(), rules: srules[d[2]].into(), recs, moves: vec![None; 3], bad: None, certain: false })?;
        let (p, _) = seen(ctx, "after")?;
        let (nat, sy) = (p.get("").copied().unwrap_or(0.0) - 5.0, p.iter().filter(|x| !x.0.is_empty() && *x.1 != 0.0).collect::<Vec<_>>());
        let ok = (0..=3).any(|k| {
            let with = k > d[3];
            op::close(nat, 5.0 * (k - with as usize) as f64) && if with { sy.len() == 1 && sy[0].0 == syms[d[0]] && op::close(*sy[0].1, 5.0) } else { sy.is_empty() }
        });
        ctx.need(ok, || format!("after an import of 5 in the currency {:?} (written {t:?}), assets:a holds {p:?} in\n{}", syms[d[0]], ctx.get(JF)))?;
        ctx.outcome(if sy.is_empty() { "symbol refused" } else { "symbol kept" });
        Ok(())
    });
    // records and journals whose verdict is known: undefined accounts, dates that the journal's format cannot hold
    let kinds: [(&str, &str, &str, [bool; 5]); 10] = [
        // date, amount, account, fine in journals without: nothing, expenses:unknown, income:unknown, unknown, date formats
        ("2024/02/03", "-3", "assets:a", [true, false, true, true, true]),
        ("2024/02/03", "30", "assets:a", [true, true, false, true, true]),
        ("2024/02/03", "0", "assets:a", [true, true, true, false, true]),
        ("2024/02/03", "-300", "assets:none", [false; 5]),
        ("2024/02/30", "-300", "assets:a", [false; 5]),
        ("02.03.2024", "-300", "assets:a", [false; 5]),
        ("2024/02/29", "300", "assets:a", [true, true, false, true, true]),
        ("2024/02/03", "x", "assets:a", [false; 5]),
        ("2024/02/03", "-5", "assets:a ; x", [false; 5]),
        // nothing at all
        ("", "", "", [false; 5]),
    ];
    let drop = ["", "account expenses:unknown\n", "account income:unknown\n", "account unknown\n"];
    let nk = kinds.len();
    let mx = if h.thorough { 4 } else { 3 };
    for k in 1..=mx {
        h.explore(&format!("{k} records of ten kinds, journals with and without the default accounts"), nk.pow(k) * 4, |ctx, i| {
            let mut d = digits(i, &vec![nk; k as usize + 1]);
            let v = i / nk.pow(k);
            d.truncate(k as usize);
            let j = defs.replacen(&format!("\n{}", drop[v]), "\n", if v == 0 { 0 } else { 1 });
            assert!(v == 0 || j.len() < defs.len());
            let mut recs = vec![vec!["h", "h", "h", "h"]];
            let mut moves = vec![];
            for x in &d {
                let q = &kinds[*x];
                recs.push(vec![q.0, if q.0.is_empty() { "" } else { "text" }, q.1, q.2]);
                // a zero movement is not listed in the register
                moves.push(q.1.parse().ok());
            }
            // the register does not list movements of nothing: leave those cases to the balance
            if d.iter().any(|x| *x == 2) {
                return zeroes(ctx, &format!("{j}{body}"), &recs, &d, &kinds.map(|q| q.3[v]));
            }
            let bad = d.iter().position(|x| *x == 8 || !kinds[*x].3[v]);
            unreadable(ctx, &Case { journal: format!("{j}{body}"), rules: "fields date, description, amount, account\n".into(), recs, moves, bad, certain: true })
        });
    }
    // the journal's date format
    const DF: [&str; 16] = ["%Y/%m/%d", "%d.%m.%Y", "%Y-%m-%d", "%m/%d/%y", "%Y%m%d", "%d-%b-%Y", "%F", "%Y/%j", "%G/%V/%u", "%Y;%m;%d", "%Y//%m//%d", "%m/%d", "%Y", "%e.%m.%Y", "%s", "%A"];
    const DS: [&str; 12] = ["2150/01/01", "1900/03/01", "2024/02/29", "1999/12/31", "2068/12/31", "2069/01/01", "1969/01/01", "1968/12/31", "0001/01/01", "9999/12/31", "2024/01/05", "2023/01/01"];
    h.explore("journal date formats x dates", DF.len() * DS.len() * DS.len(), |ctx, i| {
        let d = digits(i, &[DF.len(), DS.len(), DS.len()]);
        let j = format!("date_format {}\n{defs}", DF[d[0]]);
        let recs = vec![vec!["h", "h", "h", "h"], vec![DS[d[1]], "x", "8", "assets:a"], vec![DS[d[2]], "y", "80", "assets:a"]];
        let certain = [0, 1, 2, 3, 4, 5, 6, 7].contains(&d[0]);
        // two digits of the year hold 1970 to 2069
        let lost = |k: usize| d[0] == 3 && !(1970..=2069).contains(&DS[k][..4].parse::<i32>().unwrap());
        let bad = [d[1], d[2]].iter().position(|k| lost(*k));
        unreadable(ctx, &Case { journal: j, rules: "fields date, description, amount, account\n".into(), recs, moves: vec![Some(8.0), Some(80.0)], bad, certain })
    });
    h.finish(
        "52 strange texts in every place of an entry, alone and in pairs, in each of three records and three journal endings; 30 strange amounts in seven kinds of entries; all sequences of records of nine kinds with known verdict; 16 date formats x pairs of dates: after the import the journal loads, a beginning of the records is there, exactly once, and the rest is reported",
        &["what is there is judged by the balance and the register, which other checks judge"],
    )
}
/// Sequences with movements of nothing, which no report shows: the appended text is counted.
fn zeroes(ctx: &mut Ctx, journal: &str, recs: &[Vec<&str>], d: &[usize], fine: &[bool]) -> Check {
    ctx.put(JF, journal);
    ctx.put("x.csv", &csv_text(recs));
    ctx.put("r", "fields date, description, amount, account\n");
    let r = ctx.run(&req(TODAY, &["import", "-n", "-f", JF, "--csv", "x.csv", "--rules", "r"]));
    let want = d.iter().position(|x| *x == 8 || !fine[*x]).unwrap_or(d.len());
    let after = ctx.get(JF);
    ctx.need(!r.crashed() && after.starts_with(journal), || format!("journal damaged: {}", show(&r)))?;
    let n = op::entries(&after[journal.len()..]).map(|e| e.len());
    ctx.need(n == Some(want), || format!("{n:?} entries were written, expected {want}: {:?}", &after[journal.len()..]))?;
    ctx.need((want == d.len()) == r.err.is_empty(), || format!("{want} of {} records written: {}", d.len(), show(&r)))?;
    let r = ctx.run(&req(TODAY, &["b", "-n", "-f", JF]));
    need_ok(ctx, &r, "after the import")?;
    ctx.t.traces += 1;
    ctx.state(&(d.to_vec(), want));
    Ok(())
}
