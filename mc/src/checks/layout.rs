//! C03 (refusals), C04 (comments and layout), C05 (includes).
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::sut::*;

use crate::model::*;
use crate::outparse as op;
const TODAY: Day = 18400; // 2020-05-18

/// A journal that uses every construct and has money to fund envelopes with. One string per item.
fn base() -> Vec<String> {
    [
        "account expenses:food\n",
        "account income:job\n",
        "account assets:checking\n    expense food due every 15th\n        amount 100\n        for expenses:food\n        funding conservative\n    goal trip by 2021/01/01\n        amount 500\n        funding aggressive\n",
        "account assets:other\n    expense rent due every other Friday starting 2020/05/01\n        amount $30\n        funding aggressive\n    goal car no date\n        amount 10\n",
        "2020/05/01 * Pay and/or bonus [The Company]\n    assets:checking    300\n    income:job\n",
        "2020/05/02 ~ Groceries\n    assets:checking    -20\n    expenses:food    20\n",
        "2020/05/03 ? Coins [Bank]\n    assets:other    2 BTC @ 30\n    assets:checking\n    expenses:food    5\n",
        "2020/05/04 * Dollars\n    assets:other    $50\n    income:job    $-50\n",
        "2020/05/05 ~ Save\n    envelope assets:checking food 12.5\n    envelope assets:other car 3\n",
    ]
    .map(String::from)
    .to_vec()
}

/// (what, text): items that make any journal invalid
fn faults() -> Vec<(&'static str, &'static str)> {
    vec![
        ("undefined account", "2020/05/06 * bad\n    assets:nosuch    5\n    income:job    -5\n"),
        ("undefined account, last posting, blank", "2020/05/06 * bad\n    assets:checking    5\n    income:nosuch\n"),
        ("undefined account in the middle", "2020/05/06 * bad\n    assets:checking    5\n    nosuch    0\n    income:job    -5\n"),
        ("account by prefix only", "2020/05/06 * bad\n    assets    5\n    income:job    -5\n"),
        ("account in other case", "2020/05/06 * bad\n    Assets:Checking    5\n    income:job    -5\n"),
        ("envelope posting to undefined account", "2020/05/06 * bad\n    envelope assets:nosuch food 5\n"),
        ("envelope posting to undefined account after real postings", "2020/05/06 * bad\n    assets:checking    5\n    income:job    -5\n    envelope assets:nosuch food 5\n"),
        ("envelope posting without name", "2020/05/06 * bad\n    envelope assets:checking\n"),
        ("envelope posting without amount", "2020/05/06 * bad\n    envelope assets:checking food\n"),
        ("envelope posting with unreadable amount", "2020/05/06 * bad\n    envelope assets:checking food lots\n"),
        ("envelope posting in another currency", "2020/05/06 * bad\n    envelope assets:checking food $5\n"),
        ("no status", "2020/05/06 bad\n    assets:checking    5\n    income:job    -5\n"),
        ("date only", "2020/05/06\n    assets:checking    5\n    income:job    -5\n"),
        ("unknown status", "2020/05/06 ! bad\n    assets:checking    5\n    income:job    -5\n"),
        ("double status", "2020/05/06 ** bad\n    assets:checking    5\n    income:job    -5\n"),
        ("status stuck to the description", "2020/05/06 *bad\n    assets:checking    5\n    income:job    -5\n"),
        ("month 13", "2020/13/06 * bad\n    assets:checking    5\n    income:job    -5\n"),
        ("30 February", "2020/02/30 * bad\n    assets:checking    5\n    income:job    -5\n"),
        ("29 February in a common year", "2019/02/29 * bad\n    assets:checking    5\n    income:job    -5\n"),
        ("other date format", "06.05.2020 * bad\n    assets:checking    5\n    income:job    -5\n"),
        ("date with a tail", "2020/05/06x * bad\n    assets:checking    5\n    income:job    -5\n"),
        ("unknown word", "acount assets:typo\n"),
        ("unreadable amount", "2020/05/06 * bad\n    assets:checking    five\n    income:job\n"),
        ("two decimal points", "2020/05/06 * bad\n    assets:checking    1.2.3\n    income:job\n"),
        ("minus alone", "2020/05/06 * bad\n    assets:checking    -\n    income:job\n"),
        ("symbol alone", "2020/05/06 * bad\n    assets:checking    $\n    income:job\n"),
        ("minus inside", "2020/05/06 * bad\n    assets:checking    1-2\n    income:job\n"),
        ("three words", "2020/05/06 * bad\n    assets:checking    5 US dollars\n    income:job\n"),
        ("unreadable unit cost", "2020/05/06 * bad\n    assets:checking    5 BTC @ much\n    income:job\n"),
        ("unreadable total cost", "2020/05/06 * bad\n    assets:checking    5 BTC = \n    income:job\n"),
        ("two blanks", "2020/05/06 * bad\n    assets:checking\n    income:job\n    expenses:food    5\n"),
        ("lone blank", "2020/05/06 * bad\n    assets:checking\n"),
        ("lone blank with an envelope posting", "2020/05/06 * bad\n    assets:checking\n    envelope assets:checking food 5\n"),
        ("not balanced", "2020/05/06 * bad\n    assets:checking    5\n    income:job    -6\n"),
        ("not balanced, one posting", "2020/05/06 * bad\n    assets:checking    5\n"),
        ("blank among mixed currencies without cost", "2020/05/06 * bad\n    assets:other    5 BTC\n    assets:checking    5\n    income:job\n"),
        ("unclosed payee", "2020/05/06 * bad [payee\n    assets:checking    5\n    income:job    -5\n"),
        ("unclosed payee of several words", "2020/05/06 * bad [the payee of it\n    assets:checking    5\n    income:job    -5\n"),
        ("payee opened in the middle of a word", "2020/05/06 * bad th[e payee\n    assets:checking    5\n    income:job    -5\n"),
        ("payee opened at the end", "2020/05/06 * bad pay [\n    assets:checking    5\n    income:job    -5\n"),
        ("payee opened and a closing bracket before", "2020/05/06 * a ] b [c d\n    assets:checking    5\n    income:job    -5\n"),
        ("payee brackets the wrong way", "2020/05/06 * bad ]payee[\n    assets:checking    5\n    income:job    -5\n"),
        ("account with spaces", "account assets my bank\n"),
        ("account with a note", "account assets:new (mine)\n"),
        ("account with a second word", "account assets:new [x]\n    expense e no date\n        amount 5\n"),
        ("account with an amount", "account assets:new 5\n"),
        ("account without name", "account\n"),
        ("unknown envelope property", "account assets:new\n    expense e due every 5th\n        amount 5\n        color red\n"),
        ("blank envelope amount", "account assets:new\n    expense e due every 5th\n        amount\n"),
        ("blank for", "account assets:new\n    expense e due every 5th\n        amount 5\n        for\n"),
        ("for with spaces", "account assets:new\n    expense e due every 5th\n        amount 5\n        for my food\n"),
        ("unknown funding", "account assets:new\n    expense e due every 5th\n        amount 5\n        funding lazy\n"),
        ("unreadable envelope amount", "account assets:new\n    goal e due every 5th\n        amount many\n"),
        ("duplicate envelope", "account assets:new\n    expense e due every 5th\n        amount 5\n    expense e due every 6th\n        amount 5\n"),
        ("duplicate goal", "account assets:new\n    goal e due every 5th\n        amount 5\n    expense f no date\n        amount 1\n    goal e no date\n        amount 5\n"),
        ("every other weekday without start", "account assets:new\n    expense e due every other Friday\n        amount 5\n"),
        ("every other month without start", "account assets:new\n    expense e due every other 15th\n        amount 5\n"),
        ("every year without start", "account assets:new\n    expense e due every year\n        amount 5\n"),
        ("unknown frequency", "account assets:new\n    expense e due every blue moon\n        amount 5\n"),
        ("unknown other frequency", "account assets:new\n    expense e due every other blue moon starting 2020/01/01\n        amount 5\n"),
        ("no due date at all", "account assets:new\n    expense e\n        amount 5\n"),
        ("impossible one-time date", "account assets:new\n    goal e by 2020/02/30\n        amount 5\n"),
        ("unreadable starting date", "account assets:new\n    expense e due every year starting soon\n        amount 5\n"),
        ("impossible starting date", "account assets:new\n    expense e due every 5th starting 2020/04/31\n        amount 5\n"),
        ("envelope without a name", "account assets:new\n    expense\n        amount 5\n"),
        ("unknown kind of envelope", "account assets:new\n    envelope e due every 5th\n        amount 5\n"),
        ("include of a missing file", "include nosuch.sfox\n"),
        ("include of a missing file with a star", "include nosuch*\n"),
        ("include of a missing file in a missing directory", "include no/such/file.sfox\n"),
        ("include of a missing file of another kind", "include nosuch\n"),
        ("include of a missing hidden file", "include .nosuch\n"),
        ("include of a missing file beside its directory", "include ../nosuch.sfox\n"),
        ("include of a missing file, in the full", "include /nonexistent/nosuch.sfox\n"),
        ("include of nothing", "include\n"),
        ("include of a directory", "include dir\n"),
        ("currency of nothing", "currency\n"),
        ("date format of nothing", "date_format\n"),
    ]
}

fn put_import(ctx: &mut Ctx) {
    ctx.put("imp.csv", "date,description,amount\n2020/05/07,Coffee,-3\n");
    ctx.put("imp.csv.rules", "fields date, description, amount\naccount assets:checking\naccount2 expenses:food\n");
}
const SUBS: [&[&str]; 6] = [&["balance"], &["envelopes"], &["register"], &["import", "--csv", "imp.csv"], &["summary"], &["new"]];

/// A larger journal for faults within lines: entries of one to four postings, accounts with up to four envelopes.
fn line_base() -> Vec<String> {
    let t = base().concat()
        + "account assets:many\n    expense a due every 5th\n        amount 5\n        for expenses:none\n        funding manual\n    expense b due every Monday\n        funding aggressive\n        amount 5\n    goal c due every year starting 2020/02/20\n        for expenses:none\n        amount 7 CAD\n    expense d no date\n        amount 1\n"
        + "2020/05/08 * four\n    assets:checking    -30\n    expenses:food    10\n    assets:many    10.25\n    assets:other    9.75\n2020/05/09 ? three\n    assets:many    $-4\n    income:job\n    assets:other    $3\n2020/05/10 ~ one\n    envelope assets:many d 0.5\n";
    t.lines().map(String::from).collect()
}
/// every fault that can be put into this line: (what, the lines that replace it)
fn line_faults(l: &str, has_blank: bool, mixed: bool) -> Vec<(String, Vec<String>)> {
    let ind = l.len() - l.trim_start().len();
    let t: Vec<&str> = l.split_whitespace().collect();
    let mut v: Vec<(String, Vec<String>)> = vec![];
    let mut rep = |w: &str, x: String| v.push((w.to_string(), vec![x]));
    let posting = ind == 4 && !["expense", "goal"].contains(&t[0]);
    if ind == 0 && t[0] == "account" {
        rep("space in the name", format!("{l} x"));
        rep("no name", "account".into());
        v.push(("property outside of an envelope".into(), vec![l.into(), "    amount 5".into()]));
        v.push(("unknown envelope type".into(), vec![l.into(), "    saving x no date".into(), "        amount 5".into()]));
    } else if ind == 0 {
        let rest = t[2..].join(" ");
        rep("no status", format!("{} {rest}", t[0]));
        for s in ["!", "**", "x", "*x", "#", "-"] {
            rep("bad status", format!("{} {s} {rest}", t[0]));
        }
        for d in ["2020/05", "2020/00/01", "2020/02/30", "2020-05-01", "5/1/2020x", "20/20/20", "2020/05/32"] {
            rep("bad date", format!("{d} {} {rest}", t[1]));
        }
        rep("unclosed bracket", format!("{} {} x [y", t[0], t[1]));
        rep("lone closing bracket", format!("{} {} ]x[", t[0], t[1]));
    } else if posting && t[0] == "envelope" {
        rep("undefined account", format!("    envelope {}z {}", t[1], t[2..].join(" ")));
        rep("undefined account", format!("    envelope nosuch {}", t[2..].join(" ")));
        rep("unreadable amount", format!("    envelope {} {} x", t[1], t[2]));
        rep("unreadable amount", format!("    envelope {} {} 1.2.3", t[1], t[2]));
        rep("no amount", format!("    envelope {} {}", t[1], t[2]));
        rep("no name", format!("    envelope {}", t[1]));
        rep("other currency", format!("    envelope {} {} 5 XAU", t[1], t[2]));
    } else if posting {
        for a in [format!("{}z", t[0]), "nosuch".into(), t[0].to_uppercase(), format!(":{}", t[0]), t[0].replacen(':', ".", 1)] {
            rep("undefined account", format!("    {a}    {}", t[1..].join(" ")));
        }
        for a in ["five", "1.2.3", "-", "1-2", "$", "--", ".", "5 $ x", "5 @ x", "5 BTC @ ", "5 BTC = y", "5 BTC @ 1.2.3"] {
            rep("unreadable amount", format!("    {}    {a}", t[0]));
        }
        if !has_blank && !mixed {
            let n: f64 = t[1].trim_start_matches('$').parse().unwrap();
            let s = if t[1].starts_with('$') { "$" } else { "" };
            for dlt in [0.01, -0.01, 1.0, -2.0 * n, 0.0078125] {
                rep("unbalanced", format!("    {}    {s}{}", t[0], n + dlt));
            }
        } else if has_blank && t.len() > 1 {
            rep("second blank", format!("    {}", t[0]));
        }
    } else if ind == 4 {
        let name = t[1];
        for f in ["due every blue moon", "due every other Friday", "due every other 15th", "due every year", "due every", "due", "by 2020/02/30", "by", "sometimes", "due every other blue moon starting 2020/01/01", "due every year starting 2020/02/30", "due every 5th starting soon", ""] {
            rep("bad frequency", format!("    {} {name} {f}", t[0]));
        }
        for p in ["color red", "amount", "for", "funding", "funding lazy", "amount many", "for a b", "due every 5th", "amont 5"] {
            v.push((format!("bad property `{p}` first"), vec![l.into(), format!("        {p}")]));
        }
    } else {
        for p in ["color red", "amount", "for", "funding", "funding lazy", "amount many", "for a b", "starting 2020/01/01"] {
            v.push((format!("bad property `{p}` before"), vec![format!("        {p}"), l.into()]));
            v.push((format!("bad property `{p}` after"), vec![l.into(), format!("        {p}")]));
        }
        v.push(("property without a value".into(), vec![format!("        {}", t[0])]));
        v.push(("misspelled property".into(), vec![format!("        {}s {}", t[0], t[1..].join(" "))]));
    }
    if posting {
        v.push(("undefined account in one more posting".into(), vec![l.into(), "    nosuch    0".into()]));
        v.push(("undefined account in one more posting before".into(), vec!["    nosuch    0".into(), l.into()]));
        v.push(("undefined account in one more envelope posting".into(), vec![l.into(), "    envelope nosuch e 1".into()]));
        if has_blank {
            v.push(("one more blank".into(), vec![l.into(), "    assets:many".into()]));
        } else if !mixed {
            v.push(("one more posting, unbalanced".into(), vec![l.into(), "    assets:many    0.5".into()]));
        }
    }
    v
}
/// all (line, replacement) of the journal
fn all_line_faults(b: &[String]) -> Vec<(String, usize, Vec<String>)> {
    let mut out = vec![];
    let mut start = 0;
    while start < b.len() {
        let end = (start + 1..b.len()).find(|i| !b[*i].starts_with(' ')).unwrap_or(b.len());
        let posts: Vec<&String> = b[start + 1..end].iter().filter(|l| !l.trim().starts_with("envelope ")).collect();
        let has_blank = posts.iter().any(|l| l.split_whitespace().count() == 1);
        let mut syms: Vec<bool> = posts.iter().filter(|l| l.split_whitespace().count() > 1).map(|l| l.contains('$')).collect();
        syms.dedup();
        let mixed = syms.len() > 1 || posts.iter().any(|l| l.contains('@'));
        for k in start..end {
            for (w, r) in line_faults(&b[k], has_blank, mixed) {
                out.push((w, k, r));
            }
        }
        start = end;
    }
    out
}

/// what a slip of the finger makes of a word (other than its case)
pub fn misspelt(w: &str) -> Vec<String> {
    let c: Vec<char> = w.chars().collect();
    let n = c.len();
    let s = |a: &[char], m: &str, b: &[char]| format!("{}{m}{}", a.iter().collect::<String>(), b.iter().collect::<String>());
    let mut v = vec![];
    for i in 0..n {
        v.push(s(&c[..i], "", &c[i + 1..]));
        v.push(s(&c[..=i], "", &c[i..]));
        v.push(s(&c[..i], "x", &c[i + 1..]));
        v.push(s(&c[..i], "_", &c[i..]));
        v.push(s(&c[..i], "", &[]));
        v.push(s(&[], "", &c[i..]));
        if i + 1 < n {
            v.push(s(&c[..i], &format!("{}{}", c[i + 1], c[i]), &c[i + 2..]));
        }
    }
    for t in ["s", "x", "es", ":", "d", "y", "-", "'s", "e", "é", "ing"] {
        v.push(format!("{w}{t}"));
    }
    for t in ["x", "a", ":", "-", "un", "#", "!", "*", "/", "~", "+", "'", "%", ".", "--", "@", "$", "é"] {
        v.push(format!("{t}{w}"));
    }
    v.sort();
    v.dedup();
    v.retain(|x| !x.is_empty() && !x.eq_ignore_ascii_case(w));
    v
}
/// every keyword, misspelt: (keyword, what it became, the items)
fn misspellings() -> Vec<(String, String, String)> {
    let env = |kind: &str, freq: &str, am: &str, fo: &str, fu: &str, m: &str| format!("account assets:new\n    {kind} e {freq}\n        {am} 5\n        {fo} income:job\n        {fu} {m}\n");
    let e = |freq: &str| env("expense", freq, "amount", "for", "funding", "aggressive");
    let days = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", "mon", "tue", "wed", "thu", "fri", "sat", "sun"];
    let mut out = vec![];
    let mut add = |w: &str, f: &dyn Fn(&str) -> String| {
        for x in misspelt(w) {
            if !days.contains(&x.as_str()) {
                out.push((w.to_string(), x.clone(), f(&x)));
            }
        }
    };
    let d15 = "due every 15th";
    add("account", &|x| format!("{x} assets:new\n"));
    add("include", &|x| format!("{x} inc.sfox\n"));
    add("currency", &|x| format!("{x} $\n"));
    add("date_format", &|x| format!("{x} %Y/%m/%d\n"));
    add("expense", &|x| env(x, d15, "amount", "for", "funding", "manual"));
    add("goal", &|x| env(x, d15, "amount", "for", "funding", "manual"));
    add("amount", &|x| env("goal", d15, x, "for", "funding", "manual"));
    add("for", &|x| env("expense", d15, "amount", x, "funding", "manual"));
    add("funding", &|x| env("expense", d15, "amount", "for", x, "manual"));
    for m in ["aggressive", "conservative", "manual"] {
        add(m, &|x| env("goal", d15, "amount", "for", "funding", x));
    }
    for d in days {
        add(d, &|x| e(&format!("due every {x}")));
        add(d, &|x| e(&format!("due every other {x} starting 2020/05/01")));
    }
    add("year", &|x| e(&format!("due every {x} starting 2020/02/20")));
    add("other", &|x| e(&format!("due every {x} friday starting 2020/02/20")));
    add("every", &|x| e(&format!("due {x} friday")));
    add("due", &|x| e(&format!("{x} every friday")));
    add("starting", &|x| e(&format!("due every other friday {x} 2020/02/20")));
    add("by", &|x| e(&format!("{x} 2021/02/20")));
    add("envelope", &|x| format!("2020/05/06 * slip\n    {x} assets:checking food 4\n"));
    for a in ["assets:checking", "income:job"] {
        add(a, &|x| format!("2020/05/06 * slip\n    {x}    4\n    assets:other\n"));
        add(a, &|x| format!("2020/05/06 * slip\n    assets:other    4\n    {x}\n"));
        add(a, &|x| format!("2020/05/06 * slip\n    envelope {x} food 4\n"));
    }
    for c in (33u8..127).map(|c| c as char).filter(|c| !"*~?".contains(*c)) {
        out.push(("status".into(), c.to_string(), format!("2020/05/06 {c} x\n    assets:checking    5\n    income:job\n")));
        out.push(("status".into(), format!("*{c}"), format!("2020/05/06 *{c} x\n    assets:checking    5\n    income:job\n")));
    }
    // words that are none of the keywords
    for w in ["none", "no", "off", "auto", "automatic", "default", "never", "always", "yes", "on", "true", "false", "0", "1", "-", "*", "daily", "weekly", "full", "max", "slow", "fast", "hand", "moderate", "progressive"] {
        out.push(("funding method".into(), w.into(), env("expense", d15, "amount", "for", "funding", w)));
        out.push(("property".into(), w.into(), env("expense", d15, "amount", w, "funding", "manual")));
        out.push(("kind of envelope".into(), w.into(), env(w, d15, "amount", "for", "funding", "manual")));
        out.push(("directive".into(), w.into(), format!("{w} assets:new\n")));
    }
    for w in ["day", "daily", "week", "weekly", "month", "monthly", "quarter", "weekend", "weekday", "fortnight", "morning", "january", "tomorrow", "first", "last", "other", "third day"] {
        out.push(("frequency".into(), w.into(), e(&format!("due every {w}"))));
        out.push(("frequency".into(), format!("other {w}"), e(&format!("due every other {w} starting 2020/02/20"))));
    }
    // the date of an entry, a character more or less
    for d in ["2020/05/06", "2020/12/31"] {
        for i in 0..=d.len() {
            for c in ["-", "x", "/", ".", "99"] {
                out.push(("date".into(), format!("{c} at {i}"), format!("{}{c}{} * x\n    assets:checking    5\n    income:job\n", &d[..i], &d[i..])));
            }
        }
    }
    // layouts that chrono reads, or comments: not judged
    out.retain(|x| !(x.0 == "date" && (x.1 == "99 at 0" || x.1 == "- at 0")) && !x.2.contains("//") && !(x.0 == "status" && (x.1 == ";" || x.1 == "*;")));
    out
}

/// Two envelopes of one kind and name anywhere among many of an account.
fn twins(h: &Harness) {
    let mut v = vec![];
    for n in 2..=if h.thorough { 24usize } else { 10 } {
        for y in 1..n {
            for x in 0..y {
                v.push((n, x, y));
            }
        }
    }
    for n in [17, 33, 64, 65, 100] {
        v.extend([(n, 0, n - 1), (n, 0, 1), (n, n / 2, n - 1), (n, n - 2, n - 1), (n, 3, n / 2)]);
    }
    h.explore("two envelopes alike among many of an account: number x places x kind x due dates", v.len() * 3 * 2, |ctx, i| {
        let d = digits(i, &[v.len(), 3, 2]);
        let (n, x, y) = v[d[0]];
        let mut t = String::from("account assets:x\n");
        for k in 0..n {
            let goal = match d[1] {
                0 => false,
                1 => true,
                _ => k % 2 == 1 && k != x && k != y,
            };
            let name = if k == y { x } else { k };
            t += &format!("    {} e{name} {}\n        amount {}\n", if goal { "goal" } else { "expense" }, if d[2] == 0 || k % 3 == 0 { "no date" } else { "due every 5th" }, k + 1);
        }
        t += "account assets:y\n    expense e0 due every 5th\n        amount 5\n";
        ctx.put(JF, &t);
        let r = ctx.run(&req(TODAY, &[["e", "b", "r"][i % 3], "-f", JF]));
        need_refused(ctx, &r, &format!("an account of {n} envelopes where numbers {x} and {y} are alike"))?;
        ctx.need(ctx.get(JF) == t, || "the journal was changed".into())?;
        ctx.t.traces += 1;
        ctx.state(&(n, x, y, d[1]));
        ctx.outcome("duplicate far apart");
        Ok(())
    });
}
pub fn c03(h: &Harness) -> i32 {
    let b = base();
    let fs = faults();
    let np = b.len() + 1;
    // 0: in the main file; 1: in an included file, with what follows outside; 2: nested twice; 3: everything from
    // the fault on is in the included file; 4: in a file of another directory
    let places = 5;
    h.explore("faults x positions x places x subcommands x funding on/off", fs.len() * np * places, |ctx, i| {
        let d = digits(i, &[np, places, fs.len()]);
        let (what, text) = fs[d[2]];
        let mut it: Vec<String> = b.clone();
        put_import(ctx);
        ctx.put("dir/.keep", "");
        match d[1] {
            0 => it.insert(d[0], text.to_string()),
            1 => {
                ctx.put("inc.sfox", text);
                it.insert(d[0], "include inc.sfox\n".into());
            }
            2 => {
                ctx.put("inc.sfox", "include inc2.sfox\n");
                ctx.put("inc2.sfox", text);
                it.insert(d[0], "include inc.sfox\n".into());
            }
            3 => {
                let rest: String = it.drain(d[0]..).collect();
                ctx.put("inc.sfox", &format!("{text}{rest}"));
                it.push("include inc.sfox\n".into());
            }
            _ => {
                ctx.put("dir/inc.sfox", &text.replace("include dir", "include ."));
                it.insert(d[0], "include dir/inc.sfox\n".into());
            }
        }
        ctx.put(JF, &it.concat());
        let before = ctx.srv.snapshot();
        for s in SUBS {
            for n in [false, true] {
                let mut a = s.to_vec();
                a.extend(["-f", JF]);
                if n {
                    a.push("-n");
                }
                let r = ctx.run(&req(TODAY, &a));
                need_refused(ctx, &r, &format!("`{}` on a journal with a fault ({what})", a.join(" ")))?;
                ctx.need(ctx.srv.snapshot() == before, || format!("`{}` refused a journal ({what}) but changed a file", a.join(" ")))?;
                ctx.t.traces += 1;
                ctx.state(&(what, r.err.lines().next().unwrap_or("").to_string()));
            }
        }
        ctx.outcome(what);
        ctx.sample(|| format!("{what} at item {} place {}", d[0], d[1]));
        Ok(())
    });
    // a fault in a line
    let lb = line_base();
    let lf = all_line_faults(&lb);
    h.explore("every line of a larger journal x every fault that can be put into it", lf.len(), |ctx, i| {
        let (w, k, r) = &lf[i];
        let mut t = lb.clone();
        t.splice(*k..*k + 1, r.clone());
        ctx.put(JF, &(t.join("\n") + "\n"));
        let before = ctx.srv.snapshot();
        for s in ["b", "e", "r"] {
            let res = ctx.run(&req(TODAY, &[s, "-f", JF]));
            need_refused(ctx, &res, &format!("{w} in line {} ({:?})", k + 1, lb[*k]))?;
            ctx.need(ctx.srv.snapshot() == before, || "a refused journal was changed".into())?;
            ctx.t.traces += 1;
            ctx.state(&(w, k, res.err.lines().next().unwrap_or("").to_string()));
        }
        ctx.outcome(w);
        Ok(())
    });
    h.explore("control: the larger journal without a fault", 3, |ctx, i| {
        ctx.put(JF, &(lb.join("\n") + "\n"));
        let r = ctx.run(&req(TODAY, &[["b", "e", "r"][i], "-f", JF]));
        need_ok(ctx, &r, "a valid journal")
    });
    let ms = misspellings();
    h.explore("every keyword, account and status misspelt in every way", ms.len() * 2, |ctx, i| {
        let (w, x, t) = &ms[i / 2];
        ctx.put("inc.sfox", "");
        let mut it = b.clone();
        it.insert(if i % 2 == 0 { it.len() } else { 4 }, t.clone());
        ctx.put(JF, &it.concat());
        let before = ctx.srv.snapshot();
        for s in ["b", "e", "r"] {
            let res = ctx.run(&req(TODAY, &[s, "-f", JF]));
            need_refused(ctx, &res, &format!("`{w}` misspelt as `{x}` in {t:?}"))?;
            ctx.need(ctx.srv.snapshot() == before, || "a refused journal was changed".into())?;
            ctx.t.traces += 1;
        }
        ctx.state(&(w, x));
        ctx.outcome(&format!("`{w}` misspelt"));
        Ok(())
    });
    // an envelope in a journal of many: the fault is the k-th of n items, of n envelopes, of n postings
    let big = [1usize, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257];
    h.explore("one fault among many entries, postings, envelopes, properties and accounts", big.len() * 14 * 4, |ctx, i| {
        let d = digits(i, &[big.len(), 14, 4]);
        let n = big[d[0]];
        let k = [0, n / 2, n - 1, n * 2 / 3][d[2]];
        let mut t = b.concat();
        let mut items: Vec<String> = (0..n).map(|j| match d[1] {
            0..=3 | 12 => format!("2020/04/{:02} * e{j}\n    assets:checking    5\n    income:job    -5\n", 1 + j % 28),
            4..=6 | 13 => format!("    assets:checking    {j}\n    income:job    -{j}\n"),
            7..=9 => format!("    expense n{j} due every 5th\n        amount 5\n"),
            10 => format!("account expenses:n{j}\n"),
            _ => format!("        for expenses:n{j}\n"),
        }).collect();
        items[k] = match d[1] {
            0 => "2020/04/05 * bad\n    assets:checking    5\n    income:job    -5.25\n".into(),
            1 => "2020/04/05 * bad\n    assets:checking    5\n    income:jobs    -5\n".into(),
            2 => "2020/04/31 * bad\n    assets:checking    5\n    income:job    -5\n".into(),
            3 => "2020/04/05 * bad\n    assets:checking\n    income:job\n".into(),
            4 => "    assets:nosuch    0\n".into(),
            5 => "    assets:checking    0.25\n".into(),
            6 => "    assets:checking\n    income:job\n".into(),
            7 => format!("    expense n{} due every 5th\n        amount 5\n", (k + 1) % (n + 1)),
            8 => "    expense bad due every moon\n        amount 5\n".into(),
            9 => "    expense bad due every 5th\n        amout 5\n".into(),
            10 => "acount expenses:bad\n".into(),
            11 => "        fro expenses:n1\n".into(),
            12 => "2020/04/05 * bad\n    envelope assets:checking food $1\n".into(),
            _ => "    assets:checking    1.2.3\n".into(),
        };
        if d[1] == 7 {
            // a copy of the next one (the last one gets a copy of itself)
            items.push(format!("    expense n{} due every 5th\n        amount 5\n", (k + 1) % (n + 1)));
        }
        t += match d[1] {
            4..=6 | 13 => "2020/04/05 * many\n",
            7..=9 => "account assets:many\n",
            11 => "account assets:many\n    expense n due every 5th\n        amount 5\n",
            _ => "",
        };
        t += &items.concat();
        ctx.put(JF, &t);
        let res = ctx.run(&req(TODAY, &[["b", "e", "r"][i % 3], "-f", JF]));
        need_refused(ctx, &res, &format!("{:?} as number {k} of {n}", items[k]))?;
        ctx.need(ctx.get(JF) == t, || "a refused journal was changed".into())?;
        ctx.t.traces += 1;
        ctx.state(&(d[1], n, k));
        Ok(())
    });
    // journals that look faulty and are not
    super::wide::accepted(h);
    super::varied::refused(h);
    super::amounts::not_amounts(h);
    twins(h);
    // envelopes of one account: refused exactly when two of a kind have the same name
    for len in 2..=if h.thorough { 5usize } else { 4 } {
        h.explore(&format!("all sequences of {len} envelopes over two kinds and three names, in one definition of the account or in two"), 6usize.pow(len as u32) * len, |ctx, i| {
            let d = digits(i / len, &vec![6; len]);
            // the account may be defined in two parts
            let mut t = String::from("account assets:x\n");
            for (j, k) in d.iter().enumerate() {
                if j > 0 && j == i % len {
                    t += "account income:i\n2024/01/01 * x\n    assets:x    5\n    income:i\naccount assets:x\n";
                }
                t += &format!("    {} {} due every 5th\n        amount 5\n", ["expense", "goal"][k / 3], ["a", "b", "ab"][k % 3]);
            }
            t += "account assets:y\n    expense a due every 5th\n        amount 5\n";
            let dup = (0..len).any(|x| (0..x).any(|y| d[x] == d[y]));
            // one name for an expense and a goal: not judged
            let same = (0..len).any(|x| (0..x).any(|y| d[x] != d[y] && d[x] % 3 == d[y] % 3));
            ctx.put(JF, &t);
            let r = ctx.run(&req(TODAY, &["e", "-f", JF]));
            if dup {
                need_refused(ctx, &r, "an account with a duplicate envelope")?;
                ctx.outcome("duplicate");
            } else if !same {
                need_ok(ctx, &r, "an account without a duplicate envelope")?;
                ctx.outcome("no duplicate");
            }
            ctx.need(ctx.get(JF) == t, || "the journal was changed".into())?;
            ctx.t.traces += 1;
            ctx.state(&d);
            Ok(())
        });
    }
    // two faults at once
    let few: Vec<usize> = (0..fs.len()).filter(|i| h.thorough || i % 4 == 0).collect();
    let m = few.len();
    h.explore("pairs of faults", m * m, |ctx, i| {
        let d = digits(i, &[m, m]);
        let mut it = b.clone();
        it.insert(3, fs[few[d[0]]].1.to_string());
        it.push(fs[few[d[1]]].1.to_string());
        ctx.put("dir/.keep", "");
        ctx.put(JF, &it.concat());
        let before = ctx.srv.snapshot();
        for s in ["b", "e", "r"] {
            let r = ctx.run(&req(TODAY, &[s, "-f", JF]));
            need_refused(ctx, &r, "a journal with two faults")?;
            ctx.need(ctx.srv.snapshot() == before, || "a refused journal was changed".into())?;
            ctx.t.traces += 1;
        }
        Ok(())
    });
    // the journal itself
    h.explore("unreadable journal files", 5 * 6 * 2, |ctx, i| {
        let d = digits(i, &[5, 6, 2]);
        put_import(ctx);
        ctx.put("dir/.keep", "");
        let f = match d[0] {
            0 => "missing.sfox",
            1 => "dir",
            2 => {
                let mut t = base().concat().into_bytes();
                t.extend(b"2020/05/06 * caf\xe9\n    assets:checking 5\n    income:job\n");
                ctx.put_bytes(JF, &t);
                JF
            }
            3 => "dir/missing.sfox",
            _ => {
                ctx.put(JF, &format!("include bad.sfox\n{}", base().concat()));
                ctx.put_bytes("bad.sfox", b"; \xff\xfe\n");
                JF
            }
        };
        let before = ctx.srv.snapshot();
        let mut a = SUBS[d[1]].to_vec();
        a.extend(["-f", f]);
        if d[2] == 1 {
            a.push("-n");
        }
        let r = ctx.run(&req(TODAY, &a));
        need_refused(ctx, &r, "an unreadable journal file")?;
        ctx.need(ctx.srv.snapshot() == before, || "files changed although the journal could not be read".into())?;
        ctx.t.traces += 1;
        Ok(())
    });
    // control: without a fault the same journals are accepted, report and fund
    h.explore("control: the journal without a fault", 6, |ctx, i| {
        put_import(ctx);
        ctx.put(JF, &b.concat());
        let mut a = SUBS[i].to_vec();
        a.extend(["-f", JF]);
        let r = ctx.run(&req(TODAY, &a));
        ctx.outcome(&format!("control {}: stdout {} bytes, stderr {} bytes, journal grew: {}", SUBS[i][0], r.out.len(), r.err.len(), ctx.get(JF).len() > b.concat().len()));
        Ok(())
    });
    if !h.stop() {
        h.explore("probe: balance assertions", 1, |ctx, _| {
            ctx.put(JF, "account assets:a\naccount income:i\n2020/01/01 * one\n    assets:a  5 ! 77\n    income:i  -5\n");
            let r = report(ctx, TODAY, "b");
            if r.err.is_empty() {
                if !h.known("balance-assertion") {
                    return ctx.fail("a false balance assertion is accepted");
                }
                h.known_hit("a false balance assertion (`assets:a  5 ! 77` as the first posting) is accepted");
            }
            Ok(())
        });
    }
    h.finish(
        "every line of a journal of 60 lines x every fault that applies to it; all sequences of 2-4 (thorough: 5) envelopes; 64 kinds of fault at every item boundary of a journal with every construct, in 5 places (main file, included, nested, tail included, other directory), under all 6 subcommands with and without funding; every keyword, account, status and date misspelt in every way; one fault among many items; wide journals accepted; stdout, stderr and every byte of every file checked; a state is a distinct (fault, first line of the explanation)",
        &["faults are those listed in mc/src/checks/layout.rs"],
    )
}

// ------------------------------------------------------------------------------------------------ C04
fn c04_bases() -> Vec<Vec<String>> {
    let lines = |s: &str| s.lines().map(String::from).collect::<Vec<_>>();
    let mut v = vec![lines(&base().concat())];
    v.push(lines(
        "date_format %Y-%m-%d\ninclude inc.sfox\naccount assets:b\n    expense y due every year starting 2019-02-20\n        amount 1,000.50 CAD\n        for expenses:x\n        for expenses:y\n    goal n no date\n        amount 5\n    expense w due every Tuesday\n        amount $7\n        funding aggressive\n2020-05-01 * a/b  c [p/q]\n    assets:b    1,000.25 CAD\n    income:i\n2020-05-02 ? [x]\n    expenses:x    5 CAD\n    assets:b    -5 CAD = -4\n2020-05-03 ~\n    assets:b    $-3\n    expenses:y    $3\n    envelope assets:b w $-1\n",
    ));
    v
}
const C04_INC: &str = "account income:i\naccount expenses:x\naccount expenses:y\n";

#[derive(Clone)]
struct Edit {
    name: String,
    /// applied to a line: the lines that replace it, or None when it does not apply
    f: std::sync::Arc<dyn Fn(&str) -> Option<Vec<String>> + Send + Sync>,
}
fn edits(rules: bool) -> Vec<Edit> {
    let mut v: Vec<Edit> = vec![];
    let mut add = |n: String, f: std::sync::Arc<dyn Fn(&str) -> Option<Vec<String>> + Send + Sync>| v.push(Edit { name: n, f });
    for c in [" // c", " ; c", "//c", ";c", "   //", " ;", " // a; b", " ; a // b", "\t// [x", "  ;;", " /// 2020/01/01 * x", " ; account y", " //\t", "  ; é–字"] {
        add(format!("end of line {c:?}"), std::sync::Arc::new(move |l| Some(vec![format!("{l}{c}")])));
    }
    for c in ["", " ", "    ", "\t", "// c", "; c", "    // c", "\t; c", "    ; expense z due every 5th", "// account foo", "//", ";", "        //2020/01/01 * foo", "  ;    assets:checking 5", "/// x", "; include nosuch", "// é–字"] {
        add(format!("line after {c:?}"), std::sync::Arc::new(move |l| Some(vec![l.to_string(), c.to_string()])));
        add(format!("line before {c:?}"), std::sync::Arc::new(move |l| Some(vec![c.to_string(), l.to_string()])));
    }
    if !rules {
        for c in [" ", "   ", "\t", " \t ", "\r", " \r"] {
            add(format!("trailing {c:?}"), std::sync::Arc::new(move |l| Some(vec![format!("{l}{c}")])));
        }
        let posting = |l: &str| l.starts_with("    ") && !l.trim().starts_with("expense ") && !l.trim().starts_with("goal ") && !l.starts_with("        ");
        for c in [" ", "\t", "  ", "            ", "\t\t", " \t", "\u{3000}", "\u{a0}\u{a0}", "\u{2003} ", " \u{c}", "\u{b}"] {
            add(
                format!("indentation {c:?}"),
                std::sync::Arc::new(move |l| if l.starts_with(' ') { Some(vec![format!("{c}{}", l.trim_start())]) } else { None }),
            );
        }
        for c in [" ", "\t", "     ", "                                                            ", " \t "] {
            add(
                format!("columns {c:?}"),
                std::sync::Arc::new(move |l| {
                    if !posting(l) {
                        return None;
                    }
                    let t: Vec<&str> = l.split_whitespace().collect();
                    Some(vec![format!("    {}", t.join(c))])
                }),
            );
        }
        // after the first word of other lines
        for c in ["\t", "   ", " \t ", "                                                            "] {
            add(
                format!("after the first word {c:?}"),
                std::sync::Arc::new(move |l| {
                    if posting(l) {
                        return None;
                    }
                    let ind = &l[..l.len() - l.trim_start().len()];
                    let t: Vec<&str> = l.trim().splitn(2, ' ').collect();
                    Some(vec![format!("{ind}{}", t.join(c))])
                }),
            );
        }
    }
    v
}

pub fn c04(h: &Harness) -> i32 {
    let bases = c04_bases();
    let es = edits(false);
    let reports = |ctx: &mut Ctx, text: &str| -> Vec<Res> {
        ctx.put("inc.sfox", C04_INC);
        ctx.put(JF, text);
        ["b", "e", "r"].iter().map(|s| report(ctx, TODAY, s)).collect()
    };
    let compare = |ctx: &mut Ctx, b: &[String], text: &str, what: &dyn Fn() -> String| -> Check {
        let want = reports(ctx, &(b.join("\n") + "\n"));
        let got = reports(ctx, text);
        for (w, g) in want.iter().zip(&got) {
            ctx.need((w.status, &w.out, &w.err) == (g.status, &g.out, &g.err), || {
                format!("{}: the report changes from {} to {}", what(), show(w), show(g))
            })?;
        }
        ctx.t.traces += 1;
        ctx.state(&text);
        Ok(())
    };
    for (bi, b) in bases.iter().enumerate() {
        let n = b.len();
        h.explore(&format!("journal {bi}: every edit at every line"), n * es.len(), |ctx, i| {
            let d = digits(i, &[es.len(), n]);
            let Some(r) = (es[d[0]].f)(&b[d[1]]) else { return Ok(()) };
            let mut t = b.clone();
            t.splice(d[1]..d[1] + 1, r);
            ctx.outcome(&es[d[0]].name);
            compare(ctx, b, &(t.join("\n") + "\n"), &|| format!("{} at line {} ({:?})", es[d[0]].name, d[1] + 1, b[d[1]]))
        });
        h.explore(&format!("journal {bi}: every edit at all lines, and all line ends CRLF, without a last newline"), es.len() * 3, |ctx, i| {
            let d = digits(i, &[es.len(), 3]);
            let t: Vec<String> = b.iter().flat_map(|l| (es[d[0]].f)(l).unwrap_or(vec![l.clone()])).collect();
            let text = match d[1] {
                0 => t.join("\n") + "\n",
                1 => t.join("\r\n") + "\r\n",
                _ => t.join("\n"),
            };
            compare(ctx, b, &text, &|| format!("{} at all lines, ending {}", es[d[0]].name, d[1]))
        });
        // pairs of edits
        let few: Vec<usize> = (0..es.len()).filter(|k| if h.thorough { true } else { [0, 3, 7, 15, 20, 27, 31, 36, 50, 56].contains(k) }).collect();
        let m = few.len();
        let pairs = n * (n + 1) / 2 * m * m;
        let step = if h.thorough { 1 } else { 2 };
        h.explore(&format!("journal {bi}: pairs of edits at two lines"), pairs / step, |ctx, i| {
            let i = i * step + (if step == 2 { i % 2 } else { 0 });
            let mut d = digits(i, &[m, m, n * (n + 1) / 2]);
            let mut x = 0;
            while d[2] >= n - x {
                d[2] -= n - x;
                x += 1;
            }
            let y = x + d[2];
            let mut t = b.clone();
            let Some(r) = (es[few[d[0]]].f)(&b[y]) else { return Ok(()) };
            if x == y {
                let mut q = vec![];
                for l in r {
                    match (es[few[d[1]]].f)(&l) {
                        Some(z) => q.extend(z),
                        None => q.push(l),
                    }
                }
                t.splice(x..x + 1, q);
            } else {
                t.splice(y..y + 1, r);
                let Some(r) = (es[few[d[1]]].f)(&b[x]) else { return Ok(()) };
                t.splice(x..x + 1, r);
            }
            compare(ctx, b, &(t.join("\n") + "\n"), &|| format!("{} at line {} and {} at line {}", es[few[d[1]]].name, x + 1, es[few[d[0]]].name, y + 1))
        });
    }
    // rules files
    let rules: Vec<String> = "fields date, description, amount, kind\namount %amount%\naccount assets:checking\naccount2 expenses:food\ndate_format %Y/%m/%d\nskip 1\nstatus ~\ncomment a/b\nif coffee\n    payee %kind%/x\n    comment cup\nif tea\nmate\n    status *\n    description drink\nif zzz\n    skip 4\n"
        .lines()
        .map(String::from)
        .collect();
    let rs = edits(true);
    let import = |ctx: &mut Ctx, rules: &str| -> (Res, String) {
        ctx.put(JF, &base().concat());
        ctx.put("i.csv", "h,h,h,h\n2020/05/06,Coffee,-3,cafe\n2020/05/07,Bread,-4,shop\n2020/05/08,green mate,-5,shop\n2020/05/09,Tea/time,-6,\n");
        ctx.put("i.csv.rules", rules);
        let r = ctx.run(&req(TODAY, &["i", "-n", "-f", JF, "--csv", "i.csv"]));
        (r, sorted_entries(&ctx.get(JF)))
    };
    let n = rules.len();
    let m = rs.len();
    let base_imp = |ctx: &mut Ctx| import(ctx, &(rules.join("\n") + "\n"));
    h.explore("rules file: every edit at every line", n * m, |ctx, i| {
        let d = digits(i, &[m, n]);
        let w = base_imp(ctx);
        let Some(r) = (rs[d[0]].f)(&rules[d[1]]) else { return Ok(()) };
        let mut t = rules.clone();
        t.splice(d[1]..d[1] + 1, r);
        let g = import(ctx, &(t.join("\n") + "\n"));
        ctx.need(w == g, || format!("{} at line {} of the rules: {} becomes {}", rs[d[0]].name, d[1] + 1, w.1, g.1))?;
        ctx.t.traces += 1;
        Ok(())
    });
    h.explore("rules file: pairs of edits, edits everywhere", m * m + m, |ctx, i| {
        let w = base_imp(ctx);
        let t: Vec<String> = if i < m {
            rules.iter().flat_map(|l| (rs[i].f)(l).unwrap_or(vec![l.clone()])).collect()
        } else {
            let d = digits(i - m, &[m, m]);
            rules.iter().enumerate().flat_map(|(k, l)| (rs[d[k % 2]].f)(l).unwrap_or(vec![l.clone()])).collect()
        };
        let g = import(ctx, &(t.join("\n") + "\n"));
        ctx.need(w == g, || format!("comments in the rules change the import: {} becomes {}", w.1, g.1))?;
        ctx.t.traces += 1;
        Ok(())
    });
    // a single slash is no comment
    h.explore("single slashes", 6 * 4, |ctx, i| {
        let d = digits(i, &[6, 4]);
        let desc = ["a/b", "/", "a / b", "a/b/c", "/x", "x/"][d[0]];
        let tail = ["", " // c", " ;/", "  // /"][d[1]];
        ctx.put(JF, &format!("account assets:a\naccount e/x\n2020/01/01 * {desc}{tail}\n    assets:a  5\n    e/x  -5{tail}\n"));
        let r = report(ctx, TODAY, "r");
        need_ok(ctx, &r, "a journal with single slashes")?;
        let v = crate::outparse::register(&r.out);
        let ok = v.as_ref().is_some_and(|v| v.len() == 1 && v[0].desc == desc && v[0].from == "e/x");
        ctx.need(ok, || format!("description {desc:?} is shown as {v:?}"))?;
        ctx.t.traces += 1;
        Ok(())
    });
    h.finish(
        "two journals and one rules file that use every construct: each of ~65 comment, blank-line and layout edits at every line, at all lines, and pairs of edits at all pairs of lines (quick: 10 edits, every second pair); reports and imports must be identical to the unedited ones; a state is a distinct edited journal",
        &["column spacing is varied for postings only; comments do not occur inside words that need them"],
    )
}

/// The text of a journal with the postings of every entry sorted (their order in an appended entry means nothing).
pub fn sorted_entries(s: &str) -> String {
    let mut out = String::new();
    let mut posts: Vec<String> = vec![];
    let flush = |posts: &mut Vec<String>, out: &mut String| {
        posts.sort();
        for p in posts.drain(..) {
            out.push_str(&p);
            out.push('\n');
        }
    };
    for l in s.lines() {
        if l.starts_with(char::is_whitespace) {
            posts.push(l.split_whitespace().collect::<Vec<_>>().join(" "));
        } else {
            flush(&mut posts, &mut out);
            out.push_str(l);
            out.push('\n');
        }
    }
    flush(&mut posts, &mut out);
    out
}

// ------------------------------------------------------------------------------------------------ C05
fn c05_items() -> Vec<String> {
    [
        "account expenses:food\n",
        "account assets:c\n    expense food due every 15th\n        amount 100\n        for expenses:food\n        funding conservative\n    goal trip by 2021/01/01\n        amount 500\n        funding aggressive\n",
        "account income:job\n",
        "date_format %d.%m.%Y\n",
        "05.05.2020 * Pay [Company]\n    assets:c    300\n    income:job\n",
        "04.05.2020 ~ Groceries\n    assets:c    -20\n    expenses:food    20\n",
        "05.05.2020 ? Same day\n    assets:c    -1\n    expenses:food    1\n",
        "date_format %Y-%m-%d\n",
        "2020-05-06 ~ Save\n    envelope assets:c food 12.5\n",
        "2020-05-03 * Late\n    assets:c    -2\n    income:job    2\n",
    ]
    .map(String::from)
    .to_vec()
}
/// where an included file lives, as seen from the including one
const DIRS: [&str; 8] = ["", "sub/", "./", "sub/deep/", "sub/../", "my files/", "é  ü/a b/", "-x/"];

/// The outcome of a sequence of commands on a journal: report texts and what was appended (postings sorted).
fn observe(ctx: &mut Ctx, file: &str, cwd: &str, main: &str) -> (Vec<Res>, String) {
    let before = ctx.get(main);
    let mut rs = vec![];
    let mk = |args: &[&str]| {
        let mut q = req(TODAY, args);
        q.cwd = cwd.into();
        q
    };
    for s in ["b", "r", "e"] {
        rs.push(ctx.run(&mk(&[s, "-n", "-f", file])));
    }
    rs.push(ctx.run(&mk(&["e", "-f", file])));
    rs.push(ctx.run(&mk(&["e", "-n", "-f", file])));
    for r in &mut rs {
        r.ops.clear();
    }
    let after = ctx.get(main);
    let app = match after.strip_prefix(&before) {
        Some(x) => sorted_entries(x),
        None => format!("REWRITTEN {after}"),
    };
    (rs, app)
}
fn same(ctx: &Ctx, w: &(Vec<Res>, String), g: &(Vec<Res>, String), what: &str) -> Check {
    for (k, (a, b)) in w.0.iter().zip(&g.0).enumerate() {
        ctx.need(a == b, || format!("{what}: observation {k} differs: single file {}, split {}", show(a), show(b)))?;
    }
    ctx.need(w.1 == g.1, || format!("{what}: appended to the single file {:?}, to the split main file {:?}", w.1, g.1))
}

/// Files that include themselves, directly or not, are refused.
pub fn cycles(h: &Harness) {
    let it = c05_items();
    // files that include themselves
    let cycles: Vec<(&str, Vec<(&str, &str)>)> = vec![
        ("itself", vec![(JF, "include j.sfox\n")]),
        ("itself, spelled differently", vec![("sub/.keep", ""), (JF, "include ./sub/../j.sfox\n")]),
        ("two files", vec![(JF, "include b.sfox\n"), ("b.sfox", "include j.sfox\n")]),
        ("three files", vec![(JF, "include b.sfox\n"), ("b.sfox", "include sub/c.sfox\n"), ("sub/c.sfox", "include ../j.sfox\n")]),
        ("an included file itself", vec![(JF, "include sub/b.sfox\n"), ("sub/b.sfox", "include b.sfox\n")]),
        ("an included file through a parent directory", vec![(JF, "include sub/b.sfox\n"), ("sub/b.sfox", "include ../sub/b.sfox\n")]),
        ("two included files", vec![(JF, "include b.sfox\n"), ("b.sfox", "include c.sfox\n"), ("c.sfox", "include b.sfox\n")]),
    ];
    let subs = ["b", "e", "r", "s"];
    h.explore("include cycles", cycles.len() * 4 * 2 * 3, |ctx, k| {
        let d = digits(k, &[cycles.len(), 4, 2, 3]);
        let (what, files) = &cycles[d[0]];
        for (f, t) in files {
            let t = if *f == JF {
                match d[3] {
                    0 => t.to_string(),
                    1 => format!("{}{t}", it.concat()),
                    _ => format!("{t}{}", it.concat()),
                }
            } else {
                t.to_string()
            };
            ctx.put(f, &t);
        }
        let before = ctx.srv.snapshot();
        let mut a = vec![subs[d[1]], "-f", JF];
        if d[2] == 1 {
            a.push("-n");
        }
        let r = ctx.run(&req(TODAY, &a));
        need_refused(ctx, &r, &format!("a journal that includes {what}"))?;
        ctx.need(ctx.srv.snapshot() == before, || "a refused journal was changed".into())?;
        ctx.t.traces += 1;
        ctx.outcome("cycle refused");
        Ok(())
    });
}
pub fn c05(h: &Harness) -> i32 {
    let it = c05_items();
    let n = it.len();
    // the single-file observation, once (it does not depend on the worker)
    let single: std::sync::Mutex<Option<(Vec<Res>, String)>> = std::sync::Mutex::new(None);
    h.explore("the journal as a single file", 1, |ctx, _| {
        ctx.put(JF, &it.concat());
        let w = observe(ctx, JF, "", JF);
        ctx.outcome(&format!("single file: appended {} bytes", w.1.len()));
        *single.lock().unwrap() = Some(w);
        Ok(())
    });
    let Some(single) = single.into_inner().unwrap() else { return h.finish("not run", &[]) };
    let base_ok = single.0.iter().all(|r| r.err.is_empty());
    h.bound(format!("single file accepted: {base_ok}"));
    let mut runs = vec![];
    for i in 0..n {
        for j in i + 1..=n {
            runs.push((i, j));
        }
    }
    let unchanged = |ctx: &Ctx, files: &[(String, String)]| -> Check {
        for (f, t) in files {
            ctx.need(ctx.get(f) == *t, || format!("included file {f} was changed"))?;
        }
        Ok(())
    };
    let nl = [true, false];
    h.explore("one included run of items x directory x last newline", runs.len() * DIRS.len() * 2, |ctx, k| {
        let d = digits(k, &[runs.len(), DIRS.len(), 2]);
        let (i, j) = runs[d[0]];
        let f = format!("{}inc.sfox", DIRS[d[1]]);
        ctx.put("sub/.keep", "");
        let mut inc = it[i..j].concat();
        if !nl[d[2]] {
            inc.pop();
        }
        ctx.put(&f, &inc);
        ctx.put(JF, &format!("{}include {f}\n{}", it[..i].concat(), it[j..].concat()));
        let g = observe(ctx, JF, "", JF);
        same(ctx, &single, &g, &format!("items {i}..{j} in {f}"))?;
        unchanged(ctx, &[(f, inc)])?;
        ctx.t.traces += 1;
        ctx.state(&(i, j, d[1], d[2]));
        Ok(())
    });
    // nested: a run inside a run
    let mut nests = vec![];
    for &(i, j) in &runs {
        for a in i..j {
            for b in a + 1..=j {
                if h.thorough || (i + j + a + b) % 3 == 0 || (a, b) == (i, j) {
                    nests.push((i, j, a, b));
                }
            }
        }
    }
    // (directory of the first file, path of the second as written in the first, where that is)
    let nd: [(&str, &str, &str); 6] = [("", "n.sfox", "n.sfox"), ("sub/", "n.sfox", "sub/n.sfox"), ("sub/", "../n.sfox", "n.sfox"), ("sub/", "deep/n.sfox", "sub/deep/n.sfox"), ("", "sub/n.sfox", "sub/n.sfox"), ("sub/deep/", "../../o/n.sfox", "o/n.sfox")];
    h.explore("a run included inside an included run x directories", nests.len() * nd.len(), |ctx, k| {
        let d = digits(k, &[nd.len(), nests.len()]);
        let (i, j, a, b) = nests[d[1]];
        let (dir, written, at) = nd[d[0]];
        let f = format!("{dir}inc.sfox");
        let inner = it[a..b].concat();
        let outer = format!("{}include {written}\n{}", it[i..a].concat(), it[b..j].concat());
        ctx.put("sub/.keep", "");
        ctx.put(at, &inner);
        ctx.put(&f, &outer);
        ctx.put(JF, &format!("{}include {f}\n{}", it[..i].concat(), it[j..].concat()));
        let g = observe(ctx, JF, "", JF);
        same(ctx, &single, &g, &format!("items {i}..{j} in {f}, of those {a}..{b} in {at}"))?;
        unchanged(ctx, &[(f, outer), (at.to_string(), inner)])?;
        ctx.t.traces += 1;
        ctx.state(&(i, j, a, b, d[0]));
        Ok(())
    });
    // two runs in two files of different directories, one after the other
    let mut two = vec![];
    for &(i, j) in &runs {
        for &(a, b) in &runs {
            if j <= a && (h.thorough || (i + j + a + b) % 2 == 0) {
                two.push((i, j, a, b));
            }
        }
    }
    h.explore("two included runs x directories", two.len() * 4, |ctx, k| {
        let d = digits(k, &[4, two.len()]);
        let (i, j, a, b) = two[d[1]];
        let (f, g) = [("sub/p.sfox", "q.sfox"), ("p.sfox", "sub/q.sfox"), ("sub/p.sfox", "o/q.sfox"), ("sub/p.sfox", "sub/q.sfox")][d[0]];
        ctx.put(f, &it[i..j].concat());
        ctx.put(g, &it[a..b].concat());
        ctx.put(JF, &format!("{}include {f}\n{}include {g}\n{}", it[..i].concat(), it[j..a].concat(), it[b..].concat()));
        let r = observe(ctx, JF, "", JF);
        same(ctx, &single, &r, &format!("items {i}..{j} in {f}, {a}..{b} in {g}"))?;
        ctx.t.traces += 1;
        ctx.state(&(i, j, a, b, d[0], "two"));
        Ok(())
    });
    // a file included more than once, at any depth, counts as often
    h.explore("one file included again and again: depth x times x directory x where in its includers", 6 * 4 * 3 * 3, |ctx, k| {
        let d = digits(k, &[6, 4, 3, 3]);
        let (depth, times) = (d[0], d[1] + 1);
        let dir = ["", "d/", "é e/"][d[2]];
        let head = "account assets:a\naccount income:i\n";
        let leaf = "2020/01/02 * leaf\n    assets:a    3\n    income:i\n";
        let own = |l: usize| format!("2020/01/0{} * own {l}\n    assets:a    {}\n    income:i\n", l + 3, 100 * (l + 1));
        // every file on the way holds an entry of its own and includes the leaf; the last one only the leaf
        ctx.put(&format!("{dir}leaf.sfox"), leaf);
        let body = |l: usize, next: &str, leaf_at: &str| {
            let ls = format!("include {leaf_at}\n").repeat(times);
            match d[3] {
                0 => format!("{}{ls}{next}", own(l)),
                1 => format!("{next}{}{ls}", own(l)),
                _ => format!("{ls}{next}{ls}{}", own(l)),
            }
        };
        for l in 1..=depth {
            let next = if l < depth { format!("include l{}.sfox\n", l + 1) } else { String::new() };
            ctx.put(&format!("{dir}l{l}.sfox"), &body(l, &next, "leaf.sfox"));
        }
        let next = if depth > 0 { format!("include {dir}l1.sfox\n") } else { String::new() };
        ctx.put(JF, &format!("{head}{}", body(0, &next, &format!("{dir}leaf.sfox"))));
        let files = depth + 1;
        let want = (files * times * if d[3] == 2 { 2 } else { 1 } * 3 + (1..=files).map(|l| 100 * l).sum::<usize>()) as f64;
        let r = report(ctx, TODAY, "b");
        need_ok(ctx, &r, "a file included more than once")?;
        let bal = op::balance(&r.out).and_then(|v| v.into_iter().find(|x| x.0 == "assets:a")).map(|x| x.1).unwrap_or_default();
        ctx.need(op::same_pool(&bal, &Pool::from([(String::new(), want)])), || format!("the balance is {bal:?}, expected {want}"))?;
        ctx.t.traces += 1;
        ctx.state(&(k, "again"));
        ctx.outcome("included again");
        Ok(())
    });
    // every item in a file of its own; chains of includes
    h.explore("every item in its own file; chains; ways to name the journal", 4 * 12, |ctx, k| {
        let d = digits(k, &[4, 12]);
        let main = ["j.sfox", "sub/j.sfox"][(d[1] >= 8) as usize];
        let pre = if d[1] >= 8 { "sub/" } else { "" };
        let text = match d[0] {
            0 => it.concat(),
            1 => {
                for (i, t) in it.iter().enumerate() {
                    ctx.put(&format!("{pre}i{i}.sfox"), t);
                }
                (0..n).map(|i| format!("include i{i}.sfox\n")).collect()
            }
            2 => {
                // a chain: each file holds one item and includes the next one, in ever deeper directories
                let mut dir = pre.to_string();
                for (i, t) in it.iter().enumerate() {
                    let next = if i + 1 < n { format!("include d{}/c{}.sfox\n", i + 1, i + 1) } else { String::new() };
                    ctx.put(&format!("{dir}d{i}/c{i}.sfox"), &format!("{t}{next}"));
                    dir = format!("{dir}d{i}/");
                }
                "include d0/c0.sfox\n".into()
            }
            _ => {
                // up and down: files alternate between two directories
                for (i, t) in it.iter().enumerate() {
                    let next = if i + 1 < n { format!("include ../{}/c{}.sfox\n", ["x", "y"][(i + 1) % 2], i + 1) } else { String::new() };
                    ctx.put(&format!("{pre}{}/c{i}.sfox", ["x", "y"][i % 2]), &format!("{t}{next}"));
                }
                "include x/c0.sfox\n".into()
            }
        };
        ctx.put("sub/.keep", "");
        ctx.put("else/.keep", "");
        ctx.put(main, &text);
        let root = ctx.srv.root.to_str().unwrap().to_string();
        let (file, cwd) = match d[1] {
            0 => ("j.sfox".to_string(), ""),
            1 => ("./j.sfox".into(), ""),
            2 => (format!("{root}/j.sfox"), ""),
            3 => ("sub/../j.sfox".into(), ""),
            4 => ("../j.sfox".into(), "sub"),
            5 => (format!("{root}/j.sfox"), "sub"),
            6 => (format!("{root}/j.sfox"), "else"),
            7 => (".//j.sfox".into(), ""),
            8 => ("sub/j.sfox".into(), ""),
            9 => ("j.sfox".into(), "sub"),
            10 => ("../sub/j.sfox".into(), "else"),
            _ => ("sub/./j.sfox".into(), ""),
        };
        let g = observe(ctx, &file, cwd, main);
        same(ctx, &single, &g, &format!("split {} with -f {file} from {cwd:?}", d[0]))?;
        ctx.t.traces += 1;
        ctx.state(&(d, "names"));
        Ok(())
    });
    // long chains and many files; files of one name in different directories
    let lens: Vec<usize> = if h.thorough { (1..=130).collect() } else { (1..=20).chain([24, 31, 32, 33, 40, 48, 63, 64, 65, 100]).collect() };
    h.explore("chains of includes, many includes, files of the same name in nested directories", lens.len() * 5, |ctx, k| {
        let d = digits(k, &[lens.len(), 5]);
        let m = lens[d[0]];
        let piece = |j: usize| -> String { (0..n).filter(|i| if m <= n { i * m / n == j } else { *i == j }).map(|i| it[i].clone()).collect() };
        let main = match d[1] {
            0 => {
                // a chain in one directory
                for j in 0..m {
                    ctx.put(&format!("c{j}.sfox"), &format!("{}{}", piece(j), if j + 1 < m { format!("include c{}.sfox\n", j + 1) } else { String::new() }));
                }
                "include c0.sfox\n".to_string()
            }
            1 => {
                // a chain that goes through the included file first
                for j in 0..m {
                    ctx.put(&format!("c{j}.sfox"), &format!("{}{}", if j > 0 { format!("include c{}.sfox\n", j - 1) } else { String::new() }, piece(j)));
                }
                format!("include c{}.sfox\n", m - 1)
            }
            2 => {
                for j in 0..m {
                    ctx.put(&format!("c{j}.sfox"), &piece(j));
                }
                (0..m).map(|j| format!("include c{j}.sfox\n")).collect()
            }
            3 => {
                // every file is called like the journal
                let mut dir = String::new();
                for j in 0..m.min(60) {
                    dir += "j/";
                    let rest: String = if j + 1 < m.min(60) { "include j/j.sfox\n".into() } else { (j + 1..m).map(piece).collect() };
                    ctx.put(&format!("{dir}j.sfox"), &format!("{}{rest}", piece(j)));
                }
                "include j/j.sfox\n".into()
            }
            _ => {
                // files of one name, side by side
                for j in 0..m {
                    ctx.put(&format!("d{j}/j.sfox"), &format!("include sub/j.sfox\n{}", piece(j)));
                    ctx.put(&format!("d{j}/sub/j.sfox"), "");
                }
                (0..m).map(|j| format!("include d{j}/j.sfox\n")).collect()
            }
        };
        ctx.put(JF, &main);
        let g = observe(ctx, JF, "", JF);
        same(ctx, &single, &g, &format!("split {} over {m} files", d[1]))?;
        ctx.t.traces += 1;
        ctx.state(&(d, "chains"));
        Ok(())
    });
    // accounts that are defined again, a definition in any file
    let again: Vec<String> = [
        "account assets:c\n    expense food due every 15th\n        amount 100\n        for expenses:food\n        funding aggressive\n",
        "account expenses:food\naccount income:job\n",
        "2020/05/02 * Pay\n    assets:c    300\n    income:job\n",
        "account assets:c\n    expense rent due every 20th\n        amount 50\n        funding conservative\n    goal trip by 2021/01/01\n        amount 40\n        funding aggressive\n",
        "2020/05/03 * Food\n    assets:c    -5\n    expenses:food\n",
        "account assets:c\naccount income:job\n",
        "2020/05/04 ~ Save\n    envelope assets:c food 7\n    envelope assets:c rent 3\n",
    ].map(String::from).to_vec();
    let m = again.len();
    let rs2: Vec<(usize, usize)> = (0..m).flat_map(|i| (i + 1..=m).map(move |j| (i, j))).collect();
    h.explore("accounts defined again: all runs of items in an included file x a run within it", rs2.len() * (rs2.len() + 1), |ctx, k| {
        let d = digits(k, &[rs2.len(), rs2.len() + 1]);
        let (i, j) = rs2[d[0]];
        ctx.put(JF, &again.concat());
        let want = observe(ctx, JF, "", JF);
        ctx.need(want.0.iter().all(|r| r.err.is_empty()), || format!("the single file is refused: {}", show(&want.0[0])))?;
        let mut inner = again[i..j].concat();
        if d[1] > 0 {
            let (a, b) = rs2[d[1] - 1];
            if b > j - i {
                return Ok(());
            }
            inner = format!("{}include y.sfox\n{}", again[i..i + a].concat(), again[i + b..j].concat());
            ctx.put("sub/y.sfox", &again[i + a..i + b].concat());
        }
        ctx.put("sub/x.sfox", &inner);
        ctx.put(JF, &format!("{}include sub/x.sfox\n{}", again[..i].concat(), again[j..].concat()));
        let got = observe(ctx, JF, "", JF);
        same(ctx, &want, &got, "accounts defined again")?;
        ctx.t.traces += 1;
        ctx.state(&(d, "again"));
        Ok(())
    });
    // ways to write the path of an include
    let ways: [(&str, &str); 12] = [
        ("./n.sfox", "n.sfox"), ("././n.sfox", "n.sfox"), ("sub/../n.sfox", "n.sfox"), ("sub/./n.sfox", "sub/n.sfox"), ("./sub/n.sfox", "sub/n.sfox"),
        ("sub/../sub/n.sfox", "sub/n.sfox"), ("sub/deep/../n.sfox", "sub/n.sfox"), ("sub/deep/../../n.sfox", "n.sfox"), ("..n.sfox", "..n.sfox"), (".n.sfox", ".n.sfox"), ("...sfox", "...sfox"), ("/", ""),
    ];
    h.explore("ways to write the path of an include x items x from the journal or from an included file", ways.len() * runs.len() * 2, |ctx, k| {
        let d = digits(k, &[ways.len(), runs.len(), 2]);
        let (i, j) = runs[d[1]];
        let (mut path, mut real) = (ways[d[0]].0.to_string(), ways[d[0]].1.to_string());
        let pre = if d[2] == 1 { "in/" } else { "" };
        if path == "/" {
            real = "sub/n.sfox".into();
            path = ctx.srv.path(&format!("{pre}{real}")).to_str().unwrap().to_string();
        }
        ctx.put(&format!("{pre}sub/deep/.keep"), "");
        ctx.put(&format!("{pre}{real}"), &it[i..j].concat());
        let text = format!("{}include {path}\n{}", it[..i].concat(), it[j..].concat());
        if d[2] == 1 {
            ctx.put("in/m.sfox", &text);
            ctx.put(JF, "include in/m.sfox\n");
        } else {
            ctx.put(JF, &text);
        }
        let g = observe(ctx, JF, "", JF);
        same(ctx, &single, &g, &format!("items {i}..{j} included by `include {}`", ways[d[0]].0))?;
        ctx.t.traces += 1;
        ctx.state(&(d, "ways"));
        Ok(())
    });
    // down through nested directories and up again, each level including a file beside it on the way up
    let depths: &[usize] = if h.thorough { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 33] } else { &[1, 2, 3, 4, 5, 6, 7, 9, 12, 17] };
    h.explore("down and up again: depth x where the journal turns x how directories are named", depths.len() * (n + 1) * 3, |ctx, k| {
        let d = digits(k, &[depths.len(), n + 1, 3]);
        let (m, turn) = (depths[d[0]], d[1]);
        let (mut down, mut up) = (vec![String::new(); m], vec![String::new(); m]);
        let step = |j: usize| match d[2] {
            0 => format!("d{j}"),
            1 => format!("../z{j}"),
            _ => format!("./d{j}/x/.."),
        };
        // where each level's files really are
        let mut dirs = vec![String::new()];
        for j in 1..m {
            let prev = dirs[j - 1].clone();
            dirs.push(match d[2] {
                1 => format!("z{j}/"),
                _ => format!("{prev}d{j}/"),
            });
            if d[2] == 2 {
                ctx.put(&format!("{}x/.keep", dirs[j]), "");
            }
        }
        // siblings of the first level can only be left from a directory
        let base = if d[2] == 1 { "first/" } else { "" };
        dirs[0] = base.into();
        for i in 0..n {
            if i < turn {
                down[i * m / turn] += &it[i];
            } else {
                let l = m - 1 - (i - turn) * m / (n - turn);
                ctx.put(&format!("{}up{i}.sfox", dirs[l]), &it[i]);
                up[l] += &format!("include up{i}.sfox\n");
            }
        }
        for j in 0..m {
            let next = if j + 1 < m { format!("include {}/l.sfox\n", step(j + 1)) } else { String::new() };
            ctx.put(&format!("{}l.sfox", dirs[j]), &format!("{}{next}{}", down[j], up[j]));
        }
        ctx.put(JF, &format!("include {base}l.sfox\n"));
        let g = observe(ctx, JF, "", JF);
        same(ctx, &single, &g, &format!("down {m} levels and up again after {turn} items, way {}", d[2]))?;
        ctx.t.traces += 1;
        ctx.state(&(d, "down and up"));
        Ok(())
    });
    // the same file included twice in a row means its text twice (entries only)
    h.explore("a file of entries included twice", 3, |ctx, k| {
        let f = ["inc.sfox", "sub/inc.sfox", "sub/../inc.sfox"][k];
        ctx.put("sub/.keep", "");
        let head: String = it[..4].concat();
        let es: String = it[4..7].concat();
        ctx.put(JF, &format!("{head}{es}{es}"));
        let w = observe(ctx, JF, "", JF);
        ctx.put(f, &es);
        ctx.put(JF, &format!("{head}include {f}\ninclude {f}\n"));
        let g = observe(ctx, JF, "", JF);
        same(ctx, &w, &g, "a file included twice")?;
        ctx.t.traces += 1;
        Ok(())
    });
    cycles(h);
    h.finish(
        "every way to move one consecutive run of a 10-item journal, a run within a run, or two runs into included files over several directories; chains; every way to name the journal; include cycles; chains and rows of up to 100 files, equal names in nested directories; trees that go down and up again; ways to write an included path; 3 reports, a funding run and the reports after it compared with the single file; a state is a distinct include tree",
        &["the journal's items are those of c05_items: accounts, envelopes, two date formats, entries out of date order"],
    )
}
