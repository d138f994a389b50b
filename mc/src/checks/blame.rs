//! C25: a refusal names what is wrong.
use crate::cal::*;
use crate::common::*;
use crate::fw::*;

const T: Day = 18400; // 2020-05-18

fn base() -> Vec<String> {
    [
        "account assets:checking\n    expense food due every 5th\n        amount 100\n        for expenses:food\n        funding aggressive\n    goal trip by 2020/09/01\n        amount 300\n",
        "account assets:other\n",
        "account income:job\n",
        "account expenses:food\n",
        "account expenses:unknown\n",
        "2020/01/02 * salary\n    assets:checking    1000\n    income:job\n",
        "2020/02/03 ? groceries [shop] // dear\n    assets:checking    -20\n    expenses:food    20\n",
        "2020/02/04 ~ saving\n    envelope assets:checking trip 25\n",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}
const HEADS: usize = 5;

const NAMES: &[&str] = &["assets:nosuch", "assets:checkin", "assets:checkings", "Assets:Checking", "ünï:çödé", "nosuch", "a.b-c_d:é", "assets:checking:sub", "expenses:a_rather_long_name_of_an_account:with:many:parts:in:it:and:more", "資産:現金", "100%:x"];
const WORDS: &[&str] = &["zork", "zörk", "Zork", "zork-zork", "lazyzork", "zork:zork", "zo_rk", "ゾーク", "zork%", "`zork`", "(zork)", "[zork]", "#zork", "+zork", "=zork", "azorkthatisquitealongwordforawordthatnobodyunderstands"];
const NEAR_TOP: &[&str] = &["Account", "ACCOUNT", "accounts", "accnt", "Include", "includes", "Date_format", "date-format", "date_formats", "Currency", "currencies", "account:", "include:", "acc", "envelope", "expense", "goal"];
const NEAR_RULE: &[&str] = &["If", "IF", "Fields", "Skip", "SKIP", "skips", "Account1", "acount", "Amount", "Date", "Date_format", "dateformat", "Decimal_symbol", "decimal-symbol", "Include", "Description", "Payee", "Comment", "Status", "currency_", "iff", "field"];
const NEAR_PROP: &[&str] = &["Amount", "AMOUNT", "amounts", "amount:", "For", "fore", "fo", "Funding", "fund", "funding:", "due", "starting"];
const NEAR_FUND: &[&str] = &["Aggressive", "AGGRESSIVE", "agressive", "aggressively", "Conservative", "conservatively", "manually", "Manual", "none", "aggressive,"];
const NEAR_STATUS: &[&str] = &["**", "*?", "x", "-", "+", "!!", "~~~", "?!", "*.", "(*)"];
const AMOUNTS: &[&str] = &["five", "1.2.3", "31-27", "$", "€€", "zork", "7.7.", "1.000.000", "fünf"];
const DATES: &[&str] = &["2020/13/06", "2020/02/30", "2019/02/29", "06.05.2020", "2020/05/06x", "tomorrow", "2020-05-06", "2020/05", "20200506", "2020/05/32", "２０２０/05/06"];
const DESCS: &[&str] = &["zork", "a zork of four words", "Zörk & Söhne", "ゾーク 5", "zork: 12.50 (two)"];
const PATHS: &[&str] = &["nosuch.sfox", "no/such/file.sfox", "nosuch", "../nosuch.sfox", "/nonexistent/nosuch.sfox", "nösuch.sfox", "./nosuch.x", "nosuch*"];
const ENVS: &[&str] = &["zork", "zörk", "fooz", "zork-2", "ゾーク"];

/// (what, text with the offending part as ~~, the parts, what has to be named: ~~ is the part)
type Fault = (&'static str, &'static str, &'static [&'static str], &'static [&'static str]);

const JOURNAL: &[Fault] = &[
    ("undefined account, first", "2020/05/06 * bad\n    ~~    5\n    income:job    -5\n", NAMES, &["~~"]),
    ("undefined account, last and blank", "2020/05/06 * bad\n    income:job    -5\n    ~~\n", NAMES, &["~~"]),
    ("undefined account among others", "2020/05/06 * bad\n    income:job    -5\n    ~~    0\n    assets:checking    5\n", NAMES, &["~~"]),
    ("undefined account with a cost", "2020/05/06 * bad\n    assets:checking    -5\n    ~~    1 BTC @ 5\n", NAMES, &["~~"]),
    ("envelope posting to an undefined account", "2020/05/06 * bad\n    envelope ~~ food 5\n", NAMES, &["~~"]),
    ("envelope posting with an unreadable amount", "2020/05/06 * bad\n    envelope assets:checking food ~~\n", AMOUNTS, &["~~"]),
    ("envelope posting in another currency", "2020/05/06 * ~~\n    envelope assets:checking food $5\n", DESCS, &["~~", "food", "assets:checking"]),
    ("unknown status", "2020/05/06 ~~ words\n    assets:checking    5\n    income:job    -5\n", WORDS, &["~~"]),
    ("nearly a status", "2020/05/06 ~~ words\n    assets:checking    5\n    income:job    -5\n", NEAR_STATUS, &["~~"]),
    ("unknown status, nothing else", "2020/05/06 ~~\n    assets:checking    5\n    income:job    -5\n", WORDS, &["~~"]),
    ("unreadable date", "~~ * bad\n    assets:checking    5\n    income:job    -5\n", DATES, &["~~"]),
    ("unreadable date, long header", "~~ * bad thing happened [to me]\n    assets:checking    5\n    income:job    -5\n", DATES, &["~~"]),
    ("unknown word", "~~\n", WORDS, &["~~"]),
    ("nearly a keyword", "~~\n", NEAR_TOP, &["~~"]),
    ("unknown word and a value", "~~ value\n", WORDS, &["~~"]),
    ("nearly a keyword and a value", "~~ value\n", NEAR_TOP, &["~~"]),
    ("unreadable amount", "2020/05/06 * bad\n    assets:checking    ~~\n    income:job\n", AMOUNTS, &["~~"]),
    ("unreadable amount, second", "2020/05/06 * bad\n    income:job  5\n    assets:checking    ~~\n", AMOUNTS, &["~~"]),
    ("unreadable unit cost", "2020/05/06 * bad\n    assets:checking    5 BTC @ ~~\n    income:job\n", AMOUNTS, &["~~"]),
    ("unreadable total cost", "2020/05/06 * bad\n    assets:checking    5 BTC = ~~\n    income:job\n", AMOUNTS, &["~~"]),
    ("two blanks", "2020/05/06 * ~~\n    assets:checking\n    income:job\n    expenses:food    5\n", DESCS, &["~~"]),
    ("lone blank", "2020/05/06 * ~~\n    assets:checking\n", DESCS, &["~~"]),
    ("not balanced", "2020/05/06 * ~~\n    assets:checking    5\n    income:job    -6\n", DESCS, &["~~"]),
    ("not balanced, one posting", "2020/05/06 * ~~\n    assets:checking    5\n", DESCS, &["~~"]),
    ("not balanced, with a payee and an envelope", "2020/05/06 * ~~ [payee]\n    assets:checking    5\n    envelope assets:checking food 5\n    income:job    -6\n", DESCS, &["~~"]),
    ("blank among mixed currencies without cost", "2020/05/06 * ~~\n    assets:other    5 BTC\n    assets:checking    5\n    income:job\n", DESCS, &["~~"]),
    ("unclosed payee", "2020/05/06 * ~~ [payee\n    assets:checking    5\n    income:job    -5\n", DESCS, &["~~"]),
    ("account with spaces", "account assets ~~\n", WORDS, &["~~"]),
    ("unknown envelope property", "account assets:new\n    expense e due every 5th\n        amount 5\n        ~~ red\n", WORDS, &["~~"]),
    ("nearly an envelope property", "account assets:new\n    expense e due every 5th\n        amount 5\n        ~~ red\n", NEAR_PROP, &["~~"]),
    ("blank envelope amount", "account assets:new\n    expense ~~ due every 5th\n        amount\n", ENVS, &["~~", "assets:new", "amount"]),
    ("blank for", "account assets:new\n    goal ~~ due every 5th\n        amount 5\n        for\n", ENVS, &["~~", "assets:new", "for"]),
    ("for with spaces", "account assets:new\n    expense e due every 5th\n        amount 5\n        for my ~~\n", WORDS, &["~~"]),
    ("unknown funding", "account assets:new\n    expense e due every 5th\n        amount 5\n        funding ~~\n", WORDS, &["~~"]),
    ("nearly a funding", "account assets:new\n    expense e due every 5th\n        amount 5\n        funding ~~\n", NEAR_FUND, &["~~"]),
    ("unreadable envelope amount", "account assets:new\n    goal e due every 5th\n        amount ~~\n", AMOUNTS, &["~~"]),
    ("duplicate expense", "account assets:new\n    expense ~~ due every 5th\n        amount 5\n    expense ~~ due every 6th\n        amount 5\n", ENVS, &["~~", "assets:new"]),
    ("duplicate goal", "account assets:new\n    goal f no date\n        amount 5\n    goal ~~ due every 5th\n        amount 5\n    expense f no date\n        amount 1\n    goal ~~ no date\n        amount 5\n", ENVS, &["~~", "assets:new"]),
    ("duplicate expense, others between", "account assets:new\n    expense first no date\n        amount 5\n    expense ~~ due every 5th\n        amount 5\n    expense between no date\n        amount 5\n    goal last no date\n        amount 5\n    expense ~~ due every 6th\n        amount 5\n    expense after no date\n        amount 5\n", ENVS, &["~~", "assets:new"]),
    ("duplicate in a second definition", "account assets:new\n    goal first no date\n        amount 5\n    goal ~~ due every 5th\n        amount 5\n    goal between no date\n        amount 5\naccount assets:new\n    goal new no date\n        amount 5\n    goal ~~ due every 6th\n        amount 5\n", ENVS, &["~~", "assets:new"]),
    ("every other without start", "account assets:new\n    expense e due every other Friday\n        amount 5\n", &["Friday"], &["~~", "starting"]),
    ("every year without start", "account assets:new\n    expense e due every year\n        amount 5\n", &["every year"], &["~~", "starting"]),
    ("unknown frequency", "account assets:new\n    expense e due every ~~\n        amount 5\n", WORDS, &["~~"]),
    ("unknown other frequency", "account assets:new\n    expense e due every other ~~ starting 2020/01/01\n        amount 5\n", WORDS, &["~~"]),
    ("no due date at all", "account assets:new\n    expense ~~\n        amount 5\n", ENVS, &["~~"]),
    ("unreadable one-time date", "account assets:new\n    goal e by ~~\n        amount 5\n", DATES, &["~~"]),
    ("unreadable starting date", "account assets:new\n    expense e due every 5th starting ~~\n        amount 5\n", DATES, &["~~"]),
    ("unknown kind of envelope", "account assets:new\n    ~~ e due every 5th\n        amount 5\n", WORDS, &["~~"]),
    ("include of a missing file", "include ~~\n", PATHS, &["~~"]),
    ("no status", "~~\n    assets:checking    5\n    income:job    -5\n", &["2020/05/06", "2020/05/7", "2020/2/29"], &["~~"]),
    ("envelope posting without an envelope", "2020/05/06 * bad\n    envelope ~~\n", &["assets:checking", "assets:other"], &["~~"]),
    ("second blank account", "account ~~ x\n", NAMES, &["~~"]),
];

/// the offending thing is the last rule, or in the record
const RULES: &[(&str, &str, &str, &[&str], &[&str])] = &[
    // what, rule, record, parts, names
    ("unreadable date in a record", "", "~~,noir,-5", DATES, &["~~"]),
    ("unreadable amount in a record", "", "2020/01/02,noir,~~", AMOUNTS, &["~~"]),
    ("undefined account in the rules", "account1 ~~\n", "2020/01/02,noir,-5", NAMES, &["~~"]),
    ("undefined account from a record", "account1 %description%\n", "2020/01/02,~~,-5", NAMES, &["~~"]),
    ("unknown status", "status ~~\n", "2020/01/02,noir,-5", WORDS, &["~~"]),
    ("unknown rule", "~~ 5\n", "2020/01/02,noir,-5", WORDS, &["~~"]),
    ("nearly a rule", "~~ 5\n", "2020/01/02,noir,-5", NEAR_RULE, &["~~"]),
    ("unknown rule without a value", "~~\n", "2020/01/02,noir,-5", WORDS, &["~~"]),
    ("unknown rule discarded", "~~ -\n", "2020/01/02,noir,-5", WORDS, &["~~"]),
    ("unknown rule in a condition", "if noir\n    ~~ 5\n", "2020/01/02,noir,-5", WORDS, &["~~"]),
    ("nearly a rule in a condition", "if noir\n    ~~ 5\n", "2020/01/02,noir,-5", NEAR_RULE, &["~~"]),
    ("long decimal symbol", "decimal_symbol ~~\n", "2020/01/02,noir,-5", WORDS, &["~~"]),
    ("include of a missing file", "include ~~\n", "2020/01/02,noir,-5", PATHS, &["~~"]),
    ("not balanced", "account1 assets:other\namount1 3\n", "2020/01/02,~~,-5", DESCS, &["~~"]),
    ("unclosed payee", "", "2020/01/02,~~ [x,-5", DESCS, &["~~"]),
    ("undefined default account", "", "2020/01/02,noir,5", &["income:unknown"], &["~~"]),
];

fn named(ctx: &Ctx, r: &crate::sut::Res, what: &str, part: &str, names: &[&str]) -> Check {
    need_refused(ctx, r, what)?;
    for n in names {
        let n = n.replace("~~", part);
        ctx.need(r.err.contains(&n), || format!("{what}: `{n}` is at fault, but the explanation does not name it: {}", show(r)))?;
    }
    Ok(())
}

pub fn c25(h: &Harness) -> i32 {
    let b = base();
    let mut fs: Vec<(&Fault, &str)> = vec![];
    for f in JOURNAL {
        for p in f.2 {
            fs.push((f, p));
        }
    }
    // after the definitions or at the end; in the file or in one it includes
    let pos = [HEADS, HEADS + 1, b.len()];
    h.explore("one fault x its text x position x place x subcommand", fs.len() * pos.len() * 4, |ctx, i| {
        let d = digits(i, &[pos.len(), 4, fs.len()]);
        let ((what, text, _, names), part) = fs[d[2]];
        let text = text.replace("~~", part);
        let mut it = b.clone();
        let at = pos[d[0]];
        match d[1] {
            0 => it.insert(at, text),
            1 => {
                ctx.put("inc.sfox", &text);
                it.insert(at, "include inc.sfox\n".into());
            }
            2 => {
                ctx.put("dir/inc.sfox", &format!("2020/03/04 * other\n    assets:checking    5\n    income:job    -5\n{text}2020/03/05 * more\n    assets:checking    5\n    income:job    -5\n"));
                it.insert(at, "include dir/inc.sfox\n".into());
            }
            _ => {
                // windows line ends
                it.insert(at, text);
                it = it.iter().map(|x| x.replace('\n', "\r\n")).collect();
            }
        }
        ctx.put(JF, &it.concat());
        for s in ["b", "e", "r"] {
            let r = ctx.run(&req(T, &[s, "-f", JF]));
            named(ctx, &r, &format!("{what} (`{part}`)"), part, names)?;
            ctx.t.traces += 1;
        }
        ctx.state(&(what, part, d[0], d[1]));
        ctx.outcome(what);
        ctx.sample(|| format!("{what}: `{part}`"));
        Ok(())
    });
    // among many sound ones
    let many = [1usize, 2, 3, 5, 8, 17, 33, 64, 129];
    let ext = if h.thorough { 11 } else { 1 };
    h.explore("one fault among many sound entries", JOURNAL.len() * many.len() * 3 * ext, |ctx, i| {
        let d = digits(i, &[JOURNAL.len(), many.len(), 3, ext]);
        let (what, text, parts, names) = &JOURNAL[d[0]];
        let part = parts[(d[1] + d[2] + d[3]) % parts.len()];
        let n = many[d[1]];
        let mut it = b.clone();
        for k in 0..n {
            it.push(format!("2020/04/{:02} * entry {k}\n    assets:checking    {k}\n    income:job\n", 1 + k % 28));
            if k % 5 == 4 {
                it.push(format!("account expenses:n{k}\n"));
            }
        }
        let at = [HEADS, HEADS + n / 2, it.len()][d[2]];
        it.insert(at, text.replace("~~", part));
        ctx.put(JF, &it.concat());
        let r = ctx.run(&req(T, &["b", "-f", JF]));
        named(ctx, &r, &format!("{what} (`{part}`) among {n}"), part, names)?;
        ctx.state(&(what, part, n, d[2]));
        ctx.t.traces += 1;
        Ok(())
    });
    // long texts; the fault in a long entry or in an account of many envelopes
    let grow = [0usize, 30, 90, 200, 500];
    let big = [0usize, 1, 4, 10, 40, 100];
    h.explore("long offending texts x faults in long entries and accounts, before and after the sound parts", JOURNAL.len() * grow.len() * big.len() * 2, |ctx, i| {
        let d = digits(i, &[JOURNAL.len(), grow.len(), big.len(), 2]);
        let (what, text, parts, names) = &JOURNAL[d[0]];
        let fixed = std::ptr::eq(*parts, AMOUNTS) || std::ptr::eq(*parts, DATES) || std::ptr::eq(*parts, PATHS) || std::ptr::eq(*parts, NEAR_TOP) || parts.len() < 5;
        if (d[1] > 0 && fixed) || (d[2] > 0 && *what == "lone blank") {
            return Ok(());
        }
        let mut part = parts[(d[1] + d[2]) % parts.len()].to_string();
        part.extend("abcdefghijk".chars().cycle().take(grow[d[1]]));
        let text = text.replace("~~", &part);
        // the sound parts stand in the first item of the text
        let (head, rest) = text.split_once('\n').unwrap();
        let n = big[d[2]];
        let more: String = if head.starts_with("account") {
            (0..n).map(|k| format!("    {} sound{k} due every {}th\n        amount {k}\n", ["expense", "goal"][k % 2], k % 28 + 1)).collect()
        } else if rest.is_empty() {
            String::new()
        } else if text.contains("    envelope") || !what.contains("balanced") {
            (0..n).map(|k| format!("    income:job    {k}.5\n    assets:other    -{k}.5\n")).collect()
        } else {
            (0..n).map(|k| format!("    income:job    {k}\n    assets:other    -{k}\n")).collect()
        };
        if head.starts_with("account") && (text.matches("account").count() > 1 || ["account with spaces", "second blank account"].contains(what)) {
            return Ok(());
        }
        let text = if d[3] == 0 { format!("{head}\n{more}{rest}") } else { format!("{head}\n{rest}{more}") };
        let mut it = b.clone();
        it.insert(HEADS + 1, text);
        ctx.put(JF, &it.concat());
        let r = ctx.run(&req(T, &["b", "-f", JF]));
        named(ctx, &r, &format!("{what} (`{part}`), {n} more"), &part, names)?;
        ctx.state(&(what, &part, n, d[3], "long"));
        ctx.t.traces += 1;
        Ok(())
    });
    // imports
    let mut rs: Vec<(usize, &str)> = vec![];
    for (k, f) in RULES.iter().enumerate() {
        for p in f.3 {
            rs.push((k, p));
        }
    }
    // in the rules, in a rules file they include; the record is the only one, the first, the last
    h.explore("imports: one fault in the rules or a record x its text x place", rs.len() * 2 * 3, |ctx, i| {
        let d = digits(i, &[2, 3, rs.len()]);
        let (k, part) = rs[d[2]];
        let (what, rule, record, _, names) = RULES[k];
        let rule = rule.replace("~~", part);
        let quoted: Vec<String> = record.replace("~~", "\u{1}").split(',').map(|x| format!("\"{}\"", x.replace('\u{1}', part).replace('"', "\"\""))).collect();
        let rec = quoted.join(",");
        let fine = "2020/01/03,noir,-7";
        let records: Vec<&str> = match d[1] {
            0 => vec![&rec],
            1 => vec![&rec, fine],
            _ => vec![fine, &rec],
        };
        // the fault must not concern the sound record, unless it is in the rules
        let csv = format!("date,description,amount\n{}\n", records.join("\n"));
        let head = "fields date,description,amount\naccount assets:checking\namount %amount%\n";
        if d[0] == 0 || rule.is_empty() {
            ctx.put("c.csv.rules", &format!("{head}{rule}"));
        } else {
            ctx.put("more.rules", &rule);
            ctx.put("c.csv.rules", &format!("{head}include more.rules\n"));
        }
        ctx.put("c.csv", &csv);
        ctx.put(JF, &b.concat());
        let r = ctx.run(&req(T, &["i", "-n", "-f", JF, "--csv", "c.csv"]));
        // with several records the first fault is named; records from the description are sound only alone
        if ["undefined account from a record", "not balanced"].contains(&what) && d[1] == 2 {
            need_refused(ctx, &r, what)?;
        } else {
            named(ctx, &r, &format!("{what} (`{part}`)"), part, names)?;
        }
        ctx.state(&(what, part, d[0], d[1]));
        ctx.t.traces += 1;
        ctx.outcome(&format!("import: {what}"));
        Ok(())
    });
    // files that include themselves, directly or through others
    h.explore("files including themselves, at once or after up to three other files", 4 * 5 * 2 * 4, |ctx, i| {
        let d = digits(i, &[4, 5, 2, 4]);
        let name = ["a.sfox", "dir/ä.sfox", "loop", "x.y.z"][d[0]];
        let file = |k: usize| if k == 0 { name.to_string() } else { format!("{}{k}.inc", if name.contains('/') { "dir/" } else { "" }) };
        let leaf = |k: usize| file(k).rsplit('/').next().unwrap().to_string();
        let n = d[1] + 1;
        for k in 0..n {
            let fine = if d[2] == 0 { "account a:b\n" } else { "fields date,description,amount\n" };
            ctx.put(&file(k), &format!("{fine}include {}\n", leaf((k + 1) % n)));
        }
        // the files on the way to the circle are none of it
        let way = |k: usize| format!("way{k}");
        for k in 1..=d[3] {
            ctx.put(&way(k), &format!("include {}\n", if k == 1 { name.to_string() } else { way(k - 1) }));
        }
        let last = way(d[3]);
        // rules find other files from the working directory
        if d[3] > 0 && d[2] == 1 && name.contains('/') {
            return Ok(());
        }
        let name = if d[3] == 0 { name } else { &last };
        let r = if d[2] == 0 {
            ctx.run(&req(T, &["b", "-f", name]))
        } else {
            ctx.put(JF, &b.concat());
            ctx.put("c.csv", "date,description,amount\n2020/01/02,noir,-5\n");
            ctx.run(&req(T, &["i", "-n", "-f", JF, "--csv", "c.csv", "--rules", name]))
        };
        ctx.t.traces += 1;
        ctx.state(&(name, n, d[2], "loop"));
        // any of the files of the circle may be named
        need_refused(ctx, &r, "a file including itself")?;
        ctx.need((0..n).any(|k| r.err.contains(&leaf(k))), || format!("no file of the circle is named: {}", show(&r)))
    });
    h.explore("imports: a field named twice", WORDS.len() * 3, |ctx, i| {
        let w = WORDS[i / 3];
        let f = [format!("{w},{w},amount,date"), format!("date,amount,{w},{w}"), format!("{w},amount,date,{w}")][i % 3].clone();
        ctx.put("c.csv.rules", &format!("fields {f}\naccount assets:checking\n"));
        ctx.put("c.csv", "h,h,h,h\n2020/01/02,2020/01/02,2020/01/02,2020/01/02\n");
        ctx.put(JF, &b.concat());
        let r = ctx.run(&req(T, &["i", "-n", "-f", JF, "--csv", "c.csv"]));
        ctx.t.traces += 1;
        named(ctx, &r, "a field named twice", w, &["~~"])
    });
    // command lines: files that are not there, flags and subcommands nobody knows
    let flags = ["--zork", "-z", "--files", "--", "-F", "--no-mov", "-nf", "zork", "--zörk", "j.sfox.bak"];
    let subs = ["zork", "Balance", "?", "-f", "--file", "ゾーク", "x"];
    let paths = ["nosuch.sfox", "no/such", "../nosuch", "nösuch.csv", "/nonexistent/x.y"];
    h.explore("command lines with one fault", flags.len() * 4 + subs.len() + paths.len() * 6 + 8, |ctx, i| {
        ctx.put(JF, &b.concat());
        ctx.put("c.csv", "date,description,amount\n2020/01/02,noir,-5\n");
        ctx.put("c.csv.rules", "fields date,description,amount\naccount assets:checking\namount %amount%\n");
        let (args, part): (Vec<String>, String) = if i < flags.len() * 4 {
            let f = flags[i / 4];
            let a: Vec<&str> = match i % 4 {
                0 => vec!["b", "-f", JF, f, "x"],
                1 => vec!["e", f, "x", "-f", JF],
                2 => vec!["b", "-n", "-f", JF, f],
                _ => vec!["r", "-f", JF, f, "x", "-n"],
            };
            (a.iter().map(|x| x.to_string()).collect(), f.into())
        } else if i < flags.len() * 4 + subs.len() {
            let s = subs[i - flags.len() * 4];
            (vec![s.into(), "-f".into(), JF.into()], s.into())
        } else if i < flags.len() * 4 + subs.len() + paths.len() * 6 {
            let k = i - flags.len() * 4 - subs.len();
            let p = paths[k / 6];
            let a: Vec<&str> = match k % 6 {
                0 => vec!["b", "-f", p],
                1 => vec!["e", "-n", "--file", p],
                2 => vec!["i", "-n", "-f", JF, "--csv", p, "--rules", "c.csv.rules"],
                3 => vec!["i", "-n", "-f", JF, "--csv", "c.csv", "--rules", p],
                4 => vec!["r", "-f", p],
                _ => vec!["i", "-n", "-f", p, "--csv", "c.csv"],
            };
            (a.iter().map(|x| x.to_string()).collect(), p.into())
        } else {
            // a value is missing
            let k = i - flags.len() * 4 - subs.len() - paths.len() * 6;
            let f = ["-f", "--file", "--csv", "--csv-file", "--rules", "--rules-file", "--csv", "-f"][k];
            let a: Vec<&str> = if k < 2 { vec!["b", "-n", f] } else if k == 7 { vec!["b", "--csv", "c.csv", f] } else { vec!["i", "-f", JF, f] };
            (a.iter().map(|x| x.to_string()).collect(), f.into())
        };
        let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let before = ctx.srv.snapshot();
        let r = ctx.run(&req(T, &a));
        named(ctx, &r, &format!("`silverfox {}`", a.join(" ")), &part, &["~~"])?;
        ctx.need(before == ctx.srv.snapshot(), || "a refused command changed a file".into())?;
        ctx.t.traces += 1;
        ctx.outcome("command lines");
        ctx.state(&(args, "args"));
        Ok(())
    });
    h.finish(
        "47 kinds of faults in journals x up to 11 offending texts each (look-alikes of what is defined, other scripts, long ones) x 3 positions x 4 places (main file, included file, between other entries of a file of another directory, windows line ends) x 3 subcommands; each among up to 129 sound entries; 14 kinds of faults in rules and records x place x position of the record; fields named twice; unknown flags and subcommands, missing values and missing files; long offending texts in long entries and accounts. The explanation has to contain the offending text. A state is a distinct (fault, text, place)",
        &["one fault at a time: which of several is named is not judged", "how the explanation is worded is not judged"],
    )
}
