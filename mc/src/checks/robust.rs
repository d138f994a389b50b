//! C20: no input makes silverfox crash or hang.
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::sut::*;

const TODAY: Day = 19783; // 2024-03-01
/// The run ended by itself, with a report or a message.
fn ends(ctx: &mut Ctx, r: &Req) -> Check {
    let x = ctx.run(r);
    ctx.need(!x.crashed() && !x.err.contains("panicked at"), || format!("silverfox {:?} crashed or hung: {}", r.args, show(&x)))?;
    ctx.outcome(match (x.out.is_empty(), x.err.is_empty()) {
        (true, true) => "nothing",
        (false, true) => "report",
        (true, false) => "message",
        (false, false) => "report and message",
    });
    ctx.t.traces += 1;
    Ok(())
}
fn subs(ctx: &mut Ctx, n: usize) -> Check {
    // without -n first: what it appends is then read by the others
    for s in &["e", "b", "r"][..n] {
        ends(ctx, &req(TODAY, &[s, "-f", JF]))?;
    }
    Ok(())
}
pub const LINES: [&str; 58] = [
    "", " ", "    ", "//", ";", "account", "account assets:a", "account assets:a extra", "  expense food due every 31st", "  expense food due every 2nd friday starting 2024/01/01",
    "    goal trip by 2024/04/01", "    goal trip by", "    expense x due every other friday starting 2024/02/30", "    expense y due every year starting 2024/02/29", "    expense z due every other 31st starting 2023/12/31",
    "        amount 50", "        amount", "        amount -5 EUR", "        for expenses:x", "        funding aggressive", "        funding conservative", "        bogus 5", "    real assets:a 5", "date_format %Y/%m/%d",
    "date_format %d.%m.%Y %H", "date_format", "currency", "currency €", "include", "include j.sfox", "include none", "include .", "2024/02/01 * x [p] // c", "2024/02/01 ~ ]é[", "2024/02/01 ? [é", "2024/02/01", "2024/02/01 *",
    "2024/13/01 * x", "02.02.2024 * x", "*", "é", "    assets:a    5", "    assets:a    -5.5 €", "    assets:a", "    assets:a    €", "    assets:a    5 @", "    assets:a    5 = -5 EUR", "    assets:a    2 EUR @ 3", "    assets:a    ! 5",
    "    assets:a    5 EUR ! 5", "    assets:a    @ = !", "    envelope assets:a food 5", "    envelope assets:a", "    envelope", "    envelope assets:a food", "\tassets:a\t1e400", "    assets:none 5", "\u{feff}account assets:a",
];
const RICH: &str = "// rich\ndate_format %d.%m.%y\ncurrency $\naccount assets:a // é\n  expense food due every 31st starting 01.01.24\n    amount $50.5\n    for expenses:x\n    funding aggressive\n  goal trip by 01.04.24\n    amount 46 EUR\n    funding conservative\n  expense w due every other friday starting 05.01.24\n    amount 7\naccount expenses:x\n01.02.24 * Größe [p] ; c\n  assets:a  -1,000.5 EUR @ 2 ! 5\n  expenses:x\n02.02.24 ~ y\n  envelope assets:a trip 5 EUR\n";
const RRULES: &str = "skip 1\nfields date, desc, amount, é\ndate_format %d.%m.%Y\ndate %date%\ndescription x %desc% %% %é%\namount %amount% EUR @ 2\naccount assets:a\naccount2 expenses:x\ndecimal_symbol ,\nif shop\nbär\n  comment %desc%\n  payee -\n  status *\nuse more\n";
const RCSV: &str = "date,desc,amount,é\n01.02.2024,\"a shop, x\",\"-1,5\",é\n02.02.2024,ü,3,%desc%\n";
const RJ: &str = "account assets:a\naccount expenses:x\naccount expenses:unknown\naccount income:unknown\n2024/01/01 * x\n    assets:a    5\n    expenses:x\n";
const EDITS: [&str; 30] = ["", " ", "\n", "\t", "é", "%", "[", "]", "/", "//", ";", "-", ".", ",", "0", "9", "99999999999999999999", "@", "=", "!", ":", "\"", "\r", "a", "\0", "€", "+", "31st", "\u{301}", " starting "];
/// edit k at position p of s: delete the character, insert a text, replace it by a text, cut the file there
fn edit(s: &str, p: usize, k: usize) -> String {
    let ch: Vec<char> = s.chars().collect();
    let pre: String = ch[..p].iter().collect();
    let post: String = ch[(p + 1).min(ch.len())..].iter().collect();
    let rest: String = ch[p..].iter().collect();
    let n = EDITS.len();
    match k {
        k if k < n => format!("{pre}{}{post}", EDITS[k]),
        k if k < 2 * n => format!("{pre}{}{rest}", EDITS[k - n]),
        _ => pre,
    }
}
const NEDIT: usize = 2 * EDITS.len() + 1;

pub fn c20(h: &Harness) -> i32 {
    let nl = LINES.len();
    // sequences of lines
    for d in 1..=if h.thorough { 4u32 } else { 3 } {
        let n = nl.pow(d);
        if d == 4 {
            // in four lines the first opens something
        }
        h.explore(&format!("journals of {d} of {nl} lines"), n, |ctx, i| {
            let t: Vec<&str> = digits(i, &vec![nl; d as usize]).into_iter().map(|k| LINES[k]).collect();
            ctx.put(JF, &(t.join("\n") + "\n"));
            ctx.state(&t);
            subs(ctx, match d { 1 | 2 => 3, _ => 1 })
        });
    }
    // an account and a valid head before, then two lines
    let d = if h.thorough { 3 } else { 2 };
    for (k, head) in [
        "account assets:a\naccount expenses:x\n2024/01/01 * in\n    assets:a    90\n    expenses:x\n",
        "account assets:a\n  expense food due every 31st\n    amount 5\n    funding aggressive\n    for expenses:x\naccount expenses:x\n2024/01/31 * in\n    assets:a    90\n    expenses:x\n",
        "account assets:a\n  expense food due every 29th\n    amount 50\n    funding conservative\n",
    ]
    .iter()
    .enumerate()
    {
        h.explore(&format!("valid beginning {k}, then {d} lines"), nl.pow(d), |ctx, i| {
            let t: Vec<&str> = digits(i, &vec![nl; d as usize]).into_iter().map(|k| LINES[k]).collect();
            ctx.put(JF, &format!("{head}{}\n", t.join("\n")));
            ctx.state(&(k, &t));
            subs(ctx, 3)
        });
    }
    // single edits of a journal that uses everything
    let np = RICH.chars().count();
    h.explore("every single edit of a journal that uses everything", np * NEDIT, |ctx, i| {
        let t = edit(RICH, i / NEDIT, i % NEDIT);
        ctx.put(JF, &t);
        ctx.state(&t);
        subs(ctx, 3)
    });
    let imp = req(TODAY, &["import", "-n", "-f", JF, "--csv", "x.csv", "--rules", "r"]);
    let files = |ctx: &mut Ctx, rules: &str, csv: &str| {
        ctx.put(JF, RJ);
        ctx.put("r", rules);
        ctx.put("x.csv", csv);
        ctx.put("more", "comment more %é%\n");
    };
    h.explore("every single edit of rules that use everything", RRULES.chars().count() * NEDIT, |ctx, i| {
        let t = edit(RRULES, i / NEDIT, i % NEDIT);
        files(ctx, &t, RCSV);
        ctx.state(&t);
        ends(ctx, &imp)
    });
    h.explore("every single edit of a csv file", RCSV.chars().count() * NEDIT, |ctx, i| {
        let t = edit(RCSV, i / NEDIT, i % NEDIT);
        files(ctx, RRULES, &t);
        ctx.state(&t);
        ends(ctx, &imp)
    });
    // sequences of rules
    const RL: [&str; 40] = [
        "", "if", "if x", "if a shop", "ifx", "    if y", "    status *", "    skip 0", "skip", "skip 0", "skip -1", "skip 99999999999", "skip -2147483648", "fields", "fields ,", "fields date, desc, amount", "fields date,date", "fields -", "date %", "date %%",
        "date_format %", "date_format %Q", "date_format %d.%m.%Y", "date_format %s", "decimal_symbol é", "decimal_symbol x", "decimal -", "amount -", "amount %amount%", "account assets:a", "account -", "account2 assets:a", "account %é%", "include r", "use more", "include none", "é ü", "comment -", "comment\u{a0}x", "-",
    ];
    let nr = RL.len();
    for d in 1..=if h.thorough { 4u32 } else { 3 } {
        h.explore(&format!("rules files of {d} of {nr} lines"), nr.pow(d), |ctx, i| {
            let t: Vec<&str> = digits(i, &vec![nr; d as usize]).into_iter().map(|k| RL[k]).collect();
            files(ctx, &(t.join("\n") + "\n"), RCSV);
            ctx.state(&t);
            ends(ctx, &imp)
        });
    }
    // csv files of so many fields
    const CF: [&str; 12] = [",", "\n", "\"", "é", "01.02.2024", "-1,5", "\r\n", "a shop", "%desc%", "\"\"", "\u{0}", "]["];
    for d in 1..=if h.thorough { 6u32 } else { 4 } {
        h.explore(&format!("csv files of {d} of {} pieces", CF.len()), CF.len().pow(d), |ctx, i| {
            let t: String = digits(i, &vec![CF.len(); d as usize]).into_iter().map(|k| CF[k]).collect();
            files(ctx, "fields date, desc, amount, é\nskip 0\naccount assets:a\n", &t);
            ends(ctx, &imp)
        });
    }
    // amounts, envelopes, dates: extremes
    const DATES: [&str; 16] = ["2024/03/01", "2024/02/29", "0000/01/01", "0001/01/01", "9999/12/31", "10000/01/01", "+10000/01/01", "+262142/12/31", "+262143/12/31", "-262143/01/01", "-0001/12/31", "-262144/01/01", "+262142/11/30", "1/1/1", "2024/2/9", "99999999999/1/1"];
    const FREQS: [&str; 22] = [
        "every friday", "every other friday", "every other fri", "every 1st", "every 31st", "every 30th", "every 0th", "every 32nd", "every other 31st", "every other 1st", "every year", "every month", "every", "every other", "every other other friday", "no date", "", "every 99999999999th", "every -1st", "every é", "every other 0th", "every weekday",
    ];
    let dates = DATES.len();
    h.explore("frequencies x starting dates x days", FREQS.len() * (dates + 1) * 5 * 2, |ctx, i| {
        let d = digits(i, &[FREQS.len(), dates + 1, 5, 2]);
        let f = FREQS[d[0]];
        let st = if d[1] == dates { String::new() } else { format!(" starting {}", DATES[d[1]]) };
        let kind = ["expense food due", "goal trip by"][d[3]];
        let j = format!("account assets:a\n    {kind} {f}{st}\n        amount 500\n        funding conservative\n        for expenses:x\naccount expenses:x\n2024/01/01 * x\n    assets:a    10\n    expenses:x\n2024/01/02 * x\n    envelope assets:a {} 5\n", ["food", "trip"][d[3]]);
        ctx.put(JF, &j);
        let today = [TODAY, TODAY - 1, day(1970, 1, 1), day(9999, 12, 31), day(2100, 2, 28)][d[2]];
        ctx.state(&d);
        for s in ["e", "b"] {
            ends(ctx, &req(today, &[s, "-f", JF]))?;
        }
        Ok(())
    });
    // date formats: such as cannot be written, cannot be read, or are not unique
    const DFS: [(&str, &str); 40] = [
        ("%Y-%m-%dT%H", "2024-02-01T10"), ("%Y-%m-%d_%H:%M:%S", "2024-02-01_10:11:12"), ("%Y-%m-%d%z", "2024-02-01+0100"), ("%Y-%m-%d%:z", "2024-02-01+01:00"), ("%Y-%m-%d%Z", "2024-02-01UTC"), ("%Y-%m-%d%p", "2024-02-01AM"),
        ("%Y-%m-%d.%f", "2024-02-01.5"), ("%Y-%m-%d%.3f", "2024-02-01.500"), ("%s", "1706745600"), ("%+", "2024-02-01T00:00:00+00:00"), ("%c", "Thu"), ("%D", "02/01/24"), ("%F", "2024-02-01"), ("%x", "02/01/24"), ("%v", "1-Feb-2024"), ("%T", "10:11:12"),
        ("%Q", "2024-02-01"), ("%", "2024-02-01"), ("%%", "%"), ("%Y-%m-%d%", "2024-02-01%"), ("%Y-%m-%d%%", "2024-02-01%"), ("%Y-%m-%d%Q", "2024-02-01"), ("%Y", "2024"), ("%Y-%m", "2024-02"), ("%m-%d", "02-01"), ("%j", "032"),
        ("%G-W%V-%u", "2024-W05-4"), ("%Y-%U-%w", "2024-04-4"), ("%Y-W%W-%a", "2024-W05-Thu"), ("%A", "Thursday"), ("%C%y-%m-%d", "2024-02-01"), ("%e.%m.%Y", "1.02.2024"), ("%-d.%-m.%Y", "1.2.2024"), ("%_d.%m.%Y", "1.02.2024"), ("%B%d,%Y", "February01,2024"),
        ("é%Yé%mé%d", "é2024é02é01"), ("x", "x"), ("%Y/%m/%d/%Y", "2024/02/01/2024"), ("%n%Y-%m-%d", "2024-02-01"), ("%t", "2024"),
    ];
    h.explore("date formats x where they stand x dates before or in that format x envelopes x import", DFS.len() * 3 * 4 * 2, |ctx, i| {
        let d = digits(i, &[DFS.len(), 3, 4, 2]);
        let (df, date) = DFS[d[0]];
        let put = format!("date_format {df}\n");
        let (first, later) = (if d[1] == 0 { put.as_str() } else { "" }, if d[1] == 0 { "" } else { put.as_str() });
        let (a, b) = (if d[1] == 0 { date } else { "2024/02/01" }, date);
        let env = ["", "    expense food due every 15th\n        amount 5\n        funding aggressive\n", "    goal g by DD\n        amount 5\n        funding conservative\n", "    expense w due every friday starting DD\n        amount 5\n        funding aggressive\n"][d[2]].replace("DD", a);
        let last = if d[1] == 2 { String::new() } else { format!("{b} ~ y\n    expenses:x    1\n    assets:a\n") };
        ctx.put(JF, &format!("{first}account assets:a\n{env}account expenses:x\naccount expenses:unknown\naccount income:unknown\n{a} * x [p]\n    assets:a    10\n    expenses:x\n{later}{last}"));
        ctx.put("x.csv", &format!("{b},5\n"));
        ctx.put("x.csv.rules", &format!("skip 0\nfields date, amount\n{}account assets:a\n", ["", put.as_str()][d[3]]));
        ctx.state(&(20, &d));
        ends(ctx, &req(TODAY, &["import", "-f", JF, "--csv", "x.csv"]))?;
        subs(ctx, 3)
    });
    h.explore("dates of goals x dates of entries", dates * dates * 2, |ctx, i| {
        let d = digits(i, &[dates, dates, 2]);
        let j = format!(
            "account assets:a\n    goal trip by {}\n        amount 500\n        funding {}\naccount expenses:x\n{} * x\n    assets:a    10\n    expenses:x\n{} * x\n    envelope assets:a trip 5\n",
            DATES[d[0]], ["conservative", "aggressive"][d[2]], DATES[d[1]], DATES[d[1]]
        );
        ctx.put(JF, &j);
        ctx.state(&(7, &d));
        subs(ctx, 3)
    });
    const NUMS: [&str; 24] = ["0", "-0", "1e400", "99999999999999999999999999999999999999999999", "0.000000000000000001", "nan", "inf", "-inf", "NaN 5", "5.5.5", "--5", "5-", "5-5", "-", ".", "$", "$-", "-$", "€5€", "5 €€", "5 é é", "1 2", "179769313486231570000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", "٣"];
    let nn = NUMS.len();
    h.explore("amounts in two postings, costs, envelopes", nn * nn * 5, |ctx, i| {
        let d = digits(i, &[nn, nn, 5]);
        let (a, b) = (NUMS[d[0]], NUMS[d[1]]);
        let post = match d[2] {
            0 => format!("    assets:a    {a}\n    expenses:x    {b}\n"),
            1 => format!("    assets:a    {a} EUR @ {b}\n    expenses:x\n"),
            2 => format!("    assets:a    {a} = {b}\n    expenses:x    5\n"),
            3 => format!("    assets:a    {a} ! {b}\n    expenses:x\n"),
            _ => format!("    envelope assets:a food {a}\n    assets:a    {b}\n    expenses:x\n"),
        };
        ctx.put(JF, &format!("account assets:a\n    expense food due every 1st\n        amount {b}\n        funding aggressive\n    expense tea due every 2nd\n        amount 5\n        funding conservative\n        for expenses:x\naccount expenses:x\n2024/01/01 * x\n{post}"));
        ctx.state(&(8, &d));
        subs(ctx, 3)
    });
    // arguments
    const ARGS: [&str; 20] = ["b", "e", "r", "i", "import", "s", "n", "x", "", "é", "-n", "--no-move", "-f", "--file", JF, "--csv", "x.csv", "--rules", "r", "\u{f7ff}"];
    let na = ARGS.len();
    for d in 0..=if h.thorough { 5u32 } else { 4 } {
        h.explore(&format!("{d} of {na} arguments"), na.pow(d), |ctx, i| {
            let t: Vec<&str> = digits(i, &vec![na; d as usize]).into_iter().map(|k| ARGS[k]).collect();
            files(ctx, RRULES, RCSV);
            ctx.state(&t);
            ends(ctx, &req(TODAY, &t))
        });
    }
    // terminals, and texts wider than they are
    const DESCS: [&str; 8] = ["x", "", "Größe und mehr", "🦊🦊🦊🦊🦊🦊🦊🦊🦊🦊🦊🦊🦊🦊🦊🦊🦊🦊🦊🦊", "a very long description that is wider than any column the register could have for it, and then some more", "e\u{301}e\u{301}e\u{301}", "\u{200d}", "日本語日本語日本語日本語日本語日本語日本語"];
    let accts = ["assets:a", "assets:日本語日本語日本語日本語日本語日本語", "assets:a-very-long-name-of-an-account-that-is-wider-than-any-column-of-a-register-could-be", "assets:", "assets:é:", ":", "assets"];
    let mut widths: Vec<u32> = (0..=130).collect();
    widths.extend([200, 255, 256, 1000, 65535]);
    h.explore("terminal widths x descriptions x account names", widths.len() * DESCS.len() * accts.len(), |ctx, i| {
        let d = digits(i, &[widths.len(), DESCS.len(), accts.len()]);
        let j = format!("account {0}\n    expense food due every 1st\n        amount 5\naccount expenses:x\n2024/01/01 * {1}\n    {0}    12345678.12345678 LONGSYMBOL\n    expenses:x\n2024/01/01 * {1} [{1}]\n    {0}    5\n    expenses:x\n", accts[d[2]], DESCS[d[1]]);
        ctx.put(JF, &j);
        for s in ["r", "e"] {
            ends(ctx, &Req { width: widths[d[0]], ..req(TODAY, &[s, "-n", "-f", JF]) })?;
        }
        ctx.state(&d);
        Ok(())
    });
    // long texts of wide characters at every offset, in every place where a text may stand
    let chars = ["a", "é", "€", "🦊", "e\u{301}", "]", "-", "\u{a0}"];
    let lens: &[usize] = if h.thorough { &[1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 50, 64, 65, 100, 128, 255, 256, 257, 500, 1024, 4097] } else { &[7, 16, 33, 50, 100, 257, 500] };
    let b = [16, chars.len(), 4, lens.len()];
    h.explore("long texts: place x character x offset x length", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let t = "a".repeat(d[2]) + &chars[d[1]].repeat(lens[d[3]]);
        let at = |k: usize, x: &str| if d[0] == k { t.clone() } else { x.to_string() };
        ctx.put(
            JF,
            &format!(
                "account assets:{0}\n    expense {1} due every 15th\n        amount 5 {2}\n        for expenses:{3}\n        funding aggressive\naccount expenses:x\n2024/01/01 * {4} [{5}] // {6}\n    assets:{0}    50 {2} @ 3{7}\n    expenses:x\n2024/01/02 * y\n    envelope assets:{0} {1} 1 {2}\n2024/01/03 ~ {8}\n",
                at(0, "a"), at(1, "food"), at(2, "BTC"), at(3, "x"), at(4, "desc"), at(5, "payee"), at(6, "comment"), at(7, "$"), at(8, "z")
            ),
        );
        ctx.put("x.csv", &format!("date,desc,amount\n2024/01/05,{},{}\n", at(9, "x"), at(10, "-3")));
        ctx.put(
            "r",
            &format!(
                "fields date, {}, amount\naccount assets:{}\naccount2 expenses:x\ndescription {}\npayee {}\nif {}\n    comment {}\n",
                at(11, "desc"), at(0, "a"), at(12, "%desc%"), at(13, "p"), at(14, "x"), at(15, "c")
            ),
        );
        ctx.state(&d);
        subs(ctx, 3)?;
        ends(ctx, &req(TODAY, &["import", "-f", JF, "--csv", "x.csv", "--rules", "r"]))?;
        ends(ctx, &req(TODAY, &["r", "-n", "-f", JF]))
    });
    // bytes that are not text, in every file, at every place
    let bytes: [&[u8]; 6] = [b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\xa6", b"\0", b"\xed\xa0\x80"];
    let bases: [(&str, &str); 4] = [(JF, RJ), ("r", RRULES), ("x.csv", RCSV), ("more", "comment more %é%\n")];
    let total: usize = bases.iter().map(|b| b.1.len() + 1).sum();
    h.explore("bytes that are not text at every place of every file", total * bytes.len(), |ctx, i| {
        files(ctx, RRULES, RCSV);
        let (mut p, b) = (i / bytes.len(), bytes[i % bytes.len()]);
        for (f, t) in bases {
            if p <= t.len() {
                let mut v = t.as_bytes()[..p].to_vec();
                v.extend(b);
                v.extend(&t.as_bytes()[p..]);
                ctx.put_bytes(f, &v);
                break;
            }
            p -= t.len() + 1;
        }
        ends(ctx, &imp)?;
        ends(ctx, &req(TODAY, &["r", "-f", JF]))
    });
    // many of everything: time and memory must not explode with the number of things in a file
    let many: &[usize] = if h.thorough { &[17, 24, 25, 33, 64, 65, 100, 129, 256, 300, 1000] } else { &[25, 33, 64, 100, 300] };
    h.explore("many things of a kind: kind x number", 24 * many.len(), |ctx, i| {
        let (kind, n) = (i % 24, many[i / 24]);
        let seq = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        let base = "account assets:a\naccount expenses:x\naccount expenses:unknown\naccount income:unknown\n2024/01/01 * x\n    assets:a    500\n    expenses:x\n";
        let (mut j, mut rules, mut csv) = (base.to_string(), "fields date, desc, amount\naccount assets:a\n".to_string(), "date,desc,amount\n2024/01/05,x,-3\n".to_string());
        match kind {
            0 => rules += &seq(&|k| format!("if x{k}\n    comment c{k}\n")),
            1 => rules += &seq(&|k| format!("if x\n    comment c{k}\n")),
            2 => rules += &("if a\n".to_string() + &seq(&|k| format!("x{k}\n")) + "    comment c\n"),
            3 => rules += &seq(&|k| format!("comment c{k}\n")),
            4 => rules = format!("fields date, desc, amount{}\naccount assets:a\n", seq(&|k| format!(", f{k}"))),
            5 => rules += &format!("comment {}\n", seq(&|_| "%desc% ".into())),
            6 => {
                for k in 0..n {
                    ctx.put(&format!("more{k}"), &format!("comment c{k}\ninclude more{}\n", k + 1));
                }
                ctx.put(&format!("more{n}"), "comment last\n");
                rules += "include more0\n";
            }
            7 => {
                ctx.put("more", "if x\n    comment c\n");
                rules += &"include more\n".repeat(n);
            }
            8 => csv += &seq(&|k| format!("2024/01/05,d{k},{k}\n")),
            9 => csv = format!("date,desc,amount\n2024/01/05,x,-3{}\n", ",y".repeat(n)),
            10 => csv = format!("date,desc,amount\n2024/01/05,\"{}\",-3\n", seq(&|k| format!("line {k}\n"))),
            11 => csv = format!("date,desc,amount\n2024/01/05,\"{}\",-3\n", "\"\"".repeat(n)),
            12 => j = seq(&|k| format!("account assets:n{k}\n    expense e{k} due every 3rd\n        amount 5\n        funding aggressive\n")) + base,
            13 => j = format!("account assets:a\n{}account expenses:x\naccount expenses:unknown\n2024/01/01 * x\n    assets:a    500\n    expenses:x\n", seq(&|k| format!("    expense e{k} due every 3rd\n        amount 5\n        funding conservative\n"))),
            14 => j = format!("account assets:a\n    expense e due every 3rd\n        amount 5\n{}account expenses:x\naccount expenses:unknown\n2024/01/01 * x\n    assets:a    500\n    expenses:x\n", seq(&|k| format!("        for expenses:y{k}\n"))),
            15 => j += &seq(&|k| format!("2024/01/{:02} ~ d{k}\n    assets:a    1 C{k}\n    expenses:x\n", k % 28 + 1)),
            16 => j += &format!("2024/01/02 * many\n{}    expenses:x\n", seq(&|_| "    assets:a    1\n".into())),
            17 => j = "date_format %Y/%m/%d\n".repeat(n) + base,
            18 => j = seq(&|k| format!("currency C{k}\n")) + base,
            19 => j = format!("account assets{}\n{base}", ":s".repeat(n)),
            20 => {
                ctx.put("part", "2024/01/02 * y\n    assets:a    1\n    expenses:x\n");
                j += &"include part\n".repeat(n);
            }
            21 => {
                for k in 0..n {
                    ctx.put(&format!("d{k}/p"), &format!("include ../d{}/p\n", k + 1));
                }
                ctx.put(&format!("d{n}/p"), "2024/01/02 * y\n    assets:a    1\n    expenses:x\n");
                j += "include d0/p\n";
            }
            22 => j += &seq(&|k| format!("// {k}\n\n; {k}\n")),
            _ => j += &seq(&|k| format!("2024/01/02 * y [{}]\n    assets:a    0.00000001\n    expenses:x\n", "[".repeat(k))),
        }
        ctx.put(JF, &j);
        ctx.put("r", &rules);
        ctx.put("x.csv", &csv);
        ctx.state(&(kind, n));
        subs(ctx, 3)?;
        ends(ctx, &req(TODAY, &["import", "-f", JF, "--csv", "x.csv", "--rules", "r"]))?;
        ends(ctx, &req(TODAY, &["r", "-n", "-f", JF]))
    });
    // size: long lines, many entries, deep includes, files that are directories
    h.explore("sizes", 12, |ctx, i| {
        let body = match i {
            0 => format!("2024/01/01 * {}\n    assets:a    5\n    expenses:x\n", "x".repeat(1 << 20)),
            1 => format!("2024/01/01 * x\n    assets:a    {}\n    expenses:x\n", "9".repeat(1 << 16)),
            2 => "2024/01/01 * x\n    assets:a    5\n    expenses:x\n".repeat(5000),
            3 => format!("2024/01/01 * x\n{}    expenses:x\n", "    assets:a    5\n".repeat(5000)),
            4 => "[".repeat(1 << 16),
            5 => " ".repeat(1 << 20),
            6 => "\n".repeat(1 << 20),
            7 => "account ".to_string() + &"a".repeat(1 << 20),
            8 => {
                for k in 0..300 {
                    ctx.put(&format!("d{k}"), &format!("include d{}\n", k + 1));
                }
                ctx.put("d300", "account assets:deep\n");
                "include d0\n".into()
            }
            9 => {
                for k in 0..8 {
                    ctx.put(&format!("d{k}"), &format!("include d{}\ninclude d{}\n", k + 1, k + 1));
                }
                ctx.put("d8", "");
                "include d0\n".into()
            }
            10 => {
                ctx.put("dir/x", "");
                "include dir\n".into()
            }
            _ => String::new(),
        };
        let t = if i == 11 { String::new() } else { format!("account assets:a\naccount expenses:x\n{body}") };
        ctx.put(JF, &t);
        ctx.state(&i);
        subs(ctx, 3)
    });
    super::layout::cycles(h);
    super::imports::rule_cycles(h);
    h.finish(
        "all sequences of journal lines, rules lines, csv pieces and arguments up to a length; every single edit (30 texts inserted, replacing, deletion, truncation) of files that use every feature; products of frequencies, extreme dates, amounts, terminal widths and names; undecodable bytes at every place; 24 kinds of things, up to 300 (thorough: 1000) of each: every run ends by itself, without panic, abort or resource limit",
        &["each run may use 8 s of processor time, 2 GiB of memory and 8 MiB of stack", "debug build: arithmetic overflow panics"],
    )
}
