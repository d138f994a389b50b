//! C19: nothing that a user sees depends on the order of hash tables.
use super::layout::sorted_entries;
use crate::cal::*;
use crate::fw::*;
use crate::sut::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

const T0: Day = 19737; // 2024-01-15

/// blocks of a journal, each with its definitions and its entries; every subset makes a journal
const BLOCKS: [(&str, &str); 8] = [
    (
        "account assets:a\n    expense food due every 20th\n        amount 50\n        funding aggressive\n    goal trip by 2024/03/01\n        amount 460\n        funding conservative\n    expense rent due every 1st\n        amount 70\n        funding aggressive\naccount assets:b\n    expense gas due every friday\n        amount 20\n        funding conservative\n    expense tea due every monday\n        amount 3\n        funding aggressive\n",
        "2024/01/02 * pay\n    assets:a    100\n    assets:b    15\n    income:i\n",
    ),
    (
        "account assets:c\n    goal gold by 2025/01/01\n        amount 5 AU\n        funding aggressive\n    goal fx by 2025/01/01\n        amount 500 EUR\n        funding conservative\n",
        "2024/01/03 ? many\n    assets:c    4 AU\n    equity:q    -4 AU\n2024/01/03 * more\n    assets:c    40 EUR\n    equity:q    -40 EUR\n2024/01/04 * more\n    assets:c    $7\n    equity:q    -$7\n2024/01/04 * still more\n    assets:c    0.5 BTC\n    equity:q    -0.5 BTC\n",
    ),
    ("account assets:d\n", "2024/01/05 ~ swap\n    assets:d    3 AU @ 2.5\n    income:i\n2024/01/06 ~ swap\n    assets:d    -1 AU = -3\n    assets:a    3\n"),
    (
        "account assets:e\n    expense one due every 5th\n        amount 30\n        funding aggressive\n        for expenses:x\n    expense two due every 5th\n        amount 30\n        funding aggressive\n        for expenses:y\n    expense both due every 5th\n        amount 30\n        for expenses:x\n        for expenses:y\n",
        "2024/01/01 * in\n    assets:e    25\n    income:i\n2024/01/07 * spent\n    assets:e    -9\n    expenses:x    4\n    expenses:y\n",
    ),
    ("", "2024/01/08 * split\n    assets:a    -6\n    assets:b    -1\n    expenses:x    3\n    expenses:y    2\n    expenses:z\n2024/01/08 ? from many\n    income:i    -1\n    income:k    -2\n    assets:a\n"),
    ("account assets:f\n    goal car by no date\n        amount 1000\n    goal bike by 2024/01/20\n        amount 90\n        funding aggressive\n    goal boat by 2024/01/20\n        amount 90\n        funding aggressive\n", "2024/01/09 * in\n    assets:f    100\n    income:k\n2024/01/10 * set aside\n    envelope assets:f car 30\n    envelope assets:f bike -5\n"),
    ("", "2024/01/11 * nowhere\n    nowhere:one    1\n    nowhere:two    -1\n"), // refused
    ("", "2024/01/12 * unbalanced\n    assets:a    1\n    expenses:x    -1 AU\n    expenses:y    $1\n    income:i\n"), // refused
];
const COMMON: &str = "account income:i\naccount income:k\naccount expenses:x\naccount expenses:y\naccount expenses:z\naccount expenses:unknown\naccount income:unknown\naccount equity:q\n";
const RULES: [&str; 7] = [
    "fields date, description, amount\naccount1 assets:a\namount1 %amount%\naccount2 expenses:x\n",
    "fields date, description, amount\naccount1 assets:a\namount1 %amount%\naccount2 expenses:x\namount2 -1\naccount3 expenses:y\n",
    "fields date, description, amount\naccount1 assets:a\namount1 %amount%\naccount2 expenses:x\namount2 -%amount%\naccount3 expenses:y\namount3 2\naccount4 income:i\namount4 -2\n",
    // every order of replacing fields by their values gives something else, if done one by one
    "fields date, description, amount\naccount assets:a\ncomment %description% %amount% %date% %%\ndescription %description%\npayee %description%\n",
    // two records' worth of faults
    "fields date, description, amount\naccount1 assets:a\namount1 %amount%\naccount2 nowhere:%amount%\naccount3 expenses:x\n",
    "fields date, description, amount\naccount1 assets:a\namount1 %amount%\naccount2 expenses:x\naccount3 expenses:y\n",
    "fields date, description, amount\naccount assets:a\nif shop\n    account2 expenses:x\n    amount2 -%amount%\nif fox\n    account expenses:y\n    account_b assets:a\n    amount_b 3\n",
];
const CSV: &str = "date,description,amount\n2024/01/04,%amount% %date%,-4\n2024/01/05,a shop,5.5\n2024/01/05,the %description% fox,-3\n";
type Seen = (String, bool, i32, BTreeMap<String, String>);

fn observe(ctx: &mut Ctx, files: &[(&str, String)], reqs: &[Req], seed: u64) -> (Vec<Seen>, String) {
    ctx.reset();
    for (n, c) in files {
        ctx.put(n, c);
    }
    let mut v = vec![];
    for r in reqs {
        let r = ctx.run(&Req { seed, ..r.clone() });
        let fs = ctx.srv.snapshot().into_iter().map(|(n, c)| (n, sorted_entries(&String::from_utf8_lossy(&c)))).collect();
        v.push((r.out, r.err.is_empty(), r.status, fs));
    }
    (v, ctx.get(JF))
}
fn compare(ctx: &mut Ctx, files: &[(&str, String)], reqs: &[Req], seeds: std::ops::Range<u64>, orders: &Mutex<BTreeMap<String, BTreeSet<String>>>, name: &str) -> Check {
    let (first, text0) = observe(ctx, files, reqs, 0);
    let mut texts = BTreeSet::new();
    texts.insert(text0);
    for s in seeds {
        let (v, t) = observe(ctx, files, reqs, s);
        for (k, (a, b)) in first.iter().zip(&v).enumerate() {
            ctx.need(a == b, || {
                let what = if a.0 != b.0 { format!("stdout {:?} with seed 0, {:?} with seed {s}", a.0, b.0) } else if a.3 != b.3 { format!("files {:?} with seed 0, {:?} with seed {s}", a.3, b.3) } else { format!("verdict: accepted {} status {} with seed 0, {} {} with seed {s}", a.1, a.2, b.1, b.2) };
                format!("{:?} (command {k}) gives different results with different hash seeds: {what}", reqs[k].args)
            })?;
        }
        texts.insert(t);
        ctx.t.traces += 1;
        ctx.state(&(name, s, files));
    }
    ctx.outcome(if first.iter().all(|x| x.1) { "accepted" } else { "refused" });
    orders.lock().unwrap().entry(name.into()).or_default().extend(texts);
    Ok(())
}
pub fn c19(h: &Harness) -> i32 {
    let n = if h.thorough { 512 } else { 24 };
    let orders = Mutex::new(BTreeMap::new());
    let journal = |m: usize| {
        let mut j = COMMON.to_string();
        // the blocks refer to each other's accounts
        let heads: usize = m | 0b1101;
        for (k, b) in BLOCKS.iter().enumerate() {
            if heads >> k & 1 == 1 {
                j += b.0;
            }
        }
        for (k, b) in BLOCKS.iter().enumerate() {
            if m >> k & 1 == 1 {
                j += b.1;
            }
        }
        j
    };
    // reports and funding, over three days
    h.explore(&format!("all {} subsets of eight blocks, reports and funding on three days, {n} seeds", 1 << BLOCKS.len()), (1 << BLOCKS.len()) * 3, |ctx, i| {
        let (m, c) = (i / 3, i % 3);
        let files = [(JF, journal(m))];
        let sub = ["b", "e", "r"][c];
        let mut reqs = vec![req(T0, &[sub, "-n", "-f", JF])];
        for d in [0, 1, 5] {
            reqs.push(req(T0 + d, &[sub, "-f", JF]));
        }
        compare(ctx, &files, &reqs, 1..n, &orders, "reports")
    });
    // many accounts with envelopes, many envelopes, many currencies
    let many: &[usize] = &[2, 5, 9, 15, 16, 17, 20, 31, 33, 40, 65];
    h.explore(&format!("many accounts with envelopes, many envelopes, currencies and postings, {n} seeds"), many.len() * 4 * 3, |ctx, i| {
        let (k, kind, c) = (many[i / 12], i / 3 % 4, i % 3);
        let mut j = String::from("account income:i\n");
        let mut es = String::new();
        for a in 0..k {
            let env = |n: usize, sym: &str| format!("    {} e{n} due every {}th\n        amount {}{sym}\n        funding {}\n        for expenses:x{}\n", ["expense", "goal"][n % 2], n % 28 + 1, 10 + n, ["aggressive", "conservative"][n / 2 % 2], n % 3);
            match kind {
                0 => {
                    j += &format!("account assets:accounts:at:the:bank:a{a}\n{}{}", env(a, ""), env(a + 1, ""));
                    es += &format!("2024/01/02 * in\n    assets:accounts:at:the:bank:a{a}    {}\n    income:i\n", a * 3);
                }
                1 => {
                    j += &if a == 0 { format!("account assets:a\n{}", env(a, "")) } else { env(a, "") };
                    es += &format!("2024/01/02 * in\n    assets:a    {}\n    income:i\n", a % 5);
                }
                3 => {
                    // names that differ in case only, or in how the parts are cut
                    let n = (0..7).map(|b| if a >> b & 1 == 1 { "AssETS:"[b..b + 1].to_uppercase() } else { "assets:"[b..b + 1].to_string() }).collect::<String>();
                    j += &format!("account {n}{}\n{}{}", ["x", "X", ":x"][a % 3], env(a % 2, ""), env(a % 2 + 1, ""));
                    es += &format!("2024/01/02 * in\n    {n}{}    {}\n    income:i\n", ["x", "X", ":x"][a % 3], 3 + a % 5);
                }
                _ => {
                    let sym = format!(" C{}", ["A", "B", "C", "D", "E", "F", "G", "H"][a % 8].repeat(a / 8 + 1));
                    j += &if a == 0 { format!("account assets:a\n{}", env(a, &sym)) } else { env(a, &sym) };
                    es += &format!("2024/01/02 * in\n    assets:a    {}{sym}\n    income:i\n", a % 5);
                }
            }
        }
        j += "account expenses:x0\naccount expenses:x1\naccount expenses:x2\n";
        if kind < 2 {
            let from = ["assets:accounts:at:the:bank:a0", "assets:a"][kind];
            es += &format!("2024/01/09 * spent\n    {from}    -2.5\n    expenses:x1    1\n    expenses:x2\n");
        }
        let files = [(JF, format!("{j}{es}"))];
        let sub = ["b", "e", "r"][c];
        let mut reqs = vec![req(T0, &[sub, "-n", "-f", JF])];
        for d in [0, 1, 5] {
            reqs.push(req(T0 + d, &[sub, "-f", JF]));
        }
        compare(ctx, &files, &reqs, 1..n.min(24), &orders, "many")
    });
    // imports
    let nr = RULES.len();
    let seeds = if h.thorough { 20_000 } else { 400 };
    let per = 50;
    let chunks = seeds / per;
    h.explore(&format!("{nr} import rules, with and without funding, {seeds} seeds"), nr * 2 * chunks as usize, |ctx, i| {
        let (k, c) = (i % (nr * 2), (i / (nr * 2)) as u64);
        let mut args = vec!["import", "-f", JF, "--csv", "x.csv", "--rules", "r"];
        if k % 2 == 1 {
            args.push("-n");
        }
        let files = [(JF, journal(1)), ("x.csv", CSV.to_string()), ("r", RULES[k / 2].to_string())];
        let reqs = [req(T0, &args), req(T0, &["b", "-n", "-f", JF]), req(T0, &["e", "-n", "-f", JF]), req(T0, &["r", "-n", "-f", JF])];
        compare(ctx, &files, &reqs, c * per + 1..(c + 1) * per + 1, &orders, &format!("import {k}"))
    });
    let o = orders.into_inner().unwrap();
    let w: Vec<String> = o.iter().filter(|(k, _)| k.starts_with("import")).map(|(k, v)| format!("{k}: {}", v.len())).collect();
    h.bound(format!("number of different texts (orders of postings) that imports wrote, showing that the seeds reach different table orders: {}", w.join(", ")));
    h.finish(
        "all subsets of eight journal blocks (envelopes competing for money, several currencies, costs, shared links, faults) x commands x days x hash seeds, many accounts, envelopes and currencies x seeds, and imports x hash seeds: reports, verdicts and written entries (up to the order of postings) are the same as with seed 0",
        &["hash seeds are enumerated, not all 2^128: tables here have few entries, and the orders reached are counted", "the text of an error may name either of two faults"],
    )
}
