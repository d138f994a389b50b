//! Single entries of every structure x all pairs of their incidental features (description, date, status, payee,
//! place in the journal): what an entry means does not depend on those.
use super::wide::T;
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::model::*;

const DESCS: &[&str] = &[
    "lunch", "move to envelopes", "Move to envelopes", "automatically generated by silverfox", "silverfox", "account", "include", "envelope food", "envelopes", "transfer", "opening balance", "starting balance", "refund",
    "*", "~", "?", "2024/01/15", "10", "-5", "@ 3", "= 7", "a", "x y z", "(a) b", "total", "import", "TODO", "date_format %d", "currency $",
];
const DATES: &[Day] = &[T - 20, T, T - 1, T + 1, T + 400, T - 4000, T - 10000, T + 9];
const PAYEES: &[Option<&str>] = &[None, Some("Shop"), Some("move to envelopes"), Some("2024/01/15"), Some("assets:a")];

fn coin(a: &str, m: f64, c: Cost) -> Post {
    Post::Real { acct: a.into(), amt: Some(amt(m, "BTC")), cost: Some(c) }
}
fn n(a: &str, m: f64) -> Post {
    real(a, Some(amt(m, "")))
}
fn s(a: &str, m: f64, y: &str) -> Post {
    real(a, Some(amt(m, y)))
}
/// entries that are sound
fn sound() -> Vec<(&'static str, Vec<Post>)> {
    let u = |x: f64| Cost::Unit(amt(x, ""));
    let t = |x: f64| Cost::Total(amt(x, ""));
    vec![
        ("stated", vec![n(A, 10.0), n(I, -10.0)]),
        ("blank", vec![n(A, 10.5), real(I, None)]),
        ("coins @", vec![coin(A, 2.0, u(3.5)), n(I, -7.0)]),
        ("coins =, blank", vec![coin(A, 2.0, t(7.25)), real(I, None)]),
        ("transfer", vec![n(A, -5.0), n(B, 5.0)]),
        ("spending, blank", vec![n(A, -5.25), real(X, None)]),
        ("spending, blank first", vec![real(A, None), n(X, 6.5)]),
        ("refund", vec![n(A, 3.0), n(X, -3.0)]),
        ("into an envelope", vec![envp(A, "food", amt(4.0, ""))]),
        ("out of an envelope", vec![envp(A, "food", amt(-4.0, ""))]),
        ("a little into an envelope", vec![envp(A, "food", amt(0.0009765625, ""))]),
        ("a little out of an envelope", vec![envp(B, "rent", amt(-0.0009765625, ""))]),
        ("spending and a move", vec![n(A, -3.25), real(X, None), envp(A, "food", amt(2.5, ""))]),
        ("a move and spending", vec![envp(B, "rent", amt(0.75, "")), n(X, 1.125), real(A, None)]),
        ("the same account twice", vec![n(A, 1.0), n(A, 2.0), real(I, None)]),
        ("blank beside its own account", vec![n(A, 1.5), n(I, -4.0), real(A, None)]),
        ("nothing", vec![n(A, 0.0), n(I, 0.0)]),
        ("nothing, blank", vec![n(X, 0.0), real(B, None)]),
        ("tiny", vec![n(A, 0.00000006), real(I, None)]),
        ("dollars", vec![s(A, 5.0, "$"), s(I, -5.0, "$")]),
        ("dollars, blank", vec![real(I, None), s(A, 5.5, "$")]),
        ("dollars spent", vec![s(A, -2.5, "$"), real(X, None), envp(A, "usd", amt(1.25, "$"))]),
        ("no asset", vec![n(L, -5.0), n(X, 5.0)]),
        ("six postings", vec![n(A, -10.0), n(X, 2.0), n(L, 3.0), n(X, 1.5), n(B, 1.0), real(I, None)]),
        ("three moves", vec![envp(A, "food", amt(1.0, "")), envp(B, "rent", amt(2.0, "")), envp(A, "usd", amt(1.0, "$"))]),
        ("twelve moves", (0..12).map(|j| if j % 3 == 1 { envp(B, "rent", amt(j as f64 + 0.5, "")) } else { envp(A, "food", amt(j as f64 - 3.25, "")) }).collect()),
        ("nine moves and spending", (0..9).map(|j| envp(A, "food", amt(0.5 + j as f64, ""))).chain([n(A, -40.0), n(X, 40.0)]).collect()),
        ("coins bought from another asset", vec![coin(A, 2.0, u(3.5)), n(B, -7.0)]),
        ("natively nothing, and coins", vec![n(A, 5.0), n(B, -5.0), coin(A, 1.0, t(1.0)), real(I, None)]),
        ("natively nothing, and coins, first", vec![coin(B, 1.0, t(1.5)), real(I, None), n(A, -4.0), n(B, 4.0)]),
        ("coins to and fro, and money", vec![coin(A, 2.0, u(3.5)), coin(B, -2.0, u(3.5)), n(A, 4.0), real(I, None)]),
        ("money, and coins to and fro", vec![n(B, 4.5), real(I, None), coin(A, -2.0, t(-3.5)), coin(B, 2.0, t(3.5))]),
        ("coins sold, blank", vec![real(A, None), coin(B, -0.5, t(-8.0))]),
    ]
}
/// entries that are not
fn unsound() -> Vec<(&'static str, Vec<Post>)> {
    let c = |a: &str, m: f64, y: &str, cost: Option<Cost>| Post::Real { acct: a.into(), amt: Some(amt(m, y)), cost };
    vec![
        ("unbalanced", vec![n(A, 10.0), n(I, -9.0)]),
        ("slightly unbalanced", vec![n(A, 10.0), n(I, -9.9990234375)]),
        ("unbalanced dollars", vec![s(A, 10.0, "$"), s(I, -9.0, "$")]),
        ("unbalanced coins at a cost", vec![coin(A, 2.0, Cost::Unit(amt(3.5, ""))), coin(B, 1.0, Cost::Unit(amt(3.5, "")))]),
        ("one posting", vec![n(A, 10.0)]),
        ("one posting and a move", vec![n(A, 10.0), envp(A, "food", amt(-10.0, ""))]),
        ("unbalanced and a move", vec![envp(A, "food", amt(1.0, "")), n(A, 10.0), n(I, -11.0)]),
        ("two blanks", vec![real(A, None), real(I, None)]),
        ("two blanks and an amount", vec![real(A, None), n(X, 5.0), real(I, None)]),
        ("two blanks and nothing", vec![real(A, None), n(X, 0.0), real(I, None)]),
        ("a blank alone", vec![real(A, None)]),
        ("coins without a cost, a blank", vec![s(A, 2.0, "BTC"), n(X, 3.0), real(I, None)]),
        ("no coins without a cost, a blank", vec![s(A, 0.0, "BTC"), n(X, 3.0), real(I, None)]),
        ("no coins without a cost, a blank in between", vec![n(X, 3.0), real(I, None), s(A, 0.0, "BTC")]),
        ("coins at a cost in coins, a blank", vec![c(A, 5.0, "BTC", Some(Cost::Total(amt(5.0, "BTC")))), n(X, 3.0), real(I, None)]),
        ("coins at a unit cost in coins, a blank", vec![c(A, 5.0, "BTC", Some(Cost::Unit(amt(2.0, "BTC")))), n(X, 3.0), real(I, None)]),
        ("coins at a cost in dollars, a blank", vec![c(A, 5.0, "BTC", Some(Cost::Total(amt(5.0, "$")))), n(X, 3.0), real(I, None)]),
        ("no coins without a cost, a blank, elsewhere", vec![s(L, 0.0, "BTC"), n(I, 3.0), real(L, None)]),
        ("coins without a cost, a blank, elsewhere", vec![real(I, None), s(L, 2.0, "BTC"), n(I, 3.0)]),
        ("coins at a cost in coins, a blank, elsewhere", vec![c(L, 5.0, "BTC", Some(Cost::Total(amt(5.0, "BTC")))), n(L, 3.0), real(I, None)]),
        ("unbalanced elsewhere", vec![n(L, 10.0), n(I, -9.0)]),
        ("two blanks elsewhere", vec![real(L, None), n(I, 2.0), real(I, None)]),
        ("an unknown account", vec![n("assets:nosuch", 10.0), n(I, -10.0)]),
        ("an unknown account, blank", vec![n(A, 10.0), real("income:nosuch", None)]),
        ("an account in other letters", vec![n("assets:A", 10.0), n(I, -10.0)]),
        ("an account in capitals, blank", vec![n(A, 10.0), real("INCOME:I", None)]),
        ("a move of an unknown account", vec![envp("assets:nosuch", "food", amt(1.0, ""))]),
        ("a move of an account in other letters", vec![envp("assets:A", "food", amt(1.0, ""))]),
        ("a move of an account in capitals beside spending", vec![n(A, -1.0), n(X, 1.0), envp("ASSETS:A", "food", amt(1.0, ""))]),
        ("a move of a part of an account's name", vec![envp("assets", "food", amt(1.0, ""))]),
    ]
}
fn heads() -> Vec<Item> {
    vec![
        Item::Account(A.into(), vec![env("food", Freq::Monthly(20), amt(100.0, ""), &[X], Funding::Aggressive), probe("usd", "$")]),
        Item::Account(B.into(), vec![env("rent", Freq::Weekly(4), amt(30.0, ""), &[X], Funding::Conservative)]),
        acct(X),
        acct(I),
        acct(L),
    ]
}
fn others() -> Vec<Item> {
    vec![
        Item::Entry(entry(T - 30, "start", vec![n(A, 60.0), n(B, 20.0), real(I, None)])),
        Item::Entry(entry(T - 10, "save", vec![envp(A, "food", amt(2.0, ""))])),
        Item::Entry(entry(T - 3, "more", vec![n(A, -1.5), real(X, None)])),
    ]
}
/// (core, description, date, status, payee, place): all pairs of features, or all combinations
fn combos(cores: usize, all: bool) -> Vec<[usize; 6]> {
    let b = [cores, DESCS.len(), DATES.len(), 3, PAYEES.len(), 4];
    (0..product(&b))
        .map(|i| {
            let d = digits(i, &b);
            [d[0], d[1], d[2], d[3], d[4], d[5]]
        })
        .filter(|d| {
            let off = d[1..].iter().filter(|x| **x > 0).count();
            // quick: at most two features are special, and of the many descriptions with a payee only some
            off <= if all { 3 } else { 2 } && (all || d[1] < 9 || off <= 1 || d[2] > 0 && d[2] < 5)
        })
        .collect()
}
fn journal(posts: &[Post], d: &[usize; 6]) -> Vec<Item> {
    let mut e = entry(DATES[d[2]], DESCS[d[1]], posts.to_vec());
    e.status = ['*', '~', '?'][d[3]];
    e.payee = PAYEES[d[4]].map(|p| p.to_string());
    let mut v = heads();
    match d[5] {
        0 => {
            v.extend(others());
            v.push(Item::Entry(e));
        }
        1 => v.push(Item::Entry(e)),
        2 => {
            v.push(Item::Entry(e));
            v.extend(others());
        }
        // before what it needs is defined
        _ => {
            v.insert(0, Item::Entry(e));
            v.extend(others());
        }
    }
    v
}
/// The sound ones, with what they are.
pub fn journals(thorough: bool) -> Vec<(String, Vec<Item>)> {
    let cores = sound();
    let v = combos(cores.len(), thorough);
    v.iter().filter(|d| d[5] < 3).map(|d| (format!("an entry ({}) called `{}` on {}", cores[d[0]].0, DESCS[d[1]], iso(DATES[d[2]])), journal(&cores[d[0]].1, d))).collect()
}
/// The others are refused by every report, whatever else is written in them, and nothing is changed.
pub fn refused(h: &Harness) {
    let cores = unsound();
    let v = combos(cores.len(), h.thorough);
    h.explore("entries with a fault x all pairs of incidental features (description, date, status, payee, place), also in an included file", v.len() * 2, |ctx, i| {
        let (what, posts) = &cores[v[i / 2][0]];
        let items = journal(posts, &v[i / 2]);
        let mut text = render(&items);
        if i % 2 == 1 {
            // the entry in a file of its own, and with comments
            let e: Vec<Item> = items.iter().filter(|x| matches!(x, Item::Entry(e) if !["start", "save", "more"].contains(&e.desc.as_str()))).cloned().collect();
            let et = render(&e);
            text = text.replace(&et, "include inc.sfox ; that one\n");
            ctx.put("inc.sfox", &et.replacen('\n', " ; comment\n", 1));
        }
        ctx.put(JF, &text);
        let sub = ["b", "e", "r"][i / 2 % 3];
        let r = ctx.run(&req(T, &if i % 5 == 0 { vec![sub, "-n", "-f", JF] } else { vec![sub, "-f", JF] }));
        need_refused(ctx, &r, &format!("a journal with an entry that has a fault ({what})"))?;
        ctx.need(ctx.get(JF) == text, || "a refused journal was changed".into())?;
        ctx.t.traces += 1;
        ctx.state(&(v[i / 2], i % 2));
        ctx.outcome(what);
        Ok(())
    });
}
