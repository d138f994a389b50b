//! Journals that are wide rather than deep: many postings, currencies, envelopes, linked accounts, accounts,
//! words and letters; all pairs of names that look alike; amounts of all magnitudes. Every check runs its own
//! comparison on each of them.
use super::funds;
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::model::*;

pub const T: Day = 19737; // 2024-01-15, a Monday

/// every size up to `n`, then the sizes around powers of two (and ten)
fn sizes(n: usize, far: &[usize]) -> Vec<usize> {
    (1..=n).chain(far.iter().copied()).collect()
}
fn dated(k: usize) -> Day {
    T - 60 + (k as i64 * 7) % 50
}
fn rotate(v: &[Item], k: usize) -> Vec<Item> {
    let mut v = v.to_vec();
    let n = v.len().max(1);
    v.rotate_left(k % n);
    v
}

/// one entry of k postings; where the blank and where a foreign posting is
fn postings(k: usize, blank: usize, foreign: usize, few: bool, sym: &str) -> Vec<Item> {
    let name = |j: usize| if few { ["assets:a", "expenses:x", "income:i"][j % 3].to_string() } else { format!("{}:n{j}", ["assets", "expenses", "income", "liabilities"][j % 4]) };
    let at = |w: usize| match w {
        0 => None,
        1 => Some(0),
        2 => Some(k / 2),
        _ => Some(k - 1),
    };
    let b = at(blank);
    let mut f = at(foreign);
    if f.is_some() && f == b {
        f = Some((f.unwrap() + 1) % k);
    }
    let mut sum = 0.0;
    let mut posts = vec![];
    for j in 0..k {
        let m = ((j * 37) % 64) as f64 / 4.0 - 5.0;
        if Some(j) == b {
            posts.push(real(&name(j), None));
        } else if Some(j) == f {
            posts.push(Post::Real { acct: name(j), amt: Some(amt(2.0, "BTC")), cost: Some(Cost::Unit(amt(3.5, ""))) });
            sum += 7.0;
        } else if b.is_none() && j == (0..k).rev().find(|x| Some(*x) != f).unwrap_or(0) {
            posts.push(real(&name(j), Some(amt(-sum, sym))));
        } else {
            posts.push(real(&name(j), Some(amt(m, sym))));
            sum += m;
        }
    }
    // an entry that completes its sum before its last foreign posting: let the completing posting know
    if b.is_none() {
        if let Some(fj) = f {
            let c = (0..k).rev().find(|x| *x != fj).unwrap();
            let mut s = 0.0;
            for (j, p) in posts.iter().enumerate() {
                if j != c {
                    if let Post::Real { amt: Some(a), .. } = p {
                        s += if a.sym == "BTC" { 7.0 } else { a.mag };
                    }
                }
            }
            posts[c] = real(&name(c), Some(amt(-s, sym)));
        }
    }
    let mut names: Vec<String> = (0..k).map(name).collect();
    names.sort();
    names.dedup();
    let mut v: Vec<Item> = names.iter().map(|n| if n.starts_with("assets") { Item::Account(n.clone(), vec![probe("p", ""), probe("d", "$")]) } else { acct(n) }).collect();
    v.push(Item::Entry(entry(T - 20, "wide", posts)));
    v
}
/// one entry from k accounts to one, or from one to k
fn one_sided(k: usize, way: usize) -> Vec<Item> {
    let (one, many) = (if way & 1 == 0 { "assets:one" } else { "expenses:one" }, if way & 2 == 0 { "assets" } else { "income" });
    let sign = if way & 4 == 0 { -1.0 } else { 1.0 };
    let name = |j: usize| format!("{many}:n{j}");
    let mut posts: Vec<Post> = (0..k).map(|j| real(&name(j), Some(amt(sign * (1.0 + (j % 7) as f64 / 4.0), "")))).collect();
    let p = real(one, if way & 8 == 0 { None } else { Some(amt(-sign * (0..k).map(|j| 1.0 + (j % 7) as f64 / 4.0).sum::<f64>(), "")) });
    posts.insert([0, k / 2, k][way / 16], p);
    let mut v: Vec<Item> = (0..k).map(|j| acct(&name(j))).collect();
    v.push(acct(one));
    v.push(Item::Entry(entry(T - 20, "one-sided", posts)));
    v
}
/// k currencies in one account
fn currencies(k: usize, order: usize) -> Vec<Item> {
    let sym = |j: usize| if j == 0 { String::new() } else { format!("C{}", "abcdefghijklmnopqrstuvwxyz".chars().cycle().skip(j).take(2 + j / 26).collect::<String>()) };
    let mut es = vec![];
    for r in 0..3 {
        for j in 0..k {
            let m = (1.0 + j as f64 + [0.25, -3.5, 100.0][r]) * if order == 2 && (j % 2 == 1) || order == 3 && j % 3 != 1 { -1.0 } else { 1.0 };
            let (a, b) = (real(A, Some(amt(m, &sym(j)))), real(I, None));
            es.push(Item::Entry(entry(dated(j + r), "c", if (j + r) % 2 == 0 { vec![a, b] } else { vec![b, a] })));
        }
    }
    if order == 1 {
        es.reverse();
    }
    let mut v = vec![Item::Account(A.into(), vec![probe("p", ""), probe("last", &sym(k - 1))]), acct(I)];
    v.extend(es);
    v.push(Item::Entry(entry(T - 3, "m", vec![envp(A, "last", amt(2.5, &sym(k - 1)))])));
    v
}
/// k envelopes in an account, each linked to an account of its own, with plenty of money or little
fn envelopes(k: usize, kind: usize, money: f64, fund: usize) -> Vec<Item> {
    let freqs = [Freq::Monthly(20), Freq::Weekly(3), Freq::Once(T + 32), Freq::Monthly(31), Freq::Never, Freq::Weekly(0)];
    let mut list = vec![];
    for j in 0..k {
        let mut e = env(&format!("e{j}"), freqs[(j + fund) % if fund == 2 { 4 } else { 6 }], amt(8.0 + j as f64, ""), &[&format!("expenses:x{j}")], [Funding::Aggressive, Funding::Conservative, Funding::Aggressive, Funding::Manual][(j + fund) % if fund == 2 { 3 } else { 4 }]);
        e.goal = match kind {
            0 => false,
            1 => true,
            _ => j % 2 == 1,
        };
        list.push(e);
    }
    let mut v: Vec<Item> = vec![Item::Account(A.into(), list), acct(I)];
    v.extend((0..k).map(|j| acct(&format!("expenses:x{j}"))));
    v.push(Item::Entry(entry(T - 55, "start", vec![real(A, Some(amt(money, ""))), real(I, None)])));
    for j in 0..k {
        if j % 3 != 2 {
            v.push(Item::Entry(entry(dated(j), "save", vec![envp(A, &format!("e{j}"), amt(1.5 + j as f64 / 8.0, ""))])));
        }
        if j % 4 == 1 {
            v.push(Item::Entry(entry(dated(j + 3), "spend", vec![real(A, Some(amt(-0.5 - j as f64 / 4.0, ""))), real(&format!("expenses:x{j}"), None)])));
        }
    }
    v
}
/// one envelope that is for k accounts
fn links(k: usize, together: bool) -> Vec<Item> {
    let names: Vec<String> = (0..k).map(|j| format!("expenses:x{j}")).collect();
    let fors: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let mut v = vec![Item::Account(A.into(), vec![env("all", Freq::Monthly(5), amt(500.0, ""), &fors, Funding::Aggressive), env("last", Freq::Never, amt(50.0, ""), &fors[k - 1..], Funding::Unset)]), acct(I)];
    v.extend(names.iter().map(|n| acct(n)));
    v.push(Item::Entry(entry(T - 50, "start", vec![real(A, Some(amt(2000.0, ""))), real(I, None)])));
    if together {
        let mut ps: Vec<Post> = names.iter().enumerate().map(|(j, n)| real(n, Some(amt(1.0 + j as f64, "")))).collect();
        ps.push(real(A, None));
        v.push(Item::Entry(entry(T - 20, "all", ps)));
    } else {
        for (j, n) in names.iter().enumerate() {
            v.push(Item::Entry(entry(dated(j), "one", vec![real(A, Some(amt(-1.0 - j as f64, ""))), real(n, None)])));
        }
    }
    v
}
/// k accounts with an envelope each
fn accounts(k: usize) -> Vec<Item> {
    let nm = |j: usize| format!("assets:bank{}", (j * 29) % 1009);
    let mut v: Vec<Item> = (0..k).map(|j| Item::Account(nm(j), vec![env("food", Freq::Monthly(20), amt(10.0 + j as f64, ""), &[X], [Funding::Aggressive, Funding::Conservative][j % 2])])).collect();
    v.push(acct(X));
    v.push(acct(I));
    for j in 0..k {
        v.push(Item::Entry(entry(dated(j), "in", vec![real(&nm(j), Some(amt(30.0 + j as f64, ""))), real(I, None)])));
        if j % 2 == 1 {
            v.push(Item::Entry(entry(dated(j + 1), "out", vec![real(&nm(j), Some(amt(-2.5, ""))), real(X, None)])));
        }
    }
    v
}
fn texts(k: usize, kind: usize) -> Vec<Item> {
    let (mut d, mut a, mut e, mut p) = ("lunch".to_string(), "assets:a".to_string(), "food".to_string(), None);
    match kind {
        0 => d = (0..k).map(|j| format!("w{j}")).collect::<Vec<_>>().join(" "),
        1 => d = "abcdefghij".chars().cycle().take(k).collect(),
        2 => d = "äßçd".chars().cycle().take(k).collect(),
        3 => a = format!("assets:{}", "bcdefgh".chars().cycle().take(k).collect::<String>()),
        4 => a = format!("assets{}", (0..k).map(|j| format!(":s{j}")).collect::<String>()),
        5 => a = format!("assets:{}", "éüñ".chars().cycle().take(k).collect::<String>()),
        6 => e = "pqrstuv".chars().cycle().take(k).collect(),
        7 => e = "ÄÖÜx".chars().cycle().take(k).collect(),
        _ => p = Some((0..k).map(|j| format!("p{j}")).collect::<Vec<_>>().join(" ")),
    }
    let mut first = entry(T - 30, &d, vec![real(&a, Some(amt(100.0, ""))), real(I, None)]);
    first.payee = p.clone();
    let mut second = entry(T - 20, &d, vec![real(&a, Some(amt(-7.5, ""))), real(X, None)]);
    second.payee = p;
    vec![
        Item::Account(a.clone(), vec![env(&e, Freq::Monthly(20), amt(40.0, ""), &[X], Funding::Aggressive)]),
        acct(I),
        acct(X),
        Item::Entry(first),
        Item::Entry(entry(T - 25, "save", vec![envp(&a, &e, amt(10.0, ""))])),
        Item::Entry(second),
    ]
}
fn symbols(k: usize, kind: usize) -> Vec<Item> {
    let s: String = ["Dollars", "€uro", "ÄÖ"][kind].chars().cycle().take(k).collect();
    let t: String = s.chars().chain("q".chars()).collect();
    let mut v = vec![Item::Account(A.into(), vec![env("food", Freq::Monthly(20), amt(40.0, &s), &[X], Funding::Aggressive), env("car", Freq::Weekly(3), amt(20.0, &t), &[], Funding::Conservative)]), acct(I), acct(X)];
    for (j, y) in [&s, &t].into_iter().enumerate() {
        v.push(Item::Entry(entry(T - 30 + j as i64, "in", vec![real(A, Some(amt(100.5 - j as f64, y))), real(I, None)])));
    }
    v.push(Item::Entry(entry(T - 20, "out", vec![real(A, Some(amt(-3.25, &s))), real(X, Some(amt(3.25, &s)))])));
    v
}
/// account names that look alike
pub const NAMES: &[&str] = &[
    "assets:a", "assets:A", "Assets:a", "assets:ab", "assets:a:b", "assets:a2", "assets:a-b", "assets:a_b", "assets:á", "assets", "asset:a", "assets:", "a", "ab", "assets:a:", "xassets:a", "expenses:assets:a",
    "assets:aa", "assets:b",
];
/// one account with an envelope, another of a similar name with its own; money, spending and manual moves on both
fn alike(p: &str, q: &str, role: usize) -> Vec<Item> {
    let e = |n: &str, f: &[&str]| env(n, Freq::Monthly(20), amt(40.0, ""), f, Funding::Aggressive);
    let mut v = vec![acct("zz:i")];
    match role {
        0 => {
            // both have an envelope of the same name for the same account
            v.push(Item::Account(p.into(), vec![e("food", &["zz:x"])]));
            v.push(Item::Account(q.into(), vec![e("food", &["zz:x"])]));
            v.push(acct("zz:x"));
            for (j, (a, m)) in [(p, 100.0), (q, 64.0)].into_iter().enumerate() {
                v.push(Item::Entry(entry(T - 40 + j as i64, "in", vec![real(a, Some(amt(m, ""))), real("zz:i", None)])));
                v.push(Item::Entry(entry(T - 35 + j as i64, "save", vec![envp(a, "food", amt(8.0 + j as f64, ""))])));
            }
            v.push(Item::Entry(entry(T - 20, "out", vec![real(p, Some(amt(-5.0, ""))), real("zz:x", None)])));
            v.push(Item::Entry(entry(T - 19, "both", vec![real(q, Some(amt(-2.0, ""))), real(p, Some(amt(1.0, ""))), real("zz:x", None)])));
        }
        1 => {
            // only the first has an envelope
            v.push(Item::Account(p.into(), vec![e("food", &["zz:x"])]));
            v.push(acct(q));
            v.push(acct("zz:x"));
            v.push(Item::Entry(entry(T - 40, "in", vec![real(p, Some(amt(100.0, ""))), real("zz:i", None)])));
            v.push(Item::Entry(entry(T - 30, "out", vec![real(q, Some(amt(-5.0, ""))), real("zz:x", None)])));
            v.push(Item::Entry(entry(T - 29, "out", vec![real(p, Some(amt(-2.0, ""))), real(q, None)])));
        }
        _ => {
            // the names as linked accounts: the envelope is for the first only
            v.push(Item::Account("zz:own".into(), vec![e("food", &[p]), env("more", Freq::Never, amt(40.0, ""), &[q], Funding::Unset)]));
            v.push(acct(p));
            v.push(acct(q));
            v.push(Item::Entry(entry(T - 40, "in", vec![real("zz:own", Some(amt(100.0, ""))), real("zz:i", None)])));
            v.push(Item::Entry(entry(T - 30, "out", vec![real("zz:own", Some(amt(-5.0, ""))), real(p, None)])));
            v.push(Item::Entry(entry(T - 29, "out", vec![real("zz:own", Some(amt(-3.0, ""))), real(q, None)])));
            v.push(Item::Entry(entry(T - 28, "out", vec![real("zz:own", Some(amt(-3.0, ""))), real(q, Some(amt(2.0, ""))), real(p, Some(amt(1.0, "")))])));
        }
    }
    v
}
/// envelope names that look alike
pub const ENVS: &[&str] = &["food", "Food", "FOOD", "foo", "foods", "food2", "food_", "food-x", "food:x", "fo", "f", "föod", "FÖOD", "foöd", "expense", "goal", "for", "due", "amount", "available"];
fn alike_envs(p: &str, q: &str, role: usize) -> Vec<Item> {
    let mk = |n: &str, goal: bool, f: Funding| {
        let mut e = env(n, Freq::Monthly(20), amt(40.0, ""), &[X], f);
        e.goal = goal;
        e
    };
    let (a, b) = match role {
        0 => (mk(p, false, Funding::Unset), mk(q, false, Funding::Aggressive)),
        1 => (mk(p, true, Funding::Conservative), mk(q, true, Funding::Unset)),
        2 => (mk(p, false, Funding::Aggressive), mk(q, true, Funding::Unset)),
        _ => (mk(p, false, Funding::Aggressive), mk(q, false, Funding::Conservative)),
    };
    let mut v = vec![];
    let other = if role == 3 {
        v.push(Item::Account(A.into(), vec![a]));
        v.push(Item::Account(B.into(), vec![b]));
        B
    } else {
        v.push(Item::Account(A.into(), vec![a, b]));
        v.push(acct(B));
        A
    };
    v.push(acct(I));
    v.push(acct(X));
    v.push(Item::Entry(entry(T - 40, "in", vec![real(A, Some(amt(100.0, ""))), real(I, None)])));
    v.push(Item::Entry(entry(T - 39, "in", vec![real(B, Some(amt(50.0, ""))), real(I, None)])));
    v.push(Item::Entry(entry(T - 30, "save", vec![envp(A, p, amt(8.0, ""))])));
    v.push(Item::Entry(entry(T - 29, "save", vec![envp(other, q, amt(3.0, "")), envp(A, p, amt(-1.0, ""))])));
    v
}
/// amounts of the magnitude 10^e
fn magnitude(e: i32, m: usize, sym: &str) -> Vec<Item> {
    let r = |x: f64| format!("{:.8}", x).parse::<f64>().unwrap();
    let b = 10f64.powi(e) * [1.0, 1.23456789, 9.87654321, 2.5][m];
    let (x, y, z) = (r(b), r(b / 4.0), r(b * 0.7));
    let mut cost = vec![];
    if sym.is_empty() && e < 6 {
        cost = vec![Post::Real { acct: A.into(), amt: Some(amt(y.max(1e-8), "BTC")), cost: Some(Cost::Unit(amt(0.40625, ""))) }, real(B, None)];
    }
    let mut v = vec![
        Item::Account(A.into(), vec![env("food", Freq::Monthly(20), amt(z, sym), &[X], Funding::Conservative), env("big", Freq::Once(T + 300), amt(x * 2.0, sym), &[], Funding::Aggressive)]),
        Item::Account(B.into(), vec![env("rent", Freq::Monthly(31), amt(y, sym), &[X], Funding::Aggressive)]),
        acct(I),
        acct(X),
        Item::Entry(entry(T - 40, "in", vec![real(A, Some(amt(x, sym))), real(I, None)])),
        Item::Entry(entry(T - 39, "move", vec![real(A, Some(amt(-y, sym))), real(B, Some(amt(y, sym)))])),
        Item::Entry(entry(T - 35, "save", vec![envp(A, "food", amt(y, sym)), envp(A, "big", amt(y, sym))])),
        Item::Entry(entry(T - 30, "spend", vec![real(X, Some(amt(r(b / 8.0), sym))), real(A, None)])),
        Item::Entry(entry(T - 3, "more", vec![real(A, None), real(I, Some(amt(-x, sym)))])),
    ];
    if !cost.is_empty() {
        v.push(Item::Entry(entry(T - 2, "coins", cost)));
    }
    v
}
/// envelopes that hold far more, or less, than their amount, ready and for the next due date
fn fullness(now: usize, next: usize, out: usize, freq: usize) -> Vec<Item> {
    let f = [Freq::Monthly(10), Freq::Weekly(1), Freq::Once(T - 4), Freq::Never, Freq::Once(T + 9)][freq];
    let lv = [0.0, 5.0, 20.0, 32.5, 80.0];
    let mut x = env("food", f, amt(20.0, ""), &[X], [Funding::Aggressive, Funding::Conservative][now % 2]);
    x.goal = next % 2 == 1;
    let mut v = vec![Item::Account(A.into(), vec![x.clone()]), acct(I), acct(X), Item::Entry(entry(T - 50, "in", vec![real(A, Some(amt(100.0, ""))), real(I, None)]))];
    if lv[now] > 0.0 {
        v.push(Item::Entry(entry(T - 45, "save", vec![envp(A, "food", amt(lv[now], ""))])));
    }
    if lv[next] > 0.0 {
        v.push(Item::Entry(entry(T - 1, "save", vec![envp(A, "food", amt(lv[next], ""))])));
    }
    if lv[out] > 0.0 {
        v.push(Item::Entry(entry(T - 2, "spend", vec![real(A, Some(amt(-lv[out], ""))), real(X, None)])));
    }
    v
}

/// All the wide journals, with what they are.
pub fn journals(thorough: bool) -> Vec<(String, Vec<Item>)> {
    let mut v: Vec<(String, Vec<Item>)> = vec![];
    let far: &[usize] = if thorough { &[47, 48, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024] } else { &[50, 64, 65, 100, 128, 129, 200, 256, 257] };
    for k in sizes(40, far).into_iter().filter(|k| *k >= 2) {
        for b in 0..4 {
            for f in 0..4 {
                if k > 40 && (b + f) % 3 != 0 {
                    continue;
                }
                for few in [false, true] {
                    v.push((format!("an entry of {k} postings, blank {b}, foreign {f}, few accounts {few}"), postings(k, b, f, few, "")));
                }
            }
            v.push((format!("an entry of {k} postings in $, blank {b}"), postings(k, b, 0, false, "$")));
        }
    }
    for k in sizes(12, &[16, 17, 20, 33]) {
        for w in 0..48 {
            v.push((format!("an entry with {k} accounts on one side, way {w}"), one_sided(k, w)));
        }
    }
    for k in sizes(40, &[64, 65, 100, 129]) {
        for o in 0..4 {
            v.push((format!("{k} currencies"), currencies(k, o)));
        }
    }
    for k in sizes(if thorough { 20 } else { 12 }, &[16, 17, 24, 33]) {
        for kind in 0..3 {
            for fund in 0..3 {
                for money in [100000.0, 20.0 + 12.0 * k as f64] {
                    v.push((format!("{k} envelopes in an account"), envelopes(k, kind, money, fund)));
                }
            }
        }
    }
    for k in sizes(24, &[32, 33, 64, 65, 100]) {
        v.push((format!("an envelope for {k} accounts, together"), links(k, true)));
        v.push((format!("an envelope for {k} accounts"), links(k, false)));
    }
    for k in sizes(40, &[64, 65, 100, 129, 257]) {
        v.push((format!("{k} accounts with envelopes"), accounts(k)));
    }
    for kind in 0..9 {
        for k in sizes(if kind == 0 || kind == 4 || kind == 8 { 40 } else { 72 }, &[80, 81, 99, 100, 101, 127, 128, 129, 255, 256, 257]) {
            v.push((format!("texts of kind {kind} and size {k}"), texts(k, kind)));
        }
    }
    for kind in 0..3 {
        for k in sizes(24, &[32, 33, 64, 65]) {
            v.push((format!("a currency symbol of {k} characters"), symbols(k, kind)));
        }
    }
    for p in NAMES {
        for q in NAMES {
            if p != q {
                for role in 0..3 {
                    v.push((format!("accounts `{p}` and `{q}`, role {role}"), alike(p, q, role)));
                }
            }
        }
    }
    for p in ENVS {
        for q in ENVS {
            for role in 0..4 {
                if p != q || role == 3 {
                    v.push((format!("envelopes `{p}` and `{q}`, role {role}"), alike_envs(p, q, role)));
                }
            }
        }
    }
    for e in -8..=12 {
        for m in 0..4 {
            for s in ["", "$", "BTC"] {
                if 10f64.powi(e) >= 1e-7 || m == 0 {
                    v.push((format!("amounts of the magnitude 1e{e}, {m}"), magnitude(e, m, s)));
                }
            }
        }
    }
    for i in 0..5 * 5 * 5 * 5 {
        let d = digits(i, &[5, 5, 5, 5]);
        v.push((format!("an envelope {d:?} of its amount full"), fullness(d[0], d[1], d[2], d[3])));
    }
    v
}

/// Runs a comparison on every wide journal (with the entries in file order, and, for `turn`, also turned around).
pub fn explore(h: &Harness, f: impl Fn(&mut Ctx, &[Item], &World) -> Check + Sync) {
    let mut js = journals(h.thorough);
    js.extend(super::varied::journals(h.thorough));
    h.explore("wide journals: many postings, currencies, envelopes, links, accounts, long texts, names that look alike, all magnitudes; entries of every structure x pairs of incidental features", js.len(), |ctx, i| {
        let (what, items) = &js[i];
        ctx.put(JF, &render(items));
        let w = match eval(items, T) {
            Ok(w) => w,
            Err(e) => panic!("the model refuses {what}: {e}"),
        };
        f(ctx, items, &w).map_err(|mut v| {
            v.msg = format!("{what}: {}", v.msg);
            v
        })?;
        ctx.t.traces += 1;
        ctx.state(&(what.clone(), format!("{:?}", w.totals)));
        ctx.outcome(what.split([' ', '`']).find(|x| x.len() > 3).unwrap_or("wide"));
        ctx.sample(|| format!("{what}: {}", render(&rotate(items, 0)).chars().take(300).collect::<String>()));
        Ok(())
    });
}
pub fn balance(h: &Harness) {
    explore(h, |ctx, _, w| {
        let r = report(ctx, T, "b");
        chk_balance(ctx, w, &r)
    });
}
pub fn register(h: &Harness) {
    explore(h, |ctx, _, w| {
        let r = report(ctx, T, "r");
        chk_register(ctx, w, &r, "%Y/%m/%d")
    });
}
pub fn envs(h: &Harness) {
    explore(h, |ctx, _, w| {
        let r = report(ctx, T, "e");
        chk_env(ctx, w, &r, T, ALL_OPTS)
    });
}
pub fn everything(h: &Harness) {
    explore(h, |ctx, items, _| funds::c08_node(ctx, items, T));
}
pub fn accepted(h: &Harness) {
    explore(h, |ctx, _, _| {
        for s in ["b", "e", "r"] {
            let r = report(ctx, T, s);
            need_ok(ctx, &r, s)?;
        }
        Ok(())
    });
}
