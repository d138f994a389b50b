//! C01 (balance report) and C18 (register): all short journals over a set of entry shapes.
use super::wide;
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::model::*;
use crate::outparse as op;

fn n(x: f64) -> Option<Amt> {
    Some(amt(x, ""))
}
fn s(x: f64, y: &str) -> Option<Amt> {
    Some(amt(x, y))
}
fn cost(acct: &str, a: Option<Amt>, c: Cost) -> Post {
    Post::Real { acct: acct.into(), amt: a, cost: Some(c) }
}
/// the entry shapes
pub fn shapes() -> Vec<Vec<Post>> {
    let ev = |x: f64| envp(A, "food", amt(x, ""));
    let btc = |x: f64| s(x, "BTC");
    vec![
        vec![real(A, n(-5.0)), real(X, n(5.0))],
        vec![real(A, n(12.5)), real(I, None)],
        vec![real(A, None), real(X, n(3.25))],
        vec![real(A, n(-1.0)), real(X, None), real(B, n(-2.0))],
        vec![real(A, s(-7.0, "$")), real(X, s(7.0, "$"))],
        vec![real(A, btc(2.0)), real(B, None)],
        vec![cost(A, btc(2.0), Cost::Unit(amt(100.0, ""))), real(X, n(10.0)), real(B, None)],
        vec![cost(A, btc(2.0), Cost::Total(amt(150.0, ""))), real(X, n(10.0)), real(I, None)],
        vec![real(A, btc(3.0)), real(I, btc(-3.0))],
        vec![real(A, n(-4.0)), real(A, n(-6.0)), real(X, n(10.0))],
        vec![real(A, n(-8.0)), real(B, n(8.0))],
        vec![real(A, n(0.0)), real(X, n(0.0))],
        vec![real(A, n(5.0)), real(X, n(-5.0))],
        vec![real(L, n(-20.0)), real(X, n(20.0))],
        vec![real(A, n(-5.0)), real(X, n(5.0)), ev(-5.0)],
        vec![ev(3.0)],
        vec![],
        vec![real(A, n(1000000.5)), real(I, n(-1000000.5))],
        vec![real(A, n(-0.00390625)), real(X, n(0.00390625))],
        vec![cost(A, btc(2.0), Cost::Unit(amt(50.0, ""))), real(I, n(-100.0))],
        vec![real(A, s(5.0, "$")), real(A, s(6.0, "EUR")), real(I, s(-5.0, "$")), real(I, s(-6.0, "EUR"))],
        vec![real(A, s(-3.0, "€")), real(X, s(3.0, "€"))],
        vec![real(B, None), real(A, s(4.0, "$"))],
        vec![real(X, n(5.0)), real(X, n(-2.0)), real(A, None)],
        vec![real(A, n(-5.5)), real(X, n(2.25)), real(Q, n(3.25))],
        vec![real(A, n(10.0)), real(I, n(-4.0)), real(I, None)],
        vec![real(A, n(-5.0)), ev(2.0), real(X, None)],
        vec![real(A, s(-3.0, "$")), real(A, None)],
        vec![real(L, None), real(Q, n(-15.0))],
        vec![real(B, n(-9.0)), real(A, n(4.0)), real(X, n(5.0))],
        vec![real(A, s(-2.0, "EUR")), real(B, s(2.0, "EUR"))],
        vec![cost(A, btc(-1.0), Cost::Total(amt(-80.0, ""))), real(B, n(80.0))],
        vec![cost(A, btc(-3.0), Cost::Unit(amt(90.0, ""))), real(X, n(2.0)), real(B, None)],
        // decimals whose sums are not exact
        vec![real(A, n(0.1)), real(B, n(0.2)), real(A, n(-0.3))],
        vec![real(A, n(0.1)), real(A, n(0.2)), real(B, n(-0.3)), real(X, None)],
        vec![real(A, n(-19.99)), real(X, n(13.37)), real(Q, n(6.62))],
        vec![real(A, s(-0.07, "$")), real(X, None), real(B, s(0.01, "$"))],
        // fine decimals beside a cost
        vec![cost(A, btc(0.00012345), Cost::Unit(amt(3.0, ""))), real(X, n(0.00000007)), real(B, None)],
        vec![cost(A, btc(-1.5), Cost::Total(amt(-0.00054321, ""))), real(I, n(0.00000001)), real(A, None)],
        vec![real(A, s(0.12345678, "$")), real(B, s(-0.10345671, "$")), real(X, None)],
    ]
}
const CORE: [usize; 13] = [0, 1, 2, 4, 5, 6, 10, 12, 14, 16, 20, 26, 31];

pub fn heads() -> Vec<Item> {
    let mut v = vec![Item::Account(A.into(), vec![env("food", Freq::Monthly(5), amt(100.0, ""), &[], Funding::Unset)])];
    for a in [B, X, I, L, Q] {
        v.push(acct(a));
    }
    v
}
/// renaming of the accounts
fn rename(items: &mut [Item], m: &[(&str, String)]) {
    let r = |x: &mut String| {
        if let Some((_, t)) = m.iter().find(|(f, _)| *f == x.as_str()) {
            *x = t.clone();
        }
    };
    for i in items {
        match i {
            Item::Account(n, es) => {
                r(n);
                es.iter_mut().for_each(|e| e.fors.iter_mut().for_each(r));
            }
            Item::Entry(e) => {
                for p in &mut e.posts {
                    match p {
                        Post::Real { acct, .. } => r(acct),
                        Post::Env { acct, .. } => r(acct),
                    }
                }
            }
            _ => {}
        }
    }
}
/// account-name sets, the plain one included
const NM: usize = 7;
fn name_maps() -> Vec<Vec<(&'static str, String)>> {
    let mk = |v: [&str; 6]| [A, B, X, I, L, Q].into_iter().zip(v.map(String::from)).collect::<Vec<_>>();
    let long = format!("assets:{}", "l".repeat(70));
    vec![
        mk(["assets", "assets:a", "assets:a:b", "a", "zz", "a:a"]),
        mk([&long, "assets:b", &format!("expenses:{}", "m".repeat(40)), "i", "L", "Q"]),
        mk(["assets:Ä", "assets:é:ß", "расходы:еда", "收入", "z", "Z"]),
        mk(["Z", "a", "B", "b", "1", "_"]),
        mk(["asset_1", "liabilities:assets", "expenses:asset", "income:asset", "assetless", "my:assets"]),
        mk(["assets:b-1", "assets:b", "assets-1", "assets1:b", "assets", "assets.x"]),
    ]
}

struct Which {
    register: bool,
}
fn judge(ctx: &mut Ctx, k: &Which, items: &[Item], today: Day) -> Check {
    let text = render(items);
    ctx.put(JF, &text);
    let w = eval(items, today).unwrap_or_else(|e| panic!("a shape is not valid: {e}\n{text}"));
    let b = report(ctx, today, "b");
    if !k.register {
        chk_balance(ctx, &w, &b)?;
    } else {
        let r = report(ctx, today, "r");
        chk_register(ctx, &w, &r, "%Y/%m/%d")?;
        // the final running totals are the asset balances
        if let (Some(v), Some(bal)) = (op::register(&r.out), op::balance(&b.out)) {
            let mut last = Pool::new();
            for x in v.iter().flat_map(|l| &l.amounts) {
                last.insert(x.1.sym.clone(), x.1.mag);
            }
            let mut sum = Pool::new();
            for (_, am) in bal.iter().filter(|x| x.0.starts_with("asset")) {
                for a in am {
                    pool_add(&mut sum, a);
                }
            }
            let ok = last.iter().all(|(s, v)| op::close(*v, *sum.get(s).unwrap_or(&0.0)))
                && sum.iter().all(|(s, v)| op::close(*v, *last.get(s).unwrap_or(&0.0)));
            ctx.need(ok, || format!("final running totals {last:?} differ from the asset balances {sum:?}"))?;
        }
    }
    ctx.t.traces += 1;
    ctx.state(&format!("{:?}{:?}", w.totals, if k.register { format!("{:?}", w.register) } else { String::new() }));
    ctx.outcome(&format!("{} accounts, {} register items", w.totals.len(), w.register.len()));
    ctx.sample(|| format!("{text}=> {}", b.out));
    Ok(())
}

const D0: Day = 18300; // 2020-02-08
const TODAY: Day = D0 + 400;
const DESC: [&str; 5] = ["one", "two words", "", "drei–vier", "a/b & c"];

fn journal(ids: &[usize], dates: &[usize], sh: &[Vec<Post>], status: &[char]) -> Vec<Item> {
    let mut v = heads();
    for (k, i) in ids.iter().enumerate() {
        v.push(Item::Entry(Entry {
            date: D0 + [0, 3, 25, 26][dates[k]],
            status: status[k % status.len()],
            desc: DESC[k].into(),
            payee: if k == 1 { Some("Some One".into()) } else { None },
            posts: sh[*i].clone(),
        }));
    }
    v
}

fn go(h: &Harness, k: Which) -> i32 {
    let sh = shapes();
    let m = sh.len();
    h.explore("single entries x status x order of postings x account names", m * 3 * NM, |ctx, i| {
        let d = digits(i, &[m, 3, NM]);
        let st = ['*', '~', '?'][d[1]];
        for p in perms(sh[d[0]].len()) {
            let mut items = journal(&[d[0]], &[0], &sh, &[st]);
            if let Some(Item::Entry(e)) = items.last_mut() {
                e.posts = p.iter().map(|j| sh[d[0]][*j].clone()).collect();
            }
            if d[2] > 0 {
                rename(&mut items, &name_maps()[d[2] - 1]);
            }
            judge(ctx, &k, &items, TODAY)?;
        }
        Ok(())
    });
    h.explore("pairs of entries x date order x account names", m * m * 3 * NM, |ctx, i| {
        let d = digits(i, &[m, m, 3, NM]);
        let o = [[0, 1], [1, 0], [0, 0]][d[2]];
        let mut items = journal(&[d[0], d[1]], &o, &sh, &['*', '~', '?']);
        if d[3] > 0 {
            if d[2] > 0 && !h.thorough {
                return Ok(());
            }
            rename(&mut items, &name_maps()[d[3] - 1]);
        }
        judge(ctx, &k, &items, TODAY)
    });
    let wo = weak_orders(3);
    let c: Vec<usize> = if h.thorough { (0..m).collect() } else { CORE.to_vec() };
    h.explore("triples of entries x all weak date orders", c.len().pow(3) * wo.len(), |ctx, i| {
        let d = digits(i, &[c.len(), c.len(), c.len(), wo.len()]);
        let items = journal(&[c[d[0]], c[d[1]], c[d[2]]], &wo[d[3]], &sh, &['~', '*', '?']);
        judge(ctx, &k, &items, TODAY)
    });
    if h.thorough {
        let wo = weak_orders(4);
        let c = [0, 2, 5, 6, 10, 14, 20];
        let b = [c.len(), c.len(), c.len(), c.len(), wo.len()];
        h.explore("quadruples of entries x all weak date orders", product(&b), |ctx, i| {
            let d = digits(i, &b);
            let items = journal(&[c[d[0]], c[d[1]], c[d[2]], c[d[3]]], &wo[d[4]], &sh, &['~', '*', '?']);
            judge(ctx, &k, &items, TODAY)
        });
    }
    h.explore("long journals: pairs of shapes alternating, dates running up, down or mixed", m * m * 3, |ctx, i| {
        let d = digits(i, &[m, m, 3]);
        let mut items = heads();
        for j in 0..20i64 {
            let date = D0 + match d[2] {
                0 => j,
                1 => 60 - j,
                _ => (j * 7) % 20,
            };
            let mut e = entry(date, &format!("entry {j}"), sh[if j % 3 == 1 { d[1] } else { d[0] }].clone());
            e.status = ['*', '~', '?'][(j % 3) as usize];
            items.push(Item::Entry(e));
        }
        judge(ctx, &k, &items, TODAY)
    });
    // today's place among the entries and the date format do not matter
    h.explore("pairs seen from days before, between and after the entries; date formats", CORE.len().pow(2) * 4 * 3, |ctx, i| {
        let d = digits(i, &[CORE.len(), CORE.len(), 4, 3]);
        let df = ["%Y-%m-%d", "%d.%m.%Y", "%Y%j"][d[3]];
        let mut items = journal(&[CORE[d[0]], CORE[d[1]]], &[0, 2], &sh, &['*', '~', '?']);
        items.insert(0, Item::DateFormat(df.into()));
        ctx.put(JF, &render(&items));
        let today = D0 + [-10, 0, 10, 500][d[2]];
        let w = eval(&items, today).unwrap();
        if k.register {
            let r = report(ctx, today, "r");
            chk_register(ctx, &w, &r, df)?;
        } else {
            let r = report(ctx, today, "b");
            chk_balance(ctx, &w, &r)?;
        }
        ctx.t.traces += 1;
        Ok(())
    });
    // many entries on few days: the order within a day is the order of the journal
    let lens: &[usize] = if h.thorough { &[21, 33, 64, 128, 257, 1000] } else { &[33, 64, 257] };
    let days = [1i64, 2, 3, 7];
    h.explore("very long journals: lengths x number of days x step x shape", lens.len() * days.len() * 3 * CORE.len(), |ctx, i| {
        let d = digits(i, &[lens.len(), days.len(), 3, CORE.len()]);
        let mut items = heads();
        for j in 0..lens[d[0]] {
            let nd = days[d[1]];
            let date = D0 + match d[2] {
                0 => nd - 1 - (j as i64 % nd),
                1 => (j as i64 * 5 + j as i64 / 3) % nd,
                _ => nd - 1 - j as i64 * nd / lens[d[0]] as i64,
            };
            let mut e = entry(date, &format!("entry {j}"), if j % 2 == 0 { sh[0].clone() } else { sh[CORE[d[3]]].clone() });
            e.status = ['*', '~', '?'][j % 3];
            items.push(Item::Entry(e));
        }
        judge(ctx, &k, &items, TODAY)
    });
    let huge: &[usize] = if h.thorough { &[500, 513, 1001, 1025, 2049, 5001] } else { &[501, 513, 1025, 2049] };
    h.explore("huge journals", huge.len() * 2, |ctx, i| {
        let mut items = heads();
        let len = huge[i / 2];
        for j in 0..len {
            let date = D0 + if i % 2 == 0 { j as i64 / 7 } else { (len - j) as i64 / 5 };
            let mut e = entry(date, &format!("entry {j}"), if j % 2 == 0 { sh[0].clone() } else { sh[CORE[j / 2 % CORE.len()]].clone() });
            e.status = ['*', '~', '?'][j % 3];
            items.push(Item::Entry(e));
        }
        judge(ctx, &k, &items, TODAY)
    });
    // descriptions of every kind
    let al = ["a", "-", ".", "*", "~", "?", "é", "7", "'", "\"", ":", "$", "%", "\\", "{", "}", "(", ")", " ", "=", "@", "!", "#", "<", ">", "字", "&", "+", ","];
    let na = al.len();
    let mut descs: Vec<String> = (0..na).map(|i| al[i].to_string()).collect();
    for i in 0..na * na {
        descs.push(format!("{}{}", al[i / na], al[i % na]));
        descs.push(format!("{} {}", al[i / na], al[i % na]));
        descs.push(format!("x{}y{}z", al[i / na], al[i % na]));
    }
    if h.thorough {
        (0..na * na * na).for_each(|i| descs.push(format!("{}{}{}", al[i / na / na], al[i / na % na], al[i % na])));
    }
    // one space between words: the reports are read by columns
    descs.iter_mut().for_each(|d| *d = d.split_whitespace().collect::<Vec<_>>().join(" "));
    descs.retain(|d| !d.is_empty() && !d.contains("->"));
    descs.dedup();
    let per = 30;
    h.explore("descriptions of one to three signs", descs.len().div_ceil(per) * 2, |ctx, i| {
        let mut items = heads();
        for (j, d) in descs.chunks(per).nth(i / 2).unwrap().iter().enumerate() {
            let mut e = entry(D0 + j as i64 % 3, d, sh[if j % 3 == 0 { 0 } else { 10 + j % 2 * 2 }].clone());
            e.payee = if i % 2 == 1 { Some("P".into()) } else { None };
            items.push(Item::Entry(e));
        }
        judge(ctx, &k, &items, TODAY)
    });
    // entries that are alike are entries all the same
    let counts: &[usize] = if h.thorough { &[2, 3, 4, 5, 10, 30] } else { &[2, 3, 4, 10] };
    let b = [m, counts.len(), 3, 4, 2];
    h.explore("entries alike: shapes x how often x status x where x with a payee", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mut e = entry(D0, "alike", sh[d[0]].clone());
        e.status = ['*', '~', '?'][d[2]];
        e.payee = if d[4] > 0 { Some("P".into()) } else { None };
        let mut items = heads();
        for j in 0..counts[d[1]] {
            items.push(Item::Entry(e.clone()));
            match d[3] {
                // one after the other
                0 => {}
                // with another entry of the same day in between
                1 => items.push(Item::Entry(entry(D0, &format!("o{j}"), sh[0].clone()))),
                // on days in turn, out of order
                2 => e.date = D0 + [0, 1][j % 2],
                // alike but for the status
                _ => e.status = ['*', '~', '?'][j % 3],
            }
        }
        judge(ctx, &k, &items, TODAY)
    });
    // amounts too small to be shown add up to ones that are
    let tiny = [4e-9, 1e-9, 4.9e-9, 5e-9, 6e-9, 1e-8, 3e-10];
    let b = [tiny.len(), 4, 4, 3];
    h.explore("small amounts: size x how many x how written x currency", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let (x, sy) = (tiny[d[0]], ["", "BTC", "$"][d[3]]);
        let many = [20, 64, 100, 250][d[1]];
        let mut items = heads();
        match d[2] {
            // in one entry
            0 => {
                let mut p: Vec<Post> = (0..many).map(|_| real(A, s(x, sy))).collect();
                p.push(real(I, None));
                items.push(Item::Entry(entry(D0, "all", p)));
            }
            // in many entries, with blank postings
            1 => (0..many).for_each(|j| items.push(Item::Entry(entry(D0 + j as i64, "one", vec![real(A, s(-x, sy)), real(X, None)])))),
            // beside larger ones
            2 => (0..many).for_each(|j| items.push(Item::Entry(entry(D0, &format!("e{j}"), vec![real(A, s(x, sy)), real(A, s(1.0, sy)), real(B, s(-1.0, sy)), real(B, s(-x, sy))])))),
            // to and fro
            _ => (0..many).for_each(|j| items.push(Item::Entry(entry(D0, "e", vec![real(A, s(if j % 4 == 3 { -x } else { x }, sy)), real(I, None)])))),
        }
        if k.register {
            // changes of less than half of the last decimal are no items
            if x < 6e-9 && d[2] > 0 {
                return Ok(());
            }
            items.push(Item::Entry(entry(D0 + 300, "last", vec![real(A, s(1.0, sy)), real(I, None)])));
            ctx.put(JF, &render(&items));
            let w = eval(&items, TODAY).unwrap();
            let r = report(ctx, TODAY, "r");
            need_ok(ctx, &r, "register")?;
            let want: f64 = w.totals.iter().filter(|t| t.0.starts_with("asset")).map(|t| t.1.get(sy).copied().unwrap_or(0.0)).sum();
            let got = op::register(&r.out).unwrap_or_default();
            let last = got.last().and_then(|l| l.amounts.first().cloned());
            ctx.need(last.as_ref().is_some_and(|x| op::close(x.1.mag, want) && x.1.sym == sy), || format!("the last running total is {last:?}, the asset postings sum to {want} {sy}: {}", show(&r)))?;
            ctx.t.traces += 1;
            return Ok(());
        }
        judge(ctx, &k, &items, TODAY)
    });
    // entries of several currencies after one another
    let cur = ["", "$", "BTC", "EUR", "kr", "oz"];
    h.explore("pairs of entries over every set of six currencies x accounts x what stands against them", 63 * 63 * 4, |ctx, i| {
        let d = digits(i, &[63, 63, 2, 2]);
        let mut items = heads();
        for (j, m) in [d[0] + 1, d[1] + 1, d[0] + 1].iter().enumerate() {
            let mut p = vec![];
            for (q, c) in cur.iter().enumerate().filter(|x| m >> x.0 & 1 == 1) {
                let x = [2.5, -1.0, 0.5][j] * (q + 1) as f64;
                p.push(real(if d[2] == 1 && q % 2 == 1 { B } else { A }, s(x, c)));
                // amounts in one currency have to be balanced
                if d[3] == 0 || m.count_ones() == 1 {
                    p.push(real(if q % 2 == 0 { I } else { X }, s(-x, c)));
                }
            }
            items.push(Item::Entry(entry(D0 + j as i64, &format!("e{j}"), p)));
        }
        judge(ctx, &k, &items, TODAY)
    });
    if k.register {
        wide::register(h);
    } else {
        wide::balance(h);
    }
    // symbols that look alike are different currencies
    let sy = ["", "$", "$$", "US$", "€", "EUR", "eur", "Eur", "E", "e", "kr", "KR", "é", "É", "e\u{301}", "ß", "ss", "SS", "円", "%", "e_x", "oz:au"];
    let ns = sy.len();
    h.explore("all pairs of currencies x which comes first x account names", ns * ns * 3, |ctx, i| {
        let d = digits(i, &[ns, ns, 3]);
        let (a, b) = (sy[d[0]], sy[d[1]]);
        let mut items = heads();
        let es = vec![
            vec![real(A, s(5.0, a)), real(I, s(-5.0, a))],
            vec![real(A, s(-7.0, b)), real(X, None)],
            vec![real(B, s(0.25, b)), real(A, s(-0.25, b))],
            vec![real(A, None), real(I, s(-100.0, a))],
            vec![real(X, s(1.0, b)), real(L, s(2.0, a)), real(X, s(-1.0, b)), real(L, s(-2.0, a))],
        ];
        for (j, p) in es.into_iter().enumerate() {
            items.push(Item::Entry(entry(D0 + [j as i64, 4 - j as i64, 0][d[2]], &format!("e{j}"), p)));
        }
        judge(ctx, &k, &items, TODAY)
    });
    if !k.register {
        // every account name of up to three characters, in one report
        let al = ["a", "B", "1", ":", "-", "_", "é"];
        let mut names: Vec<String> = vec![];
        for n in 1..=3 {
            for i in 0..al.len().pow(n) {
                names.push(digits(i, &vec![al.len(); n as usize]).iter().map(|d| al[*d]).collect());
            }
        }
        h.explore("all account names of 1-3 characters over a B 1 : - _ é, in one journal, in several orders", 8, |ctx, i| {
            let mut v = names.clone();
            if i % 4 == 1 {
                v.reverse();
            } else if i % 4 > 1 {
                let n = v.len();
                v = (0..n).map(|j| names[(j * [1, 1, 5, 151][i % 4] + 3) % n].clone()).collect();
            }
            let mut items: Vec<Item> = v.iter().map(|a| acct(a)).collect();
            for (j, w) in v.chunks(if i < 4 { 2 } else { 3 }).enumerate() {
                let mut posts: Vec<Post> = w.iter().map(|a| real(a, n(j as f64 + 0.5))).collect();
                let last = posts.len() - 1;
                posts[last] = if i < 4 { real(&w[last], n(-(j as f64 + 0.5) * last as f64)) } else { real(&w[last], None) };
                if last > 0 {
                    items.push(Item::Entry(entry(D0, "e", posts)));
                }
            }
            judge(ctx, &k, &items, TODAY)
        });
    }
    if k.register {
        h.explore("terminal widths", 6 * 3, |ctx, i| {
            let d = digits(i, &[6, 3]);
            let items = journal(&[0, 20, 6, 10], &[[0, 1, 2, 3], [3, 2, 1, 0], [1, 1, 0, 1]][d[1]], &sh, &['*']);
            ctx.put(JF, &render(&items));
            let w = eval(&items, TODAY).unwrap();
            let mut q = req(TODAY, &["register", "--no-move", "--file", JF]);
            q.width = [1, 10, 40, 80, 200, 1000][d[0]];
            let r = ctx.run(&q);
            chk_register(ctx, &w, &r, "%Y/%m/%d")?;
            ctx.t.traces += 1;
            Ok(())
        });
    }
    if !k.register && !h.stop() {
        // documented, but not implemented: `currency` names the symbol of amounts without one
        h.explore("probe: currency directive", 1, |ctx, _| {
            ctx.put(JF, "currency $\naccount assets:a\naccount income:i\n2020/01/01 * one\n  assets:a  $5\n  income:i  $-5\n2020/01/02 * two\n  assets:a  5\n  income:i  -5\n");
            let r = report(ctx, TODAY, "b");
            let split = op::balance(&r.out).is_some_and(|v| v.iter().any(|x| x.0 == A && x.1.len() == 2));
            if split {
                if !h.known("currency-directive") {
                    return ctx.fail("amounts with and without the symbol of the `currency` directive are shown as two currencies");
                }
                h.known_hit("with `currency $`, `$5` and `5` are shown as two currencies instead of one");
            }
            Ok(())
        });
    }
    let rule = if k.register {
        "every journal of up to 3 (thorough: 4) entries over 40 (triples: 13) entry shapes, all date orders, long alternating and wide journals; every register item compared with the model; a state is a distinct model register"
    } else {
        "every journal of up to 3 (thorough: 4) entries over 40 (triples: 13) entry shapes, all date orders, posting orders, statuses, account-name sets, long alternating journals, and wide ones (many accounts and currencies); every total compared with the model; a state is a distinct map of totals"
    };
    h.finish(rule, &["shown amounts compared to 2e-8", "bounded: number of entries, shapes, accounts and currencies as listed"])
}
pub fn c01(h: &Harness) -> i32 {
    go(h, Which { register: false })
}
pub fn c18(h: &Harness) -> i32 {
    go(h, Which { register: true })
}
