//! C02 (double entry), C09 (envelope movements inferred from entries): all entries up to a number of postings.
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::model::*;

const D0: Day = 18300;
const TODAY: Day = D0 + 40;

fn form(k: usize, acct: &str) -> Post {
    let r = |a: Option<Amt>, c: Option<Cost>| Post::Real { acct: acct.into(), amt: a, cost: c };
    let u = |x: f64, s: &str| Some(Cost::Unit(amt(x, s)));
    let t = |x: f64, s: &str| Some(Cost::Total(amt(x, s)));
    match k {
        0 => r(None, None),
        1 => r(Some(amt(5.0, "")), None),
        2 => r(Some(amt(-5.0, "")), None),
        3 => r(Some(amt(2.5, "")), None),
        4 => r(Some(amt(-7.5, "")), None),
        5 => r(Some(amt(5.0, "$")), None),
        6 => r(Some(amt(-5.0, "$")), None),
        7 => r(Some(amt(2.0, "BTC")), u(2.5, "")),
        8 => r(Some(amt(-2.0, "BTC")), t(-5.0, "")),
        9 => r(Some(amt(3.0, "BTC")), None),
        10 => r(Some(amt(0.0, "")), None),
        11 => r(Some(amt(2.0, "BTC")), u(1.0, "$")),
        12 => r(Some(amt(4.0, "EUR")), t(5.0, "")),
        13 => r(Some(amt(-3.0, "BTC")), None),
        14 => r(Some(amt(5.0, "")), u(3.0, "")),
        15 => r(Some(amt(-0.03125, "")), None),
        16 => r(Some(amt(-2.0, "BTC")), u(2.5, "")),
        17 => r(Some(amt(-4.0, "EUR")), t(-5.0, "")),
        _ => unreachable!(),
    }
}
const FORMS: usize = 18;
const ACCTS: [&str; 5] = [A, B, X, I, L];

#[derive(PartialEq, Debug)]
enum Verdict {
    Accept,
    Refuse,
    /// the property does not say
    Either,
}

/// what double entry says about the real postings
fn verdict(e: &Entry) -> Verdict {
    let rs: Vec<(&Option<Amt>, &Option<Cost>)> = e
        .posts
        .iter()
        .filter_map(|p| match p {
            Post::Real { amt, cost, .. } => Some((amt, cost)),
            _ => None,
        })
        .collect();
    let blanks = rs.iter().filter(|r| r.0.is_none()).count();
    let mut syms: Vec<&str> = rs.iter().filter_map(|r| r.0.as_ref().map(|a| a.sym.as_str())).collect();
    syms.sort();
    syms.dedup();
    let native: Option<f64> = rs
        .iter()
        .filter(|r| r.0.is_some())
        .map(|(a, c)| {
            let a = a.as_ref().unwrap();
            if a.sym.is_empty() {
                return Some(a.mag);
            }
            match c {
                Some(Cost::Unit(c)) if c.sym.is_empty() => Some(a.mag * c.mag),
                Some(Cost::Total(c)) if c.sym.is_empty() => Some(c.mag),
                _ => None,
            }
        })
        .sum();
    if blanks > 1 {
        return Verdict::Refuse;
    }
    if blanks == 1 {
        return match syms.len() {
            0 => Verdict::Refuse,
            1 => Verdict::Accept,
            _ => {
                if native.is_none() {
                    Verdict::Refuse
                } else if syms.iter().filter(|s| !s.is_empty()).count() > 1 {
                    Verdict::Either // several foreign currencies and a blank: documented as not supported yet
                } else {
                    Verdict::Accept
                }
            }
        };
    }
    match syms.len() {
        0 => Verdict::Accept,
        1 => {
            let s: f64 = rs.iter().filter_map(|r| r.0.as_ref().map(|a| a.mag)).sum();
            if s == 0.0 { Verdict::Accept } else { Verdict::Refuse }
        }
        _ => match native {
            Some(v) if v == 0.0 => Verdict::Accept,
            _ => Verdict::Either,
        },
    }
}

fn heads() -> Vec<Item> {
    ACCTS.iter().map(|a| Item::Account(a.to_string(), vec![probe("probe", ""), probe("dollars", "$")])).collect()
}

fn judge(ctx: &mut Ctx, posts: Vec<Post>, all: bool) -> Check {
    let e = entry(D0, "entry", posts);
    let v = verdict(&e);
    let mut items = heads();
    items.push(Item::Entry(e.clone()));
    let text = render(&items);
    ctx.put(JF, &text);
    // an independent sum: every real account's balances, by currency, must cancel out when there is one currency
    let b = report(ctx, TODAY, "b");
    match v {
        Verdict::Refuse => {
            need_refused(ctx, &b, "balance of a journal with an entry that does not balance or cannot be inferred")?;
            if all {
                for s in ["e", "r"] {
                    let r = report(ctx, TODAY, s);
                    need_refused(ctx, &r, s)?;
                }
            }
            ctx.outcome("refused");
        }
        Verdict::Accept | Verdict::Either => {
            if v == Verdict::Either && b.out.is_empty() && !b.err.is_empty() && !b.crashed() {
                ctx.outcome("refused, either way is fine");
                return Ok(());
            }
            let Ok(w) = eval(&items, TODAY) else {
                // the model does not infer this one: several foreign currencies, all with a native cost
                ctx.outcome("accepted, either way is fine");
                return Ok(());
            };
            chk_balance(ctx, &w, &b)?;
            if all {
                let r = report(ctx, TODAY, "e");
                chk_env(ctx, &w, &r, TODAY, ALL_OPTS)?;
                let r = report(ctx, TODAY, "r");
                chk_register(ctx, &w, &r, "%Y/%m/%d")?;
            }
            ctx.outcome(if v == Verdict::Accept { "accepted" } else { "accepted, either way is fine" });
            ctx.state(&format!("{:?}", w.totals));
        }
    }
    ctx.t.traces += 1;
    ctx.sample(|| format!("{}=> {:?} {}{}", e.text("%Y/%m/%d"), v, b.out, b.err.lines().next().unwrap_or("")));
    Ok(())
}

pub fn c02(h: &Harness) -> i32 {
    for n in 1..=3usize {
        let parts = partitions(n);
        let total = FORMS.pow(n as u32) * parts.len();
        h.explore(&format!("entries of {n} postings: all amount forms x all patterns of equal accounts"), total, |ctx, i| {
            let p = &parts[i % parts.len()];
            let d = digits(i / parts.len(), &vec![FORMS; n]);
            // a rotation of the accounts, so that each is first, last, blank ... somewhere
            let posts = (0..n).map(|k| form(d[k], ACCTS[(p[k] + d[0]) % 5])).collect();
            judge(ctx, posts, n < 3 || h.thorough || p.iter().max() == Some(&2))
        });
    }
    let f4: Vec<usize> = if h.thorough { (0..FORMS).collect() } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16] };
    let m = f4.len();
    h.explore("entries of 4 postings to different accounts", m.pow(4), |ctx, i| {
        let d = digits(i, &[m; 4]);
        judge(ctx, (0..4).map(|k| form(f4[d[k]], ACCTS[k])).collect(), h.thorough)
    });
    if h.thorough {
        let f5 = [0, 1, 2, 3, 4, 5, 7, 8, 16];
        h.explore("entries of 5 postings to different accounts", f5.len().pow(5), |ctx, i| {
            let d = digits(i, &[f5.len(); 5]);
            judge(ctx, (0..5).map(|k| form(f5[d[k]], ACCTS[k])).collect(), false)
        });
    }
    // envelope postings are virtual: they change neither the verdict nor any amount
    let env_forms = || vec![envp(A, "probe", amt(4.0, "")), envp(B, "probe", amt(-2.5, "")), envp(A, "dollars", amt(5.0, "$")), envp(I, "nosuch", amt(9.0, ""))];
    for n in 0..=3usize {
        let fs: Vec<usize> = if n == 3 && !h.thorough { vec![0, 1, 2, 4, 5, 7, 9] } else { (0..FORMS).collect() };
        let m = fs.len();
        let bases: Vec<usize> = std::iter::repeat_n(m, n).chain([n + 1, 5, n + 1]).collect();
        h.explore(&format!("{n} real postings with one or two envelope postings at every place"), product(&bases), |ctx, i| {
            let d = digits(i, &bases);
            let mut posts: Vec<Post> = (0..n).map(|k| form(fs[d[k]], ACCTS[k])).collect();
            let ef = env_forms();
            if d[n + 1] < 4 {
                if d[n + 2] != 0 {
                    return Ok(());
                }
                posts.insert(d[n], ef[d[n + 1]].clone());
            } else {
                posts.insert(d[n + 2], ef[1].clone());
                posts.insert(d[n], ef[0].clone());
            }
            judge(ctx, posts, n < 3)
        });
    }
    // amounts near and far from balance, at all magnitudes
    let mags = [0.0078125, 1.0, 99.75, 4096.0, 1048576.5, 268435456.0];
    let diffs = [0.0, 0.0078125, -0.0078125, 1.0, -1.0, 1000.0, -2.0];
    h.explore("magnitude x imbalance x currency x number of parts", mags.len() * diffs.len() * 3 * 3, |ctx, i| {
        let d = digits(i, &[mags.len(), diffs.len(), 3, 3]);
        let sym = ["", "$", "BTC"][d[2]];
        let (m, df) = (mags[d[0]], diffs[d[1]]);
        let p = d[3] + 1;
        let mut posts: Vec<Post> = (0..p).map(|k| real(ACCTS[k + 1], Some(amt(m, sym)))).collect();
        posts.push(real(A, Some(amt(-m * p as f64 + df, sym))));
        judge(ctx, posts, true)
    });
    // decimal fractions that only cancel out up to rounding
    let cents = [(0.1, 0.2, -0.3), (0.7, 0.1, -0.8), (19.99, 0.01, -20.0), (1.1, 2.2, -3.3), (100000.01, 0.09, -100000.1), (0.00000001, 0.00000002, -0.00000003)];
    h.explore("decimal fractions", cents.len() * 6 * 2, |ctx, i| {
        let d = digits(i, &[cents.len(), 6, 2]);
        let c = cents[d[0]];
        let p = perms(3)[d[1]].clone();
        let x = [c.0, c.1, c.2];
        let blank = d[2] == 1;
        let posts: Vec<Post> = p.iter().map(|k| real(ACCTS[*k], if blank && *k == 2 { None } else { Some(amt(x[*k], "")) })).collect();
        let mut items = heads();
        items.push(Item::Entry(entry(D0, "cents", posts)));
        ctx.put(JF, &render(&items));
        let w = eval(&items, TODAY).unwrap();
        let b = report(ctx, TODAY, "b");
        chk_balance(ctx, &w, &b)?;
        ctx.t.traces += 1;
        Ok(())
    });
    // an entry of many postings that does not balance, or has two blanks
    let ks: Vec<usize> = if h.thorough { (2..=70).chain([100, 128, 129, 200, 256, 257]).collect() } else { (2..=34).chain([64, 65, 100, 129, 257]).collect() };
    let b = [ks.len(), 3, 3, 2, 7];
    h.explore("entries of many postings: number x place of the fault x place of the other x few or many accounts x fault", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let k = ks[d[0]];
        let at = |w: usize| [0, k / 2, k - 1][w];
        let name = |j: usize| if d[3] == 0 { ACCTS[j % 5].to_string() } else { format!("expenses:n{j}") };
        let (x, y) = (at(d[1]), at(d[2]));
        if x == y {
            return Ok(());
        }
        let sym = if d[4] == 3 { "$" } else { "" };
        let mut mags: Vec<f64> = (0..k).map(|j| ((j * 29) % 32) as f64 / 8.0 - 1.0).collect();
        let s: f64 = mags.iter().sum();
        mags[y] -= s;
        let mut posts: Vec<Post> = (0..k).map(|j| real(&name(j), Some(amt(mags[j], sym)))).collect();
        let mut refused = true;
        match d[4] {
            0 | 3 => posts[x] = real(&name(x), Some(amt(mags[x] + 0.25, sym))),
            1 => posts[x] = real(&name(x), Some(amt(mags[x] - 1024.0, sym))),
            2 => {
                posts[x] = real(&name(x), None);
                posts[y] = real(&name(y), None);
            }
            4 => {
                // a blank in an entry of two currencies without a cost
                posts[x] = real(&name(x), Some(amt(1.0, "BTC")));
                posts[y] = real(&name(y), None);
                refused = k > 2;
            }
            5 => {
                // a cost that does not add up is not judged: it may be meant as a gain
                posts[x] = Post::Real { acct: name(x), amt: Some(amt(2.0, "BTC")), cost: Some(Cost::Total(amt(mags[x], ""))) };
                refused = false;
            }
            _ => refused = false,
        }
        let mut items: Vec<Item> = if d[3] == 0 { heads() } else { (0..k).map(|j| acct(&name(j))).collect() };
        items.push(Item::Entry(entry(D0, "many", posts)));
        ctx.put(JF, &render(&items));
        for s in ["b", "r"] {
            let r = report(ctx, TODAY, s);
            if refused {
                need_refused(ctx, &r, s)?;
            } else {
                need_ok(ctx, &r, s)?;
                let w = eval(&items, TODAY).unwrap();
                if s == "b" {
                    chk_balance(ctx, &w, &r)?;
                }
            }
        }
        ctx.t.traces += 1;
        ctx.outcome(if refused { "refused" } else { "accepted" });
        ctx.state(&(&d, k));
        Ok(())
    });
    // small imbalances: more than 1e-7 of amounts up to 4096
    let tiny: Vec<f64> = (1..=22).map(|e| 0.5f64.powi(e)).collect();
    let around = [0.0, 0.5, 1.0, 3.25, 99.75, 4096.0];
    let b = [tiny.len(), around.len(), 2, 3, 3];
    h.explore("small imbalances x amounts x sign x currency x number of postings", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let sym = ["", "$", "BTC"][d[3]];
        let df = tiny[d[0]] * [1.0, -1.0][d[2]];
        let m = around[d[1]];
        let p = d[4] + 1;
        let mut posts: Vec<Post> = (0..p).map(|k| real(ACCTS[k + 1], Some(amt(m, sym)))).collect();
        posts.push(real(A, Some(amt(-m * p as f64 + df, sym))));
        judge(ctx, posts, false)
    });
    // costs of many decimals
    let q = [1.0, -1.0, 2.0, 0.5, -0.25, 64.0, 1024.0, 0.0078125, 0.0];
    let c = [0.0078125, 1.0009765625, 3.125, 0.00006103515625, 12.34375, 1000.03125, 0.000030517578125, 0.0];
    let b = [q.len(), c.len(), 2, 4];
    h.explore("quantities x costs of many decimals x kind of cost x what completes the sum", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let (q, c) = (q[d[0]], c[d[1]]);
        let v = if d[2] == 0 { q * c } else { c };
        let cost = Some(if d[2] == 0 { Cost::Unit(amt(c, "")) } else { Cost::Total(amt(c, "")) });
        let first = Post::Real { acct: A.into(), amt: Some(amt(q, "BTC")), cost };
        let posts = match d[3] {
            0 => vec![first, real(I, Some(amt(-v, "")))],
            1 => vec![real(B, Some(amt(4.0, ""))), first, real(I, None)],
            2 => vec![real(I, Some(amt(-v - 4.0, ""))), first, real(B, Some(amt(4.0, "")))],
            _ => vec![real(I, None), real(B, Some(amt(4.0, ""))), first],
        };
        judge(ctx, posts, true)
    });
    super::wide::balance(h);
    super::varied::refused(h);
    h.finish(
        "every entry of 1-3 postings over 18 amount forms (blank, signs, $, BTC/EUR with and without @ or = cost, native or foreign cost, zero) x every pattern of equal accounts, of 4 (thorough 5) postings, and every place of envelope postings; entries of many postings with one fault, imbalances of 2^-1 to 2^-22, costs of many decimals, wide journals (up to 257 postings, 129 currencies, 33 envelopes, 100 linked accounts, 257 accounts; all pairs of look-alike names; magnitudes 1e-8 to 1e12); verdict and all three reports compared with the model; a state is a distinct map of resulting balances",
        &["mixed currencies without a blank that do not balance natively, and several foreign currencies with a blank, are not judged", "total costs (`=`) carry the sign of their amount"],
    )
}

// ------------------------------------------------------------------------------------------------ C09
const C1: &str = "expenses:food";
const C2: &str = "expenses:food:out";
const C3: &str = "expenses:rent";

/// Accounts with several envelopes of different kinds, currencies and links.
fn c09_heads(d: Day) -> Vec<Item> {
    let goal = |mut e: Env| {
        e.goal = true;
        e
    };
    vec![
        acct(C1),
        acct(C2),
        acct(C3),
        acct(I),
        Item::Account(
            A.into(),
            vec![
                env("food", Freq::Monthly(5), amt(100.0, ""), &[C1], Funding::Unset),
                env("both", Freq::Never, amt(80.0, ""), &[C1, C2], Funding::Unset),
                env("none", Freq::Weekly(1), amt(50.0, ""), &[], Funding::Unset),
                goal(env("food", Freq::Once(d + 20), amt(60.0, ""), &[C2], Funding::Unset)),
                goal(env("self", Freq::Once(d - 20), amt(60.0, ""), &[A, B], Funding::Unset)),
            ],
        ),
        Item::Account(B.into(), vec![env("food", Freq::Monthly(28), amt(30.0, ""), &[C1, C3], Funding::Unset), env("usd", Freq::Never, amt(30.0, "$"), &[], Funding::Unset)]),
        Item::Account("assets:usd".into(), vec![env("food", Freq::Never, amt(30.0, "$"), &[C1], Funding::Unset)]),
    ]
}

pub fn c09(h: &Harness) -> i32 {
    let accts = [A, B, C1, C2, C3, I, "assets:usd"];
    // (amount forms) a blank, signed native amounts of different sizes
    let am: [Option<f64>; 7] = [None, Some(-10.0), Some(10.0), Some(-4.0), Some(4.0), Some(-6.0), Some(6.0)];
    let judge_in = |ctx: &mut Ctx, mut items: Vec<Item>, entries: Vec<Entry>| -> Check {
        items.extend(entries.iter().cloned().map(Item::Entry));
        let text = render(&items);
        ctx.put(JF, &text);
        let r = report(ctx, TODAY, "e");
        match eval(&items, TODAY) {
            Ok(w) => {
                chk_env(ctx, &w, &r, TODAY, EnvOpts { due: false, ..ALL_OPTS })?;
                let s: Vec<String> = w.accounts.values().flat_map(|a| a.envs.iter().map(|e| format!("{}/{}", e.1.now, e.1.next))).collect();
                ctx.outcome(&format!("{} envelopes moved", s.iter().filter(|x| *x != "0/0").count()));
                ctx.state(&s);
            }
            Err(_) => {
                // refused, or left alone
                let refused = need_refused(ctx, &r, "an entry that moves an envelope by an amount that cannot be expressed in its currency");
                let alone = || [Foreign::LeaveAlone, Foreign::Move].iter().any(|f| eval_as(&items, TODAY, *f).is_ok_and(|w| chk_env(ctx, &w, &r, TODAY, EnvOpts { due: false, ..ALL_OPTS }).is_ok()));
                if refused.is_err() && !alone() {
                    return refused;
                }
                ctx.outcome("refused");
            }
        }
        ctx.t.traces += 1;
        ctx.sample(|| entries.iter().map(|e| e.text("%Y/%m/%d")).collect());
        Ok(())
    };
    let judge = |ctx: &mut Ctx, entries: Vec<Entry>| judge_in(ctx, c09_heads(D0), entries);
    // all entries of 2 postings: accounts x one amount, the other opposite or blank
    for n in 2..=3usize {
        let na = accts.len();
        let bases: Vec<usize> = std::iter::repeat_n(na, n).chain(std::iter::repeat_n(am.len(), n - 1)).chain([n, 2]).collect();
        h.explore(&format!("entries of {n} postings: all accounts x amounts x which one completes the sum (stated or blank)"), product(&bases), |ctx, i| {
            let d = digits(i, &bases);
            let pos = d[2 * n - 1];
            let mut posts = vec![];
            let mut sum = 0.0;
            let mut k = 0;
            for (j, a) in d[..n].iter().enumerate() {
                let a = accts[*a];
                if j == pos {
                    posts.push((a, None));
                } else {
                    let Some(x) = am[d[n + k]] else { return Ok(()) };
                    k += 1;
                    sum += x;
                    posts.push((a, Some(x)));
                }
            }
            let blank = d[2 * n] == 1;
            let sym = if d[..n].contains(&6) && d[..n].iter().all(|x| [6, 2, 5].contains(x)) { "$" } else { "" };
            let posts = posts.into_iter().map(|(a, x)| match x {
                Some(x) => real(a, Some(amt(x, sym))),
                None if blank => real(a, None),
                None => real(a, Some(amt(-sum, sym))),
            });
            judge(ctx, vec![entry(D0, "spend", posts.collect())])
        });
    }
    // 4 postings, fewer accounts and amounts
    let a4 = [A, C1, C2, B];
    let x4 = [-10.0, 4.0, 6.0];
    let bases = [4, 4, 4, 4, 3, 3, 3, 2];
    h.explore("entries of 4 postings", product(&bases), |ctx, i| {
        let d = digits(i, &bases);
        let xs = [x4[d[4]], x4[d[5]], x4[d[6]]];
        let s: f64 = xs.iter().sum();
        let mut posts: Vec<Post> = (0..3).map(|k| real(a4[d[k]], Some(amt(xs[k], "")))).collect();
        posts.push(if d[7] == 0 { real(a4[d[3]], Some(amt(-s, ""))) } else { real(a4[d[3]], None) });
        judge(ctx, vec![entry(D0, "spend", posts)])
    });
    // foreign amounts with native costs
    let f: Vec<(f64, &str, Option<Cost>)> = vec![
        (2.0, "BTC", Some(Cost::Unit(amt(5.0, "")))),
        (-2.0, "BTC", Some(Cost::Unit(amt(5.0, "")))),
        (-2.0, "BTC", Some(Cost::Total(amt(-10.0, "")))),
        (4.0, "BTC", Some(Cost::Total(amt(10.0, "")))),
        (10.0, "", None),
        (-10.0, "", None),
        (6.0, "", None),
        (2.0, "BTC", None),
        (-2.0, "$", Some(Cost::Unit(amt(3.0, "")))),
        (2.0, "BTC", Some(Cost::Unit(amt(5.0, "EUR")))),
    ];
    let a5 = [A, C1, C2, I, "assets:usd"];
    let bases = [5, 5, f.len(), f.len() + 1, 5, f.len() + 1];
    h.explore("2 and 3 postings in foreign currencies with @ and = costs", product(&bases), |ctx, i| {
        let d = digits(i, &bases);
        if d[5] == f.len() && d[4] != 0 {
            return Ok(());
        }
        let mk = |a: usize, k: usize| {
            if k == f.len() {
                return real(a5[a], None);
            }
            let (m, s, c) = f[k].clone();
            Post::Real { acct: a5[a].into(), amt: Some(amt(m, s)), cost: c }
        };
        let mut posts = vec![mk(d[0], d[2]), mk(d[1], d[3])];
        if d[5] < f.len() {
            posts.push(mk(d[4], d[5]));
        } else if d[4] == 0 && d[3] == f.len() && d[5] == f.len() {
            // two postings, one blank
        }
        let e = entry(D0, "foreign", posts);
        // only entries that double entry accepts
        if verdict(&e) != Verdict::Accept {
            return Ok(());
        }
        judge(ctx, vec![e])
    });
    // manual postings: exactly the named envelopes by exactly the amounts
    let man = [
        envp(A, "food", amt(7.0, "")),
        envp(A, "food", amt(-3.0, "")),
        envp(A, "both", amt(2.0, "")),
        envp(B, "food", amt(11.0, "")),
        envp(B, "usd", amt(5.0, "$")),
        envp("assets:usd", "food", amt(-1.5, "$")),
        envp(A, "nosuch", amt(13.0, "")),
        envp(A, "none", amt(0.0, "")),
        envp(B, "usd", amt(5.0, "")),
        envp(A, "food", amt(5.0, "EUR")),
    ];
    let bases = [man.len() + 1, man.len() + 1, man.len() + 1, 3];
    h.explore("manual envelope postings, one to three, with and without real postings", product(&bases), |ctx, i| {
        let d = digits(i, &bases);
        let mut posts: Vec<Post> = d[..3].iter().filter(|k| **k < man.len()).map(|k| man[*k].clone()).collect();
        if posts.is_empty() {
            return Ok(());
        }
        match d[3] {
            0 => {}
            1 => {
                posts.insert(0, real(A, Some(amt(-10.0, ""))));
                posts.push(real(C1, None));
            }
            _ => {
                posts.push(real(C2, Some(amt(10.0, ""))));
                posts.push(real(B, Some(amt(-10.0, ""))));
            }
        }
        judge(ctx, vec![entry(D0, "manual", posts)])
    });
    // sequences of entries: movements add up, in any order of dates
    let seq: Vec<Vec<Post>> = vec![
        vec![real(A, Some(amt(-10.0, ""))), real(C1, None)],
        vec![real(A, Some(amt(3.0, ""))), real(C1, Some(amt(-3.0, "")))],
        vec![real(A, None), real(C2, Some(amt(2.0, ""))), real(C3, Some(amt(2.0, "")))],
        vec![real(B, Some(amt(-1.0, ""))), real(C3, None)],
        vec![real(A, Some(amt(-5.0, ""))), real(B, None)],
        vec![envp(A, "food", amt(6.0, ""))],
        vec![envp(A, "both", amt(-6.0, "")), real(A, Some(amt(-1.0, ""))), real(C1, None)],
        vec![real(I, Some(amt(-50.0, ""))), real(A, None)],
    ];
    let dates = [-50, -20, 3, 40];
    let n = if h.thorough { 4 } else { 3 };
    let m = seq.len();
    let bases: Vec<usize> = std::iter::repeat_n(m, n).chain(std::iter::repeat_n(dates.len(), n)).collect();
    h.explore(&format!("histories of {n} entries x dates before and after the due dates"), product(&bases), |ctx, i| {
        let d = digits(i, &bases);
        let es = (0..n).map(|k| entry(D0 + dates[d[n + k]], "e", seq[d[k]].clone())).collect();
        judge(ctx, es)
    });
    // accounts whose names are parts of one another, in other currencies than the envelopes'
    let own = ["assets:usd", "assets:usd:old", "assets:usd2", "assets:us", "Assets:usd", A, "assets:a:b", "assets"];
    let linked = [C1, C2, "expenses:foo", "expenses:foods", "expenses", "Expenses:food", "my:expenses:food"];
    let syms = ["", "$", "EUR"];
    let costs: [Option<Cost>; 3] = [None, Some(Cost::Unit(amt(2.0, ""))), Some(Cost::Total(amt(20.0, "")))];
    let b = [own.len(), linked.len(), syms.len(), costs.len(), 3, 3];
    h.explore("look-alike accounts x currencies x costs", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mut items = c09_heads(D0);
        items.extend(own.iter().chain(&linked).filter(|a| ![A, "assets:usd", C1, C2].contains(a)).map(|a| acct(a)));
        let m = [10.0, -10.0][d[4] % 2];
        let post = |a: &str, m: f64| Post::Real { acct: a.into(), amt: Some(amt(m, syms[d[2]])), cost: costs[d[3]].clone() };
        let posts = match d[5] {
            0 => vec![post(own[d[0]], m), real(linked[d[1]], None)],
            1 => vec![real(own[d[0]], None), post(linked[d[1]], m)],
            _ => vec![post(linked[d[1]], m), real(own[d[0]], Some(amt(-m / 2.0, syms[d[2]]))), real(if d[4] == 2 { A } else { B }, Some(amt(-m / 2.0, syms[d[2]])))],
        };
        let e = entry(D0, "look alike", posts);
        if verdict(&e) != Verdict::Accept {
            return Ok(());
        }
        judge_in(ctx, items, vec![e])
    });
    super::wide::envs(h);
    h.finish(
        "every entry of 2-3 postings over 7 accounts (own, linked, unlinked, several envelopes of both kinds and currencies) and 6 amounts, blank or stated, 4 postings over fewer, foreign postings with costs, 1-3 manual postings, histories, look-alike accounts in other currencies, and wide journals (up to 257 postings, 129 currencies, 33 envelopes, 100 linked accounts, 257 accounts; all pairs of look-alike names; magnitudes 1e-8 to 1e12); now/next of every envelope compared with the model; a state is a distinct vector of envelope contents",
        &["an entry with amounts that cannot be expressed in the currency of an envelope it concerns must be refused (README)"],
    )
}
