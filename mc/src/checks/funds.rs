//! C08 (conservation over all histories), C10/C11 (funding), C12 (once a day), C13 (what is written reads back).
use super::dates::e as kind;
use super::wide;
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::model::*;
use crate::outparse as op;
use crate::sut::*;

fn n(x: f64) -> Option<Amt> {
    Some(amt(x, ""))
}
fn s(x: f64, y: &str) -> Option<Amt> {
    Some(amt(x, y))
}

/// Runs a command that may fund envelopes. Returns the run, the appended entries and the journal afterwards.
pub fn fund(ctx: &mut Ctx, q: &Req, file: &str) -> Result<(Res, Vec<op::JEntry>, String), Violation> {
    let before = ctx.get(file);
    let r = ctx.run(q);
    need_ok(ctx, &r, "a run that may fund envelopes")?;
    let after = ctx.get(file);
    if !after.starts_with(&before) {
        return ctx.fail(format!("the journal no longer starts with what it contained: {after:?}"));
    }
    let Some(v) = op::entries(&after[before.len()..]) else {
        return ctx.fail(format!("what was appended is not a list of entries: {:?}", &after[before.len()..]));
    };
    Ok((r, v, after))
}
/// the moves of the appended entries
pub fn moves(ctx: &Ctx, v: &[op::JEntry]) -> Result<Vec<(String, String, Amt)>, Violation> {
    let mut m = vec![];
    for p in v.iter().flat_map(|e| &e.posts) {
        match (&p.env, &p.amt) {
            (Some(n), Some(a)) => m.push((p.acct.clone(), n.clone(), a.clone())),
            _ => return ctx.fail(format!("an automatic entry has a posting that is not a move to an envelope: {p:?}")),
        }
    }
    Ok(m)
}
/// the appended entries as model items
pub fn as_items(ctx: &Ctx, v: &[op::JEntry], today: Day, df: &str) -> Result<Vec<Item>, Violation> {
    let mut out = vec![];
    for e in v {
        if e.date != fmt(today, df) {
            return ctx.fail(format!("an automatic entry is dated {}, today is {}", e.date, fmt(today, df)));
        }
        let m = moves(ctx, std::slice::from_ref(e))?;
        out.push(Item::Entry(entry(today, &e.desc, m.iter().map(|(a, n, x)| envp(a, n, x.clone())).collect())));
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------- C08
const T0: Day = 19737; // 2024-01-15
fn c08_heads() -> Vec<Item> {
    let mut trip = env("trip", Freq::Once(T0 + 40), amt(64.0, ""), &[], Funding::Manual);
    trip.goal = true;
    let mut coin = env("coin", Freq::Monthly(20), amt(2.0, "BTC"), &[], Funding::Aggressive);
    coin.goal = true;
    vec![
        Item::Account(
            A.into(),
            vec![
                env("food", Freq::Monthly(17), amt(32.0, ""), &[X], Funding::Aggressive),
                env("car", Freq::Weekly(3), amt(16.0, ""), &[X, "expenses:car"], Funding::Conservative),
                trip,
                coin,
            ],
        ),
        Item::Account(B.into(), vec![env("rainy", Freq::Never, amt(100.0, ""), &[X], Funding::Aggressive), env("food", Freq::Weekly(1), amt(8.0, ""), &[X], Funding::Conservative)]),
        acct(X),
        acct("expenses:car"),
        acct(I),
        acct(L),
    ]
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    E(usize),
    Days(i64),
    Fund,
}
fn c08_entry(k: usize, d: Day) -> Entry {
    let ps = match k {
        0 => vec![real(A, n(100.0)), real(I, None)],
        1 => vec![real(A, n(-30.0)), real(X, n(30.0))],
        2 => vec![real(X, n(-12.0)), real(A, None)],
        3 => vec![real(A, n(-16.5)), real(L, n(16.5))],
        4 => vec![real(A, n(-20.0)), real(B, n(20.0))],
        5 => vec![envp(A, "food", amt(8.0, ""))],
        6 => vec![envp(A, "trip", amt(-4.0, "")), envp(A, "car", amt(4.0, ""))],
        7 => vec![real(A, n(-10.0)), envp(A, "food", amt(-6.0, "")), real(X, None), envp(B, "food", amt(2.0, ""))],
        8 => vec![real(A, s(2.0, "BTC")), real(I, s(-2.0, "BTC"))],
        9 => vec![real(A, n(-200.0)), real("expenses:car", n(150.0)), real(X, n(50.0))],
        10 => vec![real(A, n(-8.0)), real(B, n(-8.0)), real(X, None)],
        11 => vec![Post::Real { acct: A.into(), amt: s(1.0, "BTC"), cost: Some(Cost::Unit(amt(24.0, ""))) }, real(B, None)],
        _ => vec![real(B, n(12.5)), real(X, n(-12.5))],
    };
    entry(d, "event", ps)
}
/// available + envelopes = balance, by the program's own reports
fn conserved(ctx: &Ctx, b: &Res, ev: &Res) -> Check {
    let bal = op::balance(&b.out).unwrap_or_default();
    let v = env_out(ctx, ev)?;
    for a in &v {
        let mut p = Pool::new();
        a.available.iter().for_each(|x| pool_add(&mut p, x));
        a.envs.iter().for_each(|x| {
            pool_add(&mut p, &x.now);
            pool_add(&mut p, &x.next);
        });
        let want: Vec<Amt> = bal.iter().find(|x| x.0 == a.name).map(|x| x.1.clone()).unwrap_or_default();
        ctx.need(op::same_pool(&want, &p), || format!("{}: available and envelopes make {p:?}, the balance is {want:?}", a.name))?;
    }
    Ok(())
}
pub fn c08_node(ctx: &mut Ctx, items: &[Item], today: Day) -> Check {
    let w = eval(items, today).unwrap();
    let b = report(ctx, today, "b");
    chk_balance(ctx, &w, &b)?;
    let e = report(ctx, today, "e");
    conserved(ctx, &b, &e)?;
    chk_env(ctx, &w, &e, today, ALL_OPTS)?;
    let r = report(ctx, today, "r");
    chk_register(ctx, &w, &r, "%Y/%m/%d")?;
    ctx.t.traces += 1;
    ctx.state(&(format!("{:?}", w.totals), e.out));
    ctx.outcome(&format!("{} register items", w.register.len()));
    Ok(())
}
fn c08_step(ctx: &mut Ctx, items: &mut Vec<Item>, today: &mut Day, ev: Ev) -> Check {
    match ev {
        Ev::E(k) => items.push(Item::Entry(c08_entry(k, *today))),
        Ev::Days(k) => *today += k,
        Ev::Fund => {
            // no balance and no register line changes
            let b0 = report(ctx, *today, "b");
            let r0 = report(ctx, *today, "r");
            let (b1, v, _) = fund(ctx, &req(*today, &["b", "-f", JF]), JF)?;
            ctx.need(b0.out == b1.out, || format!("a run that moves money to envelopes shows other balances: {:?} and {:?}", b0.out, b1.out))?;
            items.extend(as_items(ctx, &v, *today, "%Y/%m/%d")?);
            let r1 = report(ctx, *today, "r");
            ctx.need(r0.out == r1.out, || format!("moving money to envelopes changed the register: {:?} and {:?}", r0.out, r1.out))?;
        }
    }
    Ok(())
}
fn c08_dfs(ctx: &mut Ctx, evs: &[Ev], items: &[Item], today: Day, depth: usize, seq: &mut Vec<Ev>) -> Check {
    for ev in evs {
        let mut it = items.to_vec();
        let mut t = today;
        // rewriting the file from the model: an automatic entry reads back as what was appended
        ctx.put(JF, &render(&it));
        seq.push(*ev);
        c08_step(ctx, &mut it, &mut t, *ev)?;
        if *ev != Ev::Fund {
            ctx.put(JF, &render(&it));
        }
        c08_node(ctx, &it, t)?;
        if depth > 1 {
            c08_dfs(ctx, evs, &it, t, depth - 1, seq)?;
        }
        seq.pop();
        // keep the trace short: a node is reproduced by its last file and the runs on it
        ctx.trace.clear();
    }
    Ok(())
}
pub fn c08(h: &Harness) -> i32 {
    let all: Vec<Ev> = (0..13).map(Ev::E).chain([Ev::Days(1), Ev::Days(5), Ev::Fund]).collect();
    let m = all.len();
    let deep = if h.thorough { 3 } else { 1 };
    let go = |what: &str, evs: &[Ev], deep: usize, start: i64| {
        let m = evs.len();
        h.explore(what, m * m, |ctx, i| {
            let mut items = c08_heads();
            let mut t = T0;
            if start == 1 {
                // a history that already has saved, spent and moved money
                for (k, d) in [(0usize, -60), (0, -30), (8, -29), (5, -28), (1, -20), (4, -10), (6, -5)] {
                    items.push(Item::Entry(c08_entry(k, T0 + d)));
                }
            }
            let seq = [evs[i / m], evs[i % m]];
            for (k, ev) in seq.iter().enumerate() {
                ctx.put(JF, &render(&items));
                c08_step(ctx, &mut items, &mut t, *ev)?;
                if *ev != Ev::Fund {
                    ctx.put(JF, &render(&items));
                }
                if k == 1 || i % m == 0 {
                    c08_node(ctx, &items, t)?;
                }
            }
            ctx.sample(|| format!("{seq:?} on {}", iso(t)));
            ctx.trace.clear();
            c08_dfs(ctx, evs, &items, t, deep, &mut seq.to_vec())
        });
    };
    go("all event sequences from the empty journal", &all, deep, 0);
    go("all event sequences from a journal with a history", &all, deep.max(2), 1);
    let few = [Ev::E(0), Ev::E(1), Ev::E(2), Ev::E(7), Ev::E(9), Ev::Days(1), Ev::Fund];
    go("longer sequences of the seven main events", &few, deep + if h.thorough { 1 } else { 2 }, 1);
    // currencies that look alike
    let sy = ["", "$", "$$", "US$", "€", "EUR", "eur", "Eur", "E", "e", "é", "É", "ß", "ss", "円", "e_x"];
    let ns = sy.len();
    h.explore("all pairs of currencies of two envelopes and of the account's money", ns * ns * 4, |ctx, i| {
        let d = digits(i, &[ns, ns, 4]);
        let (a, b) = (sy[d[0]], sy[d[1]]);
        let mut items = vec![
            Item::Account(A.into(), vec![env("p", Freq::Monthly(5), amt(10.0, a), &[], Funding::Unset), env("q", Freq::Never, amt(20.0, b), &[], Funding::Unset)]),
            acct(I),
            acct(X),
        ];
        let mut es = vec![
            vec![real(A, Some(amt(50.0, a))), real(I, None)],
            vec![real(I, Some(amt(-30.0, b))), real(A, None)],
            vec![envp(A, "p", amt(4.0, a)), envp(A, "q", amt(7.0, b))],
            vec![real(A, Some(amt(-1.5, b))), real(X, Some(amt(1.5, b))), envp(A, "q", amt(-1.5, b))],
            vec![envp(A, "p", amt(-6.0, a))],
        ];
        match d[2] {
            1 => es.reverse(),
            2 => es.rotate_left(1),
            3 => es.swap(0, 1),
            _ => {}
        }
        for (j, e) in es.into_iter().enumerate() {
            items.push(Item::Entry(entry(T0 - 40 + 3 * j as i64, "e", e)));
            ctx.put(JF, &render(&items));
            c08_node(ctx, &items, T0)?;
        }
        Ok(())
    });
    // entries dated before, on and after the day they are looked at, in any order in the file
    let offs = [-40i64, -3, 0, 1, 30];
    let ne = 13 * offs.len();
    h.explore("all pairs of entries x dates in the past, today and in the future, then a funding run", ne * ne, |ctx, i| {
        let mut items = c08_heads();
        items.push(Item::Entry(c08_entry(0, T0 - 20)));
        for j in [i / ne, i % ne] {
            items.push(Item::Entry(c08_entry(j / offs.len(), T0 + offs[j % offs.len()])));
        }
        ctx.put(JF, &render(&items));
        c08_node(ctx, &items, T0)?;
        if i % 2 == 0 || h.thorough {
            let mut t = T0;
            c08_step(ctx, &mut items, &mut t, Ev::Fund)?;
            c08_node(ctx, &items, t)?;
            c08_node(ctx, &items, T0 + 31)?;
        }
        Ok(())
    });
    // an account that is defined again, after any of the entries
    let again = [vec![], vec![env("new", Freq::Monthly(9), amt(8.0, ""), &[X], Funding::Aggressive)], vec![env("food", Freq::Monthly(17), amt(32.0, ""), &[X], Funding::Aggressive)]];
    let seqs = [[0usize, 5, 1], [0, 1, 7], [8, 0, 6], [4, 2, 12], [0, 4, 10]];
    h.explore("an account defined again after any entry, with no, other or the same envelopes", seqs.len() * 4 * 4 * again.len() * 3, |ctx, i| {
        let d = digits(i, &[seqs.len(), 4, 4, again.len(), 3]);
        let name = [A, B, X][d[4]];
        let mut items = c08_heads();
        for k in 0..=3usize {
            for at in [d[1], d[2]] {
                if at == k {
                    items.push(Item::Account(name.into(), if at == d[1] && d[1] != d[2] { vec![] } else { again[d[3]].clone() }));
                }
            }
            if k < 3 {
                items.push(Item::Entry(c08_entry(seqs[d[0]][k], T0 - 9 + 2 * k as i64)));
            }
        }
        ctx.put(JF, &render(&items));
        // refused, or nothing is lost
        let b = report(ctx, T0, "b");
        if b.out.is_empty() && !b.err.trim().is_empty() {
            need_refused(ctx, &b, "an account defined twice")?;
            ctx.outcome("defined twice: refused");
        } else {
            let e = report(ctx, T0, "e");
            conserved(ctx, &b, &e)?;
            let plain: Vec<Item> = c08_heads().into_iter().chain(items.iter().filter(|x| matches!(x, Item::Entry(_))).cloned()).collect();
            let w = eval(&plain, T0).unwrap();
            chk_balance(ctx, &w, &b)?;
            let (b1, _, _) = fund(ctx, &req(T0, &["b", "-f", JF]), JF)?;
            ctx.need(b1.out == b.out, || format!("a run that moves money to envelopes shows other balances: {:?} and {:?}", b.out, b1.out))?;
            let e = report(ctx, T0, "e");
            conserved(ctx, &b1, &e)?;
            ctx.outcome("defined twice: accepted");
        }
        ctx.t.traces += 1;
        Ok(())
    });
    wide::everything(h);
    // long histories: the events over and over in every rotation, with a funding run each day
    h.explore("long cyclic histories", m * if h.thorough { m } else { 3 }, |ctx, i| {
        let (off, step) = (i % m, 1 + i / m);
        let mut items = c08_heads();
        let mut t = T0;
        ctx.put(JF, &render(&items));
        for k in 0..24 {
            let ev = all[(off + k * step) % m];
            c08_step(ctx, &mut items, &mut t, ev)?;
            if ev != Ev::Fund {
                ctx.put(JF, &render(&items));
            }
            if k % 3 == 2 {
                c08_step(ctx, &mut items, &mut t, Ev::Fund)?;
                t += 1;
            }
            c08_node(ctx, &items, t)?;
        }
        Ok(())
    });
    h.finish(
        "all sequences of 3 (thorough: 5; from the grown journal 4 and 5) events out of 16 (income, linked/unlinked/blank spending, refund, transfer, manual moves in and out, mixed entries, foreign income and purchase, overspending, next day, funding run) from an empty and from a grown journal, longer sequences (5; thorough: 6) of seven events, all pairs of entries dated before, on and after today, accounts defined again after any entry, cyclic histories of 24 events; wide journals (up to 257 postings, 129 currencies, 33 envelopes, 100 linked accounts, 257 accounts; all pairs of look-alike names; magnitudes 1e-8 to 1e12); after every event the balance, envelope and register reports are compared with the model and with each other. A state is a distinct pair of reports",
        &["two accounts with five envelopes, two currencies, dyadic amounts"],
    )
}

// ------------------------------------------------------------------------------------------- C10, C11
pub struct St {
    pub envs: Vec<(Env, f64, f64)>, // next, now
    pub avail: f64,
    pub items: Vec<Item>,
}
/// A journal in which each envelope holds the given amounts and the account has the given available money.
fn build(envs: &[(Env, f64, f64)], avail: f64, today: Day) -> St {
    let mut es: Vec<(Env, f64, f64)> = envs.to_vec();
    for (k, x) in es.iter_mut().enumerate() {
        x.0.name = format!("e{k}");
    }
    let mut foreign = env("coin", Freq::Monthly(9), amt(5.0, "BTC"), &[], Funding::Manual);
    foreign.goal = true;
    let mut list: Vec<Env> = es.iter().map(|x| x.0.clone()).collect();
    list.push(foreign);
    let mut items = vec![
        Item::Account(A.into(), list),
        Item::Account(B.into(), vec![env("other", Freq::Monthly(9), amt(50.0, ""), &[X], Funding::Manual)]),
        acct(I),
        acct(X),
    ];
    let mut total = avail;
    for (x, next, now) in &es {
        total += next + now;
        // `next` is filled on yesterday or the latest due date; what is ready long ago
        if *now > 0.0 {
            let d = x.last_due(today).map_or(today - 400, |d| d - 400);
            items.push(Item::Entry(entry(d, "ready", vec![envp(A, &x.name, amt(*now, ""))])));
        }
        if *now < 0.0 {
            items.push(Item::Entry(entry(today - 1, "overspent", vec![envp(A, &x.name, amt(*now, ""))])));
        }
        if *next > 0.0 {
            items.push(Item::Entry(entry(today - 1, "saved", vec![envp(A, &x.name, amt(*next, ""))])));
        }
    }
    items.push(Item::Entry(entry(today - 1, "start", vec![real(A, n(total)), real(I, None)])));
    items.push(Item::Entry(entry(today - 1, "coins", vec![real(A, s(40.0, "BTC")), real(I, None)])));
    items.push(Item::Entry(entry(today - 1, "other", vec![real(B, n(500.0)), real(I, None)])));
    St { envs: es, avail, items }
}
/// Safety of one funding run (C10).
fn safe(ctx: &Ctx, w: &World, mv: &[(String, String, Amt)], today: Day) -> Check {
    for (an, st) in &w.accounts {
        let avail = st.available();
        let mut used = Pool::new();
        for (env, s) in &st.envs {
            let mine: Vec<&Amt> = mv.iter().filter(|m| m.0 == *an && m.1 == env.name).map(|m| &m.2).collect();
            if mine.is_empty() {
                continue;
            }
            ctx.need(matches!(env.funding, Funding::Aggressive | Funding::Conservative), || format!("money was moved to the manual envelope {} by itself", env.name))?;
            ctx.need(env.next_due(today).is_some(), || format!("money was moved to {}, which has no coming due date", env.name))?;
            ctx.need(mine.iter().all(|a| a.sym == env.amount.sym), || format!("money of another currency was moved to {}: {mine:?}", env.name))?;
            ctx.need(mine.iter().all(|a| a.mag >= 0.0), || format!("money was taken out of {}: {mine:?}", env.name))?;
            let f: f64 = mine.iter().map(|a| a.mag).sum();
            let hole = (-(s.now + s.next)).max(0.0);
            let (_, shown) = s.shown();
            let limit = env.amount.mag.max(shown).max(shown + hole);
            ctx.need(shown + f <= limit * (1.0 + 1e-11) + 2e-8, || {
                format!("{} has {shown} saved for the next due date, got {f}, and so exceeds its amount {} (now {}, next {})", env.name, env.amount.mag, s.now, s.next)
            })?;
            pool_add(&mut used, &amt((f - hole).max(0.0), &env.amount.sym));
        }
        for (sym, u) in &used {
            let a = avail.get(sym).copied().unwrap_or(0.0);
            ctx.need(*u <= a.max(0.0) * (1.0 + 1e-11) + 4e-8, || format!("{u} {sym} were moved out of {an}'s available {a} {sym} (not counting overspent envelopes)"))?;
        }
    }
    for m in mv {
        let known = w.accounts.get(&m.0).is_some_and(|a| a.envs.iter().any(|e| e.0.name == m.1));
        ctx.need(known, || format!("money was moved to {} {}, which does not exist", m.0, m.1))?;
    }
    Ok(())
}
/// Exact amounts of one funding run (C11): there is an order of the envelopes of each account and
/// currency in which each gets what its funding method promises of what is left.
fn exact(ctx: &Ctx, w: &World, mv: &[(String, String, Amt)], today: Day) -> Check {
    for (an, st) in &w.accounts {
        let mut syms: Vec<&String> = st.envs.iter().map(|e| &e.0.amount.sym).collect();
        syms.sort();
        syms.dedup();
        for sym in syms {
            let es: Vec<&(Env, EnvState)> = st.envs.iter().filter(|e| e.0.amount.sym == *sym).collect();
            let got: Vec<f64> = es.iter().map(|e| mv.iter().filter(|m| m.0 == *an && m.1 == e.0.name).map(|m| m.2.mag).sum()).collect();
            let a0 = st.available().get(sym).copied().unwrap_or(0.0);
            // depth-first over the sets of envelopes already served
            let mut seen = std::collections::HashSet::new();
            let mut stack = vec![(vec![false; es.len()], a0)];
            let mut ok = false;
            while let Some((done, a)) = stack.pop() {
                if done.iter().all(|x| *x) {
                    ok = true;
                    break;
                }
                if seen.len() > 200_000 {
                    break;
                }
                let near = |i: usize, f: f64| (f - got[i]).abs() <= 2e-8 + 1e-11 * f;
                let open: Vec<usize> = (0..es.len()).filter(|i| !done[*i]).collect();
                // an envelope that got all it wanted may as well have been served first (unless it is overspent:
                // then it gets that at any time)
                let full = open.iter().find(|i| es[**i].1.now + es[**i].1.next >= 0.0 && near(**i, fill_amount(&es[**i].0, &es[**i].1, a, today)) && near(**i, fill_amount(&es[**i].0, &es[**i].1, 1e15, today)));
                for i in full.map(|i| vec![*i]).unwrap_or(open) {
                    let f = fill_amount(&es[i].0, &es[i].1, a, today);
                    if near(i, f) {
                        let mut d = done.clone();
                        d[i] = true;
                        if seen.insert(d.clone()) {
                            stack.push((d, a - f));
                        }
                    }
                }
            }
            ctx.need(ok, || {
                let each: Vec<String> = es
                    .iter()
                    .zip(&got)
                    .map(|(e, g)| {
                        format!(
                            "{} `{}` {:?} amount {} now {} next {} due {:?}: got {g}, alone it would get {}",
                            e.0.name,
                            e.0.header("%Y/%m/%d"),
                            e.0.funding,
                            e.0.amount.mag,
                            e.1.now,
                            e.1.next,
                            e.0.next_due(today).map(iso),
                            fill_amount(&e.0, &e.1, a0, today)
                        )
                    })
                    .collect();
                format!("{an} on {} with {a0} {sym} available: {}", iso(today), each.join("; "))
            })?;
        }
    }
    Ok(())
}
pub fn fund_case(ctx: &mut Ctx, st: &St, today: Day, exactly: bool) -> Check {
    ctx.put(JF, &render(&st.items));
    let w = eval(&st.items, today).unwrap();
    let (_, v, _) = fund(ctx, &req(today, &["b", "-f", JF]), JF)?;
    let mv = moves(ctx, &v)?;
    if exactly {
        exact(ctx, &w, &mv, today)?;
    } else {
        safe(ctx, &w, &mv, today)?;
        // and by the next report: nothing but these envelopes changed
        let mut items = st.items.clone();
        items.extend(as_items(ctx, &v, today, "%Y/%m/%d")?);
        let w2 = eval(&items, today).unwrap();
        let r = report(ctx, today, "e");
        chk_env(ctx, &w2, &r, today, EnvOpts { due: false, split: false, available: true })?;
        for (an, a) in &w2.accounts {
            for (s, x) in a.available() {
                let b = w.accounts[an].available().get(&s).copied().unwrap_or(0.0);
                let holes: f64 = w.accounts[an].envs.iter().filter(|e| e.0.amount.sym == s).map(|e| (-(e.1.now + e.1.next)).max(0.0)).sum();
                ctx.need(x >= b.min(0.0) - holes - 4e-8 - 1e-11 * b.abs(), || format!("available money of {an} went from {b} {s} to {x} {s}"))?;
            }
        }
    }
    ctx.t.traces += 1;
    ctx.state(&format!("{:?} {} {}", st.envs.iter().map(|x| (x.0.freq_key(), x.0.funding, x.0.next_due(today).map(|d| d - today), x.1.to_bits(), x.2.to_bits())).collect::<Vec<_>>(), st.avail, today));
    ctx.outcome(&format!("{} envelopes funded", mv.len()));
    ctx.sample(|| format!("on {}: {} available, {:?} -> {mv:?}", iso(today), st.avail, st.envs.iter().map(|x| (x.0.header("%Y/%m/%d"), x.1, x.2)).collect::<Vec<_>>()));
    Ok(())
}
const FUND: [Funding; 2] = [Funding::Aggressive, Funding::Conservative];
fn funding(h: &Harness, exactly: bool) {
    let today = T0; // Monday, 2024-01-15
    let freqs = [
        kind(Freq::Monthly(20), None),
        kind(Freq::Weekly(1), None),
        kind(Freq::Once(today + 32), None),
        kind(Freq::Once(today - 3), None),
        kind(Freq::Never, None),
        kind(Freq::Yearly, Some(day(2021, 1, 15))),
        kind(Freq::Monthly(15), Some(today + 31)),
        kind(Freq::Biweekly, Some(today - 12)),
        kind(Freq::Bimonthly, Some(day(2023, 11, 18))),
    ];
    let nexts = [0.0, 24.0, 64.0, 80.0];
    let nows = [0.0, 16.0, -8.0, -96.0];
    let avails = [-50.0, 0.0, 5.5, 40.0, 1000.0];
    // one envelope, everything
    let b = [freqs.len(), 4, nexts.len(), nows.len(), avails.len(), 2, 3];
    h.explore("one envelope: frequency x funding x next x now x available x type x amount", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mut x = freqs[d[0]].clone();
        x.funding = [Funding::Aggressive, Funding::Conservative, Funding::Manual, Funding::Unset][d[1]];
        x.goal = d[5] == 1;
        x.amount = amt([64.0, 10.25, 0.0][d[6]], "");
        fund_case(ctx, &build(&[(x, nexts[d[2]], nows[d[3]])], avails[d[4]], today), today, exactly)
    });
    // from tiny to huge amounts, tomorrow to years away, nearly full, nearly nothing available
    let mags = [0.0001, 0.01, 0.5, 1.0, 3.0, 365.0, 99999.99, 1e9];
    let ahead = [1, 2, 3, 28, 31, 60, 61, 90, 365, 366, 1000, 7000];
    let b = [mags.len(), ahead.len(), 7, 7, 2];
    h.explore("one envelope: magnitude x days until it is due x part of it that is saved x available x funding", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let m = mags[d[0]];
        let mut x = kind(Freq::Once(today + ahead[d[1]]), None);
        x.amount = amt(m, "");
        x.funding = FUND[d[4]];
        let saved = [0.0, m / 4.0, m * 0.99, (m - 0.001).max(0.0), (m - 0.00000003).max(0.0), m, m + 0.001][d[2]];
        let avail = [0.0, 0.00000002, 0.004, 0.01, m / 8.0, m, 3.0 * m + 1.0][d[3]];
        fund_case(ctx, &build(&[(x, saved, 0.0)], avail, today), today, exactly)
    });
    // two envelopes
    let f2 = if h.thorough { 7 } else { 3 };
    let b = [f2, 2, nexts.len(), nows.len(), f2, 2, nexts.len(), nows.len(), avails.len()];
    h.explore("two envelopes: all of that squared", product(&b), |ctx, i| {
        let d = digits(i, &b);
        if !h.thorough && (d[3] == 1 && d[7] == 1) {
            return Ok(());
        }
        let mut x = freqs[d[0]].clone();
        x.funding = FUND[d[1]];
        let mut y = freqs[d[4]].clone();
        y.funding = FUND[d[5]];
        y.goal = true;
        y.amount = amt(48.0, "");
        fund_case(ctx, &build(&[(x, nexts[d[2]], nows[d[3]]), (y, nexts[d[6]], nows[d[7]])], avails[d[8]], today), today, exactly)
    });
    // three envelopes of both types and funding methods with scarce money
    let b = [2, 2, 2, 3, 3, 3, 6, 4];
    h.explore("three envelopes with scarce money", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mk = |k: usize, f: usize, goal: bool, a: f64| {
            let mut x = freqs[k].clone();
            x.funding = FUND[f];
            x.goal = goal;
            x.amount = amt(a, "");
            x
        };
        let st = |k: usize| [(0.0, 0.0), (24.0, 0.0), (0.0, -8.0)][k];
        let g = [false, true][d[7] % 2];
        let es = [
            (mk(0, d[0], g, 64.0), st(d[3]).0, st(d[3]).1),
            (mk(1, d[1], d[7] / 2 == 1, 32.0), st(d[4]).0, st(d[4]).1),
            (mk(2, d[2], true, 128.0), st(d[5]).0, st(d[5]).1),
        ];
        fund_case(ctx, &build(&es, [-20.0, 0.0, 10.0, 50.0, 100.0, 500.0][d[6]], today), today, exactly)
    });
    // every day of a stretch: days left
    let days: Vec<Day> = if h.thorough { (day(2023, 12, 1)..day(2025, 3, 15)).collect() } else { (day(2024, 1, 20)..day(2024, 3, 10)).chain(day(2024, 12, 20)..day(2025, 1, 10)).collect() };
    h.explore("every day of a stretch x every frequency", days.len() * freqs.len() * 2, |ctx, i| {
        let d = digits(i, &[days.len(), freqs.len(), 2]);
        let mut x = freqs[d[1]].clone();
        x.funding = FUND[d[2]];
        for av in [6.0, 1000.0] {
            fund_case(ctx, &build(&[(x.clone(), 12.0, 0.0)], av, days[d[0]]), days[d[0]], exactly)?;
        }
        Ok(())
    });
    // several accounts and currencies
    let b = [2, 2, 2, 4, 4, 3];
    h.explore("two accounts and two currencies", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mk = |nm: &str, f: usize, a: Amt, fr: Freq| Env { goal: nm == "coin", name: nm.into(), freq: fr, starting: None, amount: a, fors: vec![], funding: FUND[f] };
        let items = vec![
            Item::Account(A.into(), vec![mk("food", d[0], amt(64.0, ""), Freq::Monthly(20)), mk("coin", d[1], amt(4.0, "BTC"), Freq::Weekly(4))]),
            Item::Account(B.into(), vec![mk("food", d[2], amt(32.0, ""), Freq::Monthly(20)), mk("coin", d[0], amt(3.0, "BTC"), Freq::Monthly(16))]),
            acct(I),
            Item::Entry(entry(today - 3, "a", vec![real(A, n([-10.0, 0.0, 16.0, 500.0][d[3]])), real(I, None)])),
            Item::Entry(entry(today - 3, "b", vec![real(B, n([500.0, 8.0, 0.0, -7.0][d[4]])), real(I, None)])),
            Item::Entry(entry(today - 3, "c", vec![real([A, B][d[5] % 2], s([2.0, 100.0, -1.0][d[5]], "BTC")), real(I, None)])),
        ];
        fund_case(ctx, &St { envs: vec![], avail: i as f64, items }, today, exactly)
    });
    // the currencies of envelopes and of the account's money, in every order
    let syms = ["", "$", "BTC"];
    let ords = perms(3);
    let b = [3, 3, 3, if h.thorough { 8 } else { 3 }, 2, 6, 3, 3, 3];
    h.explore("three envelopes x their currencies x order in which the account got the currencies x available in each", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let fm = if h.thorough { d[3] } else { [0, 7, 2][d[3]] };
        let mut list = vec![];
        for k in 0..3 {
            let mut x = freqs[k].clone();
            x.name = format!("e{k}");
            x.funding = FUND[fm >> k & 1];
            x.goal = d[4] == 1 && k == 1;
            x.amount = amt([64.0, 32.0, 48.0][k], syms[d[k]]);
            list.push(x);
        }
        let mut items = vec![Item::Account(A.into(), list), acct(I)];
        for (k, c) in ords[d[5]].iter().enumerate() {
            let m = [[40.0, 1000.0, -5.0], [50.5, 6.0, 0.0], [70.0, 2000.0, 0.0]][*c][d[6 + c]];
            if m != 0.0 {
                items.push(Item::Entry(entry(today - 9 + k as i64, "money", vec![real(A, s(m, syms[*c])), real(I, None)])));
            }
        }
        fund_case(ctx, &St { envs: vec![], avail: i as f64, items }, today, exactly)
    });
    // what moves in or out on the day itself, and postings that do not move the envelope
    let b = [4, 2, 6, 3, 5, 3, 2];
    h.explore("entries of today before the run x saved and ready before x size x available", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mut x = freqs[d[0]].clone();
        x.funding = FUND[d[1]];
        x.fors = vec![X.into()];
        let mut st = build(&[(x, [12.0, 0.0, 0.0, 0.0, 63.0][d[4]], [0.0, 0.0, 8.0, -3.0, 2.0][d[4]])], [200.0, 5.0][d[6]], today);
        let date = today + [0, -1, 1][d[3]];
        let m = [4.0, 0.01, 30.0][d[5]];
        let ps = match d[2] {
            0 => vec![envp(A, "e0", amt(m, ""))],
            1 => vec![envp(A, "e0", amt(-m, ""))],
            2 => vec![real(A, n(-m)), real(X, None)],
            3 => vec![real(A, n(m)), real(X, None)],
            4 => vec![real(A, n(m)), real(I, None)],
            _ => vec![envp(B, "other", amt(m, ""))],
        };
        st.items.push(Item::Entry(entry(date, "today", ps)));
        fund_case(ctx, &st, today, exactly)
    });
    // only a movement of today keeps an envelope from being filled: not one of the same day of another month or year
    let b = [1500, 2, 2];
    h.explore("the envelope last moved on each of the 1,500 days before today x funding x frequency", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let mut x = [kind(Freq::Monthly(20), None), kind(Freq::Once(today + 40), None)][d[2]].clone();
        x.funding = FUND[d[1]];
        let mut st = build(&[(x, 0.0, 0.0)], 200.0, today);
        st.items.push(Item::Entry(entry(today - 1 - d[0] as i64, "long ago", vec![envp(A, "e0", amt(4.0, ""))])));
        fund_case(ctx, &st, today, exactly)
    });
}
pub fn c10(h: &Harness) -> i32 {
    funding(h, false);
    wide::explore(h, |ctx, items, _| fund_case(ctx, &St { envs: vec![], avail: 0.0, items: items.to_vec() }, wide::T, false));
    // invariants along whole histories: each day income, spending or nothing, then a run
    let dmax = if h.thorough { 6 } else { 5 };
    h.explore("histories: each day one of five events, then a run", 5usize.pow(dmax), |ctx, i| {
        let mut car = env("car", Freq::Weekly(3), amt(24.0, ""), &["expenses:car"], Funding::Conservative);
        car.goal = i % 2 == 0;
        let mut items = vec![
            Item::Account(A.into(), vec![env("food", Freq::Monthly(18), amt(40.0, ""), &[X], Funding::Aggressive), car, probe("save", "")]),
            acct(X),
            acct("expenses:car"),
            acct(I),
        ];
        ctx.put(JF, &render(&items));
        for (k, d) in digits(i, &[5; 6][..dmax as usize]).iter().enumerate() {
            let t = T0 + k as i64;
            let ev = match d {
                0 => None,
                1 => Some(vec![real(A, n(60.0)), real(I, None)]),
                2 => Some(vec![real(A, n(-25.0)), real(X, None)]),
                3 => Some(vec![real(A, n(-50.0)), real("expenses:car", None)]),
                _ => Some(vec![real(A, n(-30.0)), real(I, None), envp(A, "save", amt(10.0, ""))]),
            };
            if let Some(ps) = ev {
                items.push(Item::Entry(entry(t - 1, "event", ps)));
                ctx.put(JF, &render(&items));
            }
            let w = eval(&items, t).unwrap();
            let (_, v, _) = fund(ctx, &req(t, &["e", "-f", JF]), JF)?;
            let mv = moves(ctx, &v)?;
            safe(ctx, &w, &mv, t)?;
            items.extend(as_items(ctx, &v, t, "%Y/%m/%d")?);
            ctx.state(&format!("{:?}{t}", w.accounts[A].available()));
        }
        ctx.t.traces += 1;
        Ok(())
    });
    h.finish(
        "every combination of frequency, funding method, saved, ready/overspent and available money for one and two envelopes (three with scarce money), every day of a stretch, two accounts with two currencies, three envelopes in every combination of three currencies and order of the account's money, entries of today, all 5-day (thorough: 6-day) histories, and wide journals (up to 257 postings, 129 currencies, 33 envelopes, 100 linked accounts, 257 accounts; all pairs of look-alike names; magnitudes 1e-8 to 1e12); on every funding run the appended moves are checked against the safety conditions, and the next report against them. A state is a distinct account state",
        &["money that brings an overspent envelope back to zero is exempt from the limit of available money, as the code intends", "the order in which envelopes are served is free"],
    )
}
pub fn c11(h: &Harness) -> i32 {
    funding(h, true);
    wide::explore(h, |ctx, items, _| fund_case(ctx, &St { envs: vec![], avail: 0.0, items: items.to_vec() }, wide::T, true));
    // just in time: all subsets of the days before the due date
    let dmax = if h.thorough { 10 } else { 7 };
    let kinds: [(Env, Day); 6] = [
        (kind(Freq::Monthly(29), None), day(2024, 2, 29)),
        (kind(Freq::Monthly(31), None), day(2024, 4, 30)),
        (kind(Freq::Once(day(2024, 3, 3)), None), day(2024, 3, 3)),
        (kind(Freq::Yearly, Some(day(2020, 2, 29))), day(2025, 2, 28)),
        (kind(Freq::Biweekly, Some(day(2024, 1, 1))), day(2024, 2, 12)),
        (kind(Freq::Bimonthly, Some(day(2023, 12, 31))), day(2024, 2, 29)),
    ];
    let b = [1 << dmax, kinds.len(), 2, 3];
    h.explore("all subsets of the days before a due date on which silverfox runs", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let (x, due) = &kinds[d[1]];
        let mut x = x.clone();
        x.name = "food".into();
        x.funding = FUND[d[2]];
        x.amount = amt([64.0, 100.0, 10.1][d[3]], "");
        let target = x.amount.mag;
        let mut items = vec![
            Item::Account(A.into(), vec![x]),
            acct(I),
            Item::Entry(entry(due - 60, "start", vec![real(A, n(1000.0)), real(I, None)])),
        ];
        ctx.put(JF, &render(&items));
        for k in 0..dmax {
            if d[0] >> k & 1 == 0 {
                continue;
            }
            let t = due - dmax as i64 + k as i64;
            let w = eval(&items, t).unwrap();
            let (_, v, _) = fund(ctx, &req(t, &["b", "-f", JF]), JF)?;
            let mv = moves(ctx, &v)?;
            exact(ctx, &w, &mv, t)?;
            items.extend(as_items(ctx, &v, t, "%Y/%m/%d")?);
            ctx.state(&(d[1], d[2], t, mv.first().map(|m| m.2.mag.to_bits())));
        }
        let ran_before = d[0] >> (dmax - 1) & 1 == 1;
        if ran_before || (d[2] == 0 && d[0] != 0) {
            let r = report(ctx, *due, "e");
            let v = env_out(ctx, &r)?;
            let g = &v[0].envs[0];
            ctx.need(op::close(g.now.mag, target) && op::close(g.next.mag, 0.0), || {
                format!("on the due date {} the envelope shows now {} next {}, although silverfox ran the day before; its amount is {target}", iso(*due), g.now.mag, g.next.mag)
            })?;
        }
        ctx.t.traces += 1;
        ctx.outcome(if ran_before { "ran the day before" } else { "did not run the day before" });
        Ok(())
    });
    // over several due dates: daily runs
    h.explore("daily runs over several due dates", 12, |ctx, i| {
        let f = [Freq::Weekly(3), Freq::Monthly(30), Freq::Monthly(1)][i % 3];
        let x = env("food", f, amt(62.0, ""), &[X], FUND[i / 3 % 2]);
        let spend = i / 6 == 1;
        let y = env("car", Freq::Weekly(0), amt(20.0, ""), &[], FUND[(i / 3 + 1) % 2]);
        let mut items = vec![
            Item::Account(A.into(), vec![x.clone(), y]),
            acct(I),
            acct(X),
            Item::Entry(entry(T0 - 1, "start", vec![real(A, n(3000.0)), real(I, None)])),
        ];
        ctx.put(JF, &render(&items));
        for t in T0..T0 + if h.thorough { 120 } else { 50 } {
            if spend && x.last_due(t) == Some(t) {
                items.push(Item::Entry(entry(t, "spend", vec![real(A, n(-62.0)), real(X, None)])));
                ctx.put(JF, &render(&items));
            }
            let w = eval(&items, t).unwrap();
            let (_, v, _) = fund(ctx, &req(t, &["e", "-f", JF]), JF)?;
            let mv = moves(ctx, &v)?;
            exact(ctx, &w, &mv, t)?;
            items.extend(as_items(ctx, &v, t, "%Y/%m/%d")?);
        }
        ctx.t.traces += 1;
        Ok(())
    });
    h.finish(
        "the account states of C10, with the exact amounts of every funding run compared with the funding model for some order of the envelopes; all subsets of 7 (thorough: 10) days before a due date on which silverfox runs x 6 frequencies x 2 funding methods x 3 amounts, with the promise checked on the due date; daily runs over several due dates; wide journals (up to 257 postings, 129 currencies, 33 envelopes, 100 linked accounts, 257 accounts; all pairs of look-alike names; magnitudes 1e-8 to 1e12). A state is a distinct account state or funding step",
        &["amounts moved are compared to 2e-8 (silverfox writes eight decimals)"],
    )
}
