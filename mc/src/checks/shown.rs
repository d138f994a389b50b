//! C24: the envelope report lists every envelope once, in order, with bars that tell the truth.
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::model::*;
use crate::outparse as op;

const T: Day = 19800; // 2024-03-18

/// How many marks a bar of this width may have for an amount.
fn bar_ok(filled: usize, width: usize, held: f64, target: f64) -> bool {
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs().max(1e-9);
    if filled == usize::MAX || width == 0 || filled > width {
        return false;
    }
    let x = held / target * width as f64;
    let near = close(x, x.round());
    // halves, quarters and so on of an amount are exact, whatever the order of the operations
    let exact = target.log2().fract() == 0.0;
    let lo = x.floor().clamp(0.0, width as f64) as usize;
    if filled == lo {
        return true;
    }
    near && !exact && x > 0.5 && x < width as f64 - 0.5 && (filled == x.round() as usize || filled + 1 == x.round() as usize)
}

fn chk(ctx: &Ctx, w: &World, r: &crate::sut::Res, today: Day) -> Check {
    let v = env_out(ctx, r)?;
    let want: Vec<&String> = w.accounts.iter().filter(|a| !a.1.envs.is_empty()).map(|a| a.0).collect();
    let got: Vec<&String> = v.iter().map(|a| &a.name).collect();
    ctx.need(want == got, || format!("the envelope report lists the accounts {got:?}, expected {want:?}"))?;
    let width = v.iter().flat_map(|a| &a.envs).map(|e| e.bars[0].1).next().unwrap_or(0);
    for a in &v {
        let st = &w.accounts[&a.name];
        let av = st.available();
        ctx.need(op::same_pool(&a.available, &av), || format!("available in {} is shown as {:?}, expected {av:?}", a.name, a.available))?;
        let want: Vec<(bool, &str)> = [false, true].iter().flat_map(|g| st.envs.iter().filter(move |e| e.0.goal == *g).map(|e| (e.0.goal, e.0.name.as_str()))).collect();
        let got: Vec<(bool, &str)> = a.envs.iter().map(|e| (e.goal, e.name.as_str())).collect();
        ctx.need(want == got, || format!("under {} the envelopes (goal, name) are {got:?}, expected {want:?}", a.name))?;
        for x in &a.envs {
            let (e, s) = st.envs.iter().find(|e| e.0.goal == x.goal && e.0.name == x.name).unwrap();
            let (n, m) = s.shown();
            let what = || format!("{} {} of {} (target {}, now {n}, next {m})", if e.goal { "goal" } else { "expense" }, e.name, a.name, e.amount.text());
            ctx.need(x.target.sym == e.amount.sym && x.now.sym == e.amount.sym && x.next.sym == e.amount.sym && op::close(x.target.mag, e.amount.mag), || {
                format!("{}: shown as {x:?}", what())
            })?;
            ctx.need(op::close(x.now.mag, n) && op::close(x.next.mag, m), || format!("{}: now {} and next {} are shown", what(), x.now.mag, x.next.mag))?;
            ctx.need(x.due == e.next_due(today), || format!("{}: due date shown as {:?}, expected {:?}", what(), x.due.map(iso), e.next_due(today).map(iso)))?;
            for (k, held) in [n, m].into_iter().enumerate() {
                let (f, wd) = x.bars[k];
                ctx.need(wd == width, || format!("{}: a bar of width {wd} among bars of width {width}: {}", what(), show(r)))?;
                ctx.need(e.amount.mag <= 0.0 || bar_ok(f, wd, held, e.amount.mag), || {
                    format!("{}: the `{}` bar has {f} of {wd} marks for {held} of {}", what(), ["now", "next"][k], e.amount.mag)
                })?;
            }
        }
    }
    Ok(())
}

pub fn c24(h: &Harness) -> i32 {
    let mk = |goal: bool, name: &str, due: usize, a: Amt| Env {
        goal,
        name: name.into(),
        freq: [Freq::Never, Freq::Once(T + 9), Freq::Monthly(20), Freq::Once(T - 3), Freq::Weekly(0), Freq::Yearly][due],
        starting: if due == 5 { Some(T - 400) } else { None },
        amount: a,
        fors: vec![],
        funding: Funding::Unset,
    };
    // bars: targets x parts held x place
    let targets = [1.0, 2.0, 64.0, 1024.0, 0.5, 0.0625, 3.0, 7.0, 10.0, 40.0, 100.0, 1000.0, 0.75, 12.5, 123456.75, 33.0];
    let syms = ["", "$", "BTC", "€"];
    let steps: Vec<f64> = {
        let mut v: Vec<f64> = (-24..=200).map(|k| k as f64 / 80.0).collect();
        for k in [1.0, 20.0, 39.0, 40.0] {
            v.push(k / 40.0 - 1.0 / 4096.0);
            v.push(k / 40.0 + 1.0 / 4096.0);
        }
        v.extend([3.0, 10.0, 100.0, -1.0, -10.0]);
        v
    };
    let per = 15;
    let groups = steps.len().div_ceil(per);
    // place: saved for later, ready now, ready and overspent, later and overspent
    h.explore("bars: targets x share held (every 80th and just beside) x place x currency", targets.len() * groups * 5 * syms.len(), |ctx, i| {
        let d = digits(i, &[targets.len(), groups, 5, syms.len()]);
        let t = targets[d[0]];
        let s = syms[d[3]];
        let part: Vec<f64> = steps[d[1] * per..((d[1] + 1) * per).min(steps.len())].to_vec();
        let es: Vec<Env> = part.iter().enumerate().map(|(k, _)| mk(k % 2 == 1, &format!("e{k}"), [1, 4, 3, 4, 2][d[2]], amt(t, s))).collect();
        let put = |k: usize, date: Day, m: f64| Item::Entry(entry(date, "put", vec![envp(A, &format!("e{k}"), amt(m, s))]));
        let mut items = vec![Item::Account(A.into(), es), acct(X)];
        for (k, p) in part.iter().enumerate() {
            match d[2] {
                // all of it is for later
                0 | 1 => items.push(put(k, T - (d[2] == 0) as i64, p * t)),
                // all of it is ready
                2 => items.push(put(k, T - 40, p * t)),
                // some ready, the rest for later
                3 => {
                    items.push(put(k, T - 40, t / 4.0));
                    items.push(put(k, T, p * t));
                }
                // overspent, the rest for later
                _ => {
                    items.push(put(k, T - 40, -t / 8.0));
                    items.push(put(k, T - 1, p * t));
                }
            }
        }
        ctx.put(JF, &render(&items));
        let w = eval(&items, T).unwrap();
        let r = report(ctx, T, "e");
        chk(ctx, &w, &r, T)?;
        for x in &w.accounts[A].envs {
            ctx.state(&(t.to_bits(), x.1.now.to_bits(), x.1.next.to_bits()));
        }
        ctx.t.traces += part.len() as u64;
        ctx.outcome("bars");
        ctx.sample(|| render(&items).lines().take(20).collect::<Vec<_>>().join("\n"));
        Ok(())
    });
    // order: kinds x due dates x names of up to four envelopes
    let names = [["a", "b", "c", "d"], ["d", "c", "b", "a"], ["b", "a", "d", "c"], ["zeta", "Alpha", "é", "1"]];
    let nd = if h.thorough { 6 } else { 4 };
    for n in 1..=4usize {
        let b: Vec<usize> = std::iter::repeat_n(2 * nd, n).chain([names.len()]).collect();
        h.explore(&format!("order: kinds, due dates and names of {n} envelopes"), product(&b), |ctx, i| {
            let d = digits(i, &b);
            let es: Vec<Env> = (0..n).map(|k| mk(d[k] % 2 == 1, names[d[n]][k], d[k] / 2, amt(4.0 + k as f64, ""))).collect();
            let mut items = vec![Item::Account(A.into(), es), acct(X)];
            for k in 0..n {
                items.push(Item::Entry(entry(T - 30 - k as i64, "put", vec![envp(A, names[d[n]][k], amt(1.0 + 2.0 * k as f64, ""))])));
            }
            ctx.put(JF, &render(&items));
            let w = eval(&items, T).unwrap();
            let r = report(ctx, T, "e");
            chk(ctx, &w, &r, T)?;
            ctx.state(&(n, i));
            ctx.t.traces += 1;
            ctx.outcome("order");
            Ok(())
        });
    }
    // envelopes spread over several definitions of their account
    let cuts: Vec<(usize, usize)> = (0..=5).flat_map(|a| (a..=5).map(move |b| (a, b))).collect();
    h.explore("order: kinds and names of five envelopes x how they are spread over up to three definitions of the account", 32 * cuts.len() * 3, |ctx, i| {
        let d = digits(i, &[32, cuts.len(), 3]);
        let nm = [["a", "b", "c", "d", "e"], ["e", "d", "c", "b", "a"], ["c", "e", "a", "d", "b"]][d[2]];
        let es: Vec<Env> = (0..5).map(|k| mk(d[0] >> k & 1 == 1, nm[k], k, amt(4.0 + k as f64, ""))).collect();
        let (a, b) = cuts[d[1]];
        let mut items = vec![Item::Account(A.into(), es[..a].to_vec()), acct(X), Item::Account(A.into(), es[a..b].to_vec()), acct(I), Item::Account(A.into(), es[b..].to_vec())];
        for k in 0..5 {
            items.push(Item::Entry(entry(T - 30 - k as i64, "put", vec![envp(A, nm[k], amt(1.0 + 2.0 * k as f64, ""))])));
        }
        ctx.put(JF, &render(&items));
        let w = eval(&items, T).unwrap();
        let r = report(ctx, T, "e");
        chk(ctx, &w, &r, T)?;
        ctx.state(&("definitions", i));
        ctx.t.traces += 1;
        ctx.outcome("several definitions");
        Ok(())
    });
    // accounts: every order of up to four, each with no, one or both kinds of envelopes, with and without money
    let accs = ["assets:b", "assets:a", "assets:aa", "liabilities:l"];
    let orders = perms(accs.len());
    h.explore("accounts in every order x their envelopes x their money", orders.len() * 4usize.pow(4) * 2, |ctx, i| {
        let d = digits(i, &[orders.len(), 4, 4, 4, 4, 2]);
        let mut items = vec![acct(I)];
        for k in &orders[d[0]] {
            let es = match d[1 + k] {
                0 => vec![],
                1 => vec![mk(false, "food", 2, amt(8.0, ""))],
                2 => vec![mk(true, "trip", 1, amt(8.0, "$"))],
                _ => vec![mk(true, "trip", 1, amt(8.0, "$")), mk(false, "trip", 0, amt(8.0, "")), mk(false, "food", 4, amt(8.0, "$"))],
            };
            items.push(Item::Account(accs[*k].into(), es));
        }
        if d[5] == 1 {
            for (k, a) in accs.iter().enumerate() {
                items.push(Item::Entry(entry(T - 2, "pay", vec![real(a, Some(amt(3.0 + k as f64, ""))), real(I, None)])));
                if k != 1 {
                    items.push(Item::Entry(entry(T - 2, "pay", vec![real(a, Some(amt(-3.0 + k as f64, "$"))), real(I, None)])));
                }
            }
        }
        ctx.put(JF, &render(&items));
        let w = eval(&items, T).unwrap();
        let r = report(ctx, T, "e");
        chk(ctx, &w, &r, T)?;
        ctx.state(&("accounts", i));
        ctx.t.traces += 1;
        ctx.outcome("accounts");
        Ok(())
    });
    super::wide::explore(h, |ctx, _, w| {
        let r = report(ctx, super::wide::T, "e");
        chk(ctx, w, &r, super::wide::T)
    });
    h.finish(
        "every bar for 16 targets x 238 shares held (each 80th of the target from -30% to 250%, just beside whole marks, far beyond) x five places of the money (later, ready, both, overspent) x four currencies; every choice of kind, due date and names for up to four envelopes of an account; four accounts in every order x none, one or several envelopes x with and without money; wide journals (up to 33 envelopes in an account, 257 accounts). A state is a distinct (target, now, next) or layout",
        &["the bar's width is not fixed, only that all bars are equally wide", "where the share is a whole number of marks only up to rounding, one mark less is accepted"],
    )
}
