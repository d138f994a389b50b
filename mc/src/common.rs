//! Comparison of the program's reports with the model, shared by the checks.
use crate::cal::*;
use crate::fw::*;
use crate::model::*;
use crate::outparse as op;
use crate::sut::*;

pub const A: &str = "assets:a";
pub const B: &str = "assets:b";
pub const X: &str = "expenses:x";
pub const I: &str = "income:i";
pub const L: &str = "liabilities:l";
pub const Q: &str = "equity:q";

pub fn acct(n: &str) -> Item {
    Item::Account(n.into(), vec![])
}
/// an envelope that nothing moves by itself
pub fn probe(name: &str, sym: &str) -> Env {
    Env {
        goal: false,
        name: name.into(),
        freq: Freq::Never,
        starting: None,
        amount: amt(1000.0, sym),
        fors: vec![],
        funding: Funding::Unset,
    }
}
pub fn env(name: &str, freq: Freq, amount: Amt, fors: &[&str], funding: Funding) -> Env {
    Env { goal: false, name: name.into(), freq, starting: None, amount, fors: fors.iter().map(|s| s.to_string()).collect(), funding }
}

pub fn report(ctx: &mut Ctx, today: Day, sub: &str) -> Res {
    ctx.run(&req(today, &[sub, "-n", "-f", JF]))
}

/// The run ended by itself with a report and nothing on stderr.
pub fn need_ok(ctx: &Ctx, r: &Res, what: &str) -> Check {
    ctx.need(r.status == 0 && r.err.is_empty(), || format!("{what}: a valid input is not accepted: {}", show(r)))
}
/// The run refused its input: explanation on stderr, nothing on stdout, no crash.
pub fn need_refused(ctx: &Ctx, r: &Res, what: &str) -> Check {
    ctx.need(!r.crashed() && r.out.is_empty() && !r.err.trim().is_empty(), || {
        format!("{what}: should be refused (explanation on stderr, nothing on stdout): {}", show(r))
    })
}

pub fn chk_balance(ctx: &Ctx, w: &World, r: &Res) -> Check {
    need_ok(ctx, r, "balance")?;
    let Some(v) = op::balance(&r.out) else { return ctx.fail(format!("balance report is not readable: {}", show(r))) };
    let names: Vec<&String> = v.iter().map(|x| &x.0).collect();
    let want: Vec<&String> = w.totals.keys().collect();
    ctx.need(names == want, || format!("balance lists {names:?}, the postings touch {want:?}"))?;
    for (n, a) in &v {
        ctx.need(op::same_pool(a, &w.totals[n]), || format!("balance of {n} is shown as {a:?}, the postings sum to {:?}", w.totals[n]))?;
    }
    Ok(())
}

pub fn env_out(ctx: &Ctx, r: &Res) -> Result<Vec<op::AcctOut>, Violation> {
    need_ok(ctx, r, "envelopes")?;
    match op::envelopes(&r.out) {
        Some(v) => Ok(v),
        None => ctx.fail(format!("envelope report is not readable: {}", show(r))),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct EnvOpts {
    pub due: bool,
    pub split: bool,
    pub available: bool,
}
pub const ALL_OPTS: EnvOpts = EnvOpts { due: true, split: true, available: true };

/// Compares an envelope report with the model's world.
pub fn chk_env(ctx: &Ctx, w: &World, r: &Res, today: Day, o: EnvOpts) -> Check {
    let v = env_out(ctx, r)?;
    let want: Vec<&String> = w.accounts.iter().filter(|a| !a.1.envs.is_empty()).map(|a| a.0).collect();
    let got: Vec<&String> = v.iter().map(|a| &a.name).collect();
    ctx.need(want == got, || format!("envelope report lists accounts {got:?}, expected {want:?}"))?;
    for a in &v {
        let st = &w.accounts[&a.name];
        if o.available {
            let av = st.available();
            ctx.need(op::same_pool(&a.available, &av), || format!("available in {} is shown as {:?}, expected {av:?}", a.name, a.available))?;
        }
        ctx.need(a.envs.len() == st.envs.len(), || format!("{} envelopes shown in {}, expected {}", a.envs.len(), a.name, st.envs.len()))?;
        for (e, s) in &st.envs {
            let Some(x) = a.envs.iter().find(|x| x.goal == e.goal && x.name == e.name) else {
                return ctx.fail(format!("envelope {} of {} is not shown", e.name, a.name));
            };
            ctx.need(
                x.target.sym == e.amount.sym && x.now.sym == e.amount.sym && x.next.sym == e.amount.sym && op::close(x.target.mag, e.amount.mag),
                || format!("envelope {} of {}: amount shown as {x:?}, expected {:?}", e.name, a.name, e.amount),
            )?;
            let (n, m) = s.shown();
            if o.split {
                ctx.need(op::close(x.now.mag, n) && op::close(x.next.mag, m), || {
                    format!("envelope {} of {} on {}: now {} next {} shown, expected now {n} next {m}", e.name, a.name, iso(today), x.now.mag, x.next.mag)
                })?;
            } else {
                ctx.need(op::close(x.now.mag + x.next.mag, n + m), || {
                    format!("envelope {} of {} holds {} by the report, expected {}", e.name, a.name, x.now.mag + x.next.mag, n + m)
                })?;
            }
            if o.due {
                let d = e.next_due(today);
                ctx.need(x.due == d, || {
                    format!("{}: next due date on {} is shown as {:?}, expected {:?}", e.header("%Y/%m/%d"), iso(today), x.due.map(iso), d.map(iso))
                })?;
            }
        }
    }
    Ok(())
}

pub fn chk_register(ctx: &Ctx, w: &World, r: &Res, df: &str) -> Check {
    need_ok(ctx, r, "register")?;
    let Some(v) = op::register(&r.out) else { return ctx.fail(format!("register is not readable: {}", show(r))) };
    ctx.need(v.len() == w.register.len(), || {
        format!("register has {} items, {} entries change asset accounts: {}", v.len(), w.register.len(), show(r))
    })?;
    for (k, (g, e)) in v.iter().zip(&w.register).enumerate() {
        let ok = g.date == fmt(e.date, df)
            && g.status == e.status.to_string()
            && g.desc == e.desc
            && g.from == e.from
            && g.to == e.to
            && op::same_pool(&g.amounts.iter().map(|a| a.0.clone()).collect::<Vec<_>>(), &e.amounts)
            && g.amounts.iter().all(|(c, t)| c.sym == t.sym && op::close(t.mag, *e.running.get(&t.sym).unwrap_or(&0.0)));
        ctx.need(ok, || format!("register item {k} is {g:?}, expected {e:?}"))?;
    }
    Ok(())
}

/// all permutations of 0..n
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}
/// all weak orders of n things, as ranks
pub fn weak_orders(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    let tot = n.pow(n as u32);
    for c in 0..tot {
        let r: Vec<usize> = (0..n).map(|i| c / n.pow(i as u32) % n).collect();
        let mx = *r.iter().max().unwrap_or(&0);
        if (0..=mx).all(|k| r.contains(&k)) {
            v.push(r);
        }
    }
    v
}
/// set partitions of n things, as block numbers in order of first appearance
pub fn partitions(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        let m = cur.iter().max().map_or(0, |x| x + 1);
        for b in 0..=m {
            cur.push(b);
            go(n, cur, out);
            cur.pop();
        }
    }
    let mut v = vec![];
    go(n, &mut vec![], &mut v);
    v
}
/// digits of i in the given bases, least significant first
pub fn digits(mut i: usize, bases: &[usize]) -> Vec<usize> {
    bases
        .iter()
        .map(|b| {
            let d = i % b;
            i /= b;
            d
        })
        .collect()
}
pub fn product(bases: &[usize]) -> usize {
    bases.iter().product()
}
