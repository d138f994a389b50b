//! Readers for silverfox's textual reports.
use crate::cal::*;
use crate::model::*;
use std::collections::BTreeMap;

/// "$-30", "$ 30", " 30 BTC", "-30" ...
pub fn amount(s: &str) -> Option<Amt> {
    let s = s.trim();
    let isn = |c: char| c.is_ascii_digit() || c == '.' || c == '-';
    let n: String = s.chars().filter(|c| isn(*c)).collect();
    let sym: String = s.chars().filter(|c| !isn(*c)).collect();
    let mag: f64 = n.parse().ok()?;
    Some(Amt { mag, sym: sym.trim().to_string() })
}

pub fn balance(out: &str) -> Option<Vec<(String, Vec<Amt>)>> {
    let mut v: Vec<(String, Vec<Amt>)> = vec![];
    for l in out.lines() {
        if l.trim().is_empty() {
            continue;
        }
        if l.starts_with(char::is_whitespace) {
            v.last_mut()?.1.push(amount(l)?);
        } else {
            let (n, rest) = l.split_once(char::is_whitespace).unwrap_or((l, ""));
            let mut a = vec![];
            if !rest.trim().is_empty() {
                a.push(amount(rest)?);
            }
            v.push((n.to_string(), a));
        }
    }
    Some(v)
}

#[derive(Clone, Debug, PartialEq)]
pub struct EnvOut {
    pub goal: bool,
    pub name: String,
    pub now: Amt,
    pub next: Amt,
    pub target: Amt,
    pub due: Option<Day>,
    /// (filled, width) of the two bars
    pub bars: [(usize, usize); 2],
}
#[derive(Clone, Debug, PartialEq)]
pub struct AcctOut {
    pub name: String,
    pub available: Vec<Amt>,
    pub envs: Vec<EnvOut>,
}

fn progress(s: &str) -> Option<(Amt, Amt)> {
    let s = s.split('|').next()?;
    let (a, b) = s.split_once(" / ")?;
    Some((amount(a)?, amount(b)?))
}

/// the marks between the bar's ends, counted from the left, and its width
fn bar(s: &str) -> Option<(usize, usize)> {
    let (_, b) = s.split_once('|')?;
    let b = b.strip_suffix('|')?;
    let filled = b.trim_end().chars().count();
    if b.trim_end().contains(' ') {
        return None;
    }
    Some((filled, b.chars().count()))
}

pub fn envelopes(out: &str) -> Option<Vec<AcctOut>> {
    let mut v: Vec<AcctOut> = vec![];
    let mut section = 0; // 1 available, 2 expenses, 3 goals
    let mut lines = out.lines().peekable();
    while let Some(l) = lines.next() {
        if l.trim().is_empty() {
            continue;
        }
        let ind = l.len() - l.trim_start().len();
        let t = l.trim();
        if ind == 0 {
            v.push(AcctOut { name: t.to_string(), available: vec![], envs: vec![] });
            section = 0;
        } else if ind == 2 {
            section = match t {
                "available" => 1,
                "expenses" => 2,
                "goals" => 3,
                _ => return None,
            };
        } else if section == 1 {
            v.last_mut()?.available.push(amount(t)?);
        } else {
            // name, now line, next line
            let now = lines.next()?.trim();
            let next = lines.next()?.trim();
            let (n, tg) = progress(now.strip_prefix("now")?)?;
            let mut r = next.strip_prefix("next")?;
            let mut due = None;
            if let Some(x) = r.strip_prefix(" (on ") {
                let (d, rest) = x.split_once(')')?;
                let p: Vec<i64> = d.split('-').map(|z| z.parse().ok()).collect::<Option<_>>()?;
                if p.len() != 3 {
                    return None;
                }
                due = Some(day(p[0], p[1], p[2]));
                r = rest;
            }
            let (x, tg2) = progress(r)?;
            if tg != tg2 {
                return None;
            }
            v.last_mut()?.envs.push(EnvOut { goal: section == 3, name: t.to_string(), now: n, next: x, target: tg, due, bars: [bar(now).unwrap_or((usize::MAX, 0)), bar(next).unwrap_or((usize::MAX, 0))] });
        }
    }
    Some(v)
}

#[derive(Clone, Debug, PartialEq)]
pub struct RegOut {
    pub date: String,
    pub status: String,
    pub desc: String,
    pub from: String,
    pub to: String,
    /// (change, running total)
    pub amounts: Vec<(Amt, Amt)>,
}

fn is_num(t: &str) -> bool {
    t.parse::<f64>().is_ok()
}
/// a run of amounts; symbols of up to two bytes stand before the number, longer ones after it
fn amounts(s: &str) -> Option<Vec<Amt>> {
    let t: Vec<&str> = s.split_whitespace().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        if is_num(t[i]) {
            let mag = t[i].parse().ok()?;
            if i + 1 < t.len() && t[i + 1].len() > 2 && !t[i + 1].chars().any(|c| c.is_ascii_digit()) {
                v.push(Amt { mag, sym: t[i + 1].to_string() });
                i += 2;
            } else {
                v.push(Amt { mag, sym: String::new() });
                i += 1;
            }
        } else if t[i].chars().any(|c| c.is_ascii_digit()) {
            v.push(amount(t[i])?);
            i += 1;
        } else {
            let mag = t.get(i + 1)?.parse().ok()?;
            v.push(Amt { mag, sym: t[i].to_string() });
            i += 2;
        }
    }
    Some(v)
}

pub fn register(out: &str) -> Option<Vec<RegOut>> {
    let mut v: Vec<RegOut> = vec![];
    for l in out.lines() {
        if l.trim().is_empty() {
            continue;
        }
        if let Some((a, b)) = l.split_once(" -> ") {
            let mut it = a.trim().splitn(3, ' ');
            let date = it.next()?.to_string();
            let status = it.next()?.to_string();
            let rest = it.next()?.trim_end();
            let (desc, from) = match rest.rsplit_once(char::is_whitespace) {
                Some((d, f)) => (d.trim().to_string(), f.to_string()),
                None => (String::new(), rest.to_string()),
            };
            let (to, ams) = b.trim().split_once(char::is_whitespace)?;
            let am = amounts(ams)?;
            if am.len() != 2 {
                return None;
            }
            v.push(RegOut { date, status, desc, from, to: to.to_string(), amounts: vec![(am[0].clone(), am[1].clone())] });
        } else {
            let am = amounts(l)?;
            if am.len() != 2 {
                return None;
            }
            v.last_mut()?.amounts.push((am[0].clone(), am[1].clone()));
        }
    }
    Some(v)
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 2e-8 + 1e-11 * a.abs().max(b.abs())
}

/// Do the shown amounts denote the pool? Zero amounts may be shown or not.
pub fn same_pool(shown: &[Amt], p: &Pool) -> bool {
    let mut m: BTreeMap<&str, f64> = BTreeMap::new();
    for a in shown {
        if m.insert(&a.sym, a.mag).is_some() {
            return false; // one amount per currency
        }
    }
    p.iter().all(|(s, v)| close(*v, *m.get(s.as_str()).unwrap_or(&0.0)))
        && m.iter().all(|(s, v)| close(*v, *p.get(*s).unwrap_or(&0.0)))
}

// ---------------------------------------------------------------- entries as text (what the program appends)
#[derive(Clone, Debug, PartialEq)]
pub struct JPost {
    pub acct: String,
    pub env: Option<String>,
    pub amt: Option<Amt>,
    /// anything after the amount
    pub rest: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct JEntry {
    pub date: String,
    pub status: String,
    pub desc: String,
    pub payee: Option<String>,
    pub comment: Option<String>,
    pub posts: Vec<JPost>,
}
pub fn entries(s: &str) -> Option<Vec<JEntry>> {
    let mut v: Vec<JEntry> = vec![];
    for l in s.lines() {
        if l.trim().is_empty() {
            continue;
        }
        if l.starts_with(char::is_whitespace) {
            let e = v.last_mut()?;
            let l = l.trim();
            let (acct, env, rest) = if let Some(r) = l.strip_prefix("envelope ") {
                let (a, r) = r.trim_start().split_once(char::is_whitespace)?;
                let (n, r) = r.trim_start().split_once(char::is_whitespace)?;
                (a, Some(n.to_string()), r)
            } else {
                let (a, r) = l.split_once(char::is_whitespace).unwrap_or((l, ""));
                (a, None, r)
            };
            let rest = rest.trim();
            let cut = rest.find(['@', '=', '!']).unwrap_or(rest.len());
            let am = rest[..cut].trim();
            e.posts.push(JPost {
                acct: acct.to_string(),
                env,
                amt: if am.is_empty() { None } else { Some(amount(am)?) },
                rest: rest[cut..].split_whitespace().collect::<Vec<_>>().join(" "),
            });
        } else {
            let (head, comment) = match l.find("//") {
                Some(i) => (l[..i].trim(), Some(l[i + 2..].trim().to_string())),
                None => (l.trim(), None),
            };
            let (date, r) = head.split_once(' ')?;
            let (status, r) = r.trim_start().split_once(' ').unwrap_or((r.trim_start(), ""));
            let (desc, payee) = match (r.rfind('['), r.ends_with(']')) {
                (Some(i), true) => (r[..i].trim(), Some(r[i + 1..r.len() - 1].trim().to_string())),
                _ => (r.trim(), None),
            };
            v.push(JEntry { date: date.into(), status: status.into(), desc: desc.into(), payee, comment, posts: vec![] });
        }
    }
    Some(v)
}
