//! Reference model of silverfox: what a journal means, written as plainly as possible from the
//! documentation. No parsing: journals are built as data and rendered to text.
use crate::cal::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Amt {
    pub mag: f64,
    pub sym: String,
}
pub fn amt(mag: f64, sym: &str) -> Amt {
    Amt { mag, sym: sym.to_string() }
}
/// plain number text, never with an exponent
pub fn num(x: f64) -> String {
    format!("{x}")
}
impl Amt {
    pub fn text(&self) -> String {
        if self.sym.is_empty() {
            num(self.mag)
        } else if self.sym.len() <= 2 {
            format!("{}{}", self.sym, num(self.mag))
        } else {
            format!("{} {}", num(self.mag), self.sym)
        }
    }
}

pub type Pool = BTreeMap<String, f64>;
pub fn pool_add(p: &mut Pool, a: &Amt) {
    *p.entry(a.sym.clone()).or_insert(0.0) += a.mag;
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Freq {
    Never,
    Once(Day),
    Weekly(i64),
    Biweekly,
    Monthly(i64),
    Bimonthly,
    Yearly,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Funding {
    Unset,
    Manual,
    Aggressive,
    Conservative,
}
#[derive(Clone, Debug)]
pub struct Env {
    pub goal: bool,
    pub name: String,
    pub freq: Freq,
    pub starting: Option<Day>,
    pub amount: Amt,
    pub fors: Vec<String>,
    pub funding: Funding,
}
#[derive(Clone, Debug)]
pub enum Cost {
    Unit(Amt),
    Total(Amt),
}
#[derive(Clone, Debug)]
pub enum Post {
    Real { acct: String, amt: Option<Amt>, cost: Option<Cost> },
    Env { acct: String, env: String, amt: Amt },
}
pub fn real(acct: &str, a: Option<Amt>) -> Post {
    Post::Real { acct: acct.into(), amt: a, cost: None }
}
pub fn envp(acct: &str, env: &str, a: Amt) -> Post {
    Post::Env { acct: acct.into(), env: env.into(), amt: a }
}
#[derive(Clone, Debug)]
pub struct Entry {
    pub date: Day,
    pub status: char,
    pub desc: String,
    pub payee: Option<String>,
    pub posts: Vec<Post>,
}
pub fn entry(date: Day, desc: &str, posts: Vec<Post>) -> Entry {
    Entry { date, status: '*', desc: desc.into(), payee: None, posts }
}
#[derive(Clone, Debug)]
pub enum Item {
    Account(String, Vec<Env>),
    Entry(Entry),
    DateFormat(String),
}

impl Env {
    pub fn header(&self, df: &str) -> String {
        let mut s = format!("{} {} ", if self.goal { "goal" } else { "expense" }, self.name);
        match self.freq {
            Freq::Never => s += "no date",
            Freq::Once(d) => s += &format!("by {}", fmt(d, df)),
            Freq::Weekly(w) => s += &format!("due every {}", WD[w as usize]),
            Freq::Biweekly => s += &format!("due every other {}", WD[weekday(self.starting.unwrap()) as usize]),
            Freq::Monthly(n) => s += &format!("due every {}", nth(n)),
            Freq::Bimonthly => s += &format!("due every other {}", nth(ymd(self.starting.unwrap()).2)),
            Freq::Yearly => s += "due every year",
        }
        if let Some(d) = self.starting {
            s += &format!(" starting {}", fmt(d, df));
        }
        s
    }
    pub fn text(&self, df: &str) -> String {
        let mut s = format!("    {}\n        amount {}\n", self.header(df), self.amount.text());
        for f in &self.fors {
            s += &format!("        for {f}\n");
        }
        match self.funding {
            Funding::Unset => {}
            Funding::Manual => s += "        funding manual\n",
            Funding::Aggressive => s += "        funding aggressive\n",
            Funding::Conservative => s += "        funding conservative\n",
        }
        s
    }
    /// All due dates are the days d with `is_due(d)`; closed forms for the neighbours of `today`.
    pub fn is_due(&self, d: Day) -> bool {
        if let Some(s) = self.starting {
            if d < s {
                return false;
            }
        }
        match self.freq {
            Freq::Never => false,
            Freq::Once(x) => d == x,
            Freq::Weekly(w) => weekday(d) == w,
            Freq::Biweekly => (d - self.starting.unwrap()) % 14 == 0,
            Freq::Monthly(n) => {
                let (y, m, _) = ymd(d);
                clamped(y, m, n) == d
            }
            Freq::Bimonthly => {
                let (sy, sm, sd) = ymd(self.starting.unwrap());
                let (y, m, _) = ymd(d);
                ((y - sy) * 12 + m - sm) % 2 == 0 && clamped(y, m, sd) == d
            }
            Freq::Yearly => {
                let (_, sm, sd) = ymd(self.starting.unwrap());
                let (y, m, _) = ymd(d);
                m == sm && clamped(y, sm, sd) == d
            }
        }
    }
    /// first due date strictly after today
    pub fn next_due(&self, today: Day) -> Option<Day> {
        match self.freq {
            Freq::Never => None,
            Freq::Once(d) => if d > today && self.starting.is_none_or(|s| d >= s) { Some(d) } else { None },
            _ => {
                let from = (today + 1).max(self.starting.unwrap_or(i64::MIN / 2));
                (from..from + 800).find(|d| self.is_due(*d))
            }
        }
    }
    /// latest due date on or before today
    pub fn last_due(&self, today: Day) -> Option<Day> {
        match self.freq {
            Freq::Never => None,
            Freq::Once(d) => if d <= today && self.starting.is_none_or(|s| d >= s) { Some(d) } else { None },
            _ => (0..800).map(|k| today - k).find(|d| self.is_due(*d)),
        }
    }
}
pub fn nth(n: i64) -> String {
    let suf = match (n % 10, n % 100) {
        (_, 11..=13) => "th",
        (1, _) => "st",
        (2, _) => "nd",
        (3, _) => "rd",
        _ => "th",
    };
    format!("{n}{suf}")
}

impl Post {
    pub fn text(&self) -> String {
        match self {
            Post::Real { acct, amt, cost } => {
                let mut s = acct.clone();
                if let Some(a) = amt {
                    s += "    ";
                    s += &a.text();
                }
                match cost {
                    Some(Cost::Unit(c)) => s += &format!(" @ {}", c.text()),
                    Some(Cost::Total(c)) => s += &format!(" = {}", c.text()),
                    None => {}
                }
                s
            }
            Post::Env { acct, env, amt } => format!("envelope {acct} {env} {}", amt.text()),
        }
    }
}
impl Entry {
    pub fn text(&self, df: &str) -> String {
        let mut s = format!("{} {} {}", fmt(self.date, df), self.status, self.desc);
        if let Some(p) = &self.payee {
            s += &format!(" [{p}]");
        }
        s.push('\n');
        for p in &self.posts {
            s += &format!("    {}\n", p.text());
        }
        s
    }
    pub fn has_env(&self) -> bool {
        self.posts.iter().any(|p| matches!(p, Post::Env { .. }))
    }
    /// real postings as (account, amount or None, native value or None)
    fn reals(&self) -> Vec<(&str, Option<&Amt>, Option<f64>)> {
        self.posts
            .iter()
            .filter_map(|p| match p {
                Post::Real { acct, amt, cost } => {
                    let nat = amt.as_ref().and_then(|a| {
                        if a.sym.is_empty() {
                            Some(a.mag)
                        } else {
                            match cost {
                                Some(Cost::Unit(c)) if c.sym.is_empty() => Some(a.mag * c.mag),
                                Some(Cost::Total(c)) if c.sym.is_empty() => Some(c.mag),
                                _ => None,
                            }
                        }
                    });
                    Some((acct.as_str(), amt.as_ref(), nat))
                }
                _ => None,
            })
            .collect()
    }
    /// Ok(real postings with every amount filled in, plus native values), or Err(why refused)
    pub fn resolve(&self) -> Result<Vec<(String, Amt, Option<f64>)>, &'static str> {
        let rs = self.reals();
        let blanks = rs.iter().filter(|r| r.1.is_none()).count();
        if blanks > 1 {
            return Err("more than one blank");
        }
        let mut syms: Vec<&str> = rs.iter().filter_map(|r| r.1.map(|a| a.sym.as_str())).collect();
        syms.sort();
        syms.dedup();
        let mut blank: Option<Amt> = None;
        if blanks == 1 {
            match syms.len() {
                0 => return Err("nothing to infer from"),
                1 => {
                    let s: f64 = rs.iter().filter_map(|r| r.1.map(|a| a.mag)).sum();
                    blank = Some(amt(-s, syms[0]));
                }
                _ => {
                    let foreign = syms.iter().filter(|s| !s.is_empty()).count();
                    if foreign > 1 {
                        return Err("mixed currencies with a blank");
                    }
                    let mut s = 0.0;
                    for r in &rs {
                        if r.1.is_some() {
                            match r.2 {
                                Some(v) => s += v,
                                None => return Err("no native cost"),
                            }
                        }
                    }
                    blank = Some(amt(-s, ""));
                }
            }
        } else if syms.len() == 1 {
            let s: f64 = rs.iter().filter_map(|r| r.1.map(|a| a.mag)).sum();
            let big = rs.iter().filter_map(|r| r.1.map(|a| a.mag.abs())).fold(1.0, f64::max);
            if s.abs() > 1e-7 * big {
                return Err("unbalanced");
            }
        }
        Ok(rs
            .iter()
            .map(|r| match r.1 {
                Some(a) => (r.0.to_string(), a.clone(), r.2),
                None => {
                    let b = blank.clone().unwrap();
                    let n = if b.sym.is_empty() { Some(b.mag) } else { None };
                    (r.0.to_string(), b, n)
                }
            })
            .collect())
    }
}

pub fn render_with(items: &[Item], df0: &str) -> String {
    let mut df = df0.to_string();
    let mut s = String::new();
    for i in items {
        match i {
            Item::Account(n, es) => {
                s += &format!("account {n}\n");
                for e in es {
                    s += &e.text(&df);
                }
            }
            Item::Entry(e) => s += &e.text(&df),
            Item::DateFormat(f) => {
                s += &format!("date_format {f}\n");
                df = f.clone();
            }
        }
    }
    s
}
pub fn render(items: &[Item]) -> String {
    render_with(items, "%Y/%m/%d")
}

#[derive(Clone, Debug, Default)]
pub struct EnvState {
    pub now: f64,
    pub next: f64,
    pub touched_today: bool,
}
impl EnvState {
    /// as displayed: what is overspent is taken off `next`
    pub fn shown(&self) -> (f64, f64) {
        (self.now.max(0.0), self.next + self.now.min(0.0))
    }
}
#[derive(Clone, Debug)]
pub struct AcctState {
    pub real: Pool,
    pub envs: Vec<(Env, EnvState)>,
}
impl AcctState {
    pub fn available(&self) -> Pool {
        let mut p = self.real.clone();
        for (e, s) in &self.envs {
            pool_add(&mut p, &amt(-(s.now + s.next), &e.amount.sym));
        }
        p
    }
}
#[derive(Clone, Debug)]
pub struct RegLine {
    pub date: Day,
    pub status: char,
    pub desc: String,
    pub from: String,
    pub to: String,
    pub amounts: Pool,
    pub running: Pool,
}
#[derive(Clone, Debug)]
pub struct World {
    pub accounts: BTreeMap<String, AcctState>,
    pub totals: BTreeMap<String, Pool>,
    pub register: Vec<RegLine>,
}

/// The meaning of a journal on a day, or why it is refused.
pub fn eval(items: &[Item], today: Day) -> Result<World, String> {
    eval_as(items, today, Foreign::Refuse)
}
/// What an entry with amounts that cannot be expressed in the currency of a linked envelope does.
#[derive(Clone, Copy, PartialEq)]
pub enum Foreign {
    Refuse,
    /// it leaves the envelope alone
    LeaveAlone,
    /// it moves the envelope if the amounts that matter can be expressed
    Move,
}
pub fn eval_as(items: &[Item], today: Day, foreign: Foreign) -> Result<World, String> {
    let mut w = World { accounts: BTreeMap::new(), totals: BTreeMap::new(), register: vec![] };
    let mut lines: Vec<(Day, usize, RegLine)> = vec![];
    for (idx, it) in items.iter().enumerate() {
        match it {
            Item::DateFormat(_) => {}
            Item::Account(n, es) => {
                let a = w.accounts.entry(n.clone()).or_insert_with(|| AcctState { real: Pool::new(), envs: vec![] });
                // a further definition adds its envelopes
                a.envs.extend(es.iter().map(|e| (e.clone(), EnvState::default())));
            }
            Item::Entry(e) => {
                for p in &e.posts {
                    let a = match p {
                        Post::Real { acct, .. } => acct,
                        Post::Env { acct, .. } => acct,
                    };
                    if !w.accounts.contains_key(a) {
                        return Err(format!("undefined account {a}"));
                    }
                }
                let rs = e.resolve().map_err(|x| x.to_string())?;
                for (a, m, _) in &rs {
                    pool_add(w.totals.entry(a.clone()).or_default(), m);
                    pool_add(&mut w.accounts.get_mut(a).unwrap().real, m);
                }
                for (an, st) in w.accounts.iter_mut() {
                    for (env, es) in st.envs.iter_mut() {
                        apply(env, es, an, e, &rs, today, foreign)?;
                    }
                }
                // register
                let mut amounts = Pool::new();
                let (mut pos, mut neg) = (vec![], vec![]);
                for (a, m, _) in &rs {
                    if m.mag > 5e-9 && !pos.contains(a) {
                        pos.push(a.clone());
                    }
                    if m.mag < -5e-9 && !neg.contains(a) {
                        neg.push(a.clone());
                    }
                    if a.starts_with("asset") {
                        pool_add(&mut amounts, m);
                    }
                }
                if amounts.values().any(|v| v.abs() > 5e-9) {
                    let one = |v: &Vec<String>| match v.len() {
                        0 => "(none)".to_string(),
                        1 => v[0].clone(),
                        _ => "(multiple)".to_string(),
                    };
                    lines.push((
                        e.date,
                        idx,
                        RegLine {
                            date: e.date,
                            status: e.status,
                            desc: e.desc.clone(),
                            from: one(&neg),
                            to: one(&pos),
                            amounts,
                            running: Pool::new(),
                        },
                    ));
                }
            }
        }
    }
    lines.sort_by_key(|l| (l.0, l.1));
    let mut run = Pool::new();
    for (_, _, mut l) in lines {
        for (s, v) in &l.amounts {
            *run.entry(s.clone()).or_insert(0.0) += v;
        }
        l.running = run.clone();
        w.register.push(l);
    }
    Ok(w)
}

fn put_in(env: &Env, s: &mut EnvState, mag: f64, date: Day, today: Day) {
    if mag < 0.0 {
        s.now += mag;
    } else if mag > 0.0 {
        match env.last_due(today) {
            Some(d) if date < d => s.now += mag,
            _ => s.next += mag,
        }
    }
    if date == today {
        s.touched_today = true;
    }
}

fn apply(env: &Env, s: &mut EnvState, acct: &str, e: &Entry, rs: &[(String, Amt, Option<f64>)], today: Day, foreign: Foreign) -> Result<(), String> {
    if e.has_env() {
        for p in &e.posts {
            if let Post::Env { acct: a, env: n, amt } = p {
                if a == acct && *n == env.name {
                    if amt.sym != env.amount.sym {
                        return Err("currency of a manual move differs".into());
                    }
                    put_in(env, s, amt.mag, e.date, today);
                }
            }
        }
        return Ok(());
    }
    let own: Vec<_> = rs.iter().filter(|r| r.0 == acct).collect();
    let linked: Vec<_> = rs.iter().filter(|r| r.0 != acct && env.fors.contains(&r.0)).collect();
    if own.is_empty() || linked.is_empty() {
        return Ok(());
    }
    // every amount of the entry has to be expressible in the envelope's currency
    let val = |r: &(String, Amt, Option<f64>)| -> Result<f64, String> {
        if r.1.sym == env.amount.sym {
            Ok(r.1.mag)
        } else if env.amount.sym.is_empty() {
            r.2.ok_or("cannot convert".to_string())
        } else {
            Err("cannot convert".into())
        }
    };
    let must = |r: &&(String, Amt, Option<f64>)| foreign != Foreign::Move || r.0 == acct || env.fors.contains(&r.0);
    for r in rs.iter().filter(must) {
        if val(r).is_err() && foreign != Foreign::Refuse {
            return Ok(());
        }
        val(r)?;
    }
    let mut so = 0.0;
    for r in own {
        so += val(r)?;
    }
    let mut sl = 0.0;
    for r in linked {
        sl += val(r)?;
    }
    let m = so.abs().min(sl.abs());
    if m != 0.0 {
        put_in(env, s, if so < 0.0 { -m } else { m }, e.date, today);
    }
    Ok(())
}

/// What funding would put into one envelope given the money available in its currency.
pub fn fill_amount(env: &Env, s: &EnvState, avail: f64, today: Day) -> f64 {
    let Some(due) = env.next_due(today) else { return 0.0 };
    if s.touched_today {
        return 0.0;
    }
    let missing = env.amount.mag - s.next;
    // an overspent envelope is brought back to zero first
    let hole = -(s.now + s.next);
    match env.funding {
        Funding::Unset | Funding::Manual => 0.0,
        Funding::Aggressive => missing.min(avail).max(hole).max(0.0),
        Funding::Conservative => (missing / (due - today) as f64).min(avail).min(missing).max(hole).max(0.0),
    }
}
