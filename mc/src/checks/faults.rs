//! C14 (crashes and I/O errors at every file operation) and C15 (all interleavings of two processes).
use super::layout::sorted_entries;
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::outparse as op;
use crate::sut::*;
use std::collections::BTreeMap;

const T0: Day = 19737; // 2024-01-15
const HEAD: &str = "account assets:a
    expense food due every 20th
        amount 64
        funding aggressive
    goal trip by 2024/03/01
        amount 46
        funding conservative
account expenses:x
account income:i
";
const BODY: &str = "2024/01/02 * Größe
    assets:a    90
    income:i
2024/01/03 ? two // c
    assets:a    -4
    expenses:x
";
type Files = BTreeMap<String, Vec<u8>>;
struct Sc {
    name: &'static str,
    args: &'static [&'static str],
    files: Vec<(&'static str, String)>,
    main: &'static str,
}
fn csv(n: usize) -> String {
    let mut s = String::from("date,description,amount\n");
    for k in 0..n {
        s += &format!("2024/01/{:02},Shop nr {k} é,-{}.5\n", k + 4, k + 1);
    }
    s
}
const RULES: &str = "fields date, description, amount\naccount1 assets:a\namount1 %amount%\naccount2 expenses:x\n";
fn scenarios() -> Vec<Sc> {
    let j = format!("{HEAD}{BODY}");
    let nonl = j.trim_end().to_string();
    vec![
        Sc { name: "funding by balance", args: &["b", "-f", JF], files: vec![(JF, j.clone())], main: JF },
        Sc { name: "funding by envelopes, no final newline", args: &["e", "-f", JF], files: vec![(JF, nonl.clone())], main: JF },
        Sc { name: "funding by register, included files", args: &["r", "-f", "d/main.sfox"], files: vec![("d/main.sfox", "include heads.sfox\ninclude s/body.sfox\n".into()), ("d/heads.sfox", HEAD.into()), ("d/s/body.sfox", BODY.into())], main: "d/main.sfox" },
        Sc { name: "import of one record without funding", args: &["import", "-n", "-f", JF, "--csv", "x.csv"], files: vec![(JF, j.clone()), ("x.csv", csv(1)), ("x.csv.rules", RULES.into())], main: JF },
        Sc { name: "import of three records with funding", args: &["import", "-f", JF, "--csv", "x.csv", "--rules", "r"], files: vec![(JF, j.clone()), ("x.csv", csv(3)), ("r", RULES.into())], main: JF },
        Sc { name: "import with included rules, no final newline", args: &["import", "-n", "-f", JF, "--csv", "x.csv"], files: vec![(JF, nonl), ("x.csv", csv(2)), ("x.csv.rules", "include more.rules\n".into()), ("more.rules", RULES.into())], main: JF },
        Sc { name: "report only", args: &["b", "-n", "-f", JF], files: vec![(JF, j.clone())], main: JF },
        Sc { name: "funding of a large journal", args: &["b", "-f", JF], files: vec![(JF, format!("{j}{}", (0..150).map(|k| format!("2023/{:02}/{:02} * entry {k}\n    assets:a    1\n    income:i\n", k / 28 + 1, k % 28 + 1)).collect::<String>()))], main: JF },
    ]
}
fn setup(ctx: &mut Ctx, s: &Sc) -> Files {
    ctx.reset();
    for (n, c) in &s.files {
        ctx.put(n, c);
    }
    ctx.srv.snapshot()
}
/// Nothing but an append to the main journal happened; returns what was appended.
fn only_appended(ctx: &Ctx, s: &Sc, before: &Files) -> Result<Vec<u8>, Violation> {
    let after = ctx.srv.snapshot();
    ctx.need(after.keys().eq(before.keys()), || format!("files were created or removed: {:?} before, {:?} after", before.keys(), after.keys()))?;
    for (n, c) in before {
        if n != s.main {
            ctx.need(after[n] == *c, || format!("{n} was changed"))?;
        }
    }
    let (o, n) = (&before[s.main], &after[s.main]);
    ctx.need(n.starts_with(o), || format!("earlier records are lost or changed: the journal is now {:?}", String::from_utf8_lossy(n)))?;
    Ok(n[o.len()..].to_vec())
}
fn norm(b: &[u8]) -> String {
    sorted_entries(&String::from_utf8_lossy(b)).lines().filter(|l| !l.trim().is_empty()).collect::<Vec<_>>().join("\n")
}
#[derive(Clone, Debug)]
struct Pt {
    kind: u8,
    size: u64,
    path: String,
}
/// the undisturbed run: its operations and what it appends
fn plain(ctx: &mut Ctx, s: &Sc) -> Result<(Vec<Pt>, Vec<u8>, Res), Violation> {
    let before = setup(ctx, s);
    let mut pts = vec![];
    let (_, r) = ctx.run_stepped(&req(T0, s.args), |_, kind, size, path| {
        pts.push(Pt { kind, size, path: path.into() });
        Act::Go
    });
    need_ok(ctx, &r, s.name)?;
    let a = only_appended(ctx, s, &before)?;
    Ok((pts, a, r))
}
fn loads(ctx: &mut Ctx, s: &Sc) -> Check {
    let r = ctx.run(&req(T0, &["b", "-n", "-f", s.main]));
    need_ok(ctx, &r, "the journal after the crash")
}
/// One disturbed run; `acts[k]` is done at operation k.
fn disturbed(ctx: &mut Ctx, s: &Sc, plain: &(Vec<Pt>, Vec<u8>, Res), acts: &[(usize, Act)]) -> Check {
    let before = setup(ctx, s);
    let act_at = |i: usize| acts.iter().find(|a| a.0 == i).map_or(Act::Go, |a| a.1);
    let mut happened = 0;
    let (_, r) = ctx.run_stepped(&req(T0, s.args), |i, kind, size, _| {
        let a = act_at(i);
        if a != Act::Go {
            happened += 1;
        }
        match a {
            // shorter than the operation at hand
            Act::Short(k) | Act::Torn(k) if k >= size && kind == b'w' => Act::Go,
            a => a,
        }
    });
    let what = || format!("{} with {acts:?} at its file operations", s.name);
    let appended = only_appended(ctx, s, &before)?;
    let full = norm(&plain.1);
    let crash = acts.iter().any(|a| matches!(a.1, Act::Crash | Act::CrashAfter | Act::Torn(_)));
    let torn = acts.iter().any(|a| matches!(a.1, Act::Torn(_)));
    if crash {
        ctx.need(torn || r.signaled() == Some(9) || happened < acts.len(), || format!("{}: did not end by the crash: {}", what(), show(&r)))?;
        if !torn && acts.len() == 1 {
            loads(ctx, s)?;
            let Some(es) = op::entries(&String::from_utf8_lossy(&appended)) else { return ctx.fail(format!("{}: appended {:?}", what(), String::from_utf8_lossy(&appended))) };
            let all = op::entries(&String::from_utf8_lossy(&plain.1)).unwrap_or_default();
            let key = |e: &op::JEntry| { let mut e = e.clone(); e.posts.sort_by_key(|p| format!("{p:?}")); format!("{e:?}") };
            ctx.need(es.len() <= all.len() && es.iter().zip(&all).all(|(a, b)| key(a) == key(b)), || format!("{}: what was appended is not a beginning of what an undisturbed run appends: {:?}", what(), String::from_utf8_lossy(&appended)))?;
            // running a report command again completes it
            if s.args[0] != "import" {
                let r2 = ctx.run(&req(T0, s.args));
                need_ok(ctx, &r2, "running again after the crash")?;
                let end = only_appended(ctx, s, &before)?;
                ctx.need(norm(&end) == full && r2.out == plain.2.out, || format!("{}: running again ends in {:?}, an undisturbed run in {full:?}", what(), norm(&end)))?;
            }
            ctx.outcome(&format!("crash with {} of {} entries written", es.len(), all.len()));
        } else {
            ctx.outcome("torn write");
        }
    } else if r.err.trim().is_empty() {
        // nothing was reported: then the run must be as good as an undisturbed one
        ctx.need(!r.crashed() && norm(&appended) == full && r.out == plain.2.out, || {
            format!("{}: no error was reported, but the journal got {:?} instead of {full:?} (stdout {:?})", what(), norm(&appended), r.out)
        })?;
        ctx.outcome("survived");
    } else {
        ctx.need(!r.crashed(), || format!("{}: crashed: {}", what(), show(&r)))?;
        ctx.outcome("error reported");
    }
    ctx.t.traces += 1;
    ctx.state(&(s.name, acts.to_vec()));
    Ok(())
}
/// what can happen at one operation
fn choices(p: &Pt, thorough: bool) -> Vec<Act> {
    let mut v = vec![Act::Crash, Act::CrashAfter];
    let errs: &[i32] = match p.kind {
        b'w' => &[28, 5, 122, 27, 4, 11, 32, 9], // ENOSPC EIO EDQUOT EFBIG EINTR EAGAIN EPIPE EBADF
        b'r' => &[5, 4, 21, 11],
        b'O' | b'o' => &[2, 13, 24, 23, 28, 30, 5, 26, 40, 4],
        b'c' => &[],
        _ => &[5, 28, 13],
    };
    v.extend(errs.iter().map(|e| Act::Fail(*e)));
    if p.kind == b'w' {
        for k in 0..p.size {
            v.push(Act::Torn(k));
            v.push(Act::Short(k));
        }
    }
    if p.kind == b'r' {
        let mx = if thorough { 64 } else { 12 };
        v.extend((1..mx).map(Act::Short));
    }
    v
}
pub fn c14(h: &Harness) -> i32 {
    let scs = scenarios();
    for s in &scs {
        // the operations of the undisturbed run
        let mut ctx = Ctx::new(&h.bin, &h.shim, &h.scratch.join("probe"));
        let base = match plain(&mut ctx, s) {
            Ok(b) => b,
            Err(_) => {
                // let the framework report it
                h.explore(s.name, 1, |ctx, _| plain(ctx, s).map(|_| ()));
                break;
            }
        };
        drop(ctx);
        let pts = &base.0;
        let mut jobs: Vec<Vec<(usize, Act)>> = vec![];
        for (k, p) in pts.iter().enumerate() {
            for a in choices(p, h.thorough) {
                jobs.push(vec![(k, a)]);
                // a write cut short, and the next operation fails (disk full) or never happens
                if let Act::Short(_) = a {
                    if p.kind == b'w' {
                        for f in [Act::Fail(28), Act::Fail(5), Act::Crash] {
                            jobs.push(vec![(k, a), (k + 1, f)]);
                        }
                    }
                }
            }
        }
        if h.thorough {
            // all pairs of failing operations
            for i in 0..pts.len() {
                for j in i + 1..pts.len() + 3 {
                    for a in choices(&pts[i], false) {
                        if !matches!(a, Act::Fail(_) | Act::Short(_)) {
                            continue;
                        }
                        let pj = pts.get(j).cloned().unwrap_or(Pt { kind: b'w', size: 3, path: String::new() });
                        for b in choices(&pj, false) {
                            if jobs.len() < 400_000 {
                                jobs.push(vec![(i, a), (j, b)]);
                            }
                        }
                    }
                }
            }
        }
        h.bound(format!("{}: {} file operations: {}", s.name, pts.len(), pts.iter().map(|p| format!("{}{}", p.kind as char, if p.kind == b'w' { p.size.to_string() } else { String::new() })).collect::<Vec<_>>().join(" ")));
        h.explore(s.name, jobs.len(), |ctx, i| {
            ctx.sample(|| format!("{}: {:?}", s.name, jobs[i]));
            disturbed(ctx, s, &base, &jobs[i])
        });
    }
    // a journal that cannot be written or read at all
    let bad: [(&str, &[&str]); 4] = [("directory", &["b", "-f", "dir"]), ("missing", &["b", "-f", "none.sfox"]), ("missing csv", &["import", "-f", JF, "--csv", "none.csv"]), ("missing rules", &["import", "-f", JF, "--csv", "y.csv"])];
    h.explore("files that are not there", bad.len(), |ctx, i| {
        ctx.put(JF, HEAD);
        ctx.put("dir/x", "");
        ctx.put("y.csv", &csv(1));
        let before = ctx.srv.snapshot();
        let r = ctx.run(&req(T0, bad[i].1));
        ctx.need(!r.crashed() && !r.err.trim().is_empty(), || format!("{}: {}", bad[i].0, show(&r)))?;
        ctx.need(ctx.srv.snapshot() == before, || format!("{}: a file was changed", bad[i].0))?;
        Ok(())
    });
    h.finish(
        "eight writing and reading scenarios; for each file operation (open, read, write, close, ...) of the undisturbed run: killed before it, killed after it, every listed error, every write cut short or torn at every byte (also followed by another failure or a crash), short reads; thorough: all pairs of failures. Non-trivial: a distinct (scenario, fault). Checked: earlier bytes and other files unchanged, the journal loads and a rerun completes after a crash between operations, errors reported or harmless",
        &["a crash keeps what earlier operations wrote (the kernel survives); no power failure", "operations are the libc calls on files in the journal's directory tree; metadata calls are not failed"],
    )
}

// ------------------------------------------------------------------------------------------- C15
struct Pair {
    name: &'static str,
    a: &'static [&'static str],
    b: &'static [&'static str],
    /// records each imports (0: funding or report)
    na: usize,
    nb: usize,
}
fn csv2(tag: &str, n: usize) -> String {
    let mut s = String::from("date,description,amount\n");
    for k in 0..n {
        s += &format!("2024/01/{:02},{tag} {k},-{}.5\n", k + 4, k + 1);
    }
    s
}
fn pairs() -> Vec<Pair> {
    vec![
        Pair { name: "funding and funding", a: &["b", "-f", JF], b: &["e", "-f", JF], na: 0, nb: 0 },
        Pair { name: "funding and import", a: &["b", "-f", JF], b: &["import", "-n", "-f", JF, "--csv", "p.csv"], na: 0, nb: 2 },
        Pair { name: "import and import", a: &["import", "-n", "-f", JF, "--csv", "p.csv"], b: &["import", "-n", "-f", JF, "--csv", "q.csv"], na: 2, nb: 2 },
        Pair { name: "import and report", a: &["import", "-n", "-f", JF, "--csv", "p.csv"], b: &["b", "-n", "-f", JF], na: 2, nb: 0 },
        Pair { name: "funding and report", a: &["e", "-f", JF], b: &["e", "-n", "-f", JF], na: 0, nb: 0 },
        Pair { name: "import with funding and funding", a: &["import", "-f", JF, "--csv", "p.csv"], b: &["r", "-f", JF], na: 2, nb: 0 },
        Pair { name: "import with funding and import", a: &["import", "-f", JF, "--csv", "p1.csv"], b: &["import", "-n", "-f", JF, "--csv", "q.csv"], na: 1, nb: 2 },
    ]
}
/// Commutes with everything the other process may do: only the journal is written, so only operations
/// on it matter; closing a file never matters.
fn local(o: (u8, &str)) -> bool {
    o.0 == b'c' || (!o.1.ends_with("j.sfox") && matches!(o.0, b'o' | b'r'))
}
/// Two operations on the journal that commute: neither writes.
fn commute(a: (u8, &str), b: (u8, &str)) -> bool {
    local(a) || local(b) || (matches!(a.0, b'o' | b'r') && matches!(b.0, b'o' | b'r'))
}
/// One execution of the pair: `choices` at the branching points, then 0. Returns how many branching points
/// there were. Sleep sets: where both pending operations commute, the order "1 first" need only be explored
/// up to where process 1 does something that does not commute with process 0's pending operation.
fn pair_once(ctx: &mut Ctx, p: &Pair, journal: &str, choices: &[u8]) -> Result<usize, Violation> {
    ctx.reset();
    ctx.put(JF, journal);
    for (f, t, k) in [("p.csv", "pear", 2), ("p1.csv", "pear", 1), ("q.csv", "quince", 2)] {
        ctx.put(f, &csv2(t, k));
        ctx.put(&format!("{f}.rules"), RULES);
    }
    let mut nb = 0;
    let mut asleep = false; // process 0 sleeps
    let (sched, pts, rs) = ctx.run_pair(&req(T0, p.a), &req(T0, p.b), |_, x, y| {
        if asleep {
            asleep = commute(x, y);
            return 1;
        }
        if local(x) {
            return 0;
        }
        if local(y) {
            return 1;
        }
        let c = choices.get(nb).copied().unwrap_or(0);
        nb += 1;
        asleep = c == 1 && commute(x, y);
        c
    });
    let after = ctx.get(JF);
    let what = || format!("{}: operations {:?} and {:?} in the order {}", p.name, pts[0], pts[1], sched.iter().map(|c| (b'a' + c) as char).collect::<String>());
    ctx.need(after.starts_with(journal), || format!("{}: the journal lost or changed earlier records: {after:?}", what()))?;
    for (r, n) in rs.iter().zip([p.a, p.b]) {
        ctx.need(!r.crashed() && r.err.is_empty(), || format!("{}: {n:?} failed: {}", what(), show(r)))?;
    }
    let Some(es) = op::entries(&after[journal.len()..]) else { return ctx.fail(format!("{}: what was appended is garbled: {:?}", what(), &after[journal.len()..])) };
    let r = ctx.run(&req(T0, &["b", "-n", "-f", JF]));
    need_ok(ctx, &r, &format!("the journal after {}", what()))?;
    // every record exactly once, whole
    for (file, tag, here) in [("p.csv", "pear", 2), ("p1.csv", "pear", 1), ("q.csv", "quince", 2)] {
        if !p.a.contains(&file) && !p.b.contains(&file) {
            continue;
        }
        for k in 0..here {
            let mine: Vec<_> = es.iter().filter(|e| e.desc == format!("{tag} {k}")).collect();
            let good = mine.len() == 1
                && mine[0].date == format!("2024/01/{:02}", k + 4)
                && mine[0].posts.len() == 2
                && mine[0].posts.iter().any(|q| q.acct == "assets:a" && q.amt.as_ref().is_some_and(|a| a.mag == -(k as f64 + 1.5)))
                && mine[0].posts.iter().any(|q| q.acct == "expenses:x");
            ctx.need(good, || format!("{}: the entry of record `{tag} {k}` is there as {mine:?}", what()))?;
        }
    }
    let autos: Vec<_> = es.iter().filter(|e| e.posts.iter().any(|q| q.env.is_some())).collect();
    ctx.need(es.len() - autos.len() == p.na + p.nb, || format!("{}: {} entries were appended beside automatic ones", what(), es.len() - autos.len()))?;
    for e in &autos {
        ctx.need(e.date == sl(T0) && e.posts.iter().all(|q| q.env.is_some() && q.amt.is_some()), || format!("{}: a garbled automatic entry: {e:?}", what()))?;
    }
    // a command that funds has funded, unless it read the journal after the other did
    let funders = [p.a, p.b].iter().filter(|a| !a.contains(&"-n")).count();
    ctx.need(autos.len() <= funders && (funders == 0 || !autos.is_empty()), || format!("{}: {} automatic entries by {funders} funding commands", what(), autos.len()))?;
    for (i, (r, a)) in rs.iter().zip([p.a, p.b]).enumerate() {
        // a process that wrote has its entries in the journal
        let wrote = pts[i].iter().any(|x| x.starts_with('w'));
        if a[0] != "import" && !a.contains(&"-n") {
            ctx.need(wrote || autos.len() < funders || funders == 1, || format!("{}: {a:?} did not write: {}", what(), show(r)))?;
        }
    }
    ctx.t.traces += 1;
    ctx.state(&(p.name, &sched));
    ctx.outcome(&format!("{}: {} automatic entries", p.name, autos.len()));
    ctx.sample(|| what());
    Ok(nb)
}
pub fn c15(h: &Harness) -> i32 {
    let j = format!("{HEAD}{BODY}");
    let journals = [j.clone(), j.trim_end().to_string()];
    for p in pairs() {
        for (jn, journal) in journals.iter().enumerate() {
            // jobs: all choices at the first branching points; each job explores everything below, depth first
            let depth = 8usize;
            let name = format!("{}{}", p.name, if jn == 1 { ", no final newline" } else { "" });
            h.explore(&name, 1 << depth, |ctx, i| {
                let first: Vec<u8> = (0..depth).map(|k| (i >> (depth - 1 - k) & 1) as u8).collect();
                let mut stack = vec![first];
                while let Some(ch) = stack.pop() {
                    if h.start.elapsed() > h.deadline {
                        h.capped.store(true, std::sync::atomic::Ordering::SeqCst);
                        return Ok(());
                    }
                    let nb = pair_once(ctx, &p, journal, &ch)?;
                    for k in ch.len()..nb {
                        let mut q = ch.clone();
                        q.resize(k, 0);
                        q.push(1);
                        stack.push(q);
                    }
                }
                Ok(())
            });
        }
    }
    h.finish(
        "for each pair of commands on one journal, every order of their file operations (opens, reads, appends, writes of the journal; operations on other files and closing commute and are not permuted); after each, the journal starts with the original text, loads, and has every entry of every successful command whole and exactly once. A state is a distinct schedule",
        &["file operations are atomic steps", "two processes; imports of one or two records"],
    )
}
