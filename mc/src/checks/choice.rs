//! C21: silverfox works on the file that was chosen, and on no other.
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::outparse as op;
use crate::sut::*;
use std::collections::BTreeMap;

const TODAY: Day = 19783;
/// journal number k: its balance shows `assets:k` with k+1, and it funds an envelope when it may
fn jtext(k: usize) -> String {
    format!("account assets:j{k}\n    goal g{k} by 2025/01/01\n        amount 5\n        funding aggressive\naccount expenses:x\naccount expenses:unknown\n2024/01/01 * x\n    assets:j{k}    {}\n    expenses:x\n", k + 10)
}
fn csv(k: usize) -> String {
    format!("date,description,amount\n2024/02/0{},record of {k},-{}\n", k + 1, k + 1)
}
fn rules(k: usize, j: usize) -> String {
    format!("fields date, description, amount\naccount assets:j{j}\ncomment rules {k}\n")
}
type Files = BTreeMap<String, Vec<u8>>;
/// Which of the files changed, and by what was appended to it.
fn changed(ctx: &Ctx, before: &Files, what: &str) -> Result<Vec<(String, String)>, Violation> {
    let after = ctx.srv.snapshot();
    ctx.need(after.keys().eq(before.keys()), || format!("{what}: files were created or removed: before {:?}, after {:?}", before.keys(), after.keys()))?;
    let mut v = vec![];
    for (n, c) in before {
        if after[n] != *c {
            ctx.need(after[n].starts_with(c), || format!("{what}: {n} lost text"))?;
            v.push((n.clone(), String::from_utf8_lossy(&after[n][c.len()..]).into_owned()));
        }
    }
    Ok(v)
}
fn no_escape(ctx: &Ctx, r: &Res, what: &str) -> Check {
    ctx.need(!r.escapes(), || format!("{what}: files outside were written: {}", r.ops))
}
/// A report of journal k (or None: refused without effect), funding it if `fund`.
fn chk_report(ctx: &Ctx, r: &Res, before: &Files, sub: &str, chosen: Option<(usize, &str)>, fund: bool, what: &str) -> Check {
    no_escape(ctx, r, what)?;
    let ch = changed(ctx, before, what)?;
    match chosen {
        None => {
            need_refused(ctx, r, what)?;
            ctx.need(ch.is_empty(), || format!("{what}: refused, but changed {ch:?}"))
        }
        Some((k, file)) => {
            need_ok(ctx, r, what)?;
            let mark = if sub.starts_with('e') { format!("g{k}") } else { format!("j{k}") };
            ctx.need(r.out.contains(&mark), || format!("{what}: the report is not of journal {k} ({file}): {}", show(r)))?;
            let want: Vec<&str> = if fund { vec![file] } else { vec![] };
            let got: Vec<&str> = ch.iter().map(|c| c.0.as_str()).collect();
            ctx.need(got == want, || format!("{what}: changed {ch:?}, expected only {want:?}"))?;
            if fund {
                ctx.need(ch[0].1.contains(&format!("g{k}")), || format!("{what}: appended {:?}", ch[0].1))?;
            }
            Ok(())
        }
    }
}
pub fn c21(h: &Harness) -> i32 {
    // ---- which journal: flag, $SILVERFOX_FILE, $LEDGER_FILE
    let subs = ["b", "balance", "bal", "e", "envelopes", "r", "register"];
    let names = ["one.sfox", "d/two.sfox", "three.sfox"];
    let choice = |k: usize| -> Option<&'static str> { [None, Some("one.sfox"), Some("d/two.sfox"), Some("missing.sfox")][k] };
    h.explore("flag x $SILVERFOX_FILE x $LEDGER_FILE x subcommand x order and spelling of flags", 4 * 4 * 4 * subs.len() * 3 * 2 * 2, |ctx, i| {
        let d = digits(i, &[4, 4, 4, subs.len(), 3, 2, 2]);
        for (k, n) in names.iter().enumerate() {
            ctx.put(n, &jtext(k));
        }
        ctx.put("d/one.sfox", &jtext(7));
        let before = ctx.srv.snapshot();
        let (flag, sf, lf) = (choice(d[0]), choice(d[1]), choice(d[2]));
        let sub = subs[d[3]];
        let mut args = vec![sub];
        let fw = ["-f", "--file"][d[5]];
        let nm = ["-n", "--no-move"][d[6]];
        if d[4] == 1 {
            args.push(nm);
        }
        if let Some(f) = flag {
            args.extend([fw, f]);
        }
        if d[4] == 2 {
            args.push(nm);
        }
        let mut q = req(TODAY, &args);
        if let Some(f) = sf {
            q.env.push(("SILVERFOX_FILE".into(), f.into()));
        }
        if let Some(f) = lf {
            q.env.push(("LEDGER_FILE".into(), f.into()));
        }
        let chosen = flag.or(sf).or(lf).filter(|f| *f != "missing.sfox").map(|f| (names.iter().position(|n| *n == f).unwrap(), f));
        let r = ctx.run(&q);
        let what = format!("{args:?} with SILVERFOX_FILE={sf:?} LEDGER_FILE={lf:?}");
        chk_report(ctx, &r, &before, sub, chosen, d[4] == 0, &what)?;
        ctx.t.traces += 1;
        ctx.state(&d);
        ctx.outcome(if chosen.is_some() { "report of the chosen journal" } else { "refused" });
        ctx.sample(|| what.clone());
        Ok(())
    });
    // ---- how the path is written, from where, with included files
    let cwds = ["", "d", "d/s", "with space"];
    let jfiles = ["top.sfox", "d/main.sfox", "d/s/deep.sfox", "with space/é ü.sfox", "d/-dash", "d/noext"];
    h.explore("working directory x journal x spelling of its path x command", cwds.len() * jfiles.len() * 7 * 4 * 2, |ctx, i| {
        let d = digits(i, &[cwds.len(), jfiles.len(), 7, 4, 2]);
        let (cwd, jf) = (cwds[d[0]], jfiles[d[1]]);
        for (k, f) in jfiles.iter().enumerate() {
            // accounts and entries in a file next to the journal; the same name in other places is another file
            let t = jtext(k);
            let cut = t.find("2024/01/01").unwrap();
            ctx.put(f, &format!("include inc{k}\n{}", &t[cut..]));
            let dir = f.rsplit_once('/').map_or(String::new(), |x| format!("{}/", x.0));
            ctx.put(&format!("{dir}inc{k}"), &t[..cut]);
        }
        for c in cwds {
            let dir = if c.is_empty() { String::new() } else { format!("{c}/") };
            ctx.put(&format!("{dir}keep"), "");
            for k in 0..2 {
                ctx.put(&format!("{dir}c{k}.csv"), &csv(k));
                ctx.put(&format!("{dir}c{k}.csv.rules"), &rules(k, d[1]));
            }
            ctx.put(&format!("{dir}other.rules"), &rules(9, d[1]));
        }
        let before = ctx.srv.snapshot();
        let abs = ctx.srv.root.join(jf).to_str().unwrap().to_string();
        let up = "../".repeat(if cwd.is_empty() { 0 } else { cwd.split('/').count() });
        let path = match d[2] {
            0 => format!("{up}{jf}"),
            1 => abs.clone(),
            2 => format!("./{up}{jf}"),
            3 => format!("{up}d/../{jf}"),
            4 => format!("{up}.//{jf}"),
            5 => abs.replace('/', "//"),
            _ => format!("{up}{}", jf.replacen('/', "/./", 1)),
        };
        let what = format!("journal {path:?} from {cwd:?}");
        let cmd = ["b", "e", "r", "import"][d[3]];
        let mut args = vec![cmd.to_string()];
        let mut env = vec![("TZ".to_string(), "UTC".to_string())];
        if d[4] == 0 {
            args.extend(["-f".into(), path.clone()]);
        } else {
            env.push(("SILVERFOX_FILE".into(), path.clone()));
        }
        let dir = if cwd.is_empty() { String::new() } else { format!("{cwd}/") };
        let _ = &dir;
        if d[3] == 3 {
            args.extend(["--csv".into(), "c1.csv".into(), "-n".into()]);
        }
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let r = ctx.run(&Req { cwd: cwd.into(), env, ..req(TODAY, &a) });
        if d[3] == 3 {
            no_escape(ctx, &r, &what)?;
            need_ok(ctx, &r, &what)?;
            let ch = changed(ctx, &before, &what)?;
            ctx.need(ch.len() == 1 && ch[0].0 == jf && ch[0].1.contains("record of 1") && ch[0].1.contains("rules 1"), || format!("{what}: import changed {ch:?}"))?;
        } else {
            chk_report(ctx, &r, &before, cmd, Some((d[1], jf)), true, &what)?;
        }
        ctx.t.traces += 1;
        ctx.state(&d);
        ctx.outcome("journal found");
        Ok(())
    });
    // ---- imports: every order of the flags, every choice of csv and rules, from every place
    let ps = perms(4);
    let csvs: [Option<&str>; 5] = [None, Some("c0.csv"), Some("../c1.csv"), Some("s/c2.csv"), Some("no.csv")];
    let rs: [Option<&str>; 5] = [None, Some("r0"), Some("../r1"), Some("s/r2"), Some("no.rules")];
    let js: [&str; 3] = ["../j0.sfox", "j1.sfox", "s/j2.sfox"];
    h.explore("imports: order of the flags x csv x rules x journal x spelling", ps.len() * 5 * 5 * 3 * 4, |ctx, i| {
        let d = digits(i, &[ps.len(), 5, 5, 3, 4]);
        let j = d[3];
        for (k, p) in ["j0.sfox", "d/j1.sfox", "d/s/j2.sfox"].iter().enumerate() {
            ctx.put(p, &jtext(k));
        }
        for (k, dir) in ["d/", "", "d/s/"].iter().enumerate() {
            ctx.put(&format!("{dir}c{k}.csv"), &csv(k));
            ctx.put(&format!("{dir}c{k}.csv.rules"), &rules(5 + k, j));
            ctx.put(&format!("{dir}r{k}"), &rules(k, j));
        }
        // the same names where they are not asked for
        ctx.put("c0.csv", &csv(8));
        ctx.put("r0", &rules(8, j));
        ctx.put("d/c1.csv", &csv(8));
        ctx.put("d/r2", &rules(8, j));
        let before = ctx.srv.snapshot();
        let alias = d[4];
        let groups: [Vec<&str>; 4] = [
            vec![["-f", "--file"][alias & 1], js[j]],
            csvs[d[1]].map_or(vec![], |c| vec![["--csv", "--csv-file"][alias & 1], c]),
            rs[d[2]].map_or(vec![], |c| vec![["--rules", "--rules-file"][alias >> 1], c]),
            vec![["-n", "--no-move"][alias >> 1]],
        ];
        let mut args = vec![["import", "i"][alias & 1]];
        for g in &ps[d[0]] {
            args.extend(&groups[*g]);
        }
        let r = ctx.run(&Req { cwd: "d".into(), ..req(TODAY, &args) });
        let what = format!("{args:?} from d");
        no_escape(ctx, &r, &what)?;
        let ch = changed(ctx, &before, &what)?;
        let bad = d[1] == 0 || d[1] == 4 || d[2] == 4;
        if bad {
            need_refused(ctx, &r, &what)?;
            ctx.need(ch.is_empty(), || format!("{what}: changed {ch:?}"))?;
            ctx.outcome("refused");
        } else {
            need_ok(ctx, &r, &what)?;
            let jname = ["j0.sfox", "d/j1.sfox", "d/s/j2.sfox"][j];
            ctx.need(ch.len() == 1 && ch[0].0 == jname, || format!("{what}: changed {ch:?}, expected only {jname}"))?;
            let rec = d[1] - 1;
            let rule = if d[2] == 0 { 5 + rec } else { d[2] - 1 };
            let Some(es) = op::entries(&ch[0].1) else { return ctx.fail(format!("{what}: appended {ch:?}")) };
            ctx.need(es.len() == 1 && es[0].desc == format!("record of {rec}") && es[0].comment == Some(format!("rules {rule}")), || {
                format!("{what}: appended {es:?}, expected record of {rec} with rules {rule}")
            })?;
            ctx.outcome("imported");
        }
        ctx.t.traces += 1;
        ctx.state(&d);
        ctx.sample(|| what.clone());
        Ok(())
    });
    // ---- the name of the rules file when none is given
    let cn = ["bank.csv", "bank.txt", "bank", "a.b.csv", "B.CSV", ".csv", "bank.", "x.rules", "bank.csv.csv", "with space.tsv", "é.dat", "d.d/bank", "d.d/bank.txt", "-.csv"];
    h.explore("names of csv files x spelling, rules files of similar names beside them", cn.len() * 4, |ctx, i| {
        let d = digits(i, &[cn.len(), 4]);
        ctx.put(JF, &jtext(1));
        let c = cn[d[0]];
        let p = std::path::Path::new(c);
        let mut like: Vec<String> = ["rules", "csv.rules", "txt.rules", ""].iter().map(|e| p.with_extension(e).to_str().unwrap().to_string()).collect();
        like.extend([".rules".to_string(), "rules".into(), format!("{c}rules"), p.file_name().unwrap().to_str().unwrap().to_string() + ".rules", format!("{}.rules", c.to_lowercase()), format!("{c}.csv.rules")]);
        for l in like.iter().filter(|l| *l != c) {
            ctx.put(l, &rules(8, 1));
        }
        ctx.put(c, &csv(2));
        if d[1] != 3 {
            ctx.put(&format!("{c}.rules"), &rules(6, 1));
        } else if like.contains(&format!("{c}.rules")) {
            std::fs::remove_file(ctx.srv.path(&format!("{c}.rules"))).unwrap();
        }
        let before = ctx.srv.snapshot();
        let path = match d[1] {
            0 | 3 => c.to_string(),
            1 => format!("./{c}"),
            _ => ctx.srv.path(c).to_str().unwrap().to_string(),
        };
        let r = ctx.run(&req(TODAY, &["import", "-n", "-f", JF, "--csv", &path]));
        let what = format!("import of {path:?}, rules file {}", if d[1] == 3 { "missing" } else { "beside it" });
        no_escape(ctx, &r, &what)?;
        let ch = changed(ctx, &before, &what)?;
        if d[1] == 3 {
            need_refused(ctx, &r, &what)?;
            ctx.need(ch.is_empty(), || format!("{what}: changed {ch:?}"))?;
        } else {
            need_ok(ctx, &r, &what)?;
            ctx.need(ch.len() == 1 && ch[0].0 == JF && ch[0].1.contains("record of 2") && ch[0].1.contains("rules 6"), || format!("{what}: changed {ch:?}"))?;
        }
        ctx.t.traces += 1;
        ctx.state(&d);
        ctx.outcome(if d[1] == 3 { "refused" } else { "imported" });
        Ok(())
    });
    // ---- a journal behind symbolic links
    h.explore("symbolic links to the journal and to its directory x command", 4 * 4 * 2, |ctx, i| {
        let d = digits(i, &[4, 4, 2]);
        ctx.put("real/j.sfox", &jtext(2));
        ctx.put("other/k.sfox", &jtext(4));
        ctx.put("c.csv", &csv(1));
        ctx.put("c.csv.rules", &rules(1, 2));
        let ln = |to: &str, at: &str| std::os::unix::fs::symlink(to, ctx.srv.path(at)).unwrap();
        let path = match d[0] {
            0 => { ln("real/j.sfox", "link.sfox"); "link.sfox" }
            1 => { ln("real", "dir"); "dir/j.sfox" }
            2 => { ln("../real/j.sfox", "other/link.sfox"); "other/link.sfox" }
            _ => { ln("link2", "link1"); ln("real/j.sfox", "link2"); "link1" }
        };
        let links: Vec<&str> = ["link.sfox", "dir", "other/link.sfox", "link1", "link2"].into_iter().filter(|l| ctx.srv.path(l).is_symlink()).collect();
        let before = ctx.srv.snapshot();
        let cmd = ["b", "e", "r", "import"][d[1]];
        let abs = ctx.srv.path(path).to_str().unwrap().to_string();
        let mut args = vec![cmd, "-f", if d[1] < 4 && d[2] == 0 { path } else { &abs }];
        if cmd == "import" {
            args.extend(["-n", "--csv", "c.csv"]);
        }
        let r = ctx.run(&req(TODAY, &args));
        let what = format!("{args:?}, a symbolic link to real/j.sfox");
        no_escape(ctx, &r, &what)?;
        need_ok(ctx, &r, &what)?;
        for l in links {
            ctx.need(ctx.srv.path(l).is_symlink(), || format!("{what}: the link {l} was replaced by a file"))?;
        }
        let after = ctx.srv.snapshot();
        ctx.need(after.keys().eq(before.keys()) && after["other/k.sfox"] == before["other/k.sfox"], || format!("{what}: other files changed"))?;
        let add = after["real/j.sfox"].strip_prefix(&before["real/j.sfox"][..]).map(|x| String::from_utf8_lossy(x).into_owned());
        let mark = if cmd == "import" { "record of 1" } else { "g2" };
        ctx.need(add.as_ref().is_some_and(|a| a.contains(mark)), || format!("{what}: the journal got {add:?}"))?;
        ctx.t.traces += 1;
        ctx.state(&(d, 1));
        ctx.outcome("journal behind a link");
        Ok(())
    });
    // ---- all argument lists: refused without effect, or exactly what they say
    const ARGS: [&str; 17] = ["b", "e", "r", "import", "x", "", "-n", "--no-move", "-f", "--file", "j.sfox", "--csv", "x.csv", "--rules", "r", "--bogus", "-N"];
    let na = ARGS.len();
    for len in 0..=if h.thorough { 5u32 } else { 4 } {
        h.explore(&format!("{len} of {na} arguments"), na.pow(len), |ctx, i| {
            let args: Vec<&str> = digits(i, &vec![na; len as usize]).into_iter().map(|k| ARGS[k]).collect();
            ctx.put(JF, &jtext(3));
            ctx.put("x.csv", &csv(1));
            ctx.put("x.csv.rules", &rules(1, 3));
            ctx.put("r", &rules(2, 3));
            let before = ctx.srv.snapshot();
            let r = ctx.run(&req(TODAY, &args));
            let what = format!("{args:?}");
            ctx.need(!r.crashed(), || format!("{what}: {}", show(&r)))?;
            ctx.t.traces += 1;
            ctx.state(&args);
            no_escape(ctx, &r, &what)?;
            let ch = changed(ctx, &before, &what)?;
            if len == 0 {
                ctx.need(ch.is_empty() && !r.out.is_empty(), || format!("without arguments: {}", show(&r)))?;
                return Ok(());
            }
            // what the list says
            let (mut file, mut csvf, mut rulesf, mut nomove, mut twice) = (None, None, None, false, false);
            let mut ok = ["b", "e", "r", "import"].contains(&args[0]);
            let mut known = args[0] != "x" && !args[0].is_empty();
            let mut it = args[1..].iter();
            while let Some(a) = it.next() {
                let slot = match *a {
                    "-n" | "--no-move" => {
                        nomove = true;
                        continue;
                    }
                    "-f" | "--file" => &mut file,
                    "--csv" => &mut csvf,
                    "--rules" => &mut rulesf,
                    _ => {
                        ok = false;
                        known = false;
                        break;
                    }
                };
                twice |= slot.is_some();
                match it.next() {
                    Some(v) => *slot = Some(*v),
                    None => {
                        ok = false;
                        known = false;
                        break;
                    }
                }
            }
            if twice && known {
                return Ok(()); // the property does not say which one counts
            }
            if !known || file.is_none() || file != Some(JF) || !ok {
                // other subcommands by their first letter are not asked about, nor other files as journals
                if known && file.is_some() && file != Some(JF) {
                    ctx.need(ch.iter().all(|c| Some(c.0.as_str()) == file), || format!("{what}: changed {ch:?}"))?;
                    ctx.outcome("some other file as the journal");
                    return Ok(());
                }
                if known && !ok {
                    ctx.need(ch.iter().all(|c| Some(c.0.as_str()) == file), || format!("{what}: changed {ch:?}"))?;
                    return Ok(());
                }
                need_refused(ctx, &r, &what)?;
                ctx.need(ch.is_empty(), || format!("{what}: refused, but changed {ch:?}"))?;
                ctx.outcome("refused");
                return Ok(());
            }
            if args[0] == "import" {
                let good = csvf == Some("x.csv") && (rulesf.is_none() || rulesf == Some("r"));
                let n: usize = good as usize;
                let got: usize = ch.iter().map(|c| c.1.matches("record of 1").count()).sum();
                ctx.need(ch.iter().all(|c| c.0 == JF) && got == n && r.err.is_empty() == good, || format!("{what}: changed {ch:?}: {}", show(&r)))?;
                ctx.outcome(if good { "imported" } else { "import refused" });
            } else {
                chk_report(ctx, &r, &before, args[0], Some((3, JF)), !nomove, &what)?;
                ctx.outcome("report of the chosen journal");
            }
            Ok(())
        });
    }
    // ---- subcommands that do not exist
    let mut words: Vec<String> = (33u8..127).map(|c| (c as char).to_string()).collect();
    words.extend(["Balance", "Envelopes", "Register", "Import", "New", "Summary", "BALANCE", "B ", " b", "\tb", "ß", "é", "ｂ", "字", "-b", "--balance", "_b", "/b", "1b", "help", "version", "-h", "--help", "-v", "quit", "total", "accounts", "j.sfox", "\u{feff}b", "\u{200b}b"].map(String::from));
    words.retain(|w| !w.starts_with(['b', 'e', 'r', 'i', 'n', 's']));
    h.explore("words that begin no subcommand x what follows", words.len() * 5, |ctx, i| {
        let (w, k) = (words[i / 5].as_str(), i % 5);
        ctx.put(JF, &jtext(3));
        ctx.put("x.csv", &csv(1));
        ctx.put("x.csv.rules", &rules(1, 3));
        let before = ctx.srv.snapshot();
        let mut q = req(TODAY, &[&[w, "-f", JF][..], &[w], &[w, "-n", "-f", JF], &[w, "-f", JF, "--csv", "x.csv"], &[w, "b", "-f", JF]][k]);
        if k == 1 {
            q.env.push(("SILVERFOX_FILE".into(), JF.into()));
        }
        let r = ctx.run(&q);
        need_refused(ctx, &r, &format!("the subcommand {w:?}"))?;
        ctx.need(changed(ctx, &before, w)?.is_empty(), || format!("{w:?} changed a file"))?;
        ctx.t.traces += 1;
        ctx.state(&(w, k));
        ctx.outcome("no subcommand");
        Ok(())
    });
    // ---- flags misspelt: refused without effect, with and without a value
    let flags: Vec<&str> = vec!["-n", "--no-move", "-f", "--file", "--csv", "--csv-file", "--rules", "--rules-file"];
    let mut miss: Vec<String> = vec![];
    for f in &flags {
        miss.extend(super::layout::misspelt(f));
        miss.push(f.to_uppercase());
        miss.push(format!("{f}=j.sfox"));
        miss.push(format!("{f}="));
        miss.push(format!("{f}j.sfox"));
        miss.push(format!("-{f}"));
        miss.push(f.trim_start_matches('-').to_string());
        miss.push(f.replace('-', "_"));
        miss.push(f.replace('-', "–"));
        miss.push(format!(" {f}"));
        miss.push(format!("{f} "));
    }
    miss.sort();
    miss.dedup();
    miss.retain(|m| !flags.contains(&m.as_str()));
    h.explore("every flag misspelt in every way x place x with or without a value x command", miss.len() * 3 * 2 * 4, |ctx, i| {
        let d = digits(i, &[miss.len(), 3, 2, 4]);
        let m = miss[d[0]].as_str();
        ctx.put(JF, &jtext(3));
        ctx.put("k.sfox", &jtext(4));
        ctx.put("x.csv", &csv(1));
        ctx.put("x.csv.rules", &rules(1, 3));
        let mut args: Vec<&str> = vec![["b", "e", "r", "import"][d[3]], "-f", JF];
        if d[3] == 3 {
            args.extend(["--csv", "x.csv"]);
        }
        let mut odd = vec![m];
        if d[2] == 1 {
            odd.push("k.sfox");
        }
        let at = [1, 3, args.len()][d[1]];
        // a value that is missing: what follows is taken for it
        args.splice(at..at, odd);
        let before = ctx.srv.snapshot();
        let r = ctx.run(&req(TODAY, &args));
        let what = format!("{args:?}");
        no_escape(ctx, &r, &what)?;
        need_refused(ctx, &r, &what)?;
        let ch = changed(ctx, &before, &what)?;
        ctx.need(ch.is_empty(), || format!("{what}: refused, but changed {ch:?}"))?;
        ctx.t.traces += 1;
        ctx.state(&args);
        ctx.outcome("misspelt flag refused");
        Ok(())
    });
    // ---- names of journals: with spaces, signs, letters; a journal of a similar name beside it
    let names = [
        "j.sfox", "J.sfox", "j .sfox", " j.sfox", "j.sfox ", "j", "j.", ".j", "j.SFOX", "j.txt", "a b/j.sfox", "j\u{e9}.sfox", "j'.sfox", "j\".sfox", "j$HOME.sfox", "$HOME", "~", "~j.sfox", "%d.sfox", "j%.sfox", "-f", "--file", "-n", "b", "j#1.sfox", "j;.sfox", "j//k.sfox", "j=k.sfox", "j*.sfox", "j?.sfox",
        "[j].sfox", "j,k.sfox", "j&k.sfox", "j\\k.sfox", "2024", "j.sfox.bak", "j.sfox~", "日本.sfox", "e\u{301}.sfox", "a/./j.sfox", "very/deep/down/in/the/tree/j.sfox", "j:k.sfox", "{j}.sfox", "j\tk.sfox",
    ];
    h.explore("names of journals x how they are given x command, journals of similar names beside them", names.len() * 4 * 4 * 2, |ctx, i| {
        let d = digits(i, &[names.len(), 4, 4, 2]);
        let n = names[d[0]];
        // those beside it
        let dir = n.rsplit_once('/').map_or(String::new(), |x| format!("{}/", x.0));
        let base = n.rsplit('/').next().unwrap();
        let near: Vec<String> = [base.trim().to_string(), base.to_lowercase(), base.to_uppercase(), format!("{base}.sfox"), format!("{base}.journal"), base.replace(".sfox", ".txt"), base.replace(".sfox", ""), format!("{base}~"), base.replace(['\\', '$', '%', '~', '*', '?', ';', '#', '=', '"', '\'', '\t'], ""), base.split(' ').next().unwrap().into(), base.split([';', '#', '=', ',', '&', ':', '\t']).next().unwrap().into()]
            .into_iter()
            .filter(|x| !x.is_empty() && x != base && x != "." && x != "..")
            .collect();
        for x in &near {
            ctx.put(&format!("{dir}{x}"), &jtext(8));
        }
        // names that only differ by normalised parts are the same file
        let file = n.replace("/./", "/").replace("//", "/");
        let there = d[3] == 0;
        if there {
            ctx.put(&file, &jtext(2));
        }
        ctx.put("c.csv", &csv(1));
        ctx.put("c.csv.rules", &rules(1, 2));
        let before = ctx.srv.snapshot();
        let cmd = ["b", "e", "r", "import"][d[2]];
        let mut args = vec![cmd];
        if cmd == "import" {
            args.extend(["-n", "--csv", "c.csv"]);
        }
        let abs = ctx.srv.path(n).to_str().unwrap().to_string();
        let mut q = match d[1] {
            0 => {
                args.extend(["-f", n]);
                req(TODAY, &args)
            }
            1 => {
                args.extend(["--file", &abs]);
                req(TODAY, &args)
            }
            _ => req(TODAY, &args),
        };
        if d[1] == 2 {
            q.env.push(("SILVERFOX_FILE".into(), n.into()));
        }
        if d[1] == 3 {
            q.env.push(("LEDGER_FILE".into(), n.into()));
        }
        let r = ctx.run(&q);
        let what = format!("`{cmd}` on {n:?} given in way {}", d[1]);
        if !there {
            // no other journal will do
            no_escape(ctx, &r, &what)?;
            need_refused(ctx, &r, &format!("{what}, which isn't there"))?;
            let ch = changed(ctx, &before, &what)?;
            ctx.need(ch.is_empty(), || format!("{what}, which isn't there: changed {ch:?}"))?;
        } else if cmd == "import" {
            no_escape(ctx, &r, &what)?;
            need_ok(ctx, &r, &what)?;
            let ch = changed(ctx, &before, &what)?;
            ctx.need(ch.len() == 1 && ch[0].0 == file && ch[0].1.contains("record of 1"), || format!("{what}: changed {ch:?}"))?;
        } else {
            chk_report(ctx, &r, &before, cmd, Some((2, &file)), true, &what)?;
        }
        ctx.t.traces += 1;
        ctx.state(&(d, 7));
        ctx.outcome("names of journals");
        Ok(())
    });
    // paths that are not unicode
    let odd = ["caf\u{f7e9}.sfox", "\u{f7ff}", "d\u{f7c3}/j.sfox", "j\u{f7ed}\u{f7a0}\u{f780}.sfox"];
    h.explore("paths that are not unicode x how they are given x what else is given x command", odd.len() * 3 * 4 * 4, |ctx, i| {
        let d = digits(i, &[odd.len(), 3, 4, 4]);
        let n = odd[d[0]];
        ctx.put(n, &jtext(2));
        ctx.put("other.sfox", &jtext(8));
        let lossy = String::from_utf8_lossy(&raw(n)).into_owned();
        ctx.put(&lossy, &jtext(7));
        ctx.put("c.csv", &csv(1));
        ctx.put("c.csv.rules", &rules(1, 2));
        let before = ctx.srv.snapshot();
        let cmd = ["b", "e", "r", "import"][d[3]];
        let mut args = vec![cmd];
        if cmd == "import" {
            args.extend(["-n", "--csv", "c.csv"]);
        }
        if d[1] == 2 {
            args.extend(["-f", n]);
        }
        let mut q = req(TODAY, &args);
        if d[1] < 2 {
            q.env.push((["SILVERFOX_FILE", "LEDGER_FILE"][d[1]].into(), n.into()));
        }
        // what counts less
        if d[2] & 1 != 0 && d[1] != 1 {
            q.env.push(("LEDGER_FILE".into(), "other.sfox".into()));
        }
        if d[2] & 2 != 0 && d[1] == 2 {
            q.env.push(("SILVERFOX_FILE".into(), "other.sfox".into()));
        }
        let r = ctx.run(&q);
        let what = format!("`{cmd}` on {:?} given in way {}, others {}", raw(n).escape_ascii().to_string(), d[1], d[2]);
        no_escape(ctx, &r, &what)?;
        let ch = changed(ctx, &before, &what)?;
        if d[1] == 2 && !r.err.is_empty() {
            // an argument may be refused, but no other file is used instead of it
            need_refused(ctx, &r, &what)?;
            ctx.need(ch.is_empty(), || format!("{what}: refused, but changed {ch:?}"))?;
            ctx.outcome("argument refused");
        } else if cmd == "import" {
            need_ok(ctx, &r, &what)?;
            ctx.need(ch.len() == 1 && ch[0].0 == n && ch[0].1.contains("record of 1"), || format!("{what}: changed {ch:?}"))?;
        } else {
            chk_report(ctx, &r, &before, cmd, Some((2, n)), true, &what)?;
        }
        ctx.t.traces += 1;
        ctx.state(&(d, 8));
        Ok(())
    });
    h.finish(
        "products of the three ways to name the journal, working directories, spellings of paths, orders and spellings of flags; imports with every order of flags, csv and rules files of the same names in other places; all argument lists up to a length: the report is of the chosen journal, only that file changes, and everything else is refused without effect; every flag misspelt in every way; 44 unusual names of journals with similar ones beside them; a named journal that is absent; names that are not unicode",
        &["a flag given twice is not judged", "no include through symbolic links"],
    )
}
