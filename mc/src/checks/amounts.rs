//! C22: every accepted spelling of an amount means the same number.
use crate::cal::*;
use crate::common::*;
use crate::fw::*;
use crate::model::*;
use crate::outparse as op;

const TODAY: Day = 19783;
/// spellings of a number (without sign) and what it is
const NUMS: [(&str, f64); 34] = [
    ("5", 5.0), ("05", 5.0), ("5.0", 5.0), ("5.", 5.0), ("005.500", 5.5), (".5", 0.5), ("0.5", 0.5), ("0.50", 0.5), ("0", 0.0), ("0.00", 0.0), ("1234.5", 1234.5), ("1,234.5", 1234.5), ("1,234.50", 1234.5),
    ("1234567.25", 1234567.25), ("1,234,567.25", 1234567.25), ("12,34,567.25", 1234567.25), ("0.00000001", 0.00000001), ("0.12345678", 0.12345678), ("0.123456784", 0.12345678), ("0.123456786", 0.12345679), ("99999999.99999999", 99999999.99999999),
    ("0.1", 0.1), ("0.30000000000000004", 0.3), ("100", 100.0), ("1000000", 1000000.0), ("1,000,000", 1000000.0), ("0.000000004", 0.0), ("2.675", 2.675), ("4503599627370496.5", 4503599627370496.5), ("3.00000000", 3.0), ("42.", 42.0), ("000", 0.0), ("7", 7.0), ("1,5", 15.0),
];
const SYMS: [&str; 12] = ["", "$", "€", "EUR", "BTC", "é", "A$", "USDX", "日本", "元", "kr", "R"];
/// N: number, S: symbol
const LAYOUTS: [(&str, i32); 22] = [
    ("N", 1), ("-N", -1), ("--N", 1), ("SN", 1), ("S N", 1), ("NS", 1), ("N S", 1), ("-SN", -1), ("-S N", -1), ("S-N", -1), ("S -N", -1), ("-NS", -1), ("-N S", -1), ("--SN", 1), ("S--N", 1), ("S --N", 1), ("--N S", 1), ("---N", -1), ("N   S", 1), ("S\tN", 1), ("----N", 1), ("--S N", 1),
];
fn spell(n: &str, s: &str, l: &str) -> String {
    l.chars().map(|c| match c { 'N' => n.to_string(), 'S' => s.to_string(), c => c.to_string() }).collect()
}
/// as the reports show it
fn shown(v: f64) -> f64 {
    (v * 1e8).round() / 1e8
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 + b.abs() * 1e-12
}
/// no number in a report has more than eight decimals
fn eight(ctx: &Ctx, out: &str, what: &str) -> Check {
    for w in out.split(|c: char| !(c.is_ascii_digit() || c == '.')) {
        if let Some((_, f)) = w.split_once('.') {
            ctx.need(f.len() <= 8, || format!("{what}: shown with more than eight decimals: {out:?}"))?;
        }
    }
    Ok(())
}
fn find<'a>(ctx: &Ctx, b: &'a [(String, Vec<Amt>)], acct: &str, what: &str) -> Result<&'a Vec<Amt>, Violation> {
    match b.iter().find(|x| x.0 == acct) {
        Some(x) => Ok(&x.1),
        None => ctx.fail(format!("{what}: {acct} is not in the balance {b:?}")),
    }
}
const HEAD: &str = "account assets:a\naccount expenses:x\naccount equity:q\n";
/// places where an amount may stand; the text around a spelling
fn journal(place: usize, s: &str, sym: &str) -> String {
    let unit = amt(1000.0, sym).text();
    match place {
        0 => format!("{HEAD}2024/01/01 * x\n    assets:a    {s}\n    expenses:x\n"),
        1 => format!("{HEAD}2024/01/01 * x\n    expenses:x\n    assets:a    {s}    // with a comment\n"),
        2 => format!("{HEAD}2024/01/01 * x\n    assets:a    2 GOLD @ {s}\n    equity:q    1\n    expenses:x\n"),
        3 => format!("{HEAD}2024/01/01 * x\n    assets:a    2 GOLD = {s}\n    equity:q    1\n    expenses:x\n"),
        4 => format!("account assets:a\n    expense probe due every 1st\n        amount {s}\n"),
        5 => format!("account assets:a\n    expense probe due no date\n        amount {unit}\naccount expenses:x\n2024/01/01 * x\n    envelope assets:a probe {s}\n"),
        6 => format!("{HEAD}2024/01/01 * x\n    assets:a    {s} ! {s}\n    expenses:x\n"),
        _ => unreachable!(),
    }
}
const PLACES: usize = 7;
fn place_ok(ctx: &mut Ctx, place: usize, text: &str, v: f64, sym: &str) -> Check {
    let j = journal(place, text, sym);
    ctx.put(JF, &j);
    let what = format!("amount `{text}` in\n{j}");
    if place == 4 || place == 5 {
        let r = report(ctx, TODAY, "e");
        let e = env_out(ctx, &r)?;
        let Some(x) = e.first().and_then(|a| a.envs.first()) else { return ctx.fail(format!("{what}: {}", show(&r))) };
        let (got, gs) = if place == 4 { (x.target.mag, &x.target.sym) } else { (x.now.mag + x.next.mag, &x.now.sym) };
        ctx.need(near(got, shown(v)) && gs == sym, || format!("{what}: shown as {got} {gs:?}, expected {} {sym:?}", shown(v)))?;
        return eight(ctx, &r.out, &what);
    }
    let r = report(ctx, TODAY, "b");
    need_ok(ctx, &r, &what)?;
    let Some(b) = op::balance(&r.out) else { return ctx.fail(format!("{what}: {}", show(&r))) };
    let is = |a: &Vec<Amt>, w: f64, sym: &str| match a.as_slice() {
        [x] => near(x.mag, w) && x.sym == sym,
        [] => w == 0.0,
        _ => false,
    };
    match place {
        0 | 1 | 6 => {
            let (a, x) = (find(ctx, &b, "assets:a", &what)?, find(ctx, &b, "expenses:x", &what)?);
            ctx.need(is(a, shown(v), sym) && is(x, -shown(v), sym), || format!("{what}: balance {b:?}, expected {} {sym:?}", shown(v)))?;
        }
        _ => {
            // the blank posting is what the cost says
            let x = find(ctx, &b, "expenses:x", &what)?;
            let w = -shown(if place == 2 { 2.0 * v } else { v } + 1.0);
            ctx.need(is(x, w, ""), || format!("{what}: balance {b:?}, expected {w} for the blank posting"))?;
        }
    }
    eight(ctx, &r.out, &what)
}
pub fn not_amounts(h: &Harness) {
    // what is not an amount
    const BAD: [&str; 26] = ["$", "abc", "-", "--", ".", ",", "1.2.3", "1-2", "5-", "5--5-", "EUR", "-$", "$-", "5 EUR x", "5 x EUR", "a b c", "1.2.3 EUR", "$1.2.3", "-5-", "$-5-", "5- EUR", "..", "5..", "-.-", "€ EUR", "-5-5"];
    h.explore("texts that are not amounts x places", BAD.len() * PLACES, |ctx, i| {
        let (t, place) = (BAD[i % BAD.len()], i / BAD.len());
        ctx.put(JF, &journal(place, t, ""));
        for s in ["b", "e", "r"] {
            let r = report(ctx, TODAY, s);
            need_refused(ctx, &r, &format!("`{t}` as an amount in place {place} ({s})"))?;
        }
        ctx.t.traces += 1;
        ctx.state(&(t, place));
        ctx.outcome("refused");
        Ok(())
    });
}
pub fn c22(h: &Harness) -> i32 {
    let bases = [NUMS.len(), SYMS.len(), LAYOUTS.len(), PLACES];
    h.explore("numbers x symbols x layouts x places", product(&bases), |ctx, i| {
        let d = digits(i, &bases);
        let (n, v) = NUMS[d[0]];
        let (sym, (l, sign), place) = (SYMS[d[1]], LAYOUTS[d[2]], d[3]);
        if sym.is_empty() == l.contains('S') {
            return Ok(());
        }
        let v = sign as f64 * v;
        // costs are in the native currency; the amount of an envelope is not negative
        if (place == 2 || place == 3) && !sym.is_empty() || place == 4 && v < 0.0 {
            return Ok(());
        }
        // three decimals of a cost of two units would not be exact after the last shown decimal
        if place == 2 && n.len() > 10 && n.starts_with("0.") {
            return Ok(());
        }
        let t = spell(n, sym, l);
        place_ok(ctx, place, &t, v, sym)?;
        ctx.t.traces += 1;
        ctx.state(&(t.clone(), place));
        ctx.outcome(&format!("place {place}, {}", if sym.is_empty() { "no symbol" } else { "symbol" }));
        ctx.sample(|| format!("{t:?} = {v} {sym} in place {place}"));
        Ok(())
    });
    // two spellings of the same amount are the same currency: they cancel
    let forms: Vec<(&str, i32)> = LAYOUTS.iter().copied().filter(|l| l.0.contains('S')).collect();
    let nf = forms.len();
    h.explore("pairs of spellings in one entry", nf * nf * (SYMS.len() - 1) * 3, |ctx, i| {
        let d = digits(i, &[nf, nf, SYMS.len() - 1, 3]);
        let sym = SYMS[d[2] + 1];
        let (n, m) = [("5", "5.00"), ("1,234.5", "1234.50"), ("0.1", ".1")][d[3]];
        let (a, b) = (forms[d[0]], forms[d[1]]);
        let j = format!("{HEAD}2024/01/01 * x\n    assets:a    {}\n    expenses:x    {}\n", spell(n, sym, a.0), spell(m, sym, b.0));
        ctx.put(JF, &j);
        let r = report(ctx, TODAY, "b");
        if a.1 == b.1 {
            need_refused(ctx, &r, &format!("twice the same amount\n{j}"))?;
        } else {
            need_ok(ctx, &r, &format!("the same amount in and out\n{j}"))?;
            let bal = op::balance(&r.out).unwrap_or_default();
            let a1 = find(ctx, &bal, "assets:a", &j)?;
            ctx.need(a1.len() == 1 && a1[0].sym == sym, || format!("{j}: {}", show(&r)))?;
        }
        ctx.t.traces += 1;
        ctx.state(&(9, &d));
        ctx.outcome("pair");
        Ok(())
    });
    not_amounts(h);
    // every decimal number of so many digits: shown, written by import, read back
    let digs = if h.thorough { 10_000 } else { 1_000 };
    let syms = ["", "$", "EUR"];
    let per = 40;
    let total = digs * 11;
    h.explore(&format!("all numbers of {} digits at 0 to 10 decimals, imported, written and read back", digs.to_string().len() - 1), total / per * syms.len(), |ctx, i| {
        let (c, sym) = (i / syms.len(), syms[i % syms.len()]);
        let mut csv = String::new();
        let mut vals: Vec<f64> = vec![];
        let mut sum = 0.0;
        for k in 0..per {
            let x = c * per + k;
            let (dec, n) = (x % 11, x / 11);
            let s = if dec == 0 {
                n.to_string()
            } else {
                let z = format!("{n:0>w$}", w = dec + 1);
                format!("{}.{}", &z[..z.len() - dec], &z[z.len() - dec..])
            };
            let neg = x % 3 == 0;
            let v: f64 = s.parse::<f64>().unwrap() * if neg { -1.0 } else { 1.0 };
            csv += &format!("2024/01/01,n{k},{}{s}\n", if neg { "-" } else { "" });
            vals.push(v);
            sum += shown(v);
        }
        let rules = format!("fields date, description, amount\nskip 0\naccount assets:a\namount {}\naccount2 expenses:x\n", match sym { "" => "%amount%", "$" => "$%amount%", _ => "%amount% EUR" });
        ctx.put(JF, HEAD);
        ctx.put("x.csv", &csv);
        ctx.put("r", &rules);
        let r = ctx.run(&req(TODAY, &["import", "-n", "-f", JF, "--csv", "x.csv", "--rules", "r"]));
        need_ok(ctx, &r, &format!("import of\n{csv}"))?;
        let text = ctx.get(JF);
        let Some(es) = op::entries(&text[HEAD.len()..]) else { return ctx.fail(format!("appended {:?}", &text[HEAD.len()..])) };
        ctx.need(es.len() == per, || format!("{} entries of {per} records", es.len()))?;
        for (e, v) in es.iter().zip(&vals) {
            let p = e.posts.iter().find(|p| p.acct == "assets:a").and_then(|p| p.amt.clone());
            ctx.need(p.as_ref().is_some_and(|a| a.sym == sym && near(a.mag, shown(*v))), || format!("{v} {sym} was written as {e:?}"))?;
        }
        eight(ctx, &text[HEAD.len()..], "written by import")?;
        let r = report(ctx, TODAY, "b");
        need_ok(ctx, &r, "balance after the import")?;
        let b = op::balance(&r.out).unwrap_or_default();
        let a = find(ctx, &b, "assets:a", &text)?;
        ctx.need(a.len() == 1 && a[0].sym == sym && (a[0].mag - sum).abs() < 1e-8 + 1e-12 * sum.abs(), || format!("balance {b:?}, the written amounts sum to {sum}\n{text}"))?;
        ctx.t.traces += per as u64;
        ctx.state(&(c, sym));
        ctx.outcome("imported and read back");
        Ok(())
    });
    // other decimal symbols: what a bank writes is what the journal says
    const DECS: [(char, &str); 8] = [(',', "."), ('.', ","), (',', ""), ('\'', "."), ('\'', ","), ('·', ","), ('٫', "."), ('_', ".")];
    let b = [DECS.len(), SYMS.len(), LAYOUTS.len(), 3];
    h.explore("import: decimal symbols x thousands separators x symbols x layouts x where the symbol stands, all numbers", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let ((dec, sep), sym, (l, sign)) = (DECS[d[0]], SYMS[d[1]], LAYOUTS[d[2]]);
        if sym.is_empty() == l.contains('S') || sym.is_empty() && d[3] == 1 {
            return Ok(());
        }
        // the number as the bank writes it
        let bank = |n: &str| n.chars().map(|c| match c { '.' => dec.to_string(), ',' => sep.to_string(), c => c.to_string() }).collect::<String>();
        // the symbol stands in the record, in the rule, or in a field of its own
        let (cell, rule): (Box<dyn Fn(&str) -> String>, String) = match d[3] {
            0 => (Box::new(|n| spell(&bank(n), sym, l)), "%amount%".into()),
            1 => (Box::new(|n| bank(n)), spell("%amount%", sym, l)),
            _ => (Box::new(|n| bank(n)), spell("%amount%", "%cur%", l)),
        };
        let mut csv = String::new();
        for (k, (n, _)) in NUMS.iter().enumerate() {
            csv += &format!("2024/01/01,n{k},\"{}\",{sym}\n", cell(n));
        }
        let rules = format!("fields date, description, amount, cur\nskip 0\naccount assets:a\ndecimal_symbol {dec}\namount {rule}\naccount2 expenses:x\n");
        ctx.put(JF, HEAD);
        ctx.put("x.csv", &csv);
        ctx.put("r", &rules);
        let r = ctx.run(&req(TODAY, &["import", "-n", "-f", JF, "--csv", "x.csv", "--rules", "r"]));
        need_ok(ctx, &r, &format!("import of\n{csv}with\n{rules}"))?;
        let text = ctx.get(JF);
        let Some(es) = op::entries(&text[HEAD.len()..]) else { return ctx.fail(format!("appended {:?}", &text[HEAD.len()..])) };
        ctx.need(es.len() == NUMS.len(), || format!("{} entries of {} records", es.len(), NUMS.len()))?;
        let mut sum = 0.0;
        for (e, (n, v)) in es.iter().zip(&NUMS) {
            let v = shown(*v * sign as f64);
            let p = e.posts.iter().find(|p| p.acct == "assets:a").and_then(|p| p.amt.clone());
            ctx.need(p.as_ref().is_some_and(|a| a.sym == sym && near(a.mag, v)), || format!("{:?} (rule {rule:?}, decimal symbol {dec:?}) is {v} {sym:?} and was written as {e:?}", cell(n)))?;
            sum += v;
        }
        let r = report(ctx, TODAY, "b");
        need_ok(ctx, &r, "balance after the import")?;
        let bal = op::balance(&r.out).unwrap_or_default();
        let a = find(ctx, &bal, "assets:a", &text)?;
        ctx.need(a.len() == 1 && a[0].sym == sym && (a[0].mag - sum).abs() < 1e-8 + 1e-12 * sum.abs(), || format!("balance {bal:?}, the written amounts sum to {sum}\n{text}"))?;
        ctx.t.traces += NUMS.len() as u64;
        ctx.state(&(8, &d));
        ctx.outcome(&format!("decimal symbol {dec}"));
        Ok(())
    });
    // the decimal symbol stands in a number at most once
    const TWICE: [&str; 12] = ["1D2D3", "1D234D567", "DD5", "5DD", "1DD5", "-1D2D3", "D1D", "1D2D3 EUR", "$1D2D3", "-$1D0D0", "1D000D000", "0D0D0"];
    let b = [DECS.len(), TWICE.len(), 3, 2];
    h.explore("import: the decimal symbol twice in an amount x place of the amount x which record", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let (dec, bad) = (DECS[d[0]].0, TWICE[d[1]].replace('D', &DECS[d[0]].0.to_string()));
        let rec = |a: &str| format!("2024/01/01,n,\"{a}\"\n");
        let good = format!("1{dec}5");
        let (rules, a) = match d[2] {
            0 => ("amount %amount%\naccount2 expenses:x\n".to_string(), bad.clone()),
            1 => (format!("amount %amount%\namount2 {bad}\naccount2 expenses:x\n"), good.clone()),
            _ => ("amount -%amount%\naccount2 expenses:x\n".to_string(), bad.clone()),
        };
        let csv = if d[3] == 0 { rec(&a) } else { format!("{}{}{}", rec(&good), rec(&a), rec(&good)) };
        ctx.put(JF, HEAD);
        ctx.put("x.csv", &csv);
        ctx.put("r", &format!("fields date, description, amount\nskip 0\naccount assets:a\ndecimal_symbol {dec}\n{rules}"));
        let r = ctx.run(&req(TODAY, &["import", "-n", "-f", JF, "--csv", "x.csv", "--rules", "r"]));
        ctx.need(!r.err.is_empty(), || format!("{bad:?} with the decimal symbol {dec:?} is no number; {}\n{}", show(&r), ctx.get(JF)))?;
        let text = ctx.get(JF);
        let n = op::entries(&text[HEAD.len()..]).map(|v| v.len());
        ctx.need(n == Some(d[3]) || n == Some(0), || format!("{bad:?} with the decimal symbol {dec:?} is no number; written: {text}"))?;
        ctx.t.traces += 1;
        ctx.state(&(9, &d));
        ctx.outcome("refused in imports");
        Ok(())
    });
    // symbols of every kind of sign
    let al = ["a", "Z", "$", "'", "%", ":", "/", "#", "&", "(", ")", "*", "+", "<", ">", "^", "_", "|", "~", "é", "\"", "?", "[", "]", "{", "\\", "`", "£", "字", "²", "½", "Ⅳ", "٣", "①"];
    let na = al.len();
    let mut syms: Vec<String> = al.iter().map(|x| x.to_string()).collect();
    (0..na * na).for_each(|i| syms.push(format!("{}{}", al[i / na], al[i % na])));
    if h.thorough {
        (0..na * na * na).for_each(|i| syms.push(format!("{}{}{}", al[i / na / na], al[i / na % na], al[i % na])));
    } else {
        (0..na * na).for_each(|i| syms.push(format!("{}x{}", al[i / na], al[i % na])));
    }
    syms.retain(|s| !s.contains("//"));
    let forms = [("SN", 1), ("S N", 1), ("NS", 1), ("N S", 1), ("-SN", -1), ("S-N", -1), ("-N S", -1), ("-NS", -1)];
    let per = 25;
    let b = [syms.len().div_ceil(per), forms.len()];
    h.explore("symbols of one to three signs of every kind x layouts", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let (l, sign) = forms[d[1]];
        let part: Vec<&String> = syms.chunks(per).nth(d[0]).unwrap().iter().collect();
        let mut j = HEAD.to_string();
        for (k, s) in part.iter().enumerate() {
            j += &format!("2024/01/01 * x\n    assets:a    {}\n    expenses:x\n", spell(&format!("{}.5", k + 1), s, l));
        }
        ctx.put(JF, &j);
        let r = report(ctx, TODAY, "b");
        need_ok(ctx, &r, &format!("balance of\n{j}"))?;
        let bal = op::balance(&r.out).unwrap_or_default();
        for (acct, s0) in [("assets:a", 1.0), ("expenses:x", -1.0)] {
            let a = find(ctx, &bal, acct, &j)?;
            let mut want: Vec<(String, f64)> = vec![];
            for (k, s) in part.iter().enumerate() {
                let v = s0 * sign as f64 * (k as f64 + 1.5);
                match want.iter_mut().find(|w| w.0 == **s) {
                    Some(w) => w.1 += v,
                    None => want.push((s.to_string(), v)),
                }
            }
            let mut got: Vec<(String, f64)> = a.iter().map(|x| (x.sym.clone(), x.mag)).collect();
            want.sort_by(|x, y| x.0.cmp(&y.0));
            got.sort_by(|x, y| x.0.cmp(&y.0));
            ctx.need(got == want, || format!("{acct} is shown as {got:?}, expected {want:?}, of\n{j}"))?;
        }
        ctx.t.traces += part.len() as u64;
        ctx.state(&(7, &d));
        ctx.outcome("symbols");
        Ok(())
    });
    // long symbols
    let lens: Vec<usize> = (1..=if h.thorough { 70 } else { 20 }).chain([24, 31, 32, 33, 64, 65, 100]).collect();
    let alph = ["Dollars", "€uro", "ÄÖ", "$", "kr_", "貨幣"];
    let b = [lens.len(), alph.len(), LAYOUTS.len(), PLACES];
    h.explore("symbols of every length x letters x layouts x places", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let (l, sign) = LAYOUTS[d[2]];
        if !l.contains('S') || d[3] == 2 || d[3] == 3 || d[3] == 4 && sign < 0 {
            return Ok(());
        }
        let sym: String = alph[d[1]].chars().cycle().take(lens[d[0]]).collect();
        place_ok(ctx, d[3], &spell("12.5", &sym, l), sign as f64 * 12.5, &sym)?;
        ctx.t.traces += 1;
        ctx.state(&(&sym, d[2], d[3]));
        Ok(())
    });
    // every number of up to fifteen digits and eight decimals is shown as it is
    let nd = 15usize;
    let pats = ["1", "9", "123456789012345", "987654321098765", "500000000000005", "111111111111111", "249999999999999", "7", "333333333333333", "1025"];
    let b = [nd, 9, pats.len(), 2, 4];
    h.explore("numbers of 1 to 15 digits x 0 to 8 decimals, shown exactly", product(&b), |ctx, i| {
        let d = digits(i, &b);
        let digs: String = pats[d[2]].chars().cycle().take(d[0] + 1).collect();
        let z = format!("{digs:0>w$}", w = d[1] + 1);
        let t = if d[1] == 0 { z } else { format!("{}.{}", &z[..z.len() - d[1]], &z[z.len() - d[1]..]) };
        let v = t.parse::<f64>().unwrap() * [1.0, -1.0][d[3]];
        let sym = ["", "$", "IDR", "₫"][d[4]];
        let neg = ["", "-"][d[3]];
        ctx.put(JF, &format!("account assets:b\naccount expenses:y\n{HEAD}2024/01/01 * x\n    assets:a    {neg}{t} {sym}\n    expenses:x\n2024/01/02 * y\n    expenses:y    {neg}{t} {sym}\n    assets:b\n"));
        let r = report(ctx, TODAY, "b");
        need_ok(ctx, &r, "balance")?;
        let b = op::balance(&r.out).unwrap_or_default();
        for (a, s) in [("assets:a", 1.0), ("expenses:x", -1.0), ("assets:b", -1.0), ("expenses:y", 1.0)] {
            let x = find(ctx, &b, a, &t)?;
            ctx.need(if v == 0.0 { x.is_empty() || x[0].mag == 0.0 } else { x.len() == 1 && x[0].mag == s * v && x[0].sym == sym }, || format!("{neg}{t} {sym} is shown as {x:?} in {a}"))?;
        }
        eight(ctx, &r.out, &t)?;
        let r = report(ctx, TODAY, "r");
        need_ok(ctx, &r, "register")?;
        let v1 = op::register(&r.out).unwrap_or_default();
        ctx.need(v == 0.0 || v1.first().is_some_and(|x| x.amounts.len() == 1 && x.amounts[0].0.mag == v && x.amounts[0].1.mag == v), || format!("{neg}{t} {sym} in the register: {}", show(&r)))?;
        ctx.t.traces += 1;
        ctx.state(&(&t, sym, d[3]));
        ctx.outcome(&format!("{} digits", d[0] + 1));
        Ok(())
    });
    h.finish(
        "product of 34 numbers, 12 symbols, 22 layouts and 7 places (postings, costs, assertions, envelope amounts, envelope postings); all pairs of layouts; texts that are not amounts in every place; all numbers of three (thorough: four) digits at 0 to 10 decimals through import, journal and balance; the 34 numbers as a bank with another decimal symbol or thousands separator writes them, imported; symbols of 1 to 20 (thorough: 70) and more characters in every layout and place; ten digit patterns of 1 to 15 digits at 0 to 8 decimals, which must be shown exactly",
        &["exponents, plus signs and spaces between digits are not judged"],
    )
}
