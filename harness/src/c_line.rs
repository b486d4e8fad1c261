//! C15 positioned lines, C18 line dumps, C19 fixups, C20 fixup editor.
use std::{
    collections::HashSet,
    os::unix::fs::symlink,
    path::{Path, PathBuf},
};

use hun_law::{
    fixups::{Fixup, Fixups},
    identifier::{ActIdentifier, NumericIdentifier},
    output::{quick_display_indented_line, CliOutput, OutputFormat},
    parser::{mk_act_section::ActRawText, pdf::PageOfLines},
    util::indentedline::{IndentedLine, EMPTY_LINE},
};

use crate::{
    fixup_editor::run_fixup_editor,
    lines::*,
    mon::{Env, Mon},
    rng::Rng,
    Check,
};

// ------------------------------------------------------------------ C15

fn c15(env: &Env, m: &mut Mon) {
    env.suite(m, "slices", env.n(6000, 60000), |r, m| {
        let w = gen_line(r);
        let l = w.real();
        m.observe(&w.text(), !w.chars.is_empty());
        m.sample(|| format!("{:?} @{}", w.text(), l.indent()));
        let ctx = || format!("{:?}", w.text());
        if !same_line(m, "whole", &l, &w, &ctx) {
            return;
        }
        let n = w.chars.len() as i64;
        m.check(close(l.indent_at(n + 5), w.chars.last().map_or(0.0, |c| c.0)), "indent_at:past_end", ctx);
        m.check(close(l.indent_at(n), w.chars.last().map_or(0.0, |c| c.0)), "indent_at:end", ctx);
        for i in 1..=n {
            m.check(close(l.indent_at(-i), w.chars[(n - i) as usize].0), "indent_at:negative", || format!("{} at -{i}", ctx()));
        }
        // every cut (all of them for short lines, a sample for long ones)
        let dense = n <= 12;
        for _ in 0..if dense { 0 } else { 60 } {
            let (a, b) = (r.range(-n - 3, n + 3), r.range(-n - 3, n + 3));
            let to = r.chance(3, 4).then_some(b);
            cut(m, &l, &w, a, to);
        }
        if dense {
            for a in -n - 2..=n + 2 {
                cut(m, &l, &w, a, None);
                for b in -n - 2..=n + 2 {
                    cut(m, &l, &w, a, Some(b));
                }
            }
        }
        // cutting in pieces and gluing them back together
        let mut cuts: Vec<i64> = (0..r.below(4)).map(|_| r.range(0, n)).collect();
        cuts.push(0);
        cuts.push(n);
        cuts.sort();
        let pieces: Vec<IndentedLine> = cuts.windows(2).map(|c| l.slice(c[0], Some(c[1]))).collect();
        let glued = IndentedLine::from_multiple(&pieces.iter().collect::<Vec<_>>());
        if same_line(m, "glue", &glued, &w, &|| format!("{} cut at {cuts:?}", ctx())) {
            m.check(glued == l, "glue:equal", || format!("{} cut at {cuts:?}", ctx()));
        }
        m.count("glued", 1);
        // gluing unrelated lines keeps every character where it was
        let ws: Vec<MLine> = (0..r.range(0, 4)).map(|_| if r.chance(1, 4) { MLine { chars: vec![], justified: r.chance(1, 2) } } else { gen_line(r) }).collect();
        let ls: Vec<IndentedLine> = ws.iter().map(|w| w.real()).collect();
        let g = IndentedLine::from_multiple(&ls.iter().collect::<Vec<_>>());
        same_line(m, "concat", &g, &MLine::concat(&ws), &|| format!("{:?}", ws.iter().map(|w| w.text()).collect::<Vec<_>>()));
        // byte slices at character boundaries
        let text = w.text();
        let bounds: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
        for _ in 0..8 {
            let (i, j) = (r.below(bounds.len()), r.below(bounds.len()));
            let to = r.chance(3, 4).then(|| if r.chance(1, 8) { text.len() + r.below(5) } else { bounds[j] });
            let jc = to.map(|t| if t >= text.len() { n } else { j as i64 });
            let c = || format!("{} bytes {}..{to:?}", ctx(), bounds[i]);
            if let Some(s) = m.no_panic("slice_bytes", c, || l.slice_bytes(bounds[i], to)) {
                same_line(m, "slice_bytes", &s, &w.slice(i as i64, jc), &c);
            }
        }
        // bold copy
        if n > 0 {
            let b = l.as_bold();
            let mut wb = w.clone();
            wb.chars.iter_mut().for_each(|c| c.2 = true);
            same_line(m, "as_bold", &b, &wb, &ctx);
            same_line(m, "as_bold_slice", &b.slice(0, Some((n + 1) / 2)), &wb.slice(0, Some((n + 1) / 2)), &ctx);
        }
        // indentation comparison has a fixed tolerance of one unit
        for d in [-20.0, -1.5, -1.25, -0.75, 0.0, 0.75, 1.25, 20.0] {
            m.eq(&l.indent_less_or_eq(l.indent() + d), &(d > -1.0), "indent_less_or_eq", || format!("{} {d}", ctx()));
        }
        // equality: same indent, same text, same boldness
        let o = gen_line(r).real();
        m.eq(&(o == l), &(o.indent() == l.indent() && o.content() == l.content() && o.is_bold() == l.is_bold()), "equality", || format!("{} {:?}", ctx(), o));
        let mut moved = w.clone();
        moved.chars.iter_mut().for_each(|c| c.0 += 0.25);
        if n > 0 {
            m.check(moved.real() != l && l == w.real(), "equality:indent", ctx);
            let (mut other, mut flipped, mut last) = (w.clone(), w.clone(), w.clone());
            let k = r.below(n as usize);
            other.chars[k].1 = if other.chars[k].1 == 'x' { 'y' } else { 'x' };
            let b = !w.bold();
            flipped.chars.iter_mut().for_each(|c| c.2 = b);
            last.chars.pop();
            m.check(other.real() != l, "equality:text", ctx);
            m.check(flipped.real() != l, "equality:boldness", ctx);
            m.check(last.real() != l, "equality:length", ctx);
            for a in [i64::MIN, i64::MIN + 1, i64::MAX] {
                cut(m, &l, &w, a, None);
                cut(m, &l, &w, 0, Some(a));
            }
        }
        m.check(l.slice(0, Some(0)) == EMPTY_LINE && l.slice(0, Some(0)).is_empty(), "empty", ctx);
    });
    // boldness: more than two thirds of the characters
    env.suite(m, "boldness", 40, |r, m| {
        let n = m.case as usize + 1;
        for k in 0..=n {
            let mut flags: Vec<bool> = (0..n).map(|i| i < k).collect();
            r.shuffle(&mut flags);
            let w = MLine { chars: flags.iter().enumerate().map(|(i, b)| (i as f64 * 5.0, 'a', *b)).collect(), justified: false };
            m.observe(&(n, k), true);
            m.eq(&w.real().is_bold(), &(3 * k > 2 * n), "bold:two_thirds", || format!("{k} of {n}"));
        }
    });
    env.suite(m, "joining", env.n(20000, 200000), |r, m| {
        let texts: Vec<String> = (0..r.range(0, 6))
            .map(|_| match r.below(6) {
                0 => String::new(),
                1 => format!("{}-", gen_words(r, 1, 3)),
                2 => format!("{} {}", r.pick(&["és", "vagy"]), gen_words(r, 1, 3)),
                3 => r.pick(&["és", "vagy", "ésszel", "vagyon", "-", "–"]).to_string(),
                _ => gen_words(r, 1, 4),
            })
            .collect();
        m.observe(&texts, texts.len() > 1);
        let ls: Vec<IndentedLine> = texts.iter().map(|t| line_from_text(r, t, 1).real()).collect();
        let mut want = String::new();
        for t in &texts {
            if !t.is_empty() {
                let glue = want.is_empty() || (want.ends_with('-') && !t.starts_with("és ") && !t.starts_with("vagy "));
                if !glue {
                    want.push(' ');
                }
                want.push_str(t);
            }
        }
        let got = IndentedLine::join(&ls);
        m.eq(&got, &want, "join", || format!("{texts:?}"));
        let mut s = String::new();
        for l in &ls {
            l.append_to(&mut s);
        }
        m.eq(&s, &want, "append_to", || format!("{texts:?}"));
        m.sample(|| format!("{texts:?} -> {got:?}"));
        // nothing but spaces is ever added or lost
        let strip = |s: &str| s.chars().filter(|c| *c != ' ').collect::<String>();
        m.eq(&strip(&got), &strip(&texts.concat()), "join:conservation", || format!("{texts:?}"));
    });
    env.suite(m, "headers", env.n(10000, 100000), |r, m| {
        let re = regex::Regex::new("^\\(([0-9]+[a-z]?)\\) +(.*)$").unwrap();
        let id = crate::c_ident::gen_num(r);
        let rest = gen_words(r, 1, 5);
        let sp = " ".repeat(r.range(1, 3) as usize);
        let (text, want) = match r.below(4) {
            0 => (format!("({}){rest}", id.num), None),
            1 => (rest.clone(), None),
            _ => (format!("({}){sp}{rest}", id.num), Some(())),
        };
        let w = line_from_text(r, &text, 1);
        let l = w.real();
        m.observe(&text, true);
        let ctx = || format!("{text:?}");
        let Some(got) = m.no_panic("parse_header", ctx, || l.parse_header::<NumericIdentifier>(&re, &["pont", "törvény"])) else { return };
        // words never start with the "(n) " pattern themselves unless generated so
        let want = if rest.starts_with("pont") || rest.starts_with("törvény") { None } else { want };
        match (got, want) {
            (Some((i, l2)), Some(())) => {
                m.eq(&i.to_string(), &id.num.to_string(), "parse_header:id", ctx);
                let k = text.chars().count() - rest.chars().count();
                same_line(m, "parse_header:rest", &l2, &w.slice(k as i64, None), &ctx);
            }
            (None, None) => {}
            (g, _) => {
                if !(g.is_some() && rest.starts_with('(')) {
                    m.fail("parse_header:match", format!("{} {g:?}", ctx()));
                }
            }
        }
    });
}

fn cut(m: &mut Mon, l: &IndentedLine, w: &MLine, a: i64, b: Option<i64>) {
    let ctx = || format!("{:?}[{a}..{b:?}]", w.text());
    m.count("cuts", 1);
    if let Some(s) = m.no_panic("slice", ctx, || l.slice(a, b)) {
        same_line(m, "slice", &s, &w.slice(a, b), &ctx);
    }
}

// ------------------------------------------------------------------ C18

/// text as it can come out of the PDF parser: single inner spaces, trimmed
fn clean(t: &str) -> String {
    t.split(' ').filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" ")
}

fn gen_dump_line(r: &mut Rng) -> MLine {
    let t = if r.chance(1, 8) { String::new() } else { clean(&gen_words(r, 1, 6)) };
    let mut w = line_from_text(r, &t, 3);
    let b = w.bold();
    w.chars.iter_mut().for_each(|c| c.2 = b);
    if t.is_empty() {
        w.justified = false;
    }
    w
}

fn check_dump(m: &mut Mon, key: &str, dumped: &str, w: &MLine) {
    let l = w.real();
    let ctx = || format!("{:?} indent {} bold {} justified {}: dumped {dumped:?}", w.text(), l.indent(), w.bold(), w.justified);
    let Some(b) = m.no_panic(&format!("{key}:read"), ctx, || IndentedLine::from_test_str(dumped)) else { return };
    m.check(b.content() == w.text(), &format!("{key}:text"), || format!("{} read {:?}", ctx(), b.content()));
    if !w.chars.is_empty() {
        m.check(b.is_bold() == w.bold(), &format!("{key}:bold"), ctx);
        // the reader's column k lies at 10 + 5k; the tags need 6 and 4 columns
        let tags = if w.bold() { 6.0 } else { 0.0 } + if !w.justified { 4.0 } else { 0.0 };
        let col = (l.indent() / 5.0).floor().max(tags);
        let got = (b.indent() - 10.0) / 5.0;
        m.check((got - col).abs() < 0.01, &format!("{key}:indent"), || format!("{} column {got} want {col}", ctx()));
    }
    m.check(b.is_justified() == w.justified, &format!("{key}:justified"), ctx);
}

fn c18(env: &Env, m: &mut Mon) {
    env.suite(m, "dump_read_back", env.n(60000, 600000), |r, m| {
        let w = gen_dump_line(r);
        let l = w.real();
        m.observe(&(w.text(), l.indent().to_bits(), w.justified, w.bold()), !w.chars.is_empty());
        let ctx = || format!("{:?}", w.text());
        if let Some(d) = m.no_panic("display", ctx, || quick_display_indented_line(&l, true)) {
            m.sample(|| d.clone());
            check_dump(m, "dump", &d, &w);
        }
        if let Some(d) = m.no_panic("display", ctx, || quick_display_indented_line(&l, false)) {
            // without tags: the text, indented by its column, nothing else
            let col = (l.indent() * 0.2).floor() as usize;
            m.eq(&d, &format!("{}{}", " ".repeat(col), w.text()), "plain", ctx);
        }
        // from the test notation and back again is stable
        let t = format!("{}{}{}{}", if r.chance(1, 3) { "<BOLD>" } else { "" }, if r.chance(1, 3) { "<NJ>" } else { "" }, " ".repeat(r.below(30)), w.text());
        let l1 = IndentedLine::from_test_str(&t);
        m.eq(&l1.content(), &w.text().as_str(), "notation:text", || t.clone());
        m.eq(&l1.is_justified(), &!t.contains("<NJ>"), "notation:justified", || t.clone());
        if !w.chars.is_empty() {
            m.eq(&l1.is_bold(), &t.contains("<BOLD>"), "notation:bold", || t.clone());
            let width = t.chars().count() - w.chars.len();
            m.check(close(l1.indent(), 10.0 + 5.0 * width as f64), "notation:indent", || format!("{t:?} {}", l1.indent()));
        }
    });
    env.suite(m, "files", env.n(2000, 20000), |r, m| {
        // whole pages and raw acts: one output line per line, in order
        let pages: Vec<Vec<MLine>> = (0..r.range(1, 3)).map(|_| (0..r.range(0, 8)).map(|_| gen_dump_line(r)).collect()).collect();
        let flat: Vec<&MLine> = pages.iter().flatten().collect();
        m.observe(&flat.iter().map(|w| w.text()).collect::<Vec<_>>(), flat.len() > 1);
        let real = || -> Vec<PageOfLines> { pages.iter().map(|p| PageOfLines { lines: p.iter().map(|w| w.real()).collect() }).collect() };
        let mut out = vec![];
        let n = pages.len();
        if let Some(Err(e)) = m.no_panic("pages", || format!("{n} pages"), || real().cli_output(80, OutputFormat::TestPlain, &mut out)) {
            m.fail("pages:error", format!("{e}"));
        }
        let s = String::from_utf8(out).unwrap_or_default();
        let mut it = s.split('\n');
        for (i, p) in pages.iter().enumerate() {
            let head: Vec<&str> = it.by_ref().take(3).collect();
            m.eq(&head, &vec!["", &format!("------- page {}/{n} -------", i + 1), ""], "pages:header", || s.clone());
            for w in p {
                match it.next() {
                    Some(d) => check_dump(m, "pages", d, w),
                    None => m.fail("pages:missing_line", s.clone()),
                }
            }
        }
        m.eq(&it.collect::<Vec<_>>(), &vec![""], "pages:extra", || s.clone());
        for fmt in [OutputFormat::Json, OutputFormat::Yaml] {
            let mut out = vec![];
            let ok = real().cli_output(80, fmt, &mut out).is_ok();
            let s = String::from_utf8(out);
            m.check(ok && s.is_ok(), "pages:structured", || format!("{fmt:?}"));
        }
        // without tags: every line as it is displayed, nothing else
        let shown = |w: &MLine| format!("{}{}", " ".repeat((w.real().indent() * 0.2).floor() as usize), w.text());
        for fmt in [OutputFormat::Plain, OutputFormat::Colored] {
            let mut out = vec![];
            m.check(real().cli_output(80, fmt, &mut out).is_ok(), "pages:plain_error", || format!("{fmt:?}"));
            let (s, _) = crate::c_tree::uncolor(&String::from_utf8_lossy(&out));
            let mut want = String::new();
            for (i, p) in pages.iter().enumerate() {
                want += &format!("\n------- page {}/{n} -------\n\n", i + 1);
                p.iter().for_each(|w| want += &format!("{}\n", shown(w)));
            }
            m.eq(&s, &want, "pages:plain", || format!("{fmt:?}"));
        }
        let body: Vec<MLine> = flat.into_iter().cloned().collect();
        let raw = ActRawText {
            identifier: ActIdentifier { year: 2013, number: r.range(1, 300) as i32 },
            subject: clean(&gen_words(r, 1, 4)),
            publication_date: chrono::NaiveDate::from_ymd_opt(r.range(1900, 2100) as i32, r.range(1, 12) as u32, r.range(1, 28) as u32).unwrap(),
            body: body.iter().map(|w| w.real()).collect(),
        };
        let date = raw.publication_date.to_string();
        let head = format!("Act ID: {} - {}", raw.identifier, raw.subject);
        let mut out = vec![];
        if let Some(Err(e)) = m.no_panic("raw", || head.clone(), || raw.clone().cli_output(80, OutputFormat::TestPlain, &mut out)) {
            m.fail("raw:error", format!("{e}"));
        }
        let s = String::from_utf8(out).unwrap_or_default();
        let ls: Vec<&str> = s.split('\n').collect();
        m.check(ls.len() == body.len() + 4, "raw:lines", || s.clone());
        m.check(ls.first() == Some(&head.as_str()), "raw:header", || s.clone());
        m.check(ls.get(1).map_or(false, |l| l.ends_with(&format!(" {date}"))), "raw:date", || s.clone());
        for (w, d) in body.iter().zip(ls.iter().skip(3)) {
            check_dump(m, "raw", d, w);
        }
        for fmt in [OutputFormat::Plain, OutputFormat::Colored] {
            let mut out = vec![];
            m.check(raw.clone().cli_output(80, fmt, &mut out).is_ok(), "raw:plain_error", || format!("{fmt:?}"));
            let (s, _) = crate::c_tree::uncolor(&String::from_utf8_lossy(&out));
            let ls: Vec<&str> = s.split('\n').collect();
            m.check(ls.first() == Some(&head.as_str()) && ls.get(1).map_or(false, |l| l.contains(&date)), "raw:header", || s.clone());
            let want: Vec<String> = body.iter().map(shown).chain([String::new()]).collect();
            m.check(ls.iter().skip(3).copied().eq(want.iter().map(|w| w.as_str())), "raw:plain", || s.clone());
        }
    });
}

// ------------------------------------------------------------------ C19

fn mutate_text(r: &mut Rng, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 3) {
        let p = r.below(cs.len() + 1);
        match r.below(7) {
            0 => {
                for c in gen_words(r, 1, 2).chars().rev() {
                    cs.insert(p, c);
                }
            }
            1 if p < cs.len() => {
                let q = (p + 1 + r.below(6)).min(cs.len());
                cs.drain(p..q);
            }
            2 if p < cs.len() => cs[p] = *r.pick(&['x', 'ő', '”', '„', 'a', '1']),
            3 => {
                let c = *r.pick(&['”', '„', 'a', ' ', '.', 'a']);
                cs.insert(p, c)
            }
            4 => cs.extend(" és".chars()),
            5 if p < cs.len() => {
                // double a character: the prefix and suffix overlap
                let c = cs[p];
                cs.insert(p, c);
            }
            _ => {
                for c in "„".chars() {
                    cs.insert(0, c);
                }
            }
        }
    }
    cs.into_iter().collect()
}

fn affix(old: &str, new: &str) -> (usize, usize) {
    let (o, n): (Vec<char>, Vec<char>) = (old.chars().collect(), new.chars().collect());
    let pre = o.iter().zip(&n).take_while(|(a, b)| a == b).count();
    let post = o[pre..].iter().rev().zip(n[pre..].iter().rev()).take_while(|(a, b)| a == b).count();
    (pre, post)
}

fn snap(l: &IndentedLine) -> (String, Vec<u64>, Vec<bool>, bool) {
    let n = l.len() as i64;
    (
        l.content().to_string(),
        (0..n).map(|i| l.indent_at(i).to_bits()).collect(),
        (0..n).map(|i| l.slice(i, Some(i + 1)).is_bold()).collect(),
        l.is_justified(),
    )
}

fn judge_fixed_line(m: &mut Mon, key: &str, before: &MLine, after: &IndentedLine, new: &str, set_bold: bool, ctx: &dyn Fn() -> String) {
    if !m.check(after.content() == new, &format!("{key}:text"), || format!("{}: got {:?}", ctx(), after.content())) {
        return;
    }
    let old = before.text();
    let (pre, post) = affix(&old, new);
    let (on, nn) = (old.chars().count(), new.chars().count());
    m.check(after.len() == nn, &format!("{key}:len"), ctx);
    for i in 0..pre {
        let g = after.indent_at(i as i64);
        m.check(close(g, before.chars[i].0), &format!("{key}:prefix_position"), || format!("{} char {i} at {g}, was {}", ctx(), before.chars[i].0));
    }
    for i in 0..post {
        let g = after.indent_at((nn - 1 - i) as i64);
        let w = before.chars[on - 1 - i].0;
        m.check(close(g, w), &format!("{key}:postfix_position"), || format!("{} char -{i} at {g}, was {w}", ctx()));
    }
    if set_bold && nn > 0 {
        m.check(after.is_bold(), &format!("{key}:set_bold"), ctx);
        for i in 0..nn as i64 {
            m.check(after.slice(i, Some(i + 1)).is_bold(), &format!("{key}:set_bold_char"), ctx);
        }
    } else if !set_bold {
        for i in 0..pre {
            m.check(after.slice(i as i64, Some(i as i64 + 1)).is_bold() == before.chars[i].2, &format!("{key}:prefix_bold"), ctx);
        }
        for i in 0..post {
            let k = (nn - 1 - i) as i64;
            m.check(after.slice(k, Some(k + 1)).is_bold() == before.chars[on - 1 - i].2, &format!("{key}:postfix_bold"), ctx);
        }
        if before.bold() && before.chars.iter().all(|c| c.2) && nn > 0 {
            m.check(after.is_bold(), &format!("{key}:stays_bold"), ctx);
        }
        if before.chars.iter().all(|c| !c.2) {
            m.check(!after.is_bold(), &format!("{key}:stays_not_bold"), ctx);
        }
    }
    if post > 0 {
        m.check(after.is_justified() == before.justified, &format!("{key}:justified"), ctx);
    }
    // a changed line starts where it started, as long as its first character stayed
    if pre > 0 {
        m.check(close(after.indent(), before.chars[0].0), &format!("{key}:indent"), ctx);
    }
}

fn c19(env: &Env, m: &mut Mon) {
    env.suite(m, "apply_one", env.n(60000, 600000), |r, m| {
        // a body with repetitions, so that context matters
        let pool: Vec<String> = (0..r.range(1, 5)).map(|_| if r.chance(1, 6) { String::new() } else { gen_words(r, 1, 4) }).collect();
        let n = r.range(1, 12) as usize;
        let ws: Vec<MLine> = (0..n)
            .map(|_| {
                let t = if r.chance(1, 2) { r.pick(&pool).clone() } else { gen_words(r, 1, 4) };
                line_from_text(r, &t, 2)
            })
            .collect();
        let texts: Vec<String> = ws.iter().map(|w| w.text()).collect();
        let pos = r.below(n);
        let ctxlen = r.below(pos + 1).min(r.below(5));
        let mut after: Vec<String> = texts[pos - ctxlen..pos].to_vec();
        let mut old = texts[pos].clone();
        let mut new = match r.below(8) {
            0 => String::new(),
            1 => gen_words(r, 1, 4),
            2 => old.clone(),
            3 if !old.is_empty() => {
                let k = r.below(old.chars().count());
                old.chars().take(k).collect()
            }
            4 if !old.is_empty() => {
                let k = r.below(old.chars().count());
                old.chars().skip(k).collect()
            }
            _ => mutate_text(r, &old),
        };
        let set_bold = r.chance(1, 4);
        if r.chance(1, 12) {
            old.push('!');
        }
        if r.chance(1, 12) {
            after.insert(0, gen_words(r, 1, 2));
        }
        if r.chance(1, 20) {
            new = old.clone();
        }
        let needle: Vec<String> = after.iter().cloned().chain([old.clone()]).collect();
        let hits: Vec<usize> = (0..n).filter(|i| i + needle.len() <= n && texts[*i..i + needle.len()] == needle[..]).collect();
        let useless = old == new && !set_bold;
        let expect_ok = hits.len() == 1 && !useless;
        let fx = Fixup { after: after.clone(), old: old.clone(), new: new.clone(), set_bold };
        let mut lines: Vec<IndentedLine> = ws.iter().map(|w| w.real()).collect();
        let snaps: Vec<_> = lines.iter().map(snap).collect();
        let ctx = || format!("{texts:?} after {after:?} old {old:?} new {new:?} bold {set_bold}");
        m.observe(&(&texts, &after, &old, &new, set_bold), true);
        m.sample(|| format!("{} -> {}", ctx(), if expect_ok { "applies" } else { "refused" }));
        let Some(res) = m.no_panic("apply", ctx, || fx.apply(&mut lines)) else { return };
        m.count(if expect_ok { "expected_apply" } else { "expected_refusal" }, 1);
        if !m.check(res.is_ok() == expect_ok, "apply:outcome", || format!("{}: {res:?}, {} matches", ctx(), hits.len())) {
            return;
        }
        m.check(lines.len() == n, "apply:line_count", ctx);
        let target = if expect_ok { Some(hits[0] + after.len()) } else { None };
        for (i, l) in lines.iter().enumerate() {
            if Some(i) == target {
                judge_fixed_line(m, "apply", &ws[i], l, &new, set_bold, &ctx);
            } else {
                m.check(snap(l) == snaps[i], "apply:other_line_changed", || format!("{} line {i}", ctx()));
            }
        }
    });
    let scratch = Scratch::new("c19");
    let dir = scratch.path.clone();
    env.suite(m, "save_load", env.n(3000, 20000), |r, m| {
        // fixups survive the file, are applied in order, and belong to their act only
        let nasty = ["", " lead", "trail ", "null", "~", "1.0", "true", "no", "- x", "a: b", "#c", "'q'", "\"dq\"", "„idézet”", "a\tb", "é\u{301}", "%", "&a", "*a", "!t", "|", ">", "@x", "`", "{a}", "[b]", "a #b", "2013. évi V. törvény", "\u{a0}", "🦀", "\\", "0x10", "1_000", "a:", "---", "..."];
        let s = |r: &mut Rng| if r.chance(1, 2) { r.pick(&nasty).to_string() } else { gen_words(r, 0, 5) };
        let id = ActIdentifier { year: 1900 + (m.case % 120) as i16, number: 1 + (m.case / 120 % 3990) as i32 };
        let other = ActIdentifier { year: id.year, number: 3999 };
        let base = dir.join(format!("s{}", m.case));
        let list: Vec<Fixup> = (0..r.range(0, 6)).map(|_| Fixup { after: (0..r.below(3)).map(|_| s(r)).collect(), old: s(r), new: s(r), set_bold: r.chance(1, 3) }).collect();
        m.observe(&format!("{list:?}"), !list.is_empty());
        let ctx = || format!("{id} {list:?}");
        let Some(res) = m.no_panic("save", ctx, || -> anyhow::Result<(Vec<Fixup>, Vec<Fixup>, Vec<Fixup>)> {
            let empty = Fixups::load_from(id, base.clone())?;
            let mut f = empty.clone();
            for x in &list {
                f.add(x.clone());
            }
            f.save()?;
            f.save()?; // saving again changes nothing
            Ok((empty.into(), Fixups::load_from(id, base.clone())?.into(), Fixups::load_from(other, base.clone())?.into()))
        }) else { return };
        match res {
            Ok((e, l, o)) => {
                m.check(e.is_empty(), "load:missing_file", ctx);
                m.eq(&l, &list, "save_load", ctx);
                m.check(o.is_empty(), "load:other_act", || format!("{} {o:?}", ctx()));
            }
            Err(e) => m.fail("save_load:error", format!("{}: {e}", ctx())),
        }
        // adding to a loaded set appends
        if let Ok(mut f) = Fixups::load_from(id, base.clone()) {
            let x = Fixup { after: vec![], old: "o".into(), new: s(r), set_bold: false };
            f.add(x.clone());
            if f.save().is_ok() {
                let l: Vec<Fixup> = Fixups::load_from(id, base.clone()).map(|f| f.into()).unwrap_or_default();
                m.check(l.len() == list.len() + 1 && l.last() == Some(&x) && l[..list.len()] == list[..], "append", ctx);
            }
        }
        let _ = std::fs::remove_dir_all(&base);
    });
    env.suite(m, "apply_sequence", env.n(5000, 50000), |r, m| {
        // a set is applied in order: each one sees the result of the ones before
        let n = r.range(2, 8) as usize;
        let ws: Vec<MLine> = (0..n).map(|i| { let t = clean(&gen_words(r, 1, 4)); line_from_text(r, &format!("{i} {t}"), 1) }).collect();
        let mut cur: Vec<String> = ws.iter().map(|w| w.text()).collect();
        let mut list = vec![];
        for k in 0..r.range(1, 5) {
            let i = r.below(n);
            let new = format!("{i} {k} {}", gen_words(r, 1, 3));
            let c = r.below(i + 1);
            list.push(Fixup { after: cur[i - c..i].to_vec(), old: cur[i].clone(), new: new.clone(), set_bold: false });
            cur[i] = new;
        }
        m.observe(&format!("{list:?}"), list.len() > 1);
        let base = dir.join(format!("q{}", m.case));
        let id = ActIdentifier { year: 2013, number: 5 };
        let mut lines: Vec<IndentedLine> = ws.iter().map(|w| w.real()).collect();
        let ctx = || format!("{list:?}");
        let Some(res) = m.no_panic("apply_all", ctx, || -> anyhow::Result<()> {
            let mut f = Fixups::load_from(id, base.clone())?;
            list.iter().for_each(|x| f.add(x.clone()));
            f.apply(&mut lines)
        }) else { return };
        m.check(res.is_ok(), "apply_all:refused", || format!("{} {res:?}", ctx()));
        m.eq(&lines.iter().map(|l| l.content().to_string()).collect::<Vec<_>>(), &cur, "apply_all:text", ctx);
    });
}

pub struct Scratch {
    pub path: PathBuf,
}
impl Scratch {
    pub fn new(tag: &str) -> Self {
        let base = crate::verif_dir().join("work/scratch");
        let path = base.join(format!("{tag}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&path);
        std::fs::create_dir_all(&path).unwrap();
        Scratch { path }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

// ------------------------------------------------------------------ C20

#[derive(serde::Serialize, serde::Deserialize, Default)]
struct EditSpec {
    edits: Vec<(usize, String)>,
    /// what an editor may do on its own
    strip_trailing: bool,
    crlf: bool,
    drop_line: Option<usize>,
    insert_line: Option<usize>,
    insert_text: String,
    /// saves by replacing the file, as many editors do
    replace_file: bool,
    no_final_newline: bool,
    /// lines left completely empty ("leave an empty line if you want to delete it")
    blank: Vec<usize>,
    /// a line whose level column was overwritten
    ruined: Option<(usize, String)>,
    exit_code: i32,
}

/// The stand-in for the user's editor: this binary under the name ed_*
pub fn fake_editor_main(argv0: &Path, args: &[String]) -> ! {
    let spec: EditSpec = serde_json::from_slice(&std::fs::read(argv0.with_extension("spec")).unwrap()).unwrap();
    let file = &args[1];
    let text = std::fs::read_to_string(file).unwrap();
    std::fs::write(argv0.with_extension("seen"), format!("{}\n{}", args.get(2).cloned().unwrap_or_default(), text)).unwrap();
    let mut lines: Vec<String> = text.split('\n').map(|s| s.to_string()).collect();
    if lines.last().map_or(false, |l| l.is_empty()) {
        lines.pop();
    }
    for (i, t) in &spec.edits {
        // keep the level column, retype the rest
        let head: String = lines[*i].chars().take(5).collect();
        lines[*i] = format!("{head}{t}");
    }
    for i in &spec.blank {
        lines[*i] = String::new();
    }
    if let Some((i, t)) = &spec.ruined {
        lines[*i] = t.clone();
    }
    if let Some(i) = spec.drop_line {
        lines.remove(i);
    }
    if let Some(i) = spec.insert_line {
        lines.insert(i, spec.insert_text.clone());
    }
    if spec.strip_trailing {
        lines.iter_mut().for_each(|l| *l = l.trim_end().to_string());
    }
    let nl = if spec.crlf { "\r\n" } else { "\n" };
    let mut out = lines.join(nl);
    if !spec.no_final_newline {
        out += nl;
    }
    if spec.replace_file {
        let other = format!("{file}.new");
        std::fs::write(&other, out).unwrap();
        std::fs::rename(&other, file).unwrap();
    } else {
        std::fs::write(file, out).unwrap();
    }
    std::process::exit(spec.exit_code);
}

fn c20(env: &Env, m: &mut Mon) {
    let scratch = Scratch::new("c20");
    // the editor keeps its files under the current directory and TMPDIR
    std::env::set_current_dir(&scratch.path).unwrap();
    std::fs::create_dir_all(scratch.path.join("tmp")).unwrap();
    std::env::set_var("TMPDIR", scratch.path.join("tmp"));
    let exe = std::env::current_exe().unwrap();
    let dir = scratch.path.clone();
    env.suite(m, "sessions", env.n(2500, 25000), |r, m| {
        let id = ActIdentifier { year: 1000 + (m.case % 8000) as i16, number: 1 + (m.case / 8000) as i32 };
        let distinct = r.chance(1, 2);
        let n = r.range(1, 14) as usize;
        let pool: Vec<String> = (0..3).map(|_| clean(&gen_words(r, 1, 2))).collect();
        let mut ws: Vec<MLine> = (0..n)
            .map(|i| {
                let t = if distinct {
                    format!("{} {i}", clean(&gen_words(r, 0, 4))).trim().to_string()
                } else if r.chance(1, 5) {
                    String::new()
                } else if r.chance(2, 3) {
                    r.pick(&pool).clone()
                } else {
                    clean(&gen_words(r, 1, 4))
                };
                let t = match r.below(6) {
                    0 if !distinct || r.chance(1, 3) => format!("„{t}"),
                    1 => format!("{t}”"),
                    _ => t,
                };
                line_from_text(r, &t, 2)
            })
            .collect();
        let body0: Vec<IndentedLine> = ws.iter().map(|w| w.real()).collect();
        let mut body = body0.clone();
        let ed = dir.join(format!("ed_{}", m.case));
        symlink(&exe, &ed).unwrap();
        let fixup_file = dir.join("data/fixups").join(id.year.to_string()).join(format!("{id}.yml"));
        let mut bold_lines: HashSet<usize> = HashSet::new();
        for session in 0..r.range(1, 3) {
            let act = ActRawText { identifier: id, subject: String::new(), publication_date: Default::default(), body: body.clone() };
            let mut spec = EditSpec { strip_trailing: r.chance(1, 3), crlf: r.chance(1, 12), no_final_newline: r.chance(1, 8), replace_file: r.chance(1, 3), exit_code: 0, ..Default::default() };
            let texts: Vec<String> = body.iter().map(|l| l.content().to_string()).collect();
            let mut want: Vec<(String, bool)> = texts.iter().map(|t| (t.clone(), false)).collect();
            for k in 0..r.below(5) {
                let i = r.below(n);
                let mut new = match r.below(6) {
                    0 if !distinct || session == 0 => String::new(),
                    1 => texts[i].clone(),
                    2 => clean(&mutate_text(r, &texts[i])),
                    _ => clean(&gen_words(r, 1, 4)),
                };
                if distinct && (new != texts[i]) {
                    new = format!("{new} s{session}k{k}i{i}").trim().to_string();
                }
                let b = r.chance(1, 5);
                spec.edits.retain(|(j, _)| *j != i);
                spec.edits.push((i, format!("{}{}{new}", if b { "<BOLD>" } else { "" }, " ".repeat(r.below(4)))));
                want[i] = (new, b);
            }
            if (!distinct || session == 0) && r.chance(1, 6) {
                let i = r.below(n);
                spec.edits.retain(|(j, _)| *j != i);
                spec.blank.push(i);
                want[i] = (String::new(), false);
            }
            if r.chance(1, 12) {
                // not judged beyond: no crash
                spec.ruined = Some((r.below(n), r.pick(&["ab", "áé", "áéő", "x", "1 ő", "-", "   őx", "12"]).to_string()));
            }
            let ruined = spec.ruined.is_some();
            // an empty last line without its line end is no line at all
            spec.no_final_newline &= !spec.blank.contains(&(n - 1));
            let resize = r.chance(1, 10);
            if resize {
                if r.chance(1, 2) && n > 1 {
                    spec.drop_line = Some(r.below(n));
                } else {
                    let at = r.below(n + 1);
                    spec.insert_line = Some(at);
                    spec.insert_text = r.pick(&["     inserted", "   0 uj sor", "   0 ", "   0", "     ", ""]).to_string();
                    spec.no_final_newline &= !(at == n && spec.insert_text.trim().is_empty());
                }
            }
            std::fs::write(ed.with_extension("spec"), serde_json::to_vec(&spec).unwrap()).unwrap();
            let before_file = std::fs::read(&fixup_file).ok();
            let edits = spec.edits.clone();
            let ctx = || format!("{texts:?} edits {edits:?} blank {:?} ruined {:?} strip {} crlf {} replaced {} drop {:?} insert {:?} {:?}", spec.blank, spec.ruined, spec.strip_trailing, spec.crlf, spec.replace_file, spec.drop_line, spec.insert_line, spec.insert_text);
            m.observe(&(&texts, &edits), !edits.is_empty());
            let Some(res) = m.no_panic("editor", ctx, || run_fixup_editor(&act, ed.to_str().unwrap())) else { break };
            // what the editor was shown
            let seen = std::fs::read_to_string(ed.with_extension("seen")).unwrap_or_default();
            let mut it = seen.split('\n');
            let plus = it.next().unwrap_or("").to_string();
            let mut level = 0i64;
            let mut first_bad = None;
            let mut after_unquoted = None;
            for (i, t) in texts.iter().enumerate() {
                level += t.matches(['„', '“']).count() as i64 - t.matches('”').count() as i64;
                if level < 0 && first_bad.is_none() {
                    first_bad = Some(i);
                }
                if level <= 0 {
                    after_unquoted = Some(i + 1);
                }
                let l = it.next().unwrap_or("<missing>");
                m.check(l.len() >= 5 && l.is_char_boundary(5) && l[5..].trim() == *t, "shown:text", || format!("{}: {l:?}", ctx()));
                m.check(l.trim().split(' ').next() == Some(&level.to_string()), "shown:level", || format!("{}: {l:?} level {level}", ctx()));
            }
            if ruined {
                m.count("level_column_overwritten", 1);
                if res.is_err() {
                    m.check(std::fs::read(&fixup_file).ok() == before_file, "refused:stored", ctx);
                } else if let (Some((i, t)), false) = (&spec.ruined, resize) {
                    // accepted: then what was typed over the column cannot be silently lost
                    let lost = t.parse::<i64>().is_err() && t.len() < 5;
                    let rep = m.no_panic("replay", ctx, || -> anyhow::Result<Vec<IndentedLine>> {
                        let mut b = body0.clone();
                        Fixups::load(id)?.apply(&mut b)?;
                        Ok(b)
                    });
                    if let Some(Ok(b)) = rep {
                        m.check(!lost || b[*i].content() == t.trim(), "ruined:lost", || format!("{}: got {:?}", ctx(), b[*i].content()));
                        for (j, w) in want.iter().enumerate().filter(|(j, _)| j != i) {
                            m.check(b[j].content() == w.0, "ruined:others", || format!("{}: line {j} {:?}", ctx(), b[j].content()));
                        }
                    } else {
                        m.fail("replay:refused", ctx());
                    }
                }
                break;
            }
            m.eq(&plus, &format!("+{}", first_bad.or(after_unquoted).unwrap_or(0) + 1), "shown:position", ctx);
            match res {
                Ok(()) => {
                    m.count("sessions_ok", 1);
                    if !m.check(!resize, "resize_accepted", ctx) {
                        break;
                    }
                    // replaying the stored fixups on the ORIGINAL body reproduces what was typed
                    let Some(rep) = m.no_panic("replay", ctx, || -> anyhow::Result<Vec<IndentedLine>> {
                        let mut b = body0.clone();
                        Fixups::load(id)?.apply(&mut b)?;
                        Ok(b)
                    }) else { break };
                    match rep {
                        Ok(b) => {
                            let got: Vec<String> = b.iter().map(|l| l.content().to_string()).collect();
                            m.eq(&got, &want.iter().map(|w| w.0.clone()).collect::<Vec<_>>(), "replay:text", ctx);
                            for (i, (t, bold)) in want.iter().enumerate() {
                                if *bold && !t.is_empty() {
                                    m.check(b[i].is_bold(), "replay:bold", || format!("{} line {i}", ctx()));
                                    bold_lines.insert(i);
                                } else if !*bold && *t == texts[i] && !bold_lines.contains(&i) {
                                    m.check(snap(&b[i]) == snap(&body[i]), "replay:untouched", || format!("{} line {i}", ctx()));
                                }
                            }
                            body = b;
                        }
                        Err(e) => {
                            m.fail("replay:refused", format!("{}: {e:?}", ctx()));
                            break;
                        }
                    }
                    let stored = std::fs::read(&fixup_file).unwrap_or_default();
                    m.check(!stored.is_empty(), "stored", ctx);
                }
                Err(e) => {
                    m.count("sessions_refused", 1);
                    // refused only when the number of lines changed or a changed line has no unique context
                    let changed: Vec<usize> = (0..n).filter(|i| want[*i].1 || want[*i].0 != texts[*i]).collect();
                    let unique = |i: usize| (0..=i.min(10)).any(|c| texts.windows(c + 1).filter(|w| *w == &texts[i - c..=i]).count() == 1);
                    if !resize && (distinct || changed.is_empty() || changed.len() == 1 && unique(changed[0])) {
                        m.fail("refused", format!("{}: {e:?}", ctx()));
                    }
                    m.check(std::fs::read(&fixup_file).ok() == before_file, "refused:stored", ctx);
                    break;
                }
            }
            m.sample(ctx);
        }
        ws.clear();
        for e in ["spec", "seen"] {
            let _ = std::fs::remove_file(ed.with_extension(e));
        }
        let _ = std::fs::remove_file(&ed);
        let _ = std::fs::remove_file(&fixup_file);
    });
    // bodies with blanks around the lines: refused, or handled exactly
    env.suite(m, "untrimmed", env.n(250, 3000), |r, m| {
        let id = ActIdentifier { year: 1000 + (m.case % 8000) as i16, number: 500000 + (m.case / 8000) as i32 };
        let n = r.range(1, 6) as usize;
        let odd = r.below(n);
        let body0: Vec<IndentedLine> = (0..n)
            .map(|i| {
                let t = format!("{}{i}", clean(&gen_words(r, 0, 3)));
                let t = if i != odd {
                    t
                } else {
                    match r.below(3) {
                        0 => format!(" {t}"),
                        1 => format!("{t} "),
                        _ => format!("  {t} "),
                    }
                };
                line_from_text(r, &t, 2).real()
            })
            .collect();
        let texts: Vec<String> = body0.iter().map(|l| l.content().to_string()).collect();
        let ed = dir.join(format!("ed_u{}", m.case));
        symlink(&exe, &ed).unwrap();
        let mut spec = EditSpec::default();
        let mut want = texts.clone();
        if r.chance(2, 3) {
            let i = r.below(n);
            spec.edits.push((i, format!("uj {i}")));
            want[i] = format!("uj {i}");
        }
        std::fs::write(ed.with_extension("spec"), serde_json::to_vec(&spec).unwrap()).unwrap();
        let act = ActRawText { identifier: id, subject: String::new(), publication_date: Default::default(), body: body0.clone() };
        let ctx = || format!("{texts:?} edits {:?}", spec.edits);
        m.observe(&(&texts, &spec.edits), true);
        let fixup_file = dir.join("data/fixups").join(id.year.to_string()).join(format!("{id}.yml"));
        match m.no_panic("editor", ctx, || run_fixup_editor(&act, ed.to_str().unwrap())) {
            Some(Ok(())) => {
                m.count("untrimmed_accepted", 1);
                let mut b = body0.clone();
                let rep = m.no_panic("replay", ctx, || Fixups::load(id).and_then(|f| f.apply(&mut b)));
                m.check(matches!(rep, Some(Ok(_))), "untrimmed:replay", ctx);
                let got: Vec<String> = b.iter().map(|l| l.content().to_string()).collect();
                m.eq(&got, &want, "untrimmed:text", ctx);
            }
            Some(Err(_)) => {
                m.count("untrimmed_refused", 1);
                m.check(!fixup_file.exists(), "untrimmed:stored", ctx);
            }
            None => {}
        }
        for e in ["spec", "seen"] {
            let _ = std::fs::remove_file(ed.with_extension(e));
        }
        let _ = std::fs::remove_file(&ed);
        let _ = std::fs::remove_file(&fixup_file);
    });
    let left = std::fs::read_dir(scratch.path.join("tmp")).map(|d| d.count()).unwrap_or(0);
    m.check(left == 0, "temp_files_left", || format!("{left} files"));
    std::env::set_current_dir("/").unwrap();
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C15",
            level: "exploration",
            rule: "random positioned lines cut at every (short) or sampled (long) index pair, glued, joined; distinct by text",
            assumptions: &["positions compared to 1e-6"],
            run: c15,
        },
        Check {
            id: "C18",
            level: "exploration",
            rule: "random trimmed single-spaced lines, pages and raw acts dumped in the tagged text format and read back; distinct by text, position and flags",
            assumptions: &["line texts are trimmed, single spaced and free of the tag strings, as the PDF reader makes them"],
            run: c18,
        },
        Check {
            id: "C19",
            level: "exploration",
            rule: "random bodies with repeated lines and random fixups (applicable, ambiguous, missing, useless), files of fixups; distinct by body and fixup",
            assumptions: &[],
            run: c19,
        },
        Check {
            id: "C20",
            level: "exploration",
            rule: "histories of 1..3 editing sessions through a scripted stand-in editor over random bodies with repeated lines; distinct by body and edits",
            assumptions: &["the stand-in editor keeps the level column, may strip trailing blanks, change line ends or the number of lines"],
            run: c20,
        },
    ]
}
