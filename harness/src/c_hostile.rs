//! C22: hostile input of every kind, in processes of their own. A panic raised by the repository's
//! code, a hang (by CPU time), a stack overflow or any other death of the process is a violation;
//! what the PDF library does on damaged files is not.
use std::{
    collections::HashSet,
    path::{Path, PathBuf},
    process::Command,
    time::Instant,
};

use hun_law::{
    fixups::{Fixup, Fixups},
    identifier::{
        range::IdentifierRange, ActIdentifier, AlphabeticIdentifier, ArticleIdentifier, HungarianIdentifierChar, IdentifierCommon, NumericIdentifier,
        ParagraphIdentifier, PrefixedAlphabeticIdentifier,
    },
    mk_downloader::MkIssue,
    output::{CliOutput, OutputFormat},
    parser::{
        mk_act_section::{parse_mk_pages_into_acts, ActRawText},
        pdf::{parse_pdf, CropBox, PageOfLines},
        structure::parse_act_structure,
    },
    reference::{to_element::ReferenceToElement, Reference},
    semantic_info::SemanticInfo,
    structure::*,
    util::{
        compact_string::CompactString,
        hun_str::{text_to_month_hun, FromHungarianString},
        indentedline::IndentedLine,
        singleton_yaml,
        walker::{SAEVisitor, SAEVisitorMut, WalkSAEMut},
    },
};
use serde_json::Value;

use crate::{
    acts, c_issue, c_line::Scratch, c_pdf, c_struct,
    c_tree::{Mode, G},
    lines::MLine,
    mon::{guard, Env, Mon, Panic, Progress, Violation, HUNG},
    pdfgen::{Body, Doc, FontSpec, Knobs, Page, PdfWriter},
    rng::Rng,
    Check,
};

const FORMATS: [OutputFormat; 5] = [OutputFormat::Plain, OutputFormat::TestPlain, OutputFormat::Colored, OutputFormat::Json, OutputFormat::Yaml];

/// Run the code under test; only a panic that its own code is responsible for counts.
fn judge<T>(m: &mut Mon, key: &str, ctx: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
    match guard(f) {
        Ok(v) => Some(v),
        Err(p) if blames_pdf_library(&p) => {
            m.count("panics_of_the_pdf_library", 1);
            None
        }
        Err(p) => {
            let mut c = ctx();
            if c.chars().count() > 4000 {
                c = c.chars().take(4000).collect::<String>() + "…";
            }
            m.fail(&format!("{key}:panic"), format!("{p}\n  on {c}"));
            None
        }
    }
}

fn blames_pdf_library(p: &Panic) -> bool {
    p.third_party() && ["/pdf-0", "/pdf_", "/fax-", "/jpeg-decoder", "/weezl", "/deflate", "/inflate", "/libflate", "/istring", "/postscript", "/cachelib", "/globalcache", "/datasize"].iter().any(|c| p.file.contains(c))
}

// ------------------------------------------------------------------ what is done with whatever was accepted

struct Walk(u64);
impl SAEVisitor for Walk {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, p: &Reference, _: &SubArticleElement<IT, CT>) -> anyhow::Result<()> {
        self.0 += p.to_string().len() as u64 + format!("{p:?}").len() as u64;
        Ok(())
    }
}
impl SAEVisitorMut for Walk {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, p: &Reference, _: &mut SubArticleElement<IT, CT>) -> anyhow::Result<()> {
        self.0 += p.to_string().len() as u64;
        Ok(())
    }
}

fn use_ref(r: &Reference) -> usize {
    let mut n = r.to_string().len() + format!("{r:?}").len() + r.compact_string().to_string().len();
    n += r.first_in_range().to_string().len() + r.last_in_range().to_string().len() + r.parent().to_string().len() + r.without_act().to_string().len();
    n += r.contains(&r.parent()) as usize + r.is_parent_of(r) as usize;
    n += Reference::make_range(&r.first_in_range(), &r.last_in_range()).is_ok() as usize;
    n += Reference::make_range(&r.last_in_range(), &r.first_in_range()).is_ok() as usize;
    n += r.relative_to(&r.parent()).is_ok() as usize + r.parent().relative_to(r).is_ok() as usize;
    n
}

pub fn use_act(r: &mut Rng, m: &mut Mon, act: Act) {
    let ctx = || format!("{act:?}");
    for f in FORMATS {
        let width = match r.below(6) {
            0 => 0,
            1 => r.below(12),
            2 => usize::MAX,
            3 => r.below(100_000),
            _ => 80,
        };
        let mut buf = vec![];
        if let Some(Ok(())) = judge(m, "output", ctx, || act.clone().cli_output(width, f, &mut buf)) {
            m.check(std::str::from_utf8(&buf).is_ok(), "output:utf8", ctx);
            m.count("output_bytes", buf.len() as u64);
        }
    }
    if let Some(Ok(s)) = judge(m, "to_string", ctx, || singleton_yaml::to_string(&act)) {
        valid(m, &mut [s.as_str()].into_iter());
    }
    judge(m, "walk", ctx, || {
        let mut w = Walk(0);
        let a = act.walk_saes(&mut w).is_ok();
        let mut copy = act.clone();
        (a, copy.walk_saes_mut(&mut w).is_ok(), w.0)
    });
    judge(m, "headers", ctx, || {
        let mut n = act.reference().to_string().len() + act.identifier.to_string().len();
        for a in act.articles() {
            n += a.reference().to_string().len() + (act.article(a.identifier).is_some() as usize);
        }
        for c in &act.children {
            n += match c {
                ActChild::StructuralElement(s) => s.header_string().map(|s| s.len()).unwrap_or(0),
                ActChild::Subtitle(s) => format!("{s:?}").len(),
                _ => 0,
            };
        }
        n
    });
    let mut copy = act.clone();
    judge(m, "convert", ctx, || copy.convert_block_amendments().is_ok());
    judge(m, "convert:output", || format!("{copy:?}"), || copy.clone().cli_output(r.below(120), OutputFormat::Plain, &mut vec![]).is_ok());
}

/// Every text that comes out is text
fn valid(m: &mut Mon, texts: &mut dyn Iterator<Item = &str>) {
    let mut n = 0;
    for t in texts {
        n += t.len();
        // a copy of the bytes, so that nothing is taken for granted
        let copy: Vec<u8> = std::hint::black_box(t.as_bytes().to_vec());
        m.check(std::str::from_utf8(&copy).is_ok(), "invalid_text", || format!("{copy:?}"));
    }
    m.count("text_bytes_validated", n as u64);
}

fn use_raw(r: &mut Rng, m: &mut Mon, raw: &ActRawText) {
    let ctx = || acts::show(raw);
    valid(m, &mut raw.body.iter().map(|l| l.content()).chain([raw.subject.as_str()]));
    for f in FORMATS {
        judge(m, "raw:output", ctx, || raw.clone().cli_output(80, f, &mut vec![]).is_ok());
    }
    let parsed = judge(m, "structure", ctx, || parse_act_structure(raw));
    match parsed {
        Some(Ok(act)) => {
            m.count("acts_accepted", 1);
            if r.chance(1, 2) {
                use_act(r, m, act);
            } else {
                let mut act = act;
                judge(m, "convert", ctx, || act.convert_block_amendments().is_ok());
            }
        }
        Some(Err(_)) => m.count("acts_refused", 1),
        None => {}
    }
}

fn use_pages(r: &mut Rng, m: &mut Mon, pages: Vec<PageOfLines>) {
    m.count("pages_read", pages.len() as u64);
    valid(m, &mut pages.iter().flat_map(|p| p.lines.iter().map(|l| l.content())));
    let ctx = || pages.iter().flat_map(|p| p.lines.iter().map(|l| format!("{}{:?}\n", l.indent(), l.content()))).collect::<String>();
    if let Some(Ok(acts)) = judge(m, "issue", ctx, || parse_mk_pages_into_acts(&pages)) {
        m.count("issues_accepted", 1);
        for a in &acts {
            use_raw(r, m, a);
        }
    }
    let all: Vec<IndentedLine> = pages.iter().flat_map(|p| p.lines.iter().cloned()).collect();
    if r.chance(1, 2) {
        let raw = ActRawText { body: all, ..c_struct::raw_of(&[]) };
        use_raw(r, m, &raw);
    }
    let f = *r.pick(&FORMATS);
    judge(m, "pages:output", String::new, || pages.cli_output(80, f, &mut vec![]).is_ok());
}

// ------------------------------------------------------------------ PDFs

const WEIRD: &[&str] = &[
    "0", "-1", "1e5", "99999999999999999999", "-99999999999999999999", "340282350000000000000000000000000000000", "-0.0", "0.00000000000000000001", ".", "-", "--5",
    "1.2.3", "2147483647", "-2147483648", "4294967296", "65536", "1000000", "3.4028236e38", "null", "true", "()", "[]", "/N", "<FEFF>",
];
const OPS: &[&str] = &[
    "q", "Q", "Q Q Q", "BT", "ET", "EMC", "EMC EMC", "/Span <</ActualText(x)>> BDC", "/Span <</ActualText<FEFF>>> BDC", "/Span <</ActualText<FE>>> BDC",
    "/Span <</ActualText<FEFFD800>>> BDC", "/Span /P0 BDC", "/P BMC", "T*", "[] TJ", "() Tj", "<0> Tj", "<00000> Tj", "(a) '", "1 2 (b) \"", "/F0 0 Tf", "/F1 -5 Tf",
    "/Nope 10 Tf", "/Nope Do", "/Nope gs", "0 0 0 0 0 0 Tm", "1 0 0 1 0 0 Tm", "0 Tz", "-100 Tz", "99999999999999999999999999999999999999999999 TL", "1000000000000 Tc",
    "-1000000000000 Tw", "99999999999999999999999999999999999999999 0 Td", "99999999999999999999999999999999 99999999999999999999999999999999 TD", "5 Ts",
    "[(a) -99999999999999999999999999999999999999 (b) 1 2 3 (c)] TJ", "[[(a)] /X null] TJ", "1 0 0 1 1e38 1e38 Tm", "cm", "Tf", "Td", "Tm", "Tj", "TJ", "BI ID EI", "3 Tr", "/X0 Do", "/X1 Do",
];

fn mutate_content(r: &mut Rng, data: &mut Vec<u8>) {
    let mut ops: Vec<Vec<u8>> = data.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
    for _ in 0..r.range(1, 5) {
        let i = r.below(ops.len());
        match r.below(9) {
            0 => {
                ops.remove(i);
                if ops.is_empty() {
                    ops.push(vec![]);
                }
            }
            1 => {
                let o = ops[i].clone();
                let j = r.below(ops.len());
                ops.insert(j, o);
            }
            2 => {
                let j = r.below(ops.len());
                ops.swap(i, j);
            }
            3 | 4 | 5 => ops.insert(i, r.pick(OPS).as_bytes().to_vec()),
            6 | 7 => {
                // a number becomes a strange one
                let toks: Vec<Vec<u8>> = ops[i].split(|c| *c == b' ').map(|t| t.to_vec()).collect();
                let nums: Vec<usize> = toks.iter().enumerate().filter(|(_, t)| t.first().map_or(false, |c| c.is_ascii_digit() || *c == b'-')).map(|(k, _)| k).collect();
                if !nums.is_empty() {
                    let k = *r.pick(&nums);
                    let mut toks = toks;
                    toks[k] = r.pick(WEIRD).as_bytes().to_vec();
                    ops[i] = toks.join(&b' ');
                }
            }
            _ => {
                // a byte of a string or name
                if !ops[i].is_empty() {
                    let k = r.below(ops[i].len());
                    ops[i][k] = r.below(256) as u8;
                }
            }
        }
    }
    *data = ops.join(&b'\n');
    if r.chance(1, 10) {
        data.truncate(r.below(data.len() + 1));
    }
}

fn mutate_dict(r: &mut Rng, d: &mut Vec<u8>, leaves: &[usize]) {
    let text = String::from_utf8_lossy(d).to_string();
    // words of digits outside references, and whole names
    let b = text.as_bytes();
    let mut at = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_alphanumeric()) {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'.') {
                j += 1;
            }
            at.push((i, j, b'n'));
            i = j;
        } else if b[i] == b'/' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            at.push((i, j, b'/'));
            i = j.max(i + 1);
        } else {
            i += 1;
        }
    }
    if at.is_empty() {
        return;
    }
    let (a, e, k) = *r.pick(&at);
    let is_ref = text[e..].starts_with(" 0 R");
    let new = match k {
        // (a cycle of objects would be the PDF library's business)
        b'n' if is_ref => r.pick(leaves).to_string(),
        b'n' => {
            // (the PDF library makes room for as many glyph widths as the numbers here ask for)
            let w = *r.pick(WEIRD);
            if w.len() > 6 && w.parse::<u64>().is_ok() { "65535".to_string() } else { w.to_string() }
        }
        _ => r.pick(&["/FirstChar", "/LastChar", "/Widths", "/W", "/DW", "/Encoding", "/Differences", "/Identity-H", "/WinAnsiEncoding", "/MacExpertEncoding", "/SymbolEncoding", "/ToUnicode", "/Type0", "/TrueType", "/Type1", "/Type3", "/MMType1", "/CIDFontType0", "/f_f_i", "/uni", "/u110000", "/X"]).to_string(),
    };
    *d = format!("{}{}{}", &text[..a], new, &text[e..]).into_bytes();
}

fn hostile_doc(r: &mut Rng) -> Vec<u8> {
    let n = r.range(1, 4);
    let fonts: Vec<FontSpec> = (0..n).map(|i| FontSpec::gen(r, i as usize)).collect();
    let pages: Vec<Page> = (0..r.range(1, 2)).map(|_| Page::gen(r, &fonts, 6)).collect();
    let k = Knobs { forms: r.chance(2, 3), gs_fonts: r.chance(1, 2), inherit_resources: r.chance(1, 6), direct_fonts: r.chance(1, 3) };
    Doc::new(&fonts, k)
        .document_with(r, &pages, true, |r, w: &mut PdfWriter| {
            let objs = w.objs.len();
            let mut leaves: Vec<usize> = (1..=objs).filter(|i| match &w.objs[i - 1] {
                Some(Body::Stream { dict, .. }) => !dict.contains(" 0 R"),
                Some(Body::Plain(d)) => !String::from_utf8_lossy(d).contains(" 0 R"),
                None => false,
            }).collect();
            leaves.push(objs + 1);
            for _ in 0..r.range(1, 4) {
                let i = r.below(objs);
                match w.objs[i].as_mut() {
                    Some(Body::Stream { data, .. }) => mutate_content(r, data),
                    // the page tree itself is the PDF library's business
                    Some(Body::Plain(d)) if !String::from_utf8_lossy(d).contains("/Kids") && !String::from_utf8_lossy(d).contains("/Catalog") => mutate_dict(r, d, &leaves),
                    _ => {}
                }
            }
        })
        .0
}

fn read_pdf(r: &mut Rng, m: &mut Mon, key: &str, pdf: &[u8]) {
    let crop = if r.chance(3, 4) { CropBox::default() } else { CropBox { bottom: f32::MIN, left: -1000.0, top: f32::MAX, right: 1000.0 } };
    let ctx = || String::from_utf8_lossy(pdf).to_string();
    m.observe(pdf, true);
    match judge(m, key, ctx, || parse_pdf(pdf, crop)) {
        Some(Ok(pages)) => {
            m.count("pdfs_accepted", 1);
            use_pages(r, m, pages);
        }
        Some(Err(_)) => m.count("pdfs_refused", 1),
        None => {}
    }
}

fn pdf_objects(env: &Env, m: &mut Mon) {
    env.suite(m, "pdf_objects", env.n(16000, 300000), |r, m| {
        let pdf = hostile_doc(r);
        read_pdf(r, m, "pdf", &pdf);
    });
}

fn pdf_bytes(env: &Env, m: &mut Mon) {
    let mut seeds: Vec<Vec<u8>> = c_pdf::corpus_files().into_iter().map(|f| f.1).filter(|f| f.len() < 400_000).collect();
    for k in 0..24 {
        let mut r = Rng::new(&[env.seed, 77, k]);
        let fonts: Vec<FontSpec> = (0..2).map(|i| FontSpec::gen(&mut r, i)).collect();
        let pages = vec![Page::gen(&mut r, &fonts, 5)];
        seeds.push(Doc::new(&fonts, Knobs { forms: true, ..Default::default() }).document(&mut r, &pages, false).0);
    }
    env.suite(m, "pdf_bytes", env.n(60000, 1000000), |r, m| {
        let mut d = if r.chance(1, 8) { seeds[r.below(seeds.len())].clone() } else { seeds[seeds.len() - 1 - r.below(24)].clone() };
        for _ in 0..r.range(1, 6) {
            // mostly in place, so that the objects are still found
            let i = r.below(d.len());
            match r.below(30) {
                0 => d.truncate(i.max(1)),
                1 => {
                    let n = r.below(40).min(d.len() - i);
                    d.drain(i..i + n);
                    if d.is_empty() {
                        d.push(b'%');
                    }
                }
                2 => {
                    let n = r.below(60).min(d.len() - i);
                    let piece = d[i..i + n].to_vec();
                    let j = r.below(d.len());
                    d.splice(j..j, piece);
                }
                3 => {
                    let w = r.pick(WEIRD).as_bytes().to_vec();
                    d.splice(i..i, w);
                }
                4..=9 => {
                    let w = r.pick(WEIRD).as_bytes().to_vec();
                    for (k, c) in w.into_iter().enumerate() {
                        if i + k < d.len() {
                            d[i + k] = c;
                        }
                    }
                }
                10..=19 => d[i] = *r.pick(b"0123456789 /<>[]()-.RTfj"),
                _ => d[i] = r.below(256) as u8,
            }
        }
        read_pdf(r, m, "pdf", &d);
    });
}

// ------------------------------------------------------------------ lines and issues

fn odd_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(5) {
            0 => r.below(0x250) as u32,
            1 => r.below(0x3000) as u32,
            2 => r.below(0x110000) as u32,
            3 => *r.pick(&['„', '”', '“', '§', '(', ')', '[', ']', '-', ':', ' ', '.', '/', '*', '\u{a0}', '\u{200b}', '\u{301}', 'ﬁ', 'İ', 'ß', 'ǆ']) as u32,
            _ => 0x1F300 + r.below(0x300) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

fn odd_string(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(20, 400),
        _ => r.range(1, 12),
    };
    (0..n).map(|_| odd_char(r)).collect()
}

/// Sprinkle strange characters and positions over a body
fn spoil(r: &mut Rng, v: &mut [MLine]) {
    for _ in 0..r.range(0, 4) {
        if v.is_empty() {
            return;
        }
        let i = r.below(v.len());
        let l = &mut v[i];
        match r.below(5) {
            0 => {
                let k = r.below(l.chars.len() + 1);
                let x = l.chars.get(k).map_or(10.0, |c| c.0);
                l.chars.insert(k, (x, odd_char(r), r.chance(1, 2)));
            }
            1 => {
                let t = odd_string(r);
                *l = acts::plain_line(&t, r.f(-50.0, 600.0), r.chance(1, 2), r.chance(1, 2));
            }
            2 => {
                let x = *r.pick(&[0.0, -1e6, 1000.0, 1e-9, -0.0, 1e19, 1e300, -1e300, 1e10]);
                l.chars.iter_mut().for_each(|c| c.0 = x);
            }
            3 => {
                // a header and nothing else
                let t = acts::hostile_header(r);
                *l = acts::plain_line(&t, 40.0, r.chance(1, 4), false);
            }
            _ => {
                let k = r.below(l.chars.len() + 1);
                l.chars.truncate(k);
            }
        }
    }
}

fn bodies(env: &Env, m: &mut Mon) {
    let docs = c_struct::corpus_docs("structure");
    env.suite(m, "bodies", env.n(16000, 400000), |r, m| {
        let mut b = match r.below(4) {
            0 => {
                let cfg = acts::Cfg { quotes: 2, blocks: 3, tricky: 2, long: false };
                let act = acts::gen_act(r, &cfg, 6);
                acts::typeset(r, &act).body.iter().map(acts::model_of).collect()
            }
            1 if r.chance(1, 6) => docs[r.below(docs.len())].1.body.iter().take(60).map(acts::model_of).collect(),
            _ => c_struct::hostile_body(r),
        };
        if r.chance(2, 3) {
            c_struct::mutate_body(r, &mut b);
        }
        if r.chance(1, 2) {
            spoil(r, &mut b);
        }
        if r.chance(1, 40) {
            b.clear();
        }
        let raw = c_struct::raw_of(&b);
        m.observe(&acts::show(&raw), b.len() > 1);
        use_raw(r, m, &raw);
    });
    env.suite(m, "amendments", env.n(20000, 300000), |r, m| {
        let (an, mut q) = crate::c_amend::gen_amendment(r);
        for _ in 0..r.below(3) {
            c_struct::mutate_body(r, &mut q);
        }
        if r.chance(1, 2) {
            spoil(r, &mut q);
        }
        if r.chance(1, 20) {
            q.clear();
        }
        if r.chance(1, 6) {
            q = crate::c_amend::gen_amendment(r).1;
        }
        let ctx = || format!("{an:?}\n{}", crate::c_amend::show_lines(&q));
        m.observe(&ctx(), true);
        let mut p = crate::c_amend::announced_paragraph(r, &an, &q);
        judge(m, "amendment", ctx, || p.convert_block_amendments().is_ok());
    });
    env.suite(m, "issues", env.n(2500, 60000), |r, m| {
        let typeset = r.chance(1, 4);
        let mut pages: Vec<Vec<MLine>> = c_issue::issue_pages(r, typeset).iter().map(|p| p.lines.iter().map(acts::model_of).collect()).collect();
        for _ in 0..r.range(1, 4) {
            if pages.is_empty() {
                break;
            }
            let i = r.below(pages.len());
            match r.below(7) {
                0 => {
                    pages.remove(i);
                }
                1 => pages[i].clear(),
                2 => {
                    let k = r.below(pages[i].len() + 1);
                    pages[i].truncate(k);
                }
                3 => {
                    let j = r.below(pages.len());
                    pages.swap(i, j);
                }
                4 => {
                    let p = pages[i].clone();
                    pages.push(p);
                }
                5 => spoil(r, &mut pages[i]),
                _ => c_struct::mutate_body(r, &mut pages[i]),
            }
        }
        // strange dates
        if r.chance(1, 4) {
            for l in pages.iter_mut().take(1).flatten() {
                let t = l.text();
                if t.contains(". ") && r.chance(1, 2) {
                    let y = *r.pick(&["0", "99999999999", "2020", "-5", "262144", "9999", "32768", ""]);
                    let d = *r.pick(&["0", "31", "32", "4294967296", "-1", "255", "256", ""]);
                    let mo = *r.pick(&["február", "június", "smarch", "", "december"]);
                    *l = acts::plain_line(&format!("{y}. {mo} {d}., kedd"), 50.0, false, false);
                }
            }
        }
        let real: Vec<PageOfLines> = pages.iter().map(|p| PageOfLines { lines: p.iter().map(|l| l.real()).collect() }).collect();
        m.observe(&format!("{:?}", pages.iter().flatten().map(|l| l.text()).collect::<Vec<_>>()), true);
        use_pages(r, m, real);
    });
    env.suite(m, "fixups", env.n(20000, 300000), |r, m| {
        let b = c_struct::hostile_body(r);
        let mut lines: Vec<IndentedLine> = b.iter().map(|l| l.real()).collect();
        let pick = |r: &mut Rng| match r.below(4) {
            0 => odd_string(r),
            1 => String::new(),
            _ => lines[r.below(lines.len())].content().to_string(),
        };
        let f = Fixup { after: (0..r.below(3)).map(|_| pick(r)).collect(), old: pick(r), new: pick(r), set_bold: r.chance(1, 4) };
        let ctx = || format!("{f:?} on {b:?}");
        m.observe(&ctx(), true);
        judge(m, "fixup", ctx, || f.apply(&mut lines).is_ok());
        let raw = ActRawText { body: lines, ..c_struct::raw_of(&[]) };
        judge(m, "fixup:output", ctx, || raw.clone().cli_output(80, OutputFormat::TestPlain, &mut vec![]).is_ok());
        judge(m, "fixup:parse", ctx, || parse_act_structure(&raw).is_ok());
        // a line cut anywhere
        let l = b[r.below(b.len())].real();
        let ends = [0, 1, -1, i64::MIN, i64::MAX, i64::MIN + 1, l.len() as i64, -(l.len() as i64), l.len() as i64 + 1];
        let (x, y) = (*r.pick(&ends), *r.pick(&ends));
        let ctx = || format!("{:?} cut at {x} {y}", l.content());
        judge(m, "slice", ctx, || (l.slice(x, Some(y)).len(), l.slice(x, None).len()));
        if x != i64::MIN {
            judge(m, "indent_at", ctx, || l.indent_at(x));
        }
    });
}

// ------------------------------------------------------------------ stored data

fn odd_value(r: &mut Rng) -> Value {
    match r.below(10) {
        0 => Value::Null,
        1 => Value::Bool(r.chance(1, 2)),
        2 => (*r.pick(&[0i64, -1, 1, 255, 256, 32767, 32768, 65535, 65536, -32769, 2147483647, 2147483648, i64::MAX, i64::MIN, 4000, 3999])).into(),
        3 => serde_json::json!(*r.pick(&[0.5, -0.0, 1e300, 1e-300, 65536.5])),
        4 => odd_string(r).into(),
        5 => Value::Array(vec![]),
        6 => serde_json::json!({}),
        7 => serde_json::json!({ *r.pick(&["Article", "Range", "start", "Text", "intro", "identifier", "x"]): odd_string(r) }),
        8 => r.pick(&["0", "1", "65535", "65536", "1/A", "9999-12-31", "2020-02-30", "-0001-01-01", "+262143-12-31", "a", "zs", "2020.1", "1:1", "0:0", "255:65535z", "2020.99999", "_", "1-", "5-2", "a-b", ""]).to_string().into(),
        _ => u64::MAX.into(),
    }
}

fn nodes(v: &mut Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter_mut().map(nodes).sum(),
        Value::Object(o) => o.iter_mut().map(|(_, x)| nodes(x)).sum(),
        _ => 0,
    }
}
fn nth<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
    if *n == 0 {
        return Some(v);
    }
    *n -= 1;
    match v {
        Value::Array(a) => a.iter_mut().find_map(|x| nth(x, n)),
        Value::Object(o) => o.iter_mut().find_map(|(_, x)| nth(x, n)),
        _ => None,
    }
}

pub fn mutate_value(r: &mut Rng, v: &mut Value) {
    for _ in 0..r.range(1, 3) {
        let total = nodes(v);
        let mut k = r.below(total);
        let mut k2 = r.below(total);
        let other = nth(v, &mut k2).cloned().unwrap_or(Value::Null);
        let Some(x) = nth(v, &mut k) else { continue };
        match (r.below(6), &mut *x) {
            (0, Value::Array(a)) if !a.is_empty() => {
                let i = r.below(a.len());
                a.remove(i);
            }
            (1, Value::Array(a)) if !a.is_empty() => {
                let i = r.below(a.len());
                let e = a[i].clone();
                a.insert(0, e);
            }
            (2, Value::Array(a)) => a.reverse(),
            (0 | 1, Value::Object(o)) => {
                let keys: Vec<String> = o.keys().cloned().collect();
                if !keys.is_empty() {
                    let key = r.pick(&keys).clone();
                    let e = o.remove(&key);
                    if r.chance(1, 3) {
                        o.insert(r.pick(&["x", "intro", "lines", "Article", "Text"]).to_string(), e.unwrap_or(Value::Null));
                    }
                }
            }
            (2, Value::Number(n)) => *x = n.as_i64().unwrap_or(0).wrapping_add(r.range(-3, 3)).into(),
            (0, Value::Number(n)) => *x = n.as_i64().unwrap_or(0).wrapping_neg().into(),
            (2 | 3, Value::String(s)) => {
                let mut cs: Vec<char> = s.chars().collect();
                let p = r.below(cs.len() + 1);
                cs.insert(p, odd_char(r));
                *x = cs.into_iter().collect::<String>().into();
            }
            (4, _) => *x = other,
            _ => *x = odd_value(r),
        }
    }
}

fn stored(env: &Env, m: &mut Mon) {
    env.suite(m, "stored_acts", env.n(20000, 300000), |r, m| {
        let mode = if r.chance(1, 2) { Mode::Hostile } else { Mode::Print };
        let act = G::new(r, mode).act(2);
        let Ok(mut v) = serde_json::to_value(&act) else { return };
        // misplaced references in particular
        if r.chance(1, 3) {
            misplace(r, &mut v);
        }
        if r.chance(3, 4) {
            mutate_value(r, &mut v);
        }
        m.observe(&v.to_string(), true);
        let ctx = || v.to_string();
        let loaded = match r.below(3) {
            0 => judge(m, "load:json", ctx, || serde_json::from_value::<Act>(v.clone()).ok()),
            1 => judge(m, "load:json", ctx, || serde_json::from_str::<Act>(&v.to_string()).ok()),
            _ => {
                let y = serde_yaml::to_string(&v).unwrap_or_default();
                judge(m, "load:yaml", ctx, || singleton_yaml::from_str::<Act>(&y).ok())
            }
        };
        if let Some(Some(act)) = loaded {
            m.count("stored_accepted", 1);
            use_act(r, m, act);
        } else {
            m.count("stored_refused", 1);
        }
    });
    env.suite(m, "stored_bytes", env.n(4000, 60000), |r, m| {
        let act = G::new(r, Mode::Hostile).act(1);
        let mut buf = vec![];
        let yaml = r.chance(1, 2);
        if act.cli_output(80, if yaml { OutputFormat::Yaml } else { OutputFormat::Json }, &mut buf).is_err() || buf.is_empty() {
            return;
        }
        for _ in 0..r.range(1, 4) {
            let i = r.below(buf.len());
            match r.below(4) {
                0 => buf[i] = r.below(256) as u8,
                1 => buf[i] = *r.pick(b"{}[]\",:-!|> \n&*#0"),
                2 => {
                    let j = (i + r.below(30)).min(buf.len());
                    buf.drain(i..j);
                    if buf.is_empty() {
                        return;
                    }
                }
                _ => {
                    let j = (i + r.below(30)).min(buf.len());
                    let p = buf[i..j].to_vec();
                    buf.splice(i..i, p);
                }
            }
        }
        m.observe(&buf, true);
        let ctx = || String::from_utf8_lossy(&buf).to_string();
        let loaded = judge(m, "load:bytes", ctx, || if yaml { singleton_yaml::from_slice::<Act>(&buf).ok() } else { serde_json::from_slice::<Act>(&buf).ok() });
        if let Some(Some(act)) = loaded {
            m.count("stored_accepted", 1);
            use_act(r, m, act);
        }
    });
    env.suite(m, "stored_parts", env.n(30000, 400000), |r, m| {
        // references, identifiers and semantic information on their own
        let text = if r.chance(1, 2) { odd_identifier(r) } else { odd_string(r) };
        let v = if r.chance(1, 4) { odd_value(r) } else { Value::String(text) };
        m.observe(&v.to_string(), true);
        let ctx = || v.to_string();
        judge(m, "load:reference", ctx, || serde_json::from_value::<Reference>(v.clone()).map(|x| use_ref(&x)).ok());
        judge(m, "load:info", ctx, || serde_json::from_value::<SemanticInfo>(v.clone()).map(|x| format!("{x:?}").len()).ok());
        judge(m, "load:ids", ctx, || {
            (
                serde_json::from_value::<ArticleIdentifier>(v.clone()).map(|x| use_id(x) + x.to_string().len()).ok(),
                serde_json::from_value::<ParagraphIdentifier>(v.clone()).map(|x| use_id(x) + x.to_string().len()).ok(),
                serde_json::from_value::<NumericIdentifier>(v.clone()).map(|x| use_id(x) + x.to_string().len()).ok(),
                serde_json::from_value::<AlphabeticIdentifier>(v.clone()).map(|x| use_id(x) + x.to_string().len()).ok(),
                serde_json::from_value::<PrefixedAlphabeticIdentifier>(v.clone()).map(|x| use_id(x) + x.to_string().len()).ok(),
                serde_json::from_value::<ActIdentifier>(v.clone()).map(|x| format!("{x} {x:?}")).ok(),
            )
        });
    });
    let sc = Scratch::new("c22");
    env.suite(m, "stored_fixups", env.n(1500, 20000), |r, m| {
        let dir = sc.path.join(format!("f{}", m.case));
        let id = ActIdentifier { year: r.range(-5, 9999) as i16, number: *r.pick(&[0, -1, 1, 5, 3999, 4000, i32::MAX, i32::MIN]) };
        let ctx = || format!("{} {}", id.year, id.number);
        let Some(name) = judge(m, "act:display", ctx, || format!("{id}.yml")) else { return };
        let file = dir.join(id.year.to_string());
        std::fs::create_dir_all(&file).unwrap();
        let text = match r.below(4) {
            0 => odd_string(r),
            1 => "- old: 'a'\n  new: 'b'\n".to_string(),
            2 => format!("- old: {:?}\n  new: {:?}\n  after: [1, {{}}]\n", odd_string(r), odd_string(r)),
            _ => serde_yaml::to_string(&odd_value(r)).unwrap(),
        };
        std::fs::write(file.join(name), &text).unwrap();
        m.observe(&text, true);
        let b = c_struct::hostile_body(r);
        let mut lines: Vec<IndentedLine> = b.iter().map(|l| l.real()).collect();
        if let Some(Ok(f)) = judge(m, "fixups:load", || text.clone(), || Fixups::load_from(id, dir.clone())) {
            judge(m, "fixups:apply", || text.clone(), || f.apply(&mut lines).is_ok());
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}

/// Outgoing references pointing anywhere, characters standing anywhere
fn misplace(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Array(a) => {
            if a.len() > 1 && a[0].get("start").is_some() && r.chance(1, 2) {
                a.reverse();
            }
            a.iter_mut().for_each(|x| misplace(r, x));
        }
        Value::Object(o) => {
            if o.contains_key("start") && o.contains_key("end") {
                let (a, b) = (r.below(40), r.below(40));
                if r.chance(2, 3) {
                    o.insert("start".into(), a.into());
                }
                if r.chance(2, 3) {
                    o.insert("end".into(), if r.chance(1, 10) { u64::MAX.into() } else { b.into() });
                }
            }
            if o.contains_key("dx") && r.chance(1, 10) {
                o.insert("dx".into(), (*r.pick(&[0.0, -0.0, 1e19, 9.3e19, 1e300, -1e300, 1e12, 1e-300, -5.0])).into());
            }
            o.iter_mut().for_each(|(_, x)| misplace(r, x));
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ texts

fn odd_identifier(r: &mut Rng) -> String {
    let frags = [
        "1", "12", "999", "65535", "65536", "4294967296", "99999999999999999999999", "0", "00", "a", "A", "zs", "Zs", "dz", "dzs", "cs", "sz", "/", ":", ".", "-", "_", "I", "IV", "MMMCMXCIX", "IIII",
        "§", "(", ")", " ", "évi", "törvény", ". évi ", ". törvény", "2012", "2012. évi I. törvény", "2013/5", "első", "ELSŐ", "huszonegyedik", "század", "századik", "KÜLÖNÖS RÉSZ", "ÁLTALÁNOS", "február", "é", "\u{301}", "ﬁ", "٣", "Ⅳ", "²", "1/A", "2020.5_1:2_3_a_aa", "_1__2", "2020.5_1-2", "-5", "+5", "1e3",
    ];
    let n = r.range(1, 5);
    (0..n).map(|_| *r.pick(&frags)).collect()
}

fn use_id<T: IdentifierCommon + std::fmt::Display>(x: T) -> usize {
    let mut n = format!("{x:?}").len() + x.compact_string().to_string().len() + x.is_first() as usize + x.is_next_from(x) as usize;
    let range: IdentifierRange<T> = hun_law::identifier::range::IdentifierRangeFrom::from_single(x);
    n += range.contains(x) as usize + format!("{range:?}").len() + range.compact_string().to_string().len();
    n
}

fn texts(env: &Env, m: &mut Mon) {
    env.suite(m, "texts", env.n(60000, 1500000), |r, m| {
        let t = match r.below(4) {
            0 => odd_string(r),
            1 => format!("{}{}{}", odd_identifier(r), odd_char(r), odd_identifier(r)),
            _ => odd_identifier(r),
        };
        m.observe(&t, !t.is_empty());
        let ctx = || format!("{t:?}");
        let mut ok = 0;
        ok += judge(m, "act", ctx, || t.parse::<ActIdentifier>().map(|a| format!("{a} {a:?} {}", a.compact_string())).is_ok()).unwrap_or(false) as u64;
        ok += judge(m, "article", ctx, || t.parse::<ArticleIdentifier>().map(|x| use_id(x) + x.to_string().len()).is_ok()).unwrap_or(false) as u64;
        ok += judge(m, "paragraph", ctx, || t.parse::<ParagraphIdentifier>().map(|x| use_id(x) + x.to_string().len()).is_ok()).unwrap_or(false) as u64;
        ok += judge(m, "numeric", ctx, || t.parse::<NumericIdentifier>().map(|x| use_id(x) + x.with_slash().to_string().len() + x.to_hungarian().is_ok() as usize + x.to_roman().is_ok() as usize).is_ok()).unwrap_or(false) as u64;
        ok += judge(m, "alphabetic", ctx, || t.parse::<AlphabeticIdentifier>().map(|x| use_id(x) + x.to_string().len()).is_ok()).unwrap_or(false) as u64;
        ok += judge(m, "prefixed", ctx, || t.parse::<PrefixedAlphabeticIdentifier>().map(|x| use_id(x) + x.to_string().len() + x.get_prefix().is_some() as usize).is_ok()).unwrap_or(false) as u64;
        ok += judge(m, "letter", ctx, || t.parse::<HungarianIdentifierChar>().map(|x| x.to_uppercase().to_string().len()).is_ok()).unwrap_or(false) as u64;
        ok += judge(m, "roman", ctx, || NumericIdentifier::from_roman(&t).map(|x| x.to_roman().is_ok()).is_ok()).unwrap_or(false) as u64;
        ok += judge(m, "issue_id", ctx, || t.parse::<MkIssue>().map(|x| format!("{x:?}").len()).is_ok()).unwrap_or(false) as u64;
        ok += judge(m, "ordinal", ctx, || u8::from_hungarian(&t).is_ok()).unwrap_or(false) as u64;
        ok += judge(m, "month", ctx, || text_to_month_hun(&t).is_ok()).unwrap_or(false) as u64;
        for k in [StructuralElementType::Book, StructuralElementType::Part { is_special: false }, StructuralElementType::Part { is_special: true }, StructuralElementType::Title, StructuralElementType::Chapter] {
            ok += judge(m, "structural", ctx, || k.parse_identifier(&t).is_ok()).unwrap_or(false) as u64;
        }
        ok += judge(m, "reference", ctx, || Reference::from_compact_string(&t).map(|x| use_ref(&x)).is_ok()).unwrap_or(false) as u64;
        ok += judge(m, "compact", ctx, || {
            (ActIdentifier::from_compact_string(&t).is_ok(), ArticleIdentifier::from_compact_string(&t).is_ok(), ParagraphIdentifier::from_compact_string(&t).is_ok(), IdentifierRange::<NumericIdentifier>::from_compact_string(&t).is_ok(), IdentifierRange::<PrefixedAlphabeticIdentifier>::from_compact_string(&t).is_ok())
        })
        .is_some() as u64;
        judge(m, "line", ctx, || IndentedLine::from_test_str(&t).len());
        m.count("texts_read", ok);
    });
}

/// The workloads of the other checks, for their crashes only
fn others(env: &Env, m: &mut Mon) {
    for (id, scale) in [("C03", 12), ("C04", 12), ("C05", 12), ("C06", 12), ("C07", 12), ("C08", 20), ("C10", 20), ("C11", 20), ("C12", 20), ("C13", 20), ("C14", 8), ("C15", 12), ("C16", 8), ("C17", 8), ("C18", 12), ("C19", 12), ("C25", 12), ("C20", 12)] {
        if id == "C20" && !cfg!(feature = "editor") {
            continue;
        }
        let all = crate::checks();
        let c = all.iter().find(|c| c.id == id).unwrap();
        let sub = Env { id: id.into(), seed: env.seed, thorough: env.thorough, threads: env.threads, start: env.start, only: None, scale, boost: 1, progress: None, skip: vec![] };
        let mut sm = Mon::new();
        (c.run)(&sub, &mut sm);
        m.evaluations += sm.evaluations;
        m.count(&format!("executions_of_{id}"), sm.evaluations);
        m.distinct.extend(sm.distinct);
        for v in sm.violations {
            if v.key.ends_with(":panic") {
                m.violations.push(Violation { suite: format!("{id}/{}", v.suite), ..v });
            }
        }
        m.harness_errors += sm.harness_errors;
    }
}

// ------------------------------------------------------------------ size and depth

fn one_page(objs: impl FnOnce(&mut PdfWriter) -> (String, String)) -> Vec<u8> {
    let mut w = PdfWriter::default();
    let pages = w.alloc();
    let (res, content) = objs(&mut w);
    let c = w.add(PdfWriter::stream("", content.as_bytes(), false));
    let page = w.add(format!("<</Type/Page/Parent {pages} 0 R/MediaBox[0 0 1000 1000]/Resources<<{res}>>/Contents {c} 0 R>>"));
    w.set(pages, format!("<</Type/Pages/Count 1/Kids[{page} 0 R]>>"));
    let root = w.add(format!("<</Type/Catalog/Pages {pages} 0 R>>"));
    w.finish(&mut Rng::new(&[1]), root)
}

const FONT: &str = "/Font<</F0<</Type/Font/Subtype/Type1/BaseFont/Times/FirstChar 32/LastChar 33/Widths[250 300]/Encoding/WinAnsiEncoding>>>>";

fn form(w: &mut PdfWriter, n: usize, kids: &[usize], body: &str) {
    let x: String = kids.iter().enumerate().map(|(i, k)| format!("/X{i} {k} 0 R")).collect();
    let dict = format!("/Type/XObject/Subtype/Form/BBox[0 0 1000 1000]/Resources<<{FONT}/XObject<<{x}>>>>");
    w.set(n, PdfWriter::stream(&dict, body.as_bytes(), false));
}

type Deep = (&'static str, fn(&mut Mon));

fn deep_pdf(m: &mut Mon, pdf: Vec<u8>) {
    let r = &mut Rng::new(&[5]);
    m.observe(&pdf, true);
    match judge(m, "pdf", String::new, || parse_pdf(&pdf, CropBox::default())) {
        Some(Ok(p)) => {
            m.count("accepted", 1);
            use_pages(r, m, p);
        }
        Some(Err(_)) => m.count("refused", 1),
        None => {}
    }
}

fn deep_body(m: &mut Mon, lines: Vec<MLine>) {
    let r = &mut Rng::new(&[5]);
    let raw = c_struct::raw_of(&lines);
    m.observe(&acts::show(&raw), true);
    use_raw(r, m, &raw);
}

fn pl(t: &str) -> MLine {
    acts::plain_line(t, 50.0, false, true)
}

const DEEP: &[Deep] = &[
    ("form_in_itself", |m| {
        let pdf = one_page(|w| {
            let n = w.alloc();
            form(w, n, &[n], "BT /F0 10 Tf 10 10 Td (!) Tj ET /X0 Do");
            (format!("/XObject<</X0 {n} 0 R>>"), "/X0 Do".into())
        });
        deep_pdf(m, pdf)
    }),
    ("form_in_itself_twice", |m| {
        let pdf = one_page(|w| {
            let n = w.alloc();
            form(w, n, &[n], "/X0 Do /X0 Do BT /F0 10 Tf 10 10 Td (!) Tj ET /X0 Do");
            (format!("/XObject<</X0 {n} 0 R>>"), "/X0 Do".into())
        });
        deep_pdf(m, pdf)
    }),
    ("forms_in_each_other", |m| {
        let pdf = one_page(|w| {
            let (a, b, c) = (w.alloc(), w.alloc(), w.alloc());
            form(w, a, &[b], "q /X0 Do Q");
            form(w, b, &[c, a], "/X0 Do /X1 Do");
            form(w, c, &[a], "BT /F0 10 Tf 10 10 Td (!) Tj ET /X0 Do");
            (format!("/XObject<</X0 {a} 0 R>>"), "/X0 Do".into())
        });
        deep_pdf(m, pdf)
    }),
    ("form_in_itself_by_inherited_names", |m| {
        let pdf = one_page(|w| {
            let n = w.add(PdfWriter::stream("/Type/XObject/Subtype/Form/BBox[0 0 9 9]", b"/X0 Do", false));
            (format!("/XObject<</X0 {n} 0 R>>"), "/X0 Do".into())
        });
        deep_pdf(m, pdf)
    }),
    ("forms_20000_deep", |m| {
        let pdf = one_page(|w| {
            let all: Vec<usize> = (0..20000).map(|_| w.alloc()).collect();
            for i in 0..all.len() {
                if i + 1 < all.len() {
                    form(w, all[i], &[all[i + 1]], "/X0 Do");
                } else {
                    form(w, all[i], &[], "BT /F0 10 Tf 10 10 Td (!) Tj ET");
                }
            }
            (format!("/XObject<</X0 {} 0 R>>", all[0]), "/X0 Do".into())
        });
        deep_pdf(m, pdf)
    }),
    ("save_100000_times", |m| deep_pdf(m, one_page(|_| (FONT.into(), format!("{} BT /F0 10 Tf 10 10 Td (!) Tj ET", "q ".repeat(100_000)))))),
    ("restore_without_save", |m| deep_pdf(m, one_page(|_| (FONT.into(), "Q".into())))),
    ("marked_content_100000_deep", |m| {
        deep_pdf(m, one_page(|_| (FONT.into(), format!("{} BT /F0 10 Tf 10 10 Td (!) Tj ET {}", "/Span <</ActualText(xy)>> BDC ".repeat(100_000), "EMC ".repeat(100_000)))))
    }),
    ("100000_characters_in_a_line", |m| deep_pdf(m, one_page(|_| (FONT.into(), format!("BT /F0 0.01 Tf 10 10 Td ({}) Tj ET", "! !!".repeat(25_000)))))),
    ("50000_characters_at_one_place", |m| deep_pdf(m, one_page(|_| (FONT.into(), format!("BT /F0 0 Tf 10 10 Td ({}) Tj ET", "!".repeat(50_000)))))),
    ("50000_lines_on_a_page", |m| deep_pdf(m, one_page(|_| (FONT.into(), format!("BT /F0 1 Tf 10 999 Td {} ET", "0 -0.01 Td (!) Tj ".repeat(50_000)))))),
    ("line_of_a_million_characters", |m| deep_body(m, vec![pl("1. §"), pl(&"szó ".repeat(250_000))])),
    ("100000_lines", |m| deep_body(m, std::iter::once(pl("1. § Szöveg")).chain((0..100_000).map(|i| pl(&format!("sor {i}")))).collect())),
    ("20000_articles", |m| deep_body(m, (1..=20_000).map(|i| pl(&format!("{i}. § Szöveg."))).collect())),
    ("20000_paragraphs", |m| deep_body(m, (1..=20_000).map(|i| pl(&format!("{}({i}) Szöveg.", if i == 1 { "1. § " } else { "" }))).collect())),
    ("20000_points", |m| {
        deep_body(m, [pl("1. § Ezek:")].into_iter().chain((1..=5_000).flat_map(|i| [pl(&format!("{i}. pont:")), pl("a) alpont,"), pl("b) alpont"), MLine { chars: vec![], justified: false }])).collect())
    }),
    ("quotes_50000_deep", |m| deep_body(m, vec![pl(&format!("1. § {}x{}", "„".repeat(50_000), "”".repeat(50_000)))])),
    ("quoted_lines_20000_deep", |m| {
        let mut v = vec![pl("1. § Így lép:")];
        v.extend((0..20_000).map(|i| pl(&format!("„({i}) a"))));
        v.extend((0..20_000).map(|i| pl(&format!("b {i}”"))));
        deep_body(m, v)
    }),
    ("quoted_blocks_5000", |m| {
        let mut v = vec![pl("1. § Így lép:")];
        for i in 0..5_000 {
            v.push(pl(&format!("„{i}. § a”")));
            v.push(MLine { chars: vec![], justified: false });
        }
        deep_body(m, v)
    }),
    ("unclosed_quotes_50000", |m| deep_body(m, vec![pl(&format!("1. § {}", "„".repeat(50_000)))])),
    ("issue_of_100000_lines", |m| {
        let r = &mut Rng::new(&[9]);
        let mut pages = c_issue::issue_pages(r, false);
        for _ in 0..200 {
            pages.push(PageOfLines { lines: (0..500).map(|i| pl(&format!("sor {i}*")).real()).collect() });
        }
        m.observe("issue", true);
        use_pages(r, m, pages)
    }),
    ("issue_of_no_lines", |m| {
        let r = &mut Rng::new(&[9]);
        m.observe("empty", true);
        use_pages(r, m, vec![]);
        use_pages(r, m, vec![PageOfLines { lines: vec![] }]);
        use_pages(r, m, (0..5).map(|_| PageOfLines { lines: vec![] }).collect());
    }),
    ("stored_10000_deep", |m| {
        for (a, b) in [("[", "]"), ("{\"children\":[", "]}"), ("{\"intro\":", "}")] {
            let t = format!("{}{}", a.repeat(10_000), b.repeat(10_000));
            m.observe(&t, true);
            judge(m, "load", String::new, || serde_json::from_str::<Act>(&t).is_ok());
            let t = format!("{}{}", a.repeat(300), b.repeat(300));
            judge(m, "load", String::new, || singleton_yaml::from_str::<Act>(&t).is_ok());
        }
    }),
    ("long_texts", |m| {
        let r = &mut Rng::new(&[3]);
        let act = G::new(r, Mode::Tag).act(2);
        let mut v = serde_json::to_value(&act).unwrap();
        v["subject"] = "szó ".repeat(300_000).into();
        v["preamble"] = "x".repeat(1_000_000).into();
        m.observe("long", true);
        if let Ok(a) = serde_json::from_value::<Act>(v) {
            use_act(r, m, a);
        }
        for t in ["9".repeat(1_000_000), "I".repeat(100_000), "a".repeat(1_000_000), "_".repeat(1_000_000), "1-".repeat(500_000), "§".repeat(500_000)] {
            judge(m, "texts", || t.chars().take(4).collect(), || {
                (t.parse::<ActIdentifier>().is_ok(), t.parse::<ArticleIdentifier>().is_ok(), t.parse::<NumericIdentifier>().is_ok(), t.parse::<AlphabeticIdentifier>().is_ok(), t.parse::<PrefixedAlphabeticIdentifier>().is_ok(), NumericIdentifier::from_roman(&t).is_ok(), Reference::from_compact_string(&t).is_ok(), u8::from_hungarian(&t).is_ok(), t.parse::<MkIssue>().is_ok())
            });
        }
    }),
];

// ------------------------------------------------------------------ processes

struct Group {
    name: &'static str,
    run: fn(&Env, &mut Mon),
    /// does a death of the process tell about the repository (or maybe about the PDF library)?
    ours: bool,
}

const GROUPS: &[Group] = &[
    Group { name: "texts", run: texts, ours: true },
    Group { name: "bodies", run: bodies, ours: true },
    Group { name: "stored", run: stored, ours: true },
    Group { name: "others", run: others, ours: true },
    Group { name: "pdf_objects", run: pdf_objects, ours: false },
    Group { name: "pdf_bytes", run: pdf_bytes, ours: false },
];

const CPU_LIMIT: u64 = 100;

fn save_mon(m: &Mon, path: &Path) {
    let v = serde_json::json!({
        "evaluations": m.evaluations,
        "distinct": m.distinct.iter().collect::<Vec<_>>(),
        "samples": m.samples,
        "counters": m.counters,
        "harness_errors": m.harness_errors,
        "violations": m.violations.iter().map(|v| serde_json::json!([v.key, v.detail, v.suite, v.case])).collect::<Vec<_>>(),
    });
    std::fs::write(path, v.to_string()).expect("result file");
}

fn load_mon(path: &Path) -> Option<Mon> {
    let v: Value = serde_json::from_slice(&std::fs::read(path).ok()?).ok()?;
    let mut m = Mon::new();
    m.evaluations = v["evaluations"].as_u64()?;
    m.distinct = v["distinct"].as_array()?.iter().filter_map(|x| x.as_u64()).collect::<HashSet<_>>();
    m.samples = v["samples"].as_array()?.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect();
    for (k, n) in v["counters"].as_object()? {
        m.counters.insert(k.clone(), n.as_u64()?);
    }
    m.harness_errors = v["harness_errors"].as_u64()?;
    for x in v["violations"].as_array()? {
        m.violations.push(Violation { key: x[0].as_str()?.into(), detail: x[1].as_str()?.into(), suite: x[2].as_str()?.into(), case: x[3].as_u64()? });
    }
    Some(m)
}

/// c22-child GROUP SEED TIER RESULT PROGRESS SKIP
pub fn child_main(args: &[String]) -> ! {
    let group = args[2].clone();
    let thorough = args[4] == "thorough";
    let result = PathBuf::from(&args[5]);
    let file = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&args[6]).expect("progress file");
    let skip = args[7].split(',').filter_map(|s| s.split_once('#')).map(|(s, c)| (s.to_string(), c.parse().unwrap())).collect();
    #[cfg(not(verif_asan))]
    {
        let lim = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 };
        // SAFETY: plain system call
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    }
    let env = Env {
        id: "C22".into(),
        seed: args[3].parse().unwrap(),
        thorough,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
        start: Instant::now(),
        only: None,
        scale: 1,
        boost: 1,
        progress: Some(Progress { file, cpu_limit: CPU_LIMIT }),
        skip,
    };
    let mut m = Mon::new();
    if let Some(name) = group.strip_prefix("deep/") {
        let f = DEEP.iter().find(|d| d.0 == name).expect("known").1;
        m.suite = "deep".into();
        // the stack a main thread normally has
        std::thread::scope(|s| {
            if std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || f(&mut m)).unwrap().join().is_err() {
                std::process::exit(2);
            }
        });
    } else if let Some(name) = group.strip_prefix("asan/") {
        match GROUPS.iter().find(|g| g.name == name) {
            Some(g) => (g.run)(&Env { scale: 6, ..env }, &mut m),
            None => {
                let all = crate::checks();
                let scale = ASAN_CHECKS.iter().find(|c| c.0 == name).expect("known").1;
                (all.iter().find(|c| c.id == name).unwrap().run)(&Env { id: name.into(), scale, ..env }, &mut m)
            }
        }
    } else {
        let g = GROUPS.iter().find(|g| g.name == group).expect("known");
        (g.run)(&env, &mut m);
    }
    save_mon(&m, &result);
    std::process::exit(0);
}

enum End {
    Fine(Mon),
    /// what the workers were doing, and how it ended
    Died(String, Vec<(String, u64)>),
    Hung(Vec<(String, u64)>),
    NoAnswer(String),
}

fn run_child(env: &Env, dir: &Path, group: &str, skip: &[(String, u64)]) -> End {
    use std::os::unix::process::ExitStatusExt;
    let tag = group.replace('/', "_");
    let (result, progress) = (dir.join(format!("{tag}.json")), dir.join(format!("{tag}.progress")));
    let _ = std::fs::remove_file(&result);
    let skip: Vec<String> = skip.iter().map(|(s, c)| format!("{s}#{c}")).collect();
    let err = dir.join(format!("{tag}.stderr"));
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["c22-child", group, &env.seed.to_string(), if env.thorough { "thorough" } else { "quick" }])
        .arg(&result)
        .arg(&progress)
        .arg(skip.join(","))
        .stderr(std::fs::File::create(&err).unwrap())
        .stdout(std::process::Stdio::null());
    let mut child = cmd.spawn().expect("child");
    // a deep case has no watchdog of its own: CPU time of the whole process
    let t0 = Instant::now();
    let mut hung = false;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if group.starts_with("deep/") && cpu_seconds(child.id()) > CPU_LIMIT as f64 {
            hung = true;
            let _ = child.kill();
            break child.wait().unwrap();
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    };
    let text = std::fs::read_to_string(&err).unwrap_or_default();
    for l in text.lines().filter(|l| l.starts_with("  suite ")) {
        eprintln!("{l}");
    }
    let at = |word: &str| progress_of(&progress, word);
    if hung {
        return End::Hung(vec![(group.to_string(), 0)]);
    }
    if status.code() == Some(HUNG) {
        return End::Hung(at("hung"));
    }
    if let Some(sig) = status.signal() {
        let tail: String = text.lines().filter(|l| !l.starts_with("  suite")).take(6).collect::<Vec<_>>().join("\n");
        return End::Died(format!("signal {sig} after {:.1}s: {tail}", t0.elapsed().as_secs_f64()), at("run"));
    }
    match (status.code(), load_mon(&result)) {
        (Some(0), Some(m)) => End::Fine(m),
        _ => End::NoAnswer(format!("{status:?}: {}", text.lines().filter(|l| !l.starts_with("  suite")).take(40).collect::<Vec<_>>().join("\n"))),
    }
}

fn progress_of(file: &Path, word: &str) -> Vec<(String, u64)> {
    String::from_utf8_lossy(&std::fs::read(file).unwrap_or_default())
        .lines()
        .filter_map(|l| {
            let l = l.trim_matches(char::from(0)).trim();
            let mut it = l.split(' ');
            (it.next() == Some(word)).then_some(())?;
            Some((it.next()?.to_string(), it.next()?.parse().ok()?))
        })
        .collect()
}

fn cpu_seconds(pid: u32) -> f64 {
    let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}

fn c22(env: &Env, mon: &mut Mon) {
    if let Some((suite, case)) = &env.only {
        // a single case, in this process
        if let Some((_, f)) = DEEP.iter().find(|d| format!("deep/{}", d.0) == *suite) {
            mon.suite = suite.clone();
            mon.case = *case;
            f(mon);
        }
        for g in GROUPS {
            if g.name != "others" {
                (g.run)(env, mon);
            }
        }
        return;
    }
    let sc = Scratch::new("c22-parent");
    let mut blame = |mon: &mut Mon, key: &str, at: &[(String, u64)], what: String| {
        let (suite, case) = at.first().cloned().unwrap_or_default();
        mon.violations.push(Violation { key: key.into(), detail: format!("{what}\n cases running: {at:?}"), suite, case });
    };
    for g in GROUPS {
        let mut skip: Vec<(String, u64)> = vec![];
        loop {
            match run_child(env, &sc.path, g.name, &skip) {
                End::Fine(m) => {
                    mon.merge(m);
                    mon.count("processes_ended_well", 1);
                    break;
                }
                End::NoAnswer(e) => {
                    eprintln!("HARNESS ERROR: {}: {e}", g.name);
                    mon.harness_errors += 1;
                    break;
                }
                End::Died(what, at) if g.ours => {
                    blame(mon, "crash", &at, format!("the process died: {what}"));
                    break;
                }
                End::Hung(at) if g.ours => {
                    blame(mon, "hang", &at, format!("more than {CPU_LIMIT} s of CPU time for one input"));
                    break;
                }
                // maybe the PDF library on a damaged file: leave the running cases out and go on
                End::Died(_, at) | End::Hung(at) => {
                    mon.count("processes_ended_by_the_pdf_library", 1);
                    if at.is_empty() || skip.len() > 200 {
                        mon.count("pdf_group_given_up", 1);
                        break;
                    }
                    skip.extend(at);
                }
            }
        }
    }
    let ends: Vec<(String, End)> = {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let (next, dir) = (&next, &sc.path);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..4)
                .map(|_| {
                    s.spawn(move || {
                        let mut v = vec![];
                        while let Some((name, _)) = DEEP.get(next.fetch_add(1, std::sync::atomic::Ordering::Relaxed)) {
                            let group = format!("deep/{name}");
                            let e = run_child(env, dir, &group, &[]);
                            v.push((group, e));
                        }
                        v
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        })
    };
    for (group, end) in ends {
        match end {
            End::Fine(m) => {
                mon.merge(m);
                mon.count("processes_ended_well", 1);
            }
            End::NoAnswer(e) => {
                eprintln!("HARNESS ERROR: {group}: {e}");
                mon.harness_errors += 1;
            }
            End::Died(what, _) => blame(mon, "crash", &[(group, 0)], format!("the process died: {what}")),
            End::Hung(_) => blame(mon, "hang", &[(group, 0)], format!("more than {CPU_LIMIT} s of CPU time")),
        }
    }
}

// ------------------------------------------------------------------ C23

/// The same workloads in a build with AddressSanitizer: its reports, and texts that are not Unicode
fn c23(env: &Env, mon: &mut Mon) {
    if env.only.is_some() {
        mon.violations.clear();
        return c22(env, mon);
    }
    let sc = Scratch::new("c23");
    let groups: Vec<String> = GROUPS.iter().filter(|g| g.name != "others").map(|g| format!("asan/{}", g.name)).chain(ASAN_CHECKS.iter().map(|(id, _)| format!("asan/{id}"))).collect();
    for g in groups {
        let mut skip = vec![];
        loop {
            match run_child(env, &sc.path, &g, &skip) {
                End::Fine(m) => {
                    mon.count("processes_without_report", 1);
                    mon.count(&format!("executions_of_{}", &g[5..]), m.evaluations);
                    let vs: Vec<Violation> = m.violations.iter().filter(|v| v.key.contains("invalid_text") || v.key.contains("utf8")).cloned().collect();
                    mon.merge(Mon { violations: vs, ..m });
                    break;
                }
                End::NoAnswer(e) => {
                    // exit code 66: a report
                    let report = e.contains("AddressSanitizer");
                    if report && !e.contains("stack-overflow") && !e.contains("out-of-memory") && !e.contains("allocation-size-too-big") {
                        mon.violations.push(Violation { key: "asan".into(), detail: e, suite: g.clone(), case: 0 });
                        break;
                    }
                    if report && skip.len() < 200 {
                        // too deep for the PDF library
                        skip.extend(running(&sc.path, &g));
                        mon.count("stack_overflows_not_judged_here", 1);
                        continue;
                    }
                    eprintln!("HARNESS ERROR: {g}: {e}");
                    mon.harness_errors += 1;
                    break;
                }
                End::Died(what, at) => {
                    // crashes are judged by C22
                    eprintln!("{g}: {what}");
                    mon.count("deaths_not_judged_here", 1);
                    if at.is_empty() || skip.len() > 200 {
                        break;
                    }
                    skip.extend(at);
                }
                End::Hung(at) => {
                    mon.count("hangs_not_judged_here", 1);
                    if at.is_empty() || skip.len() > 200 {
                        break;
                    }
                    skip.extend(at);
                }
            }
        }
    }
}

const ASAN_CHECKS: &[(&str, u64)] =
    &[("C01", 12), ("C02", 12), ("C03", 20), ("C04", 20), ("C05", 20), ("C06", 20), ("C08", 40), ("C12", 40), ("C13", 40), ("C14", 12), ("C15", 12), ("C16", 12), ("C17", 12), ("C18", 20), ("C19", 20)];

fn running(dir: &Path, group: &str) -> Vec<(String, u64)> {
    progress_of(&dir.join(format!("{}.progress", group.replace('/', "_"))), "run")
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C22",
        level: "exploration",
        rule: "hostile inputs in watched child processes: PDFs with damaged objects, streams, fonts and bytes, damaged issues, bodies, quotations and fixups, damaged stored acts used after loading, arbitrary texts for every reader, oversized and deeply nested inputs, and the workloads of the other checks; non-trivial: not empty; distinct by input",
        assumptions: &[
            "panics, hangs and deaths inside the PDF library (crate pdf and its dependencies) are not counted",
            "a hang is 100 s of CPU time for one input; a stack is 8 MB (64 MB where inputs are small)",
            "arithmetic overflow counts as a crash, as in a debug build",
        ],
        run: c22,
    },
    Check {
        id: "C23",
        level: "exploration",
        rule: "the workloads of the other checks and the hostile ones of C22, reduced, in a build with AddressSanitizer; every text that comes out is validated as UTF-8 from a copy of its bytes; distinct by input",
        assumptions: &[
            "what AddressSanitizer sees: invalid heap, stack and global accesses, use after free and return, not reads of uninitialised memory",
            "the standard library itself is not instrumented; stack exhaustion is judged by C22",
        ],
        run: c23,
    }]
}
