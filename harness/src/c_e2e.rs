//! C25: the whole way, from the bytes of an issue's PDF to the parsed acts, stored and loaded again.
use std::collections::{BTreeMap, BTreeSet};

use hun_law::{
    fixups::{Fixup, Fixups},
    identifier::ActIdentifier,
    mk_downloader::DEFAULT_MK_CROP,
    parser::{mk_act_section::parse_mk_pages_into_acts, pdf::{parse_pdf, CropBox}, structure::parse_act_structure},
    structure::{Act, ActChild, ParagraphChildren, SAEBody},
};

use crate::{
    acts::{self, plain_line},
    c_issue::{cover, gen_date, subject, MONTHS, SIGNS, STOPS},
    lines::MLine,
    mon::{Env, Mon},
    pdfgen::{Doc, FontSpec, Item, Kind, Knobs, Page, Segment},
    rng::Rng,
    Check,
};

fn empty() -> MLine {
    MLine { chars: vec![], justified: false }
}

struct Print {
    pages: Vec<Vec<MLine>>,
}
impl Print {
    fn l(&mut self, l: MLine) {
        // a gap is a gap, however wide
        if l.chars.is_empty() && self.cur().last().map_or(true, |p| p.chars.is_empty()) {
            return;
        }
        self.cur().push(l);
    }
    fn cur(&mut self) -> &mut Vec<MLine> {
        self.pages.last_mut().unwrap()
    }
    fn page(&mut self) {
        while self.cur().last().map_or(false, |l| l.chars.is_empty()) {
            self.cur().pop();
        }
        if !self.cur().is_empty() {
            self.pages.push(vec![]);
        }
    }
    fn t(&mut self, r: &mut Rng, t: &str, bold: bool) {
        let x = r.range(30, 90) as f64;
        self.l(plain_line(t, x, bold, false));
    }
    /// a gap or a page break
    fn gap(&mut self, r: &mut Rng, breaks: u32) {
        if r.chance(breaks, 10) || self.cur().len() > 50 {
            self.page();
        } else {
            self.l(empty());
        }
    }
}

/// Two fonts of one pitch that have all the characters of the issue
fn fonts(r: &mut Rng, used: &BTreeSet<char>) -> Vec<FontSpec> {
    (0..2)
        .map(|i| {
            let bold = i == 1;
            let mut chars: Vec<char> = used.iter().copied().collect();
            r.shuffle(&mut chars);
            let simple = chars.len() < 200 && r.chance(1, 2);
            let first = if simple { r.range(1, 20) as u32 } else { r.range(1, 300) as u32 };
            let map: BTreeMap<u32, String> = chars
                .iter()
                .enumerate()
                .map(|(k, c)| (first + k as u32, c.to_string()))
                .map(|(k, c)| if k == 32 { (255, c) } else { (k, c) })
                .collect();
            let kind = if simple { *r.pick(&[Kind::Type1, Kind::TrueType]) } else { Kind::Type0 };
            let mut widths: BTreeMap<u32, f64> = map.keys().map(|k| (*k, 500.0)).collect();
            widths.insert(32, 280.0);
            FontSpec {
                kind,
                name: if bold { "ABCDEF+Frutiger-Bold".into() } else { "ABCDEF+Frutiger".into() },
                bold,
                base: Some(if simple { "WinAnsiEncoding" } else { "Identity-H" }),
                differences: BTreeMap::new(),
                to_unicode: map.clone(),
                first_char: *widths.keys().next().unwrap(),
                map,
                widths,
                default_width: if simple { 0.0 } else { 1000.0 },
            }
        })
        .collect()
}

const SIZE: f64 = 10.0;

fn draw(r: &mut Rng, page: &[MLine], fonts: &[FontSpec], header: Option<&str>) -> Page {
    let inv: Vec<BTreeMap<char, u32>> = fonts.iter().map(|f| f.map.iter().map(|(c, t)| (t.chars().next().unwrap(), *c)).collect()).collect();
    let mut segments = vec![];
    let gaps = page.iter().filter(|l| l.chars.is_empty()).count() as f64;
    let rows = page.len() as f64 - gaps;
    let mut y = 745.0;
    let gap = if gaps > 0.0 { (17.0f64).max(((720.0 - rows * 12.0) / gaps).min(22.0)) } else { 20.0 };
    let pitch = ((735.0 - gaps * gap) / rows.max(1.0)).min(12.0);
    let mut run = |segments: &mut Vec<Segment>, font: usize, y: f64, run: &[(f64, char)]| {
        // one run of characters without blanks
        let mut items = vec![];
        let mut x = run[0].0;
        for (cx, c) in run {
            let by = (x - cx) * 1000.0 / SIZE;
            if by.abs() > 0.01 {
                items.push(Item::Adjust((by * 100.0).round() / 100.0));
                x = *cx;
            }
            items.push(Item::Code(inv[font][c]));
            x += 0.5 * SIZE;
        }
        segments.push(Segment { font, size: SIZE, tz: 100.0, tc: 0.0, tw: 0.0, rise: 0.0, a: 1.0, d: 1.0, x: run[0].0, y, items, actual: None });
    };
    let mut line = |segments: &mut Vec<Segment>, l: &MLine, y: f64| {
        let mut cur: Vec<(f64, char)> = vec![];
        let mut font = 0;
        for (x, c, b) in &l.chars {
            if (*c == ' ' || (*b as usize) != font) && !cur.is_empty() {
                run(segments, font, y, &cur);
                cur.clear();
            }
            font = *b as usize;
            if *c != ' ' {
                cur.push((*x, *c));
            }
        }
        if !cur.is_empty() {
            run(segments, font, y, &cur);
        }
    };
    if let Some(h) = header {
        line(&mut segments, &plain_line(h, 60.0, false, false), 790.0);
    }
    let mut extra = 0.0;
    for l in page {
        if l.chars.is_empty() {
            extra = gap;
            continue;
        }
        if extra > 0.0 {
            y -= extra - pitch;
        }
        extra = 0.0;
        line(&mut segments, l, (y * 100.0f64).round() / 100.0);
        y -= pitch;
        let _ = &r;
    }
    Page { segments }
}

fn plain_quotes(a: &mut Act) {
    for c in &mut a.children {
        if let ActChild::Article(x) = c {
            for p in &mut x.children {
                if let SAEBody::Children { children: ParagraphChildren::QuotedBlock(v), .. } = &mut p.body {
                    for l in v.iter_mut().flat_map(|b| b.lines.iter_mut()) {
                        *l = plain_line(l.content(), 0.0, l.is_bold(), false).real();
                    }
                }
            }
        }
    }
}

fn e2e(r: &mut Rng, m: &mut Mon) {
    let date = gen_date(r);
    let mut p = Print { pages: vec![vec![]] };
    for l in cover(r, date) {
        p.l(acts::model_of(&l));
    }
    p.page();
    let mut want: Vec<Act> = vec![];
    let breaks = r.range(0, 4) as u32;
    if r.chance(1, 3) {
        p.t(r, "I. Az Országgyűlés határozatai", true);
        p.t(r, "szöveg", false);
        p.page();
    }
    p.t(r, "II. Törvények", true);
    let ids = std::cell::RefCell::new(BTreeSet::new());
    let scratch = tempfile::tempdir().unwrap();
    let emit = |r: &mut Rng, p: &mut Print, m: &mut Mon| -> Act {
        let cfg = acts::Cfg { quotes: 1, blocks: 1, tricky: 1, long: false };
        acts::SPACED_QUOTES.with(|q| q.set(true));
        let mut a = acts::gen_act(r, &cfg, 10);
        acts::SPACED_QUOTES.with(|q| q.set(false));
        let raw = acts::typeset(r, &a);
        p.gap(r, breaks);
        a.identifier = loop {
            let id = ActIdentifier { year: r.range(1990, 2029) as i16, number: r.range(1, 250) as i32 };
            if ids.borrow_mut().insert(id) {
                break id;
            }
        };
        p.t(r, &format!("{}. évi {}. törvény", a.identifier.year, crate::c_ident::to_roman(a.identifier.number as u32)), true);
        let (lines, s) = subject(r);
        for l in &lines {
            p.t(r, l, true);
        }
        a.subject = s;
        a.publication_date = date;
        let mut foot = r.chance(4, 5);
        let mut done = 0;
        p.gap(r, breaks);
        // printing errors, corrected by stored fixups
        let mut body: Vec<MLine> = raw.body.iter().map(acts::model_of).collect();
        if r.chance(1, 2) {
            let mut fixups = Fixups::load_from(a.identifier, scratch.path().into()).unwrap();
            for _ in 0..r.range(1, 3) {
                let i = r.below(body.len());
                let old: Vec<char> = body[i].chars.iter().map(|c| c.1).collect();
                if old.len() < 3 || raw.body[i].is_bold() || old.contains(&'✗') || body.get(i + 1).map_or(false, |l| l.text().contains('✗')) {
                    continue;
                }
                let k = r.range(1, old.len() as i64 - 2) as usize;
                if [' ', '„', '“', '”'].contains(&old[k]) {
                    continue;
                }
                body[i].chars[k].1 = '✗';
                let text = body[i].text();
                if body.iter().filter(|l| l.text() == text).count() > 1 {
                    body[i].chars[k].1 = old[k];
                    continue;
                }
                let after = if i > 0 && r.chance(1, 2) { vec![raw.body[i - 1].content().to_string()] } else { vec![] };
                // (what stands before it in the issue may be a gap or the other way round)
                if after.first().map_or(false, |l| l.is_empty()) || (!after.is_empty() && body[i - 1].text() != after[0]) {
                    body[i].chars[k].1 = old[k];
                    continue;
                }
                fixups.add(Fixup { after, old: text, new: raw.body[i].content().to_string(), set_bold: false });
                m.count("fixups", 1);
            }
            if let Err(e) = fixups.save() {
                m.fail("e2e:fixups_save", format!("{e:#}"));
            }
        }
        for l in &body {
            if l.chars.is_empty() {
                // the footnote stands at the bottom of the page
                if foot && done > 3 {
                    foot = false;
                    p.l(empty());
                    let t = format!("* A törvényt az Országgyűlés a {}. {} {}-i ülésnapján fogadta el.", date.year_(), MONTHS[r.below(12)], r.range(1, 28));
                    p.t(r, &t, false);
                    p.page();
                } else {
                    p.gap(r, breaks);
                }
            } else {
                p.l(l.clone());
                done += 1;
            }
        }
        p.l(empty());
        p.t(r, "Áder János s. k., Kövér László s. k.,", false);
        let s = SIGNS[r.below(3)];
        p.t(r, s, false);
        a
    };
    for _ in 0..r.range(1, 3) {
        let a = emit(r, &mut p, m);
        want.push(a);
    }
    if r.chance(1, 2) {
        p.gap(r, breaks);
        let s = STOPS[r.below(STOPS.len())];
        p.t(r, s, true);
        emit(r, &mut p, m);
    }
    p.page();
    p.t(r, "hátsó borító", false);
    let used: BTreeSet<char> = p.pages.iter().flatten().flat_map(|l| l.chars.iter().map(|c| c.1)).chain("MAGYARKÖZLÖNY•0123456789.éviszám".chars()).filter(|c| *c != ' ').collect();
    let fonts = fonts(r, &used);
    // (some lines are long)
    let crop = CropBox { right: 5000.0, ..DEFAULT_MK_CROP };
    let mut pages = vec![];
    for (i, l) in p.pages.iter().enumerate() {
        let h = format!("MAGYAR KÖZLÖNY • {}. évi {}. szám {}", date.year_(), i + 7, 1000 + i);
        let pg = draw(r, l, &fonts, if i > 0 { Some(&h) } else { None });
        // what the placement model reads off the page must be what was meant to be printed
        // (an opening quotation mark always gets a blank before it, for example)
        let Some(seen) = pg.lines(&fonts, &crop) else {
            m.count("unclear_layouts", 1);
            return;
        };
        let texts: Vec<String> = seen.iter().map(|l| l.text()).collect();
        let meant: Vec<String> = l.iter().map(|l| l.text()).collect();
        if texts != meant {
            m.count("layouts_not_as_meant", 1);
            if std::env::var("SHOW_SKIPPED").is_ok() {
                let k = texts.iter().zip(&meant).position(|(a, b)| a != b);
                eprintln!("{} {} {:?}", texts.len(), meant.len(), k.map(|k| (&texts[k], &meant[k])));
            }
            return;
        }
        pages.push(pg);
    }
    let k = Knobs { forms: r.chance(1, 2), gs_fonts: r.chance(1, 3), inherit_resources: r.chance(1, 6), direct_fonts: r.chance(1, 3) };
    let (pdf, _) = Doc::new(&fonts, k).document(r, &pages, true);
    m.observe(&pdf, true);
    m.count("pages", pages.len() as u64);
    m.sample(|| format!("{} bytes, {} pages, acts {:?}", pdf.len(), pages.len(), want.iter().map(|a| (a.identifier.to_string(), a.children.len())).collect::<Vec<_>>()));
    let ctx = || {
        if std::env::var("DUMP_PDF").is_ok() {
            let _ = std::fs::write("/tmp/dump.pdf", &pdf);
        }
        p.pages.iter().map(|g| format!("---- page\n{}\n", g.iter().map(|l| l.text()).collect::<Vec<_>>().join("\n"))).collect::<String>()
    };
    let Some(raws) = m.no_panic("e2e:read", ctx, || parse_pdf(&pdf, crop.clone()).and_then(|p| parse_mk_pages_into_acts(&p))) else { return };
    let raws = match raws {
        Ok(x) => x,
        Err(e) => {
            m.fail("e2e:refused", format!("{e:#}\n{}", ctx()));
            return;
        }
    };
    if !m.eq(&raws.iter().map(|a| a.identifier).collect::<Vec<_>>(), &want.iter().map(|a| a.identifier).collect::<Vec<_>>(), "e2e:acts", ctx) {
        return;
    }
    for (mut raw, w) in raws.into_iter().zip(&want) {
        if let Some(res) = m.no_panic("e2e:fixups", ctx, || Fixups::load_from(raw.identifier, scratch.path().into()).and_then(|f| f.apply(&mut raw.body))) {
            m.check(res.is_ok(), "e2e:fixups", || format!("{res:?}"));
        }
        let Some(got) = m.no_panic("e2e:structure", ctx, || parse_act_structure(&raw)) else { return };
        let mut got = match got {
            Ok(x) => x,
            Err(e) => {
                m.fail("e2e:structure_refused", format!("{e:#}\n{}", ctx()));
                return;
            }
        };
        // and through storage
        let json = serde_json::to_string(&got).unwrap();
        match serde_json::from_str::<Act>(&json) {
            Ok(b) => got = b,
            Err(e) => m.fail("e2e:load", format!("{e}\n{json}")),
        }
        let mut w = w.clone();
        plain_quotes(&mut got);
        plain_quotes(&mut w);
        m.eq(&got, &w, "e2e:tree", ctx);
        m.count("acts", 1);
        m.count("elements", w.children.len() as u64);
    }
}

trait Year {
    fn year_(&self) -> i32;
}
impl Year for chrono::NaiveDate {
    fn year_(&self) -> i32 {
        chrono::Datelike::year(self)
    }
}

fn c25(env: &Env, m: &mut Mon) {
    env.suite(m, "issues", env.n(3000, 60000), e2e);
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C25",
        level: "exploration",
        rule: "random issues of 1..3 random acts, typeset, paginated, drawn as PDF (random fonts, operators, order, forms) with running headers outside the crop box; misprints corrected by stored fixups; read, cut, corrected, parsed, stored and loaded; every resulting tree equals the generated one; distinct by file",
        assumptions: &["pages break at gaps of the text", "the gazette's layout conventions as in C03 and C04", "of quoted lines, text and boldness are compared"],
        run: c25,
    }]
}
