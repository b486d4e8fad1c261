//! C01, C02: reading PDFs.
use hun_law::{
    parser::pdf::{parse_pdf, CropBox, PageOfLines},
    util::indentedline::IndentedLine,
};

use crate::{
    lines::MLine,
    mon::{Env, Mon},
    pdfgen::{Doc, FontSpec, Item, Kind, Knobs, Page},
    rng::Rng,
    Check,
};

const TOL: f64 = 0.02;

fn show(ls: &[IndentedLine]) -> String {
    ls.iter().map(|l| format!("    {:7.2} {:?}\n", l.indent(), l.content())).collect()
}
fn show_m(ls: &[MLine]) -> String {
    ls.iter().map(|l| format!("    {:7.2} {:?}\n", l.chars.first().map_or(0.0, |c| c.0), l.text())).collect()
}

/// One page against the placement model
pub fn same_page(m: &mut Mon, key: &str, got: &PageOfLines, want: &[MLine], ctx: &dyn Fn() -> String) -> bool {
    let gt: Vec<&str> = got.lines.iter().map(|l| l.content()).collect();
    let wt: Vec<String> = want.iter().map(|l| l.text()).collect();
    if !m.check(gt == wt, &format!("{key}:text"), || {
        let i = (0..gt.len().max(wt.len())).find(|i| gt.get(*i).copied() != wt.get(*i).map(|s| s.as_str())).unwrap_or(0);
        format!("{}first difference at line {i}: got {:?} want {:?}\n  got:\n{}  want:\n{}", ctx(), gt.get(i), wt.get(i), show(&got.lines), show_m(want))
    }) {
        return false;
    }
    for (l, w) in got.lines.iter().zip(want) {
        let n = w.chars.len();
        let c = || format!("{}line {:?}", ctx(), l.content());
        if !m.check(l.is_empty() == (n == 0) && l.len() == n, &format!("{key}:len"), c) {
            return false;
        }
        if n == 0 {
            continue;
        }
        if !m.check(l.is_justified() == w.justified, &format!("{key}:justified"), || format!("{} want {}", c(), w.justified))
            || !m.check(l.is_bold() == w.bold(), &format!("{key}:bold"), || format!("{} want {}", c(), w.bold()))
            || !m.check((l.indent() - w.chars[0].0).abs() < TOL, &format!("{key}:indent"), || format!("{} got {} want {}", c(), l.indent(), w.chars[0].0))
        {
            return false;
        }
        for (i, wc) in w.chars.iter().enumerate() {
            let at = l.indent_at(i as i64);
            // where in the gap a space is recorded is nobody's business
            let lo = if wc.1 == ' ' && i > 0 { w.chars[i - 1].0 } else { wc.0 };
            let hi = if wc.1 == ' ' && i + 1 < n { w.chars[i + 1].0.max(wc.0) } else { wc.0 };
            if !m.check(at > lo - TOL && at < hi + TOL, &format!("{key}:position"), || format!("{} char {i} {:?} got {at} want {}", c(), wc.1, wc.0)) {
                return false;
            }
            if wc.1 != ' ' {
                let b = l.slice(i as i64, Some(i as i64 + 1)).is_bold();
                if !m.check(b == wc.2, &format!("{key}:charbold"), || format!("{} char {i} {:?} got {b} want {}", c(), wc.1, wc.2)) {
                    return false;
                }
            }
        }
    }
    true
}

fn gen_fonts(r: &mut Rng, lo: i64, hi: i64) -> Vec<FontSpec> {
    let mut v: Vec<FontSpec> = vec![];
    for i in 0..r.range(lo, hi) {
        // subsets of a font and fonts that differ in one thing only are common
        let f = if !v.is_empty() && r.chance(1, 3) {
            let k = r.below(v.len());
            v[k].sibling(r, i as usize)
        } else {
            FontSpec::gen(r, i as usize)
        };
        v.push(f);
    }
    v
}

fn gen_crop(r: &mut Rng) -> CropBox {
    match r.below(4) {
        0 => {
            let bottom = r.f(0.0, 780.0);
            CropBox { bottom: bottom as f32, left: r.f(0.0, 150.0) as f32, top: r.f(bottom + 20.0, 850.0) as f32, right: r.f(200.0, 620.0) as f32 }
        }
        1 => CropBox { bottom: 0.0, left: 0.0, top: 820.0, right: 1000.0 },
        _ => CropBox::default(),
    }
}

fn gen_page(r: &mut Rng, fonts: &[FontSpec], crop: &CropBox, lines: i64) -> (Page, Vec<MLine>) {
    loop {
        let p = Page::gen(r, fonts, lines);
        if let Some(l) = p.lines(fonts, crop) {
            return (p, l);
        }
    }
}

fn knobs(r: &mut Rng) -> Knobs {
    Knobs { forms: r.chance(2, 3), gs_fonts: r.chance(1, 2), inherit_resources: r.chance(1, 6), direct_fonts: r.chance(1, 3) }
}

fn c01(env: &Env, m: &mut Mon) {
    env.suite(m, "page", env.n(25000, 500000), |r, m| {
        let fonts = gen_fonts(r, 1, 5);
        let crop = gen_crop(r);
        let (page, want) = gen_page(r, &fonts, &crop, 25);
        let k = knobs(r);
        let (pdf, used) = Doc::new(&fonts, k.clone()).document(r, std::slice::from_ref(&page), true);
        let ctx = || {
            if std::env::var("DUMP_PDF").is_ok() {
                let _ = std::fs::write("/tmp/dump.pdf", &pdf);
            }
            format!("fonts {:?}\n{k:?}\n", fonts.iter().map(|f| (f.kind, f.name.as_str(), f.base, f.space())).collect::<Vec<_>>())
        };
        let Some(got) = m.no_panic("parse", &ctx, || parse_pdf(&pdf, crop.clone())) else { return };
        let got = match got {
            Ok(g) => g,
            Err(e) => {
                m.fail("refused", format!("{}{e:?}", ctx()));
                return;
            }
        };
        for (k, v) in used {
            m.count(k, v);
        }
        if !m.eq(&got.len(), &1, "pages", ctx) {
            return;
        }
        m.count("lines", want.len() as u64);
        m.count("characters", want.iter().map(|l| l.chars.len() as u64).sum());
        m.count("spaces", want.iter().flat_map(|l| &l.chars).filter(|c| c.1 == ' ').count() as u64);
        m.observe(&pdf, want.len() > 1);
        if same_page(m, "page", &got[0], &want, &ctx) {
            m.sample(|| show_m(&want[..want.len().min(4)]));
        }
    });
    // a code that stands for no known character: never dropped, never guessed
    env.suite(m, "unknown", env.n(4000, 60000), |r, m| {
        let fonts = gen_fonts(r, 1, 4);
        let crop = CropBox::default();
        let (mut page, _) = gen_page(r, &fonts, &crop, 10);
        let unknown = |f: &FontSpec| -> Vec<u32> {
            match (f.kind, f.base) {
                (Kind::Type0, _) => vec![],
                (_, None) => (1..=255).filter(|c| !f.map.contains_key(c)).collect(),
                _ => vec![],
            }
        };
        let mut places: Vec<usize> = (0..page.segments.len())
            .filter(|i| page.segments[*i].actual.is_none() && !unknown(&fonts[page.segments[*i].font]).is_empty())
            .collect();
        if places.is_empty() {
            return;
        }
        r.shuffle(&mut places);
        let s = &mut page.segments[places[0]];
        let code = *r.pick(&unknown(&fonts[s.font]));
        let at = r.below(s.items.len() + 1);
        s.items.insert(at, Item::Code(code));
        let font = s.font;
        let (pdf, _) = Doc::new(&fonts, knobs(r)).document(r, std::slice::from_ref(&page), true);
        let ctx = || format!("code {code} of {:?}", fonts[font]);
        let Some(got) = m.no_panic("unknown", &ctx, || parse_pdf(&pdf, crop.clone())) else { return };
        m.count("unknown_codes", 1);
        m.observe(&pdf, true);
        if let Ok(g) = got {
            m.fail("unknown:read", format!("{}\n{:?}", ctx(), g[0].lines.iter().map(|l| l.content()).collect::<Vec<_>>()));
        }
    });
}

fn c02(env: &Env, m: &mut Mon) {
    env.suite(m, "pages", env.n(5000, 120000), |r, m| {
        let fonts = gen_fonts(r, 2, 12);
        let crop = gen_crop(r);
        let n = r.range(2, 9);
        let all: Vec<_> = (0..n).map(|_| gen_page(r, &fonts, &crop, 8)).collect();
        let k = knobs(r);
        let pages: Vec<Page> = all.iter().map(|p| p.0.clone()).collect();
        let (pdf, used) = Doc::new(&fonts, k.clone()).document(r, &pages, true);
        for (k, v) in used {
            m.count(k, v);
        }
        let ctx = || {
            if std::env::var("DUMP_PDF").is_ok() {
                let _ = std::fs::write("/tmp/dump.pdf", &pdf);
            }
            format!("{n} pages, {k:?}\n")
        };
        let Some(got) = m.no_panic("parse", &ctx, || parse_pdf(&pdf, crop.clone())) else { return };
        let Ok(got) = got else {
            m.fail("refused", format!("{}{:?}", ctx(), got.unwrap_err()));
            return;
        };
        m.observe(&pdf, true);
        m.count("pages", n as u64);
        if !m.eq(&got.len(), &(n as usize), "pages", ctx) {
            return;
        }
        for (i, (g, (_, want))) in got.iter().zip(&all).enumerate() {
            let c = || format!("page {i} of {}", ctx());
            if !same_page(m, "page", g, want, &c) {
                return;
            }
        }
        // each page alone, drawn differently
        let i = r.below(n as usize);
        let (one, _) = Doc::new(&fonts, knobs(r)).document(r, &pages[i..i + 1], true);
        if let Some(Ok(alone)) = m.no_panic("parse", &ctx, || parse_pdf(&one, crop.clone())) {
            m.count("pages_alone", 1);
            let texts = |p: &PageOfLines| p.lines.iter().map(|l| l.content().to_string()).collect::<Vec<_>>();
            m.eq(&texts(&got[i]), &texts(&alone[0]), "alone", ctx);
        }
        // again
        if let Some(Ok(again)) = m.no_panic("parse", &ctx, || parse_pdf(&pdf, crop.clone())) {
            m.count("reread", 1);
            m.check(same_lines(&got, &again), "reread", ctx);
        }
    });
    // the same documents at the same time from many threads
    env.suite(m, "threads", env.n(60, 1500), |r, m| {
        let fonts = gen_fonts(r, 3, 8);
        let crop = CropBox::default();
        let docs: Vec<_> = (0..3)
            .map(|_| {
                let all: Vec<_> = (0..r.range(1, 5)).map(|_| gen_page(r, &fonts, &crop, 10)).collect();
                let pages: Vec<Page> = all.iter().map(|p| p.0.clone()).collect();
                let k = knobs(r);
                (Doc::new(&fonts, k).document(r, &pages, true).0, all.into_iter().map(|p| p.1).collect::<Vec<_>>())
            })
            .collect();
        let results: Vec<Vec<(usize, Result<Vec<PageOfLines>, String>)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|t| {
                    let docs = &docs;
                    let crop = &crop;
                    s.spawn(move || {
                        (0..6usize)
                            .map(|k| {
                                let d = (t + k) % docs.len();
                                let r = crate::mon::guard(|| parse_pdf(&docs[d].0, crop.clone()));
                                (d, match r {
                                    Ok(Ok(v)) => Ok(v),
                                    Ok(Err(e)) => Err(format!("{e:?}")),
                                    Err(p) => Err(p.to_string()),
                                })
                            })
                            .collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (t, rs) in results.into_iter().enumerate() {
            for (d, res) in rs {
                m.observe(&(t, &docs[d].0), true);
                m.count("concurrent_reads", 1);
                match res {
                    Err(e) => m.fail("concurrent:refused", e),
                    Ok(pages) => {
                        if !m.eq(&pages.len(), &docs[d].1.len(), "concurrent:pages", String::new) {
                            return;
                        }
                        for (g, w) in pages.iter().zip(&docs[d].1) {
                            if !same_page(m, "concurrent", g, w, &|| format!("thread {t}")) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    });
    corpus(env, m);
}

fn same_lines(a: &[PageOfLines], b: &[PageOfLines]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| x.lines.len() == y.lines.len() && x.lines.iter().zip(&y.lines).all(|(p, q)| format!("{p:?}") == format!("{q:?}") && p.is_justified() == q.is_justified()))
}

pub fn corpus_files() -> Vec<(String, Vec<u8>)> {
    let dir = crate::verif_dir().join("corpus/pdf");
    let mut v = vec![];
    for e in std::fs::read_dir(dir).expect("corpus").flatten() {
        let p = e.path();
        if p.extension().map_or(false, |x| x == "pdf") {
            v.push((p.file_name().unwrap().to_string_lossy().to_string(), std::fs::read(&p).unwrap()));
        }
    }
    v.sort();
    v
}

/// Captured gazette pages: the same every time, from every thread
fn corpus(env: &Env, m: &mut Mon) {
    let files = corpus_files();
    env.suite(m, "gazette", files.len() as u64, |_, m| {
        let (name, data) = &files[m.case as usize % files.len()];
        let Some(Ok(first)) = m.no_panic("gazette", || name.clone(), || parse_pdf(data, CropBox::default())) else {
            m.fail("gazette:refused", name.clone());
            return;
        };
        m.observe(name, true);
        for _ in 0..3 {
            if let Some(Ok(again)) = m.no_panic("gazette", || name.clone(), || parse_pdf(data, CropBox::default())) {
                m.count("reread", 1);
                m.check(same_lines(&first, &again), "gazette:reread", || name.clone());
            }
        }
    });
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            level: "exploration",
            rule: "one-page PDFs laid out by a placement model and drawn at random: every text operator, Type1/TrueType/Type0 fonts with base encodings, Differences and ToUnicode, ligatures, ActualText, forms, save/restore, fonts by Tf or gs, split and compressed streams, any order; non-trivial: at least two lines; distinct by file",
            assumptions: &[
                "horizontal text under the default coordinate system (cm and form matrices are not supported by the reader)",
                "layouts where rounding could tip a decision (0.03 pt) are not used",
                "no word spacing with two-byte fonts, no font change inside a replacement text, PDF syntax kept to what the pdf crate reads",
            ],
            run: c01,
        },
        Check {
            id: "C02",
            level: "exploration",
            rule: "documents of 2..9 pages sharing and re-declaring up to 12 fonts under clashing names, forms and graphics states, read whole, alone, again and from 8 threads; every page against the placement model; distinct by file",
            assumptions: &["as C01"],
            run: c02,
        },
    ]
}
