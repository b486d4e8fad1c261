//! C06: conversion of quoted amendments.
use hun_law::{
    identifier::{range::{IdentifierRange, IdentifierRangeFrom}, *},
    parser::structure::parse_act_structure,
    reference::{
        structural::{StructuralReference, StructuralReferenceElement},
        Reference,
    },
    semantic_info::{self, SpecialPhrase},
    structure::*,
};

use crate::{
    acts::*,
    c_struct::{corpus_docs, hostile_body, mutate_body, stream, Eat},
    lines::MLine,
    mon::{guard, Env, Mon},
    rng::Rng,
    Check,
};

/// What was announced, with the elements expected from the quotation
#[derive(Debug, Clone)]
pub enum Announced {
    Simple(Reference, BlockAmendmentChildren),
    Structural(StructuralReference, Vec<ActChild>),
}

fn drop_outer_wrap<IT: IdentifierCommon, CT: ChildrenCommon>(last: Option<&SubArticleElement<IT, CT>>, wrap_up: &mut Option<String>) {
    // without indentation, a wrap-up directly after the last inner list belongs to that list
    if let Some(SubArticleElement { body: SAEBody::Children { wrap_up: None, .. }, .. }) = last {
        *wrap_up = None;
    }
}
/// Make a paragraph expressible without indentation
fn fix_paragraph(p: &mut Paragraph) {
    if let SAEBody::Children { children, wrap_up, .. } = &mut p.body {
        match children {
            ParagraphChildren::AlphabeticPoint(v) => drop_outer_wrap(v.last(), wrap_up),
            ParagraphChildren::NumericPoint(v) => drop_outer_wrap(v.last(), wrap_up),
            _ => {}
        }
    }
}
fn fix_article(a: &mut Article) {
    a.children.iter_mut().for_each(fix_paragraph);
}

fn some_suffix(r: &mut Rng) -> Option<u8> {
    r.chance(1, 4).then(|| r.below(4) as u8)
}
fn cut(v: &mut Vec<NumericIdentifier>, r: &mut Rng) {
    let n = if r.chance(1, 2) { 1 } else { r.range(1, 4) as usize };
    v.truncate(n);
}
/// The announced position, through its stored form
fn position(r: &mut Rng, parts: &[(&str, String, String)]) -> Reference {
    let mut o = serde_json::Map::new();
    if r.chance(3, 4) {
        o.insert("act".into(), serde_json::json!({"year": r.range(1990, 2025), "number": r.range(1, 200)}));
    }
    for (k, a, b) in parts {
        let v = if a == b { serde_json::json!(a) } else { serde_json::json!({"start": a, "end": b}) };
        o.insert(k.to_string(), v);
    }
    serde_json::from_value(serde_json::Value::Object(o)).unwrap()
}
fn one(k: &'static str, v: impl ToString) -> (&'static str, String, String) {
    (k, v.to_string(), v.to_string())
}
fn ends<T: ToString>(k: &'static str, v: &[T]) -> (&'static str, String, String) {
    (k, v[0].to_string(), v[v.len() - 1].to_string())
}
fn art_id(r: &mut Rng) -> ArticleIdentifier {
    let s = some_suffix(r);
    let book = r.chance(1, 5).then(|| r.range(1, 9) as u8);
    let n = r.range(1, 300) as u16;
    let i = numbering_from(r, 1, n, s)[0];
    ArticleIdentifier::from_book_and_id(book, i)
}

/// An announced amendment and the lines of its quotation
pub fn gen_amendment(r: &mut Rng) -> (Announced, Vec<MLine>) {
    let cfg = Cfg { quotes: *r.pick(&[0, 0, 6]), blocks: *r.pick(&[0, 2, 6]), tricky: 0, long: r.chance(1, 6) };
    let mut first_prefix = String::new();
    let ann = match r.below(10) {
        0 | 1 => {
            let (n, s) = (r.range(1, 30) as u16, some_suffix(r));
            let mut ids = numbering_from(r, 4, n, s);
            cut(&mut ids, r);
            let article = art_id(r);
            let v: Vec<Paragraph> = ids
                .iter()
                .map(|i| {
                    let mut p = gen_paragraph(r, &cfg, (*i).into());
                    fix_paragraph(&mut p);
                    p
                })
                .collect();
            if r.chance(1, 3) {
                first_prefix = format!("{article}. § ");
            }
            let pos = position(r, &[one("article", article), ends("paragraph", &ids)]);
            Announced::Simple(pos, v.into())
        }
        2 | 3 => {
            let (n, s) = (r.range(1, 60) as u16, some_suffix(r));
            let mut ids = numbering_from(r, 4, n, s);
            cut(&mut ids, r);
            let v: Vec<NumericPoint> = ids.iter().map(|i| gen_num_point(r, &cfg, *i)).collect();
            let (a, p) = (art_id(r), r.range(1, 20));
            Announced::Simple(position(r, &[one("article", a), one("paragraph", p), ends("point", &ids)]), v.into())
        }
        4 | 5 => {
            let start = r.below(30);
            let n = if r.chance(1, 2) { 1 } else { r.range(1, 4) as usize };
            let ids = lettering(r, n, start);
            let v: Vec<AlphabeticPoint> = ids.iter().map(|l| gen_alpha_point(r, &cfg, l)).collect();
            let (a, p) = (art_id(r), r.range(1, 20));
            Announced::Simple(position(r, &[one("article", a), one("paragraph", p), ends("point", &ids)]), v.into())
        }
        6 => {
            // subpoints of both kinds
            let (a, p) = (art_id(r), r.range(1, 20));
            if r.chance(1, 2) {
                let (n, s) = (r.range(1, 20) as u16, some_suffix(r));
                let mut ids = numbering_from(r, 4, n, s);
                cut(&mut ids, r);
                let v: Vec<NumericSubpoint> = ids
                    .iter()
                    .map(|i| NumericSubpoint { identifier: *i, body: text(r, &cfg, 0, 12).into(), semantic_info: Default::default(), last_change: None })
                    .collect();
                Announced::Simple(position(r, &[one("article", a), one("paragraph", p), one("point", "b"), ends("subpoint", &ids)]), v.into())
            } else {
                let l = *r.pick(&["a", "b", "e", "f", "h", "k", "p"]);
                let prefix = if r.chance(1, 2) { Some(l) } else { None };
                let start = r.below(20);
                let n = r.range(1, 4) as usize;
                let ids: Vec<PrefixedAlphabeticIdentifier> = sub_lettering(n, start).iter().map(|c| format!("{}{c}", prefix.unwrap_or("")).parse().unwrap()).collect();
                let v: Vec<AlphabeticSubpoint> = ids
                    .iter()
                    .map(|i| AlphabeticSubpoint { identifier: *i, body: text(r, &cfg, 0, 12).into(), semantic_info: Default::default(), last_change: None })
                    .collect();
                let pt = prefix.unwrap_or("3");
                Announced::Simple(position(r, &[one("article", a), one("paragraph", p), one("point", pt), ends("subpoint", &ids)]), v.into())
            }
        }
        7 | 8 => {
            let book = r.chance(1, 5).then(|| r.range(1, 9) as u8);
            let (n, s) = (r.range(1, 300) as u16, some_suffix(r));
            let mut ids = numbering_from(r, 4, n, s);
            cut(&mut ids, r);
            let ids: Vec<ArticleIdentifier> = ids.into_iter().map(|i| ArticleIdentifier::from_book_and_id(book, i)).collect();
            let v: Vec<ActChild> = ids
                .iter()
                .map(|i| {
                    let mut a = gen_article(r, &cfg, *i);
                    fix_article(&mut a);
                    a.into()
                })
                .collect();
            sref(r, StructuralReferenceElement::Article(IdentifierRange::from_range(ids[0], ids[ids.len() - 1])), false, v)
        }
        _ => {
            let n = NumericIdentifier::from(r.range(1, 30) as u16);
            if r.chance(1, 2) {
                // titles only
                match r.below(4) {
                    0 => {
                        let st = gen_subtitle(r);
                        let e = match &st.identifier {
                            Some(i) => StructuralReferenceElement::SubtitleId(*i),
                            None => StructuralReferenceElement::SubtitleBeforeArticle(art_id(r)),
                        };
                        sref(r, e, true, vec![st.into()])
                    }
                    k => {
                        let (e, t) = match k {
                            1 => (StructuralReferenceElement::Part(n), StructuralElementType::Part { is_special: false }),
                            2 => (StructuralReferenceElement::Title(n), StructuralElementType::Title),
                            _ => (StructuralReferenceElement::Chapter(n), StructuralElementType::Chapter),
                        };
                        let se = StructuralElement { identifier: n, title: title(r), element_type: t, last_change: None };
                        sref(r, e, true, vec![se.into()])
                    }
                }
            } else {
                let k = r.range(1, 5) as usize;
                let cfg = Cfg { blocks: cfg.blocks.min(2), ..cfg };
                let mut v = gen_children(r, &cfg, k);
                for c in &mut v {
                    if let ActChild::Article(a) = c {
                        fix_article(a);
                    }
                }
                let e = *r.pick(&[0, 1, 2, 3]);
                let e = match e {
                    0 => StructuralReferenceElement::Part(n),
                    1 => StructuralReferenceElement::Chapter(n),
                    2 => StructuralReferenceElement::SubtitleId(n),
                    _ => StructuralReferenceElement::SubtitleUnknown,
                };
                sref(r, e, false, v)
            }
        }
    };
    let mut ts = Ts::new(r, true);
    ts.width = ts.width.max(20);
    let slash = ts.slash_suffix;
    let x = 50.0;
    match &ann {
        Announced::Simple(_, c) => match c {
            BlockAmendmentChildren::Paragraph(v) => {
                for p in v {
                    let head = format!("{}({}) ", std::mem::take(&mut first_prefix), p.identifier);
                    ts.kids(&head, &par_kids(p, slash), x, false);
                }
            }
            BlockAmendmentChildren::AlphabeticPoint(v) => ts.elements(&alpha_kids(v, slash), x),
            BlockAmendmentChildren::NumericPoint(v) => ts.elements(&num_kids(v, slash), x),
            BlockAmendmentChildren::AlphabeticSubpoint(v) => ts.elements(&alpha_sub_kids(v), x),
            BlockAmendmentChildren::NumericSubpoint(v) => ts.elements(&num_sub_kids(v, slash), x),
        },
        Announced::Structural(p, v) => {
            if p.title_only && !matches!(v[0], ActChild::Subtitle(_)) && ts.r.chance(1, 2) {
                // only the title itself is quoted
                if let ActChild::StructuralElement(se) = &v[0] {
                    ts.plain_text(&se.title, x);
                }
            } else {
                ts.children(v, x);
            }
        }
    }
    let out = std::mem::take(&mut ts.out);
    (ann, out)
}

fn sref(r: &mut Rng, e: StructuralReferenceElement, title_only: bool, v: Vec<ActChild>) -> Announced {
    Announced::Structural(
        StructuralReference {
            act: r.chance(3, 4).then(|| ActIdentifier { year: 2010, number: r.range(1, 200) as i32 }),
            book: r.chance(1, 8).then(|| 3.into()),
            parent: None,
            structural_element: e,
            title_only,
        },
        v,
    )
}

fn phrase(r: &mut Rng, a: &Announced) -> SpecialPhrase {
    let pure_insertion = r.chance(1, 2);
    match a {
        Announced::Simple(p, _) => semantic_info::BlockAmendment { position: p.clone(), pure_insertion }.into(),
        Announced::Structural(p, _) => semantic_info::StructuralBlockAmendment { position: p.clone(), pure_insertion }.into(),
    }
}

fn opt(r: &mut Rng) -> Option<String> {
    let cfg = Cfg { quotes: 0, blocks: 0, tricky: 0, long: false };
    r.chance(1, 2).then(|| text(r, &cfg, 0, 6))
}

fn wrap_paragraph(r: &mut Rng, lines: &[MLine], sp: Option<SpecialPhrase>) -> Paragraph {
    let cfg = Cfg { quotes: 0, blocks: 0, tricky: 0, long: false };
    let mut real: Vec<_> = lines.iter().map(|l| l.real()).collect();
    // the closing mark was cut off the last line
    if let Some(l) = lines.last() {
        *real.last_mut().unwrap() = MLine { justified: false, ..l.clone() }.real();
    }
    Paragraph {
        identifier: NumericIdentifier::from(r.range(1, 9) as u16).into(),
        body: SAEBody::Children {
            intro: text(r, &cfg, 0, 8),
            children: vec![QuotedBlock { intro: opt(r), lines: real, wrap_up: opt(r) }].into(),
            wrap_up: opt(r),
        },
        semantic_info: semantic_info::SemanticInfo { special_phrase: sp, ..Default::default() },
        last_change: None,
    }
}

pub fn show_lines(l: &[MLine]) -> String {
    l.iter().map(|l| format!("{}{} |{}", if l.bold() { 'B' } else { ' ' }, if l.justified { 'J' } else { ' ' }, l.text())).collect::<Vec<_>>().join("\n")
}

/// Judge a conversion without knowing the expected elements
fn judge(m: &mut Mon, key: &str, before: &Paragraph, after: &Paragraph, ok: bool, ctx: &dyn Fn() -> String) {
    if !ok {
        m.count("refused", 1);
        m.check(before == after && same_blocks(before, after), &format!("{key}:not-all-or-nothing"), || {
            format!("conversion failed but the paragraph changed\n before {before:?}\n after {after:?}\n{}", ctx())
        });
        return;
    }
    let (SAEBody::Children { intro: i1, children: c1, wrap_up: w1 }, SAEBody::Children { intro: i2, children: c2, wrap_up: w2 }) = (&before.body, &after.body) else {
        m.check(before == after, &format!("{key}:touched"), ctx);
        return;
    };
    let ParagraphChildren::QuotedBlock(qs) = c1 else { return };
    let announced = matches!(before.semantic_info.special_phrase, Some(SpecialPhrase::BlockAmendment(_) | SpecialPhrase::StructuralBlockAmendment(_)));
    if qs.len() != 1 || !announced {
        m.count("not_announced", 1);
        m.check(before == after && same_blocks(before, after), &format!("{key}:touched"), || format!("{before:?} {after:?}"));
        return;
    }
    m.count("converted", 1);
    m.check(
        i1 == i2 && w1 == w2 && before.identifier == after.identifier && before.semantic_info == after.semantic_info && before.last_change == after.last_change,
        &format!("{key}:frame"),
        || format!("{before:?}\n{after:?}"),
    );
    let q = &qs[0];
    let s = stream(&q.lines);
    m.count("quoted_characters_accounted_for", s.len() as u64);
    let (intro, wrap, res) = match c2 {
        ParagraphChildren::BlockAmendment(b) => {
            m.check(matches!(before.semantic_info.special_phrase, Some(SpecialPhrase::BlockAmendment(_))), &format!("{key}:kind"), ctx);
            let mut e = Eat::new(&s);
            let mut res = e.amendment_children(&b.children).and_then(|_| e.end());
            if let (Err(_), Some(SpecialPhrase::BlockAmendment(p))) = (&res, &before.semantic_info.special_phrase) {
                if let (BlockAmendmentChildren::Paragraph(_), Some(a)) = (&b.children, p.position.article()) {
                    // the article header may be repeated before the paragraphs
                    let mut e = Eat::new(&s);
                    res = e.text(&format!("{}. §", a.first_in_range())).and_then(|_| e.amendment_children(&b.children)).and_then(|_| e.end());
                }
            }
            if let Some(SpecialPhrase::BlockAmendment(p)) = &before.semantic_info.special_phrase {
                sequence(m, key, &p.position, &b.children, ctx);
            }
            (&b.intro, &b.wrap_up, res)
        }
        ParagraphChildren::StructuralBlockAmendment(b) => {
            m.check(matches!(before.semantic_info.special_phrase, Some(SpecialPhrase::StructuralBlockAmendment(_))), &format!("{key}:kind"), ctx);
            let mut e = Eat::new(&s);
            let mut res = b.children.iter().try_for_each(|c| e.child(c)).and_then(|_| e.end());
            if let (Err(_), Some(SpecialPhrase::StructuralBlockAmendment(p))) = (&res, &before.semantic_info.special_phrase) {
                if let (true, [ActChild::StructuralElement(se)]) = (p.position.title_only, b.children.as_slice()) {
                    let mut e = Eat::new(&s);
                    res = e.text(&se.title).and_then(|_| e.end());
                    let id = match &p.position.structural_element {
                        StructuralReferenceElement::Part(i) | StructuralReferenceElement::Title(i) | StructuralReferenceElement::Chapter(i) => Some(*i),
                        _ => None,
                    };
                    m.check(id == Some(se.identifier), &format!("{key}:title-position"), ctx);
                }
            }
            if let Some(SpecialPhrase::StructuralBlockAmendment(semantic_info::StructuralBlockAmendment {
                position: StructuralReference { structural_element: StructuralReferenceElement::Article(a), .. }, ..
            })) = &before.semantic_info.special_phrase {
                let ids: Vec<_> = b.children.iter().map(|c| if let ActChild::Article(a) = c { Some(a.identifier) } else { None }).collect();
                let ok = ids.first() == Some(&Some(a.first_in_range()))
                    && ids.windows(2).all(|w| matches!((w[0], w[1]), (Some(p), Some(n)) if n.is_next_from(p)));
                m.check(ok, &format!("{key}:sequence"), || format!("{ids:?}\n{}", ctx()));
            }
            (&b.intro, &b.wrap_up, res)
        }
        _ => {
            m.fail(&format!("{key}:not-converted"), format!("{after:?}\n{}", ctx()));
            return;
        }
    };
    m.check(intro == &q.intro && wrap == &q.wrap_up, &format!("{key}:intro"), || format!("{intro:?} {wrap:?} from {:?} {:?}\n{}", q.intro, q.wrap_up, ctx()));
    if let Err(e) = res {
        m.fail(&format!("{key}:words"), format!("{e}\n{after:?}\n{}", ctx()));
    }
}

fn chain<T: IdentifierCommon>(first: T, ids: &[T]) -> bool {
    ids.first() == Some(&first) && ids.windows(2).all(|w| w[1].is_next_from(w[0]))
}
fn sequence(m: &mut Mon, key: &str, pos: &Reference, c: &BlockAmendmentChildren, ctx: &dyn Fn() -> String) {
    use hun_law::reference::parts::{AnyReferencePart as A, RefPartPoint, RefPartSubpoint};
    let ok = match (pos.get_last_part(), c) {
        (A::Paragraph(p), BlockAmendmentChildren::Paragraph(v)) => chain(p.first_in_range().into(), &v.iter().map(|x| x.identifier).collect::<Vec<ParagraphIdentifier>>()),
        (A::Point(RefPartPoint::Numeric(p)), BlockAmendmentChildren::NumericPoint(v)) => chain(p.first_in_range(), &v.iter().map(|x| x.identifier).collect::<Vec<_>>()),
        (A::Point(RefPartPoint::Alphabetic(p)), BlockAmendmentChildren::AlphabeticPoint(v)) => chain(p.first_in_range(), &v.iter().map(|x| x.identifier).collect::<Vec<_>>()),
        (A::Subpoint(RefPartSubpoint::Numeric(p)), BlockAmendmentChildren::NumericSubpoint(v)) => chain(p.first_in_range(), &v.iter().map(|x| x.identifier).collect::<Vec<_>>()),
        (A::Subpoint(RefPartSubpoint::Alphabetic(p)), BlockAmendmentChildren::AlphabeticSubpoint(v)) => chain(p.first_in_range(), &v.iter().map(|x| x.identifier).collect::<Vec<_>>()),
        _ => false,
    };
    m.check(ok, &format!("{key}:sequence"), || format!("position {pos:?} children {c:?}\n{}", ctx()));
}

/// Line equality ignores some of what a line holds
fn same_blocks(a: &Paragraph, b: &Paragraph) -> bool {
    serde_json::to_string(a).ok() == serde_json::to_string(b).ok()
}

fn act_of(paragraphs: Vec<Paragraph>) -> Act {
    Act {
        identifier: ActIdentifier { year: 2020, number: 1 },
        subject: "próba".into(),
        preamble: String::new(),
        publication_date: chrono::NaiveDate::from_ymd_opt(2020, 1, 1).unwrap(),
        contained_abbreviations: Default::default(),
        children: vec![Article { identifier: "1".parse().unwrap(), title: None, children: paragraphs, last_change: None }.into()],
    }
}

pub fn announced_paragraph(r: &mut Rng, ann: &Announced, lines: &[MLine]) -> Paragraph {
    let sp = phrase(r, ann);
    wrap_paragraph(r, lines, Some(sp))
}

fn c06(env: &Env, m: &mut Mon) {
    env.suite(m, "expected", env.n(30_000, 600_000), |r, m| {
        let (ann, lines) = gen_amendment(r);
        let sp = phrase(r, &ann);
        let before = wrap_paragraph(r, &lines, Some(sp));
        let mut after = before.clone();
        let ctx = || format!("{ann:?}\n{}", show_lines(&lines));
        let Some(res) = m.no_panic("expected", ctx, || after.convert_block_amendments()) else { return };
        judge(m, "expected", &before, &after, res.is_ok(), &ctx);
        if let Err(e) = res {
            m.fail("expected:refused", format!("{e:#}\n{}", ctx()));
            return;
        }
        m.observe(&show_lines(&lines), true);
        m.sample(ctx);
        if let SAEBody::Children { children, .. } = &after.body {
            match (children, &ann) {
                (ParagraphChildren::BlockAmendment(b), Announced::Simple(_, want)) => {
                    m.eq(&b.children, want, "expected:elements", ctx);
                    m.count("simple", 1);
                }
                (ParagraphChildren::StructuralBlockAmendment(b), Announced::Structural(_, want)) => {
                    m.eq(&b.children, want, "expected:elements", ctx);
                    m.count("structural", 1);
                }
                _ => m.fail("expected:kind", ctx()),
            }
        }
    });
    env.suite(m, "hostile", env.n(60_000, 1_200_000), |r, m| {
        let (ann, mut lines) = gen_amendment(r);
        match r.below(5) {
            0 => lines = hostile_body(r),
            1 => {
                // another amendment's text
                lines = gen_amendment(r).1;
            }
            _ => mutate_body(r, &mut lines),
        }
        if lines.is_empty() {
            return;
        }
        let sp = match r.below(12) {
            0 => None,
            1 => Some(SpecialPhrase::Repeal(vec![])),
            _ => Some(phrase(r, &ann)),
        };
        let mut before = wrap_paragraph(r, &lines, sp);
        if r.chance(1, 10) {
            if let SAEBody::Children { children: ParagraphChildren::QuotedBlock(v), .. } = &mut before.body {
                let b = v[0].clone();
                v.push(b);
            }
        }
        let mut after = before.clone();
        let ctx = || format!("{ann:?}\n{}", show_lines(&lines));
        match guard(|| after.convert_block_amendments()) {
            Err(_) => m.count("panics_not_judged_here", 1),
            Ok(res) => {
                judge(m, "hostile", &before, &after, res.is_ok(), &ctx);
                m.observe(&show_lines(&lines), true);
            }
        }
    });
    // whole acts: every convertible paragraph is converted, the rest is untouched
    env.suite(m, "acts", env.n(3000, 60_000), |r, m| {
        let mut ps = vec![];
        for _ in 0..r.range(2, 6) {
            let (ann, lines) = gen_amendment(r);
            let sp = if r.chance(1, 4) { None } else { Some(phrase(r, &ann)) };
            ps.push(wrap_paragraph(r, &lines, sp));
        }
        if r.chance(1, 2) {
            ps.push(gen_paragraph(r, &Cfg { quotes: 0, blocks: 0, tricky: 0, long: false }, 7.into()));
        }
        let before = act_of(ps);
        let mut after = before.clone();
        match m.no_panic("acts", || format!("{before:?}"), || after.convert_block_amendments()) {
            Some(Ok(())) => {
                let b: Vec<_> = before.articles().flat_map(|a| a.children.iter()).collect();
                let a: Vec<_> = after.articles().flat_map(|a| a.children.iter()).collect();
                m.eq(&a.len(), &b.len(), "acts:paragraphs", || String::new());
                for (b, a) in b.iter().zip(a.iter()) {
                    judge(m, "acts", b, a, true, &|| format!("{b:?}"));
                }
                m.count("acts", 1);
                // converting again changes nothing
                let again = after.clone();
                let r = after.convert_block_amendments();
                m.check(r.is_ok() && again == after, "acts:again", || format!("{again:?}"));
            }
            Some(Err(e)) => m.fail("acts:refused", format!("{e:#}\n{before:?}")),
            None => {}
        }
    });
    env.suite(m, "corpus", 1, |_, m| {
        for (name, raw, want) in corpus_docs("amendments") {
            let Ok(Ok(mut got)) = guard(|| parse_act_structure(&raw)) else {
                m.fail("corpus:structure", name);
                continue;
            };
            // what the missing semantic parser would have announced
            for (g, w) in got.articles_mut().zip(want.articles()) {
                for (g, w) in g.children.iter_mut().zip(w.children.iter()) {
                    g.semantic_info = w.semantic_info.clone();
                }
            }
            match m.no_panic("corpus", || name.clone(), || got.convert_block_amendments()) {
                Some(Ok(())) => {
                    for (g, w) in got.articles_mut().zip(want.articles()) {
                        for (g, w) in g.children.iter_mut().zip(w.children.iter()) {
                            if let SAEBody::Children { children: ParagraphChildren::QuotedBlock(b), .. } = &mut g.body {
                                b.iter_mut().for_each(|b| b.lines = vec![]);
                            }
                            strip(g);
                            let mut w = w.clone();
                            strip(&mut w);
                            m.check(*g == w, "corpus:tree", || format!("{name}\n got {g:?}\n want {w:?}"));
                            m.count("corpus_paragraphs", 1);
                        }
                    }
                    m.observe(&name, true);
                }
                Some(Err(e)) => m.fail("corpus:refused", format!("{name}: {e:#}")),
                None => {}
            }
        }
    });
}

/// Forget the semantic info and quoted lines below the paragraph
fn strip(p: &mut Paragraph) {
    if let SAEBody::Children { children, .. } = &mut p.body {
        let v = serde_json::to_value(&*children).unwrap();
        let v = strip_json(v);
        *children = serde_json::from_value(v).unwrap();
    }
}
fn strip_json(v: serde_json::Value) -> serde_json::Value {
    use serde_json::Value as V;
    match v {
        V::Object(o) => V::Object(
            o.into_iter()
                .filter(|(k, _)| k != "semantic_info")
                .map(|(k, v)| if k == "lines" { (k, V::Array(vec![])) } else { (k, strip_json(v)) })
                .collect(),
        ),
        V::Array(a) => V::Array(a.into_iter().map(strip_json).collect()),
        v => v,
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C06",
        level: "exploration",
        rule: "random amendments of every announced kind with their quotation printed without indentation, hostile or foreign quotations, whole acts and stored documents; distinct by quoted text",
        assumptions: &[
            "announcements are injected, because the semantic parser cannot be built here",
            "quotations end each text with a non-justified line, as the gazette prints them",
        ],
        run: c06,
    }]
}
