//! C24: what the semantic parser recognises in legal text. Only in the `sem` build (see /verif/sem):
//! the parser is generated from the repository's grammar by tools/peg.py.
use std::collections::BTreeMap;

use chrono::NaiveDate;
use hun_law::{
    identifier::{range::*, *},
    parser::semantic_info::{abbreviation::AbbreviationCache, sae::SemanticInfoAdder, AbbreviationsChanged},
    reference::{structural::*, Reference},
    semantic_info::{BlockAmendment, StructuralBlockAmendment, *},
    structure::*,
    util::singleton_yaml,
};

use crate::{
    c_ident::*,
    c_ref::{decode, MPt, MRef, MSp},
    mon::{Env, Mon},
    rng::Rng,
    Check,
};

// ---------------------------------------------------------------- model of a text under construction

type Out = (usize, usize, MRef);

#[derive(Debug, Clone, Default)]
struct W {
    s: String,
    cur: MRef,
    start: Option<usize>,
    end: usize,
    out: Vec<Out>,
    abbr: BTreeMap<String, (i16, i32)>,
    new_abbr: BTreeMap<String, (i16, i32)>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Part {
    Art(MArt, MArt),
    Par(MNum, MNum),
    PtN(MNum, MNum),
    PtA(u8, u8),
    SpN(MNum, MNum),
    SpA(MPre, MPre),
}

impl Part {
    fn level(&self) -> usize {
        match self {
            Part::Art(..) => 1,
            Part::Par(..) => 2,
            Part::PtN(..) | Part::PtA(..) => 3,
            Part::SpN(..) | Part::SpA(..) => 4,
        }
    }
    fn apply(&self, m: &mut MRef) {
        *m = m.clear_from(self.level());
        match *self {
            Part::Art(a, b) => m.art = Some((a, b)),
            Part::Par(a, b) => m.par = Some((a, b)),
            Part::PtN(a, b) => m.pt = Some(MPt::N(a, b)),
            Part::PtA(a, b) => m.pt = Some(MPt::A(a, b)),
            Part::SpN(a, b) => m.sp = Some(MSp::N(a, b)),
            Part::SpA(a, b) => m.sp = Some(MSp::A(a, b)),
        }
    }
    fn kind(&self) -> u8 {
        match self {
            Part::Art(..) => 0,
            Part::Par(..) => 1,
            Part::PtN(..) => 2,
            Part::PtA(..) => 3,
            Part::SpN(..) => 4,
            Part::SpA(..) => 5,
        }
    }
    fn gen(r: &mut Rng, kind: u8, range: bool, book: Option<u8>) -> Part {
        let two = |r: &mut Rng, f: &dyn Fn(&mut Rng) -> MNum| {
            let a = f(r);
            if !range {
                return (a, a);
            }
            loop {
                let b = f(r);
                if a < b {
                    return (a, b);
                }
                if b < a {
                    return (b, a);
                }
            }
        };
        let small = |r: &mut Rng| if r.chance(1, 8) { r.range(1, 2000) as u16 } else { r.range(1, 40) as u16 };
        match kind {
            0 => {
                let f = |r: &mut Rng| MNum { num: small(r), suf: r.chance(1, 4).then(|| *r.pick(&single_letters())) };
                let (a, b) = two(r, &f);
                Part::Art(MArt { book, id: a }, MArt { book, id: b })
            }
            1 | 2 => {
                let f = |r: &mut Rng| MNum { num: small(r), suf: r.chance(1, 4).then(|| gen_letter(r)) };
                let (a, b) = two(r, &f);
                if kind == 1 { Part::Par(a, b) } else { Part::PtN(a, b) }
            }
            3 => {
                let (a, b) = (gen_letter(r), gen_letter(r));
                if !range || a == b { Part::PtA(a, a) } else { Part::PtA(a.min(b), a.max(b)) }
            }
            4 => {
                let (a, b) = two(r, &|r| MNum { num: small(r), suf: None });
                Part::SpN(a, b)
            }
            _ => {
                let p = r.chance(4, 5).then(|| *r.pick(&single_letters()));
                let ok = |c: u8| p.map_or(true, |p| !LETTERS.contains(&format!("{}{}", LETTERS[p as usize], LETTERS[c as usize]).as_str()));
                let one = |r: &mut Rng| loop {
                    let c = *r.pick(&single_letters());
                    if ok(c) {
                        return MPre { pre: p, chr: c };
                    }
                };
                let (a, b) = (one(r), one(r));
                if !range || a == b { Part::SpA(a, a) } else if a < b { Part::SpA(a, b) } else { Part::SpA(b, a) }
            }
        }
    }
    fn is_range(&self) -> bool {
        match self {
            Part::Art(a, b) => a != b,
            Part::Par(a, b) | Part::PtN(a, b) | Part::SpN(a, b) => a != b,
            Part::PtA(a, b) => a != b,
            Part::SpA(a, b) => a != b,
        }
    }
    fn text(&self, r: &mut Rng) -> String {
        let d = dash(r);
        match *self {
            Part::Art(a, b) => {
                let bk = a.book.map(|b| format!("{b}:")).unwrap_or_default();
                if a == b {
                    format!("{bk}{}.", a.id.slash())
                } else {
                    let mid = *r.pick(&["", "", "", ". §", ". §-a"]);
                    let bk2 = if r.chance(1, 2) { bk.clone() } else { String::new() };
                    format!("{bk}{}{mid}{d}{bk2}{}.", a.id.slash(), b.id.slash())
                }
            }
            Part::Par(a, b) if a == b => format!("({})", a.text()),
            Part::Par(a, b) => format!("({}){d}({})", a.text(), b.text()),
            Part::PtN(a, b) => {
                let t = |r: &mut Rng, x: MNum| match x.suf {
                    Some(s) if r.chance(1, 2) => format!("{}/{}", x.num, LETTERS[s as usize]),
                    _ => x.text(),
                };
                if a == b { format!("{}.", t(r, a)) } else { format!("{}{d}{}.", t(r, a), t(r, b)) }
            }
            Part::PtA(a, b) if a == b => format!("{})", LETTERS[a as usize]),
            Part::PtA(a, b) => format!("{}{}{d}{})", LETTERS[a as usize], r.pick(&[")", ")", ""]), LETTERS[b as usize]),
            Part::SpN(a, b) if a == b => format!("{}.", a.text()),
            Part::SpN(a, b) => format!("{}{d}{}.", a.text(), b.text()),
            Part::SpA(a, b) if a == b => format!("{})", a.text()),
            Part::SpA(a, b) => format!("{}){d}{})", a.text(), b.text()),
        }
    }
}

fn dash(r: &mut Rng) -> &'static str {
    *r.pick(&["–", "–", "–", "-", "−"])
}
const ENDINGS: [&str; 9] = ["", "a", "ában", "ának", "ára", "tól", "val", "ot", "ai"];
fn suffix(r: &mut Rng, level: usize) -> String {
    let e = *r.pick(&ENDINGS);
    match level {
        1 => if r.chance(1, 2) || e.is_empty() { "§".into() } else { format!("§-{e}") },
        2 => format!("bekezdés{}", r.pick(&["", "e", "ében", "ének", "ére", "től", "sel", "ei"])),
        3 => format!("pont{}", r.pick(&["", "ja", "jában", "jának", "tól", "tal"])),
        _ => format!("alpont{}", r.pick(&["", "ja", "jában", "jának", "tól", "tal"])),
    }
}
fn sep(r: &mut Rng) -> String {
    let c = *r.pick(&["és", "és", "valamint", "illetve", "vagy"]);
    let s = match r.below(6) {
        0 | 1 => ", ".to_string(),
        2 => "; ".to_string(),
        3 => format!(", {c} "),
        4 => format!("; {c} "),
        _ => format!(" {c} "),
    };
    match r.below(5) {
        0 => s + "a ",
        1 => s + "az ",
        _ => s,
    }
}

impl W {
    fn part(&mut self, p: &Part, text: &str) {
        let st = self.s.len();
        self.s += text;
        self.start.get_or_insert(st);
        self.end = self.s.len();
        p.apply(&mut self.cur);
    }
    fn record(&mut self) {
        if let Some(s) = self.start.take() {
            self.out.push((s, self.end, self.cur));
        }
    }
    /// one citation: lists of parts level by level; `levels`: kinds of parts
    fn citation(&mut self, r: &mut Rng, levels: &[Vec<Part>]) {
        for (i, parts) in levels.iter().enumerate() {
            if i > 0 {
                self.s.push(' ');
            }
            self.list(r, parts);
        }
        self.end = self.s.len();
        self.record();
    }
    fn list(&mut self, r: &mut Rng, parts: &[Part]) {
        for (i, p) in parts.iter().enumerate() {
            if i > 0 {
                self.record();
                self.s += &sep(r);
            }
            let t = p.text(r);
            self.part(p, &t);
        }
        self.s.push(' ');
        self.s += &suffix(r, parts[0].level());
    }
    fn act(&mut self, r: &mut Rng, define: bool) {
        let known: Vec<(String, (i16, i32))> = self.abbr.iter().map(|(k, v)| (k.clone(), *v)).collect();
        let st = self.s.len();
        let id;
        if !known.is_empty() && r.chance(1, 2) {
            let (k, v) = r.pick(&known).clone();
            self.s += &k;
            self.out.push((st, self.s.len(), MRef { act: Some(v), ..Default::default() }));
            id = v;
        } else {
            id = (r.range(1945, 2039) as i16, r.range(1, 399) as i32);
            self.s += &act_text(r, id);
            self.out.push((st, self.s.len(), MRef { act: Some(id), ..Default::default() }));
            if define {
                let a = abbreviation(r, self.abbr.len());
                self.s += &format!(" (a továbbiakban{} {a})", if r.chance(4, 5) { ":" } else { "" });
                self.abbr.insert(a.clone(), id);
                self.new_abbr.insert(a, id);
            }
        }
        self.cur = MRef { act: Some(id), ..Default::default() };
        self.start = None;
    }
}

fn act_text(r: &mut Rng, id: (i16, i32)) -> String {
    let suf = *r.pick(&["törvény", "törvény", "törvénynek", "törvényben", "tv."]);
    format!("{}. évi {}. {suf}", id.0, to_roman(id.1 as u32))
}
/// no abbreviation is the beginning of another one (see the `prefixes` suite)
fn abbreviation(r: &mut Rng, n: usize) -> String {
    let c = (b'B' + n as u8) as char;
    match r.below(5) {
        0 => format!("régi {c}tk."),
        1 => format!("{c}ao tv."),
        2 => format!("{c}-Elektronikus Hírközlési tv."),
        3 => format!("{c}űhr."),
        _ => format!("{c}tv."),
    }
}

const FILL: [&str; 22] = [
    "alapján", "szerint", "szabályait", "kell", "alkalmazni", "eljáró", "hatóság", "köteles", "miniszter", "rendeletben", "meghatározott", "ötödik", "helyébe", "szövegrész", "követően",
    "törvényes", "évi", "napon", "bekezdésnyi", "pontosan", "§-tól", "továbbiakban",
];
fn fill(r: &mut Rng, lo: i64, hi: i64) -> String {
    let n = r.range(lo, hi);
    (0..n).map(|_| *r.pick(&FILL[..16])).collect::<Vec<_>>().join(" ")
}
/// things that are no citation of a provision
fn decoy(r: &mut Rng) -> String {
    match r.below(12) {
        0 => format!("„az {}. § szerint”", r.range(1, 50)),
        1 => format!("„a 2010. évi V. törvény „({}) bekezdés” szerint”", r.range(1, 9)),
        2 => format!("{}. melléklete szerint eljáró", r.range(1, 20)),
        3 => format!("{}. számú melléklet {}. pontja szerint eljáró", r.range(1, 20), r.range(1, 20)),
        4 => format!("{}. melléklet a), b) és c) pontja szerint eljáró", r.range(1, 20)),
        5 => format!("{} forint", r.range(1, 20000)),
        6 => format!("{}. napon", r.range(1, 30)),
        7 => format!("{}. január {}-én", r.range(1990, 2030), r.range(2, 30)),
        8 => format!("{}/2010. (V. 3.) rendelet", r.range(1, 300)),
        9 => format!("({}) alatti", r.range(1, 9)),
        10 => format!("{}) vagy hasonló", r.pick(&LETTERS)),
        _ => r.pick(&FILL).to_string(),
    }
}

/// the parts of one citation that extends `cur`, valid at every recorded item
fn gen_citation(r: &mut Rng, cur: &MRef, tops: &[usize], lists: bool) -> Vec<Vec<Part>> {
    loop {
        let top = *r.pick(tops);
        let deep = r.range(top as i64, 4) as usize;
        let book = r.chance(1, 6).then(|| r.range(1, 9) as u8);
        let mut levels = vec![];
        for l in top..=deep {
            if l == 2 && top == 1 && deep > 2 && r.chance(1, 2) {
                continue; // an article of a single paragraph
            }
            let kind = match l {
                1 => 0,
                2 => 1,
                3 => r.range(2, 3) as u8,
                _ => r.range(4, 5) as u8,
            };
            let n = if lists && r.chance(1, 3) { r.range(2, 4) } else { 1 };
            let last = l == deep;
            let parts: Vec<Part> = (0..n).map(|i| { let range = (last || i + 1 < n) && (n == 1 || lists) && r.chance(1, 4); Part::gen(r, kind, range, book) }).collect();
            levels.push(parts);
        }
        let mut m = *cur;
        let mut ok = true;
        for (i, v) in levels.iter().enumerate() {
            for (k, p) in v.iter().enumerate() {
                p.apply(&mut m);
                let recorded = k + 1 < v.len() || i + 1 == levels.len();
                ok &= !recorded || m.valid();
            }
        }
        if ok {
            return levels;
        }
    }
}

// ---------------------------------------------------------------- comparing

fn aid(x: (i16, i32)) -> ActIdentifier {
    ActIdentifier { year: x.0, number: x.1 }
}
fn cache(a: &BTreeMap<String, (i16, i32)>) -> BTreeMap<String, ActIdentifier> {
    a.iter().map(|(k, v)| (k.clone(), aid(*v))).collect()
}
/// `known`: the abbreviations before the text
fn judge(m: &mut Mon, what: &str, w: &W, known: &BTreeMap<String, (i16, i32)>, special: &Option<SpecialPhrase>) {
    let ctx = || format!("{:?} knowing {known:?}", w.s);
    m.observe(&w.s, !w.out.is_empty());
    m.sample(|| w.s.clone());
    let mut c = AbbreviationCache::from(cache(known));
    let Some(got) = m.no_panic(what, ctx, || SemanticInfoAdder::new(&mut c).extract_semantic_info(&w.s)) else { return };
    let info = match got {
        Ok(i) => i,
        Err(e) => {
            m.fail(&format!("{what}:refused"), format!("{e:?} on {}", ctx()));
            return;
        }
    };
    m.count("references", info.outgoing_references.len() as u64);
    let refs: Vec<Out> = info.outgoing_references.iter().map(|o| (o.start, o.end, decode(&o.reference))).collect();
    if refs != w.out {
        let show = |v: &[Out]| v.iter().map(|(a, b, x)| format!("{:?}={}", w.s.get(*a..*b).unwrap_or("?"), x.compact())).collect::<Vec<_>>();
        m.fail(&format!("{what}:references"), format!("{}\nexpected {:?}\nfound    {:?}", ctx(), show(&w.out), show(&refs)));
    }
    if info.new_abbreviations != cache(&w.new_abbr) {
        m.fail(&format!("{what}:abbreviations"), format!("{}\nexpected {:?}\nfound {:?}", ctx(), w.new_abbr, info.new_abbreviations));
    }
    if info.special_phrase != *special {
        m.fail(&format!("{what}:phrase"), format!("{}\nexpected {special:?}\nfound    {:?}", ctx(), info.special_phrase));
    }
    let all: BTreeMap<String, ActIdentifier> = c.into();
    let mut want = cache(known);
    want.extend(cache(&w.new_abbr));
    m.check(all == want, &format!("{what}:cache"), || format!("{}\n{all:?}", ctx()));
}

fn start(r: &mut Rng) -> (W, BTreeMap<String, (i16, i32)>) {
    let mut w = W::default();
    for n in 0..r.below(4) {
        let a = abbreviation(r, n);
        w.abbr.insert(a, (r.range(1945, 2039) as i16, r.range(1, 399) as i32));
    }
    let known = w.abbr.clone();
    (w, known)
}

// ---------------------------------------------------------------- phrases

fn title(r: &mut Rng) -> String {
    match r.below(5) {
        0 => String::new(),
        1 => {
            let y = r_year(r);
            format!("{} {} módosításáról szóló ", fill(r, 0, 2), act_text(r, (y, 12))).trim_start().to_string()
        }
        2 => {
            let y = r_year(r);
            format!("{} hatálybalépésével összefüggő szabályokról szóló ", act_text(r, (y, 5)))
        }
        _ => format!("{} szóló ", fill(r, 1, 4)),
    }
}
fn r_year(r: &mut Rng) -> i16 {
    r.range(1950, 2030) as i16
}
/// "A ... szóló 2012. évi C. törvény "
fn head(r: &mut Rng, w: &mut W, upper: bool) {
    let a = if upper { "A" } else { "a" };
    w.s += a;
    if r.chance(1, 2) {
        w.s.push('z');
    }
    w.s.push(' ');
    w.s += &title(r);
    let define = r.chance(1, 6);
    w.act(r, define);
    w.s.push(' ');
}
fn following(r: &mut Rng) -> String {
    format!("{}{}", r.pick(&["a ", "az ", "a "]), r.pick(&["következő", "alábbi", "következő"]))
}
fn amend_suffix(r: &mut Rng) -> String {
    let f = following(r);
    match r.below(4) {
        0 => format!("helyébe {f} rendelkezések lépnek"),
        1 => format!("{f} szöveggel lép hatályba"),
        2 => format!("{} szerint módosul", f.replace("alábbi", "alábbiak")),
        _ => format!("helyébe {f} rendelkezés lép"),
    }
}
fn insert_suffix(r: &mut Rng) -> &'static str {
    *r.pick(&["egészül ki", "egészül ki", "kiegészülve lép hatályba"])
}
fn insert_token(r: &mut Rng) -> String {
    let j = match r.below(4) {
        0 => "ezzel egyidejűleg ",
        1 => "valamint ",
        _ => "",
    };
    format!("{j}{}", following(r))
}
/// the whole of a list at the deepest level, as one range
fn span(cur: &MRef, parts: &[Part]) -> MRef {
    let mut m = *cur;
    let lo = parts.iter().map(|p| { let mut x = *cur; p.apply(&mut x); x });
    parts[0].apply(&mut m);
    for x in lo {
        m = match (m, x) {
            (MRef { sp: Some(MSp::N(a, b)), .. }, MRef { sp: Some(MSp::N(c, d)), .. }) => MRef { sp: Some(MSp::N(a.min(c), b.max(d))), ..m },
            (MRef { sp: Some(MSp::A(a, b)), .. }, MRef { sp: Some(MSp::A(c, d)), .. }) => MRef { sp: Some(MSp::A(a.min(c), b.max(d))), ..m },
            (MRef { pt: Some(MPt::N(a, b)), .. }, MRef { pt: Some(MPt::N(c, d)), .. }) => MRef { pt: Some(MPt::N(a.min(c), b.max(d))), ..m },
            (MRef { pt: Some(MPt::A(a, b)), .. }, MRef { pt: Some(MPt::A(c, d)), .. }) => MRef { pt: Some(MPt::A(a.min(c), b.max(d))), ..m },
            (MRef { par: Some((a, b)), .. }, MRef { par: Some((c, d)), .. }) => MRef { par: Some((a.min(c), b.max(d))), ..m },
            (MRef { art: Some((a, b)), .. }, MRef { art: Some((c, d)), .. }) => MRef { art: Some((a.min(c), b.max(d))), ..m },
            _ => m,
        };
    }
    m
}
fn same_book(r: &mut Rng, n: i64, kind: u8, book: Option<u8>, ranges: bool) -> Vec<Part> {
    (0..n).map(|_| { let x = ranges && r.chance(1, 4); Part::gen(r, kind, x, book) }).collect()
}
fn art_id(a: &MArt) -> ArticleIdentifier {
    a.text().parse().unwrap()
}

#[derive(Debug, Clone)]
struct MS {
    text: String,
    book: Option<u16>,
    el: StructuralReferenceParent,
    title_only: bool,
}
fn num_id(n: u16, suf: Option<u8>) -> NumericIdentifier {
    MNum { num: n, suf }.text().parse().unwrap()
}
fn cap(s: &str) -> String {
    let mut c = s.chars();
    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
}
fn gen_struct(r: &mut Rng, can_title: bool, can_book: bool) -> MS {
    let suf = |r: &mut Rng| r.chance(1, 4).then(|| *r.pick(&single_letters()));
    let up = |s: Option<u8>| s.map(|s| format!("/{}", LETTERS[s as usize].to_uppercase())).unwrap_or_default();
    let mut text = String::new();
    let mut book = None;
    if can_book && r.chance(1, 5) {
        let n = r.range(1, 19) as usize;
        book = Some(n as u16);
        let o = ordinal(n);
        text += &format!("{} {} ", if r.chance(1, 4) { o.to_uppercase() } else { cap(&o) }, r.pick(&["Könyv", "könyv", "KÖNYVÉNEK", "könyvének"]));
    }
    let mut to = can_title && r.chance(1, 5);
    let el = match r.below(6) {
        0 | 1 => {
            let (n, s) = (r.range(1, 60) as u16, suf(r));
            let w = *r.pick(&["fejezet", "Fejezet", "FEJEZET"]);
            text += &format!("{}{}. {w}{}", to_roman(n as u32), up(s), if to || w == "FEJEZET" { "" } else { *r.pick(&["", "e", "ében", "ének"]) });
            StructuralReferenceParent::Chapter(num_id(n, s))
        }
        2 => {
            let n = r.range(1, 19) as usize;
            let o = ordinal(n);
            let up = r.chance(1, 3);
            text += &format!("{} {}{}", if up { o.to_uppercase() } else { cap(&o) }, if up { "RÉSZ" } else { *r.pick(&["rész", "Rész"]) }, if to || up { "" } else { *r.pick(&["", "e", "ének"]) });
            StructuralReferenceParent::Part(num_id(n as u16, None))
        }
        3 => {
            let (n, s) = (r.range(1, 60) as u16, suf(r));
            text += &format!("{}{}. {}{}", to_roman(n as u32), up(s), r.pick(&["cím", "Cím"]), if to { "" } else { *r.pick(&["", "ének", "e"]) });
            StructuralReferenceParent::Title(num_id(n, s))
        }
        4 => {
            let (a, s) = (r.range(1, 60) as u16, suf(r));
            if r.chance(1, 4) {
                let b = a + r.range(1, 20) as u16;
                text += &format!("{a}{}–{b}. alcím{}", up(s), if to { "" } else { *r.pick(&["", "e", "ének"]) });
                StructuralReferenceParent::SubtitleRange(IdentifierRange::from_range(num_id(a, s), num_id(b, None)))
            } else {
                text += &format!("{a}{}. alcím{}", up(s), if to { "" } else { *r.pick(&["", "e", "ének"]) });
                StructuralReferenceParent::SubtitleId(num_id(a, s))
            }
        }
        _ => {
            let t = cap(&fill(r, 1, 4));
            if r.chance(1, 2) {
                text += &format!("„{t}” {}alcím{}", r.pick(&["", "című "]), if to { "" } else { *r.pick(&["", "e", "ének"]) });
            } else {
                // a bare title only ends at "alcíme", "alcímében", "alcím címe"
                to &= true;
                text += &format!("{t} {}alcím{}", r.pick(&["", "című "]), if to { "" } else { *r.pick(&["e", "ében"]) });
            }
            StructuralReferenceParent::SubtitleTitle(t)
        }
    };
    if to {
        text += *r.pick(&[" címe", " címe", " címében"]);
    }
    MS { text, book, el, title_only: to }
}
impl MS {
    fn reference(&self, act: Option<(i16, i32)>, parent: Option<&MS>) -> StructuralReference {
        StructuralReference {
            act: act.map(aid),
            book: self.book.map(|b| num_id(b, None)),
            parent: parent.map(|p| p.el.clone()),
            structural_element: self.el.clone().into(),
            title_only: self.title_only,
        }
    }
}

const MONTHS: [&str; 12] = ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"];
fn gen_date(r: &mut Rng) -> (String, NaiveDate) {
    loop {
        let (y, mo, d) = (r.range(1990, 2040) as i32, r.range(1, 12) as u32, r.range(1, 31) as u32);
        if let Some(x) = NaiveDate::from_ymd_opt(y, mo, d) {
            return (format!("{y}. {} {d}{}", MONTHS[mo as usize - 1], r.pick(&["-án", "-jén", "-én", ". napján"])), x);
        }
    }
}
/// ordinals the grammar knows
fn gen_ordinal(r: &mut Rng) -> (String, u16) {
    let n = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 30, 40, 50, 60, 70, 80, 90]);
    (ordinal(n), n as u16)
}

/// items of a list of amended or repealed places; appends to the text and to the expectation
fn gen_places(r: &mut Rng, w: &mut W, act: (i16, i32), parts_ok: bool) -> Vec<TextAmendmentReference> {
    let mut v = vec![];
    for i in 0..r.range(1, 3) {
        if i > 0 {
            w.s += &sep(r);
        }
        match r.below(if parts_ok { 9 } else { 8 }) {
            0 => {
                let (parent, child) = (r.chance(1, 3).then(|| gen_struct(r, false, true)), gen_struct(r, true, false));
                if let Some(p) = &parent {
                    w.s += &format!("{} ", p.text);
                }
                w.s += &child.text;
                v.push(TextAmendmentReference::Structural(child.reference(Some(act), parent.as_ref())));
            }
            1 => {
                let n = r.range(2, 3);
                let mut ids = vec![];
                for k in 0..n {
                    if k > 0 {
                        w.s += &sep(r);
                    }
                    let a = r.range(1, 40) as u16;
                    w.s += &format!("{a}.");
                    ids.push(a);
                }
                w.s += " alcíme";
                for a in ids {
                    let el = StructuralReferenceParent::SubtitleId(num_id(a, None));
                    v.push(TextAmendmentReference::Structural(StructuralReference { act: Some(aid(act)), book: None, parent: None, structural_element: el.into(), title_only: false }));
                }
            }
            2 => w.s += &format!("{}. melléklete", r.range(1, 9)),
            8 => {
                // the title of an article
                let a = Part::gen(r, 0, false, None);
                let t = a.text(r);
                w.part(&a, &t);
                w.s += &format!(" {}", suffix(r, 1));
                w.end = w.s.len();
                w.record();
                w.s += *r.pick(&[" címe", " szakaszcímében", " címében"]);
                let x = MRef { act: Some(act), ..Default::default() };
                let mut y = x;
                a.apply(&mut y);
                v.push(TextAmendmentReference::ArticleTitle(y.build().unwrap()));
            }
            _ => {
                let tops: &[usize] = if w.cur.art.is_some() && !w.cur.is_range(1) { &[1, 1, 2, 3] } else { &[1] };
                let levels = gen_citation(r, &w.cur, tops, true);
                let from = w.out.len();
                w.citation(r, &levels);
                let mut part = TextAmendmentSAEPart::All;
                if parts_ok && r.chance(1, 4) {
                    if r.chance(1, 2) {
                        w.s += " nyitó szövegrészében";
                        part = TextAmendmentSAEPart::IntroOnly;
                    } else {
                        w.s += " záró szövegrésze";
                        part = TextAmendmentSAEPart::WrapUpOnly;
                    }
                }
                for (_, _, x) in &w.out[from..] {
                    v.push(TextAmendmentReference::SAE { reference: x.build().unwrap(), amended_part: part.clone() });
                }
            }
        }
    }
    v
}

fn block(r: &mut Rng, w: &mut W) -> SpecialPhrase {
    head(r, w, true);
    let act = w.cur.act;
    let parent = r.chance(1, 5).then(|| gen_struct(r, false, true));
    if let Some(p) = &parent {
        w.s += &format!("{} ", p.text);
    }
    let amend = r.chance(2, 3);
    let both = amend && r.chance(1, 4);
    let mut whole: Option<MRef> = None;
    let book = r.chance(1, 5).then(|| r.range(1, 9) as u8);
    let mut path: Vec<Part> = vec![];
    if amend {
        // single parts above, a list at the deepest level
        let deep = r.range(1, 4) as usize;
        let mut levels: Vec<Vec<Part>> = vec![];
        for l in 1..deep {
            if l == 2 && deep > 2 && r.chance(1, 3) {
                continue;
            }
            let k = match l { 1 => 0, 2 => 1, _ => r.range(2, 3) as u8 };
            levels.push(vec![Part::gen(r, k, false, book)]);
        }
        path = levels.iter().map(|v| v[0]).collect();
        let k = match deep { 1 => 0, 2 => 1, 3 => r.range(2, 3) as u8, _ => r.range(4, 5) as u8 };
        let n = if r.chance(1, 3) { r.range(2, 3) } else { 1 };
        let last = same_book(r, n, k, book, true);
        levels.push(last.clone());
        let mut base = w.cur;
        path.iter().for_each(|p| p.apply(&mut base));
        w.citation(r, &levels);
        whole = Some(span(&base, &last));
        w.s += &format!(" {}", amend_suffix(r));
        if both {
            // the inserted elements are of the same kind in the same place
            w.s += *r.pick(&[", ", " ", ", és ", " és ezzel egyidejűleg "]);
            let n = r_n(r);
            let ins = same_book(r, n, k, book, false);
            let st = w.s.len();
            if k == 0 {
                w.s += &format!("{} ", following(r));
                w.list(r, &ins);
            } else {
                // "az 5. § a következő (3) bekezdéssel"
                let spelled = deep == 2 || k == 2 || k == 3 || k >= 4;
                let _ = (st, spelled);
                w.s += *r.pick(&["", "az ", "a "]);
                for p in &path {
                    let t = p.text(r);
                    w.part(p, &t);
                    w.s += &format!(" {} ", suffix(r, p.level()));
                }
                w.s += &format!("{} ", following(r));
                w.list(r, &ins);
            }
            w.end = w.s.len();
            w.record();
            let mut all = last.clone();
            all.extend(ins.iter().copied());
            whole = Some(span(&base, &all));
            w.s += &format!(" {}", insert_suffix(r));
        }
    } else {
        let k = r.range(0, 5) as u8;
        let n = if r.chance(1, 3) { r.range(2, 3) } else { 1 };
        let lone = r.chance(1, 2);
        let ins = same_book(r, n, k, book, lone);
        match k {
            0 => {
                w.s += &format!("{} ", insert_token(r));
                let base = w.cur;
                w.list(r, &ins);
                let mut all = ins.clone();
                if r.chance(1, 4) {
                    // "9/A. §-sal és 9/B. §-sal"
                    w.record();
                    w.s += &sep(r);
                    let more = same_book(r, 1, 0, book, false);
                    w.list(r, &more);
                    all.extend(more);
                }
                whole = Some(span(&base, &all));
            }
            1 if r.chance(1, 4) => {
                // "a következő 5. § (3) bekezdéssel"
                w.s += &format!("{} ", insert_token(r));
                let a = Part::gen(r, 0, false, book);
                let t = a.text(r);
                w.part(&a, &t);
                w.s += &format!(" {} ", suffix(r, 1));
                let base = w.cur;
                w.list(r, &ins);
                whole = Some(span(&base, &ins));
            }
            _ => {
                w.s += *r.pick(&["", "az ", "a "]);
                let mut kinds = vec![0u8];
                if k >= 2 && r.chance(2, 3) {
                    kinds.push(1);
                }
                if k >= 4 {
                    kinds.push(r.range(2, 3) as u8);
                }
                for kk in kinds {
                    let p = Part::gen(r, kk, false, book);
                    let t = p.text(r);
                    w.part(&p, &t);
                    w.s += &format!(" {} ", suffix(r, p.level()));
                }
                w.s += &format!("{} ", insert_token(r));
                let base = w.cur;
                w.list(r, &ins);
                whole = Some(span(&base, &ins));
            }
        }
        w.end = w.s.len();
        w.record();
        w.s += &format!(" {}", insert_suffix(r));
    }
    w.s.push(':');
    let x = whole.unwrap();
    if let (Some((a, b)), None) = (x.art, x.par.map(|_| ()).or(x.pt.map(|_| ())).or(x.sp.map(|_| ()))) {
        SpecialPhrase::StructuralBlockAmendment(StructuralBlockAmendment {
            position: StructuralReference {
                act: act.map(aid),
                book: None,
                parent: parent.map(|p| p.el),
                structural_element: StructuralReferenceElement::Article(IdentifierRange::from_range(art_id(&a), art_id(&b))),
                title_only: false,
            },
            pure_insertion: !amend,
        })
    } else {
        SpecialPhrase::BlockAmendment(BlockAmendment { position: x.build().unwrap(), pure_insertion: !amend })
    }
}
fn r_n(r: &mut Rng) -> i64 {
    r.range(1, 2)
}

/// an article cited alone: "5. §-t"
fn single_article(r: &mut Rng, w: &mut W) -> ArticleIdentifier {
    let book = r.chance(1, 5).then(|| r.range(1, 9) as u8);
    let a = Part::gen(r, 0, false, book);
    let t = a.text(r);
    w.part(&a, &t);
    w.s += &format!(" {}", suffix(r, 1));
    w.end = w.s.len();
    w.record();
    let Part::Art(x, _) = a else { unreachable!() };
    art_id(&x)
}

fn subtitle(r: &mut Rng, w: &mut W) -> SpecialPhrase {
    head(r, w, true);
    let act = w.cur.act;
    let insertion = r.chance(1, 2);
    let parent = r.chance(1, 3).then(|| gen_struct(r, false, true));
    if let Some(p) = &parent {
        w.s += &format!("{} ", p.text);
    }
    let mut el = None;
    let relative = insertion && r.chance(1, 2);
    if relative {
        w.s += *r.pick(&["az ", "a ", ""]);
        let a = single_article(r, w);
        if r.chance(1, 2) {
            w.s += *r.pick(&[" követően ", " követő "]);
            el = Some(StructuralReferenceElement::SubtitleAfterArticle(a));
        } else {
            w.s += *r.pick(&[" megelőzően ", " megelőző ", " előtti "]);
            el = Some(StructuralReferenceElement::SubtitleBeforeArticle(a));
        }
    }
    if insertion {
        w.s += &format!("{} ", insert_token(r));
        let end = *r.pick(&["alcímmel", "alcímmel", "alcím-címmel"]);
        let mut own = StructuralReferenceElement::SubtitleUnknown;
        match r.below(3) {
            0 => {
                let (n, s) = (r.range(1, 40) as u16, r.chance(1, 4).then(|| *r.pick(&single_letters())));
                w.s += &format!("{}{}. ", n, s.map(|s| format!("/{}", LETTERS[s as usize].to_uppercase())).unwrap_or_default());
                own = StructuralReferenceElement::SubtitleId(num_id(n, s));
            }
            1 => {
                let t = cap(&fill(r, 1, 3));
                w.s += &format!("„{t}” ");
                own = StructuralReferenceElement::SubtitleTitle(t);
            }
            _ => {}
        }
        w.s += end;
        if r.chance(1, 3) {
            w.s += " és ";
            let a = single_article(r, w);
            el = Some(StructuralReferenceElement::SubtitleBeforeArticleInclusive(a));
        }
        el.get_or_insert(own);
        w.s += &format!(" {}:", insert_suffix(r));
    } else {
        let with_id = parent.is_some() && r.chance(1, 2);
        if with_id {
            let n = r.range(1, 40) as u16;
            if r.chance(1, 2) {
                w.s += &format!("{n}. alcíme");
                el = Some(StructuralReferenceElement::SubtitleId(num_id(n, None)));
            } else {
                let t = cap(&fill(r, 1, 3));
                w.s += &format!("„{t}” alcíme");
                el = Some(StructuralReferenceElement::SubtitleTitle(t));
            }
        } else {
            let a = single_article(r, w);
            el = Some(StructuralReferenceElement::SubtitleBeforeArticleInclusive(a));
            w.s += &format!(" és az {}megelőző {}", r.pick(&["azt ", "", "azokat "]), r.pick(&["alcím", "alcímcím", "alcím címe"]));
        }
        let f = following(r);
        w.s += &match r.below(4) {
            0 => format!(" {}:", amend_suffix(r)),
            1 => format!(" helyébe {f} rendelkezés és alcím lép:"),
            2 => format!(" helyébe {f} alcím és rendelkezés lép:"),
            _ => format!(" helyébe {f} alcím cím és rendelkezés {}:", r.pick(&["lép", "lépnek"])),
        };
    }
    SpecialPhrase::StructuralBlockAmendment(StructuralBlockAmendment {
        position: StructuralReference { act: act.map(aid), book: None, parent: parent.map(|p| p.el), structural_element: el.unwrap(), title_only: false },
        pure_insertion: insertion,
    })
}

fn structural(r: &mut Rng, w: &mut W) -> SpecialPhrase {
    head(r, w, true);
    let act = w.cur.act;
    let insertion = r.chance(1, 2);
    // subtitles alone belong to the other phrase when inserted
    let el = loop {
        let e = gen_struct(r, !insertion, false);
        if !insertion || matches!(e.el, StructuralReferenceParent::Chapter(_) | StructuralReferenceParent::Part(_) | StructuralReferenceParent::Title(_)) {
            break e;
        }
    };
    let mut position;
    if insertion {
        if r.chance(1, 3) {
            // where the new element goes is not recorded
            let t = Part::gen(r, 0, false, None).text(r);
            w.s += &format!("az {t} §-t {} ", r.pick(&["követően", "megelőzően"]));
        }
        match r.below(3) {
            0 => {
                let p = gen_struct(r, false, false);
                w.s += &format!("{} {} {} {}:", p.text, insert_token(r), el.text, insert_suffix(r));
                position = el.reference(act, Some(&p));
            }
            1 => {
                let n = r.range(1, 19) as usize;
                w.s += &format!("{} Könyve {} {} {}:", cap(&ordinal(n)), insert_token(r), el.text, insert_suffix(r));
                position = el.reference(act, None);
                position.book = Some(num_id(n as u16, None));
            }
            _ => {
                w.s += &format!("{} {} {}:", insert_token(r), el.text, insert_suffix(r));
                position = el.reference(act, None);
            }
        }
    } else {
        let mut parent = None;
        let sub = matches!(el.el, StructuralReferenceParent::SubtitleId(_) | StructuralReferenceParent::SubtitleTitle(_) | StructuralReferenceParent::SubtitleRange(_));
        if !sub && r.chance(1, 3) {
            let p = gen_struct(r, false, false);
            w.s += &format!("{} ", p.text);
            parent = Some(p);
        }
        w.s += &el.text;
        let f = following(r);
        w.s += &match r.below(3) {
            0 => format!(" {}:", amend_suffix(r)),
            _ => format!(" helyébe {f} {}lép:", r.pick(&["alcím ", "alcím cím ", "cím ", "fejezet ", "Fejezet ", "rész ", ""])),
        };
        position = el.reference(act, parent.as_ref());
    }
    SpecialPhrase::StructuralBlockAmendment(StructuralBlockAmendment { position, pure_insertion: insertion })
}

fn enforcement(r: &mut Rng, w: &mut W) -> SpecialPhrase {
    let mut positions = vec![];
    let mut structural_positions = vec![];
    let mut any = false;
    let act_start = r.chance(1, 2);
    w.s += if act_start { *r.pick(&["Ez a törvény ", "E törvény "]) } else { *r.pick(&["A ", "Az "]) };
    if act_start && r.chance(1, 3) {
        // places excepted are no places of this date
        let mut x = W::default();
        let l = gen_citation(r, &MRef::default(), &[1], true);
        x.citation(r, &l);
        let d = r.chance(1, 2);
        w.s += &format!("{}a {} {}{} ", if d { "– " } else { "" }, x.s, r.pick(&["szerinti kivétellel", "foglaltak kivételével", "foglalt kivételekkel"]), if d { " –" } else { "" });
    }
    if !act_start || r.chance(1, 2) {
        for i in 0..r.range(1, 4) {
            if i > 0 {
                w.s += &sep(r);
            }
            any = true;
            match r.below(7) {
                0 => {
                    let e = gen_struct(r, true, true);
                    w.s += &e.text;
                    structural_positions.push(e.reference(None, None));
                }
                1 => {
                    let ids: Vec<u16> = (0..r.range(2, 3)).map(|_| r.range(1, 40) as u16).collect();
                    for (k, a) in ids.iter().enumerate() {
                        if k > 0 {
                            w.s += &sep(r);
                        }
                        w.s += &format!("{a}.");
                        structural_positions.push(StructuralReference { act: None, book: None, parent: None, structural_element: StructuralReferenceElement::SubtitleId(num_id(*a, None)), title_only: false });
                    }
                    w.s += " alcíme";
                }
                2 => w.s += &format!("{}. melléklete", r.range(1, 9)),
                _ => {
                    let tops: &[usize] = if w.cur.art.is_some() && !w.cur.is_range(1) { &[1, 1, 2, 3] } else { &[1] };
                    let levels = gen_citation(r, &w.cur, tops, true);
                    let from = w.out.len();
                    w.citation(r, &levels);
                    positions.extend(w.out[from..].iter().map(|x| x.2.build().unwrap()));
                }
            }
        }
        w.s.push(' ');
    }
    let date = match r.below(3) {
        0 => {
            let (t, d) = gen_date(r);
            w.s += &t;
            EnforcementDateType::Date(d)
        }
        1 => {
            let p = format!("{}{} követő ", r.pick(&["a ", "az ", "e törvény ", ""]).replace("az ", "a "), r.pick(&["kihirdetését", "kihirdetést"]));
            let (t, n) = match r.below(3) {
                0 => (String::new(), 1),
                1 => {
                    let (t, n) = gen_ordinal(r);
                    (t + " ", n)
                }
                _ => {
                    let n = r.range(1, 400) as u16;
                    (format!("{n}. "), n)
                }
            };
            w.s += &format!("{p}{t}napon");
            EnforcementDateType::DaysAfterPublication(n)
        }
        _ => {
            let p = format!("{}{} követő ", r.pick(&["a ", "e törvény ", ""]), r.pick(&["kihirdetését", "kihirdetést"]));
            let (mt, month) = if r.chance(1, 2) {
                let (t, n) = gen_ordinal(r);
                (t + " ", Some(n as u8))
            } else {
                (String::new(), None)
            };
            let (dt, day) = if r.chance(1, 2) {
                gen_ordinal(r)
            } else {
                let n = r.range(1, 31) as u16;
                (format!("{n}."), n)
            };
            w.s += &format!("{p}{mt}hónap {dt} napján");
            EnforcementDateType::DayInMonthAfterPublication { month, day }
        }
    };
    w.s += " lép hatályba";
    let mut inline_repeal = None;
    if r.chance(1, 4) {
        let (t, d) = gen_date(r);
        w.s += &format!("{} és {}{t} {}hatályát veszti", r.pick(&["", ","]), r.pick(&["", "ez a törvény ", "e törvény "]), r.pick(&["", "a "]));
        inline_repeal = Some(d);
    }
    if r.chance(4, 5) {
        w.s.push('.'); // added by the reader otherwise
    }
    SpecialPhrase::EnforcementDate(EnforcementDate { positions, structural_positions, is_default: !any, date, inline_repeal })
}

fn quote_text(r: &mut Rng) -> String {
    let mut s = fill(r, 1, 5);
    if r.chance(1, 4) {
        s += &format!(" az {}. § (2) bekezdése", r.range(1, 50));
    }
    if r.chance(1, 6) {
        s += &format!(" „{}” és", fill(r, 1, 2));
    }
    if r.chance(1, 6) {
        s.push(',');
    }
    s
}

fn text_amendment(r: &mut Rng, w: &mut W) -> SpecialPhrase {
    head(r, w, true);
    let act = w.cur.act.unwrap();
    let places = gen_places(r, w, act, true);
    let mut parts = vec![];
    let n = r.range(1, 3);
    for i in 0..n {
        w.s += &if i > 0 { format!("{}{}", *r.pick(&[", ", " és ", ", valamint ", "; "]), *r.pick(&["az ", "a ", ""])) } else { format!(" {}", r.pick(&["az ", "a ", ""])) };
        let (from, to) = (quote_text(r), quote_text(r));
        let tok = if i + 1 < n && r.chance(1, 3) { "" } else { *r.pick(&[" szöveg", " szövegrész", " szövegrészek"]) };
        w.s += &format!("„{from}” {} {} {}„{to}”{tok}", r.pick(&["szövegrész", "szövegrészek", "szöveg"]), r.pick(&["helyébe", "helyett"]), r.pick(&["az ", "a ", ""]));
        parts.push((from, to));
    }
    w.s += *r.pick(&[" lép", " lép hatályba", ", lép"]);
    w.s.push('.');
    let mut v = vec![];
    for p in places {
        for (from, to) in &parts {
            v.push(TextAmendment { reference: p.clone(), from: from.clone(), to: to.clone() });
        }
    }
    SpecialPhrase::TextAmendment(v)
}

fn repeal(r: &mut Rng, w: &mut W) -> SpecialPhrase {
    w.s += *r.pick(&["Hatályát veszti ", "Hatályát veszíti ", "Nem lép hatályba "]);
    head(r, w, false);
    let act = w.cur.act.unwrap();
    let texts = r.chance(1, 3);
    if !texts && r.chance(1, 4) {
        w.s = w.s.trim_end().to_string();
        w.s.push('.');
        return SpecialPhrase::Repeal(vec![RepealReference::Reference(Reference::from(aid(act)))]);
    }
    let places = gen_places(r, w, act, texts);
    if texts {
        let mut v = vec![];
        let qs: Vec<String> = (0..r.range(1, 3)).map(|_| quote_text(r)).collect();
        let n = qs.len();
        for (i, q) in qs.iter().enumerate() {
            w.s += &format!(" {}„{q}”{}{}", r.pick(&["az ", "a "]), if i + 1 == n || r.chance(1, 2) { " szövegrész" } else { "" }, if i + 1 < n { *r.pick(&[",", " és", ", valamint"]) } else { "" });
        }
        w.s.push('.');
        for p in places {
            for q in &qs {
                v.push(TextAmendment { reference: p.clone(), from: q.clone(), to: String::new() });
            }
        }
        SpecialPhrase::TextAmendment(v)
    } else {
        w.s.push('.');
        SpecialPhrase::Repeal(
            places
                .into_iter()
                .map(|p| match p {
                    TextAmendmentReference::SAE { reference, .. } => RepealReference::Reference(reference),
                    TextAmendmentReference::Structural(s) => RepealReference::StructuralReference(s),
                    TextAmendmentReference::ArticleTitle(_) => unreachable!(),
                })
                .collect(),
        )
    }
}

/// a running text with citations, and things that only look like them
fn simple(r: &mut Rng, w: &mut W) {
    w.s += *r.pick(&["A ", "Az ", "Ha ", ""]);
    w.s += &fill(r, 1, 3);
    for _ in 0..r.range(1, 4) {
        w.s.push(' ');
        w.cur = MRef::default();
        if r.chance(1, 2) {
            w.s += &decoy(r);
            w.s.push(' ');
            w.s += &fill(r, 1, 2);
            w.s += *r.pick(&[" ", " a ", " az ", ", "]);
        }
        let with_act = r.chance(1, 2);
        if with_act {
            let define = r.chance(1, 3);
            w.act(r, define);
        }
        if !with_act || r.chance(3, 4) {
            let n = if r.chance(1, 3) { r.range(2, 4) } else { 1 };
            for i in 0..n {
                if i > 0 {
                    w.s += &sep(r);
                } else if with_act {
                    w.s.push(' ');
                }
                let all: Vec<usize> = if with_act && i == 0 { vec![1] } else { vec![1, 1, 1, 2, 3, 4] };
                let levels = gen_citation(r, &w.cur, &all, true);
                w.citation(r, &levels);
            }
        }
        w.s.push(' ');
        w.s += &fill(r, 1, 3);
    }
    w.s += *r.pick(&[".", "", " kell?", " és", ", valamint", " vagy"]);
}

// ---------------------------------------------------------------- whole acts

/// an element of an act with what should be found in it
#[derive(Clone, Debug, Default)]
struct El {
    /// text or intro
    text: String,
    kids: Vec<El>,
    quoted: bool,
    wrap: Option<String>,
    /// what is found in `text`; None: not judged
    out: Option<Vec<Out>>,
    special: Option<SpecialPhrase>,
    own_abbr: BTreeMap<String, (i16, i32)>,
    /// own and inherited
    all_abbr: BTreeMap<String, (i16, i32)>,
}

const TAILS: [&str; 10] = ["", "", ",", ";", ", és", ", valamint", " vagy", ", illetve", "; továbbá", " és a"];

/// where a text stops so that the next one may continue its citation
#[derive(Clone, Copy, PartialEq)]
enum Open {
    No,
    Act,
    Level(usize),
}

/// the part of `w` after `from` as an element
fn element(w: &W, from: usize) -> El {
    El {
        text: w.s[from..].to_string(),
        out: Some(w.out.iter().filter(|o| o.1 > from).map(|o| (o.0.saturating_sub(from), o.1 - from, o.2)).collect()),
        own_abbr: w.new_abbr.clone(),
        ..Default::default()
    }
}

/// continues `w` with a text that may cite; returns how it ended
fn stretch(r: &mut Rng, w: &mut W, open: Open, may_open: bool) -> Open {
    let define = |r: &mut Rng, w: &W| w.abbr.len() < 18 && r.chance(1, 3);
    match open {
        Open::No => {
            w.cur = MRef::default();
            w.start = None;
            w.s += *r.pick(&["a ", "az ", "ha ", "olyan "]);
            w.s += &fill(r, 1, 2);
            w.s += *r.pick(&[" ", " a ", " az "]);
            if r.chance(1, 2) {
                let d = define(r, w);
                w.act(r, d);
                if may_open && r.chance(1, 3) {
                    return Open::Act;
                }
                w.s.push(' ');
            }
        }
        Open::Act => {}
        Open::Level(_) => {
            let o = w.out.pop().unwrap();
            w.start = Some(o.0);
        }
    }
    let tops: Vec<usize> = match open {
        Open::Level(1) => vec![2, 3],
        Open::Level(l) => vec![l + 1],
        Open::Act => vec![1],
        Open::No if w.cur.act.is_some() => vec![1],
        _ => vec![1, 1, 2, 3, 4],
    };
    let levels = gen_citation(r, &w.cur, &tops, true);
    w.citation(r, &levels);
    if may_open && r.chance(1, 2) {
        let last = levels.last().unwrap().last().unwrap();
        if !last.is_range() && last.level() < 4 {
            return Open::Level(last.level());
        }
    }
    w.s += " ";
    w.s += &fill(r, 1, 2);
    if r.chance(1, 2) {
        w.cur = MRef::default();
        w.s += " a ";
        let levels = gen_citation(r, &w.cur, &[1, 2, 3, 4], true);
        w.citation(r, &levels);
        if r.chance(1, 2) {
            w.s += " ";
            w.s += &fill(r, 1, 2);
        }
    }
    Open::No
}

/// `prefix`: everything before, ending with a space when not empty
fn gen_el(r: &mut Rng, abbr: &mut BTreeMap<String, (i16, i32)>, prefix: &W, open: Open, depth: usize, inherited: &BTreeMap<String, (i16, i32)>) -> El {
    let mut w = prefix.clone();
    w.abbr = abbr.clone();
    w.new_abbr.clear();
    let from = w.s.len();
    let kids = depth > 0 && r.chance(1, 2);
    let open = stretch(r, &mut w, open, kids);
    *abbr = w.abbr.clone();
    if !kids {
        w.s += *r.pick(&TAILS);
        let mut e = element(&w, from);
        e.all_abbr = inherited.clone();
        e.all_abbr.extend(e.own_abbr.clone());
        return e;
    }
    if open == Open::No && r.chance(1, 2) {
        w.s.push(':');
    }
    let mut e = element(&w, from);
    e.all_abbr = inherited.clone();
    e.all_abbr.extend(e.own_abbr.clone());
    e.wrap = r.chance(1, 2).then(|| format!("{}{}", fill(r, 1, 3), r.pick(&[".", "", ","])));
    w.s.push(' ');
    for _ in 0..r.range(1, 4) {
        let k = gen_el(r, abbr, &w, open, depth - 1, &e.all_abbr);
        e.kids.push(k);
    }
    e
}

/// a phrase that is spread over an intro, a point and a closing text
fn split_phrase(r: &mut Rng, abbr: &mut BTreeMap<String, (i16, i32)>) -> El {
    loop {
        let mut w = W { abbr: abbr.clone(), ..Default::default() };
        let text = r.chance(1, 2);
        let sp = if text { text_amendment(r, &mut w) } else { repeal(r, &mut w) };
        if !w.new_abbr.is_empty() || w.out.is_empty() {
            continue;
        }
        let k = w.out[0].1;
        let plain = !w.s[..k].contains("módosításáról") && !w.s[..k].contains("hatálybalépésével");
        let end = if text { w.s.rfind(" lép").unwrap() } else { w.s.len() };
        if end <= k + 2 {
            continue;
        }
        let mut e = El { text: w.s[..k].into(), ..Default::default() };
        e.out = plain.then(|| vec![w.out[0]]);
        if text {
            e.wrap = Some(w.s[end + 1..].into());
        }
        let mut kid = element(&w, k + 1);
        kid.text.truncate(end - k - 1);
        if !kid.text.ends_with([',', ';', '.']) && text {
            kid.text += *r.pick(&["", ",", " és", "; valamint"]);
        }
        kid.special = Some(sp);
        e.kids = vec![kid; r.range(1, 3) as usize];
        return e;
    }
}

fn gen_act(r: &mut Rng) -> (Act, Vec<Vec<El>>, BTreeMap<String, (i16, i32)>, BTreeMap<String, (i16, i32)>, bool) {
    let mut known = BTreeMap::new();
    for n in 0..r.below(3) {
        let a = abbreviation(r, n);
        known.insert(a, (r.range(1945, 2039) as i16, r.range(1, 399) as i32));
    }
    let mut abbr = known.clone();
    let mut redefined = false;
    let mut arts = vec![];
    for _ in 0..r.range(1, 4) {
        let mut pars = vec![];
        for _ in 0..r.range(1, 3) {
            let e = match r.below(8) {
                0 => {
                    let mut w = W { abbr: abbr.clone(), ..Default::default() };
                    let f: fn(&mut Rng, &mut W) -> SpecialPhrase = *r.pick(&[block as fn(&mut Rng, &mut W) -> SpecialPhrase, subtitle, structural, enforcement, text_amendment, repeal]);
                    let sp = f(r, &mut w);
                    let mut e = element(&w, 0);
                    abbr = w.abbr.clone();
                    e.special = Some(sp);
                    e.all_abbr = e.own_abbr.clone();
                    e
                }
                1 => {
                    // the intro of a block amendment
                    let mut w = W { abbr: abbr.clone(), ..Default::default() };
                    let f: fn(&mut Rng, &mut W) -> SpecialPhrase = *r.pick(&[block as fn(&mut Rng, &mut W) -> SpecialPhrase, subtitle, structural]);
                    let sp = f(r, &mut w);
                    let mut e = element(&w, 0);
                    abbr = w.abbr.clone();
                    e.special = Some(sp);
                    e.quoted = true;
                    e.all_abbr = e.own_abbr.clone();
                    e
                }
                2 | 3 => split_phrase(r, &mut abbr),
                4 if !abbr.is_empty() && r.chance(1, 2) => {
                    // an abbreviation gets another meaning
                    let names: Vec<String> = abbr.keys().cloned().collect();
                    let name = r.pick(&names).clone();
                    let id = (r.range(1945, 2039) as i16, r.range(1, 399) as i32);
                    redefined |= abbr[&name] != id;
                    let t = act_text(r, id);
                    let mut e = El { text: format!("A {t} (a továbbiakban: {name}) az irányadó."), ..Default::default() };
                    e.out = Some(vec![(2, 2 + t.len(), MRef { act: Some(id), ..Default::default() })]);
                    abbr.insert(name.clone(), id);
                    e.own_abbr.insert(name, id);
                    e.all_abbr = e.own_abbr.clone();
                    e
                }
                _ => gen_el(r, &mut abbr, &W::default(), Open::No, 2, &BTreeMap::new()),
            };
            pars.push(e);
        }
        arts.push(pars);
    }
    let mut children: Vec<ActChild> = vec![];
    for (i, pars) in arts.iter().enumerate() {
        if r.chance(1, 3) {
            children.push(Subtitle { identifier: None, title: format!("Alcím {i} a 8. § (1) bekezdésről"), last_change: None }.into());
        }
        children.push(
            Article {
                identifier: (i as u16 + 1).into(),
                title: r.chance(1, 3).then(|| "A 7. § címe".into()),
                children: pars.iter().enumerate().map(|(k, p)| paragraph(p, k, r)).collect(),
                last_change: None,
            }
            .into(),
        );
    }
    let act = Act {
        identifier: ActIdentifier { year: 2020, number: 3 },
        publication_date: NaiveDate::from_ymd_opt(2020, 2, 3).unwrap(),
        subject: "az 5. §-ról".into(),
        preamble: "A 2010. évi V. törvény 6. §-ával (a továbbiakban: Xyz.)".into(),
        contained_abbreviations: cache(&known),
        children,
    };
    (act, arts, known, abbr, redefined)
}
fn num(k: usize) -> NumericIdentifier {
    (k as u16 + 1).into()
}
fn letter(k: usize) -> AlphabeticIdentifier {
    LETTERS[k].parse().unwrap()
}
fn paragraph(e: &El, k: usize, r: &mut Rng) -> Paragraph {
    let alpha = r.chance(1, 2);
    let body = if e.quoted {
        SAEBody::Children {
            intro: e.text.clone(),
            children: ParagraphChildren::QuotedBlock(vec![QuotedBlock { intro: None, lines: vec![], wrap_up: None }]),
            wrap_up: None,
        }
    } else if e.kids.is_empty() {
        SAEBody::Text(e.text.clone())
    } else {
        SAEBody::Children {
            intro: e.text.clone(),
            children: if alpha {
                ParagraphChildren::AlphabeticPoint(
                    e.kids
                        .iter()
                        .enumerate()
                        .map(|(k, e)| AlphabeticPoint { identifier: letter(k), body: alpha_point(e, k, r), semantic_info: Default::default(), last_change: None })
                        .collect(),
                )
            } else {
                ParagraphChildren::NumericPoint(
                    e.kids
                        .iter()
                        .enumerate()
                        .map(|(k, e)| NumericPoint {
                            identifier: num(k),
                            body: if e.kids.is_empty() {
                                SAEBody::Text(e.text.clone())
                            } else {
                                SAEBody::Children { intro: e.text.clone(), children: NumericPointChildren::AlphabeticSubpoint(subpoints(e, None)), wrap_up: e.wrap.clone() }
                            },
                            semantic_info: Default::default(),
                            last_change: None,
                        })
                        .collect(),
                )
            },
            wrap_up: e.wrap.clone(),
        }
    };
    Paragraph { identifier: num(k).into(), body, semantic_info: Default::default(), last_change: None }
}
const SINGLE: [&str; 6] = ["a", "b", "d", "e", "f", "g"];
fn subpoints(e: &El, pre: Option<usize>) -> Vec<AlphabeticSubpoint> {
    e.kids
        .iter()
        .enumerate()
        .map(|(k, e)| AlphabeticSubpoint {
            identifier: format!("{}{}", pre.map_or("", |p| SINGLE[p]), SINGLE[k]).parse().unwrap(),
            body: SAEBody::Text(e.text.clone()),
            semantic_info: Default::default(),
            last_change: None,
        })
        .collect()
}
fn alpha_point(e: &El, k: usize, r: &mut Rng) -> SAEBody<AlphabeticPointChildren> {
    if e.kids.is_empty() {
        return SAEBody::Text(e.text.clone());
    }
    let children = if r.chance(1, 2) {
        AlphabeticPointChildren::AlphabeticSubpoint(subpoints(e, Some(k)))
    } else {
        AlphabeticPointChildren::NumericSubpoint(
            e.kids
                .iter()
                .enumerate()
                .map(|(k, e)| NumericSubpoint { identifier: num(k), body: SAEBody::Text(e.text.clone()), semantic_info: Default::default(), last_change: None })
                .collect(),
        )
    };
    SAEBody::Children { intro: e.text.clone(), children, wrap_up: e.wrap.clone() }
}

/// the texts of an act with what was found in them, in the order of the document
fn infos(act: &Act) -> Vec<(String, SemanticInfo)> {
    fn sae<IT: IdentifierCommon, CT: ChildrenCommon>(e: &SubArticleElement<IT, CT>, v: &mut Vec<(String, SemanticInfo)>, f: &dyn Fn(&CT, &mut Vec<(String, SemanticInfo)>)) {
        match &e.body {
            SAEBody::Text(t) => v.push((t.clone(), e.semantic_info.clone())),
            SAEBody::Children { intro, children, .. } => {
                v.push((intro.clone(), e.semantic_info.clone()));
                f(children, v);
            }
        }
    }
    let mut v = vec![];
    for a in act.children.iter().filter_map(|c| if let ActChild::Article(a) = c { Some(a) } else { None }) {
        for p in &a.children {
            sae(p, &mut v, &|c, v| match c {
                ParagraphChildren::AlphabeticPoint(x) => x.iter().for_each(|p| {
                    sae(p, v, &|c, v| match c {
                        AlphabeticPointChildren::AlphabeticSubpoint(x) => x.iter().for_each(|p| sae(p, v, &|_, _| ())),
                        AlphabeticPointChildren::NumericSubpoint(x) => x.iter().for_each(|p| sae(p, v, &|_, _| ())),
                    })
                }),
                ParagraphChildren::NumericPoint(x) => x.iter().for_each(|p| {
                    sae(p, v, &|c, v| match c {
                        NumericPointChildren::AlphabeticSubpoint(x) => x.iter().for_each(|p| sae(p, v, &|_, _| ())),
                    })
                }),
                _ => (),
            });
        }
    }
    v
}
/// the act without anything semantic, as data
fn bare(act: &Act) -> serde_json::Value {
    fn strip(v: &mut serde_json::Value) {
        match v {
            serde_json::Value::Object(o) => {
                o.remove("semantic_info");
                o.remove("contained_abbreviations");
                o.values_mut().for_each(strip);
            }
            serde_json::Value::Array(a) => a.iter_mut().for_each(strip),
            _ => (),
        }
    }
    let mut v = serde_json::to_value(act).unwrap_or_default();
    strip(&mut v);
    v
}
fn flat<'a>(e: &'a El, v: &mut Vec<&'a El>) {
    v.push(e);
    e.kids.iter().for_each(|k| flat(k, v));
}

fn whole_act(r: &mut Rng, m: &mut Mon) {
    let (fresh, arts, known, last, redefined) = gen_act(r);
    let mut want = vec![];
    for p in arts.iter().flatten() {
        flat(p, &mut want);
    }
    let texts: Vec<&str> = want.iter().map(|e| e.text.as_str()).collect();
    let ctx = || format!("{:?}\nknowing {known:?}", arts);
    m.observe(&texts.join("|"), true);
    m.sample(|| texts.join(" | "));
    let mut act = fresh.clone();
    let Some(res) = m.no_panic("act", ctx, || act.add_semantic_info()) else { return };
    let changed = match res {
        Ok(c) => c,
        Err(e) => {
            m.fail("act:refused", format!("{e:?} on {}", ctx()));
            return;
        }
    };
    m.check((changed == AbbreviationsChanged::Yes) == (redefined || last != known), "act:changed", || format!("{changed:?} {}", ctx()));
    m.check(act.contained_abbreviations == cache(&last), "act:abbreviations", || format!("{:?}, expected {last:?} in {}", act.contained_abbreviations, ctx()));
    m.check(bare(&act) == bare(&fresh), "act:altered", || format!("{act:?} was {fresh:?}"));
    let got = infos(&act);
    if got.len() != want.len() {
        m.fail("act:shape", ctx());
        return;
    }
    for ((t, i), e) in got.iter().zip(&want) {
        let refs: Vec<Out> = i.outgoing_references.iter().map(|o| (o.start, o.end, decode(&o.reference))).collect();
        m.count("references", refs.len() as u64);
        if e.out.as_ref().map_or(false, |o| *o != refs) {
            let show = |v: &[Out]| v.iter().map(|(a, b, x)| format!("{a}..{b} {:?}={}", t.get(*a..*b).unwrap_or("?"), x.compact())).collect::<Vec<_>>();
            m.fail("act:references", format!("in {t:?}\nexpected {:?}\nfound    {:?}\n{}", show(e.out.as_ref().unwrap()), show(&refs), ctx()));
        }
        m.check(i.special_phrase == e.special, "act:phrase", || format!("in {t:?}\nexpected {:?}\nfound    {:?}\n{}", e.special, i.special_phrase, ctx()));
        let own = cache(&e.own_abbr);
        let all = cache(&e.all_abbr);
        m.check(
            own.iter().all(|(k, v)| i.new_abbreviations.get(k) == Some(v)) && i.new_abbreviations.iter().all(|(k, v)| all.get(k) == Some(v)),
            "act:new abbreviations",
            || format!("in {t:?}\nexpected {own:?}\nfound {:?}\n{}", i.new_abbreviations, ctx()),
        );
    }
    // article by article, and again
    let mut by = fresh.clone();
    let mut any = false;
    for i in 0..arts.len() {
        let Some(r) = m.no_panic("article", ctx, || by.add_semantic_info_to_article((i as u16 + 1).into())) else { return };
        match r {
            Ok(c) => any |= c == AbbreviationsChanged::Yes,
            Err(e) => m.fail("article:refused", format!("{e:?} on {}", ctx())),
        }
        let n: usize = arts[..=i].iter().flatten().map(|e| { let mut v = vec![]; flat(e, &mut v); v.len() }).sum();
        let b = infos(&by);
        m.check(b.len() == got.len() && b[..n] == got[..n] && b[n..].iter().all(|x| x.1.is_empty()), "article:info", || format!("after article {} of {}", i + 1, ctx()));
    }
    m.check(any == (changed == AbbreviationsChanged::Yes), "article:changed", ctx);
    m.check(by == act, "article:act", ctx);
    let Some(none) = m.no_panic("article", ctx, || by.add_semantic_info_to_article(900.into())) else { return };
    m.check(none.is_err() && by == act, "article:missing", ctx);
    if !redefined {
        let Some(again) = m.no_panic("act", ctx, || by.add_semantic_info()) else { return };
        m.check(matches!(again, Ok(AbbreviationsChanged::No)) && by == act, "act:again", ctx);
    }
}

/// the repository's acts with semantic information: the same is found again
fn act_example(m: &mut Mon, f: &std::path::Path) {
    let Ok(Ok(t)) = std::fs::read(f).map(|b| singleton_yaml::from_slice::<Act>(&b)) else { return };
    m.observe(&format!("{f:?}"), true);
    m.count("act_examples", 1);
    let Ok(mut act) = serde_json::from_value::<Act>(bare(&t)) else { return };
    let Some(r) = m.no_panic("act example", || format!("{f:?}"), || act.add_semantic_info()) else { return };
    m.check(r.is_ok() && act == t, "act example", || format!("{f:?}: {r:?}"));
}

fn c24(env: &Env, mon: &mut Mon) {
    // the repository's own examples
    let mut files = vec![];
    for d in std::fs::read_dir("/repo/tests/datatests/data_semantic_parser").into_iter().flatten().flatten() {
        for f in std::fs::read_dir(d.path()).into_iter().flatten().flatten() {
            if f.path().extension().map_or(false, |e| e == "yml") {
                files.push(f.path());
            }
        }
    }
    files.sort();
    env.suite(mon, "examples", files.len() as u64, |r, m| {
        let _ = r;
        let k = m.case as usize;
        if let Some(f) = files.get(k) {
            example(m, f);
        }
    });
    let mut files: Vec<_> = std::fs::read_dir("/repo/tests/datatests/data_add_semantic_info").into_iter().flatten().flatten().map(|f| f.path()).filter(|p| p.extension().map_or(false, |e| e == "yml")).collect();
    files.sort();
    env.suite(mon, "act examples", files.len() as u64, |_, m| {
        if let Some(f) = files.get(m.case as usize) {
            act_example(m, f);
        }
    });
    let phrases: [(&str, fn(&mut Rng, &mut W) -> SpecialPhrase); 6] =
        [("block", block), ("subtitle", subtitle), ("structural", structural), ("enforcement", enforcement), ("text", text_amendment), ("repeal", repeal)];
    env.suite(mon, "citations", env.n(20000, 400000), |r, m| {
        let (mut w, known) = start(r);
        simple(r, &mut w);
        judge(m, "citations", &w, &known, &None);
    });
    env.suite(mon, "acts", env.n(6000, 120000), whole_act);
    env.suite(mon, "damaged", env.n(20000, 400000), damaged);
    env.suite(mon, "prefixes", env.n(4000, 60000), prefixes);
    for (name, f) in phrases {
        env.suite(mon, name, env.n(8000, 150000), |r, m| {
            let (mut w, known) = start(r);
            let sp = f(r, &mut w);
            judge(m, name, &w, &known, &Some(sp));
        });
    }
}

/// any text: no panic, and every position is one of the text
fn damaged(r: &mut Rng, m: &mut Mon) {
    let (mut w, known) = start(r);
    match r.below(8) {
        0 | 1 => simple(r, &mut w),
        k => {
            let f: [fn(&mut Rng, &mut W) -> SpecialPhrase; 6] = [block, subtitle, structural, enforcement, text_amendment, repeal];
            f[k - 2](r, &mut w);
        }
    }
    let mut t: Vec<String> = w.s.split_inclusive(' ').map(|x| x.to_string()).collect();
    for _ in 0..r.range(0, 4) {
        let k = r.below(t.len());
        match r.below(7) {
            0 => {
                t.remove(k);
            }
            1 => {
                let x = t[k].clone();
                t.insert(r.below(t.len()), x);
            }
            2 => {
                let j = r.below(t.len());
                t.swap(k, j);
            }
            3 => t.insert(k, r.pick(&["„", "”", "§ ", "(", ") ", "a) ", "99999999999. § ", "65536. ", "(a továbbiakban: ", "2012. évi IIII. törvény ", "0. § ", "évi ", "– ", "ű", "\u{a0}", "melléklete "]).to_string()),
            4 => {
                // cut a character out
                let c: Vec<char> = t[k].chars().collect();
                let x = r.below(c.len());
                t[k] = c.iter().enumerate().filter(|(i, _)| *i != x).map(|(_, c)| *c).collect();
            }
            5 => t.truncate(k + 1),
            _ => t[k] = t[k].to_uppercase(),
        }
        if t.is_empty() {
            t.push(" ".into());
        }
    }
    let s = t.concat();
    let s = if r.chance(1, 3) { s.trim_end().trim_end_matches(['.', ':']).to_string() } else { s };
    m.observe(&s, true);
    m.sample(|| s.clone());
    let ctx = || format!("{s:?} knowing {known:?}");
    let mut c = AbbreviationCache::from(cache(&known));
    let Some(got) = m.no_panic("damaged", ctx, || SemanticInfoAdder::new(&mut c).extract_semantic_info(&s)) else { return };
    let Ok(i) = got else {
        m.count("damaged_refused", 1);
        return;
    };
    for o in &i.outgoing_references {
        m.check(o.start <= o.end && s.get(o.start..o.end).is_some(), "damaged:position", || format!("{}..{} of {} in {}", o.start, o.end, s.len(), ctx()));
    }
}

/// abbreviations that begin with other ones: the one that is written is meant
fn prefixes(r: &mut Rng, m: &mut Mon) {
    let stem = *r.pick(&["Tv", "Bt", "Eht", "Ptk", "Met"]);
    let mut names: Vec<String> = vec![format!("{stem}.")];
    for _ in 0..r.range(1, 3) {
        let n = match r.below(4) {
            0 => format!("{stem}.{}.", r.range(1, 9)),
            1 => format!("{stem}. {}.", r.pick(&["tv", "Eht", "Abc"])),
            2 => format!("{stem}k."),
            _ => format!("{stem}-tv."),
        };
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let mut w = W::default();
    let inline = r.chance(1, 2);
    let mut known = BTreeMap::new();
    r.shuffle(&mut names);
    for n in &names {
        let id = (r.range(1945, 2039) as i16, r.range(1, 399) as i32);
        w.abbr.insert(n.clone(), id);
        if inline {
            let t = act_text(r, id);
            w.s += "Alkalmazni kell a ";
            let st = w.s.len();
            w.s += &t;
            w.out.push((st, w.s.len(), MRef { act: Some(id), ..Default::default() }));
            w.s += &format!(" (a továbbiakban: {n}) szabályait. ");
            w.new_abbr.insert(n.clone(), id);
        } else {
            known.insert(n.clone(), id);
        }
    }
    for _ in 0..r.range(1, 4) {
        let n = r.pick(&names).clone();
        let id = w.abbr[&n];
        w.s += *r.pick(&["A ", "Kell a ", "Szerint a "]);
        let st = w.s.len();
        w.s += &n;
        w.cur = MRef { act: Some(id), ..Default::default() };
        w.out.push((st, w.s.len(), w.cur));
        if r.chance(2, 3) {
            w.s.push(' ');
            let levels = gen_citation(r, &w.cur, &[1], true);
            w.start = None;
            w.citation(r, &levels);
        }
        w.s += " szerint eljárva. ";
    }
    w.s += "Kell.";
    judge(m, "prefixes", &w, &known, &None);
}

#[derive(Debug, serde::Deserialize)]
struct Example {
    text: String,
    positions: String,
    #[serde(default)]
    abbreviations: BTreeMap<String, ActIdentifier>,
    #[serde(default)]
    expected_new_abbreviations: BTreeMap<String, ActIdentifier>,
    #[serde(default)]
    expected_references: Vec<Reference>,
    #[serde(default)]
    expected_special_phrase: Option<SpecialPhrase>,
}
fn example(m: &mut Mon, f: &std::path::Path) {
    let Ok(Ok(t)) = std::fs::read(f).map(|b| singleton_yaml::from_slice::<Example>(&b)) else { return };
    m.observe(&t.text, true);
    m.count("examples", 1);
    let mut c = AbbreviationCache::from(t.abbreviations.clone());
    let Some(got) = m.no_panic("example", || format!("{f:?}"), || SemanticInfoAdder::new(&mut c).extract_semantic_info(&t.text)) else { return };
    let ok = got.as_ref().map_or(false, |s| {
        let mut pos = vec![b' '; t.text.chars().count()];
        for o in &s.outgoing_references {
            pos[t.text[..o.start].chars().count()] = b'<';
            pos[t.text[..o.end].chars().count() - 1] = b'>';
        }
        s.outgoing_references.iter().map(|o| &o.reference).eq(t.expected_references.iter())
            && pos == t.positions.as_bytes()
            && s.new_abbreviations == t.expected_new_abbreviations
            && s.special_phrase == t.expected_special_phrase
    });
    m.check(ok, "example", || format!("{f:?}: {got:?}"));
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C24",
        level: "exploration",
        rule: "legal texts composed of citations (all levels, lists, ranges, books, spellings), act references, abbreviations, look-alikes and quotations; amending, repealing and enforcement phrases of every kind composed from known parts; whole acts; damaged texts; the repository's examples; non-trivial: the text cites something; distinct by text",
        assumptions: &["the parser is generated from the repository's grammar by an own generator (tools/peg.py), as peginator is not available; the repository's 230 examples validate it"],
        run: c24,
    }]
}
