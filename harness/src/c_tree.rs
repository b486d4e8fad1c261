//! C14 walking, C16 storing and loading, C17 text output: monitors over whole act trees.
use std::collections::{BTreeMap, HashSet};

use anyhow::Result;
use chrono::NaiveDate;
use hun_law::{
    identifier::{
        range::{IdentifierRange, IdentifierRangeFrom},
        *,
    },
    output::{
        text::{TextOutput, TextOutputParams},
        CliOutput, OutputFormat,
    },
    reference::{structural::*, Reference},
    semantic_info as si,
    semantic_info::SemanticInfo,
    structure::*,
    util::{
        singleton_yaml,
        walker::{SAEVisitor, SAEVisitorMut},
    },
};

use crate::{
    acts,
    c_ident::LETTERS,
    c_ref::{decode, gen_ref, MRef},
    c_struct::corpus_docs,
    lines::MLine,
    mon::{guard, Env, Mon},
    rng::Rng,
    Check,
};

// ---------------------------------------------------------------- the workload: any act at all

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// every text carries a unique number
    Tag,
    /// texts that storage formats may misread
    Hostile,
    /// texts to be wrapped
    Print,
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub mode: Mode,
    pub n: u32,
    /// semantic info and change records
    pub info: bool,
    /// chance (of 16) that a text is empty
    pub blank: u32,
}

const BAD: &[&str] = &[
    "", " ", "null", "~", "Null", "true", "no", "on", "y", "1", "-1", "0x1F", "0o7", "1e3", ".5", ".inf", ".nan", "1_000", "2020-01-01", "12:30:00", "- a", "-", "a: b", ":", "a:", "? x", "# c", "a #b", "key: [",
    "\n", "a\nb", "a\n\nb\n", "\n a", "a\r\nb", "\r", "\u{85}", "\u{2028}x", "\u{2029}", "\u{feff}x", "\u{0}", "\t", "\ta", "a\t", "'", "\"", "it's", "\"q\"", "\\", "\\n", "|", ">", "|-", "% x", "@x", "`x", "!t", "!!str x", "&a", "*a",
    "---", "--- a", "...", "{}", "[]", "{a", "}", "[", ",", "😀", "\u{7f}", "\u{1b}[0m", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{d7ff}", "\u{e000}", "\u{10ffff}", " lead", "trail ", "  two", "a  b", "\u{a0}", "<<", "=", "(1)", "{\"a\":1}", "//", "/*", "</script>", "\u{301}", "ő", "\u{8}",
    "\u{200f}", "a\u{0}b", "0", "00", "+1", "0.1", "1.", "~a", "NULL", "False", "\u{1}", "\u{9f}",
];

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, mode: Mode) -> Self {
        G { r, mode, n: 0, info: true, blank: 0 }
    }
    pub fn t(&mut self, lo: i64, hi: i64) -> String {
        if self.blank > 0 && self.r.chance(self.blank, 16) {
            return String::new();
        }
        self.n += 1;
        match self.mode {
            Mode::Tag => format!("t{} {}", self.n, acts::word(self.r)),
            Mode::Hostile => {
                if self.r.chance(1, 3) {
                    let mut s = String::new();
                    for _ in 0..self.r.range(1, 4) {
                        s.push_str(*self.r.pick(BAD));
                        if self.r.chance(1, 3) {
                            s.push_str(*self.r.pick(&[" ", "\n", ": ", "#", ""]));
                        }
                        if self.r.chance(1, 12) {
                            s.push_str(&"hosszú szöveg ".repeat(self.r.range(1, 60) as usize));
                        }
                    }
                    s
                } else if self.r.chance(1, 2) {
                    self.r.pick(BAD).to_string()
                } else {
                    acts::word(self.r)
                }
            }
            Mode::Print => {
                let n = self.r.range(lo, hi);
                let mut v: Vec<String> = vec![];
                for _ in 0..n {
                    v.push(match self.r.below(14) {
                        0 => acts::hostile_header(self.r),
                        1 => acts::inline_quote(self.r, 0),
                        2 => {
                            let k = self.r.range(1, 60);
                            (0..k).map(|_| *self.r.pick(&['á', 'b', 'ő', 'z', '§', '9'])).collect()
                        }
                        3 => format!("{}-{}", acts::word(self.r), acts::word(self.r)),
                        4 => self.r.pick(&["--", "a-", "-a", "–", "…", "x/y", "100-101.", "a-b-c-d-e-f-g-h-i-j-k"]).to_string(),
                        _ => acts::word(self.r),
                    });
                }
                v.join(" ")
            }
        }
    }
    fn opt(&mut self, lo: i64, hi: i64) -> Option<String> {
        self.r.chance(1, 3).then(|| self.t(lo, hi))
    }
    pub fn date(&mut self) -> NaiveDate {
        NaiveDate::from_ymd_opt(self.r.range(1, 2500) as i32, self.r.range(1, 12) as u32, self.r.range(1, 28) as u32).unwrap()
    }
    fn refe(&mut self) -> Reference {
        for _ in 0..50 {
            let m = gen_ref(self.r, true);
            if m.valid() && m != MRef::default() {
                if let Ok(x) = m.build() {
                    return x;
                }
            }
        }
        "2012.5".parse::<ActIdentifier>().map(|_| ()).ok();
        MRef { act: Some((2012, 5)), ..Default::default() }.build().unwrap()
    }
    fn act_id(&mut self) -> ActIdentifier {
        ActIdentifier { year: self.r.range(1900, 2100) as i16, number: self.r.range(1, 3999) as i32 }
    }
    pub fn num(&mut self) -> NumericIdentifier {
        let s = if self.r.chance(1, 4) { *self.r.pick(&["a", "b", "z", "m"]) } else { "" };
        let n = if self.r.chance(1, 10) { self.r.range(1, 65535) } else { self.r.range(1, 30) };
        format!("{n}{s}").parse().unwrap()
    }
    pub fn art_id(&mut self) -> ArticleIdentifier {
        let n = self.num();
        let b = self.r.chance(1, 4).then(|| self.r.range(1, 255) as u8);
        ArticleIdentifier::from_book_and_id(b, n)
    }
    fn num_range(&mut self) -> IdentifierRange<NumericIdentifier> {
        let (a, b) = (self.num(), self.num());
        if self.r.chance(1, 2) {
            IdentifierRangeFrom::from_single(a)
        } else {
            IdentifierRangeFrom::from_range(a.min(b), a.max(b))
        }
    }
    fn art_range(&mut self) -> IdentifierRange<ArticleIdentifier> {
        let (a, b) = (self.art_id(), self.art_id());
        if self.r.chance(1, 2) {
            IdentifierRangeFrom::from_single(a)
        } else {
            IdentifierRangeFrom::from_range(a.min(b), a.max(b))
        }
    }
    fn sref(&mut self) -> StructuralReference {
        use StructuralReferenceElement as E;
        use StructuralReferenceParent as P;
        let n = self.num();
        StructuralReference {
            act: self.r.chance(1, 2).then(|| self.act_id()),
            book: self.r.chance(1, 3).then(|| self.num()),
            parent: self.r.chance(1, 3).then(|| match self.r.below(6) {
                0 => P::Part(n),
                1 => P::Title(n),
                2 => P::Chapter(n),
                3 => P::SubtitleId(n),
                4 => P::SubtitleRange(self.num_range()),
                _ => P::SubtitleTitle(self.t(1, 4)),
            }),
            structural_element: match self.r.below(11) {
                0 => E::Part(n),
                1 => E::Title(n),
                2 => E::Chapter(n),
                3 => E::SubtitleId(n),
                4 => E::SubtitleRange(self.num_range()),
                5 => E::SubtitleTitle(self.t(1, 4)),
                6 => E::SubtitleAfterArticle(self.art_id()),
                7 => E::SubtitleBeforeArticle(self.art_id()),
                8 => E::SubtitleBeforeArticleInclusive(self.art_id()),
                9 => E::SubtitleUnknown,
                _ => E::Article(self.art_range()),
            },
            title_only: self.r.chance(1, 3),
        }
    }
    fn phrase(&mut self) -> si::SpecialPhrase {
        match self.r.below(5) {
            0 => si::BlockAmendment { position: self.refe(), pure_insertion: self.r.chance(1, 2) }.into(),
            1 => si::EnforcementDate {
                positions: (0..self.r.below(3)).map(|_| self.refe()).collect(),
                structural_positions: (0..self.r.below(3)).map(|_| self.sref()).collect(),
                is_default: self.r.chance(1, 2),
                date: match self.r.below(3) {
                    0 => si::EnforcementDateType::Date(self.date()),
                    1 => si::EnforcementDateType::DaysAfterPublication(self.r.range(0, 65535) as u16),
                    _ => si::EnforcementDateType::DayInMonthAfterPublication { month: self.r.chance(1, 2).then(|| self.r.range(0, 255) as u8), day: self.r.range(0, 65535) as u16 },
                },
                inline_repeal: self.r.chance(1, 2).then(|| self.date()),
            }
            .into(),
            2 => si::SpecialPhrase::Repeal(
                (0..self.r.below(4)).map(|_| if self.r.chance(1, 2) { si::RepealReference::Reference(self.refe()) } else { si::RepealReference::StructuralReference(self.sref()) }).collect(),
            ),
            3 => si::SpecialPhrase::TextAmendment(
                (0..self.r.below(4))
                    .map(|_| si::TextAmendment {
                        reference: match self.r.below(3) {
                            0 => si::TextAmendmentReference::SAE {
                                reference: self.refe(),
                                amended_part: match self.r.below(3) {
                                    0 => si::TextAmendmentSAEPart::All,
                                    1 => si::TextAmendmentSAEPart::IntroOnly,
                                    _ => si::TextAmendmentSAEPart::WrapUpOnly,
                                },
                            },
                            1 => si::TextAmendmentReference::Structural(self.sref()),
                            _ => si::TextAmendmentReference::ArticleTitle(self.refe()),
                        },
                        from: self.t(0, 3),
                        to: self.t(0, 3),
                    })
                    .collect(),
            ),
            _ => si::StructuralBlockAmendment { position: self.sref(), pure_insertion: self.r.chance(1, 2) }.into(),
        }
    }
    /// semantic info for a text: references cover whole words
    pub fn sem(&mut self, text: &str) -> SemanticInfo {
        let mut s = SemanticInfo::default();
        if !self.info || self.r.chance(1, 2) {
            return s;
        }
        if self.r.chance(2, 3) {
            // word boundaries
            let mut starts = vec![];
            let mut prev = ' ';
            for (i, c) in text.char_indices() {
                if prev == ' ' && c != ' ' {
                    starts.push(i);
                }
                prev = c;
            }
            let mut at = 0;
            for st in starts {
                if st < at || !self.r.chance(1, 3) {
                    continue;
                }
                let words = self.r.range(1, 3);
                let mut end = st;
                let mut seen = 0;
                for (i, c) in text[st..].char_indices() {
                    if c == ' ' {
                        seen += 1;
                        if seen == words {
                            break;
                        }
                    } else {
                        end = st + i + c.len_utf8();
                    }
                }
                s.outgoing_references.push(si::OutgoingReference { start: st, end, reference: self.refe() });
                at = end;
            }
        }
        if self.r.chance(1, 3) {
            for _ in 0..self.r.below(3) {
                let (k, v) = (self.t(1, 2), self.act_id());
                s.new_abbreviations.insert(k, v);
            }
        }
        if self.r.chance(1, 3) {
            s.special_phrase = Some(self.phrase());
        }
        s
    }
    fn change(&mut self) -> Option<LastChange> {
        (self.info && self.r.chance(1, 5)).then(|| LastChange {
            date: self.date(),
            cause: match self.r.below(3) {
                0 => ChangeCause::Amendment(self.refe()),
                1 => ChangeCause::AutoRepeal,
                _ => ChangeCause::Other(self.t(0, 4)),
            },
        })
    }
    fn sae<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, identifier: IT, body: SAEBody<CT>) -> SubArticleElement<IT, CT> {
        let semantic_info = match &body {
            SAEBody::Text(t) => self.sem(t),
            SAEBody::Children { intro, .. } => self.sem(intro),
        };
        SubArticleElement { identifier, body, semantic_info, last_change: self.change() }
    }
    fn len(&mut self) -> usize {
        match self.r.below(8) {
            0 => 0,
            1 => 1,
            2 => self.r.range(3, 8) as usize,
            _ => self.r.range(1, 4) as usize,
        }
    }
    fn kids<CT: ChildrenCommon>(&mut self, children: CT) -> SAEBody<CT> {
        SAEBody::Children { intro: self.t(0, 20), children, wrap_up: self.opt(0, 12) }
    }
    pub fn nsubs(&mut self) -> Vec<NumericSubpoint> {
        (0..self.len())
            .map(|_| {
                let (i, t) = (self.num(), self.t(0, 25));
                self.sae(i, t.into())
            })
            .collect()
    }
    pub fn asubs(&mut self, prefix: Option<&str>) -> Vec<AlphabeticSubpoint> {
        (0..self.len())
            .map(|_| {
                let c = *self.r.pick(&["a", "b", "c", "h", "z", "q"]);
                let (i, t) = (format!("{}{c}", prefix.unwrap_or("")).parse().unwrap(), self.t(0, 25));
                self.sae::<PrefixedAlphabeticIdentifier, AlphabeticSubpointChildren>(i, t.into())
            })
            .collect()
    }
    pub fn apoints(&mut self) -> Vec<AlphabeticPoint> {
        (0..self.len())
            .map(|_| {
                let l = LETTERS[self.r.below(LETTERS.len())];
                let id: AlphabeticIdentifier = l.parse().unwrap();
                let body = match self.r.below(4) {
                    0 => {
                        let c = self.nsubs().into();
                        self.kids(c)
                    }
                    1 if l.len() == 1 => {
                        let c = self.asubs(Some(l)).into();
                        self.kids(c)
                    }
                    _ => self.t(0, 30).into(),
                };
                self.sae(id, body)
            })
            .collect()
    }
    pub fn npoints(&mut self) -> Vec<NumericPoint> {
        (0..self.len())
            .map(|_| {
                let id = self.num();
                let body = if self.r.chance(1, 3) {
                    let c = self.asubs(None).into();
                    self.kids(c)
                } else {
                    self.t(0, 30).into()
                };
                self.sae(id, body)
            })
            .collect()
    }
    pub fn line(&mut self) -> MLine {
        let t = self.t(0, 10);
        let n = t.chars().count().max(1);
        let mut x = *self.r.pick(&[0.0, 5.0, 12.5, 100.25, 1234.0, -3.0]) + if self.r.chance(1, 3) { self.r.f(0.0, 300.0) } else { 0.0 };
        let cut = self.r.below(n + 1);
        let b = self.r.below(3);
        let frac = self.r.chance(1, 3);
        let chars = t
            .chars()
            .enumerate()
            .map(|(i, c)| {
                let p = (x, c, if b == 0 { false } else { (i < cut) == (b == 1) });
                x += if frac { self.r.f(0.1, 9.0) } else { 5.0 };
                p
            })
            .collect();
        MLine { chars, justified: self.r.chance(1, 2) }
    }
    fn block(&mut self) -> QuotedBlock {
        let n = self.len();
        QuotedBlock { intro: self.opt(0, 10), lines: (0..n).map(|_| self.line().real()).collect(), wrap_up: self.opt(0, 10) }
    }
    pub fn paragraph(&mut self, id: ParagraphIdentifier, depth: u32) -> Paragraph {
        let body = match self.r.below(10) {
            0 | 1 => {
                let c = self.apoints().into();
                self.kids(c)
            }
            2 => {
                let c = self.npoints().into();
                self.kids(c)
            }
            3 => {
                let n = self.len();
                let c = (0..n).map(|_| self.block()).collect::<Vec<_>>().into();
                self.kids(c)
            }
            4 if depth < 2 => {
                let children = match self.r.below(5) {
                    0 => {
                        let n = self.len();
                        (0..n)
                            .map(|_| {
                                let id = self.num();
                                self.paragraph(id.into(), depth + 1)
                            })
                            .collect::<Vec<_>>()
                            .into()
                    }
                    1 => self.apoints().into(),
                    2 => self.npoints().into(),
                    3 => self.asubs(None).into(),
                    _ => self.nsubs().into(),
                };
                let c = BlockAmendment { intro: self.opt(0, 10), children, wrap_up: self.opt(0, 10) }.into();
                self.kids(c)
            }
            5 if depth < 2 => {
                let n = self.len();
                let children = (0..n).map(|_| self.child(depth + 1)).collect();
                let c = StructuralBlockAmendment { intro: self.opt(0, 10), children, wrap_up: self.opt(0, 10) }.into();
                self.kids(c)
            }
            _ => self.t(0, 40).into(),
        };
        self.sae(id, body)
    }
    pub fn child(&mut self, depth: u32) -> ActChild {
        match self.r.below(6) {
            0 => {
                let (element_type, max) = match self.r.below(5) {
                    0 => (StructuralElementType::Book, 100),
                    1 => (StructuralElementType::Part { is_special: false }, 100),
                    2 => (StructuralElementType::Part { is_special: true }, 3),
                    3 => (StructuralElementType::Title, 3999),
                    _ => (StructuralElementType::Chapter, 3999),
                };
                StructuralElement { identifier: (self.r.range(1, max) as u16).into(), title: self.t(0, 10), element_type, last_change: self.change() }.into()
            }
            1 => Subtitle { identifier: self.r.chance(1, 2).then(|| self.num()), title: self.t(0, 12), last_change: self.change() }.into(),
            _ => {
                let children = if self.r.chance(1, 2) {
                    vec![self.paragraph(ParagraphIdentifier::default(), depth)]
                } else {
                    let n = self.len();
                    (0..n)
                        .map(|_| {
                            let id = self.num();
                            self.paragraph(id.into(), depth)
                        })
                        .collect()
                };
                Article { identifier: self.art_id(), title: self.opt(1, 14), children, last_change: self.change() }.into()
            }
        }
    }
    pub fn act(&mut self, max: usize) -> Act {
        let n = self.r.below(max + 1);
        let mut contained_abbreviations = BTreeMap::new();
        if self.r.chance(1, 3) {
            for _ in 0..self.r.below(4) {
                let (k, v) = (self.t(1, 2), self.act_id());
                contained_abbreviations.insert(k, v);
            }
        }
        Act {
            identifier: self.act_id(),
            subject: self.t(1, 14),
            preamble: self.t(0, 30),
            publication_date: self.date(),
            contained_abbreviations,
            children: (0..n).map(|_| self.child(0)).collect(),
        }
    }
}

// ---------------------------------------------------------------- C14

#[derive(Debug, Clone, PartialEq)]
struct Ev {
    enter: bool,
    at: MRef,
    kind: String,
    /// the text or intro
    text: String,
    leaf: bool,
}

fn m_num(n: NumericIdentifier) -> crate::c_ident::MNum {
    crate::c_ref::m_num(n)
}

/// The tree in the visitors' eyes: kind, own reference part, text, children
struct Node {
    kind: &'static str,
    at: MRef,
    text: String,
    leaf: bool,
    kids: Vec<Node>,
}

fn nodes(a: &Act) -> Vec<Node> {
    let base = MRef { act: Some((a.identifier.year, a.identifier.number)), ..Default::default() };
    let mut v = vec![];
    for c in &a.children {
        if let ActChild::Article(x) = c {
            let id = crate::c_ref::m_art(x.identifier);
            let at = MRef { art: Some((id, id)), ..base };
            v.extend(x.children.iter().map(|p| par_node(p, at)));
        }
    }
    v
}
fn par_node(p: &Paragraph, at: MRef) -> Node {
    let at = match p.identifier.map(|n| n) {
        Some(n) => MRef { par: Some((m_num(n), m_num(n))), ..at },
        None => at,
    };
    let (text, leaf, kids) = match &p.body {
        SAEBody::Text(t) => (t.clone(), true, vec![]),
        SAEBody::Children { intro, children, .. } => (
            intro.clone(),
            false,
            match children {
                ParagraphChildren::AlphabeticPoint(v) => v.iter().map(|x| apt_node(x, at)).collect(),
                ParagraphChildren::NumericPoint(v) => v.iter().map(|x| npt_node(x, at)).collect(),
                _ => vec![],
            },
        ),
    };
    Node { kind: "Paragraph", at, text, leaf, kids }
}
fn apt_node(p: &AlphabeticPoint, at: MRef) -> Node {
    let l = crate::c_ref::m_let(p.identifier);
    let at = MRef { pt: Some(crate::c_ref::MPt::A(l, l)), ..at };
    let (text, leaf, kids) = match &p.body {
        SAEBody::Text(t) => (t.clone(), true, vec![]),
        SAEBody::Children { intro, children, .. } => (
            intro.clone(),
            false,
            match children {
                AlphabeticPointChildren::AlphabeticSubpoint(v) => v.iter().map(|x| asub_node(x, at)).collect(),
                AlphabeticPointChildren::NumericSubpoint(v) => v
                    .iter()
                    .map(|x| {
                        let n = m_num(x.identifier);
                        leaf_node("NumericSubpoint", MRef { sp: Some(crate::c_ref::MSp::N(n, n)), ..at }, &x.body)
                    })
                    .collect(),
            },
        ),
    };
    Node { kind: "AlphabeticPoint", at, text, leaf, kids }
}
fn npt_node(p: &NumericPoint, at: MRef) -> Node {
    let l = m_num(p.identifier);
    let at = MRef { pt: Some(crate::c_ref::MPt::N(l, l)), ..at };
    let (text, leaf, kids) = match &p.body {
        SAEBody::Text(t) => (t.clone(), true, vec![]),
        SAEBody::Children { intro, children: NumericPointChildren::AlphabeticSubpoint(v), .. } => (intro.clone(), false, v.iter().map(|x| asub_node(x, at)).collect()),
    };
    Node { kind: "NumericPoint", at, text, leaf, kids }
}
fn asub_node(x: &AlphabeticSubpoint, at: MRef) -> Node {
    let n = crate::c_ref::m_pre(x.identifier);
    leaf_node("AlphabeticSubpoint", MRef { sp: Some(crate::c_ref::MSp::A(n, n)), ..at }, &x.body)
}
fn leaf_node<CT: ChildrenCommon>(kind: &'static str, at: MRef, b: &SAEBody<CT>) -> Node {
    let (text, leaf) = match b {
        SAEBody::Text(t) => (t.clone(), true),
        SAEBody::Children { intro, .. } => (intro.clone(), false),
    };
    Node { kind, at, text, leaf, kids: vec![] }
}

/// What a visitor does at an element, decided by its text alone
#[derive(Clone, Copy, PartialEq, Debug)]
enum Do {
    Nothing,
    /// append to text on entering / on leaving
    EnterMark,
    ExitMark,
    /// replace the whole body by a text on entering: the children are gone
    Cut,
    WrapUp,
}
fn plan(text: &str, salt: u64) -> Do {
    if salt == 0 {
        return Do::Nothing;
    }
    // marks are appended after the first word, which is the unique tag
    let tag = text.split(' ').next().unwrap_or("");
    match crate::mon::hash_of(&(tag, salt)) % 12 {
        0 | 1 => Do::EnterMark,
        2 | 3 => Do::ExitMark,
        4 => Do::Cut,
        5 => Do::WrapUp,
        _ => Do::Nothing,
    }
}

/// The expected events (and texts at that moment) when the plan is carried out
fn expect(v: &[Node], salt: u64, out: &mut Vec<Ev>) {
    for n in v {
        let d = plan(&n.text, salt);
        out.push(Ev { enter: true, at: n.at, kind: n.kind.into(), text: n.text.clone(), leaf: n.leaf });
        let mut text = n.text.clone();
        let mut leaf = n.leaf;
        match d {
            Do::EnterMark => text += " E",
            Do::Cut => {
                text += " C";
                leaf = true;
            }
            _ => {}
        }
        if !leaf || d != Do::Cut {
            expect(&n.kids, salt, out);
        }
        out.push(Ev { enter: false, at: n.at, kind: n.kind.into(), text, leaf });
    }
}

struct Rec {
    ev: Vec<Ev>,
    fail_at: usize,
    salt: u64,
    act_gone: bool,
}
#[derive(Debug)]
struct Injected(usize);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected failure {}", self.0)
    }
}
impl std::error::Error for Injected {}

impl Rec {
    fn new(fail_at: usize, salt: u64) -> Self {
        Rec { ev: vec![], fail_at, salt, act_gone: false }
    }
    fn see<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, enter: bool, p: &Reference, e: &SubArticleElement<IT, CT>) -> Result<()> {
        let (text, leaf) = match &e.body {
            SAEBody::Text(t) => (t.clone(), true),
            SAEBody::Children { intro, .. } => (intro.clone(), false),
        };
        self.ev.push(Ev { enter, at: decode(p), kind: CT::parent_type_name().to_string(), text, leaf });
        if self.ev.len() - 1 == self.fail_at {
            self.act_gone = true;
            return Err(Injected(self.fail_at).into());
        }
        Ok(())
    }
}
fn mark<IT: IdentifierCommon, CT: ChildrenCommon>(e: &mut SubArticleElement<IT, CT>, s: &str) {
    match &mut e.body {
        SAEBody::Text(t) => t.push_str(s),
        SAEBody::Children { intro, .. } => intro.push_str(s),
    }
}
impl SAEVisitor for Rec {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, p: &Reference, e: &SubArticleElement<IT, CT>) -> Result<()> {
        self.see(true, p, e)
    }
    fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, p: &Reference, e: &SubArticleElement<IT, CT>) -> Result<()> {
        self.see(false, p, e)
    }
}
struct RecMut(Rec);
impl SAEVisitorMut for RecMut {
    fn on_enter<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, p: &Reference, e: &mut SubArticleElement<IT, CT>) -> Result<()> {
        self.0.see(true, p, e)?;
        let text = self.0.ev.last().unwrap().text.clone();
        match plan(&text, self.0.salt) {
            Do::EnterMark => mark(e, " E"),
            Do::Cut => e.body = SAEBody::Text(text + " C"),
            Do::WrapUp => {
                if let SAEBody::Children { wrap_up, .. } = &mut e.body {
                    *wrap_up = Some("W".into());
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, p: &Reference, e: &mut SubArticleElement<IT, CT>) -> Result<()> {
        self.0.see(false, p, e)?;
        let text = self.0.ev.last().unwrap().text.clone();
        if plan(&text, self.0.salt) == Do::ExitMark {
            mark(e, " X");
        }
        Ok(())
    }
}

/// Apply the plan of the events so far to a tree, independently of the walker.
fn apply(a: &mut Act, salt: u64, limit: usize) {
    let mut n = 0usize;
    // number of events that completed before the failure: event k acts only if k < limit
    for c in &mut a.children {
        if let ActChild::Article(x) = c {
            for p in &mut x.children {
                step(p, salt, limit, &mut n, &mut |b, salt, limit, n| match b {
                    ParagraphChildren::AlphabeticPoint(v) => {
                        for q in v {
                            step(q, salt, limit, n, &mut |b, salt, limit, n| match b {
                                AlphabeticPointChildren::AlphabeticSubpoint(v) => v.iter_mut().for_each(|s| step(s, salt, limit, n, &mut |_, _, _, _| {})),
                                AlphabeticPointChildren::NumericSubpoint(v) => v.iter_mut().for_each(|s| step(s, salt, limit, n, &mut |_, _, _, _| {})),
                            });
                        }
                    }
                    ParagraphChildren::NumericPoint(v) => {
                        for q in v {
                            step(q, salt, limit, n, &mut |NumericPointChildren::AlphabeticSubpoint(v), salt, limit, n| v.iter_mut().for_each(|s| step(s, salt, limit, n, &mut |_, _, _, _| {})));
                        }
                    }
                    _ => {}
                });
            }
        }
    }
}
type Kid<'k, CT> = &'k mut dyn FnMut(&mut CT, u64, usize, &mut usize);
fn step<IT: IdentifierCommon, CT: ChildrenCommon>(e: &mut SubArticleElement<IT, CT>, salt: u64, limit: usize, n: &mut usize, kids: Kid<CT>) {
    let text = match &e.body {
        SAEBody::Text(t) => t.clone(),
        SAEBody::Children { intro, .. } => intro.clone(),
    };
    let d = plan(&text, salt);
    if *n < limit {
        match d {
            Do::EnterMark => mark(e, " E"),
            Do::Cut => e.body = SAEBody::Text(text + " C"),
            Do::WrapUp => {
                if let SAEBody::Children { wrap_up, .. } = &mut e.body {
                    *wrap_up = Some("W".into());
                }
            }
            _ => {}
        }
    }
    *n += 1;
    if let SAEBody::Children { children, .. } = &mut e.body {
        kids(children, salt, limit, n);
    }
    if *n < limit && d == Do::ExitMark {
        mark(e, " X");
    }
    *n += 1;
}

fn judge_walk(r: &mut Rng, m: &mut Mon, act: &Act, tagged: bool) {
    let ctx = || format!("{}", serde_json::to_string(act).unwrap_or_default());
    let tree = nodes(act);
    let mut want = vec![];
    expect(&tree, 0, &mut want);
    m.count("visits_expected", want.len() as u64);
    let mut v = Rec::new(usize::MAX, 0);
    let res = m.no_panic("walk", ctx, || act.walk_saes(&mut v));
    let Some(res) = res else { return };
    m.check(res.is_ok(), "walk:refused", || format!("{res:?} on {}", ctx()));
    m.count("events", v.ev.len() as u64);
    if v.ev != want {
        let i = v.ev.iter().zip(&want).take_while(|(a, b)| a == b).count();
        m.fail("walk:sequence", format!("event {i}: got {:?}\n want {:?}\n on {}", v.ev.get(i), want.get(i), ctx()));
        return;
    }
    // the mutable walk
    let salts = if tagged { vec![0, r.next() | 1] } else { vec![0] };
    for salt in salts {
        let mut want = vec![];
        expect(&tree, salt, &mut want);
        let mut a = act.clone();
        let mut w = a.clone();
        apply(&mut w, salt, usize::MAX);
        let mut v = RecMut(Rec::new(usize::MAX, salt));
        let Some(res) = m.no_panic("walk_mut", ctx, || a.walk_saes_mut(&mut v)) else { return };
        m.check(res.is_ok(), "walk_mut:refused", || format!("{res:?} on {}", ctx()));
        if v.0.ev != want {
            let i = v.0.ev.iter().zip(&want).take_while(|(a, b)| a == b).count();
            m.fail("walk_mut:sequence", format!("event {i}: got {:?}\n want {:?}\n on {}", v.0.ev.get(i), want.get(i), ctx()));
            return;
        }
        m.count("events", v.0.ev.len() as u64);
        m.check(flat(&a) == flat(&w), "walk_mut:changes", || first_diff(&flat(&a), &flat(&w)) + &ctx());
        // faults: at every event of a small walk, at some of a big one
        let n = want.len();
        let ks: Vec<usize> = if n <= 12 { (0..n).collect() } else { (0..8).map(|_| r.below(n)).chain([0, n - 1]).collect() };
        for k in ks {
            let mut v = RecMut(Rec::new(k, salt));
            let mut a = act.clone();
            let Some(res) = m.no_panic("walk_mut_fault", ctx, || a.walk_saes_mut(&mut v)) else { return };
            judge_fault(m, "walk_mut_fault", k, &res, &v.0.ev, &want, &ctx);
            let mut w = act.clone();
            apply(&mut w, salt, k);
            m.check(flat(&a) == flat(&w), "walk_mut_fault:changes", || first_diff(&flat(&a), &flat(&w)) + &ctx());
            if salt == 0 {
                let mut v = Rec::new(k, 0);
                let Some(res) = m.no_panic("walk_fault", ctx, || act.walk_saes(&mut v)) else { return };
                judge_fault(m, "walk_fault", k, &res, &v.ev, &want, &ctx);
            }
            m.count("faults_injected", 1);
        }
    }
    m.observe(&format!("{want:?}"), !want.is_empty());
    m.sample(|| format!("{} events, first: {:?}", want.len(), want.first()));
}

fn judge_fault(m: &mut Mon, key: &str, k: usize, res: &Result<()>, ev: &[Ev], want: &[Ev], ctx: &dyn Fn() -> String) {
    m.check(ev.len() == k + 1, &format!("{key}:not_stopped"), || format!("failure at event {k}, but {} events seen on {}", ev.len(), ctx()));
    m.check(want.len() > k && ev[..ev.len().min(k + 1)] == want[..=k], &format!("{key}:sequence"), || format!("events before the failure at {k} differ on {}", ctx()));
    match res {
        Ok(()) => m.fail(&format!("{key}:swallowed"), format!("failure at event {k} not reported on {}", ctx())),
        Err(e) => {
            let found = e.downcast_ref::<Injected>().map_or(false, |i| i.0 == k) || format!("{e:#}").contains(&format!("injected failure {k}"));
            m.check(found, &format!("{key}:other_error"), || format!("failure at event {k} reported as {e:#} on {}", ctx()));
        }
    }
}

fn c14(env: &Env, mon: &mut Mon) {
    env.suite(mon, "any", env.n(4000, 60000), |r, m| {
        let act = G::new(r, Mode::Tag).act(7);
        judge_walk(r, m, &act, true);
    });
    env.suite(mon, "big", env.n(150, 2500), |r, m| {
        let act = G::new(r, Mode::Tag).act(60);
        judge_walk(r, m, &act, true);
    });
    env.suite(mon, "printed", env.n(300, 4000), |r, m| {
        let cfg = acts::Cfg { quotes: 2, blocks: 3, tricky: 2, long: true };
        let act = acts::gen_act(r, &cfg, 20);
        judge_walk(r, m, &act, false);
    });
    let docs = corpus_docs("structure");
    env.suite(mon, "corpus", docs.len() as u64, |r, m| {
        let act = &docs[m.case as usize % docs.len()].2;
        judge_walk(r, m, act, false);
    });
}

// ---------------------------------------------------------------- C16

/// Every field of an act, in order, as text.
pub fn flat(a: &Act) -> Vec<String> {
    let mut f = Flat(vec![], false);
    f.act(a);
    f.0
}
/// The same without the positions of the quoted lines' characters
fn flat_coarse(a: &Act) -> Vec<String> {
    let mut f = Flat(vec![], true);
    f.act(a);
    f.0
}
pub fn first_diff(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).take_while(|(a, b)| a == b).count();
    format!("item {i}: got {:?} want {:?}; before: {:?}\n", a.get(i), b.get(i), i.checked_sub(1).and_then(|i| b.get(i)))
}
struct Flat(Vec<String>, bool);
impl Flat {
    fn p(&mut self, k: &str, v: impl std::fmt::Debug) {
        self.0.push(format!("{k} {v:?}"));
    }
    fn act(&mut self, a: &Act) {
        self.p("act", (a.identifier.year, a.identifier.number));
        self.p("subject", &a.subject);
        self.p("preamble", &a.preamble);
        self.p("date", a.publication_date.to_string());
        for (k, v) in &a.contained_abbreviations {
            self.p("abbrev", (k, v.year, v.number));
        }
        a.children.iter().for_each(|c| self.child(c));
    }
    fn change(&mut self, c: &Option<LastChange>) {
        if let Some(c) = c {
            self.p("changed", c.date.to_string());
            match &c.cause {
                ChangeCause::Amendment(r) => self.p("by amendment", decode(r)),
                ChangeCause::AutoRepeal => self.p("by", "auto repeal"),
                ChangeCause::Other(s) => self.p("by other", s),
            }
        }
    }
    fn child(&mut self, c: &ActChild) {
        match c {
            ActChild::StructuralElement(x) => {
                self.p("se", (x.identifier.to_string(), &x.title, x.element_type));
                self.change(&x.last_change);
            }
            ActChild::Subtitle(x) => {
                self.p("subtitle", (x.identifier.map(|i| i.to_string()), &x.title));
                self.change(&x.last_change);
            }
            ActChild::Article(x) => {
                self.p("article", (x.identifier.to_string(), &x.title));
                self.change(&x.last_change);
                x.children.iter().for_each(|p| self.par(p));
                self.p("end article", ());
            }
        }
    }
    fn sae<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, kind: &str, e: &SubArticleElement<IT, CT>, kids: impl FnOnce(&mut Self, &CT)) {
        self.p(kind, e.identifier);
        match &e.body {
            SAEBody::Text(t) => self.p("text", t),
            SAEBody::Children { intro, children, wrap_up } => {
                self.p("intro", intro);
                kids(self, children);
                self.p("wrap_up", wrap_up);
            }
        }
        self.sem(&e.semantic_info);
        self.change(&e.last_change);
    }
    fn sref(&mut self, s: &StructuralReference) {
        self.p("sref", (&s.act, &s.book, &s.parent, &s.structural_element, s.title_only));
    }
    fn sem(&mut self, s: &SemanticInfo) {
        for o in &s.outgoing_references {
            self.p("oref", (o.start, o.end, decode(&o.reference)));
        }
        for (k, v) in &s.new_abbreviations {
            self.p("new abbrev", (k, v.year, v.number));
        }
        match &s.special_phrase {
            None => {}
            Some(si::SpecialPhrase::BlockAmendment(x)) => self.p("ba", (decode(&x.position), x.pure_insertion)),
            Some(si::SpecialPhrase::StructuralBlockAmendment(x)) => {
                self.sref(&x.position);
                self.p("sba", x.pure_insertion)
            }
            Some(si::SpecialPhrase::EnforcementDate(x)) => {
                x.positions.iter().for_each(|r| self.p("at", decode(r)));
                x.structural_positions.iter().for_each(|r| self.sref(r));
                self.p("enforcement", (x.is_default, &x.date, x.inline_repeal.map(|d| d.to_string())));
            }
            Some(si::SpecialPhrase::Repeal(v)) => {
                self.p("repeal", v.len());
                v.iter().for_each(|x| match x {
                    si::RepealReference::Reference(r) => self.p("of", decode(r)),
                    si::RepealReference::StructuralReference(s) => self.sref(s),
                })
            }
            Some(si::SpecialPhrase::TextAmendment(v)) => {
                self.p("text amendments", v.len());
                v.iter().for_each(|x| {
                    match &x.reference {
                        si::TextAmendmentReference::SAE { reference, amended_part } => self.p("sae", (decode(reference), amended_part)),
                        si::TextAmendmentReference::Structural(s) => self.sref(s),
                        si::TextAmendmentReference::ArticleTitle(r) => self.p("title of", decode(r)),
                    }
                    self.p("from to", (&x.from, &x.to));
                })
            }
        }
    }
    fn par(&mut self, p: &Paragraph) {
        self.sae("paragraph", p, |s, c| match c {
            ParagraphChildren::AlphabeticPoint(v) => s.apts(v),
            ParagraphChildren::NumericPoint(v) => s.npts(v),
            ParagraphChildren::QuotedBlock(v) => {
                s.p("blocks", v.len());
                for b in v {
                    s.p("block intro", &b.intro);
                    b.lines.iter().for_each(|l| s.line(l));
                    s.p("block wrap_up", &b.wrap_up);
                }
            }
            ParagraphChildren::BlockAmendment(b) => {
                s.p("amendment intro", &b.intro);
                match &b.children {
                    BlockAmendmentChildren::Paragraph(v) => {
                        s.p("paragraphs", v.len());
                        v.iter().for_each(|p| s.par(p))
                    }
                    BlockAmendmentChildren::AlphabeticPoint(v) => s.apts(v),
                    BlockAmendmentChildren::NumericPoint(v) => s.npts(v),
                    BlockAmendmentChildren::AlphabeticSubpoint(v) => s.asubs(v),
                    BlockAmendmentChildren::NumericSubpoint(v) => s.nsubs(v),
                }
                s.p("amendment wrap_up", &b.wrap_up);
            }
            ParagraphChildren::StructuralBlockAmendment(b) => {
                s.p("structural amendment", (b.children.len(), &b.intro, &b.wrap_up));
                b.children.iter().for_each(|c| s.child(c));
            }
        });
    }
    fn line(&mut self, l: &hun_law::util::indentedline::IndentedLine) {
        self.p("line", (l.content(), l.is_justified(), l.is_bold(), l.len()));
        for i in 0..l.len() as i64 {
            let b = l.slice(i, Some(i + 1)).is_bold();
            if self.1 {
                self.p("char", b);
            } else {
                self.p("char", (b, (l.indent_at(i) * 1e6).round() as i64));
            }
        }
    }
    fn apts(&mut self, v: &[AlphabeticPoint]) {
        self.p("apoints", v.len());
        for x in v {
            self.sae("apoint", x, |s, c| match c {
                AlphabeticPointChildren::AlphabeticSubpoint(v) => s.asubs(v),
                AlphabeticPointChildren::NumericSubpoint(v) => s.nsubs(v),
            });
        }
    }
    fn npts(&mut self, v: &[NumericPoint]) {
        self.p("npoints", v.len());
        for x in v {
            self.sae("npoint", x, |s, NumericPointChildren::AlphabeticSubpoint(v)| s.asubs(v));
        }
    }
    fn asubs(&mut self, v: &[AlphabeticSubpoint]) {
        self.p("asubs", v.len());
        v.iter().for_each(|x| self.sae("asub", x, |_, _| {}));
    }
    fn nsubs(&mut self, v: &[NumericSubpoint]) {
        self.p("nsubs", v.len());
        v.iter().for_each(|x| self.sae("nsub", x, |_, _| {}));
    }
}

fn judge_store(m: &mut Mon, act: &Act) {
    let want = flat(act);
    let ctx = || format!("{act:?}");
    let store = |m: &mut Mon, f: OutputFormat| -> Option<Vec<u8>> {
        let mut buf = vec![];
        match m.no_panic("store", ctx, || act.clone().cli_output(80, f, &mut buf))? {
            Ok(()) => Some(buf),
            Err(e) => {
                m.fail("store:refused", format!("{f:?}: {e:#} on {act:?}"));
                None
            }
        }
    };
    let mut judge = |m: &mut Mon, key: &str, text: &[u8], loaded: Result<Act, String>| match loaded {
        Err(e) => {
            m.fail(&format!("{key}:not_loadable"), format!("{e}\n stored: {}", String::from_utf8_lossy(text)));
        }
        Ok(l) => {
            let got = flat(&l);
            if got != want {
                m.fail(&format!("{key}:changed"), format!("{}\n stored: {}", first_diff(&got, &want), String::from_utf8_lossy(text)));
            } else if !(l == *act) && flat_coarse(&l) != flat_coarse(act) {
                m.fail(&format!("{key}:unequal"), format!("stored: {}", String::from_utf8_lossy(text)));
            }
            m.count("loads", 1);
        }
    };
    if let Some(buf) = store(m, OutputFormat::Json) {
        m.count("json_bytes", buf.len() as u64);
        m.check(std::str::from_utf8(&buf).is_ok(), "json:utf8", ctx);
        let v: Result<serde_json::Value, _> = serde_json::from_slice(&buf);
        m.check(v.is_ok(), "json:invalid", || format!("{v:?}"));
        judge(m, "json", &buf, serde_json::from_slice(&buf).map_err(|e| e.to_string()));
        judge(m, "json_reader", &buf, serde_json::from_reader(&buf[..]).map_err(|e| e.to_string()));
        if let Ok(v) = v {
            // other tools may reorder the keys
            let t = serde_json::to_vec(&v).unwrap();
            judge(m, "json_reordered", &t, serde_json::from_slice(&t).map_err(|e| e.to_string()));
        }
    }
    if let Some(buf) = store(m, OutputFormat::Yaml) {
        m.count("yaml_bytes", buf.len() as u64);
        match std::str::from_utf8(&buf) {
            Err(_) => m.fail("yaml:utf8", ctx()),
            Ok(s) => {
                judge(m, "yaml_str", &buf, guard(|| singleton_yaml::from_str::<Act>(s).map_err(|e| e.to_string())).unwrap_or_else(|p| Err(p.to_string())));
            }
        }
        judge(m, "yaml", &buf, singleton_yaml::from_slice(&buf).map_err(|e| e.to_string()));
        judge(m, "yaml_reader", &buf, singleton_yaml::from_reader(&buf[..]).map_err(|e| e.to_string()));
        let s = singleton_yaml::to_string(act).map(|s| s.into_bytes());
        m.check(s.as_ref().ok() == Some(&buf), "yaml:to_string", || format!("to_string differs from the stored text on {act:?}"));
        let s = singleton_yaml::to_vec(act);
        m.check(s.as_ref().ok() == Some(&buf), "yaml:to_vec", || format!("to_vec differs from the stored text on {act:?}"));
    }
    m.observe(&want, want.len() > 6);
    m.sample(|| want.join(" | "));
}

fn c16(env: &Env, mon: &mut Mon) {
    env.suite(mon, "hostile", env.n(2000, 30000), |r, m| {
        let act = G::new(r, Mode::Hostile).act(4);
        judge_store(m, &act);
    });
    env.suite(mon, "strings", (BAD.len() * BAD.len()) as u64 / if env.thorough { 1 } else { 4 }, |r, m| {
        // every pair of awkward strings in every kind of place
        let i = if env.thorough { m.case as usize } else { r.below(BAD.len() * BAD.len()) };
        let s = format!("{}{}", BAD[i / BAD.len()], BAD[i % BAD.len()]);
        let mut g = G::new(r, Mode::Tag);
        let mut act = g.act(1);
        let id = g.num();
        let line = acts::plain_line(&s, 10.0, false, true).real();
        let q: ParagraphChildren = vec![QuotedBlock { intro: Some(s.clone()), lines: vec![line], wrap_up: Some(s.clone()) }].into();
        let mut p1: Paragraph = g.sae(id.into(), s.clone().into());
        p1.semantic_info = SemanticInfo {
            outgoing_references: vec![],
            new_abbreviations: [(s.clone(), act.identifier)].into_iter().collect(),
            special_phrase: Some(si::SpecialPhrase::TextAmendment(vec![si::TextAmendment { reference: si::TextAmendmentReference::ArticleTitle(g.refe()), from: s.clone(), to: s.clone() }])),
        };
        p1.last_change = Some(LastChange { date: g.date(), cause: ChangeCause::Other(s.clone()) });
        let p2: Paragraph = g.sae(id.into(), SAEBody::Children { intro: s.clone(), children: q, wrap_up: Some(s.clone()) });
        act.subject = s.clone();
        act.preamble = s.clone();
        act.contained_abbreviations.insert(s.clone(), act.identifier);
        act.children.push(Article { identifier: g.art_id(), title: Some(s.clone()), children: vec![p1, p2], last_change: None }.into());
        act.children.push(Subtitle { identifier: None, title: s, last_change: None }.into());
        judge_store(m, &act);
    });
    env.suite(mon, "any_char", env.n(300, 4400), |r, m| {
        // every character of Unicode, 256 at a time
        let base = if env.thorough { (m.case as u32 % 4352) * 256 } else { r.below(4352) as u32 * 256 };
        let s: String = (base..base + 256).filter_map(char::from_u32).collect();
        let mut act = G::new(r, Mode::Tag).act(1);
        act.subject = s.clone();
        act.preamble = s.chars().rev().collect();
        act.contained_abbreviations.insert(s, act.identifier);
        judge_store(m, &act);
    });
    env.suite(mon, "tagged", env.n(600, 8000), |r, m| {
        let act = G::new(r, Mode::Tag).act(6);
        judge_store(m, &act);
    });
    env.suite(mon, "printed", env.n(60, 1000), |r, m| {
        let cfg = acts::Cfg { quotes: 2, blocks: 3, tricky: 2, long: true };
        let act = acts::gen_act(r, &cfg, 20);
        judge_store(m, &act);
    });
    let docs = corpus_docs("structure");
    env.suite(mon, "corpus", docs.len() as u64, |_r, m| {
        judge_store(m, &docs[m.case as usize % docs.len()].2);
    });
}

// ---------------------------------------------------------------- C17

#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind {
    /// an unwrapped header; the text after it may follow without a space
    Head,
    /// text wrapped within the width
    Text,
    /// a line that is printed as it is
    Raw,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Place {
    /// on the line of the item before it
    Same,
    /// there, if the width permits
    Follow,
    New,
    /// on a new line, after an empty line
    Apart,
}

#[derive(Debug, Clone)]
struct Item {
    kind: Kind,
    s: String,
    /// the column of its lines
    col: usize,
    place: Place,
    /// of a quoted line
    indent: Option<f64>,
    /// where its references are
    refs: Vec<(usize, usize)>,
}

/// What has to be printed, and where
struct Doc {
    items: Vec<Item>,
    level: usize,
    place: Place,
}
impl Doc {
    fn new(level: usize) -> Self {
        Doc { items: vec![], level, place: Place::New }
    }
    fn push(&mut self, kind: Kind, s: String) {
        self.items.push(Item { kind, s, col: self.level * 5, place: self.place, indent: None, refs: vec![] });
    }
    fn head(&mut self, s: impl Into<String>) {
        self.push(Kind::Head, s.into());
        self.place = Place::Same;
    }
    fn text(&mut self, s: impl Into<String>) {
        self.push(Kind::Text, s.into());
        self.place = Place::New;
    }
    fn act(&mut self, a: &Act) {
        self.push(Kind::Raw, format!("{}. évi {}. törvény", a.identifier.year, crate::c_ident::to_roman(a.identifier.number as u32)));
        self.place = Place::Same;
        self.push(Kind::Raw, a.subject.clone());
        self.place = Place::Apart;
        self.text(&a.preamble);
        let mut was_article = true;
        for c in &a.children {
            let is_article = matches!(c, ActChild::Article(_));
            self.place = if was_article && is_article { Place::New } else { Place::Apart };
            self.child(c);
            was_article = is_article;
        }
    }
    fn child(&mut self, c: &ActChild) {
        match c {
            ActChild::StructuralElement(x) => {
                let n: usize = x.identifier.to_string().parse().unwrap();
                let w = |k: &str| format!("{} {k}", crate::c_ident::ordinal(n).to_uppercase());
                self.text(match x.element_type {
                    StructuralElementType::Book => w("KÖNYV"),
                    StructuralElementType::Part { is_special: false } => w("RÉSZ"),
                    StructuralElementType::Part { is_special: true } => ["ÁLTALÁNOS RÉSZ", "KÜLÖNÖS RÉSZ", "ZÁRÓ RÉSZ"][n - 1].to_string(),
                    StructuralElementType::Title => format!("{}. CÍM", crate::c_ident::to_roman(n as u32)),
                    StructuralElementType::Chapter => format!("{}. FEJEZET", crate::c_ident::to_roman(n as u32)),
                });
                self.text(&x.title);
            }
            ActChild::Subtitle(x) => match x.identifier {
                Some(i) => {
                    let s = i.to_string();
                    let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                    let l = s[d.len()..].to_uppercase();
                    let slash = if l.is_empty() { "" } else { "/" };
                    self.text(format!("{d}{slash}{l}. {}", x.title))
                }
                None => self.text(&x.title),
            },
            ActChild::Article(x) => {
                self.head(format!("{}. §", x.identifier));
                self.level += 2;
                if let Some(t) = &x.title {
                    self.place = Place::Follow;
                    self.text(format!("[{t}]"));
                }
                x.children.iter().for_each(|p| self.par(p));
                self.level -= 2;
                self.place = Place::New;
            }
        }
    }
    fn sae<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, head: String, e: &SubArticleElement<IT, CT>, kids: impl FnOnce(&mut Self, &CT)) {
        self.head(head);
        self.level += 1;
        let t = match &e.body {
            SAEBody::Text(t) => t,
            SAEBody::Children { intro, .. } => intro,
        };
        self.text(t);
        self.items.last_mut().unwrap().refs = e.semantic_info.outgoing_references.iter().map(|o| (o.start, o.end)).collect();
        match &e.body {
            SAEBody::Text(_) => {}
            SAEBody::Children { children, wrap_up, .. } => {
                kids(self, children);
                if let Some(w) = wrap_up {
                    self.text(w);
                }
            }
        }
        self.level -= 1;
    }
    fn par(&mut self, p: &Paragraph) {
        let h = p.identifier.map(|n| n).map_or(String::new(), |i| format!("({i})"));
        self.sae(h, p, |s, c| match c {
            ParagraphChildren::AlphabeticPoint(v) => s.apts(v),
            ParagraphChildren::NumericPoint(v) => s.npts(v),
            ParagraphChildren::QuotedBlock(v) => {
                for b in v {
                    b.intro.iter().for_each(|t| s.text(t));
                    s.text("„");
                    for l in &b.lines {
                        s.push(Kind::Raw, l.content().to_string());
                        s.items.last_mut().unwrap().indent = Some(l.indent());
                    }
                    s.text("”");
                    b.wrap_up.iter().for_each(|t| s.text(t));
                }
            }
            ParagraphChildren::BlockAmendment(b) => {
                b.intro.iter().for_each(|t| s.text(format!("({t})")));
                s.text("„");
                s.level += 1;
                match &b.children {
                    BlockAmendmentChildren::Paragraph(v) => v.iter().for_each(|p| s.par(p)),
                    BlockAmendmentChildren::AlphabeticPoint(v) => s.apts(v),
                    BlockAmendmentChildren::NumericPoint(v) => s.npts(v),
                    BlockAmendmentChildren::AlphabeticSubpoint(v) => s.asubs(v),
                    BlockAmendmentChildren::NumericSubpoint(v) => s.nsubs(v),
                }
                s.level -= 1;
                s.text("”");
                b.wrap_up.iter().for_each(|t| s.text(format!("({t})")));
            }
            ParagraphChildren::StructuralBlockAmendment(b) => {
                b.intro.iter().for_each(|t| s.text(format!("({t})")));
                s.text("„");
                s.level += 1;
                b.children.iter().for_each(|c| s.child(c));
                s.level -= 1;
                s.text("”");
                b.wrap_up.iter().for_each(|t| s.text(format!("({t})")));
            }
        });
    }
    fn apts(&mut self, v: &[AlphabeticPoint]) {
        for x in v {
            self.sae(format!("{})", x.identifier), x, |s, c| match c {
                AlphabeticPointChildren::AlphabeticSubpoint(v) => s.asubs(v),
                AlphabeticPointChildren::NumericSubpoint(v) => s.nsubs(v),
            });
        }
    }
    fn npts(&mut self, v: &[NumericPoint]) {
        for x in v {
            self.sae(format!("{}.", x.identifier), x, |s, NumericPointChildren::AlphabeticSubpoint(v)| s.asubs(v));
        }
    }
    fn asubs(&mut self, v: &[AlphabeticSubpoint]) {
        v.iter().for_each(|x| self.sae(format!("{})", x.identifier), x, |_, _| {}));
    }
    fn nsubs(&mut self, v: &[NumericSubpoint]) {
        v.iter().for_each(|x| self.sae(format!("{}.", x.identifier), x, |_, _| {}));
    }
}

/// Follow the output through the items. Says where it leaves them.
fn follow(items: &[Item], out: &str, width: usize, m: &mut Mon) -> Result<(), (&'static str, String)> {
    #[derive(Clone, Copy)]
    struct C {
        c: char,
        line: usize,
        /// white space before it
        space: bool,
    }
    let mut cs: Vec<C> = vec![];
    let mut lens = vec![];
    let mut indents = vec![];
    for (line, l) in out.split('\n').enumerate() {
        let mut space = true;
        for c in l.chars() {
            if c == ' ' {
                space = true;
            } else {
                cs.push(C { c, line, space });
                space = false;
            }
        }
        lens.push(l.trim_end_matches(' ').chars().count());
        indents.push(l.chars().take_while(|c| *c == ' ').count());
    }
    let mut i = 0;
    let mut exempt = vec![false; lens.len()]; // has something that is not wrapped
    let mut glue = true;
    let mut place = Place::Apart; // where the next printed character has to be
    let mut quoted: Option<(f64, usize)> = None; // the quoted line before
    for it in items {
        let (s, wrapped) = (&it.s, it.kind == Kind::Text);
        if it.place != Place::Same {
            place = it.place;
        }
        let mut begun = false;
        for w in s.split(' ').filter(|w| !w.is_empty()) {
            let n = w.chars().map(|c| 1 + (c >= '\u{1100}') as usize).sum::<usize>();
            for (k, c) in w.chars().enumerate() {
                let Some(o) = cs.get(i) else {
                    return Err(("missing", format!("output ends before {w:?} of {it:?}")));
                };
                if o.c != c {
                    return Err(("differs", format!("line {}: {:?} instead of {c:?} in {w:?} of {it:?}", o.line + 1, o.c)));
                }
                let before = if i == 0 { None } else { Some(cs[i - 1].line) };
                if let Some(b) = before.filter(|_| !begun) {
                    let ok = match place {
                        Place::Same => o.line == b,
                        Place::Follow => o.line == b || width < it.col + 5 + n,
                        Place::New => o.line > b,
                        Place::Apart => o.line > b + 1,
                    };
                    if !ok {
                        return Err(("place", format!("line {}: {w:?} of {it:?} must be {place:?}", o.line + 1)));
                    }
                }
                if !begun {
                    begun = true;
                    place = Place::Same;
                }
                if before != Some(o.line) {
                    // first in its line
                    let at = indents[o.line];
                    let ok = match it.indent {
                        None => at == it.col,
                        Some(x) => at >= it.col && quoted.map_or(true, |(px, pat)| !(px >= 0.0 && x >= 0.0) || if px <= x { pat <= at } else { pat >= at }),
                    };
                    if !ok {
                        return Err(("column", format!("line {} starts in column {at} with {w:?} of {it:?}, the quoted line before: {quoted:?}", o.line + 1)));
                    }
                    m.count("columns_checked", 1);
                    quoted = it.indent.filter(|_| !s.starts_with(' ')).map(|x| (x, at));
                }
                if !wrapped {
                    exempt[o.line] = true;
                }
                if k == 0 && !o.space && !glue {
                    return Err(("glued", format!("line {}: no space before {w:?} of {it:?}", o.line + 1)));
                }
                if k > 0 && o.space {
                    let p = cs[i - 1];
                    if p.line == o.line || !wrapped {
                        return Err(("torn", format!("line {}: {w:?} of {it:?} is torn", o.line + 1)));
                    }
                    // broken over two lines: only after a hyphen or when the word (or the hyphenated part) is too long
                    // (characters beyond Latin may count as two columns)
                    let room = width.saturating_sub(indents[o.line]);
                    if p.c != '-' && n <= room {
                        return Err(("broken_word", format!("line {}: {w:?} of {it:?} is broken although it fits into {room} of {width}", o.line + 1)));
                    }
                    m.count("words_broken", 1);
                }
                i += 1;
                glue = false;
            }
        }
        glue = it.kind == Kind::Head || (glue && s.trim().is_empty());
    }
    if i < cs.len() {
        return Err(("extra", format!("line {}: extra {:?}", cs[i].line + 1, cs[i..].iter().take(20).map(|c| c.c).collect::<String>())));
    }
    for (l, (&n, &e)) in lens.iter().zip(&exempt).enumerate() {
        // at least one character must be printed
        if !e && n > width.max(indents[l] + 1) {
            return Err(("too_long", format!("line {} has {n} columns of {width}", l + 1)));
        }
        m.count("lines_checked", 1);
    }
    Ok(())
}

/// Take the colour codes out; false if there is any other escape.
pub fn uncolor(s: &str) -> (String, bool) {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    let mut ok = true;
    while let Some(c) = it.next() {
        if c != '\x1b' {
            out.push(c);
            continue;
        }
        if it.next() != Some('[') {
            ok = false;
            continue;
        }
        loop {
            match it.next() {
                Some(c) if c.is_ascii_digit() || c == ';' => {}
                Some('m') => break,
                _ => {
                    ok = false;
                    break;
                }
            }
        }
    }
    (out, ok)
}

/// References look different from the text around them.
fn highlights(items: &[Item], colored: &str, m: &mut Mon) -> Result<(), String> {
    let mut chars = vec![];
    let mut code = String::new();
    let mut it = colored.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            code = it.by_ref().take_while(|c| *c != 'm').collect();
        } else if c != ' ' && c != '\n' {
            chars.push((c, code.clone()));
        }
    }
    let mut at = 0;
    for it in items {
        // references in order, without overlap, inside the text
        let mut end = 0;
        let valid = it.refs.iter().all(|(a, b)| {
            let ok = end <= *a && a <= b && it.s.get(*a..*b).is_some();
            end = *b;
            ok
        });
        let (mut inside, mut outside) = (HashSet::new(), HashSet::new());
        for (k, c) in it.s.char_indices().filter(|x| x.1 != ' ') {
            let Some((got, code)) = chars.get(at) else { return Err("output is short".into()) };
            if *got != c {
                return Err(format!("{got:?} instead of {c:?}"));
            }
            at += 1;
            let set: &mut HashSet<String> = if it.refs.iter().any(|(a, b)| *a <= k && k < *b) { &mut inside } else { &mut outside };
            set.insert(code.clone());
        }
        if valid && !it.refs.is_empty() {
            m.count("items_with_references", 1);
            if !inside.is_disjoint(&outside) {
                return Err(format!("references {:?} of {:?}: inside {inside:?} outside {outside:?}", it.refs, it.s));
            }
        }
    }
    Ok(())
}

fn judge_text(m: &mut Mon, act: &Act, width: usize, whole_words: bool) {
    let ctx = || format!("width {width}, act {}", serde_json::to_string(act).unwrap_or_default());
    let mut doc = Doc::new(1);
    doc.act(act);
    let mut render = |m: &mut Mon, f: OutputFormat| -> Option<String> {
        let mut buf = vec![];
        match m.no_panic("text", ctx, || act.clone().cli_output(width, f, &mut buf))? {
            Err(e) => {
                m.fail("text:refused", format!("{e:#} on {}", ctx()));
                None
            }
            Ok(()) => match String::from_utf8(buf) {
                Ok(s) => Some(s),
                Err(_) => {
                    m.fail("text:utf8", ctx());
                    None
                }
            },
        }
    };
    let Some(plain) = render(m, OutputFormat::Plain) else { return };
    if let Err((k, e)) = follow(&doc.items, &plain, width, m) {
        m.fail(&format!("text:{k}"), format!("{e}\n{}\noutput:\n{plain}", ctx()));
        return;
    }
    let Some(colored) = render(m, OutputFormat::Colored) else { return };
    let (bare, ok) = uncolor(&colored);
    m.check(ok, "color:escape", || format!("unknown escape on {}\n{colored:?}", ctx()));
    let t = |s: &str| s.split('\n').map(|l| l.trim_end_matches(' ').to_string()).filter(|l| !l.is_empty()).collect::<Vec<_>>();
    let chars = |s: &str| s.chars().filter(|c| *c != ' ' && *c != '\n').collect::<String>();
    // a hyphen next to a colour code may be taken for a different break opportunity
    let whole_words = whole_words && !colored.contains("m-") && !colored.contains("-\x1b");
    if whole_words {
        m.count("colored_compared_by_line", 1);
        m.check(t(&bare) == t(&plain), "color:differs", || {
            let (a, b) = (t(&bare), t(&plain));
            format!("{}\n{}\n{colored:?}", first_diff(&a, &b), ctx())
        });
    } else {
        m.check(chars(&bare) == chars(&plain), "color:differs", || format!("{}\n{colored:?}", ctx()));
    }
    if let Err(e) = highlights(&doc.items, &colored, m) {
        m.fail("color:references", format!("{e} on {}\n{colored:?}", ctx()));
    }
    m.count("bytes_printed", (plain.len() + colored.len()) as u64);
    // the tagged test format of an act is its plain output
    m.observe(&(plain, width), doc.items.len() > 4);
    m.sample(|| format!("width {width}: {} items, {} bytes coloured", doc.items.len(), colored.len()));
}

fn width(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => r.below(12),
        1 => r.range(10, 40) as usize,
        2 => 80,
        3 => 1_000_000,
        4 => usize::MAX,
        5 => r.range(1, 60) as usize,
        _ => r.range(30, 140) as usize,
    }
}

fn c17(env: &Env, mon: &mut Mon) {
    env.suite(mon, "print", env.n(2500, 40000), |r, m| {
        let act = G::new(r, Mode::Print).act(6);
        let w = width(r);
        judge_text(m, &act, w, true);
    });
    env.suite(mon, "widths", env.n(30, 300), |r, m| {
        // one act at every width
        let act = G::new(r, Mode::Print).act(4);
        for w in 0..130 {
            judge_text(m, &act, w, true);
        }
    });
    env.suite(mon, "refs_anywhere", env.n(800, 10000), |r, m| {
        // references that start and end inside words
        let mut g = G::new(r, Mode::Print);
        g.info = false;
        let mut act = g.act(4);
        let w = width(r);
        struct V<'a>(&'a mut Rng);
        impl SAEVisitorMut for V<'_> {
            fn on_exit<IT: IdentifierCommon, CT: ChildrenCommon>(&mut self, p: &Reference, e: &mut SubArticleElement<IT, CT>) -> Result<()> {
                let t = match &e.body {
                    SAEBody::Text(t) => t,
                    SAEBody::Children { intro, .. } => intro,
                };
                let mut cuts: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).filter(|_| self.0.chance(1, 9)).collect();
                cuts.truncate(cuts.len() / 2 * 2);
                e.semantic_info.outgoing_references = cuts.chunks(2).map(|c| si::OutgoingReference { start: c[0], end: c[1], reference: p.clone() }).collect();
                Ok(())
            }
        }
        if act.walk_saes_mut(&mut V(r)).is_ok() {
            judge_text(m, &act, w, false);
        }
    });
    env.suite(mon, "printed", env.n(200, 3000), |r, m| {
        let cfg = acts::Cfg { quotes: 2, blocks: 3, tricky: 2, long: true };
        let mut act = acts::gen_act(r, &cfg, 20);
        act.children.retain(|c| !matches!(c, ActChild::StructuralElement(s) if s.identifier.to_string().parse::<u16>().is_err()));
        let w = width(r);
        judge_text(m, &act, w, true);
    });
    let docs = corpus_docs("structure");
    env.suite(mon, "corpus", docs.len() as u64, |r, m| {
        let d = &docs[m.case as usize % docs.len()];
        if d.2.children.iter().all(|c| !matches!(c, ActChild::StructuralElement(s) if s.identifier.to_string().parse::<u16>().is_err())) {
            for _ in 0..3 {
                let w = width(r);
                judge_text(m, &d.2, w, true);
            }
        }
    });
    // parts of an act through the same interface
    env.suite(mon, "parts", env.n(500, 5000), |r, m| {
        let w = width(r);
        let mut g = G::new(r, Mode::Print);
        let c = g.child(0);
        let mut buf = vec![];
        let mut p = TextOutputParams::new(w, false);
        let level = g.r.below(4);
        for _ in 0..level {
            p = p.indented();
        }
        let mut doc = Doc::new(level);
        doc.child(&c);
        let Some(res) = m.no_panic("part", || format!("{c:?} width {w}"), || c.write_as_text(&mut buf, p)) else { return };
        if !m.check(res.is_ok(), "part:refused", || format!("{res:?} on {c:?}")) {
            return;
        }
        let s = String::from_utf8_lossy(&buf).to_string();
        if let Err((k, e)) = follow(&doc.items, &s, w, m) {
            m.fail(&format!("part:{k}"), format!("{e}\n{c:?}\nwidth {w}\n{s}"));
        }
        m.observe(&(s, w), true);
    });
}

// ---------------------------------------------------------------- C26

/// Does an element hold no text at all? (paths of the elements asked about, with the answer)
fn blank_body<CT: ChildrenCommon>(b: &SAEBody<CT>, kids: impl FnOnce(&CT) -> bool) -> bool {
    match b {
        SAEBody::Text(t) => t.as_str() == "",
        SAEBody::Children { children, .. } => kids(children),
    }
}
fn all<T>(v: &[T], mut f: impl FnMut(&T) -> bool) -> bool {
    // every element is asked, even if the answer is known already
    v.iter().fold(true, |acc, x| f(x) && acc)
}
struct Asked<'m> {
    m: &'m mut Mon,
    bad: Option<String>,
}
impl Asked<'_> {
    fn ask(&mut self, what: &str, got: bool, want: bool, e: &dyn std::fmt::Debug) -> bool {
        self.m.count(if want { "empty_elements" } else { "nonempty_elements" }, 1);
        if got != want && self.bad.is_none() {
            self.bad = Some(format!("{what}: is_empty() is {got} for {e:?}"));
        }
        want
    }
    fn par(&mut self, p: &Paragraph) -> bool {
        let w = blank_body(&p.body, |c| {
            let w = match c {
                ParagraphChildren::AlphabeticPoint(v) => all(v, |x| self.apt(x)),
                ParagraphChildren::NumericPoint(v) => all(v, |x| self.npt(x)),
                ParagraphChildren::QuotedBlock(v) => v.len() == 0,
                ParagraphChildren::BlockAmendment(b) => {
                    let w = match &b.children {
                        BlockAmendmentChildren::Paragraph(v) => all(v, |x| self.par(x)),
                        BlockAmendmentChildren::AlphabeticPoint(v) => all(v, |x| self.apt(x)),
                        BlockAmendmentChildren::NumericPoint(v) => all(v, |x| self.npt(x)),
                        BlockAmendmentChildren::AlphabeticSubpoint(v) => all(v, |x| self.asub(x)),
                        BlockAmendmentChildren::NumericSubpoint(v) => all(v, |x| self.nsub(x)),
                    };
                    self.ask("amended elements", b.children.is_empty(), w, b);
                    self.ask("amendment", b.is_empty(), w, b)
                }
                ParagraphChildren::StructuralBlockAmendment(b) => {
                    for c in &b.children {
                        if let ActChild::Article(a) = c {
                            a.children.iter().for_each(|p| {
                                self.par(p);
                            });
                        }
                    }
                    self.ask("structural amendment", b.is_empty(), b.children.len() == 0, b)
                }
            };
            self.ask("children of a paragraph", c.is_empty(), w, c)
        });
        self.ask("paragraph", p.is_empty(), w, p)
    }
    fn apt(&mut self, p: &AlphabeticPoint) -> bool {
        let w = blank_body(&p.body, |c| {
            let w = match c {
                AlphabeticPointChildren::AlphabeticSubpoint(v) => all(v, |x| self.asub(x)),
                AlphabeticPointChildren::NumericSubpoint(v) => all(v, |x| self.nsub(x)),
            };
            self.ask("children of a point", c.is_empty(), w, c)
        });
        self.ask("point", p.is_empty(), w, p)
    }
    fn npt(&mut self, p: &NumericPoint) -> bool {
        let w = blank_body(&p.body, |c| {
            let NumericPointChildren::AlphabeticSubpoint(v) = c;
            let w = all(v, |x| self.asub(x));
            self.ask("children of a numeric point", c.is_empty(), w, c)
        });
        self.ask("numeric point", p.is_empty(), w, p)
    }
    fn asub(&mut self, p: &AlphabeticSubpoint) -> bool {
        let w = blank_body(&p.body, |c| match *c {});
        self.ask("subpoint", p.is_empty(), w, p)
    }
    fn nsub(&mut self, p: &NumericSubpoint) -> bool {
        let w = blank_body(&p.body, |c| match *c {});
        self.ask("numeric subpoint", p.is_empty(), w, p)
    }
}

fn c26(env: &Env, mon: &mut Mon) {
    env.suite(mon, "lookup", env.n(6000, 100000), |r, m| {
        let mut act = if r.chance(1, 2) { G::new(r, Mode::Tag).act(12) } else { crate::acts::gen_act(r, &crate::acts::Cfg { quotes: 1, blocks: 2, tricky: 1, long: false }, 12) };
        // number and book alone do not tell articles apart
        let mut ids: Vec<ArticleIdentifier> = vec![];
        for c in act.children.iter_mut() {
            if let ActChild::Article(a) = c {
                if !ids.is_empty() && r.chance(1, 4) {
                    let p = *r.pick(&ids);
                    a.identifier = near(r, p);
                }
                ids.push(a.identifier);
            }
        }
        let ctx = || format!("articles {ids:?}");
        let all: Vec<(usize, &Article)> =
            act.children.iter().enumerate().filter_map(|(i, c)| if let ActChild::Article(a) = c { Some((i, a)) } else { None }).collect();
        let Some(listed) = m.no_panic("articles", ctx, || act.articles().map(|a| a as *const Article).collect::<Vec<_>>()) else { return };
        m.sample(ctx);
        m.check(listed == all.iter().map(|x| x.1 as *const Article).collect::<Vec<_>>(), "articles:list", ctx);
        let mut asked: Vec<ArticleIdentifier> = ids.clone();
        for _ in 0..4 {
            let id = if ids.is_empty() || r.chance(1, 3) { G::new(r, Mode::Tag).art_id() } else { { let p = *r.pick(&ids); near(r, p) } };
            asked.push(id);
        }
        let want: Vec<Option<usize>> = asked.iter().map(|id| all.iter().find(|a| a.1.identifier == *id).map(|a| a.0)).collect();
        for (id, w) in asked.iter().zip(&want) {
            let Some(got) = m.no_panic("article", || format!("{id:?} of {ids:?}"), || act.article(*id)) else { return };
            let at = |i: &usize| if let ActChild::Article(a) = &act.children[*i] { a as *const Article } else { std::ptr::null() };
            m.check(got.map(|a| a as *const Article) == w.as_ref().map(at), "article:found", || format!("{id:?} of {ids:?}: got {:?}", got.map(|a| (a.identifier, &a.title))));
            m.count(if w.is_some() { "found" } else { "absent" }, 1);
        }
        m.observe(&format!("{asked:?}{ids:?}"), all.len() > 1);
        // through the mutable access, changes land on that article only
        let changed = |i: usize| {
            let mut x = act.clone();
            if let ActChild::Article(a) = &mut x.children[i] {
                a.title = Some("changed".into());
            }
            x
        };
        for (id, w) in asked.iter().zip(&want) {
            let mut x = act.clone();
            let Some(hit) = m.no_panic("article_mut", || format!("{id:?} of {ids:?}"), || {
                x.article_mut(*id).map(|a| a.title = Some("changed".into())).is_some()
            }) else {
                return;
            };
            m.check(hit == w.is_some() && x == w.map_or_else(|| act.clone(), changed), "article_mut", || format!("{id:?} of {ids:?}"));
        }
        let mut x = act.clone();
        let mut k = 0;
        x.articles_mut().for_each(|a| {
            a.title = Some(format!("changed {k}"));
            k += 1;
        });
        let mut y = act.clone();
        let mut k = 0;
        for c in y.children.iter_mut() {
            if let ActChild::Article(a) = c {
                a.title = Some(format!("changed {k}"));
                k += 1;
            }
        }
        m.check(x == y, "articles_mut", || format!("{ids:?}"));
    });
    env.suite(mon, "empty", env.n(8000, 150000), |r, m| {
        let blank = *r.pick(&[2, 8, 13, 15, 16]);
        let mut g = G::new(r, Mode::Tag);
        g.blank = blank;
        g.info = false;
        let id = g.num();
        let p = g.paragraph(id.into(), 0);
        let mut a = Asked { m, bad: None };
        a.par(&p);
        if let Some(b) = a.bad {
            m.fail("is_empty", b);
        }
        m.observe(&format!("{p:?}"), matches!(p.body, SAEBody::Children { .. }));
    });
}

/// An identifier that differs in one part, or not at all
fn near(r: &mut Rng, id: ArticleIdentifier) -> ArticleIdentifier {
    let s = id.to_string();
    let (book, n) = match s.split_once(':') {
        Some((b, n)) => (Some(b.to_string()), n.to_string()),
        None => (None, s.clone()),
    };
    let t = match r.below(5) {
        0 => n.clone(),
        1 => format!("{}:{n}", r.range(1, 8)),
        2 => format!("{}{}", book.map_or(String::new(), |b| b + ":"), n.split('/').next().unwrap()),
        3 => format!("{}{}/{}", book.map_or(String::new(), |b| b + ":"), n.split('/').next().unwrap(), r.pick(&["A", "B", "ZS"])),
        _ => s,
    };
    t.parse().unwrap_or(id)
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C26",
            level: "exploration",
            rule: "random acts with articles that share numbers, books or suffixes, looked up by present, absent and nearly equal identifiers, immutably and mutably; random paragraphs of every kind with a share of empty texts, asked at every level whether they are empty; non-trivial: two articles or more, or an element with children; distinct by content",
            assumptions: &["articles of the same identifier: the first one is meant"],
            run: c26,
        },
        Check {
            id: "C14",
            level: "exploration",
            rule: "event logs of immutable and mutable walks over random acts (all element kinds, unnumbered and numbered paragraphs, amendments, quoted blocks), with failures injected at events and visitors that change or cut elements; non-trivial: at least one event; distinct by event sequence",
            assumptions: &["point and subpoint kinds are combined as the types allow"],
            run: c14,
        },
        Check {
            id: "C16",
            level: "exploration",
            rule: "random acts with every optional part, semantic info, change records, amendments and awkward strings, all pairs of awkward strings in every place, all Unicode characters (thorough); each stored as JSON and YAML and loaded by every loader; distinct by content",
            assumptions: &["character positions are compared to 1e-6 points (JSON numbers may be off in the last bit)"],
            run: c16,
        },
        Check {
            id: "C17",
            level: "exploration",
            rule: "random acts at random widths 0..usize::MAX (and one act at every width 0..130), plain and coloured; distinct by output and width",
            assumptions: &["numbers of structural elements are printable (no letters, ordinals up to 100)", "a header wider than its column may be followed by its text without a space", "texts contain no control characters", "the title line of the act and quoted lines are not wrapped"],
            run: c17,
        },
    ]
}
