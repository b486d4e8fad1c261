//! Act workloads: random printable act trees, and an independent typesetter that prints them as
//! positioned lines in the gazette's conventions.
use chrono::NaiveDate;
use hun_law::{identifier::*, parser::mk_act_section::ActRawText, structure::*};
use regex::Regex;

use crate::{
    c_ident::{ordinal, to_roman, LETTERS},
    lines::MLine,
    rng::Rng,
};

#[derive(Clone, Copy)]
pub struct Cfg {
    /// chance (of 16) of an inline quotation in a text
    pub quotes: u32,
    /// chance (of 16) that a paragraph has quoted blocks
    pub blocks: u32,
    /// chance (of 16) of header-like words inside a text
    pub tricky: u32,
    /// long lists, so that the whole alphabet is used
    pub long: bool,
}

const W: &[&str] = &[
    "törvény", "alapján", "a", "az", "kötelezett", "köteles", "teljesíti", "hatóság", "eljárása", "során", "és", "vagy",
    "illetve", "ha", "nem", "díj", "mértéke", "legfeljebb", "évente", "napon", "belül", "őrzés", "űrlap", "Európai", "Unió",
    "Kormány", "rendeletben", "megállapított", "adat-", "közép-európai", "munka- és", "bel- vagy", "tűz-, munka-", "e", "is",
    "kölcsönös", "ügyfél", "szerinti", "számú", "melléklet", "igazolás", "25%-a", "2010.", "január", "1-jén", "forint", "(a", "továbbiakban:", "szolgáltató)", "Btk.", "stb.",
    "10–15", "m2", "x", "ÁFA", "K+F", "ő", "Ön",
];
/// words that look like headers of the wrong number, or that the gazette uses in references
const TRICKY: &[&str] = &[
    "(2) bekezdés", "a) pontja", "b) és c) pontja", "5. §-a", "12. § szerint", "(3) bekezdésben", "aa) alpont", "III. Fejezet szerint",
    "2. pont", "3. pontjában", "(5) és (6) bekezdés", "MÁSODIK RÉSZ szerinti", "d) pont", "4. alpont",
    // subpoints of a point other than the one this stands in
    "qa) alfa qb) béta qc) gamma",
];

pub fn word(r: &mut Rng) -> String {
    r.pick(W).to_string()
}

/// Header look-alikes for the inside of quotations
pub fn hostile_header(r: &mut Rng) -> String {
    let n = r.range(1, 6);
    match r.below(12) {
        0 => format!("{n}. § ({}) Ha", r.range(1, 4)),
        1 => format!("{n}. § Az"),
        2 => format!("({n}) Az"),
        3 => format!("{}) az", r.pick(&["a", "b", "c", "d", "e"])),
        4 => format!("{n}. az"),
        5 => format!("{}. FEJEZET", to_roman(n as u32)),
        6 => format!("{} RÉSZ", ordinal(n as usize).to_uppercase()),
        7 => format!("{}{}) az", r.pick(&["a", "b", "c"]), r.pick(&["a", "b", "c"])),
        8 => format!("{n}:{}. § Az", r.range(1, 4)),
        9 => format!("{n}. Alcím"),
        10 => format!("{n}/A. § [Cím]"),
        _ => format!("{} KÖNYV", ordinal(n as usize).to_uppercase()),
    }
}

fn words(r: &mut Rng, lo: i64, hi: i64) -> String {
    let n = r.range(lo, hi);
    (0..n).map(|_| word(r)).collect::<Vec<_>>().join(" ")
}

/// A text that starts and ends with a plain word
pub fn text(r: &mut Rng, cfg: &Cfg, lo: i64, hi: i64) -> String {
    let mut s = r.pick(&["Az", "A", "Ha", "az", "valamint", "Minden", "e", "ezen", "Őrzött", "többszörös"]).to_string();
    for _ in 0..r.range(lo, hi) {
        s.push(' ');
        if r.chance(cfg.tricky, 32) {
            s.push_str(*r.pick(TRICKY));
        } else if r.chance(cfg.quotes, 48) {
            s.push_str(&inline_quote(r, 0));
        } else {
            s.push_str(&word(r));
        }
    }
    s.push(' ');
    s.push_str(*r.pick(&["rendelkezés.", "esetén,", "hatályos;", "kell", "szerint:", "lép,", "működik,", "és"]));
    s
}

thread_local! {
    /// no opening mark right after another one (the PDF reader puts a blank before each)
    pub static SPACED_QUOTES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn inline_quote(r: &mut Rng, depth: u32) -> String {
    let mut s = if r.chance(1, 6) { "“" } else { "„" }.to_string();
    for i in 0..r.range(1, 6) {
        if i > 0 {
            s.push(' ');
        }
        match r.below(6) {
            0 | 1 => s.push_str(&hostile_header(r)),
            2 if depth < 2 && !(i == 0 && SPACED_QUOTES.with(|q| q.get())) => s.push_str(&inline_quote(r, depth + 1)),
            _ => s.push_str(&word(r)),
        }
    }
    s.push('”');
    s
}

pub fn title(r: &mut Rng) -> String {
    let mut s = r.pick(&["Az", "A", "Általános", "Őrzési", "Záró", "Ügyek"]).to_string();
    for _ in 0..r.range(1, 8) {
        s.push(' ');
        s.push_str(*r.pick(&["rendelkezések", "és", "szabályok", "felelősség", "alkalmazási", "köre", "közép-európai", "hatálya", "őrzése", "a"]));
    }
    s + " köre"
}

// ---------------------------------------------------------------- numbering

pub fn numbering(r: &mut Rng, n: usize) -> Vec<NumericIdentifier> {
    numbering_from(r, n, 1, None)
}
pub fn numbering_from(r: &mut Rng, n: usize, mut num: u16, mut suf: Option<u8>) -> Vec<NumericIdentifier> {
    let single: Vec<u8> = crate::c_ident::single_letters();
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            match suf {
                None if r.chance(1, 7) => suf = Some(0),
                Some(s) if (s as usize) < single.len() - 1 && r.chance(1, 2) => suf = Some(s + 1),
                _ => {
                    num += 1;
                    suf = None;
                }
            }
        }
        let t = format!("{num}{}", suf.map_or("", |s| LETTERS[single[s as usize] as usize]));
        v.push(t.parse().unwrap());
    }
    v
}

/// consecutive letters from the given index (of the 34 letter alphabet), digraphs sometimes skipped
pub fn lettering(r: &mut Rng, n: usize, start: usize) -> Vec<&'static str> {
    let mut v = vec![];
    let mut i = start;
    let skip_q = r.chance(1, 4);
    let digraphs = r.below(3);
    while v.len() < n && i < LETTERS.len() {
        let l = LETTERS[i];
        i += 1;
        if !v.is_empty() && (l.len() == 2 && (digraphs == 0 || (digraphs == 1 && r.chance(1, 2))) || (l == "q" && skip_q)) {
            continue;
        }
        v.push(l);
    }
    v
}

pub fn sub_lettering(n: usize, start: usize) -> Vec<char> {
    (b'a'..=b'z').map(|c| c as char).skip(start).take(n).collect()
}

// ---------------------------------------------------------------- trees

fn count(r: &mut Rng, cfg: &Cfg, hi: i64) -> usize {
    if cfg.long && r.chance(1, 6) {
        r.range(2, 32) as usize
    } else {
        r.range(2, hi) as usize
    }
}
fn wrap(r: &mut Rng, cfg: &Cfg) -> Option<String> {
    r.chance(1, 3).then(|| {
        let c = Cfg { tricky: 0, ..*cfg };
        format!("{} {}", r.pick(&["kell", "mellett", "esetén", "feltéve"]), text(r, &c, 0, 8))
    })
}
fn sae<IT: IdentifierCommon, CT: ChildrenCommon>(identifier: IT, body: SAEBody<CT>) -> SubArticleElement<IT, CT> {
    SubArticleElement { identifier, body, semantic_info: Default::default(), last_change: None }
}

pub fn gen_num_subpoints(r: &mut Rng, cfg: &Cfg) -> Vec<NumericSubpoint> {
    let n = count(r, cfg, 4);
    numbering(r, n).into_iter().map(|i| sae(i, text(r, cfg, 0, 12).into())).collect()
}
pub fn gen_alpha_subpoints(r: &mut Rng, cfg: &Cfg, prefix: Option<&str>) -> Vec<AlphabeticSubpoint> {
    // the letter after the prefix must not make it look like a digraph point
    let n = r.range(2, 5) as usize;
    sub_lettering(n, 0)
        .into_iter()
        .map(|c| sae(format!("{}{c}", prefix.unwrap_or("")).parse::<PrefixedAlphabeticIdentifier>().unwrap(), text(r, cfg, 0, 12).into()))
        .collect()
}
pub fn gen_alpha_point(r: &mut Rng, cfg: &Cfg, l: &str) -> AlphabeticPoint {
    let cfg = &Cfg { tricky: if l == "q" { 0 } else { cfg.tricky }, ..*cfg };
    let id: AlphabeticIdentifier = l.parse().unwrap();
    match r.below(5) {
        0 => {
            let children = gen_num_subpoints(r, cfg).into();
            sae(id, SAEBody::Children { intro: text(r, cfg, 0, 10), children, wrap_up: wrap(r, cfg) })
        }
        1 if l.len() == 1 => {
            let children = gen_alpha_subpoints(r, cfg, Some(l)).into();
            sae(id, SAEBody::Children { intro: text(r, cfg, 0, 10), children, wrap_up: wrap(r, cfg) })
        }
        _ => sae(id, text(r, cfg, 0, 16).into()),
    }
}
pub fn gen_num_point(r: &mut Rng, cfg: &Cfg, id: NumericIdentifier) -> NumericPoint {
    if r.chance(1, 4) {
        let children = gen_alpha_subpoints(r, cfg, None).into();
        sae(id, SAEBody::Children { intro: text(r, cfg, 0, 10), children, wrap_up: wrap(r, cfg) })
    } else {
        sae(id, text(r, cfg, 0, 16).into())
    }
}
pub fn gen_paragraph(r: &mut Rng, cfg: &Cfg, id: ParagraphIdentifier) -> Paragraph {
    if r.chance(cfg.blocks, 16) {
        let (intro, blocks, wrap_up) = gen_quoted(r, cfg);
        return sae(id, SAEBody::Children { intro, children: blocks.into(), wrap_up });
    }
    match r.below(8) {
        0 | 1 => {
            let n = count(r, cfg, 5);
            let children: Vec<AlphabeticPoint> = lettering(r, n, 0).into_iter().map(|l| gen_alpha_point(r, cfg, l)).collect();
            sae(id, SAEBody::Children { intro: text(r, cfg, 0, 12), children: children.into(), wrap_up: wrap(r, cfg) })
        }
        2 | 3 => {
            let n = count(r, cfg, 5);
            let children: Vec<NumericPoint> = numbering(r, n).into_iter().map(|i| gen_num_point(r, cfg, i)).collect();
            sae(id, SAEBody::Children { intro: text(r, cfg, 0, 12), children: children.into(), wrap_up: wrap(r, cfg) })
        }
        _ => sae(id, text(r, cfg, 0, 30).into()),
    }
}

pub fn quoted_line(r: &mut Rng) -> MLine {
    let mut t = if r.chance(1, 2) { hostile_header(r) } else { word(r) };
    for _ in 0..r.below(8) {
        t.push(' ');
        if r.chance(1, 8) {
            t.push_str(&inline_quote(r, 0));
        } else {
            t.push_str(&word(r));
        }
    }
    let x = r.range(20, 200) as f64;
    plain_line(&t, x, r.chance(1, 6), r.chance(1, 2))
}

/// intro of the paragraph, blocks, wrap-up of the paragraph
pub fn gen_quoted(r: &mut Rng, cfg: &Cfg) -> (String, Vec<QuotedBlock>, Option<String>) {
    let n = if r.chance(2, 3) { 1 } else { r.range(2, 3) as usize };
    let mut blocks: Vec<QuotedBlock> = (0..n)
        .map(|_| QuotedBlock {
            intro: None,
            lines: (0..if r.chance(1, 4) { 1 } else { r.range(1, 7) }).map(|_| quoted_line(r).real()).collect(),
            wrap_up: None,
        })
        .collect();
    let has_intro = r.chance(1, 2);
    let mut intro = text(r, cfg, 0, 10);
    while intro.ends_with(':') {
        intro.pop();
    }
    if has_intro {
        blocks[0].intro = Some(text(r, cfg, 0, 10));
        intro.push(':');
    } else if r.chance(1, 2) {
        intro.push(':');
    }
    if r.chance(1, 3) {
        blocks[n - 1].wrap_up = Some(text(r, cfg, 0, 8));
    }
    let w = wrap(r, cfg);
    (intro, blocks, w)
}

pub fn gen_article(r: &mut Rng, cfg: &Cfg, id: ArticleIdentifier) -> Article {
    let children = if r.chance(1, 2) {
        let n = if cfg.long && r.chance(1, 8) { r.range(2, 30) } else { r.range(2, 5) };
        numbering(r, n as usize).into_iter().map(|i| gen_paragraph(r, cfg, i.into())).collect()
    } else {
        vec![gen_paragraph(r, cfg, ParagraphIdentifier::default())]
    };
    Article { identifier: id, title: r.chance(1, 3).then(|| title(r)), children, last_change: None }
}

pub fn article_ids(r: &mut Rng, n: usize) -> Vec<ArticleIdentifier> {
    let mut v = vec![];
    if r.chance(1, 4) {
        let mut book = 1u8;
        while v.len() < n {
            let k = r.range(1, 4) as usize;
            for i in numbering(r, k) {
                v.push(ArticleIdentifier::from_book_and_id(Some(book), i));
            }
            book += 1;
        }
        v.truncate(n);
    } else {
        for i in numbering(r, n) {
            v.push(ArticleIdentifier::from_book_and_id(None, i));
        }
    }
    v
}

pub fn gen_se(r: &mut Rng) -> StructuralElement {
    let (element_type, max, sfx) = match r.below(5) {
        0 => (StructuralElementType::Book, 100, false),
        1 => (StructuralElementType::Part { is_special: false }, 100, false),
        2 => (StructuralElementType::Part { is_special: true }, 3, false),
        3 => (StructuralElementType::Title, 400, true),
        _ => (StructuralElementType::Chapter, 400, true),
    };
    let n = if r.chance(1, 2) { r.range(1, 3) } else { r.range(1, max) };
    let s = if sfx && r.chance(1, 5) { *r.pick(&["a", "b", "z"]) } else { "" };
    StructuralElement {
        identifier: format!("{n}{s}").parse().unwrap(),
        title: if r.chance(1, 6) { String::new() } else { title(r) },
        element_type,
        last_change: None,
    }
}
pub fn gen_subtitle(r: &mut Rng) -> Subtitle {
    let s = if r.chance(1, 5) { *r.pick(&["a", "b", "z"]) } else { "" };
    Subtitle { identifier: r.chance(2, 3).then(|| format!("{}{s}", r.range(1, 40)).parse().unwrap()), title: title(r), last_change: None }
}

pub fn gen_children(r: &mut Rng, cfg: &Cfg, n: usize) -> Vec<ActChild> {
    let ids = article_ids(r, n);
    let mut it = ids.into_iter();
    let mut v: Vec<ActChild> = vec![];
    for _ in 0..n {
        match r.below(6) {
            0 => v.push(gen_se(r).into()),
            1 => v.push(gen_subtitle(r).into()),
            _ => v.push(gen_article(r, cfg, it.next().unwrap()).into()),
        }
    }
    v
}

pub fn gen_act(r: &mut Rng, cfg: &Cfg, max: i64) -> Act {
    let n = r.range(1, max) as usize;
    Act {
        identifier: ActIdentifier { year: r.range(1990, 2030) as i16, number: r.range(1, 300) as i32 },
        subject: title(r),
        preamble: if r.chance(1, 3) {
            String::new()
        } else {
            let c = Cfg { tricky: 0, ..*cfg };
            let mut t = text(r, &c, 0, 20);
            if cfg.tricky > 0 && r.chance(1, 4) {
                // mentions articles: the first article of an act is the first one numbered 1
                for _ in 0..r.range(1, 3) {
                    t += &format!(" {} {}", r.pick(&["12. § szerint", "2. § (3) bekezdése", "3/A. § Az", "2:5. § szerinti"]), text(r, &c, 0, 8));
                }
            }
            t
        },
        publication_date: NaiveDate::from_ymd_opt(r.range(1990, 2030) as i32, r.range(1, 12) as u32, r.range(1, 28) as u32).unwrap(),
        contained_abbreviations: Default::default(),
        children: gen_children(r, cfg, n),
    }
}

// ---------------------------------------------------------------- the typesetter

pub fn plain_line(t: &str, x: f64, bold: bool, justified: bool) -> MLine {
    MLine { chars: t.chars().enumerate().map(|(i, c)| (x + 5.0 * i as f64, c, bold)).collect(), justified }
}

/// The joining rule of lines, as an independent implementation.
pub fn join_model(lines: &[String]) -> String {
    let mut s = String::new();
    for l in lines {
        if l.is_empty() {
            continue;
        }
        let hyphen = s.chars().last() == Some('-');
        let conj = l.starts_with("és ") || l.starts_with("vagy ");
        if !s.is_empty() && (!hyphen || conj) {
            s.push(' ');
        }
        s += l;
    }
    s
}

pub fn quote_level(s: &str) -> i64 {
    s.chars().map(|c| if c == '„' || c == '“' { 1 } else if c == '”' { -1 } else { 0 }).sum()
}

pub struct Re(&'static str, std::sync::OnceLock<Regex>);
impl Re {
    const fn new(s: &'static str) -> Self {
        Re(s, std::sync::OnceLock::new())
    }
    pub fn is_match(&self, s: &str) -> bool {
        self.1.get_or_init(|| Regex::new(self.0).unwrap()).is_match(s)
    }
}
static RE_START: Re = Re::new(r"^(\((1|1[a-z])\) |a\) |[a-z]a\) |1\. |1/?[a-z]\. |[„“\[\]])");
static RE_HDR: Re = Re::new(r"^(\([0-9]+[a-z]?\)|[a-z]{1,2}\)|[0-9]+(/?[a-zA-Z])?\.|([0-9]+:)?[0-9]+(/[A-Z])?\. ?§)( |$)");
static RE_ART: Re = Re::new(r"^([0-9]+:)?[0-9]+(/[A-Z])?\. ?§ ");
static RE_WHOLE: Re = Re::new(r"^(.* (KÖNYV|RÉSZ)|.*\. (CÍM|(?i:fejezet)))$");

/// Where may a text be broken into lines? `header_ok`: lines that look like a (wrong) header are allowed.
pub struct Break {
    pub header_ok: bool,
    /// lines before the last must not end with a closing bracket
    pub no_bracket_end: bool,
    /// lines that look like articles are allowed
    pub article_ok: bool,
}

fn start_ok(line: &str, prev: &str, quoted: bool, b: &Break) -> bool {
    if line.is_empty() || quoted {
        return !line.is_empty();
    }
    if RE_START.is_match(line) && !(line.starts_with("a) pont") || line.starts_with("aa) alpont") || line.starts_with("qa) alfa")) {
        return false;
    }
    if line.starts_with('(') && prev.ends_with(':') {
        return false;
    }
    b.header_ok || !RE_HDR.is_match(line) || (b.article_ok && RE_ART.is_match(line))
}

/// Break a text into lines that join to it again. The caller prints `head` before the first one.
pub fn break_lines(r: &mut Rng, t: &str, width: usize, b: &Break) -> Vec<String> {
    let chars: Vec<char> = t.chars().collect();
    let mut cuts: Vec<(usize, usize)> = vec![]; // end of left, start of right
    for i in 1..chars.len() {
        if chars[i] == ' ' && chars[i - 1] != ' ' {
            cuts.push((i, i + 1));
        } else if chars[i - 1] == '-' && chars[i].is_alphabetic() && i >= 2 && chars[i - 2].is_alphabetic() {
            cuts.push((i, i));
        }
    }
    let sub = |a: usize, z: usize| chars[a..z].iter().collect::<String>();
    for _try in 0..4 {
        let mut lines: Vec<String> = vec![];
        let mut from = 0;
        for (l, s) in &cuts {
            if *l <= from {
                continue;
            }
            let left = sub(from, *l);
            let rest = sub(*s, chars.len());
            let quoted = quote_level(&sub(0, *l)) > 0;
            let hostile = quoted && RE_HDR.is_match(&rest);
            let want = *l - from >= width || r.chance(1, 12) || (hostile && r.chance(2, 3)) || (!quoted && b.header_ok && RE_HDR.is_match(&rest) && r.chance(1, 3))
                || (!quoted && b.article_ok && RE_ART.is_match(&rest) && r.chance(1, 2))
                || (quoted && b.no_bracket_end && left.ends_with([')', ']']) && r.chance(1, 2));
            if !want || !start_ok(&rest, &left, quoted, b) {
                continue;
            }
            if b.no_bracket_end && !quoted && left.ends_with([')', ']']) {
                continue;
            }
            if !quoted && RE_WHOLE.is_match(&left) {
                continue;
            }
            lines.push(left);
            from = *s;
        }
        lines.push(sub(from, chars.len()));
        let bad = lines.iter().skip(1).any(|l| RE_WHOLE.is_match(l) && quote_level(t) == 0 && !t.contains('„') && !t.contains('“'));
        if join_model(&lines) == t && !bad {
            return lines;
        }
    }
    vec![t.to_string()]
}

pub struct Ts<'a> {
    pub r: &'a mut Rng,
    pub out: Vec<MLine>,
    pub width: usize,
    /// layout of quoted amendments: no indentation, justification tells where texts end
    pub ba: bool,
    pub empties: bool,
    pub slash_suffix: bool,
    /// quoted continuation lines may stand at any column (texts of paragraphs)
    pub free_quoted: bool,
}

pub enum Kids<'a> {
    Text(&'a str),
    Children { intro: &'a str, kids: Vec<(String, Kids<'a>)>, wrap: Option<&'a str> },
    Quoted { intro: &'a str, blocks: &'a [QuotedBlock], wrap: Option<&'a str> },
    Other,
}

pub fn num_point_header(id: &NumericIdentifier, slash: bool) -> String {
    let s = id.to_string();
    let digits = s.chars().take_while(|c| c.is_ascii_digit()).count();
    if slash && digits < s.len() {
        format!("{}/{}.", &s[..digits], &s[digits..])
    } else {
        format!("{s}.")
    }
}

pub fn alpha_sub_kids<'a>(v: &'a [AlphabeticSubpoint]) -> Vec<(String, Kids<'a>)> {
    v.iter().map(|e| (format!("{})", e.identifier), if let SAEBody::Text(t) = &e.body { Kids::Text(t) } else { Kids::Other })).collect()
}
pub fn num_sub_kids<'a>(v: &'a [NumericSubpoint], slash: bool) -> Vec<(String, Kids<'a>)> {
    v.iter().map(|e| (num_point_header(&e.identifier, slash), if let SAEBody::Text(t) = &e.body { Kids::Text(t) } else { Kids::Other })).collect()
}
pub fn alpha_kids<'a>(v: &'a [AlphabeticPoint], slash: bool) -> Vec<(String, Kids<'a>)> {
    v.iter()
        .map(|e| {
            let k = match &e.body {
                SAEBody::Text(t) => Kids::Text(t.as_str()),
                SAEBody::Children { intro, children, wrap_up } => Kids::Children {
                    intro,
                    kids: match children {
                        AlphabeticPointChildren::AlphabeticSubpoint(v) => alpha_sub_kids(v),
                        AlphabeticPointChildren::NumericSubpoint(v) => num_sub_kids(v, slash),
                    },
                    wrap: wrap_up.as_deref(),
                },
            };
            (format!("{})", e.identifier), k)
        })
        .collect()
}
pub fn num_kids<'a>(v: &'a [NumericPoint], slash: bool) -> Vec<(String, Kids<'a>)> {
    v.iter()
        .map(|e| {
            let k = match &e.body {
                SAEBody::Text(t) => Kids::Text(t.as_str()),
                SAEBody::Children { intro, children: NumericPointChildren::AlphabeticSubpoint(v), wrap_up } => {
                    Kids::Children { intro, kids: alpha_sub_kids(v), wrap: wrap_up.as_deref() }
                }
            };
            (num_point_header(&e.identifier, slash), k)
        })
        .collect()
}
pub fn par_kids<'a>(p: &'a Paragraph, slash: bool) -> Kids<'a> {
    match &p.body {
        SAEBody::Text(t) => Kids::Text(t),
        SAEBody::Children { intro, children, wrap_up } => match children {
            ParagraphChildren::AlphabeticPoint(v) => Kids::Children { intro, kids: alpha_kids(v, slash), wrap: wrap_up.as_deref() },
            ParagraphChildren::NumericPoint(v) => Kids::Children { intro, kids: num_kids(v, slash), wrap: wrap_up.as_deref() },
            ParagraphChildren::QuotedBlock(v) => Kids::Quoted { intro, blocks: v, wrap: wrap_up.as_deref() },
            _ => Kids::Other,
        },
    }
}

impl<'a> Ts<'a> {
    pub fn new(r: &'a mut Rng, ba: bool) -> Self {
        let width = r.range(12, 90) as usize;
        let empties = r.chance(1, 2);
        let slash_suffix = r.chance(1, 2);
        Ts { r, out: vec![], width, ba, empties, slash_suffix, free_quoted: false }
    }
    fn line(&mut self, t: &str, x: f64, bold: bool, justified: bool) {
        self.out.push(plain_line(t, x, bold, justified));
    }
    pub fn empty(&mut self) {
        if self.out.last().map_or(false, |l| !l.chars.is_empty()) {
            self.out.push(MLine { chars: vec![], justified: false });
        }
    }
    pub fn plain_text(&mut self, t: &str, x: f64) {
        self.texts("", t, x, x, &Break { header_ok: false, no_bracket_end: false, article_ok: false }, false);
    }
    fn maybe_empty(&mut self) {
        if self.empties && self.r.chance(1, 6) {
            self.empty();
        }
    }
    /// Print `head` + text; the first line at x, the others at xc..xc+20. Bold text on request.
    fn texts(&mut self, head: &str, t: &str, x: f64, xc: f64, b: &Break, bold: bool) {
        let lines = break_lines(self.r, t, self.width, b);
        let n = lines.len();
        let from = self.out.len();
        let mut level = 0;
        for (i, l) in lines.iter().enumerate() {
            let s = if i == 0 { format!("{head}{l}") } else { l.clone() };
            let justified = if self.ba { i + 1 < n } else { self.r.chance(3, 4) };
            let px = if i == 0 {
                x
            } else if level > 0 && self.free_quoted && self.r.chance(1, 2) {
                self.r.range(10, 150) as f64
            } else {
                xc + self.r.below(20) as f64
            };
            // a bold line in the middle of a text is still text
            let odd_bold = !self.ba && i > 0 && level == 0 && !bold && self.r.chance(1, 24) && !RE_HDR.is_match(&s);
            self.line(&s, if self.ba { x } else { px }, bold || odd_bold, justified);
            level += quote_level(l);
            if i + 1 < n && !bold && level == 0 && !odd_bold && !self.out.last().unwrap().chars.is_empty() && self.empties && self.r.chance(1, 40) {
                // page break in the middle of a text; the next line must not be bold
                self.empty();
                // handled by keeping odd_bold off right after an empty line
            }
        }
        // no bold line directly after an empty one
        let mut prev_empty = false;
        for l in self.out[from..].iter_mut() {
            if prev_empty && !bold {
                l.chars.iter_mut().for_each(|c| c.2 = false);
            }
            prev_empty = l.chars.is_empty();
        }
    }
    pub fn kids(&mut self, head: &str, k: &Kids, x: f64, unheaded: bool) {
        let ok = Break { header_ok: true, no_bracket_end: false, article_ok: false };
        let plain = Break { header_ok: false, no_bracket_end: false, article_ok: false };
        let ok = if self.ba { Break { header_ok: false, no_bracket_end: false, article_ok: false } } else { ok };
        let xc = x + if unheaded { 2.0 } else { 6.0 };
        match k {
            Kids::Text(t) => self.texts(head, t, x, xc, &ok, false),
            Kids::Children { intro, kids, wrap } => {
                self.texts(head, intro, x, xc, &ok, false);
                self.free_quoted = false;
                let cx = if self.ba { x } else { x + 10.0 + self.r.below(10) as f64 };
                self.elements(kids, cx);
                if let Some(w) = wrap {
                    self.texts("", w, cx, cx, &plain, false);
                    // every line of a wrap-up stands at the header's column
                }
            }
            Kids::Quoted { intro, blocks, wrap } => {
                self.texts(head, intro, x, xc, &ok, false);
                self.free_quoted = false;
                let bx = x + 5.0;
                for b in blocks.iter() {
                    if let Some(i) = &b.intro {
                        self.bracketed(i, bx);
                    }
                    self.maybe_empty();
                    self.block(&b.lines);
                    self.maybe_empty();
                    if let Some(i) = &b.wrap_up {
                        self.bracketed(i, bx);
                    }
                }
                if let Some(w) = wrap {
                    self.texts("", w, bx, bx, &plain, false);
                }
            }
            Kids::Other => {}
        }
    }
    fn bracketed(&mut self, t: &str, x: f64) {
        let (o, c) = if self.r.chance(1, 2) { ('(', ')') } else { ('[', ']') };
        let b = Break { header_ok: false, no_bracket_end: true, article_ok: false };
        let lines = break_lines(self.r, t, self.width, &b);
        let n = lines.len();
        for (i, l) in lines.iter().enumerate() {
            let s = format!("{}{l}{}", if i == 0 { o.to_string() } else { String::new() }, if i + 1 == n { c.to_string() } else { String::new() });
            self.line(&s, x, false, i + 1 < n);
        }
    }
    fn block(&mut self, lines: &[hun_law::util::indentedline::IndentedLine]) {
        let open = if self.r.chance(1, 6) { '“' } else { '„' };
        let n = lines.len();
        for (i, l) in lines.iter().enumerate() {
            let mut ml = model_of(l);
            if i == 0 {
                let (x, b) = ml.chars.first().map_or((100.0, false), |c| (c.0, c.2));
                ml.chars.insert(0, (x - 5.0, open, b));
            }
            if i + 1 == n {
                let (x, b) = ml.chars.last().map_or((100.0, false), |c| (c.0, c.2));
                ml.chars.push((x + 5.0, '”', b));
            }
            self.out.push(ml);
        }
    }
    pub fn elements(&mut self, kids: &[(String, Kids)], x: f64) {
        for (i, (h, k)) in kids.iter().enumerate() {
            let dx = if self.ba || i == 0 { 0.0 } else { *self.r.pick(&[0.0, 0.0, 0.75, -0.75, -2.0]) };
            self.kids(&format!("{h} "), k, x + dx, false);
            self.maybe_empty();
        }
    }
    pub fn article(&mut self, a: &Article, ax: f64) {
        let head = format!("{}.{}§ ", a.identifier, if self.r.chance(1, 12) { "" } else { " " });
        let px = ax + 5.0 * head.chars().count() as f64;
        let mut first = head.clone();
        if let Some(t) = &a.title {
            let b = Break { header_ok: false, no_bracket_end: true, article_ok: false };
            let lines = break_lines(self.r, t, self.width, &b);
            let n = lines.len();
            for (i, l) in lines.iter().enumerate() {
                let s = format!("{}{l}{}", if i == 0 { format!("{head}[") } else { String::new() }, if i + 1 == n { "]" } else { "" });
                let (x, j) = (if i == 0 { ax } else { px }, !self.ba);
                self.line(&s, if self.ba { ax } else { x }, false, j);
            }
            if self.r.chance(1, 6) {
                self.empty();
            }
            first = String::new();
        }
        for (i, p) in a.children.iter().enumerate() {
            let slash = self.slash_suffix;
            let k = par_kids(p, slash);
            let ph = if p.identifier.is_empty() { String::new() } else { format!("({}) ", p.identifier) };
            let dx = if self.ba || i == 0 { 0.0 } else { *self.r.pick(&[0.0, 0.0, 0.75, -0.75, -2.0]) };
            let start = self.out.len();
            self.free_quoted = true;
            if self.ba {
                self.kids(&format!("{first}{ph}"), &k, ax, ph.is_empty());
            } else {
                self.kids(&ph, &k, px + dx, ph.is_empty());
                if !first.is_empty() {
                    // put the article header in front of the first line
                    let l = &mut self.out[start];
                    let x0 = l.chars[0].0 - 5.0 * first.chars().count() as f64;
                    let bold = l.chars.len() > 40;
                    let mut h: Vec<_> = first.chars().enumerate().map(|(i, c)| (x0 + 5.0 * i as f64, c, bold)).collect();
                    h.append(&mut l.chars);
                    l.chars = h;
                }
            }
            self.free_quoted = false;
            first = String::new();
            self.maybe_empty();
        }
    }
    pub fn children(&mut self, v: &[ActChild], ax: f64) {
        let words = Break { header_ok: false, no_bracket_end: false, article_ok: false };
        for c in v {
            match c {
                ActChild::StructuralElement(se) => {
                    self.empty();
                    let h = se_header(self.r, se);
                    let bold = self.r.chance(1, 2);
                    self.line(&h, 200.0, bold, false);
                    if !se.title.is_empty() {
                        let b = !self.ba && self.r.chance(1, 2);
                        let w = self.width;
                        self.width = w.max(20);
                        self.texts("", &se.title, 150.0, 150.0, &words, b);
                        self.width = w;
                    }
                    if self.r.chance(1, 2) {
                        self.empty();
                    }
                }
                ActChild::Subtitle(st) => {
                    if !self.ba || self.r.chance(1, 2) {
                        self.empty();
                    }
                    let h = match &st.identifier {
                        Some(i) => format!("{}. ", i.with_slash()),
                        None => String::new(),
                    };
                    self.texts(&h, &st.title, 150.0, 150.0, &words, true);
                    if self.r.chance(1, 2) {
                        self.empty();
                    }
                }
                ActChild::Article(a) => {
                    let dx = if self.ba { 0.0 } else { *self.r.pick(&[0.0, 0.0, 0.5, -0.25]) };
                    if self.r.chance(1, 3) {
                        self.empty();
                    }
                    self.article(a, ax + dx);
                }
            }
        }
    }
}

pub fn se_header(r: &mut Rng, se: &StructuralElement) -> String {
    let s = se.identifier.to_string();
    let digits = s.chars().take_while(|c| c.is_ascii_digit()).count();
    let n: u32 = s[..digits].parse().unwrap_or(1);
    let suf = if digits < s.len() { format!("/{}", s[digits..].to_uppercase()) } else { String::new() };
    match se.element_type {
        StructuralElementType::Book => format!("{} KÖNYV", ordinal(n as usize).to_uppercase()),
        StructuralElementType::Part { is_special: false } => format!("{} RÉSZ", ordinal(n as usize).to_uppercase()),
        StructuralElementType::Part { is_special: true } => format!("{} RÉSZ", ["ÁLTALÁNOS", "KÜLÖNÖS", "ZÁRÓ"][(n - 1) as usize]),
        StructuralElementType::Title => format!("{}{suf}. CÍM", to_roman(n)),
        StructuralElementType::Chapter => format!("{}{suf}. {}", to_roman(n), r.pick(&["FEJEZET", "Fejezet", "fejezet"])),
    }
}

/// Read every observable of a real line into the model
pub fn model_of(l: &hun_law::util::indentedline::IndentedLine) -> MLine {
    MLine {
        chars: l.content().chars().enumerate().map(|(i, c)| (l.indent_at(i as i64), c, l.is_bold())).collect(),
        justified: l.is_justified(),
    }
}

pub fn typeset(r: &mut Rng, act: &Act) -> ActRawText {
    let ax = 40.0 + r.below(20) as f64;
    let mut ts = Ts::new(r, false);
    if !act.preamble.is_empty() {
        ts.texts("", &act.preamble, ax, ax, &Break { header_ok: false, no_bracket_end: false, article_ok: true }, false);
    }
    ts.children(&act.children, ax);
    ActRawText {
        identifier: act.identifier,
        subject: act.subject.clone(),
        publication_date: act.publication_date,
        body: ts.out.iter().map(|l| l.real()).collect(),
    }
}

pub fn show(raw: &ActRawText) -> String {
    raw.body
        .iter()
        .map(|l| format!("{:7.2} {}{} |{}", l.indent(), if l.is_bold() { 'B' } else { ' ' }, if l.is_justified() { 'J' } else { ' ' }, l.content()))
        .collect::<Vec<_>>()
        .join("\n")
}
