//! C08 identifier texts, C09 identifier order and succession, C10 Hungarian numerals and headers.
use std::collections::HashMap;
use std::fmt::Debug;

use chrono::NaiveDate;
use hun_law::{
    identifier::{
        range::{IdentifierRange, IdentifierRangeFrom},
        *,
    },
    structure::*,
    util::{
        compact_string::CompactString,
        hun_str::{text_to_month_hun, FromHungarianString, ToHungarianString},
        singleton_yaml,
    },
};
use serde::{de::DeserializeOwned, Serialize};

use crate::{
    mon::{Env, Mon},
    rng::Rng,
    Check,
};

/// The Hungarian identifier alphabet, in order: the reference model of letters.
pub const LETTERS: [&str; 34] = [
    "a", "b", "c", "cs", "d", "dz", "e", "f", "g", "gy", "h", "i", "j", "k", "l", "ly", "m", "n", "ny", "o", "p", "q",
    "r", "s", "sz", "t", "ty", "u", "v", "w", "x", "y", "z", "zs",
];

pub fn letter_cases(l: &str) -> Vec<String> {
    if l.len() == 1 {
        vec![l.to_string(), l.to_uppercase()]
    } else {
        let mut cap = l.to_string();
        cap[..1].make_ascii_uppercase();
        vec![l.to_string(), l.to_uppercase(), cap]
    }
}

/// Reference model of a numeric identifier
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MNum {
    pub num: u16,
    pub suf: Option<u8>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MArt {
    pub book: Option<u8>,
    pub id: MNum,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MPre {
    pub pre: Option<u8>,
    pub chr: u8,
}

fn mletter_next(a: u8, b: u8) -> bool {
    // a directly follows b in the Hungarian alphabet, or skips only the digraph of b's letter,
    // or is the documented 'p' -> 'r' exception.
    let (la, lb) = (LETTERS[a as usize], LETTERS[b as usize]);
    a == b + 1
        || (la.len() == 1 && lb.len() == 1 && la.as_bytes()[0] == lb.as_bytes()[0] + 1)
        || (la == "r" && lb == "p")
}

impl MNum {
    pub fn text(&self) -> String {
        format!("{}{}", self.num, self.suf.map(|s| LETTERS[s as usize]).unwrap_or(""))
    }
    pub fn slash(&self) -> String {
        match self.suf {
            Some(s) => format!("{}/{}", self.num, LETTERS[s as usize].to_uppercase()),
            None => self.num.to_string(),
        }
    }
    pub fn next_from(&self, o: &MNum) -> bool {
        match (self.suf, o.suf) {
            (None, _) => self.num as u32 == o.num as u32 + 1,
            (Some(s), None) => self.num == o.num && s == 0,
            (Some(s), Some(p)) => self.num == o.num && mletter_next(s, p),
        }
    }
    pub fn first(&self) -> bool {
        self.num == 1 && self.suf.is_none()
    }
}

impl MArt {
    pub fn text(&self) -> String {
        match self.book {
            Some(b) => format!("{}:{}", b, self.id.slash()),
            None => self.id.slash(),
        }
    }
    pub fn compact(&self) -> String {
        match self.book {
            Some(b) => format!("{}.{}", b, self.id.text()),
            None => self.id.text(),
        }
    }
    fn next_from(&self, o: &MArt) -> bool {
        match (self.book, o.book) {
            (None, None) => self.id.next_from(&o.id),
            (Some(a), Some(b)) if a == b => self.id.next_from(&o.id),
            (Some(a), Some(b)) => a as u32 == b as u32 + 1 && self.id.first(),
            _ => false,
        }
    }
    fn first(&self) -> bool {
        self.book.map_or(true, |b| b == 1) && self.id.first()
    }
}

impl MPre {
    pub fn text(&self) -> String {
        format!(
            "{}{}",
            self.pre.map(|s| LETTERS[s as usize]).unwrap_or(""),
            LETTERS[self.chr as usize]
        )
    }
}

pub fn gen_letter(r: &mut Rng) -> u8 {
    if r.chance(1, 2) {
        r.below(34) as u8
    } else if r.chance(1, 2) {
        r.below(4) as u8
    } else {
        *r.pick(&[3u8, 5, 9, 15, 18, 24, 26, 33, 32, 20, 21, 22])
    }
}
pub fn single_letters() -> Vec<u8> {
    (0..34u8).filter(|i| LETTERS[*i as usize].len() == 1).collect()
}
pub fn gen_num(r: &mut Rng) -> MNum {
    let num = match r.below(8) {
        0 => *r.pick(&[0u16, 1, 2, 9, 10, 11, 99, 100, 255, 256, 999, 1000, 32767, 32768, 65534, 65535]),
        1..=4 => r.range(1, 30) as u16,
        5 => r.range(1, 999) as u16,
        _ => r.range(0, 65535) as u16,
    };
    let suf = r.chance(1, 2).then(|| gen_letter(r));
    MNum { num, suf }
}
pub fn gen_art(r: &mut Rng) -> MArt {
    let book = r.chance(1, 3).then(|| match r.below(3) {
        0 => *r.pick(&[0u8, 1, 2, 9, 10, 254, 255]),
        1 => r.range(1, 8) as u8,
        _ => r.range(0, 255) as u8,
    });
    MArt { book, id: gen_num(r) }
}
pub fn gen_pre(r: &mut Rng) -> MPre {
    let s = single_letters();
    MPre {
        pre: r.chance(2, 3).then(|| *r.pick(&s)),
        chr: *r.pick(&s),
    }
}

pub fn to_roman(mut n: u32) -> String {
    let t = [
        (1000, "M"),
        (900, "CM"),
        (500, "D"),
        (400, "CD"),
        (100, "C"),
        (90, "XC"),
        (50, "L"),
        (40, "XL"),
        (10, "X"),
        (9, "IX"),
        (5, "V"),
        (4, "IV"),
        (1, "I"),
    ];
    let mut s = String::new();
    for (v, x) in t {
        while n >= v {
            n -= v;
            s.push_str(x);
        }
    }
    s
}

pub fn ordinal(n: usize) -> String {
    let ones = ["", "egyedik", "kettedik", "harmadik", "negyedik", "ötödik", "hatodik", "hetedik", "nyolcadik", "kilencedik"];
    let tens = ["", "tizen", "huszon", "harminc", "negyven", "ötven", "hatvan", "hetven", "nyolcvan", "kilencven"];
    let round = ["", "tizedik", "huszadik", "harmincadik", "negyvenedik", "ötvenedik", "hatvanadik", "hetvenedik", "nyolcvanadik", "kilencvenedik", "századik"];
    match n {
        0 => "nulladik".into(),
        1 => "első".into(),
        2 => "második".into(),
        n if n % 10 == 0 => round[n / 10].into(),
        n => format!("{}{}", tens[n / 10], ones[n % 10]),
    }
}

// ------------------------------------------------------------------ C08

/// All the text forms of a value must come back as the same value.
fn all_forms<T>(m: &mut Mon, what: &str, v: &T, display: &str, compact: &str, from_disp: impl Fn(&str) -> anyhow::Result<T>)
where
    T: PartialEq + Debug + CompactString + Serialize + DeserializeOwned,
{
    m.observe(&(what, display), true);
    match m.no_panic(&format!("{what}:compact"), || display.to_string(), || v.compact_string().to_string()) {
        None => return,
        Some(c) => {
            m.eq(&c.as_str(), &compact, &format!("{what}:compact_text"), || display.to_string());
            match T::from_compact_string(&c) {
                Ok(b) => {
                    m.eq(&b, v, &format!("{what}:compact_roundtrip"), || c.clone());
                }
                Err(e) => m.fail(&format!("{what}:compact_rejected"), format!("{c}: {e}")),
            }
        }
    }
    match from_disp(display) {
        Ok(b) => {
            m.eq(&b, v, &format!("{what}:display_roundtrip"), || display.to_string());
        }
        Err(e) => m.fail(&format!("{what}:display_rejected"), format!("{display}: {e}")),
    }
    serde_forms(m, what, v, display);
}

pub fn serde_forms<T>(m: &mut Mon, what: &str, v: &T, ctx: &str)
where
    T: PartialEq + Debug + Serialize + DeserializeOwned,
{
    match serde_json::to_string(v) {
        Ok(s) => match serde_json::from_str::<T>(&s) {
            Ok(b) => {
                m.eq(&b, v, &format!("{what}:json_roundtrip"), || format!("{ctx} -> {s}"));
            }
            Err(e) => m.fail(&format!("{what}:json_rejected"), format!("{ctx} -> {s}: {e}")),
        },
        Err(e) => m.fail(&format!("{what}:json_ser"), format!("{ctx}: {e}")),
    }
    match singleton_yaml::to_string(v) {
        Ok(s) => match singleton_yaml::from_str::<T>(&s) {
            Ok(b) => {
                m.eq(&b, v, &format!("{what}:yaml_roundtrip"), || format!("{ctx} -> {s}"));
            }
            Err(e) => m.fail(&format!("{what}:yaml_rejected"), format!("{ctx} -> {s}: {e}")),
        },
        Err(e) => m.fail(&format!("{what}:yaml_ser"), format!("{ctx}: {e}")),
    }
}

fn parse_num(m: &mut Mon, x: &MNum) -> Option<NumericIdentifier> {
    // every accepted spelling
    let mut forms = vec![x.text(), x.slash()];
    if let Some(s) = x.suf {
        for c in letter_cases(LETTERS[s as usize]) {
            forms.push(format!("{}{}", x.num, c));
            forms.push(format!("{}/{}", x.num, c));
        }
    }
    let mut first = None;
    for f in forms {
        match m.no_panic("numeric:parse", || f.clone(), || f.parse::<NumericIdentifier>()) {
            Some(Ok(v)) => match first {
                None => first = Some(v),
                Some(p) => {
                    m.eq(&v, &p, "numeric:spelling", || f.clone());
                }
            },
            Some(Err(e)) => m.fail("numeric:rejected", format!("{f}: {e}")),
            None => {}
        }
    }
    if let Some(v) = first {
        m.eq(&v.to_string(), &x.text(), "numeric:display", || format!("{x:?}"));
        m.eq(&v.with_slash().to_string(), &x.slash(), "numeric:slash", || format!("{x:?}"));
        m.eq(&format!("{v:?}"), &x.text(), "numeric:debug", || format!("{x:?}"));
        m.eq(&String::from(v), &x.text(), "numeric:string", || format!("{x:?}"));
        if x.suf.is_none() {
            m.eq(&v, &NumericIdentifier::from(x.num), "numeric:from_u16", || format!("{x:?}"));
        }
    }
    first
}

fn malformed(r: &mut Rng) -> String {
    // a well formed identifier with one edit, or random garbage over a nasty alphabet
    let base = match r.below(4) {
        0 => gen_num(r).text(),
        1 => gen_art(r).text(),
        2 => gen_art(r).compact(),
        _ => gen_pre(r).text(),
    };
    let alpha: Vec<char> = "0129/:.-aAbzZcsCSdygzűÁé §)( \u{0}\u{301}_,;I".chars().collect();
    let mut cs: Vec<char> = base.chars().collect();
    for _ in 0..r.range(1, 3) {
        let p = r.below(cs.len() + 1);
        match r.below(3) {
            0 => cs.insert(p, *r.pick(&alpha)),
            1 if p < cs.len() => {
                cs.remove(p);
            }
            _ if p < cs.len() => cs[p] = *r.pick(&alpha),
            _ => cs.push(*r.pick(&alpha)),
        }
    }
    cs.into_iter().collect()
}

/// Reference acceptor of one letter: Some(index)
fn acc_letter(s: &str) -> Option<u8> {
    LETTERS.iter().position(|l| letter_cases(l).iter().any(|c| c == s)).map(|p| p as u8)
}
/// Reference acceptor of a numeric identifier. None: malformed. Leading zeros are not judged.
fn acc_num(s: &str) -> Option<MNum> {
    let digits: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
    if digits.is_empty() {
        return None;
    }
    let rest = &s[digits.len()..];
    let num: u16 = digits.parse::<u128>().ok()?.try_into().ok()?;
    if rest.is_empty() {
        return Some(MNum { num, suf: None });
    }
    let rest = rest.strip_prefix('/').unwrap_or(rest);
    Some(MNum { num, suf: Some(acc_letter(rest)?) })
}
fn acc_art(s: &str, sep: char) -> Option<MArt> {
    if let Some((b, i)) = s.split_once(sep) {
        if b.is_empty() || !b.chars().all(|c| c.is_ascii_digit()) {
            return None;
        }
        Some(MArt { book: Some(b.parse::<u128>().ok()?.try_into().ok()?), id: acc_num(i)? })
    } else {
        Some(MArt { book: None, id: acc_num(s)? })
    }
}

fn c08(env: &Env, m: &mut Mon) {
    // Letters: exhaustive
    env.suite(m, "letters", 1, |_, m| {
        for (i, l) in LETTERS.iter().enumerate() {
            let v: AlphabeticIdentifier = match l.parse() {
                Ok(v) => v,
                Err(e) => {
                    m.fail("alphabetic:rejected", format!("{l}: {e}"));
                    continue;
                }
            };
            for c in letter_cases(l) {
                match c.parse::<AlphabeticIdentifier>() {
                    Ok(x) => {
                        m.eq(&x, &v, "alphabetic:case", || c.clone());
                    }
                    Err(e) => m.fail("alphabetic:rejected", format!("{c}: {e}")),
                }
            }
            m.eq(&v.to_string().as_str(), l, "alphabetic:display", || l.to_string());
            m.eq(&v.to_uppercase().to_string(), &l.to_uppercase(), "alphabetic:upper", || l.to_string());
            all_forms(m, "alphabetic", &v, l, l, |s| s.parse());
            for (j, l2) in LETTERS.iter().enumerate() {
                if i != j {
                    if let Ok(w) = l2.parse::<AlphabeticIdentifier>() {
                        m.check(w != v, "alphabetic:collision", || format!("{l} {l2}"));
                    }
                }
            }
        }
        for c in (0u32..0x3000).filter_map(char::from_u32) {
            let s = c.to_string();
            m.observe(&("char", c), true);
            let want = acc_letter(&s).is_some();
            let got = m.no_panic("alphabetic:parse", || s.clone(), || s.parse::<AlphabeticIdentifier>().is_ok());
            if let Some(got) = got {
                m.eq(&got, &want, "alphabetic:accept", || format!("{c:?}"));
            }
            let got = m.no_panic("alphabetic:try_from", || s.clone(), || AlphabeticIdentifier::try_from(c).is_ok());
            if let Some(got) = got {
                m.eq(&got, &want, "alphabetic:accept_char", || format!("{c:?}"));
            }
        }
        // every two-letter string: only the digraphs are letters, all pairs are prefixed identifiers
        let az: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
        for a in &az {
            for b in &az {
                let s = format!("{a}{b}");
                m.observe(&s, true);
                m.eq(&s.parse::<AlphabeticIdentifier>().is_ok(), &acc_letter(&s).is_some(), "alphabetic:accept2", || s.clone());
                match s.parse::<PrefixedAlphabeticIdentifier>() {
                    Ok(v) => {
                        let l = s.to_lowercase();
                        m.eq(&v.to_string(), &l, "prefixed:display", || s.clone());
                        m.eq(&v.get_prefix().map(|p| p.to_string()), &Some(a.to_ascii_lowercase().to_string()), "prefixed:prefix", || s.clone());
                        m.check(v.prefix_is(v.get_prefix()) && !v.prefix_is(None), "prefixed:prefix_is", || s.clone());
                        all_forms(m, "prefixed", &v, &l, &l, |s| s.parse());
                    }
                    Err(e) => m.fail("prefixed:rejected", format!("{s}: {e}")),
                }
            }
            let s = a.to_string();
            match s.parse::<PrefixedAlphabeticIdentifier>() {
                Ok(v) => {
                    let l = s.to_lowercase();
                    m.eq(&v.get_prefix(), &None, "prefixed:prefix", || s.clone());
                    all_forms(m, "prefixed", &v, &l, &l, |s| s.parse());
                }
                Err(e) => m.fail("prefixed:rejected", format!("{s}: {e}")),
            }
        }
    });
    // Numbers: every u16 once without suffix, and with a few suffixes
    env.suite(m, "numbers", 64, |r, m| {
        let lo = m.case * 1024;
        let mut seen: HashMap<String, MNum> = HashMap::new();
        for num in lo..lo + 1024 {
            let mut sufs = vec![None, Some(r.below(34) as u8)];
            if num % 256 < 4 {
                sufs.extend((0..34).map(Some));
            }
            for suf in sufs {
                let x = MNum { num: num as u16, suf };
                if let Some(v) = parse_num(m, &x) {
                    m.sample(|| format!("{x:?} -> {v} / {}", v.with_slash()));
                    all_forms(m, "numeric", &v, &x.text(), &x.text(), |s| s.parse());
                    let p = ParagraphIdentifier::from(v);
                    m.eq(&p.to_string(), &x.text(), "paragraph:display", || x.text());
                    m.eq(&p.is_empty(), &false, "paragraph:is_empty", || x.text());
                    all_forms(m, "paragraph", &p, &x.text(), &x.text(), |s| s.parse());
                    if let Some(o) = seen.insert(v.to_string(), x) {
                        m.check(o == x, "numeric:collision", || format!("{o:?} {x:?}"));
                    }
                }
            }
        }
    });
    env.suite(m, "articles", env.n(2000, 20000), |r, m| {
        for _ in 0..20 {
            let x = gen_art(r);
            match x.text().parse::<ArticleIdentifier>() {
                Ok(v) => {
                    m.eq(&v.to_string(), &x.text(), "article:display", || format!("{x:?}"));
                    m.eq(&String::from(v), &x.text(), "article:string", || format!("{x:?}"));
                    if let Ok(id) = x.id.text().parse::<NumericIdentifier>() {
                        m.eq(&ArticleIdentifier::from_book_and_id(x.book, id), &v, "article:from_book_and_id", || x.text());
                    }
                    all_forms(m, "article", &v, &x.text(), &x.compact(), |s| s.parse());
                    let low = x.text().to_lowercase();
                    m.eq(&low.parse::<ArticleIdentifier>().ok(), &Some(v), "article:lowercase", || low.clone());
                    m.sample(|| format!("{x:?} -> {v} / {}", v.compact_string()));
                }
                Err(e) => m.fail("article:rejected", format!("{}: {e}", x.text())),
            }
        }
    });
    env.suite(m, "empty", 1, |_, m| {
        let p = ParagraphIdentifier::default();
        m.check(p.is_empty() && p.to_string().is_empty(), "paragraph:empty", String::new);
        all_forms(m, "paragraph", &p, "", "", |s| s.parse());
        let o: Option<NumericIdentifier> = None;
        m.eq(&o.compact_string().to_string().as_str(), &"", "option:compact", String::new);
        m.eq(&Option::<NumericIdentifier>::from_compact_string("").ok(), &Some(None), "option:compact_parse", String::new);
        m.check("".parse::<NumericIdentifier>().is_err(), "numeric:accept_empty", String::new);
        m.check("".parse::<ArticleIdentifier>().is_err(), "article:accept_empty", String::new);
        m.check("".parse::<AlphabeticIdentifier>().is_err(), "alphabetic:accept_empty", String::new);
        m.check("".parse::<PrefixedAlphabeticIdentifier>().is_err(), "prefixed:accept_empty", String::new);
    });
    // Act identifiers: all numbers 1..=3999
    env.suite(m, "acts", 3999, |r, m| {
        let number = m.case as i32 + 1;
        let year = match r.below(3) {
            0 => *r.pick(&[1000i16, 1990, 1999, 2000, 2009, 2010, 2013, 9999]),
            1 => r.range(1900, 2030) as i16,
            _ => r.range(1000, 9999) as i16,
        };
        let v = ActIdentifier { year, number };
        let disp = format!("{year}. évi {}. törvény", to_roman(number as u32));
        if let Some(d) = m.no_panic("act:display", || format!("{v:?}"), || v.to_string()) {
            m.eq(&d, &disp, "act:display", || format!("{v:?}"));
        }
        all_forms(m, "act", &v, &disp, &format!("{year}.{number}"), |s| s.parse());
        for sep in ["/", "_", ".", "-"] {
            let s = format!("{year}{sep}{number}");
            m.eq(&s.parse::<ActIdentifier>().ok(), &Some(v), "act:decimal", || s.clone());
        }
        m.sample(|| disp.clone());
    });
    // Ranges
    env.suite(m, "ranges", env.n(3000, 30000), |r, m| {
        fn one<T: IdentifierCommon + Serialize + DeserializeOwned + Debug + std::fmt::Display>(m: &mut Mon, what: &str, a: T, b: T) {
            let (s, e) = if a <= b { (a, b) } else { (b, a) };
            let v = IdentifierRange::from_range(s, e);
            let ctx = format!("{s}..{e}");
            m.observe(&(what, &ctx), true);
            m.eq(&v.first_in_range(), &s, &format!("{what}:first"), || ctx.clone());
            m.eq(&v.last_in_range(), &e, &format!("{what}:last"), || ctx.clone());
            m.eq(&v.is_range(), &(s != e), &format!("{what}:is_range"), || ctx.clone());
            let want = if s == e {
                s.compact_string().to_string()
            } else {
                format!("{}-{}", s.compact_string(), e.compact_string())
            };
            let c = v.compact_string().to_string();
            m.eq(&c, &want, &format!("{what}:compact_text"), || ctx.clone());
            match IdentifierRange::<T>::from_compact_string(&c) {
                Ok(b) => {
                    m.eq(&b, &v, &format!("{what}:compact_roundtrip"), || c.clone());
                }
                Err(e) => m.fail(&format!("{what}:compact_rejected"), format!("{c}: {e}")),
            }
            serde_forms(m, what, &v, &ctx);
            let single: IdentifierRange<T> = IdentifierRangeFrom::from_single(s);
            m.check(!single.is_range() && single.first_in_range() == s && single.last_in_range() == s, &format!("{what}:single"), || ctx.clone());
        }
        for _ in 0..5 {
            let (a, b) = (gen_num(r), gen_num(r));
            if let (Ok(a), Ok(b)) = (a.text().parse::<NumericIdentifier>(), b.text().parse()) {
                one(m, "range_numeric", a, b);
                one(m, "range_numeric", a, a);
            }
            let (a, b) = (gen_art(r), gen_art(r));
            if let (Ok(a), Ok(b)) = (a.text().parse::<ArticleIdentifier>(), b.text().parse()) {
                one(m, "range_article", a, b);
            }
            let (a, b) = (gen_pre(r), gen_pre(r));
            if let (Ok(a), Ok(b)) = (a.text().parse::<PrefixedAlphabeticIdentifier>(), b.text().parse()) {
                one(m, "range_prefixed", a, b);
            }
            let (a, b) = (gen_letter(r), gen_letter(r));
            if let (Ok(a), Ok(b)) = (LETTERS[a as usize].parse::<AlphabeticIdentifier>(), LETTERS[b as usize].parse()) {
                one(m, "range_alphabetic", a, b);
            }
        }
    });
    // Acceptance: the parsers agree with the reference acceptor on near-miss strings
    env.suite(m, "near_miss", env.n(40000, 600000), |r, m| {
        let s = malformed(r);
        m.observe(&s, true);
        let zeros = s.split([':', '.']).any(|p| p.len() > 1 && p.starts_with('0') && p.as_bytes()[1].is_ascii_digit());
        if zeros {
            return;
        }
        let ctx = format!("{s:?}");
        if let Some(g) = m.no_panic("numeric:parse", || ctx.clone(), || s.parse::<NumericIdentifier>().ok().map(|v| v.to_string())) {
            m.eq(&g, &acc_num(&s).map(|x| x.text()), "numeric:accept", || ctx.clone());
        }
        if let Some(g) = m.no_panic("article:parse", || ctx.clone(), || s.parse::<ArticleIdentifier>().ok().map(|v| v.to_string())) {
            m.eq(&g, &acc_art(&s, ':').map(|x| x.text()), "article:accept", || ctx.clone());
        }
        if let Some(g) = m.no_panic("article:compact_parse", || ctx.clone(), || ArticleIdentifier::from_compact_string(&s).ok().map(|v| v.to_string())) {
            m.eq(&g, &acc_art(&s, '.').map(|x| x.text()), "article:compact_accept", || ctx.clone());
        }
        if let Some(g) = m.no_panic("paragraph:parse", || ctx.clone(), || s.parse::<ParagraphIdentifier>().ok().map(|v| v.to_string())) {
            let want = if s.is_empty() { Some(String::new()) } else { acc_num(&s).map(|x| x.text()) };
            m.eq(&g, &want, "paragraph:accept", || ctx.clone());
        }
        if let Some(g) = m.no_panic("alphabetic:parse", || ctx.clone(), || s.parse::<AlphabeticIdentifier>().ok().map(|v| v.to_string())) {
            m.eq(&g, &acc_letter(&s).map(|x| LETTERS[x as usize].to_string()), "alphabetic:accept", || ctx.clone());
        }
        if let Some(g) = m.no_panic("prefixed:parse", || ctx.clone(), || s.parse::<PrefixedAlphabeticIdentifier>().ok().map(|v| v.to_string())) {
            let n = s.chars().count();
            let want = ((1..=2).contains(&n) && s.chars().all(|c| c.is_ascii_alphabetic())).then(|| s.to_lowercase());
            m.eq(&g, &want, "prefixed:accept", || ctx.clone());
        }
    });
    // strings that name no act at all
    env.suite(m, "act_near_miss", env.n(5000, 50000), |r, m| {
        let y = r.range(1000, 9999);
        let n = r.range(1, 400);
        let s = match r.below(8) {
            0 => format!("{y}"),
            1 => format!("{y} {n}"),
            2 => format!("{}/{n}", y % 1000),
            3 => format!("{y}. évi {}. rendelet", to_roman(n as u32)),
            4 => format!("{y}. {}. törvény", to_roman(n as u32)),
            5 => format!("{y}. évi . törvény"),
            6 => format!("{}. évi {n}. törvény", y),
            _ => format!("{y}. évi {}. törvény", to_roman(n as u32).to_lowercase()),
        };
        m.observe(&s, true);
        m.check(s.parse::<ActIdentifier>().is_err(), "act:accept", || s.clone());
        for s in [format!("{y}"), format!("{y}."), format!(".{n}"), format!("{y}.x"), format!("{y}.{n}.1"), format!("{y}/{n}"), String::new()] {
            m.check(ActIdentifier::from_compact_string(&s).is_err(), "act:compact_accept", || s.clone());
        }
    });
}

// ------------------------------------------------------------------ C09

fn c09(env: &Env, m: &mut Mon) {
    fn pair<T: IdentifierCommon>(m: &mut Mon, what: &str, a: T, b: T, ord: std::cmp::Ordering, next: bool, ctx: &dyn Fn() -> String) {
        m.observe(&(what, a.compact_string().to_string(), b.compact_string().to_string()), true);
        m.eq(&a.cmp(&b), &ord, &format!("{what}:order"), ctx);
        m.eq(&a.partial_cmp(&b), &Some(ord), &format!("{what}:partial_order"), ctx);
        m.eq(&(a == b), &(ord == std::cmp::Ordering::Equal), &format!("{what}:equality"), ctx);
        if let Some(g) = m.no_panic(&format!("{what}:next"), ctx, || a.is_next_from(b)) {
            m.eq(&g, &next, &format!("{what}:successor"), ctx);
            if g {
                m.count("successor_pairs", 1);
                m.check(a > b, &format!("{what}:successor_not_greater"), ctx);
            }
        }
    }
    env.suite(m, "letters_exhaustive", 1, |_, m| {
        for i in 0..34u8 {
            let a: AlphabeticIdentifier = LETTERS[i as usize].parse().unwrap();
            m.eq(&a.is_first(), &(i == 0), "alphabetic:first", || LETTERS[i as usize].into());
            m.eq(&a.is_empty(), &false, "alphabetic:is_empty", || LETTERS[i as usize].into());
            for j in 0..34u8 {
                let b: AlphabeticIdentifier = LETTERS[j as usize].parse().unwrap();
                let ctx = || format!("{} vs {}", LETTERS[i as usize], LETTERS[j as usize]);
                pair(m, "alphabetic", a, b, i.cmp(&j), mletter_next(i, j), &ctx);
                for n in [0u16, 1, 12, 65535] {
                    let (x, y) = (MNum { num: n, suf: Some(i) }, MNum { num: n, suf: Some(j) });
                    let (p, q) = (x.text().parse::<NumericIdentifier>().unwrap(), y.text().parse::<NumericIdentifier>().unwrap());
                    pair(m, "numeric", p, q, x.cmp(&y), x.next_from(&y), &|| format!("{x:?} {y:?}"));
                }
            }
        }
    });
    env.suite(m, "prefixed_exhaustive", 702, |_, m| {
        let s = single_letters();
        let all: Vec<MPre> = std::iter::once(None)
            .chain(s.iter().copied().map(Some))
            .flat_map(|pre| s.iter().map(move |c| MPre { pre, chr: *c }))
            .collect();
        let x = all[m.case as usize];
        let a: PrefixedAlphabeticIdentifier = x.text().parse().unwrap();
        m.eq(&a.is_first(), &(x.chr == 0), "prefixed:first", || x.text());
        for y in &all {
            let b: PrefixedAlphabeticIdentifier = y.text().parse().unwrap();
            let next = x.pre == y.pre && mletter_next(x.chr, y.chr);
            pair(m, "prefixed", a, b, x.cmp(y), next, &|| format!("{} vs {}", x.text(), y.text()));
        }
    });
    env.suite(m, "numeric_sequence", 64, |_, m| {
        let lo = m.case * 1024;
        for n in lo..lo + 1024 {
            let n = n as u16;
            let v = NumericIdentifier::from(n);
            m.eq(&v.is_first(), &(n == 1), "numeric:first", || n.to_string());
            for d in [0u16, 1, 2, 3, 10, 256, 65535, 65534, 65280] {
                let o = n.wrapping_add(d);
                let (x, y) = (MNum { num: o, suf: None }, MNum { num: n, suf: None });
                pair(m, "numeric", NumericIdentifier::from(o), v, x.cmp(&y), x.next_from(&y), &|| format!("{o} vs {n}"));
            }
        }
    });
    env.suite(m, "numeric_pairs", env.n(40000, 500000), |r, m| {
        let x = gen_num(r);
        let mut y = gen_num(r);
        match r.below(5) {
            0 => y.num = x.num,
            1 => y.num = x.num.wrapping_add(1),
            2 => y.num = x.num.wrapping_sub(1),
            3 => y = MNum { num: x.num.wrapping_sub(1), suf: y.suf },
            _ => {}
        }
        let (a, b): (NumericIdentifier, NumericIdentifier) = (x.text().parse().unwrap(), y.text().parse().unwrap());
        let ctx = || format!("{} vs {}", x.text(), y.text());
        pair(m, "numeric", a, b, x.cmp(&y), x.next_from(&y), &ctx);
        m.eq(&a.is_first(), &x.first(), "numeric:first", || x.text());
        m.sample(|| format!("{} cmp {} = {:?}, next = {}", a, b, a.cmp(&b), a.is_next_from(b)));
        // paragraphs behave as the number they carry; the missing one is before all, follows nothing
        let (pa, pb) = (ParagraphIdentifier::from(a), ParagraphIdentifier::from(b));
        pair(m, "paragraph", pa, pb, x.cmp(&y), x.next_from(&y), &ctx);
        m.eq(&pa.is_first(), &x.first(), "paragraph:first", || x.text());
        let none = ParagraphIdentifier::default();
        m.check(!none.is_first() && !pa.is_next_from(none) && !none.is_next_from(pa) && none < pa, "paragraph:none", ctx);
        // articles
        let (mut p, mut q) = (gen_art(r), gen_art(r));
        if r.chance(1, 2) {
            p.id = x;
            q.id = y;
            if r.chance(1, 2) {
                q.book = p.book;
            } else if let Some(b) = p.book {
                q.book = Some(b.wrapping_add(*r.pick(&[1u8, 255, 2])));
                if r.chance(1, 2) {
                    p.id = MNum { num: 1, suf: None };
                }
            }
        }
        let (a, b): (ArticleIdentifier, ArticleIdentifier) = (p.text().parse().unwrap(), q.text().parse().unwrap());
        pair(m, "article", a, b, p.cmp(&q), p.next_from(&q), &|| format!("{} vs {}", p.text(), q.text()));
        pair(m, "article", b, a, q.cmp(&p), q.next_from(&p), &|| format!("{} vs {}", q.text(), p.text()));
        m.eq(&a.is_first(), &p.first(), "article:first", || p.text());
        // ranges contain exactly what lies between their ends
        let z = gen_num(r);
        let (lo, hi) = if x <= y { (x, y) } else { (y, x) };
        let rng = IdentifierRange::from_range(lo.text().parse::<NumericIdentifier>().unwrap(), hi.text().parse().unwrap());
        for w in [z, lo, hi, MNum { num: lo.num, suf: z.suf }, MNum { num: hi.num, suf: z.suf }] {
            m.eq(&rng.contains(w.text().parse().unwrap()), &(lo <= w && w <= hi), "range:contains", || format!("{}-{} has {}", lo.text(), hi.text(), w.text()));
        }
    });
    env.suite(m, "act_order", env.n(5000, 50000), |r, m| {
        let a = ActIdentifier { year: r.range(1990, 2025) as i16, number: r.range(1, 300) as i32 };
        let b = ActIdentifier { year: if r.chance(1, 2) { a.year } else { r.range(1990, 2025) as i16 }, number: r.range(1, 300) as i32 };
        m.observe(&(a.year, a.number, b.year, b.number), true);
        m.eq(&a.cmp(&b), &(a.year, a.number).cmp(&(b.year, b.number)), "act:order", || format!("{a} {b}"));
    });
}

// ------------------------------------------------------------------ C10

fn c10(env: &Env, m: &mut Mon) {
    let months = ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"];
    env.suite(m, "ordinals", 1, |_, m| {
        for n in 0..=100usize {
            let w = ordinal(n);
            m.observe(&("ordinal", n), true);
            m.sample(|| format!("{n} {w}"));
            m.eq(&(n as u16).to_hungarian().ok(), &Some(w.as_str()), "ordinal:print16", || n.to_string());
            m.eq(&(n as u8).to_hungarian().ok(), &Some(w.as_str()), "ordinal:print8", || n.to_string());
            m.eq(&NumericIdentifier::from(n as u16).to_hungarian().ok(), &Some(w.clone()), "ordinal:print_id", || n.to_string());
            for (k, l) in LETTERS.iter().enumerate() {
                let id: NumericIdentifier = MNum { num: n as u16, suf: Some(k as u8) }.text().parse().unwrap();
                if let Ok(t) = id.to_hungarian() {
                    m.eq(&t.to_lowercase(), &format!("{w}/{l}").to_lowercase(), "ordinal:print_suffix", || id.to_string());
                }
            }
            let mut cap: Vec<char> = w.chars().collect();
            let first: String = cap.remove(0).to_uppercase().collect();
            let cap = first + &cap.into_iter().collect::<String>();
            for s in [w.clone(), w.to_uppercase(), cap] {
                m.eq(&u16::from_hungarian(&s).ok(), &Some(n as u16), "ordinal:parse16", || s.clone());
                m.eq(&u8::from_hungarian(&s).ok(), &Some(n as u8), "ordinal:parse8", || s.clone());
                for bad in [format!("{s} "), format!(" {s}"), format!("{s}k"), s.chars().skip(1).collect::<String>()] {
                    m.check(u16::from_hungarian(&bad).is_err() || (0..=100).any(|k| ordinal(k).to_lowercase() == bad.to_lowercase()), "ordinal:accept", || bad.clone());
                }
            }
        }
        for n in 101..=65535u16 {
            m.check(n.to_hungarian().is_err(), "ordinal:out_of_range", || n.to_string());
        }
        for n in 101..=255u8 {
            m.check(n.to_hungarian().is_err(), "ordinal:out_of_range8", || n.to_string());
        }
        for bad in ["", "x", "egyedik", "kettedik", "tíz", "első második", "százegyedik"] {
            m.check(u16::from_hungarian(bad).is_err(), "ordinal:accept", || bad.to_string());
        }
        for (i, mon) in months.iter().enumerate() {
            m.eq(&text_to_month_hun(mon).ok(), &Some(i as u8 + 1), "month:parse", || mon.to_string());
            m.observe(mon, true);
        }
        for bad in ["", "januar", "jan", "decembe", "december ", "1"] {
            m.check(text_to_month_hun(bad).is_err(), "month:accept", || bad.to_string());
        }
    });
    env.suite(m, "roman", 3999, |r, m| {
        let n = m.case as u16 + 1;
        let want = to_roman(n as u32);
        m.observe(&("roman", n), true);
        let id = NumericIdentifier::from(n);
        m.eq(&id.to_roman().ok(), &Some(want.clone()), "roman:print", || n.to_string());
        m.eq(&NumericIdentifier::from_roman(&want).ok(), &Some(id), "roman:parse", || want.clone());
        let x = MNum { num: n, suf: Some(gen_letter(r)) };
        let id: NumericIdentifier = x.text().parse().unwrap();
        match id.to_roman() {
            Ok(t) => {
                m.eq(&NumericIdentifier::from_roman(&t).ok(), &Some(id), "roman:suffix_roundtrip", || t.clone());
                // the letter may be separated by a slash, in either case
                let l = LETTERS[x.suf.unwrap() as usize];
                for c in letter_cases(l) {
                    let t = format!("{want}/{c}");
                    m.eq(&NumericIdentifier::from_roman(&t).ok(), &Some(id), "roman:suffix_parse", || t.clone());
                }
            }
            Err(e) => m.fail("roman:suffix_print", format!("{x:?}: {e}")),
        }
    });
    env.suite(m, "roman_bad", env.n(3000, 30000), |r, m| {
        let n = r.range(1, 3999) as u32;
        let base = to_roman(n);
        let s = match r.below(6) {
            0 => String::new(),
            1 => format!("{base}/"),
            2 => format!("{base}//a"),
            3 => format!("{base}/aa"),
            4 => format!("a{base}"),
            _ => format!("{base} "),
        };
        m.observe(&s, true);
        if let Some(g) = m.no_panic("roman:parse", || s.clone(), || NumericIdentifier::from_roman(&s).is_err()) {
            m.check(g, "roman:accept", || s.clone());
        }
    });
    env.suite(m, "structural_headers", 4200, |r, m| {
        // header text -> identifier -> header text, for every numbering a header may carry
        let n = m.case as u16;
        let mut list = vec![];
        if n <= 100 {
            let o = ordinal(n as usize).to_uppercase();
            list.push((StructuralElementType::Book, format!("{o} KÖNYV"), " KÖNYV"));
            list.push((StructuralElementType::Part { is_special: false }, format!("{o} RÉSZ"), " RÉSZ"));
        }
        if (1..=3).contains(&n) {
            let w = ["ÁLTALÁNOS", "KÜLÖNÖS", "ZÁRÓ"][n as usize - 1];
            list.push((StructuralElementType::Part { is_special: true }, format!("{w} RÉSZ"), " RÉSZ"));
        }
        if (1..=3999).contains(&n) {
            list.push((StructuralElementType::Title, format!("{}. CÍM", to_roman(n as u32)), ". CÍM"));
            list.push((StructuralElementType::Chapter, format!("{}. FEJEZET", to_roman(n as u32)), ". FEJEZET"));
        }
        for (element_type, text, tail) in list {
            m.observe(&text, true);
            let se = StructuralElement { identifier: n.into(), title: "x".into(), element_type, last_change: None };
            match m.no_panic("header:print", || text.clone(), || se.header_string()) {
                Some(Ok(h)) => {
                    m.eq(&h, &text, "header:text", || format!("{se:?}"));
                    let word = h.strip_suffix(tail).unwrap_or("");
                    m.eq(&element_type.parse_identifier(word).ok(), &Some(NumericIdentifier::from(n)), "header:roundtrip", || h.clone());
                }
                Some(Err(e)) => m.fail("header:print", format!("{text}: {e}")),
                None => {}
            }
            if matches!(element_type, StructuralElementType::Title | StructuralElementType::Chapter) {
                let x = MNum { num: n, suf: Some(gen_letter(r)) };
                let se = StructuralElement { identifier: x.text().parse().unwrap(), ..se };
                match se.header_string() {
                    Ok(h) => {
                        let word = h.strip_suffix(tail).unwrap_or("");
                        m.eq(&element_type.parse_identifier(word).ok(), &Some(se.identifier), "header:suffix_roundtrip", || h.clone());
                    }
                    Err(e) => m.fail("header:suffix_print", format!("{x:?}: {e}")),
                }
            }
        }
        // out of range numbers give an error, never a wrong or empty header
        if n > 100 {
            for t in [StructuralElementType::Book, StructuralElementType::Part { is_special: false }] {
                let se = StructuralElement { identifier: n.into(), title: "x".into(), element_type: t, last_change: None };
                if let Some(r) = m.no_panic("header:range", || n.to_string(), || se.header_string().is_err()) {
                    m.check(r, "header:out_of_range", || format!("{se:?}"));
                }
            }
        }
        if !(1..=3).contains(&n) {
            let se = StructuralElement { identifier: n.into(), title: "x".into(), element_type: StructuralElementType::Part { is_special: true }, last_change: None };
            if let Some(r) = m.no_panic("header:range", || n.to_string(), || se.header_string().is_err()) {
                m.check(r, "header:out_of_range", || format!("{se:?}"));
            }
        }
        // articles and what is below
        let x = gen_num(r);
        let id: NumericIdentifier = x.text().parse().unwrap();
        let a = gen_art(r);
        let art = Article { identifier: a.text().parse().unwrap(), title: None, children: vec![], last_change: None };
        m.eq(&art.header_string(), &format!("{}. §", a.text()), "header:article", || a.text());
        let p = Paragraph { identifier: id.into(), body: "t".into(), semantic_info: Default::default(), last_change: None };
        m.eq(&p.header_string(), &format!("({})", x.text()), "header:paragraph", || x.text());
        let p = Paragraph { identifier: Default::default(), ..p };
        m.eq(&p.header_string(), &String::new(), "header:paragraph_none", || x.text());
        let p = NumericPoint { identifier: id, body: "t".into(), semantic_info: Default::default(), last_change: None };
        m.eq(&p.header_string(), &format!("{}.", x.text()), "header:numeric_point", || x.text());
        let p = NumericSubpoint { identifier: id, body: "t".into(), semantic_info: Default::default(), last_change: None };
        m.eq(&p.header_string(), &format!("{}.", x.text()), "header:numeric_subpoint", || x.text());
        let l = LETTERS[gen_letter(r) as usize];
        let p = AlphabeticPoint { identifier: l.parse().unwrap(), body: "t".into(), semantic_info: Default::default(), last_change: None };
        m.eq(&p.header_string(), &format!("{l})"), "header:alphabetic_point", || l.into());
        let x = gen_pre(r);
        let p = AlphabeticSubpoint { identifier: x.text().parse().unwrap(), body: "t".into(), semantic_info: Default::default(), last_change: None };
        m.eq(&p.header_string(), &format!("{})", x.text()), "header:alphabetic_subpoint", || x.text());
    });
    env.suite(m, "dates", env.n(20000, 200000), |r, m| {
        let y = if r.chance(1, 2) { r.range(1800, 2100) } else { r.range(1000, 9999) } as i32;
        let mo = r.below(12);
        let d = r.range(1, 31) as u32;
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        let days = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo];
        let tail = *r.pick(&["", " ", " csütörtök", ", péntek", " napján"]);
        let s = format!("{y}. {} {d}.{tail}", months[mo]);
        m.observe(&s, true);
        m.sample(|| s.clone());
        if let Some(g) = m.no_panic("date:parse", || s.clone(), || NaiveDate::from_hungarian(&s).ok()) {
            let want = if d <= days { NaiveDate::from_ymd_opt(y, mo as u32 + 1, d) } else { None };
            m.eq(&g, &want, "date:value", || s.clone());
        }
        let bad = match r.below(5) {
            0 => format!("{y}. {} {d}.", months[mo].to_uppercase()),
            1 => format!("{y}. {}. {d}.", mo + 1),
            2 => format!(" {y}. {} {d}.", months[mo]),
            3 => format!("{y}. {}", months[mo]),
            _ => format!("{y}. {} 0.", months[mo]),
        };
        if let Some(g) = m.no_panic("date:parse", || bad.clone(), || NaiveDate::from_hungarian(&bad).is_err()) {
            m.check(g, "date:accept", || bad.clone());
        }
    });
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C08",
            level: "exploration",
            rule: "letters, two-letter strings, all 65536 numbers and act numbers 1..=3999 enumerated, articles/ranges/near-miss strings drawn from VERIF_SEED; a case is one identifier or string, distinct by its text",
            assumptions: &["leading zeros and '+' signs in numbers are not judged"],
            run: c08,
        },
        Check {
            id: "C09",
            level: "exploration",
            rule: "ordered pairs of identifiers, distinct by their two texts; letters and prefixed letters exhaustively, numbers by windows and boundaries, articles and ranges from VERIF_SEED",
            assumptions: &[],
            run: c09,
        },
        Check {
            id: "C10",
            level: "exploration",
            rule: "all ordinals 0..=100 in 3 spellings, all roman numerals, all headers, plus dates from VERIF_SEED; a case is one text, distinct by content",
            assumptions: &[],
            run: c10,
        },
    ]
}
