//! C11 reference validity, C12 reference texts, C13 reference algebra.
use hun_law::{
    identifier::{
        range::{IdentifierRange, IdentifierRangeFrom},
        *,
    },
    reference::{
        builder::{ReferenceBuilder, ReferenceBuilderSetPart},
        parts::*,
        to_element::ReferenceToElement,
        unchecked::UncheckedReference,
        Reference,
    },
    structure::*,
    util::{compact_string::CompactString, singleton_yaml},
};

use crate::{
    c_ident::*,
    mon::{Env, Mon},
    rng::Rng,
    Check,
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum MPt {
    N(MNum, MNum),
    A(u8, u8),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum MSp {
    N(MNum, MNum),
    A(MPre, MPre),
}

/// The reference model of a reference: five optional parts.
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MRef {
    pub act: Option<(i16, i32)>,
    pub art: Option<(MArt, MArt)>,
    pub par: Option<(MNum, MNum)>,
    pub pt: Option<MPt>,
    pub sp: Option<MSp>,
}

fn num(x: &MNum) -> NumericIdentifier {
    x.text().parse().unwrap()
}
fn art(x: &MArt) -> ArticleIdentifier {
    x.text().parse().unwrap()
}
fn let_(x: u8) -> AlphabeticIdentifier {
    LETTERS[x as usize].parse().unwrap()
}
fn pre(x: &MPre) -> PrefixedAlphabeticIdentifier {
    x.text().parse().unwrap()
}

fn rj(a: String, b: String) -> serde_json::Value {
    if a == b {
        a.into()
    } else {
        serde_json::json!({"start": a, "end": b})
    }
}
fn rc(a: String, b: String) -> String {
    if a == b {
        a
    } else {
        format!("{a}-{b}")
    }
}

impl MRef {
    pub fn present(&self) -> [bool; 5] {
        [self.act.is_some(), self.art.is_some(), self.par.is_some(), self.pt.is_some(), self.sp.is_some()]
    }
    pub fn deepest(&self) -> Option<usize> {
        self.present().iter().rposition(|x| *x)
    }
    pub fn is_range(&self, level: usize) -> bool {
        match level {
            1 => self.art.map_or(false, |(a, b)| a != b),
            2 => self.par.map_or(false, |(a, b)| a != b),
            3 => match self.pt {
                Some(MPt::N(a, b)) => a != b,
                Some(MPt::A(a, b)) => a != b,
                None => false,
            },
            4 => match self.sp {
                Some(MSp::N(a, b)) => a != b,
                Some(MSp::A(a, b)) => a != b,
                None => false,
            },
            _ => false,
        }
    }
    /// No gaps but a missing paragraph; only the deepest part may be a range.
    pub fn valid(&self) -> bool {
        let p = self.present();
        let (Some(top), Some(bot)) = (p.iter().position(|x| *x), self.deepest()) else { return true };
        (top..bot).all(|l| (p[l] || l == 2) && !self.is_range(l))
    }
    pub fn compact(&self) -> String {
        format!(
            "{}_{}_{}_{}_{}",
            self.act.map(|(y, n)| format!("{y}.{n}")).unwrap_or_default(),
            self.art.map(|(a, b)| rc(a.compact(), b.compact())).unwrap_or_default(),
            self.par.map(|(a, b)| rc(a.text(), b.text())).unwrap_or_default(),
            match self.pt {
                Some(MPt::N(a, b)) => rc(a.text(), b.text()),
                Some(MPt::A(a, b)) => rc(LETTERS[a as usize].into(), LETTERS[b as usize].into()),
                None => String::new(),
            },
            match self.sp {
                Some(MSp::N(a, b)) => rc(a.text(), b.text()),
                Some(MSp::A(a, b)) => rc(a.text(), b.text()),
                None => String::new(),
            },
        )
    }
    pub fn json(&self) -> serde_json::Value {
        let mut m = serde_json::Map::new();
        if let Some((y, n)) = self.act {
            m.insert("act".into(), serde_json::json!({"year": y, "number": n}));
        }
        if let Some((a, b)) = self.art {
            m.insert("article".into(), rj(a.text(), b.text()));
        }
        if let Some((a, b)) = self.par {
            m.insert("paragraph".into(), rj(a.text(), b.text()));
        }
        match self.pt {
            Some(MPt::N(a, b)) => drop(m.insert("point".into(), rj(a.text(), b.text()))),
            Some(MPt::A(a, b)) => drop(m.insert("point".into(), rj(LETTERS[a as usize].into(), LETTERS[b as usize].into()))),
            None => {}
        }
        match self.sp {
            Some(MSp::N(a, b)) => drop(m.insert("subpoint".into(), rj(a.text(), b.text()))),
            Some(MSp::A(a, b)) => drop(m.insert("subpoint".into(), rj(a.text(), b.text()))),
            None => {}
        }
        serde_json::Value::Object(m)
    }
    /// The official citation form
    pub fn display(&self) -> String {
        let mut s = String::new();
        if let Some((y, n)) = self.act {
            s += &format!("{y}. évi {}. törvény", to_roman(n as u32));
            if self.art.is_some() {
                s.push(' ');
            }
        }
        if let Some((a, b)) = self.art {
            s += &if a == b { format!("{}.", a.text()) } else { format!("{}–{}.", a.text(), b.text()) };
            s += if self.par.is_some() || self.pt.is_some() { " § " } else { " §-a" };
        }
        if let Some((a, b)) = self.par {
            s += &if a == b { format!("({})", a.text()) } else { format!("({})–({})", a.text(), b.text()) };
            s += if self.pt.is_some() { " bekezdés " } else { " bekezdése" };
        }
        let two = |a: String, b: String, t: &str| if a == b { format!("{a}{t}") } else if t == "." { format!("{a}–{b}.") } else { format!("{a})–{b})") };
        match self.pt {
            Some(MPt::N(a, b)) => s += &two(a.text(), b.text(), "."),
            Some(MPt::A(a, b)) => s += &two(LETTERS[a as usize].into(), LETTERS[b as usize].into(), ")"),
            None => {}
        }
        if self.pt.is_some() {
            s += if self.sp.is_some() { " pont " } else { " pontja" };
        }
        match self.sp {
            Some(MSp::N(a, b)) => s += &two(a.text(), b.text(), "."),
            Some(MSp::A(a, b)) => s += &two(a.text(), b.text(), ")"),
            None => {}
        }
        if self.sp.is_some() {
            s += " alpontja";
        }
        s
    }
    pub fn clear_from(mut self, level: usize) -> MRef {
        if level <= 0 {
            self.act = None;
        }
        if level <= 1 {
            self.art = None;
        }
        if level <= 2 {
            self.par = None;
        }
        if level <= 3 {
            self.pt = None;
        }
        if level <= 4 {
            self.sp = None;
        }
        self
    }
    /// above: levels < level from self; rest from low
    pub fn join(&self, level: usize, low: &MRef) -> MRef {
        let mut r = *low;
        if level > 0 {
            r.act = self.act;
        }
        if level > 1 {
            r.art = self.art;
        }
        if level > 2 {
            r.par = self.par;
        }
        if level > 3 {
            r.pt = self.pt;
        }
        if level > 4 {
            r.sp = self.sp;
        }
        r
    }
    fn same(&self, o: &MRef, l: usize) -> bool {
        match l {
            0 => self.act == o.act,
            1 => self.art == o.art,
            2 => self.par == o.par,
            3 => self.pt == o.pt,
            _ => self.sp == o.sp,
        }
    }
    fn parent(&self) -> MRef {
        match self.deepest() {
            Some(d) => self.clear_from(d),
            None => *self,
        }
    }
    fn is_parent_of(&self, o: &MRef) -> bool {
        let d = self.deepest().map_or(0, |d| d + 1);
        (0..d).all(|l| self.same(o, l)) && self != o && self.act == o.act
    }
    /// Everything `o` denotes is denoted by self. None: not judged.
    fn contains(&self, o: &MRef) -> Option<bool> {
        let Some(d) = self.deepest() else {
            return o.act.is_none().then_some(true);
        };
        if !(0..d).all(|l| self.same(o, l)) {
            return Some(false);
        }
        Some(match d {
            0 => self.act == o.act,
            1 => o.art.map_or(false, |(a, b)| self.art.unwrap().0 <= a && b <= self.art.unwrap().1),
            2 => o.par.map_or(false, |(a, b)| self.par.unwrap().0 <= a && b <= self.par.unwrap().1),
            3 => match (self.pt.unwrap(), o.pt) {
                (MPt::N(s, e), Some(MPt::N(a, b))) => s <= a && b <= e,
                (MPt::A(s, e), Some(MPt::A(a, b))) => s <= a && b <= e,
                _ => false,
            },
            _ => match (self.sp.unwrap(), o.sp) {
                (MSp::N(s, e), Some(MSp::N(a, b))) => s <= a && b <= e,
                (MSp::A(s, e), Some(MSp::A(a, b))) => s <= a && b <= e,
                _ => false,
            },
        })
    }
    fn first(&self) -> MRef {
        MRef {
            act: self.act,
            art: self.art.map(|(a, _)| (a, a)),
            par: self.par.map(|(a, _)| (a, a)),
            pt: self.pt.map(|p| match p {
                MPt::N(a, _) => MPt::N(a, a),
                MPt::A(a, _) => MPt::A(a, a),
            }),
            sp: self.sp.map(|p| match p {
                MSp::N(a, _) => MSp::N(a, a),
                MSp::A(a, _) => MSp::A(a, a),
            }),
        }
    }
    fn last(&self) -> MRef {
        MRef {
            act: self.act,
            art: self.art.map(|(_, a)| (a, a)),
            par: self.par.map(|(_, a)| (a, a)),
            pt: self.pt.map(|p| match p {
                MPt::N(_, a) => MPt::N(a, a),
                MPt::A(_, a) => MPt::A(a, a),
            }),
            sp: self.sp.map(|p| match p {
                MSp::N(_, a) => MSp::N(a, a),
                MSp::A(_, a) => MSp::A(a, a),
            }),
        }
    }
    pub fn relative_to(&self, o: &MRef) -> MRef {
        match self.present().iter().position(|x| *x) {
            Some(top) => o.join(top, self),
            None => *o,
        }
    }
    /// None: must be rejected
    fn make_range(s: &MRef, e: &MRef) -> Option<MRef> {
        let Some(l) = (0..5).find(|l| !s.same(e, *l)) else { return Some(*s) };
        if l == 0 {
            return None;
        }
        let (ps, pe) = (s.present(), e.present());
        if (l + 1..5).any(|k| ps[k] || pe[k]) || !ps[l] || !pe[l] {
            return None;
        }
        let mut r = *s;
        match l {
            1 => r.art = Some((s.art?.0, e.art?.1)),
            2 => r.par = Some((s.par?.0, e.par?.1)),
            3 => {
                r.pt = Some(match (s.pt?, e.pt?) {
                    (MPt::N(a, _), MPt::N(_, b)) => MPt::N(a, b),
                    (MPt::A(a, _), MPt::A(_, b)) => MPt::A(a, b),
                    _ => return None,
                })
            }
            _ => {
                r.sp = Some(match (s.sp?, e.sp?) {
                    (MSp::N(a, _), MSp::N(_, b)) => MSp::N(a, b),
                    (MSp::A(a, _), MSp::A(_, b)) => MSp::A(a, b),
                    _ => return None,
                })
            }
        }
        Some(r)
    }
    /// Build with the builder (only for valid models)
    pub fn build(&self) -> anyhow::Result<Reference> {
        let mut b = ReferenceBuilder::new();
        if let Some((year, number)) = self.act {
            b.set_part(ActIdentifier { year, number });
        }
        if let Some((s, e)) = self.art {
            b.set_part(RefPartArticle::from_range(art(&s), art(&e)));
        }
        if let Some((s, e)) = self.par {
            b.set_part(RefPartParagraph::from_range(num(&s), num(&e)));
        }
        match self.pt {
            Some(MPt::N(s, e)) => drop(b.set_part(RefPartPoint::from_range(num(&s), num(&e)))),
            Some(MPt::A(s, e)) => drop(b.set_part(RefPartPoint::from_range(let_(s), let_(e)))),
            None => {}
        }
        match self.sp {
            Some(MSp::N(s, e)) => drop(b.set_part(RefPartSubpoint::from_range(num(&s), num(&e)))),
            Some(MSp::A(s, e)) => drop(b.set_part(RefPartSubpoint::from_range(pre(&s), pre(&e)))),
            None => {}
        }
        b.build()
    }
}

pub fn m_num(x: NumericIdentifier) -> MNum {
    let t = x.to_string();
    let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
    let s = &t[d.len()..];
    MNum { num: d.parse().unwrap_or(0), suf: LETTERS.iter().position(|l| *l == s).map(|p| p as u8) }
}
pub fn m_art(x: ArticleIdentifier) -> MArt {
    let t = x.to_string();
    let (b, i) = match t.split_once(':') {
        Some((b, i)) => (b.parse().ok(), i.to_string()),
        None => (None, t),
    };
    MArt { book: b, id: m_num(i.parse().unwrap_or(0.into())) }
}
pub fn m_let(x: AlphabeticIdentifier) -> u8 {
    LETTERS.iter().position(|l| *l == x.to_string()).unwrap_or(99) as u8
}
pub fn m_pre(x: PrefixedAlphabeticIdentifier) -> MPre {
    let t = x.to_string();
    let p = x.get_prefix().map(|p| p.to_string()).unwrap_or_default();
    let c = &t[p.len()..];
    let idx = |s: &str| LETTERS.iter().position(|l| *l == s).unwrap_or(99) as u8;
    MPre { pre: x.get_prefix().map(|p| idx(&p.to_string())), chr: idx(c) }
}
fn rng_<T: IdentifierCommon, U>(x: IdentifierRange<T>, f: impl Fn(T) -> U) -> (U, U) {
    (f(x.first_in_range()), f(x.last_in_range()))
}

/// Observe a reference through its accessors only (no text forms): last part, then the parent, ...
pub fn decode(r: &Reference) -> MRef {
    let mut m = MRef::default();
    let mut cur = r.clone();
    for _ in 0..6 {
        match cur.get_last_part() {
            AnyReferencePart::Empty => break,
            AnyReferencePart::Act(a) => m.act = Some((a.year, a.number)),
            AnyReferencePart::Article(a) => m.art = Some(rng_(a, m_art)),
            AnyReferencePart::Paragraph(a) => m.par = Some(rng_(a, m_num)),
            AnyReferencePart::Point(RefPartPoint::Numeric(a)) => m.pt = Some({ let (a, b) = rng_(a, m_num); MPt::N(a, b) }),
            AnyReferencePart::Point(RefPartPoint::Alphabetic(a)) => m.pt = Some({ let (a, b) = rng_(a, m_let); MPt::A(a, b) }),
            AnyReferencePart::Subpoint(RefPartSubpoint::Numeric(a)) => m.sp = Some({ let (a, b) = rng_(a, m_num); MSp::N(a, b) }),
            AnyReferencePart::Subpoint(RefPartSubpoint::Alphabetic(a)) => m.sp = Some({ let (a, b) = rng_(a, m_pre); MSp::A(a, b) }),
        }
        cur = cur.parent();
    }
    m
}

fn sorted<T: PartialOrd>(a: T, b: T) -> (T, T) {
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}

fn pool_num(r: &mut Rng) -> MNum {
    if r.chance(3, 4) {
        MNum { num: r.range(1, 5) as u16, suf: r.chance(1, 4).then(|| r.below(5) as u8) }
    } else {
        gen_num(r)
    }
}

/// Any combination of parts (valid or not). `bias`: prefer valid ones. Small pools, so that pairs interact.
pub fn gen_ref(r: &mut Rng, bias: bool) -> MRef {
    let mut m = MRef::default();
    if r.chance(1, 2) {
        m.act = Some((*r.pick(&[2012i16, 2013, 2013, 1997]), *r.pick(&[1i32, 5, 5, 177, 3999])));
    }
    let rangy = |r: &mut Rng| if bias { 0 } else { r.below(3) };
    if r.chance(3, 4) {
        let g = |r: &mut Rng| if r.chance(3, 4) { MArt { book: r.chance(1, 6).then(|| r.range(1, 3) as u8), id: pool_num(r) } } else { gen_art(r) };
        let a = g(r);
        m.art = Some(if rangy(r) == 1 { sorted(a, g(r)) } else { (a, a) });
    }
    if r.chance(1, 2) {
        let a = pool_num(r);
        m.par = Some(if rangy(r) == 1 { sorted(a, pool_num(r)) } else { (a, a) });
    }
    if r.chance(1, 2) {
        let range = rangy(r) == 1;
        m.pt = Some(if r.chance(1, 3) {
            let a = pool_num(r);
            let (a, b) = if range { sorted(a, pool_num(r)) } else { (a, a) };
            MPt::N(a, b)
        } else {
            let a = if r.chance(1, 2) { r.below(6) as u8 } else { gen_letter(r) };
            let (a, b) = if range { sorted(a, r.below(8) as u8) } else { (a, a) };
            MPt::A(a, b)
        });
    }
    if r.chance(1, 3) {
        let range = rangy(r) == 1;
        m.sp = Some(if r.chance(1, 3) {
            let a = pool_num(r);
            let (a, b) = if range { sorted(a, pool_num(r)) } else { (a, a) };
            MSp::N(a, b)
        } else {
            let g = |r: &mut Rng| if r.chance(3, 4) { MPre { pre: r.chance(2, 3).then(|| *r.pick(&[0u8, 1])), chr: *r.pick(&[0u8, 1, 2, 4]) } } else { gen_pre(r) };
            let a = g(r);
            let (a, b) = if range { sorted(a, g(r)) } else { (a, a) };
            MSp::A(a, b)
        });
    }
    if bias {
        for _ in 0..20 {
            if m.valid() {
                break;
            }
            // drop a random part until valid
            match r.below(5) {
                0 => m.act = None,
                1 => m.art = None,
                2 => m.par = None,
                3 => m.pt = None,
                _ => m.sp = None,
            }
        }
        if !m.valid() {
            m = MRef { act: m.act, ..Default::default() };
        }
        if r.chance(1, 3) {
            // make the last part a range
            match m.deepest() {
                Some(1) => m.art = m.art.map(|(a, _)| sorted(a, MArt { book: a.book, id: pool_num(r) })),
                Some(2) => m.par = m.par.map(|(a, _)| sorted(a, pool_num(r))),
                Some(3) => {
                    m.pt = m.pt.map(|p| match p {
                        MPt::N(a, _) => { let (a, b) = sorted(a, pool_num(r)); MPt::N(a, b) }
                        MPt::A(a, _) => { let (a, b) = sorted(a, r.below(8) as u8); MPt::A(a, b) }
                    })
                }
                Some(4) => {
                    m.sp = m.sp.map(|p| match p {
                        MSp::N(a, _) => { let (a, b) = sorted(a, pool_num(r)); MSp::N(a, b) }
                        MSp::A(a, _) => { let s = single_letters(); let c = *r.pick(&s[..8]); let (a, b) = sorted(a, MPre { pre: a.pre, chr: c }); MSp::A(a, b) }
                    })
                }
                _ => {}
            }
        }
    }
    m
}

/// A reference near another: same prefix, changed or removed part
pub fn gen_near(r: &mut Rng, m: &MRef) -> MRef {
    let mut o = gen_ref(r, true);
    if r.chance(3, 4) {
        let l = r.below(6);
        o = m.join(l, &o);
    }
    if r.chance(1, 3) {
        o = if r.chance(1, 2) { o.first() } else { o.last() };
    }
    if r.chance(1, 4) {
        o = m.clear_from(r.below(6));
    }
    for _ in 0..10 {
        if o.valid() {
            return o;
        }
        match r.below(5) {
            0 => o.art = o.art.map(|(a, _)| (a, a)),
            1 => o.par = o.par.map(|(a, _)| (a, a)),
            2 => o.pt = None,
            3 => o.sp = None,
            _ => o = o.clear_from(r.below(5)),
        }
    }
    MRef::default()
}

// ---------------------------------------------------------------- C11

fn invariant(m: &mut Mon, key: &str, x: &Reference, ctx: &dyn Fn() -> String) -> MRef {
    let d = decode(x);
    m.count("references_inspected", 1);
    m.check(d.valid(), &format!("{key}:invalid_reference"), || format!("{} gave {x:?}", ctx()));
    d
}

fn c11(env: &Env, m: &mut Mon) {
    // every combination of present parts x every choice of ranges, by every input route
    env.suite(m, "combinations", env.n(300, 6000), |r, m| {
        for mask in 0..32u32 {
            for rm in 0..16u32 {
                let mut x = MRef::default();
                let full = gen_ref(r, false);
                let _ = full;
                if mask & 1 != 0 {
                    x.act = Some((r.range(1950, 2030) as i16, r.range(1, 300) as i32));
                }
                let b = |k: u32| rm & (1 << k) != 0;
                if mask & 2 != 0 {
                    let a = gen_art(r);
                    let mut c = gen_art(r);
                    if c == a { c.id.num ^= 1; }
                    x.art = Some(if b(0) { sorted(a, c) } else { (a, a) });
                } else if b(0) { continue; }
                if mask & 4 != 0 {
                    let a = gen_num(r);
                    let mut c = gen_num(r);
                    if c == a { c.num ^= 1; }
                    x.par = Some(if b(1) { sorted(a, c) } else { (a, a) });
                } else if b(1) { continue; }
                if mask & 8 != 0 {
                    x.pt = Some(if r.chance(1, 2) {
                        let a = gen_num(r);
                        let mut c = gen_num(r);
                        if c == a { c.num ^= 1; }
                        let (s, e) = if b(2) { sorted(a, c) } else { (a, a) };
                        MPt::N(s, e)
                    } else {
                        let a = gen_letter(r);
                        let c = (a + 1 + r.below(33) as u8) % 34;
                        let (s, e) = if b(2) { sorted(a, c) } else { (a, a) };
                        MPt::A(s, e)
                    });
                } else if b(2) { continue; }
                if mask & 16 != 0 {
                    x.sp = Some(if r.chance(1, 2) {
                        let a = gen_num(r);
                        let mut c = gen_num(r);
                        if c == a { c.num ^= 1; }
                        let (s, e) = if b(3) { sorted(a, c) } else { (a, a) };
                        MSp::N(s, e)
                    } else {
                        let a = gen_pre(r);
                        let mut c = gen_pre(r);
                        if c == a { c.chr = (if c.chr == 0 { 1 } else { 0 }) as u8; }
                        let (s, e) = if b(3) { sorted(a, c) } else { (a, a) };
                        MSp::A(s, e)
                    });
                } else if b(3) { continue; }
                one_combo(m, r, &x);
            }
        }
    });
    // every derived reference is valid too, and builder histories
    env.suite(m, "derived", env.n(60000, 600000), |r, m| {
        let x = gen_ref(r, true);
        let y = gen_near(r, &x);
        m.observe(&(x, y), true);
        let (Ok(a), Ok(b)) = (x.build(), y.build()) else {
            m.fail("valid_rejected", format!("{x:?} {y:?}"));
            return;
        };
        let ctx = || format!("{a:?} / {b:?}");
        invariant(m, "parent", &a.parent(), &ctx);
        invariant(m, "first", &a.first_in_range(), &ctx);
        invariant(m, "last", &a.last_in_range(), &ctx);
        invariant(m, "without_act", &a.without_act(), &ctx);
        if let Some(Ok(c)) = m.no_panic("relative_to", ctx, || a.relative_to(&b)) {
            invariant(m, "relative_to", &c, &ctx);
            m.count("relative_ok", 1);
        }
        if let Some(Ok(c)) = m.no_panic("make_range", ctx, || Reference::make_range(&a, &b)) {
            invariant(m, "make_range", &c, &ctx);
            m.count("range_ok", 1);
        }
        if let Some(p) = a.article() {
            let d = invariant(m, "from_article", &Reference::from(p), &ctx);
            m.eq(&d, &MRef { art: x.art, ..Default::default() }, "from_article:parts", ctx);
            if let Some(act) = a.act() {
                let d = invariant(m, "from_act_article", &Reference::from((act, p)), &ctx);
                m.eq(&d, &MRef { act: x.act, art: x.art, ..Default::default() }, "from_act_article:parts", ctx);
                let d = invariant(m, "from_act", &Reference::from(act), &ctx);
                m.eq(&d, &MRef { act: x.act, ..Default::default() }, "from_act:parts", ctx);
            }
        }
    });
    env.suite(m, "builder_histories", env.n(30000, 300000), |r, m| {
        let mut b = ReferenceBuilder::new();
        let mut x = MRef::default();
        let mut hist = vec![];
        for _ in 0..r.range(1, 12) {
            let g = gen_ref(r, false);
            match r.below(9) {
                0 => if let Some((year, number)) = g.act {
                    b.set_part(ActIdentifier { year, number });
                    x = MRef { act: g.act, ..Default::default() };
                    hist.push(format!("act {:?}", g.act));
                },
                1 | 2 => if let Some((s, e)) = g.art {
                    b.set_part(RefPartArticle::from_range(art(&s), art(&e)));
                    x = MRef { art: g.art, ..x.clear_from(1) };
                    hist.push(format!("article {:?}", g.art));
                },
                3 | 4 => if let Some((s, e)) = g.par {
                    b.set_part(RefPartParagraph::from_range(num(&s), num(&e)));
                    x = MRef { par: g.par, ..x.clear_from(2) };
                    hist.push(format!("paragraph {:?}", g.par));
                },
                5 | 6 => if let Some(p) = g.pt {
                    match p {
                        MPt::N(s, e) => b.set_part(RefPartPoint::from_range(num(&s), num(&e))),
                        MPt::A(s, e) => b.set_part(RefPartPoint::from_range(let_(s), let_(e))),
                    };
                    x = MRef { pt: g.pt, ..x.clear_from(3) };
                    hist.push(format!("point {:?}", g.pt));
                },
                7 => if let Some(p) = g.sp {
                    match p {
                        MSp::N(s, e) => b.set_part(RefPartSubpoint::from_range(num(&s), num(&e))),
                        MSp::A(s, e) => b.set_part(RefPartSubpoint::from_range(pre(&s), pre(&e))),
                    };
                    x = MRef { sp: g.sp, ..x };
                    hist.push(format!("subpoint {:?}", g.sp));
                },
                _ => {
                    let l = r.range(1, 4) as usize;
                    match l {
                        1 => b.reset_article(),
                        2 => b.reset_paragraph(),
                        3 => b.reset_point(),
                        _ => b.reset_subpoint(),
                    };
                    x = x.clear_from(l);
                    hist.push(format!("reset {l}"));
                }
            }
            m.observe(&hist, hist.len() > 1);
            match (b.build(), x.valid()) {
                (Ok(v), true) => {
                    let d = invariant(m, "builder", &v, &|| format!("{hist:?}"));
                    m.eq(&d, &x, "builder:parts", || format!("{hist:?}"));
                }
                (Ok(v), false) => m.fail("builder:accepted_invalid", format!("{hist:?} -> {v:?}")),
                (Err(e), true) => m.fail("builder:rejected_valid", format!("{hist:?}: {e}")),
                (Err(_), false) => m.count("invalid_rejected", 1),
            }
        }
        m.sample(|| format!("{hist:?} -> valid={}", x.valid()));
    });
}

fn one_combo(m: &mut Mon, r: &mut Rng, x: &MRef) {
    m.observe(x, true);
    let (c, j) = (x.compact(), x.json().to_string());
    let y = singleton_yaml::to_string(&x.json()).unwrap();
    m.sample(|| format!("{c} valid={}", x.valid()));
    m.count(if x.valid() { "valid_combinations" } else { "invalid_combinations" }, 1);
    let mut route = |m: &mut Mon, name: &str, f: &dyn Fn() -> anyhow::Result<Reference>| {
        match m.no_panic(name, || c.clone(), f) {
            Some(Ok(v)) => {
                if m.check(x.valid(), &format!("{name}:accepted_invalid"), || c.clone()) {
                    let d = decode(&v);
                    m.eq(&d, x, &format!("{name}:parts"), || c.clone());
                }
            }
            Some(Err(e)) => {
                m.check(!x.valid(), &format!("{name}:rejected_valid"), || format!("{c}: {e}"));
            }
            None => {}
        }
    };
    route(m, "compact", &|| Reference::from_compact_string(&c));
    route(m, "json", &|| Ok(serde_json::from_str(&j)?));
    route(m, "builder", &|| x.build());
    route(m, "unchecked", &|| {
        let u: UncheckedReference = serde_json::from_str(&j)?;
        u.try_into()
    });
    if r.chance(1, 4) {
        route(m, "yaml", &|| Ok(singleton_yaml::from_str(&y)?));
    }
}

// ---------------------------------------------------------------- C12

fn c12(env: &Env, m: &mut Mon) {
    env.suite(m, "roundtrip", env.n(120000, 1500000), |r, m| {
        let x = gen_ref(r, true);
        m.observe(&x, x.deepest().map_or(false, |d| d > 0));
        let Ok(v) = x.build() else {
            m.fail("valid_rejected", format!("{x:?}"));
            return;
        };
        let c = v.compact_string().to_string();
        m.sample(|| format!("{c} = {v}"));
        m.eq(&c, &x.compact(), "compact:text", || format!("{x:?}"));
        match Reference::from_compact_string(&c) {
            Ok(b) => { m.eq(&b, &v, "compact:roundtrip", || c.clone()); }
            Err(e) => m.fail("compact:rejected", format!("{c}: {e}")),
        }
        serde_forms(m, "reference", &v, &c);
        m.eq(&serde_json::to_value(&v).unwrap(), &x.json(), "json:value", || c.clone());
        // option and list wrapping does not change anything
        if r.chance(1, 4) {
            serde_forms(m, "reference_list", &vec![Some(v.clone()), None, Some(Reference::default())], &c);
        }
        if let Some(d) = m.no_panic("display", || c.clone(), || v.to_string()) {
            m.eq(&d, &x.display(), "display:text", || c.clone());
        }
        let o = gen_near(r, &x);
        if let Ok(w) = o.build() {
            m.eq(&(w == v), &(o == x), "equality", || format!("{x:?} {o:?}"));
            if o != x {
                m.check(w.compact_string().to_string() != c, "compact:collision", || c.clone());
                if o.act.map(|a| a.1) != Some(0) {
                    m.check(w.to_string() != v.to_string() || o.display() == x.display(), "display:collision", || c.clone());
                }
            }
        }
    });
    env.suite(m, "malformed", env.n(30000, 300000), |r, m| {
        let x = gen_ref(r, true);
        let c = x.compact();
        let mut parts: Vec<String> = c.split('_').map(|s| s.to_string()).collect();
        match r.below(6) {
            0 => drop(parts.pop()),
            1 => parts.push(String::new()),
            2 => parts[0] = r.pick(&["2012", "2012.", ".1", "x", "2012.1.1", "2012/1"]).to_string(),
            3 => parts[1] = r.pick(&["x", "1-", "-1", "1:2", "1..2", "1a1", "1-2-3", "§"]).to_string(),
            4 => parts[2] = r.pick(&["x", "1-", "-", "1.", "(1)", "1--2", " 1"]).to_string(),
            _ => parts[3] = r.pick(&["1-a", "a-1", "-", "a)", "1.", "abc", "é"]).to_string(),
        };
        let s = parts.join("_");
        m.observe(&s, true);
        if let Some(g) = m.no_panic("compact:parse", || s.clone(), || Reference::from_compact_string(&s)) {
            m.check(g.is_err(), "compact:accepted_malformed", || format!("{s} -> {g:?}"));
        }
    });
    // a text that is read as a reference is that reference's text, give or take the spelling of its identifiers
    env.suite(m, "damaged", env.n(150000, 2000000), |r, m| {
        let x = gen_ref(r, true);
        let mut cs: Vec<char> = x.compact().chars().collect();
        for _ in 0..r.range(1, 2) {
            let p = r.below(cs.len() + 1);
            let c = *r.pick(&[' ', '_', '-', '.', ':', '/', '0', '1', '5', 'a', 'b', 'A', 'c', 's', 'z', 'y', '\t', '+', '(', ')', '§', 'é', '\u{a0}', '\n', '1', '²']);
            match r.below(4) {
                0 if p < cs.len() => cs[p] = c,
                1 if p < cs.len() => drop(cs.remove(p)),
                2 if p + 1 < cs.len() => cs.swap(p, p + 1),
                _ => cs.insert(p, c),
            }
        }
        let s: String = cs.into_iter().collect();
        m.observe(&s, true);
        if let Some(g) = m.no_panic("compact:parse", || s.clone(), || Reference::from_compact_string(&s)) {
            match g {
                Ok(v) => {
                    m.count("damaged_but_valid", 1);
                    m.eq(&spelling(&v.compact_string().to_string()), &spelling(&s), "compact:other_text", || s.clone());
                }
                Err(_) => m.count("damaged_refused", 1),
            }
        }
    });
}

/// Upper case letters, leading zeros, the slash of 5/a, plus signs and ranges of one are a matter of spelling
fn spelling(s: &str) -> String {
    let cs: Vec<char> = s.to_lowercase().chars().collect();
    let digit = |i: usize| cs.get(i).map_or(false, |c| c.is_ascii_digit());
    let mut o = String::new();
    let mut in_num = false;
    for (i, c) in cs.iter().enumerate() {
        if *c == '0' && !in_num && digit(i + 1) {
            continue;
        }
        in_num = c.is_ascii_digit();
        if *c == '/' && i > 0 && digit(i - 1) && cs.get(i + 1).map_or(false, |c| c.is_ascii_lowercase()) {
            continue;
        }
        if *c == '+' && digit(i + 1) && (i == 0 || ['.', '_', '-'].contains(&cs[i - 1])) {
            continue;
        }
        o.push(*c);
    }
    let parts: Vec<&str> = o
        .split('_')
        .map(|p| match p.split_once('-') {
            Some((a, b)) if a == b => a,
            _ => p,
        })
        .collect();
    parts.join("_")
}

// ---------------------------------------------------------------- C13

fn c13(env: &Env, m: &mut Mon) {
    env.suite(m, "pairs", env.n(250000, 3000000), |r, m| {
        let x = gen_ref(r, true);
        let y = gen_near(r, &x);
        let (Ok(a), Ok(b)) = (x.build(), y.build()) else {
            m.fail("valid_rejected", format!("{x:?} {y:?}"));
            return;
        };
        m.observe(&(x, y), true);
        let ctx = || format!("{} / {}", x.compact(), y.compact());
        for (x, y, a, b) in [(&x, &y, &a, &b), (&y, &x, &b, &a)] {
            let ctx = || format!("{} / {}", x.compact(), y.compact());
            let p = a.is_parent_of(b);
            m.eq(&p, &x.is_parent_of(y), "is_parent_of", ctx);
            m.count(if p { "parent_pairs" } else { "non_parent_pairs" }, 1);
            if let Some(want) = x.contains(y) {
                let g = a.contains(b);
                m.eq(&g, &want, "contains", ctx);
                m.count(if want { "contained_pairs" } else { "not_contained_pairs" }, 1);
            }
            m.eq(&a.cmp(b), &x.cmp(y), "order", ctx);
            match a.relative_to(b) {
                Ok(c) => {
                    let want = x.relative_to(y);
                    m.eq(&decode(&c), &want, "relative_to", ctx);
                    m.check(want.valid(), "relative_to:accepted", ctx);
                }
                Err(_) => {
                    m.check(!x.relative_to(y).valid(), "relative_to:rejected", ctx);
                }
            }
            let want = MRef::make_range(x, y);
            match Reference::make_range(a, b) {
                Ok(c) => {
                    let d = decode(&c);
                    if m.eq(&Some(d), &want, "make_range", ctx) && x.first() <= y.first() && x.last() <= y.last() {
                        m.count("ranges_made", 1);
                        m.check(c.contains(a) && c.contains(b), "make_range:covers", ctx);
                        m.eq(&c.first_in_range(), &a.first_in_range(), "make_range:first", ctx);
                        m.eq(&c.last_in_range(), &b.last_in_range(), "make_range:last", ctx);
                    }
                }
                Err(e) => {
                    m.check(want.is_none(), "make_range:rejected", || format!("{}: {e}", ctx()));
                }
            }
        }
        m.sample(|| format!("{} contains={} parent={}", ctx(), a.contains(&b), a.is_parent_of(&b)));
        let cx = || x.compact();
        m.eq(&decode(&a), &x, "parts", cx);
        m.eq(&decode(&a.parent()), &x.parent(), "parent", cx);
        m.eq(&decode(&a.first_in_range()), &x.first(), "first_in_range", cx);
        m.eq(&decode(&a.last_in_range()), &x.last(), "last_in_range", cx);
        m.eq(&decode(&a.without_act()), &MRef { act: None, ..x }, "without_act", cx);
        m.eq(&a.act().map(|a| (a.year, a.number)), &x.act, "act", cx);
        m.eq(&a.article().map(|p| rng_(p, m_art)), &x.art, "article", cx);
        m.check(a.contains(&a), "contains:reflexive", cx);
        if x.act.is_some() || x.deepest().is_none() {
            m.eq(&a.is_act_only(), &x.art.is_none(), "is_act_only", cx);
        }
        if x.deepest().map_or(false, |d| d > 0) {
            m.check(a.parent().is_parent_of(&a) && a.parent().contains(&a), "parent:law", cx);
            m.check(a.parent() < a, "parent:order", cx);
        }
        m.check(a.contains(&a.first_in_range()) && a.contains(&a.last_in_range()), "range:law", cx);
        // last part accessors agree with each other
        let lp = a.get_last_part();
        let kinds = [lp.act().is_some(), lp.article().is_some(), lp.paragraph().is_some(), lp.numeric_point().is_some() || lp.alphabetic_point().is_some(), lp.numeric_subpoint().is_some() || lp.alphabetic_subpoint().is_some()];
        m.eq(&kinds.iter().position(|k| *k), &x.deepest(), "last_part", cx);
        m.check(kinds.iter().filter(|k| **k).count() <= 1, "last_part:unique", cx);
    });
    env.suite(m, "transitivity", env.n(60000, 600000), |r, m| {
        let x = gen_ref(r, true);
        let y = gen_near(r, &x);
        let z = gen_near(r, &y);
        let (Ok(a), Ok(b), Ok(c)) = (x.build(), y.build(), z.build()) else { return };
        m.observe(&(x, y, z), true);
        if a.contains(&b) && b.contains(&c) {
            m.count("contain_chains", 1);
            m.check(a.contains(&c), "contains:transitive", || format!("{a} / {b} / {c}"));
        }
        if a.contains(&b) && b.contains(&a) {
            m.check(a == b, "contains:antisymmetric", || format!("{a:?} / {b:?}"));
        }
    });
    env.suite(m, "elements", env.n(20000, 100000), |r, m| {
        // the reference of an element, made absolute, names exactly that element
        let (y, n) = (2000 + r.below(20) as i16, r.range(1, 200) as i32);
        let act = Act { identifier: ActIdentifier { year: y, number: n }, subject: String::new(), preamble: String::new(), publication_date: Default::default(), contained_abbreviations: Default::default(), children: vec![] };
        let (ma, mn, ml, mp) = (gen_art(r), gen_num(r), gen_letter(r), gen_pre(r));
        macro_rules! sae { ($t:ident, $id:expr) => { $t { identifier: $id, body: "x".into(), semantic_info: Default::default(), last_change: None }.reference() } }
        let a = Article { identifier: art(&ma), title: None, children: vec![], last_change: None };
        let base = act.reference();
        m.eq(&decode(&base), &MRef { act: Some((y, n)), ..Default::default() }, "element:act", String::new);
        let mut x = MRef { act: Some((y, n)), art: Some((ma, ma)), ..Default::default() };
        m.observe(&(x, mn, ml, mp), true);
        let steps: Vec<(Reference, MRef)> = {
            let mut v = vec![(a.reference(), x)];
            if r.chance(2, 3) {
                x.par = Some((mn, mn));
                v.push((sae!(Paragraph, num(&mn).into()), x));
            } else {
                v.push((sae!(Paragraph, Default::default()), x));
            }
            if r.chance(1, 2) {
                x.pt = Some(MPt::A(ml, ml));
                v.push((sae!(AlphabeticPoint, let_(ml)), x));
                if r.chance(1, 2) {
                    x.sp = Some(MSp::N(mn, mn));
                    v.push((sae!(NumericSubpoint, num(&mn)), x));
                }
            } else {
                x.pt = Some(MPt::N(mn, mn));
                v.push((sae!(NumericPoint, num(&mn)), x));
                x.sp = Some(MSp::A(mp, mp));
                v.push((sae!(AlphabeticSubpoint, pre(&mp)), x));
            }
            v
        };
        let mut cur = base;
        for (rel, want) in steps {
            match rel.relative_to(&cur) {
                Ok(c) => {
                    m.eq(&decode(&c), &want, "element:position", || format!("{rel:?} at {cur:?}"));
                    cur = c;
                }
                Err(e) => {
                    m.fail("element:rejected", format!("{rel:?} at {cur:?}: {e}"));
                    return;
                }
            }
        }
    });
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C11",
            level: "exploration",
            rule: "all 32 part combinations x all range placements with random identifiers through every construction route, random derived references, random builder histories; distinct by parts/history",
            assumptions: &["parts of a reference are observed through its accessors (last part, parent)"],
            run: c11,
        },
        Check {
            id: "C12",
            level: "exploration",
            rule: "random valid references (all levels, ranges, relative and absolute) and malformed texts; non-trivial: reaches below the act; distinct by parts",
            assumptions: &["act numbers 1..=3999"],
            run: c12,
        },
        Check {
            id: "C13",
            level: "exploration",
            rule: "random pairs and triples of valid references from small pools, so that they share prefixes; distinct by parts of the pair",
            assumptions: &["ranges are ordered (start <= end)", "whether the empty reference contains references with an act is not judged"],
            run: c13,
        },
    ]
}
