//! C04, C05, C07: the structure parser against printed trees, conservation and quotation isolation.
use hun_law::{
    parser::{mk_act_section::ActRawText, structure::parse_act_structure},
    structure::*,
    util::{indentedline::IndentedLine, singleton_yaml},
};

use crate::{
    acts::*,
    c_ident::{ordinal, to_roman},
    lines::MLine,
    mon::{Env, Mon},
    rng::Rng,
    Check,
};

// ---------------------------------------------------------------- tree comparison

/// Quoted lines: numbered paragraphs lose the empty lines inside quotations, so those are not compared.
fn quoted_paragraphs(a: &mut Act, f: &mut dyn FnMut(&mut Vec<QuotedBlock>)) {
    for art in a.articles_mut() {
        for p in &mut art.children {
            if let SAEBody::Children { children: ParagraphChildren::QuotedBlock(b), .. } = &mut p.body {
                f(b);
            }
        }
    }
}

/// First difference of two acts, with a readable path
pub fn diff_acts(got: &Act, want: &Act) -> Option<String> {
    if got == want {
        return None;
    }
    if got.identifier != want.identifier || got.subject != want.subject || got.publication_date != want.publication_date {
        return Some("act header differs".into());
    }
    if got.preamble != want.preamble {
        return Some(format!("preamble: got {:?} want {:?}", got.preamble, want.preamble));
    }
    for (i, (g, w)) in got.children.iter().zip(want.children.iter()).enumerate() {
        if g != w {
            return Some(format!("child {i}:\n   got  {g:?}\n   want {w:?}"));
        }
    }
    Some(format!("number of children: got {} want {}", got.children.len(), want.children.len()))
}

/// Justification of quoted lines is not part of their equality
fn justified_of(a: &Act) -> Vec<bool> {
    let mut v = vec![];
    let mut c = a.clone();
    quoted_paragraphs(&mut c, &mut |b| {
        for b in b.iter() {
            // the closing quotation mark is cut off the last line, so its right edge is not known
            let n = b.lines.len().saturating_sub(1);
            v.extend(b.lines[..n].iter().filter(|l| !l.is_empty()).map(|l| l.is_justified()));
        }
    });
    v
}

pub fn round_trip(m: &mut Mon, key: &str, act: &Act, raw: &ActRawText) -> bool {
    let Some(res) = m.no_panic(key, || show(raw), || parse_act_structure(raw)) else { return false };
    match res {
        Err(e) => {
            m.fail(&format!("{key}:refused"), format!("a printed act was refused: {e:#}\n{}\n{act:?}", show(raw)));
            false
        }
        Ok(got) => {
            if let Some(d) = diff_acts(&got, act) {
                m.fail(&format!("{key}:tree"), format!("{d}\n{}", show(raw)));
                return false;
            }
            m.check(justified_of(&got) == justified_of(act), &format!("{key}:justified"), || format!("quoted line justification changed\n{}", show(raw)))
        }
    }
}

fn shape(a: &Act) -> (usize, usize, usize, usize) {
    let (mut p, mut pt, mut sp, mut q) = (0, 0, 0, 0);
    for art in a.articles() {
        for par in &art.children {
            p += 1;
            if let SAEBody::Children { children, .. } = &par.body {
                match children {
                    ParagraphChildren::AlphabeticPoint(v) => {
                        pt += v.len();
                        for x in v {
                            if let SAEBody::Children { children, .. } = &x.body {
                                sp += match children {
                                    AlphabeticPointChildren::AlphabeticSubpoint(v) => v.len(),
                                    AlphabeticPointChildren::NumericSubpoint(v) => v.len(),
                                }
                            }
                        }
                    }
                    ParagraphChildren::NumericPoint(v) => {
                        pt += v.len();
                        for x in v {
                            if let SAEBody::Children { children: NumericPointChildren::AlphabeticSubpoint(v), .. } = &x.body {
                                sp += v.len();
                            }
                        }
                    }
                    ParagraphChildren::QuotedBlock(v) => q += v.len(),
                    _ => {}
                }
            }
        }
    }
    (p, pt, sp, q)
}

fn c04(env: &Env, m: &mut Mon) {
    let run = |cfg: Cfg, max: i64| {
        move |r: &mut Rng, m: &mut Mon| {
            let act = gen_act(r, &cfg, max);
            let raw = typeset(r, &act);
            if round_trip(m, "printed", &act, &raw) {
                let (p, pt, sp, q) = shape(&act);
                m.count("acts", 1);
                m.count("lines", raw.body.len() as u64);
                m.count("children", act.children.len() as u64);
                m.count("paragraphs", p as u64);
                m.count("points", pt as u64);
                m.count("subpoints", sp as u64);
                m.count("quoted_blocks", q as u64);
                m.observe(&format!("{act:?}{}", raw.body.len()), p > 0);
                m.sample(|| show(&raw));
            }
        }
    };
    env.suite(m, "small", env.n(30_000, 600_000), run(Cfg { quotes: 1, blocks: 2, tricky: 4, long: false }, 4));
    env.suite(m, "big", env.n(4000, 60_000), run(Cfg { quotes: 2, blocks: 2, tricky: 4, long: true }, 20));
    env.suite(m, "plain", env.n(10_000, 200_000), run(Cfg { quotes: 0, blocks: 0, tricky: 0, long: true }, 6));
    env.suite(m, "corpus", env.n(1, 1), |_, m| {
        for (name, raw, want) in corpus_docs("structure") {
            match m.no_panic("corpus", || name.clone(), || parse_act_structure(&raw)) {
                Some(Ok(mut got)) => {
                    quoted_paragraphs(&mut got, &mut |b| b.iter_mut().for_each(|b| b.lines = vec![]));
                    if let Some(d) = diff_acts(&got, &want) {
                        m.fail("corpus:tree", format!("{name}: {d}"));
                    }
                    m.count("corpus_documents", 1);
                    m.observe(&name, true);
                }
                Some(Err(e)) => m.fail("corpus:refused", format!("{name}: {e:#}")),
                None => {}
            }
        }
    });
    // the same tree, broken into lines in several ways
    env.suite(m, "rebreak", env.n(12_000, 200_000), |r, m| {
        let act = gen_act(r, &Cfg { quotes: 1, blocks: 2, tricky: 3, long: false }, 5);
        for _ in 0..4 {
            let raw = typeset(r, &act);
            if !round_trip(m, "rebreak", &act, &raw) {
                return;
            }
            m.observe(&show(&raw), true);
        }
    });
}

/// The stored test documents of the repository, copied: (name, body, expected tree)
pub fn corpus_docs(dir: &str) -> Vec<(String, ActRawText, Act)> {
    let dir = crate::verif_dir().join("corpus").join(dir);
    let mut names: Vec<_> = std::fs::read_dir(&dir).expect("corpus").map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "txt")).collect();
    names.sort();
    names
        .into_iter()
        .filter_map(|p| {
            let text = std::fs::read_to_string(&p).unwrap();
            let want: Act = singleton_yaml::from_slice(&std::fs::read(p.with_extension("yml")).unwrap()).ok()?;
            let body: Vec<IndentedLine> = text.split('\n').map(IndentedLine::from_test_str).collect();
            Some((p.file_stem().unwrap().to_string_lossy().to_string(), ActRawText { identifier: want.identifier, subject: want.subject.clone(), publication_date: want.publication_date, body }, want))
        })
        .collect()
}

// ---------------------------------------------------------------- C05: conservation

/// The input as a stream: whitespace runs are one Ws; Ws(true) crosses a line end.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Tok {
    C(char),
    Ws(bool),
}

pub fn stream(lines: &[IndentedLine]) -> Vec<Tok> {
    let mut v = vec![];
    for l in lines {
        if !v.is_empty() {
            push_ws(&mut v, true);
        }
        for c in l.content().chars() {
            if c.is_whitespace() {
                push_ws(&mut v, false);
            } else {
                v.push(Tok::C(c));
            }
        }
    }
    v
}
fn push_ws(v: &mut Vec<Tok>, nl: bool) {
    if let Some(Tok::Ws(b)) = v.last_mut() {
        *b |= nl;
    } else {
        v.push(Tok::Ws(nl));
    }
}

/// Consumes the input stream while the tree is flattened in document order.
pub struct Eat<'a> {
    pub t: &'a [Tok],
    pub i: usize,
}
type R = Result<(), String>;

impl<'a> Eat<'a> {
    pub fn new(t: &'a [Tok]) -> Self {
        Eat { t, i: 0 }
    }
    fn rest(&self) -> String {
        self.t[self.i.min(self.t.len())..].iter().take(60).map(|t| if let Tok::C(c) = t { *c } else { ' ' }).collect()
    }
    fn ws(&mut self) {
        while let Some(Tok::Ws(_)) = self.t.get(self.i) {
            self.i += 1;
        }
    }
    fn one(&mut self, set: &[char]) -> R {
        self.ws();
        match self.t.get(self.i) {
            Some(Tok::C(c)) if set.contains(c) => {
                self.i += 1;
                Ok(())
            }
            _ => Err(format!("expected one of {set:?} at {:?}", self.rest())),
        }
    }
    /// literal without regard to case and spaces
    fn lit(&mut self, s: &str) -> R {
        for c in s.chars().filter(|c| !c.is_whitespace()) {
            self.ws();
            match self.t.get(self.i) {
                Some(Tok::C(d)) if d.to_lowercase().eq(c.to_lowercase()) => self.i += 1,
                _ => return Err(format!("expected {s:?} at {:?}", self.rest())),
            }
        }
        Ok(())
    }
    fn zeros(&mut self) {
        while self.t.get(self.i) == Some(&Tok::C('0')) && matches!(self.t.get(self.i + 1), Some(Tok::C('0'..='9'))) {
            self.i += 1;
        }
    }
    /// an identifier: leading zeros and the slash before the suffix are optional
    fn id(&mut self, s: &str) -> R {
        self.ws();
        self.zeros();
        for c in s.chars().filter(|c| *c != '/') {
            if self.t.get(self.i) == Some(&Tok::C('/')) {
                self.i += 1;
            }
            if c == ':' {
                self.lit(":")?;
                self.zeros();
                continue;
            }
            match self.t.get(self.i) {
                Some(Tok::C(d)) if d.to_lowercase().eq(c.to_lowercase()) => self.i += 1,
                _ => return Err(format!("expected identifier {s:?} at {:?}", self.rest())),
            }
        }
        Ok(())
    }
    pub fn text(&mut self, s: &str) -> R {
        self.ws();
        let norm: Vec<&str> = s.split_whitespace().collect();
        let mut prev = ' ';
        for (wi, w) in norm.iter().enumerate() {
            if wi > 0 {
                match self.t.get(self.i) {
                    Some(Tok::Ws(_)) => self.i += 1,
                    _ => return Err(format!("a space was invented before {w:?} in {s:?} at {:?}", self.rest())),
                }
            }
            for c in w.chars() {
                if let Some(Tok::Ws(nl)) = self.t.get(self.i) {
                    if *nl && prev == '-' {
                        self.i += 1;
                    } else {
                        return Err(format!("a space was lost in {w:?} of {s:?} at {:?}", self.rest()));
                    }
                }
                match self.t.get(self.i) {
                    Some(Tok::C(d)) if *d == c => self.i += 1,
                    _ => return Err(format!("text {s:?}: {c:?} expected at {:?}", self.rest())),
                }
                prev = c;
            }
        }
        Ok(())
    }
    fn bracketed(&mut self, s: &Option<String>) -> R {
        if let Some(s) = s {
            self.one(&['(', '['])?;
            // consecutive bracketed parts are joined: spaces and brackets inside are not judged
            const BR: &[char] = &['(', ')', '[', ']'];
            for c in s.chars().filter(|c| !c.is_whitespace() && !BR.contains(c)) {
                while matches!(self.t.get(self.i), Some(Tok::C(')' | ']' | '(' | '[')) | Some(Tok::Ws(_))) {
                    self.i += 1;
                }
                match self.t.get(self.i) {
                    Some(Tok::C(d)) if *d == c => self.i += 1,
                    _ => return Err(format!("bracketed text {s:?}: {c:?} expected at {:?}", self.rest())),
                }
            }
            for _ in s.chars().rev().filter(|c| !c.is_whitespace()).take_while(|c| BR.contains(c)) {
                self.one(BR)?;
            }
            self.one(&[')', ']'])?;
            self.empty_brackets();
        } else {
            self.empty_brackets();
        }
        Ok(())
    }
    /// "()" leaves nothing behind
    fn empty_brackets(&mut self) {
        loop {
            let mut k = self.i;
            let ws = |k: &mut usize| {
                while let Some(Tok::Ws(_)) = self.t.get(*k) {
                    *k += 1;
                }
            };
            ws(&mut k);
            if !matches!(self.t.get(k), Some(Tok::C('(' | '['))) {
                return;
            }
            k += 1;
            ws(&mut k);
            if !matches!(self.t.get(k), Some(Tok::C(')' | ']'))) {
                return;
            }
            self.i = k + 1;
        }
    }
    fn wrap(&mut self, s: &Option<String>) -> R {
        s.as_ref().map_or(Ok(()), |s| self.text(s))
    }
    fn alpha_subs(&mut self, v: &[AlphabeticSubpoint]) -> R {
        for e in v {
            self.id(&e.identifier.to_string())?;
            self.one(&[')'])?;
            self.leaf(&e.body)?;
        }
        Ok(())
    }
    fn num_subs(&mut self, v: &[NumericSubpoint]) -> R {
        for e in v {
            self.id(&e.identifier.to_string())?;
            self.one(&['.'])?;
            self.leaf(&e.body)?;
        }
        Ok(())
    }
    fn leaf<T: ChildrenCommon>(&mut self, b: &SAEBody<T>) -> R {
        match b {
            SAEBody::Text(t) => self.text(t),
            _ => Err("a subpoint with children".into()),
        }
    }
    fn alpha_points(&mut self, v: &[AlphabeticPoint]) -> R {
        for e in v {
            self.id(&e.identifier.to_string())?;
            self.one(&[')'])?;
            match &e.body {
                SAEBody::Text(t) => self.text(t)?,
                SAEBody::Children { intro, children, wrap_up } => {
                    self.text(intro)?;
                    match children {
                        AlphabeticPointChildren::AlphabeticSubpoint(v) => self.alpha_subs(v)?,
                        AlphabeticPointChildren::NumericSubpoint(v) => self.num_subs(v)?,
                    }
                    self.wrap(wrap_up)?;
                }
            }
        }
        Ok(())
    }
    fn num_points(&mut self, v: &[NumericPoint]) -> R {
        for e in v {
            self.id(&e.identifier.to_string())?;
            self.one(&['.'])?;
            match &e.body {
                SAEBody::Text(t) => self.text(t)?,
                SAEBody::Children { intro, children: NumericPointChildren::AlphabeticSubpoint(v), wrap_up } => {
                    self.text(intro)?;
                    self.alpha_subs(v)?;
                    self.wrap(wrap_up)?;
                }
            }
        }
        Ok(())
    }
    pub fn amendment_children(&mut self, c: &BlockAmendmentChildren) -> R {
        match c {
            BlockAmendmentChildren::Paragraph(v) => v.iter().try_for_each(|p| self.paragraph(p)),
            BlockAmendmentChildren::AlphabeticPoint(v) => self.alpha_points(v),
            BlockAmendmentChildren::NumericPoint(v) => self.num_points(v),
            BlockAmendmentChildren::AlphabeticSubpoint(v) => self.alpha_subs(v),
            BlockAmendmentChildren::NumericSubpoint(v) => self.num_subs(v),
        }
    }
    pub fn paragraph(&mut self, p: &Paragraph) -> R {
        let id = p.identifier.to_string();
        if !id.is_empty() {
            self.one(&['('])?;
            self.id(&id)?;
            self.one(&[')'])?;
        }
        match &p.body {
            SAEBody::Text(t) => self.text(t),
            SAEBody::Children { intro, children, wrap_up } => {
                self.text(intro)?;
                match children {
                    ParagraphChildren::AlphabeticPoint(v) => self.alpha_points(v)?,
                    ParagraphChildren::NumericPoint(v) => self.num_points(v)?,
                    ParagraphChildren::QuotedBlock(v) => {
                        let n = v.len();
                        for (i, b) in v.iter().enumerate() {
                            if i == 0 {
                                self.bracketed(&b.intro)?;
                            } else if b.intro.is_some() {
                                return Err("intro on a later block".into());
                            }
                            self.one(&['„', '“'])?;
                            for l in &b.lines {
                                self.text(l.content())?;
                            }
                            self.one(&['”'])?;
                            if i + 1 == n {
                                self.bracketed(&b.wrap_up)?;
                            } else if b.wrap_up.is_some() {
                                return Err("wrap-up on an earlier block".into());
                            }
                        }
                    }
                    _ => return Err("amendments before conversion".into()),
                }
                self.wrap(wrap_up)
            }
        }
    }
    pub fn child(&mut self, c: &ActChild) -> R {
        match c {
            ActChild::StructuralElement(se) => {
                let s = se.identifier.to_string();
                let digits = s.chars().take_while(|c| c.is_ascii_digit()).count();
                let n: u32 = s[..digits].parse().map_err(|_| "se id".to_string())?;
                match se.element_type {
                    StructuralElementType::Book => self.lit(&format!("{} KÖNYV", ordinal(n as usize)))?,
                    StructuralElementType::Part { is_special: false } => self.lit(&format!("{} RÉSZ", ordinal(n as usize)))?,
                    StructuralElementType::Part { is_special: true } => self.lit(&format!("{} RÉSZ", ["?", "ÁLTALÁNOS", "KÜLÖNÖS", "ZÁRÓ"][n as usize & 3]))?,
                    StructuralElementType::Title => {
                        self.id(&format!("{}{}", to_roman(n), &s[digits..]))?;
                        self.lit(". CÍM")?
                    }
                    StructuralElementType::Chapter => {
                        self.id(&format!("{}{}", to_roman(n), &s[digits..]))?;
                        self.lit(". FEJEZET")?
                    }
                }
                self.text(&se.title)
            }
            ActChild::Subtitle(st) => {
                if let Some(id) = &st.identifier {
                    self.id(&id.to_string())?;
                    self.one(&['.'])?;
                }
                self.text(&st.title)
            }
            ActChild::Article(a) => {
                self.id(&a.identifier.to_string())?;
                self.lit(".§")?;
                if let Some(t) = &a.title {
                    self.one(&['['])?;
                    self.text(t)?;
                    self.one(&[']'])?;
                }
                a.children.iter().try_for_each(|p| self.paragraph(p))
            }
        }
    }
    pub fn end(&mut self) -> R {
        self.ws();
        if self.i < self.t.len() {
            return Err(format!("lost: {:?}", self.rest()));
        }
        Ok(())
    }
    pub fn act(&mut self, a: &Act) -> R {
        self.text(&a.preamble)?;
        a.children.iter().try_for_each(|c| self.child(c))?;
        self.end()
    }
}

const COLS: &[f64] = &[40.0, 40.5, 65.0, 64.2, 75.0, 85.0, 20.0, 150.0];

/// A line that may look like any header, at any of a few columns
pub fn hostile_line(r: &mut Rng, cur: &mut [i64; 6]) -> MLine {
    let mut t = String::new();
    let next = |r: &mut Rng, v: &mut i64| {
        *v = match r.below(10) {
            0 => 1,
            1 => *v,
            2 => *v + 2,
            _ => *v + 1,
        };
        *v
    };
    let lets = |n: i64| ((b'a' + (n.clamp(1, 26) - 1) as u8) as char).to_string();
    match r.below(24) {
        0..=2 => t = format!("{}. § ", next(r, &mut cur[0])),
        3 => t = format!("{}. § ({}) ", next(r, &mut cur[0]), { cur[1] = 1; 1 }),
        4 => t = format!("{}. § [", next(r, &mut cur[0])),
        5..=7 => t = format!("({}) ", next(r, &mut cur[1])),
        8..=10 => t = format!("{}) ", lets(next(r, &mut cur[2]))),
        11..=12 => t = format!("{}. ", next(r, &mut cur[3])),
        13..=14 => t = format!("{}{}) ", lets(cur[2]), lets(next(r, &mut cur[4]))),
        15 => return plain_line(&format!("{}. FEJEZET", to_roman(r.range(1, 30) as u32)), 200.0, r.chance(1, 2), false),
        16 => return plain_line(&format!("{}. Alcím{}", r.range(1, 9), if r.chance(1, 2) { "e" } else { " címe" }), 150.0, r.chance(2, 3), false),
        17 => return MLine { chars: vec![], justified: false },
        _ => {}
    }
    match r.below(10) {
        0 => t += "„",
        1 => t += "(",
        _ => {}
    }
    for i in 0..r.below(6) {
        if i > 0 {
            t.push(' ');
        }
        match r.below(20) {
            0 => t += &inline_quote(r, 0),
            1 => t += &hostile_header(r),
            _ => t += &word(r),
        }
    }
    t += *r.pick(&["", "", "", "", ":", ".", "”", ")", "]", "-", " §", " RÉSZ", ";"]);
    if r.chance(1, 30) {
        t.push(' ');
    }
    plain_line(&t, *r.pick(COLS), r.chance(1, 12), r.chance(1, 2))
}

pub fn hostile_body(r: &mut Rng) -> Vec<MLine> {
    let mut cur = [0i64; 6];
    let n = r.range(1, 25);
    let mut v: Vec<MLine> = (0..n).map(|_| hostile_line(r, &mut cur)).collect();
    if r.chance(2, 3) {
        balance(&mut v);
    }
    if r.chance(3, 4) {
        let t = format!("1. § {}", v[0].text());
        v.insert(0, plain_line(&t, 40.0, false, true));
    }
    v
}

/// Remove the quotation marks that make a body unbalanced
fn balance(v: &mut [MLine]) {
    let mut level = 0i64;
    let mut opens: Vec<(usize, usize)> = vec![];
    let mut drop: Vec<(usize, usize)> = vec![];
    for (i, l) in v.iter().enumerate() {
        for (j, c) in l.chars.iter().enumerate() {
            match c.1 {
                '„' | '“' => {
                    level += 1;
                    opens.push((i, j));
                }
                '”' => {
                    if level == 0 {
                        drop.push((i, j));
                    } else {
                        level -= 1;
                        opens.pop();
                    }
                }
                _ => {}
            }
        }
    }
    drop.extend(opens);
    for (i, j) in drop {
        v[i].chars[j].1 = 'x';
    }
}

pub fn mutate_body(r: &mut Rng, v: &mut Vec<MLine>) {
    for _ in 0..r.range(1, 4) {
        if v.is_empty() {
            return;
        }
        let i = r.below(v.len());
        match r.below(12) {
            0 => {
                v.remove(i);
            }
            1 => {
                let l = v[i].clone();
                v.insert(r.below(v.len()), l);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            3 | 4 => {
                let d = *r.pick(&[-30.0, -10.0, -1.0, 1.0, 10.0, 30.0]);
                v[i].chars.iter_mut().for_each(|c| c.0 += d);
            }
            5 => v[i].chars.iter_mut().for_each(|c| c.2 = !c.2),
            6 => v.insert(i, MLine { chars: vec![], justified: false }),
            7 => {
                let x = v[i].chars.first().map_or(50.0, |c| c.0);
                let t = format!("{} {}", hostile_header(r), v[i].text());
                v[i] = plain_line(&t, x, false, true);
            }
            8 => {
                // cut a line in two
                let n = v[i].chars.len();
                if n > 4 {
                    let k = r.range(1, n as i64 - 1) as usize;
                    let mut tail = v[i].chars.split_off(k);
                    while tail.first().map_or(false, |c| c.1 == ' ') {
                        tail.remove(0);
                    }
                    v.insert(i + 1, MLine { chars: tail, justified: true });
                }
            }
            9 => {
                let n = v[i].chars.len();
                if n > 1 {
                    let k = r.below(n);
                    v[i].chars[k].1 = *r.pick(&['„', '”', '(', ')', '[', ']', '§', '.', '-', ':', ' ', '1', 'a']);
                }
            }
            10 => {
                let t = v[i].text();
                v[i] = plain_line(&t, *r.pick(COLS), false, r.chance(1, 2));
            }
            _ => {
                let mut cur = [1; 6];
                v.insert(i, hostile_line(r, &mut cur));
            }
        }
    }
}

pub fn raw_of(body: &[MLine]) -> ActRawText {
    ActRawText {
        identifier: hun_law::identifier::ActIdentifier { year: 2020, number: 5 },
        subject: "a próbáról".into(),
        publication_date: chrono::NaiveDate::from_ymd_opt(2020, 1, 2).unwrap(),
        body: body.iter().map(|l| l.real()).collect(),
    }
}

fn conserve(m: &mut Mon, key: &str, raw: &ActRawText) {
    // panics are judged by C22
    match crate::mon::guard(|| parse_act_structure(raw)) {
        Err(_) => m.count("panics_not_judged_here", 1),
        Ok(Err(_)) => m.count("refused", 1),
        Ok(Ok(act)) => {
            m.count("accepted", 1);
            m.count("characters_accounted_for", raw.body.iter().map(|l| l.len() as u64).sum());
            m.observe(&show(raw), act.children.len() > 1);
            m.sample(|| show(raw));
            let s = stream(&raw.body);
            if let Err(e) = Eat::new(&s).act(&act) {
                m.fail(&format!("{key}:words"), format!("{e}\n{}\n{act:#?}", show(raw)));
            }
            m.check(
                act.identifier == raw.identifier && act.subject == raw.subject && act.publication_date == raw.publication_date,
                &format!("{key}:header"),
                || format!("{:?} {:?}", act.identifier, act.subject),
            );
        }
    }
}

fn c05(env: &Env, m: &mut Mon) {
    env.suite(m, "hostile", env.n(300_000, 6_000_000), |r, m| {
        let b = hostile_body(r);
        conserve(m, "hostile", &raw_of(&b));
    });
    env.suite(m, "mutated", env.n(24_000, 600_000), |r, m| {
        let act = gen_act(r, &Cfg { quotes: 2, blocks: 4, tricky: 4, long: false }, 5);
        let raw = typeset(r, &act);
        let mut b: Vec<MLine> = raw.body.iter().map(model_of).collect();
        conserve(m, "printed", &raw);
        for _ in 0..3 {
            mutate_body(r, &mut b);
            conserve(m, "mutated", &raw_of(&b));
        }
    });
    let docs: Vec<_> = corpus_docs("structure").into_iter().chain(corpus_docs("amendments")).map(|d| d.1).collect();
    env.suite(m, "corpus", env.n(15_000, 400_000), |r, m| {
        let raw = r.pick(&docs);
        let mut b: Vec<MLine> = raw.body.iter().map(model_of).collect();
        conserve(m, "corpus", raw);
        for _ in 0..4 {
            mutate_body(r, &mut b);
            conserve(m, "corpus-mutated", &raw_of(&b));
        }
    });
}

// ---------------------------------------------------------------- C07: quotations

/// Is the body balanced at every line end?
fn balanced(raw: &ActRawText) -> bool {
    let mut level = 0;
    for l in &raw.body {
        level += quote_level(l.content());
        if level < 0 {
            return false;
        }
    }
    level == 0
}

fn c07(env: &Env, m: &mut Mon) {
    env.suite(m, "printed", env.n(25_000, 500_000), |r, m| {
        let act = gen_act(r, &Cfg { quotes: 12, blocks: 8, tricky: 1, long: false }, 5);
        let raw = typeset(r, &act);
        if round_trip(m, "quoted", &act, &raw) {
            let q = raw.body.iter().filter(|l| l.content().contains('„') || l.content().contains('“')).count();
            let nested = {
                let (mut lv, mut best) = (0i64, 0i64);
                for l in &raw.body {
                    for c in l.content().chars() {
                        lv += quote_level(&c.to_string());
                        best = best.max(lv);
                    }
                }
                best
            };
            m.count_max("max_nesting", nested as u64);
            m.count("lines_with_quotes", q as u64);
            m.observe(&show(&raw), q > 0);
            m.sample(|| show(&raw));
        }
    });
    // the same act with the quoted words replaced: the frame must not change
    env.suite(m, "replaced", env.n(12_000, 200_000), |r, m| {
        let act = gen_act(r, &Cfg { quotes: 10, blocks: 6, tricky: 0, long: false }, 4);
        let raw = typeset(r, &act);
        let Ok(Ok(base)) = crate::mon::guard(|| parse_act_structure(&raw)) else {
            m.fail("replaced:base", format!("refused:\n{}", show(&raw)));
            return;
        };
        let mut level = 0i64;
        let mut b: Vec<MLine> = raw.body.iter().map(model_of).collect();
        for l in &mut b {
            // hyphens and conjunctions at line ends decide about spaces
            let keep = if l.text().starts_with("és ") { 2 } else if l.text().starts_with("vagy ") { 4 } else { 0 };
            for (ci, c) in l.chars.iter_mut().enumerate() {
                match c.1 {
                    '„' | '“' => level += 1,
                    '”' => level -= 1,
                    _ if level > 0 && c.1 != ' ' && c.1 != '-' && ci >= keep => c.1 = 'x',
                    _ => {}
                }
            }
        }
        let raw2 = ActRawText { body: b.iter().map(|l| l.real()).collect(), ..raw.clone() };
        match crate::mon::guard(|| parse_act_structure(&raw2)) {
            Ok(Ok(other)) => {
                let f = |a: &Act| frame(a);
                m.eq(&f(&other), &f(&base), "replaced:frame", || show(&raw));
                m.observe(&show(&raw), true);
                m.count("frames_compared", 1);
            }
            e => m.fail("replaced:parse", format!("{e:?}\n{}", show(&raw2))),
        }
    });
    env.suite(m, "unbalanced", env.n(100_000, 2_000_000), |r, m| {
        let mut b = if r.chance(1, 2) {
            hostile_body(r)
        } else {
            let act = gen_act(r, &Cfg { quotes: 4, blocks: 4, tricky: 2, long: false }, 3);
            typeset(r, &act).body.iter().map(model_of).collect()
        };
        // add or remove a mark somewhere
        for _ in 0..r.range(1, 3) {
            let i = r.below(b.len());
            let n = b[i].chars.len();
            if n == 0 {
                continue;
            }
            let k = r.below(n);
            b[i].chars[k].1 = *r.pick(&['„', '”', '“', '”', 'x']);
        }
        let raw = raw_of(&b);
        let bal = balanced(&raw);
        match crate::mon::guard(|| parse_act_structure(&raw)) {
            Err(_) => m.count("panics_not_judged_here", 1),
            Ok(res) => {
                m.observe(&show(&raw), !bal);
                if bal {
                    m.count("balanced", 1);
                } else {
                    m.count("unbalanced_refused", 1);
                    m.check(res.is_err(), "unbalanced:accepted", || show(&raw));
                }
            }
        }
    });
}

/// Everything of the tree but the quoted words
fn frame(a: &Act) -> String {
    let mut a = a.clone();
    quoted_paragraphs(&mut a, &mut |b| {
        b.iter_mut().for_each(|b| b.lines = b.lines.iter().map(|_| hun_law::util::indentedline::EMPTY_LINE).collect())
    });
    let s = format!("{a:?}");
    let mut level = 0;
    s.chars()
        .map(|c| {
            match c {
                '„' | '“' => level += 1,
                '”' => level -= 1,
                _ if level > 0 && c != ' ' => return 'x',
                _ => {}
            }
            c
        })
        .collect()
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C04",
            level: "exploration",
            rule: "random act trees printed with random line breaks, columns, empty lines, header spellings; distinct by tree and line count, non-trivial when it has paragraphs",
            assumptions: &["printing follows the gazette's conventions as documented in DESIGN.md (hanging indents, at least two children)"],
            run: c04,
        },
        Check {
            id: "C05",
            level: "exploration",
            rule: "random header-like line sequences, mutated printed acts and mutated stored documents; only accepted bodies count, non-trivial with two or more children; distinct by body",
            assumptions: &["whitespace amounts are not compared, brackets around titles, block intros and wrap-ups are structure"],
            run: c05,
        },
        Check {
            id: "C07",
            level: "exploration",
            rule: "acts with header look-alikes inside quotations (inline, nested, blocks, any column), their de-headered twins, and unbalanced bodies; distinct by body",
            assumptions: &["quotation balance is judged at line ends, as lines are what the reader produces"],
            run: c07,
        },
    ]
}
