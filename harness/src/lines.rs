//! Line workloads and the reference model of a positioned line.
use hun_law::util::indentedline::{IndentedLine, IndentedLinePart};

use crate::{mon::Mon, rng::Rng};

#[derive(Debug, Clone, PartialEq)]
pub struct MLine {
    /// absolute position, character, bold
    pub chars: Vec<(f64, char, bool)>,
    pub justified: bool,
}

#[allow(dead_code)]
impl MLine {
    pub fn real(&self) -> IndentedLine {
        let mut x = 0.0;
        let parts = self
            .chars
            .iter()
            .map(|(ax, c, b)| {
                let p = IndentedLinePart { dx: ax - x, content: *c, bold: *b };
                x = *ax;
                p
            })
            .collect();
        IndentedLine::from_parts(parts, self.justified)
    }
    pub fn text(&self) -> String {
        self.chars.iter().map(|c| c.1).collect()
    }
    pub fn bold(&self) -> bool {
        let b = self.chars.iter().filter(|c| c.2).count();
        b * 3 > self.chars.len() * 2
    }
    pub fn slice(&self, from: i64, to: Option<i64>) -> MLine {
        let n = self.chars.len() as i64;
        let fix = |i: i64| if i < 0 { (n + i.max(-n)).max(0) } else { i.min(n) };
        let (f, t) = (fix(from), to.map_or(n, fix));
        if t <= f {
            return MLine { chars: vec![], justified: false };
        }
        MLine { chars: self.chars[f as usize..t as usize].to_vec(), justified: self.justified && t == n }
    }
    pub fn concat(v: &[MLine]) -> MLine {
        MLine {
            chars: v.iter().flat_map(|l| l.chars.iter().copied()).collect(),
            justified: v.iter().rev().find(|l| !l.chars.is_empty()).map_or(false, |l| l.justified),
        }
    }
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-6
}

/// Compare every observable of a line with the model. `bold`/`just`: compare those flags too.
pub fn same_line(m: &mut Mon, key: &str, l: &IndentedLine, w: &MLine, ctx: &dyn Fn() -> String) -> bool {
    let n = w.chars.len();
    let mut ok = true;
    ok &= m.check(l.content() == w.text(), &format!("{key}:text"), || format!("{}: got {:?} want {:?}", ctx(), l.content(), w.text()));
    if !ok {
        return false;
    }
    ok &= m.check(l.len() == n && l.is_empty() == (n == 0), &format!("{key}:len"), || format!("{} {:?}", ctx(), l));
    ok &= m.check(l.is_bold() == w.bold(), &format!("{key}:bold"), || format!("{} {:?}", ctx(), w));
    if n > 0 {
        ok &= m.check(l.is_justified() == w.justified, &format!("{key}:justified"), || format!("{} {:?}", ctx(), w));
    }
    ok &= m.check(close(l.indent(), w.chars.first().map_or(0.0, |c| c.0)), &format!("{key}:indent"), || format!("{} {} want {:?}", ctx(), l.indent(), w.chars.first()));
    for i in 0..n {
        let got = l.indent_at(i as i64);
        if !m.check(close(got, w.chars[i].0), &format!("{key}:position"), || format!("{} char {i}: got {got} want {}", ctx(), w.chars[i].0)) {
            return false;
        }
    }
    ok
}

pub const WORDS: &[&str] = &[
    "a", "az", "törvény", "rendelet", "bekezdés", "szerinti", "és", "vagy", "nem", "alap-", "Minden", "Ön", "kormány",
    "(1)", "a)", "1.", "§", "pont", "lép", "hatályba", "őű", "ÉÁ", "évi", "V.", "2013.", "ba)", "hivatal-", "út–", "x",
    "adatszolgáltatási", "kötelezettség", "e", "ezen", "ha", "kell", "(2)", "bb)", "\"", "mellett,", "illetve", "🦀", "ẞ",
];

pub fn gen_words(r: &mut Rng, lo: usize, hi: usize) -> String {
    let n = r.range(lo as i64, hi as i64) as usize;
    (0..n).map(|_| *r.pick(WORDS)).collect::<Vec<_>>().join(" ")
}

/// Positions are multiples of 1/4, so that sums are exact
pub fn line_from_text(r: &mut Rng, text: &str, bold: u32) -> MLine {
    let mut x = r.range(0, 800) as f64 / 4.0;
    let mut chars = vec![];
    let all_bold = r.chance(bold, 8);
    let mixed = r.chance(bold, 8);
    for c in text.chars() {
        let b = if mixed { r.chance(2, 3) } else { all_bold };
        chars.push((x, c, b));
        x += r.range(1, 60) as f64 / 4.0;
    }
    MLine { chars, justified: r.chance(2, 3) }
}

pub fn gen_line(r: &mut Rng) -> MLine {
    let t = match r.below(10) {
        0 => String::new(),
        1 => gen_words(r, 1, 1),
        _ => gen_words(r, 1, 7),
    };
    line_from_text(r, &t, 2)
}
