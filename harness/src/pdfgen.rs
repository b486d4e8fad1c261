//! Synthetic PDFs. A page is laid out first (segments: fonts, sizes, positions, spacing), from which
//! the placement model computes where every character lands; it is then drawn by an emitter that picks
//! operators, order, fonts' resource names, forms, save/restore nesting and stream encodings at random.
use std::{collections::BTreeMap, fmt::Write as _, io::Write as _};

use hun_law::parser::pdf::CropBox;

use crate::{
    enc_tables::{CP1252, MACROMAN},
    lines::MLine,
    rng::Rng,
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Kind {
    Type1,
    TrueType,
    Type0,
}

#[derive(Debug, Clone)]
pub struct FontSpec {
    pub kind: Kind,
    pub name: String,
    pub bold: bool,
    /// PDF name of the base encoding, if any
    pub base: Option<&'static str>,
    pub differences: BTreeMap<u32, &'static str>,
    pub to_unicode: BTreeMap<u32, String>,
    /// what each usable code shows
    pub map: BTreeMap<u32, String>,
    pub widths: BTreeMap<u32, f64>,
    pub default_width: f64,
    pub first_char: u32,
}

const GLYPHS: &[(&str, &str)] = &[
    ("aacute", "á"), ("eacute", "é"), ("odieresis", "ö"), ("ohungarumlaut", "ő"), ("uhungarumlaut", "ű"), ("udieresis", "ü"),
    ("section", "§"), ("quotedblbase", "„"), ("quotedblright", "”"), ("endash", "–"), ("Ohungarumlaut", "Ő"), ("A", "A"),
    ("b", "b"), ("period", "."), ("one", "1"), ("parenleft", "("), ("parenright", ")"), ("otilde", "õ"), ("ucircumflex", "û"),
    ("g123", ""), ("glyph17", ""), ("iacute", "í"), ("T", "T"), ("space", " "), ("Euro", "€"), ("oacute", "ó"),
];

pub const ALPHABET: &str = "aábcdeéfghiíjklmnoóöőpqrstuúüűvwxyzAÁBCDEÉFGHIÍJKLMNOÓÖŐPQRSTUÚÜŰVWXYZ0123456789§.,:;()-/„”–";

impl FontSpec {
    pub fn gen(r: &mut Rng, i: usize) -> FontSpec {
        let kind = *r.pick(&[Kind::Type1, Kind::TrueType, Kind::Type0]);
        let bold = r.chance(1, 3);
        let prefix: String = if r.chance(1, 2) { (0..6).map(|_| (b'A' + r.below(26) as u8) as char).collect::<String>() + "+" } else { String::new() };
        let name = prefix
            + &match (bold, r.below(3)) {
                (true, 0) => format!("Times{i}-Bold"),
                (true, 1) => format!("Arial{i},BoldItalic"),
                (true, _) => format!("semibold{i}"),
                (false, 0) => format!("Times{i}-Roman"),
                (false, 1) => format!("BOLD{i}"), // not a bold name: neither Bold nor bold
                (false, _) => format!("Arial{i},Italic"),
            };
        let mut map = BTreeMap::new();
        let mut base = None;
        let mut differences = BTreeMap::new();
        let mut to_unicode = BTreeMap::new();
        if kind == Kind::Type0 {
            base = Some("Identity-H");
            let custom = r.chance(2, 3);
            if custom {
                // glyph numbers assigned at random, beyond 1000 for some
                let mut cids: Vec<u32> = (1..=110).collect();
                cids.extend([255, 256, 999, 1000, 1001, 1002, 4711, 65535]);
                r.shuffle(&mut cids);
                let mut texts: Vec<String> = ALPHABET.chars().map(|c| c.to_string()).collect();
                texts.extend(["fi", "ffi", "fl", "tt", "gy", "…", "õ", "Û", "🦀"].map(|s| s.to_string()));
                for (cid, t) in cids.into_iter().zip(texts) {
                    to_unicode.insert(cid, t.clone());
                    map.insert(cid, t);
                }
            } else {
                for c in ALPHABET.chars().chain("õÕûÛ€".chars()) {
                    map.insert(c as u32, c.to_string());
                }
                map.insert(32, " ".into());
                if r.chance(1, 2) {
                    for (cid, t) in [(3, "ő"), (1500, "fi"), (65, "Á"), (66, "sz")] {
                        to_unicode.insert(cid, t.to_string());
                        map.insert(cid, t.to_string());
                    }
                }
            }
        } else {
            match r.below(4) {
                0 | 1 => {
                    base = Some("WinAnsiEncoding");
                    for c in 32..256u32 {
                        if CP1252[c as usize] != 0 {
                            map.insert(c, char::from_u32(CP1252[c as usize]).unwrap().to_string());
                        }
                    }
                    for c in [129, 141, 143, 144, 157] {
                        map.insert(c, "\u{2022}".to_string());
                    }
                }
                2 => {
                    base = Some("MacRomanEncoding");
                    for c in 32..256u32 {
                        if MACROMAN[c as usize] != 0 {
                            map.insert(c, char::from_u32(MACROMAN[c as usize]).unwrap().to_string());
                        }
                    }
                }
                _ => {
                    if r.chance(1, 2) {
                        base = Some("StandardEncoding");
                        for c in (32..127u32).filter(|c| *c != 45) {
                            map.insert(c, char::from_u32(c).unwrap().to_string());
                        }
                        for (c, s) in [(39, "’"), (96, "‘"), (167, "§"), (185, "„"), (186, "”"), (177, "–"), (208, "—"), (251, "ß"), (183, "•")] {
                            map.insert(c, s.to_string());
                        }
                    }
                }
            }
            if map.is_empty() || r.chance(1, 2) {
                let mut code = r.range(1, 200) as u32;
                for _ in 0..r.range(if map.is_empty() { 20 } else { 1 }, 40) {
                    if code > 255 {
                        code = 1;
                    }
                    let (g, t) = *r.pick(GLYPHS);
                    differences.insert(code, g);
                    map.insert(code, t.to_string());
                    code += if r.chance(1, 5) { r.range(2, 30) as u32 } else { 1 };
                }
            }
            if r.chance(1, 3) {
                // ToUnicode has the last word
                let codes: Vec<u32> = map.keys().copied().collect();
                let all = r.chance(1, 3);
                for c in codes {
                    if all || r.chance(1, 4) {
                        let t = match r.below(8) {
                            0 => "fi".to_string(),
                            1 => "ffl".to_string(),
                            _ => {
                                let a: Vec<char> = ALPHABET.chars().collect();
                                r.pick(&a).to_string()
                            }
                        };
                        to_unicode.insert(c, t.clone());
                        map.insert(c, t);
                    }
                }
            }
        }
        let default_width = if kind == Kind::Type0 { *r.pick(&[1000.0, 500.0, 600.0]) } else { 0.0 };
        let mut widths = BTreeMap::new();
        for c in map.keys() {
            if kind == Kind::Type0 && r.chance(1, 6) {
                continue; // default width
            }
            widths.insert(*c, r.range(250, 950) as f64);
        }
        // the width of code 32 tells how wide a space is
        match r.below(5) {
            0 => {
                widths.remove(&32);
            }
            1 => {
                widths.insert(32, *r.pick(&[0.0, 1000.0]));
            }
            _ => {
                widths.insert(32, r.range(180, 400) as f64);
            }
        }
        if map.get(&32).map_or(false, |t| t != " ") && widths.get(&32).map_or(default_width, |w| *w) == 0.0 {
            widths.insert(32, 300.0); // not a space and shown: give it an extent
        }
        let first_char = *widths.keys().next().unwrap_or(&0);
        FontSpec { kind, name, bold, base, differences, to_unicode, map, widths, default_width, first_char }
    }
    /// A font that differs from this one in one respect only
    pub fn sibling(&self, r: &mut Rng, i: usize) -> FontSpec {
        let mut f = self.clone();
        let codes: Vec<u32> = f.map.iter().filter(|(c, t)| **c != 32 && !t.trim().is_empty()).map(|(c, _)| *c).collect();
        match r.below(6) {
            // the same name for another font
            0 => {
                let mut g = FontSpec::gen(r, i);
                g.name = f.name;
                g.bold = f.bold;
                f = g;
            }
            1 | 2 if f.kind != Kind::Type0 => {
                for c in codes {
                    if !f.to_unicode.contains_key(&c) && r.chance(1, 3) {
                        let (g, t) = *r.pick(&GLYPHS[..19]);
                        f.differences.insert(c, g);
                        f.map.insert(c, t.to_string());
                    }
                }
            }
            1..=3 => {
                let a: Vec<char> = ALPHABET.chars().collect();
                for c in codes {
                    if r.chance(1, 2) {
                        let t = r.pick(&a).to_string();
                        f.to_unicode.insert(c, t.clone());
                        f.map.insert(c, t);
                    }
                }
            }
            4 => {
                for (c, w) in f.widths.iter_mut() {
                    if *c != 32 && r.chance(1, 2) {
                        *w = r.range(250, 950) as f64;
                    }
                }
                if f.widths.get(&32).map_or(false, |w| *w > 1.0 && *w < 500.0) {
                    f.widths.insert(32, r.range(180, 400) as f64);
                }
            }
            _ => {
                f.bold = !f.bold;
                f.name = if f.bold { format!("Times{i}-Bold") } else { format!("Times{i}-Roman") };
            }
        }
        f
    }
    pub fn width(&self, code: u32) -> f64 {
        if let Some(w) = self.widths.get(&code) {
            return *w;
        }
        self.default_width
    }
    /// Width of a space in ems
    pub fn space(&self) -> f64 {
        let w = self.width(32) / 1000.0;
        if w == 0.0 || w == 1.0 {
            0.25
        } else {
            w
        }
    }
    fn descriptor(&self) -> String {
        format!("<</Type/FontDescriptor/FontName/{}/Flags 32/FontBBox[0 -200 1000 900]/ItalicAngle 0/Ascent 800/Descent -200/CapHeight 700/StemV 80>>", self.name)
    }
    fn base_font(&self) -> String {
        format!("/BaseFont/{}", self.name)
    }
    fn cmap(&self, r: &mut Rng) -> Vec<u8> {
        let hex = |c: u32| if self.kind == Kind::Type0 { format!("<{c:04X}>") } else { format!("<{c:02X}>") };
        let uni = |t: &str| format!("<{}>", t.encode_utf16().map(|u| format!("{u:04X}")).collect::<String>());
        let mut s = String::from("/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CMapName /Adobe-Identity-UCS def\n1 begincodespacerange\n<00> <FF>\nendcodespacerange\n");
        let entries: Vec<_> = self.to_unicode.iter().collect();
        let mut i = 0;
        while i < entries.len() {
            let (c, t) = entries[i];
            // a run of consecutive codes, possibly as a range
            let mut j = i;
            while j + 1 < entries.len() && *entries[j + 1].0 == c + (j + 1 - i) as u32 && (c & 0xff) + ((j + 1 - i) as u32) < 256 && j - i < 20 {
                j += 1;
            }
            if j > i && r.chance(1, 2) {
                let arr: String = entries[i..=j].iter().map(|e| uni(e.1)).collect::<Vec<_>>().join(" ");
                let _ = writeln!(s, "1 beginbfrange\n{} {} [{}]\nendbfrange", hex(*c), hex(*entries[j].0), arr);
                i = j + 1;
            } else {
                let _ = writeln!(s, "1 beginbfchar\n{} {}\nendbfchar", hex(*c), uni(t));
                i += 1;
            }
        }
        s += "endcmap\nend end\n";
        s.into_bytes()
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Item {
    Code(u32),
    /// thousandths of an em, as in TJ
    Adjust(f64),
}

/// A run of text with its own parameters: where it starts, how it is set
#[derive(Debug, Clone)]
pub struct Segment {
    pub font: usize,
    pub size: f64,
    pub tz: f64,
    pub tc: f64,
    pub tw: f64,
    pub rise: f64,
    /// scale of the text matrix
    pub a: f64,
    pub d: f64,
    pub x: f64,
    pub y: f64,
    pub items: Vec<Item>,
    pub actual: Option<String>,
}

#[derive(Debug, Clone)]
pub struct MChar {
    pub x: f64,
    pub y: f64,
    pub width: f64,
    pub space: f64,
    pub bold: bool,
    pub c: char,
}

fn quirk(c: char) -> char {
    match c {
        'Õ' => 'Ő',
        'õ' => 'ő',
        'Û' => 'Ű',
        'û' => 'ű',
        c => c,
    }
}

impl Segment {
    /// The placement model: where each character of this run lands, and where the run ends
    pub fn place(&self, fonts: &[FontSpec]) -> (Vec<MChar>, f64) {
        let f = &fonts[self.font];
        let em = self.size * self.tz / 100.0 * self.a; // horizontal extent of an em on the page
        let mut x = self.x;
        let y = self.y + self.rise * self.d;
        let mut out = vec![];
        let (mut first, mut last_end) = (None, x);
        let put = |out: &mut Vec<MChar>, x: f64, width: f64, text: &str| {
            let n = text.chars().count() as f64;
            for (i, c) in text.chars().enumerate() {
                let c = quirk(c);
                if !c.is_whitespace() {
                    out.push(MChar { x: x + i as f64 * width / n, y, width: width / n, space: f.space() * em, bold: f.bold, c });
                }
            }
        };
        for it in &self.items {
            match *it {
                Item::Adjust(v) => x -= v / 1000.0 * em,
                Item::Code(c) => {
                    let w = f.width(c) / 1000.0 * em;
                    first.get_or_insert(x);
                    last_end = x + w;
                    if self.actual.is_none() {
                        put(&mut out, x, w, &f.map[&c]);
                    }
                    x += w + (self.tc + if c == 32 { self.tw } else { 0.0 }) * self.tz / 100.0 * self.a;
                }
            }
        }
        if let (Some(t), Some(x0)) = (&self.actual, first) {
            put(&mut out, x0, last_end - x0, t);
        }
        (out, x)
    }
}

#[derive(Debug, Clone, Default)]
pub struct Page {
    pub segments: Vec<Segment>,
}

fn q(v: f64, den: f64) -> f64 {
    (v * den).round() / den
}

fn word(r: &mut Rng, f: &FontSpec, inv: &BTreeMap<char, u32>) -> Vec<Item> {
    let codes: Vec<u32> = f.map.keys().copied().filter(|c| f.map[c] != " ").collect();
    let mut v = vec![];
    let w = *r.pick(crate::lines::WORDS);
    if r.chance(1, 2) {
        for c in w.chars() {
            v.push(Item::Code(inv.get(&c).copied().unwrap_or_else(|| *r.pick(&codes))));
        }
    } else {
        for _ in 0..r.range(1, 8) {
            v.push(Item::Code(*r.pick(&codes)));
        }
    }
    v
}

impl Page {
    pub fn gen(r: &mut Rng, fonts: &[FontSpec], max_lines: i64) -> Page {
        let mut segments = vec![];
        let mut y = q(r.f(700.0, 830.0), 100.0);
        let invs: Vec<BTreeMap<char, u32>> = fonts
            .iter()
            .map(|f| f.map.iter().filter(|(_, t)| t.chars().count() == 1).map(|(c, t)| (t.chars().next().unwrap(), *c)).collect())
            .collect();
        let n = r.range(0, max_lines);
        let used: Vec<usize> = (0..r.range(1, fonts.len() as i64)).map(|_| r.below(fonts.len())).collect();
        let jitter = r.chance(1, 3);
        let right = if r.chance(1, 2) { Some(r.f(300.0, 650.0)) } else { None };
        let usual_x = q(r.f(20.0, 200.0), 100.0);
        let usual_size = q(r.f(7.0, 14.0), 10.0);
        for _ in 0..n {
            let mut x = if r.chance(1, 2) { usual_x } else { q(r.f(20.0, 200.0), 100.0) };
            let line_start = segments.len();
            for _ in 0..r.range(1, 4) {
                let font = *r.pick(&used);
                let f = &fonts[font];
                let usual = r.chance(2, 3);
                let scaled = r.chance(1, 4);
                let (mut a, mut d) = (1.0, 1.0);
                let mut size = if usual { usual_size } else { q(r.f(5.0, 20.0), 10.0) };
                if scaled {
                    a = size;
                    d = if r.chance(2, 3) { size } else { q(r.f(5.0, 12.0), 10.0) };
                    size = *r.pick(&[1.0, 1.0, 2.0, 0.5]);
                }
                let unit = if scaled { 1.0 / a } else { 1.0 };
                let tz = if usual { 100.0 } else { *r.pick(&[100.0, 80.0, 95.5, 120.0]) };
                let tc = if r.chance(2, 3) { 0.0 } else { q(r.f(-0.25, 1.5) * unit, 1e4) };
                // (word spacing has no meaning for two-byte codes, so none there)
                let tw = if f.kind == Kind::Type0 || r.chance(2, 3) { 0.0 } else { q(r.f(-0.5, 4.0) * unit, 1e4) };
                let rise = if r.chance(7, 8) { 0.0 } else { q(r.f(-4.0, 4.0) * unit, 100.0) };
                let mut items = vec![];
                for k in 0..r.range(1, 5) {
                    if k > 0 {
                        match r.below(4) {
                            0 if f.map.get(&32).map_or(false, |t| t == " ") => items.push(Item::Code(32)),
                            1 => items.push(Item::Adjust(-(r.range(10, 900) as f64))),
                            2 => {
                                items.push(Item::Adjust(-(r.range(100, 900) as f64)));
                                if f.map.get(&32).map_or(false, |t| t == " ") {
                                    items.push(Item::Code(32));
                                }
                            }
                            _ => {}
                        }
                    }
                    for it in word(r, f, &invs[font]) {
                        if r.chance(1, 12) {
                            items.push(Item::Adjust(r.range(-150, 60) as f64));
                        }
                        items.push(it);
                    }
                }
                let actual = if r.chance(1, 8) {
                    Some(crate::lines::gen_words(r, 1, 3))
                } else {
                    None
                };
                let dy = if jitter { q(r.f(-0.21, 0.21), 100.0) } else { 0.0 };
                let mut s = Segment { font, size, tz, tc, tw, rise, a, d, x: q(x, 1e3), y: q(y + dy, 100.0), items, actual };
                if !scaled && segments.len() == line_start && r.chance(1, 10) {
                    // set from the origin: moved into place by the rise and a leading adjustment alone
                    s.items.insert(0, Item::Adjust(-q(s.x / (s.size * s.tz / 100.0) * 1000.0, 1.0).max(2000.0)));
                    s.rise = s.y;
                    (s.x, s.y) = (0.0, 0.0);
                }
                let (chars, end) = s.place(fonts);
                let far = chars.last().map_or(end, |c| end.max(c.x + c.width * 0.6));
                x = far + match r.below(5) {
                    0 => r.f(0.05, 1.0),
                    1 => r.f(0.5, 4.0),
                    _ => r.f(2.0, 40.0),
                };
                segments.push(s);
                if x > 640.0 {
                    break;
                }
            }
            if let Some(right) = right {
                // set flush right, or just short of it
                let chars: Vec<MChar> = segments[line_start..].iter().flat_map(|s: &Segment| s.place(fonts).0).collect();
                if let Some(last) = chars.iter().max_by(|a, b| a.x.partial_cmp(&b.x).unwrap()) {
                    let by = right - last.space * *r.pick(&[0.0, 0.0, 0.0, 0.7, 0.9, 0.5, 3.0]) - (last.x + last.width);
                    for s in &mut segments[line_start..] {
                        if s.y == 0.0 {
                            (s.y, s.rise) = (s.rise, 0.0);
                        }
                        s.x = q(s.x + by, 1e3);
                    }
                }
            }
            y -= match r.below(8) {
                6 if !jitter => r.f(0.62, 1.5),
                7 if !jitter => *r.pick(&[15.88, 16.12]),
                0 => r.f(16.2, 60.0),
                1 => r.f(1.5, 8.0),
                _ => r.f(8.0, 15.7),
            };
            y = q(y, 100.0);
            if y < 5.0 {
                break;
            }
        }
        Page { segments }
    }

    /// What the page says, or None where rounding could tip a decision
    pub fn lines(&self, fonts: &[FontSpec], crop: &CropBox) -> Option<Vec<MLine>> {
        let mut chars = vec![];
        for s in &self.segments {
            for c in s.place(fonts).0 {
                let (l, ri, b, t) = (crop.left as f64, crop.right as f64, crop.bottom as f64, crop.top as f64);
                const E: f64 = 0.03;
                if (c.x - l).abs() < E || (c.x - ri).abs() < E || (c.y - b).abs() < E || (c.y - t).abs() < E {
                    return None;
                }
                if c.x > l && c.x < ri && c.y > b && c.y < t {
                    chars.push(c);
                }
            }
        }
        lay_out(chars)
    }
}

/// Characters to lines: by baseline, then left to right
pub fn lay_out(mut chars: Vec<MChar>) -> Option<Vec<MLine>> {
    const E: f64 = 0.03;
    if chars.is_empty() {
        return Some(vec![MLine { chars: vec![], justified: false }]);
    }
    let right = chars.iter().map(|c| c.x + c.width).fold(0.0, f64::max);
    chars.sort_by(|a, b| b.y.partial_cmp(&a.y).unwrap());
    let mut groups: Vec<Vec<MChar>> = vec![];
    for c in chars {
        match groups.last_mut() {
            Some(g) => {
                let d = g[0].y - c.y;
                if (d - 0.5).abs() < 0.08 || (d - 16.0).abs() < 0.1 {
                    return None;
                }
                if d < 0.5 {
                    g.push(c)
                } else {
                    // all of the lower line must be clearly below all of the upper
                    if g.last().unwrap().y - c.y < 0.55 {
                        return None;
                    }
                    groups.push(vec![c])
                }
            }
            None => groups.push(vec![c]),
        }
    }
    let mut out: Vec<MLine> = vec![];
    let mut prev_y: Option<(f64, f64)> = None;
    for mut g in groups {
        let (hi, lo) = (g[0].y, g.last().unwrap().y);
        if let Some((phi, plo)) = prev_y {
            // (whichever characters stand for the baselines)
            let (dmin, dmax) = (plo - hi, phi - lo);
            if (dmin < 16.05) != (dmax < 16.05) || (dmin < 15.95) != (dmax < 15.95) {
                return None;
            }
            if dmin > 16.0 {
                out.push(MLine { chars: vec![], justified: false });
            }
        }
        prev_y = Some((hi, lo));
        g.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap());
        let mut line = vec![];
        for (i, c) in g.iter().enumerate() {
            if i > 0 {
                let p = &g[i - 1];
                if c.x - p.x < E {
                    return None;
                }
                let thr = p.x + p.width + p.space * 0.5;
                if (c.x - thr).abs() < E && c.c != '„' {
                    return None;
                }
                if c.x > thr || c.c == '„' {
                    line.push((thr, ' ', c.bold));
                }
            }
            line.push((c.x, c.c, c.bold));
        }
        let last = g.last().unwrap();
        let reach = last.x + last.width + last.space * 0.8;
        if (reach - right).abs() < E {
            return None;
        }
        out.push(MLine { chars: line, justified: reach > right });
    }
    Some(out)
}

/// Numbers as written into the file
fn num(v: f64) -> String {
    let s = format!("{v:.5}");
    let s = s.trim_end_matches('0').trim_end_matches('.');
    if s.is_empty() || s == "-0" {
        "0".into()
    } else {
        s.into()
    }
}

/// An object: any PDF value, or a stream
#[derive(Clone)]
pub enum Body {
    Plain(Vec<u8>),
    Stream { dict: String, data: Vec<u8>, compress: bool },
}
impl From<String> for Body {
    fn from(s: String) -> Self {
        Body::Plain(s.into_bytes())
    }
}

#[derive(Default)]
pub struct PdfWriter {
    /// object bodies, from number 1
    pub objs: Vec<Option<Body>>,
}

impl PdfWriter {
    pub fn alloc(&mut self) -> usize {
        self.objs.push(None);
        self.objs.len()
    }
    pub fn set(&mut self, n: usize, body: impl Into<Body>) {
        self.objs[n - 1] = Some(body.into());
    }
    pub fn add(&mut self, body: impl Into<Body>) -> usize {
        let n = self.alloc();
        self.set(n, body);
        n
    }
    pub fn stream(dict: &str, data: &[u8], compress: bool) -> Body {
        Body::Stream { dict: dict.to_string(), data: data.to_vec(), compress }
    }
    fn encode(b: &Body, out: &mut Vec<u8>) {
        match b {
            Body::Plain(v) => out.extend_from_slice(v),
            Body::Stream { dict, data, compress } => {
                let z;
                let (data, filter) = if *compress {
                    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast());
                    e.write_all(data).unwrap();
                    z = e.finish().unwrap();
                    (&z, "/Filter/FlateDecode")
                } else {
                    (data, "")
                };
                let _ = write!(out, "<<{dict}/Length {}{filter}>>\nstream\n", data.len());
                out.extend_from_slice(data);
                out.extend_from_slice(b"\nendstream");
            }
        }
    }
    pub fn finish(self, r: &mut Rng, root: usize) -> Vec<u8> {
        let mut out = b"%PDF-1.5\n%\xe2\xe3\xcf\xd3\n".to_vec();
        let n = self.objs.len();
        let mut offs = vec![0; n + 1];
        let mut order: Vec<usize> = (1..=n).collect();
        if r.chance(1, 2) {
            r.shuffle(&mut order);
        }
        for i in order {
            offs[i] = out.len();
            let _ = write!(out, "{i} 0 obj\n");
            Self::encode(self.objs[i - 1].as_ref().expect("object set"), &mut out);
            out.extend_from_slice(b"\nendobj\n");
        }
        let xref = out.len();
        let _ = write!(out, "xref\n0 {}\n0000000000 65535 f \n", n + 1);
        for o in &offs[1..] {
            let _ = write!(out, "{o:010} 00000 n \n");
        }
        let _ = write!(out, "trailer\n<</Size {}/Root {root} 0 R>>\nstartxref\n{xref}\n%%EOF\n", n + 1);
        out
    }
}

/// Current state while emitting: what the reader of the file is in
#[derive(Clone, PartialEq)]
struct St {
    font: Option<(usize, f64)>,
    tz: f64,
    tc: f64,
    tw: f64,
    tl: f64,
    rise: f64,
}

/// Names handed out by one resource dictionary
#[derive(Default)]
struct Res {
    fonts: Vec<(String, usize)>,
    gs: Vec<(String, usize, f64)>,
    xobjects: Vec<(String, usize)>,
}

#[derive(Debug, Clone, Default)]
pub struct Knobs {
    pub forms: bool,
    pub gs_fonts: bool,
    pub inherit_resources: bool,
    pub direct_fonts: bool,
}

pub struct Doc<'a> {
    pub w: PdfWriter,
    pub fonts: &'a [FontSpec],
    font_objs: BTreeMap<usize, usize>,
    pub knobs: Knobs,
    pub used: BTreeMap<&'static str, u64>,
}

struct Out<'r> {
    s: Vec<u8>,
    r: &'r mut Rng,
    /// offsets where the stream may be cut
    cuts: Vec<usize>,
}
impl Out<'_> {
    fn op(&mut self, t: &str) {
        self.s.extend_from_slice(t.as_bytes());
        let sep = if self.r.chance(1, 6) { "\r\n" } else if self.r.chance(1, 8) { " % note\n" } else { "\n" };
        self.s.extend_from_slice(sep.as_bytes());
        self.cuts.push(self.s.len());
    }
}

impl<'a> Doc<'a> {
    pub fn new(fonts: &'a [FontSpec], knobs: Knobs) -> Self {
        Doc { w: PdfWriter::default(), fonts, font_objs: BTreeMap::new(), knobs, used: BTreeMap::new() }
    }
    fn hit(&mut self, k: &'static str) {
        *self.used.entry(k).or_insert(0) += 1;
    }

    fn font_dict(&mut self, r: &mut Rng, i: usize) -> String {
        let f = &self.fonts[i];
        let mut d = String::from("<</Type/Font");
        match f.kind {
            Kind::Type0 => {
                let desc = self.w.add(f.descriptor());
                let mut ws = String::new();
                let es: Vec<_> = f.widths.iter().collect();
                let mut k = 0;
                while k < es.len() {
                    let mut j = k;
                    while j + 1 < es.len() && *es[j + 1].0 == es[j].0 + 1 && j - k < 9 {
                        j += 1;
                    }
                    if j == k && r.chance(1, 2) {
                        let _ = write!(ws, "{} {} {} ", es[k].0, es[k].0, num(*es[k].1));
                    } else {
                        let list: Vec<String> = es[k..=j].iter().map(|e| num(*e.1)).collect();
                        let _ = write!(ws, "{} [{}] ", es[k].0, list.join(" "));
                    }
                    k = j + 1;
                }
                let dw = if f.default_width == 1000.0 && r.chance(1, 2) { String::new() } else { format!("/DW {}", num(f.default_width)) };
                let sub = r.pick(&["CIDFontType0", "CIDFontType2"]);
                let desc_font = self.w.add(format!(
                    "<</Type/Font/Subtype/{sub}{}/CIDSystemInfo<</Registry(Adobe)/Ordering(Identity)/Supplement 0>>/FontDescriptor {desc} 0 R{dw}/W[{ws}]/CIDToGIDMap/Identity>>",
                    f.base_font()
                ));
                let _ = write!(d, "/Subtype/Type0{}/Encoding/Identity-H/DescendantFonts[{desc_font} 0 R]", f.base_font());
            }
            k => {
                let last = *f.widths.keys().last().unwrap();
                let list: Vec<String> = (f.first_char..=last).map(|c| num(f.width(c))).collect();
                let _ = write!(
                    d,
                    "/Subtype/{}{}/FirstChar {}/LastChar {last}/Widths[{}]",
                    if k == Kind::Type1 { "Type1" } else { "TrueType" },
                    f.base_font(),
                    f.first_char,
                    list.join(" ")
                );
                if r.chance(1, 2) {
                    let desc = self.w.add(f.descriptor());
                    let _ = write!(d, "/FontDescriptor {desc} 0 R");
                }
                if f.differences.is_empty() && f.base.is_some() {
                    let _ = write!(d, "/Encoding/{}", f.base.unwrap());
                } else {
                    let mut diff = String::new();
                    let mut expect = None;
                    for (c, g) in &f.differences {
                        if expect != Some(*c) {
                            let _ = write!(diff, " {c}");
                        }
                        let _ = write!(diff, "/{g}");
                        expect = Some(c + 1);
                    }
                    let base = f.base.map_or(String::new(), |b| format!("/BaseEncoding/{b}"));
                    let enc = format!("<</Type/Encoding{base}/Differences[{diff}]>>");
                    if r.chance(1, 2) {
                        let e = self.w.add(enc);
                        let _ = write!(d, "/Encoding {e} 0 R");
                    } else {
                        let _ = write!(d, "/Encoding{enc}");
                    }
                }
            }
        }
        if !f.to_unicode.is_empty() {
            let cm = f.cmap(r);
            let s = self.w.add(PdfWriter::stream("", &cm, r.chance(1, 2)));
            let _ = write!(d, "/ToUnicode {s} 0 R");
        }
        d += ">>";
        d
    }
    fn font_ref(&mut self, r: &mut Rng, i: usize) -> usize {
        if let Some(n) = self.font_objs.get(&i) {
            return *n;
        }
        let d = self.font_dict(r, i);
        let n = self.w.add(d);
        self.font_objs.insert(i, n);
        n
    }
    fn resources(&mut self, r: &mut Rng, res: &Res) -> String {
        let mut s = String::from("<<");
        if !res.fonts.is_empty() {
            s += "/Font<<";
            for (n, i) in &res.fonts {
                if self.knobs.direct_fonts && r.chance(1, 2) {
                    let d = self.font_dict(r, *i);
                    let _ = write!(s, "/{n} {d}");
                } else {
                    let o = self.font_ref(r, *i);
                    let _ = write!(s, "/{n} {o} 0 R ");
                }
            }
            s += ">>";
        }
        if !res.gs.is_empty() {
            s += "/ExtGState<<";
            for (n, i, size) in &res.gs {
                let o = self.font_ref(r, *i);
                let _ = write!(s, "/{n}<</Type/ExtGState/LW 1/Font[{o} 0 R {}]>>", num(*size));
            }
            s += "/GNone<</Type/ExtGState/LW 2>>>>";
        }
        if !res.xobjects.is_empty() {
            s += "/XObject<<";
            for (n, o) in &res.xobjects {
                let _ = write!(s, "/{n} {o} 0 R ");
            }
            s += ">>";
        }
        s += ">>";
        s
    }

    fn show(r: &mut Rng, f: &FontSpec, codes: &[u32]) -> String {
        let mut b = vec![];
        for c in codes {
            if f.kind == Kind::Type0 {
                b.extend_from_slice(&(*c as u16).to_be_bytes());
            } else {
                b.push(*c as u8);
            }
        }
        if r.chance(1, 2) {
            let mut s = String::from("<");
            for x in b {
                let _ = write!(s, "{x:02X}");
            }
            s + ">"
        } else {
            let mut s = String::from("(");
            for x in b {
                match x {
                    b'(' | b')' | b'\\' => {
                        s.push('\\');
                        s.push(x as char);
                    }
                    b' '..=b'~' => s.push(x as char),
                    _ => {
                        let _ = write!(s, "\\{x:03o}");
                    }
                }
            }
            s + ")"
        }
    }

    fn set_state(&mut self, o: &mut Out, st: &mut St, seg: &Segment, res: &mut Res) {
        if st.font != Some((seg.font, seg.size)) || o.r.chance(1, 10) {
            if self.knobs.gs_fonts && o.r.chance(1, 3) {
                let n = match res.gs.iter().find(|g| g.1 == seg.font && g.2 == seg.size) {
                    Some(g) => g.0.clone(),
                    None => {
                        let n = format!("G{}", res.gs.len());
                        res.gs.push((n.clone(), seg.font, seg.size));
                        n
                    }
                };
                o.op(&format!("/{n} gs"));
                self.hit("fonts_by_gs");
            } else {
                let n = match res.fonts.iter().find(|g| g.1 == seg.font) {
                    Some(g) => g.0.clone(),
                    None => {
                        let n = format!("F{}", res.fonts.len());
                        res.fonts.push((n.clone(), seg.font));
                        n
                    }
                };
                o.op(&format!("/{n} {} Tf", num(seg.size)));
                self.hit("fonts_by_Tf");
            }
            st.font = Some((seg.font, seg.size));
        } else {
            self.hit("fonts_kept");
        }
        if st.tz != seg.tz || o.r.chance(1, 12) {
            o.op(&format!("{} Tz", num(seg.tz)));
            st.tz = seg.tz;
        }
        if st.rise != seg.rise || o.r.chance(1, 12) {
            o.op(&format!("{} Ts", num(seg.rise)));
            st.rise = seg.rise;
        }
    }
    fn set_spacing(&mut self, o: &mut Out, st: &mut St, seg: &Segment) {
        if st.tc != seg.tc || o.r.chance(1, 12) {
            o.op(&format!("{} Tc", num(seg.tc)));
            st.tc = seg.tc;
        }
        if st.tw != seg.tw || o.r.chance(1, 12) {
            o.op(&format!("{} Tw", num(seg.tw)));
            st.tw = seg.tw;
        }
    }

    fn draw_items(&mut self, o: &mut Out, f: &FontSpec, items: &[Item]) {
        let mut i = 0;
        while i < items.len() {
            let left = items.len() - i;
            let n = if o.r.chance(1, 2) { left } else { 1 + o.r.below(left) };
            let part = &items[i..i + n];
            i += n;
            let plain: Option<Vec<u32>> = part.iter().map(|x| if let Item::Code(c) = x { Some(*c) } else { None }).collect();
            if let (Some(codes), true) = (plain, o.r.chance(1, 2)) {
                let s = Self::show(o.r, f, &codes);
                o.op(&format!("{s} Tj"));
                self.hit("Tj");
            } else {
                let mut s = String::from("[");
                let mut run = vec![];
                for it in part {
                    match it {
                        Item::Code(c) => {
                            run.push(*c);
                            if o.r.chance(1, 4) {
                                s += &Self::show(o.r, f, &run);
                                run.clear();
                            }
                        }
                        Item::Adjust(v) => {
                            if !run.is_empty() {
                                s += &Self::show(o.r, f, &run);
                                run.clear();
                            }
                            let _ = write!(s, "{} ", num(*v));
                        }
                    }
                }
                if !run.is_empty() {
                    s += &Self::show(o.r, f, &run);
                }
                o.op(&format!("{s}] TJ"));
                self.hit("TJ");
            }
        }
    }

    /// Draw the segments in a text object
    fn text_object(&mut self, o: &mut Out, st: &mut St, segs: &[Segment], res: &mut Res) {
        o.op("BT");
        // line matrix: scale and origin
        let (mut la, mut ld, mut lx, mut ly) = (1.0, 1.0, 0.0, 0.0);
        for (si, seg) in segs.iter().enumerate() {
            let f = &self.fonts[seg.font];
            let noise = o.r.below(14);
            match noise {
                0 => o.op("0 g"),
                1 => o.op("0.2 0.4 0 rg"),
                2 => o.op("0 Tr"),
                3 if !res.gs.is_empty() => o.op("/GNone gs"),
                _ => {}
            }
            self.set_state(o, st, seg, res);
            let mc = o.r.below(10);
            match mc {
                0 => o.op("/P <</MCID 3>> BDC"),
                1 => o.op("/Artifact BMC"),
                2 => o.op("/Span <</Lang (hu)>> BDC"),
                _ => {}
            }
            let mut items = &seg.items[..];
            let mut begun = false;
            let begin_actual = |o: &mut Out| {
                if let Some(t) = &seg.actual {
                    let s = if t.is_ascii() && o.r.chance(1, 2) {
                        let mut s = String::from("(");
                        for c in t.chars() {
                            if "()\\".contains(c) {
                                s.push('\\');
                            }
                            s.push(c);
                        }
                        s + ")"
                    } else {
                        format!("<FEFF{}>", t.encode_utf16().map(|u| format!("{u:04X}")).collect::<String>())
                    };
                    o.op(&format!("/Span <</ActualText {s}>> BDC"));
                    if o.r.chance(1, 6) {
                        o.op("/P BMC");
                        o.op("EMC");
                    }
                }
            };
            let same_scale = la == seg.a && ld == seg.d;
            let (dx, dy) = (q((seg.x - lx) / seg.a, 1e4), q((seg.y - ly) / seg.d, 1e4));
            let how = o.r.below(if same_scale { 8 } else { 2 });
            match how {
                // a text object starts at the origin
                _ if si == 0 && (seg.a, seg.d, seg.x, seg.y) == (1.0, 1.0, 0.0, 0.0) => self.hit("from_origin"),
                // first show operator with a newline of its own
                2 | 3 if dx.abs() * seg.a < 1e-3 && matches!(items.first(), Some(Item::Code(_))) => {
                    o.op(&format!("{} TL", num(-dy)));
                    st.tl = -dy;
                    ly += dy * ld;
                    let n = items.iter().take_while(|i| matches!(i, Item::Code(_))).count();
                    let n = 1 + o.r.below(n);
                    let codes: Vec<u32> = items[..n].iter().map(|i| if let Item::Code(c) = i { *c } else { 0 }).collect();
                    items = &items[n..];
                    let s = Self::show(o.r, f, &codes);
                    if how == 2 {
                        self.set_spacing(o, st, seg);
                        begin_actual(o);
                        o.op(&format!("{s} '"));
                        self.hit("quote");
                    } else {
                        begin_actual(o);
                        o.op(&format!("{} {} {s} \"", num(seg.tw), num(seg.tc)));
                        st.tw = seg.tw;
                        st.tc = seg.tc;
                        self.hit("doublequote");
                    }
                    begun = true;
                }
                4 if dx.abs() * seg.a < 1e-3 => {
                    if st.tl != -dy {
                        o.op(&format!("{} TL", num(-dy)));
                        st.tl = -dy;
                    }
                    o.op("T*");
                    ly += dy * ld;
                    self.hit("T*");
                }
                5 => {
                    o.op(&format!("{} {} TD", num(dx), num(dy)));
                    st.tl = -dy;
                    lx += dx * la;
                    ly += dy * ld;
                    self.hit("TD");
                }
                2..=7 => {
                    o.op(&format!("{} {} Td", num(dx), num(dy)));
                    lx += dx * la;
                    ly += dy * ld;
                    self.hit("Td");
                }
                _ => {
                    o.op(&format!("{} 0 0 {} {} {} Tm", num(seg.a), num(seg.d), num(seg.x), num(seg.y)));
                    (la, ld, lx, ly) = (seg.a, seg.d, seg.x, seg.y);
                    self.hit("Tm");
                }
            }
            if !begun {
                self.set_spacing(o, st, seg);
                begin_actual(o);
            }
            if seg.actual.is_some() && o.r.chance(1, 4) {
                // a replacement text inside a replaced text is replaced with it
                let k = o.r.below(items.len() + 1);
                o.op("/Span <</ActualText (inner)>> BDC");
                self.draw_items(o, f, &items[..k]);
                o.op("EMC");
                self.draw_items(o, f, &items[k..]);
                self.hit("nested_actual_text");
            } else {
                self.draw_items(o, f, items);
            }
            if seg.actual.is_some() {
                o.op("EMC");
                self.hit("actual_text");
            }
            if mc < 3 {
                o.op("EMC");
            }
        }
        o.op("ET");
    }

    /// Draw all segments into a content stream, with nesting
    fn content(&mut self, o: &mut Out, st: &mut St, segs: &[Segment], res: &mut Res, depth: usize, inherit: bool) {
        let mut i = 0;
        loop {
            if o.r.chance(1, 8) {
                o.op("0.5 w 10 10 m 100 10 l S");
            }
            if i >= segs.len() {
                break;
            }
            let n = (1 + o.r.below(6)).min(segs.len() - i);
            let part = &segs[i..i + n];
            i += n;
            match o.r.below(7) {
                0 | 1 if depth < 4 => {
                    // saved and restored around
                    o.op("q");
                    self.hit("save_restore");
                    let mut st2 = st.clone();
                    self.content(o, &mut st2, part, res, depth + 1, inherit);
                    o.op("Q");
                }
                2 if depth < 3 && self.knobs.forms => {
                    self.hit("forms");
                    let n = self.w.alloc();
                    let mut st2 = st.clone();
                    let mut fo = Out { s: vec![], r: o.r, cuts: vec![] };
                    // inherited resources: names are those of the surrounding stream
                    let own = inherit || fo.r.chance(2, 3);
                    let mut dict = String::from("/Type/XObject/Subtype/Form/BBox[0 0 1000 1000]");
                    if own {
                        let mut fres = Res::default();
                        let inherit_next = false;
                        self.content(&mut fo, &mut st2, part, &mut fres, depth + 1, inherit_next);
                        let rd = self.resources(fo.r, &fres);
                        if fo.r.chance(1, 2) {
                            let ro = self.w.add(rd);
                            let _ = write!(dict, "/Resources {ro} 0 R");
                        } else {
                            let _ = write!(dict, "/Resources{rd}");
                        }
                    } else {
                        self.hit("forms_inheriting");
                        self.content(&mut fo, &mut st2, part, res, depth + 1, inherit);
                    }
                    let data = std::mem::take(&mut fo.s);
                    let c = o.r.chance(1, 2);
                    self.w.set(n, PdfWriter::stream(&dict, &data, c));
                    let name = format!("X{}", res.xobjects.len());
                    res.xobjects.push((name.clone(), n));
                    o.op(&format!("/{name} Do"));
                }
                3 => {
                    o.op("/Sect <</MCID 1>> BDC");
                    self.text_object(o, st, part, res);
                    o.op("EMC");
                }
                _ => self.text_object(o, st, part, res),
            }
        }
    }

    /// Adds a page object and returns (its number, resources to be inherited if any)
    pub fn page(&mut self, r: &mut Rng, page: &Page, parent: usize, shuffle: bool) -> (usize, Option<String>) {
        let mut segs = page.segments.clone();
        if shuffle {
            match r.below(3) {
                0 => {}
                1 => r.shuffle(&mut segs),
                _ => {
                    // columns: a few at a time
                    let k = 1 + r.below(segs.len().max(1));
                    let n = segs.len();
                    segs.rotate_left(k.min(n));
                }
            }
        }
        let mut res = Res::default();
        // resource names start anywhere, so that the same name means different fonts on different pages
        let mut st = St { font: None, tz: 100.0, tc: 0.0, tw: 0.0, tl: 0.0, rise: 0.0 };
        let mut o = Out { s: vec![], r, cuts: vec![] };
        o.op("1 w");
        self.content(&mut o, &mut st, &segs, &mut res, 0, false);
        let (data, cuts) = (o.s, o.cuts);
        let parts = if r.chance(1, 3) { r.range(2, 4) as usize } else { 1 };
        let mut at: Vec<usize> = (1..parts).map(|_| *r.pick(&cuts)).collect();
        at.push(data.len());
        at.sort();
        at.dedup();
        let mut from = 0;
        let mut refs = vec![];
        for a in at {
            let c = r.chance(1, 2);
            let s = self.w.add(PdfWriter::stream("", &data[from..a], c));
            refs.push(format!("{s} 0 R"));
            from = a;
        }
        let contents = if refs.len() == 1 && r.chance(1, 2) { refs[0].clone() } else { format!("[{}]", refs.join(" ")) };
        let rd = self.resources(r, &res);
        let n = self.w.alloc();
        let mut inherited = None;
        let rtext = if self.knobs.inherit_resources {
            inherited = Some(rd);
            String::new()
        } else if r.chance(1, 2) {
            let ro = self.w.add(rd);
            format!("/Resources {ro} 0 R")
        } else {
            format!("/Resources{rd}")
        };
        self.w.set(n, format!("<</Type/Page/Parent {parent} 0 R/MediaBox[0 0 1000 1000]{rtext}/Contents {contents}>>"));
        (n, inherited)
    }

    /// A whole document of these pages
    pub fn document(self, r: &mut Rng, pages: &[Page], shuffle: bool) -> (Vec<u8>, BTreeMap<&'static str, u64>) {
        self.document_with(r, pages, shuffle, |_, _| ())
    }
    /// The same, with a last look at the objects before they are written
    pub fn document_with(mut self, r: &mut Rng, pages: &[Page], shuffle: bool, edit: impl FnOnce(&mut Rng, &mut PdfWriter)) -> (Vec<u8>, BTreeMap<&'static str, u64>) {
        let root_pages = self.w.alloc();
        let mut kids = vec![];
        let mut i = 0;
        while i < pages.len() {
            // sometimes a subtree of pages
            let n = if r.chance(1, 3) { (1 + r.below(3)).min(pages.len() - i) } else { 0 };
            if n > 0 || self.knobs.inherit_resources {
                let n = if self.knobs.inherit_resources { 1 } else { n };
                let node = self.w.alloc();
                let mut sub = vec![];
                let mut inh = String::new();
                for p in &pages[i..i + n] {
                    let (k, res) = self.page(r, p, node, shuffle);
                    sub.push(format!("{k} 0 R"));
                    if let Some(d) = res {
                        inh = format!("/Resources{d}");
                        self.hit("inherited_resources");
                    }
                }
                self.w.set(node, format!("<</Type/Pages/Parent {root_pages} 0 R/Count {n}/Kids[{}]{inh}>>", sub.join(" ")));
                kids.push(format!("{node} 0 R"));
                i += n;
            } else {
                let (k, _) = self.page(r, &pages[i], root_pages, shuffle);
                kids.push(format!("{k} 0 R"));
                i += 1;
            }
        }
        self.w.set(root_pages, format!("<</Type/Pages/Count {}/Kids[{}]>>", pages.len(), kids.join(" ")));
        let root = self.w.add(format!("<</Type/Catalog/Pages {root_pages} 0 R>>"));
        let used = self.used.clone();
        edit(r, &mut self.w);
        (self.w.finish(r, root), used)
    }
}
