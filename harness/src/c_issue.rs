//! C03: gazette issues, composed line by line from acts and other material, against the cutter.
use chrono::{Datelike, NaiveDate};
use hun_law::{
    identifier::ActIdentifier,
    parser::{
        mk_act_section::{parse_mk_pages_into_acts, ActRawText},
        pdf::PageOfLines,
    },
    util::indentedline::{IndentedLine, EMPTY_LINE},
};

use crate::{
    acts,
    c_ident::to_roman,
    lines::MLine,
    mon::{Env, Mon},
    rng::Rng,
    Check,
};

pub const MONTHS: [&str; 12] = ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"];
pub const STOPS: &[&str] = &[
    "III. Kormányrendeletek",
    "IV. A Magyar Nemzeti Bank elnökének rendeletei, valamint az önálló szabályozó szerv",
    "IV. A Magyar Nemzeti Bank elnökének rendeletei",
    "V. A Kormány tagjainak rendeletei",
    "VI. Az Alkotmánybíróság határozatai",
    "VI. Az Alkotmánybíróság határozatai és végzései",
    "VII. A Kúria határozatai",
    "IX. Határozatok Tára",
];
pub const SIGNS: &[&str] = &[
    "köztársasági elnök az Országgyűlés elnöke",
    "köztársasági elnök az Országgyűlés alelnöke",
    "az Országgyűlés elnöke, az Országgyűlés alelnöke,",
];

#[derive(Clone)]
enum Cell {
    L(IndentedLine),
    /// a page break
    P,
}

struct Want {
    id: ActIdentifier,
    subject: String,
    body: Vec<IndentedLine>,
}

fn pl(r: &mut Rng, t: &str, bold: bool) -> IndentedLine {
    let x = r.range(20, 90) as f64;
    acts::plain_line(t, x, bold, r.chance(1, 2)).real()
}

struct W<'a> {
    r: &'a mut Rng,
    cells: Vec<Cell>,
    since_break: usize,
}
impl W<'_> {
    fn l(&mut self, l: IndentedLine) {
        self.cells.push(Cell::L(l));
        self.since_break += 1;
    }
    fn t(&mut self, t: &str, bold: bool) {
        let l = pl(self.r, t, bold);
        self.l(l);
    }
    fn e(&mut self) {
        self.l(EMPTY_LINE);
    }
    fn page(&mut self) {
        if self.since_break > 0 {
            self.cells.push(Cell::P);
            self.since_break = 0;
        }
    }
    /// something that separates paragraphs: one or more empty lines, a page break, or both
    fn gap(&mut self) {
        match self.r.below(8) {
            0 | 1 => self.page(),
            2 => {
                self.e();
                self.page();
            }
            3 => {
                self.page();
                self.e();
            }
            4 => {
                self.e();
                self.e();
            }
            _ => self.e(),
        }
        // a page break that was not needed is no gap
        if !matches!(self.cells.last(), Some(Cell::P)) && !matches!(self.cells.last(), Some(Cell::L(l)) if l.is_empty()) {
            self.e();
        }
    }
    fn filler(&mut self, n: usize) {
        for _ in 0..n {
            let t = filler_text(self.r);
            if self.r.chance(1, 5) {
                self.gap();
            } else {
                self.t(&t, false);
            }
        }
    }
}

/// Text that is not the header of an act
fn filler_text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => format!("{}. melléklet a {}. évi {}. törvényhez", r.range(1, 9), r.range(1990, 2022), to_roman(r.range(1, 300) as u32)),
        1 => "* A törvényt az Országgyűlés a 2010. november 22-i ülésnapján fogadta el.".to_string(),
        2 => SIGNS[0].to_string(),
        3 => acts::hostile_header(r),
        4 => format!("A {}. évi {}. törvény", r.range(1990, 2022), to_roman(r.range(1, 300) as u32)),
        _ => (0..r.range(1, 9)).map(|_| acts::word(r)).collect::<Vec<_>>().join(" "),
    }
}

fn body_line(r: &mut Rng) -> IndentedLine {
    let t = match r.below(16) {
        // tempting lines that are ordinary text where they stand
        0 => "* csillaggal kezdődő sor".to_string(),
        1 => format!("{}. évi {}. törvény", r.range(1990, 2022), to_roman(r.range(1, 300) as u32)),
        2 => STOPS[r.below(STOPS.len())].to_string(),
        3 => "II. Törvények".to_string(),
        4 => SIGNS[r.below(3)].to_string(),
        5 => "MAGYAR KÖZLÖNY 5. szám".to_string(),
        6 => acts::hostile_header(r),
        7 => "köztársasági elnök".to_string(),
        8 => format!("a {}. évi {}. törvény hatálya*", r.range(1990, 2022), to_roman(r.range(1, 300) as u32)),
        _ => (0..r.range(1, 9)).map(|_| acts::word(r)).collect::<Vec<_>>().join(" "),
    };
    let n = t.chars().count();
    let x = r.range(20, 200) as f64;
    // at most partly bold, so that it is not a section header
    let cut = if r.chance(1, 4) { n / 2 } else { 0 };
    let just = r.chance(1, 2);
    MLine { chars: t.chars().enumerate().map(|(i, c)| (x + 4.5 * i as f64, c, i < cut)).collect(), justified: just }.real()
}

pub fn subject(r: &mut Rng) -> (Vec<String>, String) {
    let n = r.range(1, 4) as usize;
    let mut v: Vec<String> = (0..n).map(|_| (0..r.range(1, 6)).map(|_| acts::word(r)).collect::<Vec<_>>().join(" ")).collect();
    v[0] = format!("{} {}", r.pick(&["Az", "A", "Egyes*", "„A”"]), v[0]);
    for l in v.iter_mut() {
        // words such as "adat-" are fine inside, only the end of the title has the asterisk
        if l.ends_with('*') {
            l.push_str(" is");
        }
    }
    let last = v.last_mut().unwrap();
    last.push_str(*r.pick(&["ról", "ről", " módosításáról", "”"]));
    let s = acts::join_model(&v);
    v.last_mut().unwrap().push('*');
    (v, s)
}

fn emit_act(w: &mut W, want: &mut Vec<Want>, bold_header: bool, typeset: bool) {
    let id = ActIdentifier { year: w.r.range(1990, 2029) as i16, number: if w.r.chance(1, 6) { w.r.range(1, 399) } else { w.r.range(1, 250) } as i32 };
    w.gap();
    let bold = bold_header || w.r.chance(1, 2);
    w.t(&format!("{}. évi {}. törvény", id.year, to_roman(id.number as u32)), bold);
    let (lines, subject) = subject(w.r);
    for l in &lines {
        let b = w.r.chance(1, 2);
        w.t(l, b);
    }
    // the body, the footnote somewhere before a page break
    let lines: Vec<IndentedLine> = if typeset {
        let cfg = acts::Cfg { quotes: 1, blocks: 1, tricky: 1, long: false };
        let a = acts::gen_act(w.r, &cfg, 6);
        acts::typeset(w.r, &a).body
    } else {
        let n = match w.r.below(5) {
            0 => w.r.range(1, 4),
            1 => w.r.range(30, 90),
            _ => w.r.range(3, 25),
        };
        (0..n).map(|_| body_line(w.r)).collect()
    };
    let mut body: Vec<IndentedLine> = vec![];
    let foot_at = if w.r.chance(4, 5) { Some(w.r.below(lines.len().min(12) + 1)) } else { None };
    if w.r.chance(2, 3) {
        w.e();
        body.push(EMPTY_LINE);
    }
    let mut foot_done = false;
    for (i, l) in lines.iter().enumerate() {
        if foot_at == Some(i) {
            emit_foot(w, &mut body);
            foot_done = true;
        }
        // before the footnote, no other starred line may look like it
        let starry = l.content().starts_with('*');
        if w.r.chance(1, 6) && !(starry && !foot_done) && !(l.content() == "II. Törvények") {
            let from = w.cells.len();
            w.gap();
            for _ in from..w.cells.len() {
                body.push(EMPTY_LINE);
            }
        }
        let prev_starry = body.last().map_or(false, |p: &IndentedLine| p.content().starts_with('*')) && (body.len() < 2 || body[body.len() - 2].is_empty());
        if l.is_empty() && prev_starry && !foot_done {
            continue;
        }
        // a signature must not be imitated: the line before the previous one would have to be empty
        if SIGNS.contains(&l.content()) && (body.len() < 2 || body[body.len() - 2].is_empty() || body.last().unwrap().is_empty()) {
            continue;
        }
        let alone = body.last().map_or(true, |p| p.is_empty());
        w.l(l.clone());
        body.push(l.clone());
        // a starred line is never alone between two gaps before the footnote
        if starry && !foot_done && !alone && w.r.chance(1, 2) {
            // it may well be the last line of its paragraph
            let from = w.cells.len();
            w.gap();
            for _ in from..w.cells.len() {
                body.push(EMPTY_LINE);
            }
        } else if starry && !foot_done {
            let x = pl(w.r, "folytatás", false);
            w.l(x.clone());
            body.push(x);
        }
    }
    if foot_at.is_some() && !foot_done {
        emit_foot(w, &mut body);
    }
    while body.iter().all(|l| l.is_empty()) {
        let x = pl(w.r, "Ez a törvény rövid.", false);
        w.l(x.clone());
        body.push(x);
    }
    // the signatures stand after a gap
    w.gap();
    let n = *w.r.pick(&["Áder János s. k., Kövér László s. k.,", "Dr. Schmitt Pál s. k., Dr. Kövér László s. k.,", "Sólyom László s. k., Lezsák Sándor s. k.,"]);
    w.t(n, false);
    let s = SIGNS[w.r.below(3)];
    w.t(s, false);
    want.push(Want { id, subject, body });
}

fn emit_foot(w: &mut W, body: &mut Vec<IndentedLine>) {
    w.e();
    body.push(EMPTY_LINE);
    let t = format!("* A törvényt az Országgyűlés a {}. {} {}-i ülésnapján fogadta el.", w.r.range(1990, 2022), MONTHS[w.r.below(12)], w.r.range(1, 28));
    w.t(&t, false);
    if w.r.chance(1, 5) {
        w.e();
    } else {
        w.page();
    }
    body.push(EMPTY_LINE);
}

pub fn cover(r: &mut Rng, date: NaiveDate) -> Vec<IndentedLine> {
    let day = ["hétfő", "kedd", "szerda", "csütörtök", "péntek", "szombat", "vasárnap"][date.weekday().num_days_from_monday() as usize];
    let n = r.range(1, 300);
    let mut v = vec![
        pl(r, &format!("MAGYAR KÖZLÖNY {n}. szám"), true),
        EMPTY_LINE,
        pl(r, "A MAGYAR KÖZTÁRSASÁG HIVATALOS LAPJA", true),
        pl(r, &format!("{}. {} {}., {day}", date.year(), MONTHS[date.month0() as usize], date.day()), false),
    ];
    if r.chance(3, 4) {
        v.push(EMPTY_LINE);
        v.push(pl(r, "Tartalomjegyzék", true));
        for _ in 0..r.below(12) {
            if r.chance(1, 3) {
                v.push(EMPTY_LINE);
            }
            let t = format!("{}. évi {}. törvény {} {}", r.range(1990, 2022), to_roman(r.range(1, 300) as u32), acts::title(r), r.range(1, 9000));
            v.push(pl(r, &t, false));
        }
        if r.chance(1, 2) {
            v.push(pl(r, "II. Törvények", false));
        }
    }
    v
}

fn dedupe(v: &[IndentedLine]) -> Vec<IndentedLine> {
    let mut o: Vec<IndentedLine> = vec![];
    for l in v {
        if !(l.is_empty() && o.last().map_or(false, |p| p.is_empty())) {
            o.push(l.clone());
        }
    }
    o
}

fn show_line(l: &IndentedLine) -> String {
    format!("{}{}{:.2}|{}", if l.is_bold() { "B" } else { " " }, if l.is_justified() { "J" } else { " " }, l.indent(), l.content())
}

fn same(a: &IndentedLine, b: &IndentedLine) -> bool {
    a.content() == b.content()
        && a.is_bold() == b.is_bold()
        && a.is_justified() == b.is_justified()
        && a.len() == b.len()
        && (0..a.len() as i64).all(|i| a.indent_at(i) == b.indent_at(i))
}

fn judge(m: &mut Mon, pages: &[PageOfLines], got: anyhow::Result<Vec<ActRawText>>, want: &[Want], date: NaiveDate) {
    let ctx = || {
        let mut s = String::new();
        for p in pages {
            s.push_str("---- page\n");
            for l in &p.lines {
                s.push_str(&show_line(l));
                s.push('\n');
            }
        }
        s
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            m.fail("issue:refused", format!("{e:#}\n{}", ctx()));
            return;
        }
    };
    let ids: Vec<_> = got.iter().map(|a| (a.identifier.year, a.identifier.number)).collect();
    let wids: Vec<_> = want.iter().map(|a| (a.id.year, a.id.number)).collect();
    if !m.eq(&ids, &wids, "issue:acts", ctx) {
        return;
    }
    for (g, w) in got.iter().zip(want) {
        m.eq(&g.subject, &w.subject, "issue:subject", ctx);
        m.eq(&g.publication_date, &date, "issue:date", ctx);
        // how much of the gap before the signatures is kept is not judged
        let trim = |v: &[IndentedLine]| v[..v.iter().rposition(|l| !l.is_empty()).map_or(0, |i| i + 1)].to_vec();
        let b = trim(&dedupe(&w.body));
        let gb = trim(&g.body);
        let i = gb.iter().zip(&b).take_while(|(x, y)| same(x, y)).count();
        if i < b.len() || i < gb.len() {
            m.fail(
                "issue:body",
                format!("act {:?} line {i}: got {:?} want {:?} ({} and {} lines)\n{}", g.identifier, gb.get(i).map(show_line), b.get(i).map(show_line), gb.len(), b.len(), ctx()),
            );
            return;
        }
        m.check(g.body.windows(2).all(|p| !(p[0].is_empty() && p[1].is_empty())), "issue:double_empty", ctx);
        m.count("body_lines", b.len() as u64);
    }
    m.count("acts_cut", got.len() as u64);
}

fn split_pages(cells: &[Cell]) -> Vec<PageOfLines> {
    let mut pages = vec![];
    let mut cur = vec![];
    for c in cells {
        match c {
            Cell::L(l) => cur.push(l.clone()),
            Cell::P => pages.push(PageOfLines { lines: std::mem::take(&mut cur) }),
        }
    }
    if !cur.is_empty() {
        pages.push(PageOfLines { lines: cur });
    }
    pages
}

pub fn gen_date(r: &mut Rng) -> NaiveDate {
    NaiveDate::from_ymd_opt(r.range(1998, 2029) as i32, r.range(1, 12) as u32, r.range(1, 28) as u32).unwrap()
}

fn issue(r: &mut Rng, m: &mut Mon, typeset: bool) {
    let (pages, want, date) = gen_issue(r, typeset);
    let Some(got) = m.no_panic("issue", String::new, || parse_mk_pages_into_acts(&pages)) else { return };
    judge(m, &pages, got, &want, date);
    let text: Vec<String> = pages.iter().flat_map(|p| p.lines.iter().map(|l| l.content().to_string())).collect();
    m.observe(&text, !want.is_empty());
    m.count("pages", pages.len() as u64);
    m.sample(|| format!("{} pages, {} acts: {:?}", pages.len(), want.len(), want.iter().map(|w| (w.id.year, w.id.number, w.body.len())).collect::<Vec<_>>()));
}

pub fn issue_pages(r: &mut Rng, typeset: bool) -> Vec<PageOfLines> {
    gen_issue(r, typeset).0
}

fn gen_issue(r: &mut Rng, typeset: bool) -> (Vec<PageOfLines>, Vec<Want>, NaiveDate) {
    let date = gen_date(r);
    let cov = cover(r, date);
    let mut w = W { r, cells: vec![], since_break: 0 };
    let mut want = vec![];
    for l in cov {
        w.l(l);
    }
    w.page();
    let headless = w.r.chance(1, 8);
    if w.r.chance(1, 3) {
        // material before the acts
        w.t("I. Az Országgyűlés határozatai", true);
        let n = w.r.below(12);
        w.filler(n);
        w.page();
    }
    if headless {
        // no section header at all; the first act is recognised by its bold header
        let n = w.r.range(1, 3);
        for i in 0..n {
            // the section starts with this very line, so the line before it is not seen: needs a gap inside
            if i == 0 {
                emit_headless_first(&mut w, &mut want, typeset);
            } else {
                emit_act(&mut w, &mut want, true, typeset);
            }
        }
    } else {
        w.t("II. Törvények", true);
        let n = match w.r.below(6) {
            0 => 0,
            1 => w.r.range(3, 8),
            _ => w.r.range(1, 3),
        };
        for _ in 0..n {
            emit_act(&mut w, &mut want, false, typeset);
            if w.r.chance(1, 8) {
                // a mention of an act in running text is not its header
                w.t("Helyesbítés: a fenti törvény helyes megjelölése", false);
                let t = format!("{}. évi {}. törvény", w.r.range(1990, 2022), to_roman(w.r.range(1, 300) as u32));
                w.t(&t, false);
                w.t("az egyes törvényekről*", false);
            }
            if w.r.chance(1, 4) {
                w.gap();
                let k = w.r.below(8);
                w.filler(k);
            }
        }
    }
    if w.r.chance(2, 3) {
        // other sections: whatever looks like an act there is none of ours
        let n = w.r.range(1, 3);
        for _ in 0..n {
            let s = STOPS[w.r.below(STOPS.len())];
            if w.r.chance(1, 2) {
                w.gap();
            }
            w.t(s, true);
            let mut unwanted = vec![];
            if w.r.chance(1, 2) {
                emit_act(&mut w, &mut unwanted, false, typeset);
            }
            let k = w.r.below(20);
            w.filler(k);
        }
        if !headless && w.r.chance(1, 8) {
            // the acts section continues
            w.gap();
            w.t("II. Törvények", true);
            emit_act(&mut w, &mut want, false, typeset);
        }
    }
    if w.since_break == 0 && w.cells.len() < 8 {
        w.t("utolsó oldal", false);
    }
    let mut pages = split_pages(&w.cells);
    if pages.len() < 2 {
        pages.push(PageOfLines { lines: vec![pl(r, "hátsó borító", false)] });
    }
    (pages, want, date)
}

/// Without a section header the header line itself turns extraction on; the first one only serves for that, unless
/// an earlier bold mention (as in running text) has done it already.
fn emit_headless_first(w: &mut W, want: &mut Vec<Want>, typeset: bool) {
    w.t("A 2021. évi XCIX. törvény és mások", true);
    emit_act(w, want, true, typeset);
}

fn c03(env: &Env, mon: &mut Mon) {
    env.suite(mon, "issues", env.n(30000, 600000), |r, m| issue(r, m, false));
    env.suite(mon, "typeset", env.n(3000, 40000), |r, m| issue(r, m, true));
    env.suite(mon, "damaged_cover", env.n(1500, 15000), |r, m| {
        // without a readable date no act may be returned with a made-up one
        let date = gen_date(r);
        let mut cov = cover(r, date);
        let mut w = W { r, cells: vec![], since_break: 0 };
        let mut want = vec![];
        w.page();
        w.t("II. Törvények", true);
        emit_act(&mut w, &mut want, false, false);
        let mut pages = split_pages(&w.cells);
        let kind = r.below(6);
        match kind {
            0 => cov.truncate(r.below(4)),
            1 => cov[0] = pl(r, "HIVATALOS LAP", true),
            2 => cov[3] = EMPTY_LINE,
            3 => {
                let mo = *r.pick(&["brumaire", "", "0", "janur", "Január-"]);
                cov[3] = pl(r, &format!("{}. {mo} {}., kedd", date.year(), date.day()), false)
            }
            4 => {
                let d = r.range(32, 99);
                cov[3] = pl(r, &format!("{}. {} {d}., kedd", date.year(), MONTHS[date.month0() as usize]), false)
            }
            _ => {
                cov.remove(0);
            }
        }
        pages.insert(0, PageOfLines { lines: cov });
        let Some(got) = m.no_panic("cover", String::new, || parse_mk_pages_into_acts(&pages)) else { return };
        m.check(got.is_err(), "cover:accepted", || format!("kind {kind}: {:?}", got.map(|g| g.iter().map(|a| (a.identifier, a.publication_date)).collect::<Vec<_>>())));
        m.observe(&(kind, pages[0].lines.iter().map(|l| l.content().to_string()).collect::<Vec<_>>()), true);
    });
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C03",
        level: "exploration",
        rule: "random issues: cover, contents, acts of 1..90+ lines with titles, footnotes, signatures and page breaks anywhere, look-alike lines in bodies, other sections before, between and after; non-trivial: holds an act; distinct by text",
        assumptions: &[
            "titles end with an asterisk, at most one adoption footnote of one line per act, before it no lone starred line between gaps",
            "signatures are a names line and an office line after a gap; bodies have at least one line; the header of an act stands after a gap",
            "section headers are bold, text of bodies never entirely bold",
        ],
        run: c03,
    }]
}
