#!/usr/bin/env python3
"""peg.py GRAMMAR OUT: a parser for hun_law_grammar/grammar.ebnf, as Rust source.

Stands in for the peginator_codegen crate, which does not exist in this sandbox. It implements what
the grammar uses of peginator's language: fields, overrides, includes, closures, optionals, choices,
lookaheads, literals, ranges, $, char, and the directives export, string, char, position, check,
memoize, extern and no_skip_ws; the generated types have the names and shapes peginator gives them.
Validated by the repository's own semantic parser goldens (tests/datatests), see the C24 check.
"""
import re
import sys

TOKEN = re.compile(r"""\s+|\#[^\n]*|
    (?P<str>"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')|
    (?P<dir>@(?:export|string|char|position|memoize|no_skip_ws|leftrec)\b|@(?:check|extern)\([^)]*\))|
    (?P<over>@:)|(?P<dots>\.\.)|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<op>[=;|(){}\[\]+!&>:$*])""", re.X)


def tokens(s):
    pos, out = 0, []
    while pos < len(s):
        m = TOKEN.match(s, pos)
        if not m:
            sys.exit(f"grammar: cannot read {s[pos:pos + 40]!r}")
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


class Reader:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, text):
        kind, v = self.next()
        if v != text:
            sys.exit(f"grammar: {text!r} expected, {v!r} found near token {self.i}")

    def rules(self):
        out = {}
        while self.peek()[0] != "end":
            dirs = []
            while self.peek()[0] == "dir":
                dirs.append(self.next()[1])
            kind, name = self.next()
            if kind != "id":
                sys.exit(f"grammar: rule name expected, {name!r} found")
            expr = None
            if self.peek()[1] == "=":
                self.next()
                expr = self.choice()
            self.expect(";")
            out[name] = (dirs, expr)
        return out

    def choice(self):
        alts = [self.seq()]
        while self.peek()[1] == "|":
            self.next()
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ("choice", alts)

    def seq(self):
        items = []
        while self.peek()[0] != "end" and self.peek()[1] not in ("|", ")", "]", "}", ";"):
            items.append(self.item())
        return items[0] if len(items) == 1 else ("seq", items)

    def item(self):
        kind, v = self.next()
        if kind == "str":
            s = bytes(v[1:-1], "utf-8").decode("unicode_escape").encode("latin-1").decode("utf-8") if "\\" in v else v[1:-1]
            if self.peek()[0] == "dots":
                self.next()
                return ("range", s, self.next()[1][1:-1])
            return ("lit", s)
        if v == "(":
            e = self.choice()
            self.expect(")")
            return e
        if v == "[":
            e = self.choice()
            self.expect("]")
            return ("opt", e)
        if v == "{":
            e = self.choice()
            self.expect("}")
            if self.peek()[1] == "+":
                self.next()
                return ("rep", e, True)
            return ("rep", e, False)
        if v == "!":
            return ("not", self.item())
        if v == "&":
            return ("and", self.item())
        if v == "$":
            return ("eoi",)
        if v == ">":
            return ("incl", self.next()[1])
        if kind == "over":
            return ("field", "@", self.next()[1])
        if kind == "id":
            if self.peek()[1] == ":":
                self.next()
                return ("field", v, self.next()[1])
            return ("char",) if v == "char" else ("call", v)
        sys.exit(f"grammar: unexpected {v!r}")


RULES = Reader(tokens(open(sys.argv[1], encoding="utf-8").read())).rules()

# ---------------------------------------------------------------- fields of a rule
ZERO, OPT, ONE, MANY = 0, 1, 2, 3


def fields(e):
    """ordered dict: field -> (arity, [types])"""
    k = e[0]
    if k == "field":
        return {e[1]: (ONE, [e[2]])}
    if k == "incl":
        return fields(RULES[e[1]][1])
    if k == "opt":
        return {f: (max(OPT, a) if a == MANY else OPT, t) for f, (a, t) in fields(e[1]).items()}
    if k == "rep":
        return {f: (MANY, t) for f, (_, t) in fields(e[1]).items()}
    if k == "seq":
        out = {}
        for x in e[1]:
            for f, (a, t) in fields(x).items():
                if f in out:
                    out[f] = (MANY, out[f][1] + [y for y in t if y not in out[f][1]])
                else:
                    out[f] = (a, t)
        return out
    if k == "choice":
        alts = [fields(x) for x in e[1]]
        out = {}
        for alt in alts:
            for f, (a, t) in alt.items():
                _, old = out.get(f, (0, []))
                out[f] = (0, old + [y for y in t if y not in old])
        for f in out:
            ars = [alt[f][0] if f in alt else ZERO for alt in alts]
            ar = MANY if MANY in ars else (ONE if all(x == ONE for x in ars) else OPT)
            out[f] = (ar, out[f][1])
        return out
    return {}


def wrap(arity, t):
    return {OPT: f"Option<{t}>", ONE: t, MANY: f"Vec<{t}>"}[arity]


DERIVE = "#[derive(Debug, Clone, Drive)]\n#[allow(non_camel_case_types)]\n"
out = []


def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Emit:
    def __init__(self, rule):
        self.rule = rule
        dirs, self.expr = RULES[rule]
        self.skip = "@no_skip_ws" not in dirs and "@char" not in dirs
        self.n = 0
        self.fs = fields(self.expr)

    def fname(self, f):
        return "over" if f == "@" else f

    def elem(self, f):
        """type of one element of field f"""
        types = self.fs[f][1]
        if len(types) == 1:
            return types[0]
        return self.rule if f == "@" else f"{self.rule}_{f}"

    def ws(self, st):
        return f"g.ws({st})" if self.skip else st

    def fresh(self):
        self.n += 1
        return self.n

    def e(self, x, st):
        k = x[0]
        if k == "lit":
            return f"g.lit({self.ws(st)}, {lit(x[1])})"
        if k == "range":
            return f"g.range({self.ws(st)}, '{x[1]}', '{x[2]}')"
        if k == "char":
            return f"g.range({self.ws(st)}, '\\0', char::MAX)"
        if k == "eoi":
            return f"g.eoi({self.ws(st)})"
        if k == "call":
            if x[1] == "Whitespace" and "Whitespace" not in RULES:
                return f"Some(g.ws({st}))"
            return f"parse_{x[1]}({self.ws(st)}, g).map(|r| r.1)"
        if k == "field":
            v = "r.0" if len(self.fs[x[1]][1]) == 1 else f"{self.elem(x[1])}::{x[2]}(r.0)"
            return f"parse_{x[2]}({self.ws(st)}, g).map(|r| {{ acc.{self.fname(x[1])}.push({v}); r.1 }})"
        if k == "incl":
            return self.e(RULES[x[1]][1], st)
        if k == "seq":
            if not x[1]:
                return f"Some({st})"
            n = self.fresh()
            body = f"'q{n}: {{ let s = {st}; "
            for y in x[1]:
                body += f"let s = match {self.e(y, 's')} {{ Some(v) => v, None => break 'q{n} None }};\n"
            return body + "Some(s) }"
        m = f"m{self.fresh()}"
        if k == "choice":
            body = f"{{ let {m} = acc.mark(); let st0 = {st}; let mut r = {self.e(x[1][0], 'st0')};\n"
            for y in x[1][1:]:
                body += f"if r.is_none() {{ acc.reset({m}); r = {self.e(y, 'st0')}; }}\n"
            return body + "r }"
        if k == "opt":
            return f"{{ let {m} = acc.mark(); let st0 = {st}; match {self.e(x[1], 'st0')} {{ Some(v) => Some(v), None => {{ acc.reset({m}); Some(st0) }} }} }}"
        if k == "rep":
            cond = f"if n{m} == 0 {{ None }} else {{ Some(s{m}) }}" if x[2] else f"Some(s{m})"
            return (f"{{ let mut s{m} = {st}; let mut n{m} = 0usize; loop {{ let {m} = acc.mark(); match {self.e(x[1], 's' + m)} {{ "
                    f"Some(v) if v > s{m} => {{ s{m} = v; n{m} += 1; }}, Some(_) => {{ n{m} += 1; break; }}, None => {{ acc.reset({m}); break; }} }} }} {cond} }}")
        if k in ("not", "and"):
            return f"{{ let {m} = acc.mark(); let st0 = {st}; let ok = ({self.e(x[1], 'st0')}).{'is_none' if k == 'not' else 'is_some'}(); acc.reset({m}); if ok {{ Some(st0) }} else {{ None }} }}"
        raise AssertionError(x)

    def run(self):
        dirs = RULES[self.rule][0]
        R = self.rule
        string, char = "@string" in dirs, "@char" in dirs
        pos = "@position" in dirs
        types = ""
        over = "@" in self.fs
        for f, (ar, ts) in self.fs.items():
            if string or char:
                break
            if len(ts) > 1:
                types += f"{DERIVE}pub enum {self.elem(f)} {{ {', '.join(f'{t}({t})' for t in ts)} }}\n"
        if string:
            types = f"pub type {R} = String;\n"
            build = "g.s[st..end].to_string()"
        elif char:
            types = f"pub type {R} = char;\n"
            build = "g.s[st..].chars().next().unwrap()"
        elif over:
            ar, ts = self.fs["@"]
            if len(ts) == 1:
                types += f"pub type {R} = {wrap(ar, ts[0])};\n"
            elif ar != ONE:
                sys.exit(f"grammar: override of several kinds in {R} is not required")
            build = self.take("@", ar)
        else:
            fs = [f"pub {f}: {wrap(ar, self.elem(f))}" for f, (ar, _) in self.fs.items()]
            if pos:
                fs.append("#[drive(skip)] pub position: std::ops::Range<usize>")
            if fs:
                types += f"{DERIVE}pub struct {R} {{ {', '.join(fs)} }}\n"
                vals = [f"{f}: {self.take(f, ar)}" for f, (ar, _) in self.fs.items()]
                if pos:
                    vals.append("position: st..end")
                build = f"{R} {{ {', '.join(vals)} }}"
            else:
                types += f"{DERIVE}pub struct {R};\n"
                build = R
        out.append(types)
        names = [self.fname(f) for f in self.fs]
        decl = ", ".join(f"{self.fname(f)}: Vec<{self.elem(f)}>" for f in self.fs)
        out.append(f"#[derive(Default)]\n#[allow(non_camel_case_types, dead_code)]\nstruct Acc_{R} {{ {decl} }}\n"
                   f"#[allow(dead_code)]\nimpl Acc_{R} {{ fn mark(&self) -> [usize; {len(names)}] {{ [{', '.join(f'self.{n}.len()' for n in names)}] }}\n"
                   f"fn reset(&mut self, _m: [usize; {len(names)}]) {{ {' '.join(f'self.{n}.truncate(_m[{i}]);' for i, n in enumerate(names))} }} }}\n")
        check = ""
        for d in dirs:
            if d.startswith("@check("):
                check = f"if !{d[7:-1]}(&val, g.user) {{ return None; }}\n"
        memo = "@memoize" in dirs
        name = f"parse_{R}"
        if memo:
            out.append(f"fn {name}(st: usize, g: &mut G) -> Option<({R}, usize)> {{ if let Some(v) = g.memo_{R}.get(&st) {{ return v.clone(); }}\n"
                       f"let v = raw_{R}(st, g); g.memo_{R}.insert(st, v.clone()); v }}\n")
            name = f"raw_{R}"
        out.append(f"fn {name}(st: usize, g: &mut G) -> Option<({R}, usize)> {{ #[allow(unused_mut)] let mut acc = Acc_{R}::default();\n"
                   f"let end: usize = ({self.e(self.expr, 'st')})?;\nlet val = {build};\n{check}Some((val, end)) }}\n")

    def take(self, f, ar):
        n = self.fname(f)
        return {OPT: f"acc.{n}.pop()", ONE: f"acc.{n}.pop().unwrap()", MANY: f"acc.{n}"}[ar]


memos = []
for rule, (dirs, expr) in RULES.items():
    ext = [d for d in dirs if d.startswith("@extern(")]
    if ext:
        out.append(f"pub type {rule} = String;\nfn parse_{rule}(st: usize, g: &mut G) -> Option<({rule}, usize)> {{ {ext[0][8:-1]}(&g.s[st..], g.user).ok().map(|(v, n)| (v, st + n)) }}\n")
        continue
    if "@memoize" in dirs:
        memos.append(rule)
    Emit(rule).run()
for rule, (dirs, _) in RULES.items():
    if "@export" in dirs:
        out.append(f"""impl<'u> peginator::PegParserAdvanced<&'u mut crate::CustomParseState> for {rule} {{
    fn parse_advanced<T: peginator::ParseTracer>(s: &str, _: &peginator::ParseSettings, user: &'u mut crate::CustomParseState) -> Result<Self, peginator::ParseError> {{
        let mut g = G {{ s, user, {' '.join(f'memo_{m}: Default::default(),' for m in memos)} }};
        let st = g.ws(0);
        parse_{rule}(st, &mut g).map(|r| r.0).ok_or(peginator::ParseError)
    }}
}}
""")
head = f"""// generated by /verif/tools/peg.py
#![allow(unused, non_snake_case, non_camel_case_types)]
use derive_visitor::{{Drive, Visitor}};
struct G<'s, 'u> {{ s: &'s str, user: &'u mut crate::CustomParseState, {' '.join(f'memo_{m}: std::collections::HashMap<usize, Option<({m}, usize)>>,' for m in memos)} }}
impl G<'_, '_> {{
    fn ws(&self, st: usize) -> usize {{
        st + self.s.as_bytes()[st..].iter().take_while(|c| matches!(c, b'\\t' | b'\\n' | 0x0c | b'\\r' | b' ')).count()
    }}
    fn lit(&self, st: usize, l: &str) -> Option<usize> {{ self.s[st..].starts_with(l).then_some(st + l.len()) }}
    fn range(&self, st: usize, a: char, b: char) -> Option<usize> {{
        let c = self.s[st..].chars().next()?;
        (a <= c && c <= b).then_some(st + c.len_utf8())
    }}
    fn eoi(&self, st: usize) -> Option<usize> {{ (st == self.s.len()).then_some(st) }}
}}
"""
# a range written with @char rules and `>`/`call` of char rules works on code points, like literals
open(sys.argv[2], "w", encoding="utf-8").write(head + "\n".join(out))
