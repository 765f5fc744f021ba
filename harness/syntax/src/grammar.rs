//! A grammar-directed generator: every production builds the syntax tree that the text is meant to have, together
//! with the token sequence. The expected tree and the text share nothing with the parser.
use common::Src;

#[derive(Clone, Debug)]
pub enum T {
    N(&'static str, Vec<T>),
    K(String),
    /// must directly follow the previous token (no trivia in between)
    G(String),
    /// must be separated from the previous token
    S(String),
}
pub use T::*;

pub fn k(s: &str) -> T {
    K(s.to_string())
}
pub fn n(kind: &'static str, c: Vec<T>) -> T {
    N(kind, c)
}

impl T {
    pub fn dump(&self, out: &mut String) {
        match self {
            N(kind, c) => {
                out.push_str(kind);
                out.push('[');
                for (i, x) in c.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    x.dump(out);
                }
                out.push(']');
            }
            K(s) | G(s) | S(s) => out.push_str(s),
        }
    }
    fn tokens<'a>(&'a self, out: &mut Vec<(&'a str, u8)>) {
        match self {
            N(_, c) => c.iter().for_each(|x| x.tokens(out)),
            K(s) => out.push((s, 0)),
            G(s) => out.push((s, 1)),
            S(s) => out.push((s, 2)),
        }
    }
    pub fn first_tok(&self) -> String {
        let mut v = vec![];
        self.tokens(&mut v);
        v.first().map(|x| x.0.to_string()).unwrap_or_default()
    }
    fn last_tok(&self) -> String {
        let mut v = vec![];
        self.tokens(&mut v);
        v.last().map(|x| x.0.to_string()).unwrap_or_default()
    }
}

fn wordy(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '\''
}

/// Prints the tokens with random trivia between them.
pub fn print(t: &T, s: &mut Src) -> String {
    let mut toks = vec![];
    t.tokens(&mut toks);
    let style = s.below(3);
    let mut out = String::new();
    for (i, (tok, g)) in toks.iter().enumerate() {
        if *g == 1 || i == 0 {
            out.push_str(tok);
            continue;
        }
        let a = out.chars().last().unwrap();
        let b = tok.chars().next().unwrap();
        let solid = |c: char| "(){}[],;".contains(c);
        let need = *g == 2
            || (wordy(a) && (wordy(b) || b == '"'))
            || (!wordy(a) && !wordy(b) && !solid(a) && !solid(b))
            || (a == '"' && wordy(b));
        let sep = match (style, s.below(if style == 2 { 12 } else { 4 })) {
            (0, _) | (_, 0) => if need { " " } else { "" },
            (1, _) => " ",
            (_, 1..=3) => " ",
            (_, 4) => "\n",
            (_, 5) => "\n    ",
            (_, 6) => "  \t",
            (_, 7) => " /* c */ ",
            (_, 8) => " // line\n",
            (_, 9) => "/*/**/ é */",
            (_, 10) => "\n/// doc\n",
            _ => " /** d */\n",
        };
        if a == '/' && sep.starts_with('/') {
            out.push(' ');
        }
        out.push_str(sep);
        out.push_str(tok);
    }
    out
}

/// Binding powers: the documented operator table of the language.
pub const BIN: &[(&str, u8)] = &[
    ("=", 1), ("+=", 1), ("-=", 1), ("*=", 1), ("/=", 1), ("|=", 1), ("^=", 1), ("&=", 1), ("%=", 1),
    (">>=", 1), ("<<=", 1), ("||", 4), ("&&", 5), ("==", 6), ("!=", 6), ("<", 6), (">", 6), ("<=", 6), (">=", 6),
    ("|", 7), ("^", 8), ("&", 9), ("<<", 10), (">>", 10), ("+", 11), ("-", 11), ("*", 12), ("/", 12), ("%", 12),
];
const SPEC_BIN: &[(&str, u8)] = &[("==>", 1), ("<==>", 1)];

const NAMES: &[&str] = &[
    "a", "b", "x1", "foo", "S", "Tt", "_u", "vec", "post", "schema", "weight", "to", "with", "internal", "local",
    "entry", "phantom", "address_", "min", "update", "global", "apply", "x", "b8", "u8x", "match_", "u", "i",
];
/// names that are contextual keywords somewhere else, but not at the places where `ident` is used below
const PLAIN: &[&str] = &["a", "b", "x1", "foo", "S", "Tt", "_u", "vec", "x", "b8", "u8x", "coin", "__"];

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub spec: bool,
    /// node kinds that were produced
    pub kinds: std::collections::BTreeSet<&'static str>,
    pub fuel: i32,
    /// `a < b` without parentheses around `a`
    pub bare_less: bool,
}

pub struct E {
    t: T,
    lvl: u8,
    /// starts (textually) with a block-like expression, or ends greedily
    block: bool,
}

impl Gen<'_> {
    fn nn(&mut self, kind: &'static str, c: Vec<T>) -> T {
        self.kinds.insert(kind);
        n(kind, c)
    }
    fn id(&mut self) -> String {
        if self.spec { self.s.pick(PLAIN).to_string() } else if self.s.chance(1, 4) { self.s.pick(NAMES).to_string() } else { self.s.pick(PLAIN).to_string() }
    }
    fn plain(&mut self) -> String {
        self.s.pick(PLAIN).to_string()
    }
    fn name(&mut self) -> T {
        let i = self.plain();
        self.nn("NAME", vec![K(i)])
    }
    fn name_ref(&mut self) -> T {
        let i = self.plain();
        self.nn("NAME_REF", vec![K(i)])
    }
    fn less(&mut self, d: usize) -> bool {
        self.fuel -= 1;
        d == 0 || self.fuel <= 0
    }
    fn list(&mut self, lo: usize, hi: usize, trailing: bool, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let m = self.s.range(lo, hi);
        let mut v = vec![];
        for i in 0..m {
            if i > 0 {
                v.push(k(","));
            }
            v.push(f(self));
        }
        if trailing && m > 0 && self.s.chance(1, 4) {
            v.push(k(","));
        }
        v
    }

    // ---------------------------------------------------------------- paths and types
    fn num(&mut self) -> String {
        self.s.pick(&["0", "1", "10", "1_000", "0x1", "0xAb_F", "0xcafe", "18446744073709551615"]).to_string()
    }
    /// `addr::module` style qualifier segments
    fn segments(&mut self, expr: bool, d: usize, max: usize) -> T {
        let len = self.s.range(1, max);
        let mut p: Option<T> = None;
        let value_addr = len > 1 && self.s.chance(1, 3);
        for i in 0..len {
            let last = i + 1 == len;
            let seg = if i == 0 && value_addr {
                let v = self.num();
                let a = self.nn("VALUE_ADDRESS", vec![K(v)]);
                let a = self.nn("PATH_ADDRESS", vec![a]);
                self.nn("PATH_SEGMENT", vec![a])
            } else {
                let name = self.id();
                let r = self.nn("NAME_REF", vec![K(name)]);
                let mut c = vec![r];
                if last && d > 0 && self.s.chance(1, 4) {
                    c.push(self.type_args(d - 1, expr));
                }
                self.nn("PATH_SEGMENT", c)
            };
            p = Some(match p {
                None => self.nn("PATH", vec![seg]),
                Some(q) => self.nn("PATH", vec![q, k("::"), seg]),
            });
        }
        p.unwrap()
    }
    fn type_args(&mut self, d: usize, expr: bool) -> T {
        let mut c = vec![];
        if expr {
            if self.s.flip() {
                c.push(k("::"));
                c.push(k("<"));
            } else {
                c.push(G("<".into()));
            }
        } else {
            c.push(k("<"));
        }
        let l = self.list(1, 3, true, |g| {
            let mut t = g.ty_w(d, false);
            if t.first_tok() == "(" {
                // a parenthesised type cannot start the list
                t = g.ty(0);
            }
            g.nn("TYPE_ARG", vec![t])
        });
        c.extend(l);
        c.push(if matches!(c.last(), Some(K(_))) { k(">") } else { K(">".into()) });
        self.nn("TYPE_ARG_LIST", c)
    }
    pub fn ty(&mut self, d: usize) -> T {
        self.ty_w(d, true)
    }
    /// tuples and the unit type cannot be nested in another type
    fn ty_w(&mut self, d: usize, top: bool) -> T {
        let leaf = self.less(d);
        let w = top as u32;
        match if leaf { 0 } else { self.s.weighted(&[6, 3, w, 1, w, 1]) } {
            0 => {
                let p = self.segments(false, d.saturating_sub(1), 3);
                self.nn("PATH_TYPE", vec![p])
            }
            1 => {
                let mut c = vec![k("&")];
                if self.s.flip() {
                    c.push(k("mut"));
                }
                c.push(self.ty_w(d - 1, false));
                self.nn("REF_TYPE", c)
            }
            2 => self.nn("UNIT_TYPE", vec![k("("), k(")")]),
            3 => {
                let t = self.ty_w(d - 1, false);
                self.nn("PAREN_TYPE", vec![k("("), t, k(")")])
            }
            4 => {
                let mut c = vec![k("(")];
                c.extend(self.list(2, 3, true, |g| g.ty_w(d - 1, false)));
                c.push(k(")"));
                self.nn("TUPLE_TYPE", c)
            }
            _ => {
                let mut c = vec![k("|")];
                c.extend(self.list(0, 2, false, |g| {
                    let t = g.ty(0);
                    g.nn("LAMBDA_TYPE_PARAM", vec![t])
                }));
                c.push(k("|"));
                if self.s.flip() {
                    c.push(self.ty(0));
                }
                if self.s.chance(1, 3) {
                    let b = self.ability_bounds(false);
                    c.push(self.nn("LAMBDA_TYPE_ABILITY_LIST", vec![k("has"), b]));
                }
                self.nn("LAMBDA_TYPE", c)
            }
        }
    }
    fn ability(&mut self) -> T {
        let a = self.s.pick(&["copy", "drop", "store", "key"]).to_string();
        self.nn("ABILITY", vec![K(a)])
    }
    fn ability_bounds(&mut self, colon: bool) -> T {
        let mut c = vec![];
        if colon {
            c.push(k(":"));
        }
        for i in 0..self.s.range(1, 3) {
            if i > 0 {
                c.push(k("+"));
            }
            c.push(self.ability());
        }
        self.nn("ABILITY_BOUND_LIST", c)
    }
    fn opt_type_params(&mut self) -> Option<T> {
        if !self.s.chance(1, 3) {
            return None;
        }
        let mut c = vec![k("<")];
        c.extend(self.list(1, 3, true, |g| {
            let mut c = vec![];
            if g.s.chance(1, 4) {
                c.push(k("phantom"));
            }
            c.push(g.name());
            if g.s.chance(1, 3) {
                c.push(g.ability_bounds(true));
            }
            g.nn("TYPE_PARAM", c)
        }));
        c.push(k(">"));
        Some(self.nn("TYPE_PARAM_LIST", c))
    }

    // ---------------------------------------------------------------- patterns
    fn ident_pat(&mut self) -> T {
        let x = self.name();
        self.nn("IDENT_PAT", vec![x])
    }
    pub fn pat(&mut self, d: usize) -> T {
        self.pat_w(d, true)
    }
    /// tuple patterns exist only at the top of a pattern: there are no tuples of tuples
    fn pat_w(&mut self, d: usize, top: bool) -> T {
        let leaf = self.less(d);
        let w = top as u32;
        match if leaf { self.s.weighted(&[4, 1]) } else { self.s.weighted(&[5, 2, 2 * w, 2, w, 2, 1, 2, w]) } {
            0 => self.ident_pat(),
            1 => self.nn("WILDCARD_PAT", vec![k("_")]),
            2 => {
                let mut c = vec![k("(")];
                c.extend(self.list(2, 3, true, |g| g.pat_w(d - 1, false)));
                c.push(k(")"));
                self.nn("TUPLE_PAT", c)
            }
            3 => {
                // struct pattern
                let p = self.segments(false, d - 1, 3);
                let mut c = vec![k("{")];
                let mut fields = self.list(0, 3, true, |g| {
                    let c = if g.s.flip() {
                        vec![g.name_ref(), k(":"), g.pat_w(d - 1, false)]
                    } else {
                        vec![g.ident_pat()]
                    };
                    g.nn("STRUCT_PAT_FIELD", c)
                });
                if self.s.chance(1, 3) {
                    if !fields.is_empty() && !matches!(fields.last(), Some(K(_))) {
                        fields.push(k(","));
                    }
                    let r = self.nn("REST_PAT", vec![k("..")]);
                    fields.push(self.nn("STRUCT_PAT_FIELD", vec![r]));
                }
                c.extend(fields);
                c.push(k("}"));
                let l = self.nn("STRUCT_PAT_FIELD_LIST", c);
                self.nn("STRUCT_PAT", vec![p, l])
            }
            4 => {
                let p = self.pat_w(d - 1, false);
                self.nn("PAREN_PAT", vec![k("("), p, k(")")])
            }
            5 => {
                let p = self.segments(false, d - 1, 3);
                let mut c = vec![p, k("(")];
                c.extend(self.list(1, 3, true, |g| if g.s.chance(1, 5) { g.nn("REST_PAT", vec![k("..")]) } else { g.pat_w(d - 1, false) }));
                c.push(k(")"));
                self.nn("TUPLE_STRUCT_PAT", c)
            }
            6 => {
                // a path of at least two segments
                let x = self.id();
                let q = self.nn("NAME_REF", vec![K(x)]);
                let q = self.nn("PATH_SEGMENT", vec![q]);
                let q = self.nn("PATH", vec![q]);
                let y = self.name_ref();
                let y = self.nn("PATH_SEGMENT", vec![y]);
                let p = self.nn("PATH", vec![q, k("::"), y]);
                self.nn("PATH_PAT", vec![p])
            }
            7 => {
                let l = self.lit_pat();
                if self.s.chance(1, 4) {
                    let r = self.lit_pat();
                    self.nn("RANGE_PAT", vec![l, k(".."), r])
                } else {
                    l
                }
            }
            _ => self.nn("UNIT_PAT", vec![k("("), k(")")]),
        }
    }
    fn lit_pat(&mut self) -> T {
        let mut c = vec![];
        let x = if self.s.chance(1, 4) {
            c.push(k("-"));
            let v = self.num();
            self.nn("LITERAL", vec![K(v)])
        } else {
            self.literal()
        };
        c.push(x);
        self.nn("LITERAL_PAT", c)
    }
    fn literal(&mut self) -> T {
        let t = match self.s.weighted(&[6, 2, 1, 1, 2]) {
            0 => {
                let v = self.num();
                let suf = self.s.pick(&["", "", "u8", "u16", "u32", "u64", "u128", "u256", "i8", "i64", "i128", "i256"]).to_string();
                K(format!("{v}{suf}"))
            }
            1 => K(self.s.pick(&["true", "false"]).to_string()),
            2 => K(self.s.pick(&["b\"\"", "b\"abc\"", "b\"\\\"\"", "b\"\\\\\"", "b\"// no\"", "b\"/* no\"", "b\"a\\x00\""]).to_string()),
            3 => K(self.s.pick(&["x\"\"", "x\"00ff\"", "x\"DEADbeef\""]).to_string()),
            _ => {
                let a = if self.s.flip() {
                    let v = self.num();
                    self.nn("VALUE_ADDRESS", vec![K(v)])
                } else {
                    let v = self.plain();
                    self.nn("NAMED_ADDRESS", vec![K(v)])
                };
                self.nn("ADDRESS_LIT", vec![k("@"), a])
            }
        };
        self.nn("LITERAL", vec![t])
    }

    // ---------------------------------------------------------------- expressions
    fn paren(&mut self, e: T) -> T {
        self.nn("PAREN_EXPR", vec![k("("), e, k(")")])
    }
    fn at_least(&mut self, e: E, lvl: u8) -> T {
        if e.lvl >= lvl { e.t } else { self.paren(e.t) }
    }
    /// an expression in a place delimited on both sides
    pub fn full(&mut self, d: usize) -> T {
        self.expr(d).t
    }
    fn args(&mut self, d: usize) -> T {
        let mut c = vec![k("(")];
        c.extend(self.list(0, 3, true, |g| {
            let e = g.expr(d);
            let e = g.at_least(e, 7);
            g.nn("VALUE_ARG", vec![e])
        }));
        c.push(k(")"));
        self.nn("VALUE_ARG_LIST", c)
    }
    fn path_expr(&mut self, d: usize) -> T {
        let p = self.segments(true, d, 3);
        self.nn("PATH_EXPR", vec![p])
    }
    /// something a call, an index or a field access can be applied to
    fn postfix_base(&mut self, d: usize) -> T {
        if self.less(d) {
            return self.path_expr(0);
        }
        match self.s.weighted(&[4, 3, 2, 2, 2, 1]) {
            0 => self.path_expr(0),
            1 => {
                let p = self.path_expr(d - 1);
                let a = self.args(d - 1);
                self.nn("CALL_EXPR", vec![p, a])
            }
            2 => {
                let b = self.postfix_base(d - 1);
                let e = self.full(d - 1);
                self.nn("INDEX_EXPR", vec![b, k("["), e, k("]")])
            }
            3 => {
                let b = self.postfix_base(d - 1);
                let f = if self.s.chance(1, 5) { k("0") } else { K(self.plain()) };
                let f = self.nn("NAME_REF", vec![f]);
                self.nn("DOT_EXPR", vec![b, k("."), f])
            }
            4 => {
                let b = self.postfix_base(d - 1);
                let f = self.name_ref();
                let mut c = vec![b, k("."), f];
                if self.s.chance(1, 4) {
                    c.push(self.type_args(d - 1, true));
                }
                c.push(self.args(d - 1));
                self.nn("METHOD_CALL_EXPR", c)
            }
            _ => {
                let e = self.full(d - 1);
                self.paren(e)
            }
        }
    }
    pub fn expr(&mut self, d: usize) -> E {
        let e = |t: T, lvl: u8| E { t, lvl, block: false };
        if self.less(d) {
            return if self.s.flip() { e(self.literal(), 255) } else { e(self.path_expr(0), 255) };
        }
        let choice = self.s.weighted(&[3, 3, 14, 5, 5, 3, 3, 3, 2, 2, 2, 2, 2, 1, 1, 1, 2, 1]);
        match choice {
            0 => e(self.literal(), 255),
            1 => e(self.path_expr(d - 1), 255),
            2 => {
                let ops: &[(&str, u8)] = if self.spec && self.s.chance(1, 4) { SPEC_BIN } else { BIN };
                let &(op, bp) = self.s.pick(ops);
                let l = self.expr(d - 1);
                let mut l = self.at_least(l, bp);
                let r = self.expr(d - 1);
                let r = self.at_least(r, bp + 1);
                if op.starts_with('<') && ends_in_type(&l) {
                    l = self.paren(l);
                }
                if self.bare_less {
                    // left to `ambiguous_less`
                } else if op == "<" {
                    // `a < b > ..` and `a < b, c > ..` read as type arguments: the left operand is parenthesised
                    // unless the right one cannot start a type
                    let num = r.first_tok().starts_with(|c: char| c.is_ascii_digit()) && matches!(r, N("LITERAL", _));
                    if !num && l.last_tok().starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
                        l = self.paren(l);
                    }
                } else if op == ">" && has_less(&l) {
                    l = self.paren(l);
                }
                let o = if op.starts_with('<') { S(op.into()) } else { k(op) };
                e(self.nn("BIN_EXPR", vec![l, o, r]), bp)
            }
            3 => e(self.postfix_base(d), 255),
            4 => {
                let (kind, toks): (&'static str, &[&str]) = *self.s.pick(&[
                    ("BORROW_EXPR", &["&"][..]), ("BORROW_EXPR", &["&", "mut"]), ("DEREF_EXPR", &["*"]), ("BANG_EXPR", &["!"]),
                    ("MINUS_EXPR", &["-"]), ("RESOURCE_EXPR", &["move"]), ("RESOURCE_EXPR", &["copy"]),
                ]);
                let x = self.expr(d - 1);
                let mut x = self.at_least(x, 254);
                if toks[0] == "copy" && x.first_tok() == "(" {
                    x = self.path_expr(0);
                }
                let mut c: Vec<T> = toks.iter().map(|x| k(x)).collect();
                c.push(x);
                e(self.nn(kind, c), 254)
            }
            5 => {
                let x = self.full(d - 1);
                e(self.paren(x), 255)
            }
            6 => {
                let mut c = vec![k("(")];
                c.extend(self.list(2, 3, true, |g| g.full(d - 1)));
                c.push(k(")"));
                e(self.nn("TUPLE_EXPR", c), 255)
            }
            7 => {
                // struct literal
                let p = self.segments(true, d - 1, 3);
                let mut c = vec![k("{")];
                c.extend(self.list(0, 3, true, |g| {
                    let c = if g.s.chance(1, 3) {
                        let r = g.name_ref();
                        let r = g.nn("PATH_SEGMENT", vec![r]);
                        let r = g.nn("PATH", vec![r]);
                        vec![g.nn("PATH_EXPR", vec![r])]
                    } else {
                        vec![g.name_ref(), k(":"), g.full(d - 1)]
                    };
                    g.nn("STRUCT_LIT_FIELD", c)
                }));
                c.push(k("}"));
                let l = self.nn("STRUCT_LIT_FIELD_LIST", c);
                e(self.nn("STRUCT_LIT", vec![p, l]), 253)
            }
            8 => {
                let mut c = vec![k("vector")];
                if self.s.flip() {
                    c.push(self.type_args_plain(d - 1));
                }
                c.push(k("["));
                c.extend(self.list(0, 3, true, |g| g.full(d - 1)));
                c.push(k("]"));
                e(self.nn("VECTOR_LIT_EXPR", c), 255)
            }
            9 => {
                let x = self.expr(d - 1);
                let x = self.at_least(x, 3);
                let t = self.ty(1);
                e(self.nn("CAST_EXPR", vec![x, k("as"), t]), 2).greedy_tail()
            }
            10 => {
                let x = self.expr(d - 1);
                let x = self.at_least(x, 3);
                let mut c = vec![x, k("is")];
                for i in 0..self.s.range(1, 3) {
                    if i > 0 {
                        c.push(k("|"));
                    }
                    let p = self.segments(false, 1, 3);
                    c.push(self.nn("PATH_TYPE", vec![p]));
                }
                e(self.nn("IS_EXPR", c), 2).greedy_tail()
            }
            11 => {
                let l = self.lambda(d);
                e(l, 0)
            }
            12 => {
                let i = self.if_expr(d);
                let greedy = !matches!(&i, N(_, c) if matches!(c.last(), Some(N("BLOCK_EXPR", _))));
                E { t: i, lvl: if greedy { 0 } else { 253 }, block: true }
            }
            13 => {
                let b = self.block(d - 1);
                E { t: b, lvl: 253, block: true }
            }
            14 => {
                let b = self.match_expr(d);
                E { t: b, lvl: 253, block: true }
            }
            15 => {
                let (kind, kw) = *self.s.pick(&[("RETURN_EXPR", "return"), ("ABORT_EXPR", "abort"), ("BREAK_EXPR", "break")]);
                let mut c = vec![k(kw)];
                if kw == "break" && self.s.chance(1, 3) {
                    c.push(self.nn("LABEL", vec![k("'l")]));
                }
                if kw != "break" || self.s.flip() {
                    c.push(self.full_expr_first(d - 1));
                }
                e(self.nn(kind, c), 0)
            }
            16 => {
                // (x: T)
                let x = self.full(d - 1);
                let t = self.ty(1);
                e(self.nn("ANNOTATED_EXPR", vec![k("("), x, k(":"), t, k(")")]), 255)
            }
            _ => {
                let l = self.expr(d - 1);
                let l = self.at_least(l, 4);
                let r = self.expr(d - 1);
                let mut r = self.at_least(r, 4);
                if r.first_tok() == "{" {
                    // `if (a .. {}) ..`
                    r = self.paren(r);
                }
                e(self.nn("RANGE_EXPR", vec![l, S("..".into()), r]), 3)
            }
        }
    }
    /// for `return e`: `e` has to start with a token that can only start an expression
    fn full_expr_first(&mut self, d: usize) -> T {
        let t = self.expr(d);
        if [".."].contains(&t.t.first_tok().as_str()) { self.paren(t.t) } else { t.t }
    }
    fn type_args_plain(&mut self, d: usize) -> T {
        let mut c = vec![k("<")];
        let t = self.ty(d);
        c.push(self.n_arg(t));
        c.push(k(">"));
        self.nn("TYPE_ARG_LIST", c)
    }
    fn n_arg(&mut self, t: T) -> T {
        self.nn("TYPE_ARG", vec![t])
    }
    fn lambda(&mut self, d: usize) -> T {
        let mut c = vec![k("|")];
        c.extend(self.list(0, 2, false, |g| {
            let mut c = vec![if g.s.chance(1, 5) { g.nn("WILDCARD_PAT", vec![k("_")]) } else { g.ident_pat() }];
            if g.s.chance(1, 3) {
                c.push(k(":"));
                let p = g.segments(false, 1, 2);
                c.push(g.nn("PATH_TYPE", vec![p]));
            }
            g.nn("LAMBDA_PARAM", c)
        }));
        c.push(k("|"));
        let pl = self.nn("LAMBDA_PARAM_LIST", c);
        let b = self.full(d - 1);
        self.nn("LAMBDA_EXPR", vec![pl, b])
    }
    fn condition(&mut self, d: usize) -> T {
        let e = self.full(d);
        self.nn("CONDITION", vec![k("("), e, k(")")])
    }
    fn branch(&mut self, d: usize, before_else: bool) -> T {
        if self.s.chance(3, 4) {
            return self.block(d);
        }
        let e = self.expr(d);
        // a dangling `else` would attach to an `if` without one
        let e = if e.t.first_tok() == "{" || (before_else && ends_in_open_if(&e.t)) {
            self.paren(e.t)
        } else {
            e.t
        };
        self.nn("INLINE_EXPR", vec![e])
    }
    fn if_expr(&mut self, d: usize) -> T {
        let has_else = self.s.flip();
        let mut c = vec![k("if"), self.condition(d - 1), self.branch(d - 1, has_else)];
        if has_else {
            c.push(k("else"));
            c.push(self.branch(d - 1, false));
        }
        self.nn("IF_EXPR", c)
    }
    fn loop_stmt(&mut self, d: usize) -> T {
        let mut c = vec![];
        if self.s.chance(1, 3) {
            c.push(self.nn("LABEL_DECL", vec![k("'l"), k(":")]));
        }
        match self.s.below(3) {
            0 => {
                c.extend([k("while"), self.condition(d - 1), self.block(d - 1)]);
                self.nn("WHILE_EXPR", c)
            }
            1 => {
                c.extend([k("loop"), self.block(d - 1)]);
                self.nn("LOOP_EXPR", c)
            }
            _ => {
                let p = self.ident_pat();
                let l = self.expr(d - 1);
                let l = self.at_least(l, 4);
                let r = self.expr(0);
                let r = self.at_least(r, 4);
                let r = self.nn("RANGE_EXPR", vec![l, S("..".into()), r]);
                let cond = self.nn("FOR_CONDITION", vec![k("("), p, k("in"), r, k(")")]);
                c.extend([k("for"), cond, self.block(d - 1)]);
                self.nn("FOR_EXPR", c)
            }
        }
    }
    fn match_expr(&mut self, d: usize) -> T {
        let x = self.full(d - 1);
        let mut c = vec![k("{")];
        let m = self.s.range(0, 3);
        for i in 0..m {
            let mut a = vec![self.pat(1)];
            if self.s.chance(1, 4) {
                let g = self.full(d - 1);
                a.push(self.nn("MATCH_GUARD", vec![k("if"), g]));
            }
            a.push(k("=>"));
            let b = self.expr(d - 1);
            let blocky = matches!(&b.t, N("BLOCK_EXPR" | "MATCH_EXPR", _)) || (matches!(&b.t, N("IF_EXPR", _)) && b.lvl > 0);
            let bt = if starts_block(&b.t) && !blocky { self.paren(b.t) } else { b.t };
            a.push(bt);
            let last = i + 1 == m;
            if !(last && self.s.flip()) && !(blocky && !last && false) {
                a.push(k(","));
            }
            c.push(self.nn("MATCH_ARM", a));
        }
        c.push(k("}"));
        let l = self.nn("MATCH_ARM_LIST", c);
        self.nn("MATCH_EXPR", vec![k("match"), G("(".into()), x, k(")"), l])
    }

    // ---------------------------------------------------------------- statements
    pub fn block(&mut self, d: usize) -> T {
        let c = self.block_items(d);
        self.nn("BLOCK_EXPR", c)
    }
    fn block_items(&mut self, d: usize) -> Vec<T> {
        let mut c = vec![k("{")];
        let m = if d == 0 { self.s.range(0, 1) } else { self.s.range(0, 3) };
        for _ in 0..m {
            let t = self.stmt(d.saturating_sub(1));
            // `if (c) {} *x = 1` continues as a multiplication
            if matches!(c.last(), Some(N("EXPR_STMT", x)) if !matches!(x.last(), Some(K(_)))) {
                let first = t.first_tok();
                if ["*", "&", "|", "-", "<", ".."].contains(&first.as_str()) || first == "is" {
                    if let Some(N(_, x)) = c.last_mut() {
                        x.push(k(";"));
                    }
                }
            }
            c.push(t);
        }
        if self.s.chance(1, 3) && !self.spec {
            let e = self.expr(d);
            let t = self.lead(e);
            if matches!(c.last(), Some(N("EXPR_STMT", x)) if !matches!(x.last(), Some(K(_)))) {
                if let Some(N(_, x)) = c.last_mut() {
                    x.push(k(";"));
                }
            }
            c.push(t);
        } else if matches!(c.last(), Some(N("EXPR_STMT", x)) if !matches!(x.last(), Some(K(_)))) {
            // directly before `}` a block-like statement is the tail expression
            if let Some(N(_, x)) = c.pop() {
                c.extend(x);
            }
        }
        c.push(k("}"));
        c
    }
    /// an expression in statement position
    fn lead(&mut self, e: E) -> T {
        let whole = matches!(&e.t, N("IF_EXPR" | "BLOCK_EXPR" | "MATCH_EXPR", _));
        if starts_block(&e.t) && !whole || ["-", "|"].contains(&e.t.first_tok().as_str()) {
            self.paren(e.t)
        } else {
            e.t
        }
    }
    fn let_stmt(&mut self, d: usize) -> T {
        let mut c = vec![k("let")];
        if self.spec && self.s.chance(1, 4) {
            c.push(k("post"));
        }
        c.push(self.pat(2));
        if self.s.chance(1, 3) {
            c.push(k(":"));
            c.push(self.ty(2));
        }
        if self.s.chance(4, 5) {
            c.push(k("="));
            c.push(self.full(d));
        }
        c.push(k(";"));
        self.nn("LET_STMT", c)
    }
    fn stmt(&mut self, d: usize) -> T {
        if self.spec {
            return self.spec_stmt(d);
        }
        match self.s.weighted(&[5, 5, 2, 2, 1, 1, 1]) {
            0 => self.let_stmt(d),
            1 => {
                let e = self.expr(d);
                let t = self.lead(e);
                self.nn("EXPR_STMT", vec![t, k(";")])
            }
            2 if d > 0 => {
                let i = self.if_expr(d);
                let block_end = matches!(&i, N(_, c) if matches!(c.last(), Some(N("BLOCK_EXPR", _))));
                let mut c = vec![i];
                if !block_end || self.s.flip() {
                    c.push(k(";"));
                }
                self.nn("EXPR_STMT", c)
            }
            3 if d > 0 => {
                let l = self.loop_stmt(d);
                let mut c = vec![l];
                if self.s.flip() {
                    c.push(k(";"));
                }
                self.nn("EXPR_STMT", c)
            }
            4 => self.use_stmt(),
            5 => {
                let name = self.s.pick(&["assert", "assert_eq", "assert_ne", "debug_assert"]).to_string();
                let a = self.args(d);
                let m = self.nn("ASSERT_MACRO_EXPR", vec![K(name), k("!"), a]);
                self.nn("EXPR_STMT", vec![m, k(";")])
            }
            _ => {
                let mut c = vec![k("continue")];
                if self.s.flip() {
                    c.push(self.nn("LABEL", vec![k("'l")]));
                }
                let m = self.nn("CONTINUE_EXPR", c);
                self.nn("EXPR_STMT", vec![m, k(";")])
            }
        }
    }
    fn props(&mut self) -> Option<T> {
        if !self.s.chance(1, 5) {
            return None;
        }
        let mut c = vec![k("[")];
        c.extend(self.list(1, 2, false, |g| {
            let mut c = vec![K(g.s.pick(&["abstract", "concrete", "deactivated", "global"]).to_string())];
            if g.s.chance(1, 3) {
                let v = g.s.pick(&["true", "false"]).to_string();
                let v = g.nn("LITERAL", vec![K(v)]);
                c.extend([k("="), v]);
            }
            g.nn("SPEC_PREDICATE_PROPERTY", c)
        }));
        c.push(k("]"));
        Some(self.nn("SPEC_PREDICATE_PROPERTY_LIST", c))
    }
    /// an expression directly after a specification keyword
    fn spec_expr(&mut self, d: usize) -> T {
        if d > 0 && self.s.chance(1, 4) {
            return self.quant(d);
        }
        let e = self.expr(d);
        let open = ["break", "return", "abort"].contains(&e.t.last_tok().as_str());
        if e.t.first_tok() == "[" || open { self.paren(e.t) } else { e.t }
    }
    fn quant(&mut self, d: usize) -> T {
        let (kind, kw) = *self.s.pick(&[("FORALL_EXPR", "forall"), ("EXISTS_EXPR", "exists")]);
        let b = self.list(1, 2, false, |g| {
            let p = g.ident_pat();
            let c = if g.s.flip() {
                let t = g.segments(false, 1, 2);
                vec![p, k(":"), g.nn("PATH_TYPE", vec![t])]
            } else {
                let e = g.postfix_base(0);
                vec![p, k("in"), e]
            };
            g.nn("QUANT_BINDING", c)
        });
        let l = self.nn("QUANT_BINDING_LIST", b);
        let mut c = vec![k(kw), l];
        if self.s.chance(1, 4) {
            let w = self.postfix_base(1);
            c.push(self.nn("WHERE_EXPR", vec![k("where"), w]));
        }
        c.push(k(":"));
        c.push(self.full(d - 1));
        self.nn(kind, c)
    }
    fn spec_stmt(&mut self, d: usize) -> T {
        match self.s.weighted(&[3, 6, 3, 2, 2, 2, 1, 1]) {
            0 => self.let_stmt(d),
            1 => {
                let kw = self.s.pick(&["assume", "assert", "requires", "ensures", "decreases", "modifies"]).to_string();
                let mut c = vec![K(kw)];
                c.extend(self.props());
                c.push(self.spec_expr(d));
                c.push(k(";"));
                self.nn("SPEC_PREDICATE_STMT", c)
            }
            2 => {
                let mut c = vec![k("aborts_if")];
                c.extend(self.props());
                let mut x = self.spec_expr(d);
                let with = self.s.chance(1, 3);
                if with && !matches!(&x, N("PATH_EXPR" | "LITERAL" | "CALL_EXPR" | "PAREN_EXPR" | "DOT_EXPR" | "INDEX_EXPR", _)) {
                    // `break with`, `x as |u8| with`: the word would be taken by the expression
                    x = self.paren(x);
                }
                c.push(x);
                if with {
                    let e = self.postfix_base(0);
                    c.push(self.nn("ABORTS_IF_WITH", vec![k("with"), e]));
                }
                c.push(k(";"));
                self.nn("ABORTS_IF_STMT", c)
            }
            3 => {
                let mut c = vec![k("pragma")];
                c.extend(self.list(1, 2, false, |g| {
                    let mut c = vec![K(g.s.pick(&["verify", "aborts_if_is_strict", "opaque"]).to_string())];
                    if g.s.flip() {
                        let l = g.literal();
                        c.extend([k("="), l]);
                    }
                    g.nn("PRAGMA_ATTR_ITEM", c)
                }));
                c.push(k(";"));
                self.nn("PRAGMA_STMT", c)
            }
            4 => {
                let mut c = vec![k("include")];
                let lit = |g: &mut Self, d: usize| {
                    let p = g.segments(false, 1, 3);
                    let mut c = vec![p];
                    if g.s.flip() {
                        let mut l = vec![k("{")];
                        l.extend(g.list(0, 2, true, |g| {
                            let c = vec![g.name_ref(), k(":"), g.full(d)];
                            g.nn("SCHEMA_LIT_FIELD", c)
                        }));
                        l.push(k("}"));
                        c.push(g.nn("SCHEMA_LIT_FIELD_LIST", l));
                    }
                    g.nn("SCHEMA_LIT", c)
                };
                let l = lit(self, 0);
                c.push(self.nn("SCHEMA_INCLUDE_EXPR", vec![l]));
                c.push(k(";"));
                self.nn("INCLUDE_SCHEMA", c)
            }
            5 => {
                let mut c = vec![k("invariant")];
                if self.s.chance(1, 4) {
                    c.push(k("update"));
                }
                c.extend(self.props());
                c.push(self.spec_expr(d));
                c.push(k(";"));
                self.nn("INVARIANT_STMT", c)
            }
            6 => {
                let mut c = vec![k("axiom")];
                c.extend(self.props());
                c.push(self.spec_expr(d));
                c.push(k(";"));
                self.nn("AXIOM_STMT", c)
            }
            _ => {
                let a = self.postfix_base(1);
                let b = self.postfix_base(0);
                self.nn("EMITS_STMT", vec![k("emits"), a, k("to"), b, k(";")])
            }
        }
    }
    fn use_stmt(&mut self) -> T {
        let sp = self.use_speck(2, true);
        self.nn("USE_STMT", vec![k("use"), sp, k(";")])
    }
    fn use_speck(&mut self, d: usize, top: bool) -> T {
        let len = if top { self.s.range(2, 3) } else { self.s.range(1, 2) };
        let mut p: Option<T> = None;
        for i in 0..len {
            let seg = if i == 0 && top && self.s.flip() {
                let v = self.num();
                let a = self.nn("VALUE_ADDRESS", vec![K(v)]);
                let a = self.nn("PATH_ADDRESS", vec![a]);
                self.nn("PATH_SEGMENT", vec![a])
            } else {
                let r = self.name_ref();
                self.nn("PATH_SEGMENT", vec![r])
            };
            p = Some(match p {
                None => self.nn("PATH", vec![seg]),
                Some(q) => self.nn("PATH", vec![q, k("::"), seg]),
            });
        }
        let mut c = vec![p.unwrap()];
        match self.s.weighted(&[4, 2, 2]) {
            1 => {
                let x = self.name();
                c.push(self.nn("USE_ALIAS", vec![k("as"), x]));
            }
            2 if d > 0 => {
                let mut l = vec![k("{")];
                l.extend(self.list(1, 3, true, |g| g.use_speck(d - 1, false)));
                l.push(k("}"));
                let g = self.nn("USE_GROUP", l);
                c.extend([k("::"), g]);
            }
            _ => {}
        }
        self.nn("USE_SPECK", c)
    }

    // ---------------------------------------------------------------- items
    fn attrs(&mut self) -> Vec<T> {
        let mut v = vec![];
        while self.s.chance(1, 6) && v.len() < 3 {
            let mut c = vec![k("#"), k("[")];
            c.extend(self.list(1, 2, false, |g| g.attr_item(1)));
            c.push(k("]"));
            v.push(self.nn("ATTR", c));
        }
        v
    }
    fn attr_item(&mut self, d: usize) -> T {
        let p = if self.s.chance(1, 4) { self.segments(false, 0, 3) } else { self.segments(false, 0, 1) };
        let mut c = vec![p];
        match self.s.weighted(&[4, 2, 2]) {
            1 => {
                let e = if self.s.flip() { self.literal() } else { self.path_expr(0) };
                c.push(self.nn("INITIALIZER", vec![k("="), e]));
            }
            2 if d > 0 => {
                let mut l = vec![k("(")];
                l.extend(self.list(1, 2, false, |g| g.attr_item(d - 1)));
                l.push(k(")"));
                c.push(self.nn("ATTR_ITEM_LIST", l));
            }
            _ => {}
        }
        self.nn("ATTR_ITEM", c)
    }
    fn param_list(&mut self) -> T {
        let mut c = vec![k("(")];
        c.extend(self.list(0, 3, true, |g| {
            let p = if g.s.chance(1, 6) { g.nn("WILDCARD_PAT", vec![k("_")]) } else { g.ident_pat() };
            let t = g.ty(2);
            g.nn("PARAM", vec![p, k(":"), t])
        }));
        c.push(k(")"));
        self.nn("PARAM_LIST", c)
    }
    fn vis(&mut self) -> Option<T> {
        let c = match self.s.below(7) {
            0 => vec![k("public")],
            1 => vec![k("public"), k("("), k("friend"), k(")")],
            2 => vec![k("public"), k("("), k("package"), k(")")],
            3 => vec![k("friend")],
            4 => vec![k("package")],
            _ => return None,
        };
        Some(self.nn("VISIBILITY_MODIFIER", c))
    }
    pub fn fun(&mut self, d: usize) -> T {
        let mut c = self.attrs();
        c.extend(self.vis());
        if self.s.chance(1, 5) {
            c.push(k("entry"));
        }
        if self.s.chance(1, 6) {
            c.push(k("inline"));
        }
        let native = self.s.chance(1, 8);
        if native {
            c.push(k("native"));
        }
        c.push(k("fun"));
        c.push(self.name());
        c.extend(self.opt_type_params());
        c.push(self.param_list());
        if self.s.flip() {
            let t = self.ty(2);
            c.push(self.nn("RET_TYPE", vec![k(":"), t]));
        }
        if self.s.chance(1, 6) {
            let mut a = vec![k("acquires")];
            a.extend(self.list(1, 2, false, |g| {
                let p = g.segments(false, 1, 3);
                g.nn("PATH_TYPE", vec![p])
            }));
            c.push(self.nn("ACQUIRES", a));
        }
        if native {
            c.push(k(";"));
        } else {
            c.push(self.block(d));
        }
        self.nn("FUN", c)
    }
    fn abilities(&mut self) -> T {
        let mut c = vec![k("has")];
        c.extend(self.list(1, 3, false, |g| g.ability()));
        self.nn("ABILITY_LIST", c)
    }
    fn named_fields(&mut self) -> T {
        let mut c = vec![k("{")];
        c.extend(self.list(0, 3, true, |g| {
            let x = g.name();
            let t = g.ty(2);
            g.nn("NAMED_FIELD", vec![x, k(":"), t])
        }));
        c.push(k("}"));
        self.nn("NAMED_FIELD_LIST", c)
    }
    fn tuple_fields(&mut self) -> T {
        let mut c = vec![k("(")];
        c.extend(self.list(1, 3, true, |g| {
            let t = g.ty(2);
            g.nn("TUPLE_FIELD", vec![t])
        }));
        c.push(k(")"));
        self.nn("TUPLE_FIELD_LIST", c)
    }
    fn struct_(&mut self) -> T {
        let mut c = self.attrs();
        if self.s.chance(1, 4) {
            c.extend(self.vis());
        }
        c.push(k("struct"));
        c.push(self.name());
        c.extend(self.opt_type_params());
        match self.s.below(4) {
            0 => {
                c.push(self.tuple_fields());
                if self.s.flip() {
                    c.push(self.abilities());
                }
                c.push(k(";"));
            }
            1 => {
                c.push(self.named_fields());
                c.push(self.abilities());
                c.push(k(";"));
            }
            _ => {
                if self.s.flip() {
                    c.push(self.abilities());
                }
                c.push(self.named_fields());
            }
        }
        self.nn("STRUCT", c)
    }
    fn enum_(&mut self) -> T {
        let mut c = self.attrs();
        if self.s.chance(1, 4) {
            c.extend(self.vis());
        }
        c.push(k("enum"));
        c.push(self.name());
        c.extend(self.opt_type_params());
        let pre = self.s.flip();
        if pre {
            c.push(self.abilities());
        }
        let mut l = vec![k("{")];
        let m = self.s.range(0, 3);
        for i in 0..m {
            let mut v = self.attrs();
            v.push(self.name());
            let mut curly = false;
            match self.s.below(3) {
                0 => {
                    curly = true;
                    v.push(self.named_fields())
                }
                1 => v.push(self.tuple_fields()),
                _ => {}
            }
            l.push(self.nn("VARIANT", v));
            if (i + 1 < m && !(curly && self.s.flip())) || (i + 1 == m && self.s.flip()) {
                l.push(k(","));
            }
        }
        l.push(k("}"));
        c.push(self.nn("VARIANT_LIST", l));
        if !pre && self.s.chance(1, 3) {
            c.push(self.abilities());
            c.push(k(";"));
        }
        self.nn("ENUM", c)
    }
    fn const_(&mut self) -> T {
        let mut c = self.attrs();
        if self.s.chance(1, 5) {
            c.extend(self.vis());
        }
        c.push(k("const"));
        c.push(self.name());
        c.push(k(":"));
        c.push(self.ty(0));
        let e = self.full(2);
        c.push(self.nn("INITIALIZER", vec![k("="), e]));
        c.push(k(";"));
        self.nn("CONST", c)
    }
    fn item_spec(&mut self, d: usize) -> T {
        let mut c = vec![k("spec")];
        self.spec = true;
        match self.s.below(5) {
            0 => {
                c.push(k("module"));
                c.push(self.block(d));
                self.spec = false;
                self.nn("ITEM_SPEC", c)
            }
            1 => {
                c.push(k("schema"));
                c.push(self.name());
                c.extend(self.opt_type_params());
                let mut b = vec![k("{")];
                for _ in 0..self.s.range(0, 2) {
                    let p = self.ident_pat();
                    let t = self.ty(1);
                    b.push(self.nn("SCHEMA_FIELD", vec![p, k(":"), t, k(";")]));
                }
                for _ in 0..self.s.range(0, 2) {
                    b.push(self.spec_stmt(d));
                }
                b.push(k("}"));
                c.push(self.nn("BLOCK_EXPR", b));
                self.spec = false;
                self.nn("SCHEMA", c)
            }
            2 => {
                c.push(k("fun"));
                c.push(self.name());
                c.extend(self.opt_type_params());
                c.push(self.param_list());
                let t = self.ty(1);
                c.push(self.nn("RET_TYPE", vec![k(":"), t]));
                if self.s.chance(1, 3) {
                    c.push(k(";"));
                } else {
                    let e = self.full(d);
                    let e = if starts_block(&e) || ["-", "|"].contains(&e.first_tok().as_str()) || !e.first_tok().starts_with(|c: char| c.is_ascii_digit() || c == '(') {
                        self.paren(e)
                    } else {
                        e
                    };
                    c.push(self.nn("BLOCK_EXPR", vec![k("{"), e, k("}")]));
                }
                self.spec = false;
                self.nn("SPEC_FUN", c)
            }
            _ => {
                let r = self.name_ref();
                c.push(self.nn("ITEM_SPEC_REF", vec![r]));
                c.push(self.block(d));
                self.spec = false;
                self.nn("ITEM_SPEC", c)
            }
        }
    }
    fn item(&mut self, d: usize) -> T {
        match self.s.weighted(&[6, 3, 2, 2, 2, 1, 3]) {
            0 => self.fun(d),
            1 => self.struct_(),
            2 => self.enum_(),
            3 => self.const_(),
            4 => {
                let mut a = self.attrs();
                let sp = self.use_speck(2, true);
                a.extend([k("use"), sp, k(";")]);
                self.nn("USE_STMT", a)
            }
            5 => {
                let x = self.num();
                let x = self.nn("VALUE_ADDRESS", vec![K(x)]);
                let x = self.nn("PATH_ADDRESS", vec![x]);
                let x = self.nn("PATH_SEGMENT", vec![x]);
                let mut p = self.nn("PATH", vec![x]);
                if self.s.flip() {
                    let x = self.name_ref();
                    let x = self.nn("PATH_SEGMENT", vec![x]);
                    p = self.nn("PATH", vec![x]);
                }
                if self.s.flip() || matches!(&p, N(_, c) if matches!(&c[0], N(_, c) if matches!(&c[0], N("PATH_ADDRESS", _)))) {
                    let y = self.name_ref();
                    let y = self.nn("PATH_SEGMENT", vec![y]);
                    p = self.nn("PATH", vec![p, k("::"), y]);
                }
                self.nn("FRIEND", vec![k("friend"), p, k(";")])
            }
            _ => self.item_spec(d.min(2)),
        }
    }
    fn module(&mut self, d: usize, in_addr: bool) -> T {
        let mut c = self.attrs();
        c.push(k("module"));
        if !in_addr || self.s.chance(1, 4) {
            let a = if self.s.flip() {
                let v = self.num();
                self.nn("VALUE_ADDRESS", vec![K(v)])
            } else {
                let v = self.plain();
                self.nn("NAMED_ADDRESS", vec![K(v)])
            };
            c.extend([a, k("::")]);
        }
        c.push(self.name());
        c.push(k("{"));
        for _ in 0..self.s.range(0, 3) {
            c.push(self.item(d));
        }
        c.push(k("}"));
        self.nn("MODULE", c)
    }
    pub fn file(&mut self, d: usize) -> T {
        let mut c = vec![];
        for _ in 0..self.s.range(1, 2) {
            let x = match self.s.weighted(&[8, 1, 1, 1]) {
                0 => self.module(d, false),
                1 => {
                    let v = self.plain();
                    let a = self.nn("NAMED_ADDRESS", vec![K(v)]);
                    let mut c = vec![k("address"), a, k("{")];
                    for _ in 0..self.s.range(0, 2) {
                        c.push(self.module(d, true));
                    }
                    c.push(k("}"));
                    self.nn("ADDRESS_DEF", c)
                }
                2 => {
                    let mut c = self.attrs();
                    c.extend([k("script"), k("{")]);
                    c.push(self.fun(d));
                    c.push(k("}"));
                    self.nn("SCRIPT", c)
                }
                _ => {
                    let p = self.segments(false, 0, 2);
                    let mut c = vec![k("spec"), p, k("{")];
                    for _ in 0..self.s.range(0, 2) {
                        c.push(self.item_spec(d.min(2)));
                    }
                    c.push(k("}"));
                    self.nn("MODULE_SPEC", c)
                }
            };
            c.push(x);
        }
        self.nn("SOURCE_FILE", c)
    }
}

impl E {
    fn greedy_tail(self) -> E {
        E { block: self.block, lvl: self.lvl, t: self.t }
    }
}

/// Is there a `<` operator that could also open a list of type arguments? (`a < b, c > d`)
pub fn ambiguous_less(t: &T) -> bool {
    let mut toks = vec![];
    t.tokens(&mut toks);
    (1..toks.len()).any(|i| {
        if toks[i] != ("<", 2) || !toks[i - 1].0.starts_with(wordy) {
            return false;
        }
        for (x, _) in &toks[i + 1..] {
            if x.starts_with('>') || x.starts_with('<') {
                return true;
            }
            if !(x.chars().all(wordy) || ["::", ",", "&", "(", ")", "|", "@"].contains(x)) {
                return false;
            }
        }
        false
    })
}

fn ends_in_type(t: &T) -> bool {
    match t {
        N("CAST_EXPR" | "IS_EXPR", _) => true,
        N("PAREN_EXPR", _) => false,
        N(_, c) => c.last().is_some_and(ends_in_type),
        _ => false,
    }
}

/// contains an unparenthesised `<` comparison on its right edge
fn has_less(t: &T) -> bool {
    match t {
        N("BIN_EXPR", c) => c.iter().any(|x| matches!(x, S(o) | K(o) if o == "<")) || c.iter().any(has_less),
        _ => false,
    }
}

fn starts_block(t: &T) -> bool {
    match t {
        N("IF_EXPR" | "BLOCK_EXPR" | "MATCH_EXPR" | "WHILE_EXPR" | "LOOP_EXPR" | "FOR_EXPR", _) => true,
        N(_, c) => c.first().is_some_and(starts_block),
        _ => false,
    }
}

/// ends with an `if` that has no `else`
fn ends_in_open_if(t: &T) -> bool {
    match t {
        N("IF_EXPR", c) => c.len() == 3 || c.last().is_some_and(ends_in_open_if),
        N(_, c) => c.last().is_some_and(ends_in_open_if),
        _ => false,
    }
}
