//! Generator of multi-package Move programs together with everything an IDE should know about them.
//!
//! A program is emitted as a stream of pieces (tokens). Every name in it carries what it denotes: the generator picks
//! the declaration first and then writes a reference to it in a form that, by the scoping rules modelled here, means
//! that declaration. Expressions are emitted for a wanted type. Nothing in this crate depends on the code under test.

pub mod body;
pub mod items;
pub mod layout;
pub mod spec;
pub mod text;

use common::Src;

pub type SymId = usize;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool,
    Int(u8),
    Address,
    Signer,
    Unit,
    Num,
    Vec(Box<Ty>),
    Ref(bool, Box<Ty>),
    Adt(SymId, Vec<Ty>),
    Param(SymId),
    Tuple(Vec<Ty>),
    Fun(Vec<Ty>, Box<Ty>),
}

pub const INTS: [&str; 12] =
    ["u64", "u8", "u128", "u256", "u16", "u32", "i64", "i8", "i128", "i256", "i16", "i32"];

impl Ty {
    pub fn vec(t: Ty) -> Ty {
        Ty::Vec(Box::new(t))
    }
    pub fn rf(m: bool, t: Ty) -> Ty {
        Ty::Ref(m, Box::new(t))
    }
    pub fn is_int(&self) -> bool {
        matches!(self, Ty::Int(_))
    }
    pub fn strip(&self) -> &Ty {
        match self {
            Ty::Ref(_, t) => t,
            t => t,
        }
    }
    pub fn subst(&self, map: &[(SymId, Ty)]) -> Ty {
        match self {
            Ty::Param(p) => map.iter().find(|(q, _)| q == p).map(|(_, t)| t.clone()).unwrap_or(self.clone()),
            Ty::Vec(t) => Ty::vec(t.subst(map)),
            Ty::Ref(m, t) => Ty::rf(*m, t.subst(map)),
            Ty::Adt(s, a) => Ty::Adt(*s, a.iter().map(|t| t.subst(map)).collect()),
            Ty::Tuple(a) => Ty::Tuple(a.iter().map(|t| t.subst(map)).collect()),
            Ty::Fun(a, r) => Ty::Fun(a.iter().map(|t| t.subst(map)).collect(), Box::new(r.subst(map))),
            t => t.clone(),
        }
    }
    pub fn mentions(&self, p: SymId) -> bool {
        match self {
            Ty::Param(q) => *q == p,
            Ty::Vec(t) | Ty::Ref(_, t) => t.mentions(p),
            Ty::Adt(_, a) | Ty::Tuple(a) => a.iter().any(|t| t.mentions(p)),
            Ty::Fun(a, r) => a.iter().any(|t| t.mentions(p)) || r.mentions(p),
            _ => false,
        }
    }
    /// One-way match of a declared type that mentions `vars` against a concrete type.
    pub fn match_to(&self, t: &Ty, vars: &[SymId], map: &mut Vec<(SymId, Ty)>) -> bool {
        match (self, t) {
            (Ty::Param(p), t) if vars.contains(p) => {
                if let Some((_, b)) = map.iter().find(|(q, _)| q == p) {
                    return b == t;
                }
                if !t.can_be_arg() {
                    return false;
                }
                map.push((*p, t.clone()));
                true
            }
            (Ty::Vec(a), Ty::Vec(b)) => a.match_to(b, vars, map),
            (Ty::Ref(m, a), Ty::Ref(n, b)) => m == n && a.match_to(b, vars, map),
            (Ty::Adt(s, a), Ty::Adt(r, b)) => s == r && a.iter().zip(b).all(|(a, b)| a.match_to(b, vars, map)),
            (Ty::Tuple(a), Ty::Tuple(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.match_to(b, vars, map))
            }
            (a, b) => a == b,
        }
    }
    /// May it instantiate a type parameter?
    pub fn can_be_arg(&self) -> bool {
        !matches!(self, Ty::Ref(..) | Ty::Tuple(_) | Ty::Unit | Ty::Fun(..) | Ty::Signer)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Module,
    Fun,
    Struct,
    Enum,
    Variant,
    Field,
    Const,
    Param,
    Local,
    TypeParam,
    Label,
    /// `use ...` binding; `target` is what it imports
    Import,
    SpecFun,
    Schema,
    SchemaField,
    SpecLocal,
    GlobalVar,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Vis {
    Private,
    Public,
    Friend,
    Package,
}

#[derive(Clone, Debug)]
pub struct Sym {
    pub kind: Kind,
    pub name: String,
    pub parent: Option<SymId>,
    pub module: Option<SymId>,
    pub pkg: usize,
    pub ty: Ty,
    pub tparams: Vec<SymId>,
    pub params: Vec<SymId>,
    pub ret: Ty,
    pub fields: Vec<SymId>,
    pub variants: Vec<SymId>,
    /// tuple struct / tuple variant
    pub tuple: bool,
    pub unit_like: bool,
    pub vis: Vis,
    pub test_only: bool,
    pub is_test: bool,
    pub native: bool,
    pub inline: bool,
    pub entry: bool,
    pub key: bool,
    pub store: bool,
    pub method: bool,
    pub phantom: bool,
    pub builtin: bool,
    /// address index (modules)
    pub addr: usize,
    pub friends: Vec<SymId>,
    pub target: Option<SymId>,
    pub aliased: bool,
    /// the local is declared by a `let` (rather than pattern in match arm, lambda, for)
    pub role: LocalRole,
    pub def: Option<(usize, usize)>,
    pub doc: Option<String>,
    pub maker: Option<SymId>,
    /// piece range of the whole declaration, where recorded
    pub extent: Option<(usize, usize, usize)>,
    /// piece index of the closing brace of the scope in which a local lives
    pub scope_end: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LocalRole {
    None,
    Let,
    LetShorthand,
    MatchArm,
    MatchShorthand,
    Lambda,
    For,
    SpecQuant,
}

#[derive(Clone, Debug)]
pub struct Occ {
    pub sym: SymId,
    pub def: bool,
    /// second meaning of a shorthand (`S { x }`: the field and the local)
    pub also: Option<SymId>,
    pub via: Option<SymId>,
    pub role: Role,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Role {
    Def,
    /// path segment in an expression
    Value,
    Call,
    Type,
    /// qualifier of a longer path
    Qualifier,
    UseSpeck,
    Friend,
    FieldAccess,
    LitField,
    LitShorthand,
    PatField,
    PatShorthand,
    Method,
    Ctor,
    PatPath,
    Label,
    Acquires,
    SpecTarget,
    Schema,
    NamedArg,
}

#[derive(Clone, Debug)]
pub struct Piece {
    pub text: String,
    /// written without a space before it in the natural layout
    pub tight: bool,
    pub occ: Option<Occ>,
}

#[derive(Clone, Debug, Default)]
pub struct FileStream {
    pub pkg: usize,
    pub path: String,
    pub pieces: Vec<Piece>,
}

#[derive(Clone, Debug)]
pub struct Pkg {
    pub name: String,
    pub deps: Vec<usize>,
    pub lib: bool,
    pub addrs: Vec<(String, String)>,
}

/// A span of pieces `from..to` in `file` that is an expression of type `ty`.
#[derive(Clone, Debug)]
pub struct Span {
    pub file: usize,
    pub from: usize,
    pub to: usize,
    pub ty: Ty,
    pub what: &'static str,
    /// the type is determined by the expression itself
    pub synth: bool,
}

#[derive(Clone, Debug)]
pub enum SiteKind {
    /// an expression in a position that requires the type
    Typed(Ty, &'static str),
    /// argument list of a call: pieces of the arguments (from,to); the span is `(` .. `)`
    Args { callee: SymId, args: Vec<(usize, usize)>, method: bool, inst: Vec<(SymId, Ty)> },
    /// fields of a struct literal: (field, from, to) including no comma; the span is the path
    Lit { adt: SymId, fields: Vec<(SymId, usize, usize)> },
    /// type parameter instantiated by `T`: explicit type argument span, requires the abilities
    TypeArg { of: SymId, index: usize },
    /// an operand of an arithmetic operator
    Operand(&'static str),
}

#[derive(Clone, Debug)]
pub struct Site {
    pub file: usize,
    pub from: usize,
    pub to: usize,
    pub kind: SiteKind,
    pub module: SymId,
}

#[derive(Clone, Debug, Default)]
pub struct World {
    pub syms: Vec<Sym>,
    pub pkgs: Vec<Pkg>,
    pub files: Vec<FileStream>,
    pub spans: Vec<Span>,
    pub sites: Vec<Site>,
    pub modules: Vec<SymId>,
    /// calls for signature help and parameter hints: see SiteKind::Args
    pub notes: Vec<String>,
    /// an expression whose type should have come from itself had to be written as `abort`: types are not reliable
    pub poisoned: bool,
}

/// name, value, other spellings of the value
pub const ADDRS: [(&str, &str); 4] = [("std", "0x1"), ("alice", "0xa11ce"), ("bob", "0xB0B"), ("under", "_")];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ns {
    Value,
    Fun,
    Type,
    Mod,
    Label,
    Schema,
}

#[derive(Clone, Debug)]
pub struct Bind {
    pub ns: Ns,
    pub name: String,
    pub sym: SymId,
    pub via: Option<SymId>,
}

#[derive(Clone, Debug, Default)]
pub struct Frame {
    pub binds: Vec<Bind>,
    pub lambda: bool,
}

/// What to generate.
#[derive(Clone, Debug)]
pub struct Opts {
    pub pkgs: usize,
    pub modules: usize,
    pub stmts: usize,
    pub depth: u32,
    pub specs: bool,
    pub tests: bool,
    pub std: bool,
    pub scripts: bool,
    pub docs: bool,
    pub never: bool,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts { pkgs: 2, modules: 3, stmts: 4, depth: 3, specs: true, tests: true, std: true, scripts: true, docs: true, never: true }
    }
}

pub struct G<'a> {
    pub s: &'a mut Src,
    pub o: Opts,
    pub w: World,
    pub frames: Vec<Frame>,
    pub file: usize,
    pub module: SymId,
    pub fun: Option<SymId>,
    pub ret: Ty,
    pub labels: Vec<Option<SymId>>,
    pub in_test: bool,
    pub msl: bool,
    pub fuel: i32,
    pub b: Builtins,
}

#[derive(Clone, Debug, Default)]
pub struct Builtins {
    pub move_from: SymId,
    pub move_to: SymId,
    pub borrow_global: SymId,
    pub borrow_global_mut: SymId,
    pub exists: SymId,
    pub freeze: SymId,
    pub max_u8: SymId,
    pub max_u64: SymId,
    pub vector_module: Option<SymId>,
}

pub fn world(s: &mut Src, o: Opts) -> World {
    let mut g = G {
        s,
        o,
        w: World::default(),
        frames: vec![],
        file: 0,
        module: 0,
        fun: None,
        ret: Ty::Unit,
        labels: vec![],
        in_test: false,
        msl: false,
        fuel: 0,
        b: Builtins::default(),
    };
    g.run();
    g.w
}

impl World {
    pub fn sym(&self, id: SymId) -> &Sym {
        &self.syms[id]
    }
    pub fn path_of(&self, id: SymId) -> String {
        let s = &self.syms[id];
        match s.parent {
            Some(p) if p != id => format!("{}::{}", self.path_of(p), s.name),
            _ => s.name.clone(),
        }
    }
    pub fn item_kind(&self, id: SymId) -> bool {
        matches!(
            self.syms[id].kind,
            Kind::Fun | Kind::Struct | Kind::Enum | Kind::Const | Kind::SpecFun | Kind::Schema
        )
    }
}
