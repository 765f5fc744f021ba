use crate::items::LOCALS;
use crate::*;

#[derive(Clone, Debug)]
enum Opt {
    Var(SymId),
    Const(SymId),
    Lit,
    Field(SymId, SymId),
    Index(SymId),
    Deref(SymId),
    DerefBorrow,
    Call(SymId, Vec<(SymId, Ty)>),
    Method(SymId, SymId, Vec<(SymId, Ty)>),
    StructLit,
    VariantLit(SymId),
    If,
    Block,
    Match(SymId),
    Arith,
    Bit,
    Shift,
    Cmp,
    Eq,
    Logic,
    Not,
    Cast,
    Exists(SymId),
    Borrow,
    BorrowVar(SymId),
    BorrowField(SymId, SymId),
    BorrowIndex(SymId),
    BorrowGlobal(SymId),
    ResIndexField(SymId, SymId),
    Copy(SymId),
    Tuple,
    Lambda,
    LambdaCall(SymId),
    Never,
    Paren,
    Is(SymId),
    VecLit,
    Loop,
    UnitCall,
}

impl<'a> G<'a> {
    // ---------------------------------------------------------------- scopes
    fn usable(&self, b: &Bind) -> bool {
        match b.via {
            Some(i) => !self.sy(i).test_only || self.in_test,
            None => !self.sy(b.sym).test_only || self.in_test,
        }
    }
    pub fn lookup(&self, ns: Ns, name: &str) -> Option<&Bind> {
        for fr in self.frames.iter().rev() {
            if let Some(b) = fr.binds.iter().rev().find(|b| b.ns == ns && b.name == name && self.usable(b)) {
                return Some(b);
            }
        }
        None
    }
    /// names that mean `target` here, with the import they come through
    pub fn bare_names(&self, ns: Ns, target: SymId) -> Vec<(String, Option<SymId>)> {
        let mut v = vec![];
        for fr in &self.frames {
            for b in &fr.binds {
                if b.ns == ns && b.sym == target && self.usable(b) {
                    let l = self.lookup(ns, &b.name);
                    if l.is_some_and(|l| l.sym == target && l.via == b.via) {
                        v.push((b.name.clone(), b.via));
                    }
                }
            }
        }
        v
    }
    /// local variables (and parameters) whose names mean them here
    pub fn locals(&self) -> Vec<SymId> {
        let mut v = vec![];
        for fr in &self.frames {
            for b in &fr.binds {
                if b.ns == Ns::Value
                    && matches!(self.sy(b.sym).kind, Kind::Local | Kind::Param)
                    && self.lookup(Ns::Value, &b.name).is_some_and(|l| l.sym == b.sym)
                {
                    v.push(b.sym);
                }
            }
        }
        v
    }
    fn fun_named(&self, name: &str) -> bool {
        // also functions that are not visible here (tests): the callee prefers functions
        self.frames.iter().any(|f| f.binds.iter().any(|b| b.ns == Ns::Fun && b.name == name))
    }
    pub fn bind(&mut self, ns: Ns, sym: SymId) {
        let name = self.sy(sym).name.clone();
        self.frames.last_mut().unwrap().binds.push(Bind { ns, name, sym, via: None });
    }
    pub fn new_local(&mut self, ty: &Ty, role: LocalRole) -> SymId {
        let name = (*self.s.pick(&LOCALS)).to_string();
        self.new_local_named(&name, ty, role)
    }
    pub fn new_local_named(&mut self, name: &str, ty: &Ty, role: LocalRole) -> SymId {
        let host = self.fun.or(Some(self.module));
        let l = self.new_sym(Kind::Local, name, host);
        let s = self.sym(l);
        s.ty = ty.clone();
        s.role = role;
        l
    }
    /// names for a pattern that binds several variables at once
    fn distinct_locals(&mut self, n: usize) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for _ in 0..n {
            let used = v.clone();
            let x = self.fresh(&LOCALS, &|n| used.iter().any(|u| u == n));
            v.push(x);
        }
        v
    }

    // ---------------------------------------------------------------- paths
    pub fn module_path(&mut self, m: SymId, role: Role) {
        let a = self.sy(m).addr;
        self.addr(a);
        self.t("~::");
        let p = self.occ(m, role);
        self.tighten(p);
    }
    pub fn can_name(&self, ns: Ns, target: SymId) -> bool {
        if self.sy(target).builtin {
            return !self.bare_names(ns, target).is_empty();
        }
        self.visible(target, self.module)
    }
    /// Writes a path that means the module item `target`.
    pub fn path(&mut self, target: SymId, ns: Ns, role: Role) {
        let bare = self.bare_names(ns, target);
        let Some(m) = self.sy(target).module else {
            let (n, via) = bare[0].clone();
            self.occ_as(target, &n, role, via);
            return;
        };
        if self.sy(target).builtin || matches!(self.sy(target).kind, Kind::TypeParam) {
            let n = self.sy(target).name.clone();
            self.occ_as(target, &n, role, None);
            return;
        }
        let quals = self.bare_names(Ns::Mod, m);
        let own = m == self.module;
        // 0 bare, 1 through a module name, 2 Self::, 3 full
        let w = [
            if bare.is_empty() { 0 } else { 12 },
            if quals.is_empty() { 0 } else { 6 },
            if own { 1 } else { 0 },
            1,
        ];
        match self.s.weighted(&w) {
            0 => {
                let (n, via) = self.s.pick(&bare).clone();
                self.occ_as(target, &n, role, via);
                return;
            }
            1 => {
                let (n, via) = self.s.pick(&quals).clone();
                self.occ_as(m, &n, Role::Qualifier, via);
            }
            2 => {
                self.occ_as(m, "Self", Role::Qualifier, None);
            }
            _ => {
                self.module_path(m, Role::Qualifier);
            }
        }
        self.t("~::");
        let p = self.occ(target, role);
        self.tighten(p);
    }

    // ---------------------------------------------------------------- types
    pub fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Bool => self.t("bool"),
            Ty::Int(k) => self.t(INTS[*k as usize]),
            Ty::Address => self.t("address"),
            Ty::Signer => self.t("signer"),
            Ty::Num => self.t("num"),
            Ty::Unit => self.t("( ~)"),
            Ty::Vec(t) => {
                self.t("vector ~<");
                self.ty_tight(t);
                self.t("~>");
            }
            Ty::Ref(m, t) => {
                self.t("&");
                if *m {
                    self.t("~mut");
                    self.ty(t);
                } else {
                    self.ty_tight(t);
                }
            }
            Ty::Adt(a, args) => {
                self.path(*a, Ns::Type, Role::Type);
                self.type_args(args);
            }
            Ty::Param(p) => {
                self.occ(*p, Role::Type);
            }
            Ty::Tuple(ts) => {
                self.t("(");
                for (k, t) in ts.iter().enumerate() {
                    if k > 0 {
                        self.t("~,");
                    }
                    if k == 0 { self.ty_tight(t) } else { self.ty(t) }
                }
                self.t("~)");
            }
            Ty::Fun(args, r) => {
                if args.is_empty() {
                    self.t("| |");
                } else {
                    self.t("|");
                    for (k, t) in args.iter().enumerate() {
                        if k > 0 {
                            self.t("~,");
                        }
                        if k == 0 { self.ty_tight(t) } else { self.ty(t) }
                    }
                    self.t("~|");
                }
                if **r != Ty::Unit {
                    self.ty(r);
                }
            }
        }
    }
    pub fn ty_tight(&mut self, t: &Ty) {
        let p = self.here();
        self.ty(t);
        self.tighten(p);
    }
    pub fn type_args(&mut self, args: &[Ty]) {
        if args.is_empty() {
            return;
        }
        self.t("~<");
        for (k, t) in args.iter().enumerate() {
            if k > 0 {
                self.t("~,");
            }
            if k == 0 { self.ty_tight(t) } else { self.ty(t) }
        }
        self.t("~>");
    }
    /// is every type in it nameable here (a type parameter must not be shadowed)?
    pub fn nameable(&self, t: &Ty) -> bool {
        match t {
            Ty::Param(p) => self.lookup(Ns::Type, &self.sy(*p).name).is_some_and(|b| b.sym == *p),
            Ty::Vec(t) | Ty::Ref(_, t) => self.nameable(t),
            Ty::Adt(a, args) => self.visible(*a, self.module) && args.iter().all(|t| self.nameable(t)),
            Ty::Tuple(a) => a.iter().all(|t| self.nameable(t)),
            Ty::Fun(a, r) => a.iter().all(|t| self.nameable(t)) && self.nameable(r),
            _ => true,
        }
    }

    // ---------------------------------------------------------------- literals
    pub fn lit(&mut self, t: &Ty, synth: bool) {
        match t {
            Ty::Bool => {
                let b = self.s.flip();
                self.t(if b { "true" } else { "false" })
            }
            Ty::Int(k) => {
                let n = self.s.pick(&["1", "0", "2", "10", "100", "0x2a", "1_0"]).to_string();
                let suffix = synth || self.s.chance(1, 6);
                self.t(&if suffix { format!("{n}{}", INTS[*k as usize]) } else { n });
            }
            Ty::Num => {
                let n = self.s.pick(&["1", "0", "2", "10"]).to_string();
                self.t(&n);
            }
            Ty::Address => {
                let (n, v) = ADDRS[self.s.idx(3)];
                self.t("@");
                let p = self.here();
                let named = self.s.flip();
                self.t(if named { n } else { v });
                self.tighten(p);
            }
            Ty::Vec(e) if **e == Ty::Int(1) => {
                let x = self.s.pick(&["b\"abc\"", "x\"01ff\"", "b\"\"", "b\"a\\n, b\""]).to_string();
                self.t_raw(&x);
            }
            _ => unreachable!("no literal of {t:?}"),
        }
    }
    pub fn t_raw(&mut self, s: &str) {
        self.put(s, false);
    }
    fn has_lit(t: &Ty) -> bool {
        matches!(t, Ty::Bool | Ty::Int(_) | Ty::Address | Ty::Num) || matches!(t, Ty::Vec(e) if **e == Ty::Int(1))
    }

    /// Can a value of this type be written here at all?
    pub fn producible(&self, t: &Ty) -> bool {
        if self.locals().iter().any(|l| self.sy(*l).ty == *t) {
            return true;
        }
        match t {
            Ty::Bool | Ty::Int(_) | Ty::Address | Ty::Unit | Ty::Num => true,
            Ty::Signer => self.locals().iter().any(|l| self.sy(*l).ty == Ty::Signer),
            Ty::Vec(t) => self.nameable(t) && self.producible(t),
            Ty::Ref(_, t) => {
                if **t == Ty::Signer {
                    return self.locals().iter().any(|l| self.sy(*l).ty.strip() == &Ty::Signer);
                }
                self.producible(t)
            }
            Ty::Param(p) => self.locals().iter().any(|l| self.sy(*l).ty == Ty::Param(*p)),
            Ty::Adt(a, args) => {
                let s = self.sy(*a);
                s.maker.is_some_and(|f| self.visible(f, self.module))
                    && args.iter().all(|t| self.nameable(t) && self.producible(t))
                    && {
                        let f = self.sy(s.maker.unwrap());
                        let map: Vec<(SymId, Ty)> = f.tparams.iter().copied().zip(args.iter().cloned()).collect();
                        f.params.clone().iter().all(|p| self.producible(&self.sy(*p).ty.subst(&map)))
                    }
            }
            Ty::Tuple(ts) => ts.iter().all(|t| self.producible(t)),
            Ty::Fun(_, r) => self.producible(r),
        }
    }

    // ---------------------------------------------------------------- expressions
    /// a random type for a value wanted somewhere
    pub fn any_ty(&mut self) -> Ty {
        let locals = self.locals();
        if !locals.is_empty() && self.s.chance(1, 3) {
            let l = *self.s.pick(&locals);
            let t = self.sy(l).ty.strip().clone();
            if t.can_be_arg() && self.producible(&t) && self.nameable(&t) {
                return t;
            }
        }
        let tps: Vec<SymId> = self.fun.map(|f| self.sy(f).tparams.clone()).unwrap_or_default();
        let m = self.module;
        let before = self.w.syms.len();
        let t = self.gen_ty(m, &tps, before, 1);
        if self.producible(&t) && self.nameable(&t) { t } else { Ty::Int(0) }
    }
    pub fn int_ty(&mut self) -> Ty {
        Ty::Int(self.s.weighted(&[8, 4, 2, 1, 1, 1]) as u8)
    }

    fn subst_fields(&self, l: SymId) -> Vec<(SymId, Ty)> {
        // fields reachable by `l.f` here
        let Ty::Adt(a, args) = self.sy(l).ty.strip() else { return vec![] };
        let s = self.sy(*a);
        if s.kind != Kind::Struct || s.module != Some(self.module) && !self.msl || s.tuple {
            return vec![];
        }
        let map: Vec<(SymId, Ty)> = s.tparams.iter().copied().zip(args.iter().cloned()).collect();
        s.fields.iter().map(|f| (*f, self.sy(*f).ty.subst(&map))).collect()
    }

    fn resources(&self) -> Vec<SymId> {
        (0..self.w.syms.len())
            .filter(|i| self.sy(*i).key && self.sy(*i).module == Some(self.module))
            .collect()
    }

    /// functions callable here whose result can be `ty`
    fn callables(&self, ty: &Ty, m: &mut Vec<(SymId, Vec<(SymId, Ty)>)>) {
        for i in 0..self.w.syms.len() {
            let s = self.sy(i);
            if s.kind != Kind::Fun || s.builtin || s.is_test || Some(i) == self.fun {
                continue;
            }
            if !self.visible(i, self.module) {
                continue;
            }
            if self.msl && !s.params.iter().all(|p| !matches!(self.sy(*p).ty, Ty::Fun(..))) {
                continue;
            }
            let mut map = vec![];
            if !s.ret.match_to(ty, &s.tparams, &mut map) {
                continue;
            }
            if map.iter().any(|(_, t)| !self.nameable(t)) {
                continue;
            }
            m.push((i, map));
        }
    }
    fn completed(&mut self, f: SymId, mut map: Vec<(SymId, Ty)>) -> Vec<(SymId, Ty)> {
        for tp in self.sy(f).tparams.clone() {
            if !map.iter().any(|(p, _)| *p == tp) {
                let t = self.any_ty();
                let t = if t.can_be_arg() { t } else { Ty::Int(0) };
                map.push((tp, t));
            }
        }
        map
    }

    fn methods_for(&self, l: SymId, ty: &Ty) -> Vec<(SymId, Vec<(SymId, Ty)>)> {
        let lt = self.sy(l).ty.clone();
        let module = match lt.strip() {
            Ty::Adt(a, _) => self.sy(*a).module,
            Ty::Vec(_) => self.b.vector_module,
            _ => None,
        };
        let Some(module) = module else { return vec![] };
        if !self.pkg_sees(self.sy(self.module).pkg, self.sy(module).pkg) {
            return vec![];
        }
        let mut v = vec![];
        for i in 0..self.w.syms.len() {
            let s = self.sy(i);
            if s.kind != Kind::Fun || s.module != Some(module) || !s.method || !self.visible(i, self.module) || Some(i) == self.fun {
                continue;
            }
            if s.test_only {
                continue;
            }
            let st = &self.sy(s.params[0]).ty;
            let mut map = vec![];
            let ok = match (st, &lt) {
                (Ty::Ref(false, d), Ty::Ref(_, t)) => d.match_to(t, &s.tparams, &mut map),
                (Ty::Ref(true, d), Ty::Ref(true, t)) => d.match_to(t, &s.tparams, &mut map),
                (Ty::Ref(true, _), Ty::Ref(false, _)) => false,
                (Ty::Ref(_, d), t) => d.match_to(t, &s.tparams, &mut map),
                (_, Ty::Ref(..)) => false,
                (d, t) => d.match_to(t, &s.tparams, &mut map),
            };
            if ok && s.ret.match_to(ty, &s.tparams, &mut map) && map.iter().all(|(_, t)| self.nameable(t)) {
                v.push((i, map));
            }
        }
        v
    }

    fn params_ok(&self, f: SymId, map: &[(SymId, Ty)], skip: usize) -> bool {
        let s = self.sy(f);
        s.params.iter().skip(skip).all(|p| {
            let t = self.sy(*p).ty.subst(map);
            self.producible(&t) && (!matches!(t, Ty::Fun(..)) || self.nameable(&t))
        }) && map.iter().all(|(_, t)| self.nameable(t))
    }

    /// Writes an expression of type `ty`. `check`: the context already determines the type. `lvl`: 0 anything,
    /// 1 operand of an operator, 2 receiver of a postfix operator. `d`: how deep it may get.
    pub fn expr(&mut self, ty: &Ty, check: bool, lvl: u8, d: u32) {
        let from = self.here();
        let what = self.expr_inner(ty, check, lvl, d);
        let (file, to) = (self.file, self.here());
        self.w.spans.push(Span { file, from, to, ty: ty.clone(), what, synth: !check });
    }
    /// an expression in a position that requires exactly this type, recorded for mutation
    pub fn typed(&mut self, ty: &Ty, check: bool, lvl: u8, d: u32, why: &'static str) {
        let from = self.here();
        self.expr(ty, check, lvl, d);
        if check {
            self.site(from, SiteKind::Typed(ty.clone(), why));
        }
    }
    pub fn site(&mut self, from: usize, kind: SiteKind) {
        let (file, to, module) = (self.file, self.here(), self.module);
        self.w.sites.push(Site { file, from, to, kind, module });
    }

    fn expr_inner(&mut self, ty: &Ty, check: bool, lvl: u8, d: u32) -> &'static str {
        self.fuel -= 1;
        let d = if self.fuel < 0 { 0 } else { d };
        let mut o: Vec<(u32, Opt)> = vec![];
        let deep = d > 0;
        let locals = self.locals();
        // --- leaves
        for l in &locals {
            let lt = &self.sy(*l).ty;
            if lt == ty {
                o.push((6, Opt::Var(*l)));
                if !self.msl && deep && !matches!(ty, Ty::Fun(..)) {
                    o.push((1, Opt::Copy(*l)));
                }
            }
            if let Ty::Ref(_, t) = lt {
                if **t == *ty && !self.msl {
                    o.push((5, Opt::Deref(*l)));
                }
            }
            if let (Ty::Ref(m, t), false) = (ty, self.msl) {
                if lt == &**t && !matches!(lt, Ty::Ref(..)) {
                    o.push((5, Opt::BorrowVar(*l)));
                }
                if let Ty::Ref(true, u) = lt {
                    // a mutable reference where an immutable one is wanted
                    if !*m && u == t && check {
                        o.push((1, Opt::Var(*l)));
                    }
                }
                for (f, ft) in self.subst_fields(*l) {
                    let base_ok = match lt {
                        Ty::Ref(lm, _) => *lm || !*m,
                        _ => true,
                    };
                    if ft == **t && base_ok {
                        o.push((2, Opt::BorrowField(*l, f)));
                    }
                }
                if let Ty::Vec(e) = lt {
                    if **e == **t && deep {
                        o.push((2, Opt::BorrowIndex(*l)));
                    }
                }
            }
            for (f, ft) in self.subst_fields(*l) {
                if ft == *ty {
                    o.push((4, Opt::Field(*l, f)));
                }
            }
            if let Ty::Vec(e) = lt.strip() {
                if **e == *ty && deep && !matches!(self.sy(*l).ty, Ty::Ref(..)) {
                    o.push((2, Opt::Index(*l)));
                }
            }
            if deep && !self.msl {
                for (f, map) in self.methods_for(*l, ty) {
                    o.push((4, Opt::Method(*l, f, map)));
                }
                if let Ty::Fun(_, r) = lt {
                    if **r == *ty && !self.fun_named(&self.sy(*l).name) {
                        o.push((6, Opt::LambdaCall(*l)));
                    }
                }
            }
        }
        for i in 0..self.w.syms.len() {
            if self.sy(i).kind == Kind::Const
                && self.sy(i).ty == *ty
                && self.visible(i, self.module)
                && (!self.sy(i).builtin || self.s.chance(1, 4))
                && (!self.sy(i).builtin || self.bare_names(Ns::Value, i).len() == 1)
            {
                o.push((2, Opt::Const(i)));
            }
        }
        if Self::has_lit(ty) {
            o.push((if o.is_empty() { 3 } else { 2 }, Opt::Lit));
        }
        if *ty == Ty::Unit {
            o.push((3, Opt::UnitCall));
        }
        if let Ty::Vec(_) = ty {
            o.push((2, Opt::VecLit));
        }
        if let Ty::Tuple(_) = ty {
            o.push((5, Opt::Tuple));
        }
        if let Ty::Fun(..) = ty {
            if check {
                o.push((6, Opt::Lambda));
            }
        }
        if let Ty::Adt(a, _) = ty {
            let s = self.sy(*a);
            if s.module == Some(self.module) || self.msl && s.kind == Kind::Struct && !s.tuple {
                if s.kind == Kind::Struct {
                    o.push((2, Opt::StructLit));
                } else {
                    for v in s.variants.clone() {
                        o.push((2, Opt::VariantLit(v)));
                    }
                }
            }
        }
        // --- calls
        if !self.msl || d > 0 {
            let mut v = vec![];
            self.callables(ty, &mut v);
            for (f, map) in v {
                let maker = self.sy(f).maker.is_some();
                if (deep || maker && o.is_empty()) && !self.msl {
                    o.push((if maker { 1 } else { 3 }, Opt::Call(f, map)));
                }
            }
        }
        // --- compound
        if deep {
            if let (Ty::Ref(m, t), false) = (ty, self.msl) {
                for r in self.resources() {
                    if **t == Ty::Adt(r, vec![]) {
                        o.push((2, Opt::BorrowGlobal(r)));
                        let _ = m;
                    }
                }
            }
            if !self.msl {
                for r in self.resources() {
                    for f in self.sy(r).fields.clone() {
                        if self.sy(f).ty == *ty {
                            o.push((1, Opt::ResIndexField(r, f)));
                        }
                    }
                }
                o.push((1, Opt::DerefBorrow));
            }
            if !matches!(ty, Ty::Fun(..)) {
                o.push((1, Opt::If));
                if !self.msl {
                    o.push((1, Opt::Block));
                    o.push((1, Opt::Paren));
                    if self.o.never && check && *ty != Ty::Unit && self.fun.is_some() {
                        o.push((1, Opt::Never));
                    }
                    if check && *ty != Ty::Unit && self.s.chance(1, 3) {
                        o.push((1, Opt::Loop));
                    }
                    for l in &locals {
                        if let Ty::Adt(a, _) = self.sy(*l).ty.strip() {
                            if self.sy(*a).kind == Kind::Enum && self.sy(*a).module == Some(self.module) {
                                o.push((2, Opt::Match(*l)));
                                if *ty == Ty::Bool {
                                    o.push((2, Opt::Is(*l)));
                                }
                            }
                        }
                    }
                }
            }
            match ty {
                Ty::Int(k) => {
                    o.push((3, Opt::Arith));
                    if !self.msl && *k < 6 {
                        o.push((1, Opt::Bit));
                        o.push((1, Opt::Shift));
                        o.push((2, Opt::Cast));
                    }
                }
                Ty::Num => o.push((3, Opt::Arith)),
                Ty::Bool => {
                    o.push((2, Opt::Cmp));
                    o.push((2, Opt::Eq));
                    o.push((2, Opt::Logic));
                    o.push((1, Opt::Not));
                    for r in self.resources() {
                        o.push((1, Opt::Exists(r)));
                    }
                }
                _ => {}
            }
        }
        if let (Ty::Ref(_, t), false) = (ty, self.msl) {
            if o.is_empty() || deep {
                if self.producible(t) {
                    o.push((1, Opt::Borrow));
                }
            }
        }
        if o.is_empty() {
            // last resort: makers in dependency order always exist for plain types
            let mut v = vec![];
            self.callables(ty, &mut v);
            let v: Vec<_> = v.into_iter().filter(|(f, _)| self.sy(*f).maker.is_some()).collect();
            if let Some((f, map)) = v.into_iter().next() {
                o.push((1, Opt::Call(f, map)));
            }
        }
        loop {
            if o.is_empty() {
                // reached only for types whose values cannot be written here: diverge instead
                self.w.poisoned |= !check;
                self.paren(lvl > 0, |g| {
                    g.t("abort");
                    g.lit(&Ty::Int(0), true);
                });
                return "abort";
            }
            let ws: Vec<u32> = o.iter().map(|x| x.0).collect();
            let k = self.s.weighted(&ws);
            let opt = o[k].1.clone();
            if let Some(w) = self.option(opt, ty, check, lvl, d) {
                return w;
            }
            o.remove(k);
        }
    }

    pub fn paren(&mut self, on: bool, f: impl FnOnce(&mut Self)) {
        if on {
            self.t("(");
            let p = self.here();
            f(self);
            if self.here() > p {
                self.tighten(p);
            }
            self.t("~)");
        } else {
            f(self);
        }
    }

    fn var(&mut self, l: SymId) {
        let n = self.sy(l).name.clone();
        let from = self.here();
        self.occ_as(l, &n, Role::Value, None);
        let _ = from;
    }

    fn option(&mut self, opt: Opt, ty: &Ty, check: bool, lvl: u8, d: u32) -> Option<&'static str> {
        let e = d.saturating_sub(1);
        match opt {
            Opt::Var(l) => {
                self.var(l);
                Some("var")
            }
            Opt::Const(c) => {
                // a local with the same name would win
                if !self.sy(c).builtin && self.bare_names(Ns::Value, c).is_empty() && self.sy(c).module != Some(self.module) {
                    return None;
                }
                self.path(c, Ns::Value, Role::Value);
                Some("const")
            }
            Opt::Lit => {
                self.lit(ty, !check);
                Some("lit")
            }
            Opt::Copy(l) => {
                self.paren(lvl > 0, |g| {
                    let m = g.s.flip();
                    g.t(if m { "move" } else { "copy" });
                    g.var(l);
                });
                Some("copy")
            }
            Opt::Field(l, f) => {
                self.var_span(l);
                self.t("~.");
                let p = self.occ(f, Role::FieldAccess);
                self.tighten(p);
                Some("field")
            }
            Opt::Index(l) => {
                self.var_span(l);
                self.t("~[");
                let p = self.here();
                self.expr(&Ty::Int(0), true, 0, e);
                self.tighten(p);
                self.t("~]");
                Some("index")
            }
            Opt::Deref(l) => {
                self.paren(lvl > 1, |g| {
                    g.t("*");
                    let p = g.here();
                    g.var_span(l);
                    g.tighten(p);
                });
                Some("deref")
            }
            Opt::DerefBorrow => {
                let rt = Ty::rf(self.s.flip(), ty.clone());
                if !self.producible(&rt) || !ty.can_be_arg() {
                    return None;
                }
                self.paren(lvl > 1, |g| {
                    g.t("*");
                    let p = g.here();
                    g.expr(&rt, false, 1, e.min(1));
                    g.tighten(p);
                });
                Some("deref")
            }
            Opt::Paren => {
                self.t("(");
                let p = self.here();
                self.expr(ty, check, 0, e);
                self.tighten(p);
                self.t("~)");
                Some("paren")
            }
            Opt::Call(f, map) => {
                let map = self.completed(f, map);
                if !self.params_ok(f, &map, 0) {
                    return None;
                }
                self.call(f, &map, e)
            }
            Opt::Method(l, f, map) => {
                let map = self.completed(f, map);
                if !self.params_ok(f, &map, 1) {
                    return None;
                }
                self.method_call(l, f, &map, e);
                Some("method")
            }
            Opt::LambdaCall(l) => {
                let Ty::Fun(args, _) = self.sy(l).ty.clone() else { return None };
                if !args.iter().all(|t| self.producible(t)) {
                    return None;
                }
                self.occ(l, Role::Call);
                self.t("~(");
                for (k, t) in args.iter().enumerate() {
                    if k > 0 {
                        self.t("~,");
                    }
                    self.expr(t, true, 0, e);
                }
                self.t("~)");
                Some("lambda-call")
            }
            Opt::StructLit => {
                let Ty::Adt(a, args) = ty.clone() else { return None };
                self.struct_lit(a, &args, check, e)
            }
            Opt::VariantLit(v) => {
                let Ty::Adt(a, args) = ty.clone() else { return None };
                self.variant_lit(a, v, &args, check, e)
            }
            Opt::VecLit => {
                let Ty::Vec(t) = ty.clone() else { return None };
                let n = if self.msl { self.s.range(1, 2) } else { self.s.small(3) };
                if n > 0 && !self.producible(&t) || !self.nameable(&t) {
                    return None;
                }
                self.t("vector");
                // the element type is written, or known from outside, or known from the elements
                let explicit = n == 0 && !check || self.s.chance(1, 4);
                if explicit {
                    self.type_args(&[(*t).clone()]);
                }
                self.t("~[");
                for k in 0..n {
                    if k > 0 {
                        self.t("~,");
                    }
                    let p = self.here();
                    self.expr(&t, check || explicit, 0, e);
                    if k == 0 {
                        self.tighten(p);
                    }
                }
                self.t("~]");
                Some("vector")
            }
            Opt::Tuple => {
                let Ty::Tuple(ts) = ty.clone() else { return None };
                self.t("(");
                for (k, t) in ts.iter().enumerate() {
                    if k > 0 {
                        self.t("~,");
                    }
                    self.expr(t, check, 0, e);
                }
                self.t("~)");
                Some("tuple")
            }
            Opt::If => {
                self.paren(lvl > 0, |g| {
                    g.t("if (");
                    g.typed(&Ty::Bool, true, 0, e, "condition");
                    g.t("~)");
                    g.branch(ty, check, e);
                    g.t("else");
                    g.branch(ty, check, e);
                });
                Some("if")
            }
            Opt::Block => {
                self.paren(lvl > 0, |g| g.block(ty, !check, e, false));
                Some("block")
            }
            Opt::Loop => {
                // loop { .. return / abort .. } never yields
                self.paren(lvl > 0, |g| {
                    g.t("loop {");
                    g.t("abort");
                    g.lit(&Ty::Int(0), true);
                    g.t("~; }");
                });
                Some("loop")
            }
            Opt::Never => {
                let ret = self.ret.clone();
                let ab = self.s.flip() || !self.producible(&ret) || !self.lambda_free();
                self.paren(lvl > 0, |g| {
                    if ab {
                        g.t("abort");
                        g.expr(&Ty::Int(0), true, 1, 0);
                    } else {
                        g.t("return");
                        if ret != Ty::Unit {
                            g.expr(&ret, true, 1, e);
                        }
                    }
                });
                Some("never")
            }
            Opt::Match(l) => {
                self.match_expr(l, ty, check, lvl, e);
                Some("match")
            }
            Opt::Is(l) => {
                let Ty::Adt(a, _) = self.sy(l).ty.strip().clone() else { return None };
                let vs = self.sy(a).variants.clone();
                let v = *self.s.pick(&vs);
                self.paren(true, |g| {
                    g.var_span(l);
                    g.t("is");
                    g.path(a, Ns::Type, Role::Qualifier);
                    g.t("~::");
                    let p = g.occ(v, Role::Type);
                    g.tighten(p);
                });
                Some("is")
            }
            Opt::Arith => {
                let ops = ["+", "-", "*", "/", "%"];
                let op = *self.s.pick(&ops);
                self.paren(lvl > 0, |g| {
                    let p = g.here();
                    g.expr(ty, check, 1, e);
                    g.site(p, SiteKind::Operand(op));
                    g.t(op);
                    let p = g.here();
                    g.expr(ty, true, 1, e);
                    g.site(p, SiteKind::Operand(op));
                });
                Some("arith")
            }
            Opt::Bit => {
                let op = *self.s.pick(&["&", "|", "^"]);
                self.paren(lvl > 0, |g| {
                    g.expr(ty, check, 1, e);
                    g.t(op);
                    g.expr(ty, true, 1, e);
                });
                Some("bit")
            }
            Opt::Shift => {
                let op = *self.s.pick(&["<<", ">>"]);
                self.paren(lvl > 0, |g| {
                    g.paren(true, |g| g.expr(ty, check, 0, e));
                    g.t(op);
                    g.expr(&Ty::Int(1), true, 1, e);
                });
                Some("shift")
            }
            Opt::Cmp => {
                let t = if self.msl { Ty::Num } else { self.int_ty() };
                let op = *self.s.pick(&["==", "<", ">", "<=", ">="]);
                self.paren(lvl > 0, |g| {
                    g.paren(true, |g| g.expr(&t, false, 0, e));
                    g.t(op);
                    g.expr(&t, true, 1, e);
                });
                Some("cmp")
            }
            Opt::Eq => {
                let t = if self.msl { Ty::Bool } else { self.any_ty() };
                if !t.can_be_arg() || !self.producible(&t) {
                    return None;
                }
                let op = *self.s.pick(&["==", "!="]);
                let r = !self.msl && self.s.chance(1, 6);
                let t = if r { Ty::rf(false, t) } else { t };
                self.paren(lvl > 0, |g| {
                    g.paren(true, |g| g.expr(&t, false, 0, e));
                    g.t(op);
                    g.paren(true, |g| g.expr(&t, false, 0, e));
                });
                Some("eq")
            }
            Opt::Logic => {
                let op = *self.s.pick(&["&&", "||"]);
                self.paren(lvl > 0, |g| {
                    g.typed(&Ty::Bool, true, 1, e, "logic");
                    g.t(op);
                    g.typed(&Ty::Bool, true, 1, e, "logic");
                });
                Some("logic")
            }
            Opt::Not => {
                self.paren(lvl > 1, |g| {
                    g.t("!");
                    let p = g.here();
                    g.typed(&Ty::Bool, true, 2, e, "not");
                    g.tighten(p);
                });
                Some("not")
            }
            Opt::Cast => {
                let t = self.int_ty();
                self.t("(");
                let p = self.here();
                self.expr(&t, false, 1, e);
                self.tighten(p);
                self.t("as");
                self.ty(ty);
                self.t("~)");
                Some("cast")
            }
            Opt::Exists(r) => {
                let f = self.b.exists;
                self.path(f, Ns::Fun, Role::Call);
                self.t("~<");
                let p = self.here();
                self.path(r, Ns::Type, Role::Type);
                self.tighten(p);
                self.t("~> ~(");
                self.expr(&Ty::Address, true, 0, e);
                self.t("~)");
                Some("exists")
            }
            Opt::BorrowVar(l) => {
                let Ty::Ref(m, _) = ty else { return None };
                self.paren(lvl > 1, |g| {
                    g.amp(*m);
                    let p = g.here();
                    g.var_span(l);
                    if !*m {
                        g.tighten(p);
                    }
                });
                Some("borrow")
            }
            Opt::BorrowField(l, f) => {
                let Ty::Ref(m, t) = ty else { return None };
                self.paren(lvl > 1, |g| {
                    g.amp(*m);
                    let p = g.here();
                    g.var_span(l);
                    g.t("~.");
                    let q = g.occ(f, Role::FieldAccess);
                    g.tighten(q);
                    if !*m {
                        g.tighten(p);
                    }
                    let (file, to) = (g.file, g.here());
                    g.w.spans.push(Span { file, from: p, to, ty: (**t).clone(), what: "field", synth: true });
                });
                Some("borrow")
            }
            Opt::BorrowIndex(l) => {
                let Ty::Ref(m, _) = ty else { return None };
                self.paren(lvl > 1, |g| {
                    g.amp(*m);
                    let p = g.here();
                    g.var_span(l);
                    g.t("~[");
                    g.expr(&Ty::Int(0), true, 0, e);
                    g.t("~]");
                    if !*m {
                        g.tighten(p);
                    }
                });
                Some("borrow")
            }
            Opt::BorrowGlobal(r) => {
                let Ty::Ref(m, _) = ty else { return None };
                if self.s.flip() {
                    let f = if *m { self.b.borrow_global_mut } else { self.b.borrow_global };
                    self.path(f, Ns::Fun, Role::Call);
                    self.t("~<");
                    self.path(r, Ns::Type, Role::Type);
                    self.t("~> ~(");
                    self.expr(&Ty::Address, true, 0, e);
                    self.t("~)");
                } else {
                    self.paren(lvl > 1, |g| {
                        g.amp(*m);
                        g.res_index(r, e);
                    });
                }
                Some("global")
            }
            Opt::ResIndexField(r, f) => {
                self.res_index(r, e);
                self.t("~.");
                let q = self.occ(f, Role::FieldAccess);
                self.tighten(q);
                Some("field")
            }
            Opt::Borrow => {
                let Ty::Ref(m, t) = ty else { return None };
                self.paren(lvl > 1, |g| {
                    g.amp(*m);
                    g.expr(t, check && !matches!(**t, Ty::Fun(..)), 2, e);
                });
                Some("borrow")
            }
            Opt::Lambda => {
                let Ty::Fun(args, r) = ty.clone() else { return None };
                self.lambda(&args, &r, e);
                Some("lambda")
            }
            Opt::UnitCall => {
                let mut v = vec![];
                self.callables(&Ty::Unit, &mut v);
                let v: Vec<_> = v.into_iter().filter(|(f, _)| self.sy(*f).ret == Ty::Unit).collect();
                if !v.is_empty() && d > 0 && !self.msl {
                    let (f, map) = self.s.pick(&v).clone();
                    let map = self.completed(f, map);
                    if self.params_ok(f, &map, 0) {
                        return self.call(f, &map, e);
                    }
                }
                self.t("( ~)");
                Some("unit")
            }
        }
    }

    fn lambda_free(&self) -> bool {
        !self.frames.iter().any(|f| f.lambda)
    }
    fn amp(&mut self, m: bool) {
        self.t("&");
        if m {
            self.t("~mut");
        }
    }
    fn var_span(&mut self, l: SymId) {
        let p = self.here();
        self.var(l);
        let (file, to, ty) = (self.file, self.here(), self.sy(l).ty.clone());
        self.w.spans.push(Span { file, from: p, to, ty, what: "var", synth: true });
    }
    fn res_index(&mut self, r: SymId, d: u32) {
        // the name must be one that a value expression finds
        self.path(r, Ns::Type, Role::Type);
        self.t("~[");
        self.expr(&Ty::Address, true, 0, d);
        self.t("~]");
    }
    fn branch(&mut self, ty: &Ty, check: bool, d: u32) {
        if self.s.flip() || *ty == Ty::Unit {
            self.block(ty, !check, d, false);
        } else {
            // a bare branch ends where the operand ends
            self.expr(ty, check, 1, d);
        }
    }

    /// which type parameters can be inferred from the arguments
    fn inferable(&self, f: SymId, skip: usize) -> bool {
        let s = self.sy(f);
        s.tparams.iter().all(|t| s.params.iter().skip(skip).any(|p| self.sy(*p).ty.mentions(*t) && !matches!(self.sy(*p).ty, Ty::Fun(..))))
    }

    fn args(&mut self, f: SymId, map: &[(SymId, Ty)], explicit: bool, skip: usize, d: u32, method: bool) {
        let ps = self.sy(f).params.clone();
        let open = self.here();
        self.t("~(");
        let mut spans = vec![];
        let n = ps.len();
        for (k, p) in ps.iter().enumerate().skip(skip) {
            let decl = self.sy(*p).ty.clone();
            let t = decl.subst(map);
            let from = self.here();
            let synth = !explicit && decl != t;
            if decl == t || explicit {
                self.typed(&t, !synth, 0, d, "argument");
            } else {
                self.expr(&t, false, 0, d);
            }
            if k == skip {
                self.tighten(from);
            }
            spans.push((from, self.here()));
            if k + 1 < n {
                self.t("~,");
            } else if self.s.chance(1, 10) {
                self.t("~,");
            }
        }
        self.t("~)");
        self.site(open, SiteKind::Args { callee: f, args: spans, method, inst: map.to_vec() });
    }

    fn call(&mut self, f: SymId, map: &[(SymId, Ty)], d: u32) -> Option<&'static str> {
        // a local of the same name in a nearer scope makes a bare call ambiguous to the reader; see DESIGN
        self.path(f, Ns::Fun, Role::Call);
        let tps = self.sy(f).tparams.clone();
        let fun_arg = self.sy(f).params.iter().any(|p| matches!(self.sy(*p).ty, Ty::Fun(..)));
        let explicit = !tps.is_empty() && (!self.inferable(f, 0) || fun_arg || self.s.chance(1, 3));
        if explicit {
            let args: Vec<Ty> = tps.iter().map(|t| map.iter().find(|(p, _)| p == t).unwrap().1.clone()).collect();
            self.type_args(&args);
        }
        self.args(f, map, explicit || tps.is_empty(), 0, d, false);
        Some("call")
    }

    fn method_call(&mut self, l: SymId, f: SymId, map: &[(SymId, Ty)], d: u32) {
        self.var_span(l);
        self.t("~.");
        let p = self.occ(f, Role::Method);
        self.tighten(p);
        let tps = self.sy(f).tparams.clone();
        let fun_arg = self.sy(f).params.iter().any(|p| matches!(self.sy(*p).ty, Ty::Fun(..)));
        let explicit = !tps.is_empty() && (!self.inferable(f, 0) || fun_arg || self.s.chance(1, 6));
        if explicit {
            let args: Vec<Ty> = tps.iter().map(|t| map.iter().find(|(p, _)| p == t).unwrap().1.clone()).collect();
            self.t("~::");
            self.type_args(&args);
        }
        self.args(f, map, explicit || tps.is_empty(), 1, d, true);
    }

    fn lit_fields(&mut self, adt: SymId, fields: &[SymId], map: &[(SymId, Ty)], explicit: bool, d: u32) {
        let mut order: Vec<SymId> = fields.to_vec();
        if self.s.chance(1, 3) {
            order.reverse();
        }
        let from = self.here();
        self.t("{");
        let mut spans = vec![];
        let n = order.len();
        for (k, f) in order.iter().enumerate() {
            let decl = self.sy(*f).ty.clone();
            let t = decl.subst(map);
            let name = self.sy(*f).name.clone();
            let short = self
                .lookup(Ns::Value, &name)
                .map(|b| b.sym)
                .filter(|l| matches!(self.sy(*l).kind, Kind::Local | Kind::Param) && self.sy(*l).ty == t);
            let p0 = self.here();
            if let (Some(l), true) = (short, self.s.chance(2, 3)) {
                let p = self.occ(*f, Role::LitShorthand);
                let file = self.file;
                self.w.files[file].pieces[p].occ.as_mut().unwrap().also = Some(l);
            } else {
                self.occ(*f, Role::LitField);
                self.t("~:");
                if decl == t || explicit {
                    self.typed(&t, true, 0, d, "field");
                } else {
                    self.expr(&t, false, 0, d);
                }
            }
            spans.push((*f, p0, self.here()));
            if k + 1 < n || self.s.chance(1, 6) {
                self.t("~,");
            }
        }
        self.t("}");
        self.site(from, SiteKind::Lit { adt, fields: spans });
    }

    fn struct_lit(&mut self, a: SymId, args: &[Ty], check: bool, d: u32) -> Option<&'static str> {
        let s = self.sy(a).clone();
        let map: Vec<(SymId, Ty)> = s.tparams.iter().copied().zip(args.iter().cloned()).collect();
        if !s.fields.iter().all(|f| self.producible(&self.sy(*f).ty.subst(&map))) || !args.iter().all(|t| self.nameable(t)) {
            return None;
        }
        let determined = s.tparams.iter().all(|t| s.fields.iter().any(|f| self.sy(*f).ty.mentions(*t)));
        let explicit = !s.tparams.is_empty() && (!determined || self.s.chance(1, 3));
        let _ = check;
        self.path(a, Ns::Type, if s.tuple { Role::Ctor } else { Role::Type });
        if explicit {
            self.type_args(args);
        }
        if s.tuple {
            self.t("~(");
            let n = s.fields.len();
            for (k, f) in s.fields.iter().enumerate() {
                let t = self.sy(*f).ty.subst(&map);
                self.expr(&t, s.tparams.is_empty(), 0, d);
                if k + 1 < n {
                    self.t("~,");
                }
            }
            self.t("~)");
            Some("tuple-struct")
        } else {
            self.lit_fields(a, &s.fields, &map, explicit || s.tparams.is_empty(), d);
            Some("struct-lit")
        }
    }

    fn variant_lit(&mut self, a: SymId, v: SymId, args: &[Ty], _check: bool, d: u32) -> Option<&'static str> {
        let s = self.sy(a).clone();
        let vs = self.sy(v).clone();
        let map: Vec<(SymId, Ty)> = s.tparams.iter().copied().zip(args.iter().cloned()).collect();
        if !vs.fields.iter().all(|f| self.producible(&self.sy(*f).ty.subst(&map))) || !args.iter().all(|t| self.nameable(t)) {
            return None;
        }
        let explicit = !s.tparams.is_empty();
        self.path(a, Ns::Type, Role::Qualifier);
        if explicit {
            self.type_args(args);
        }
        self.t("~::");
        let p = self.occ(v, Role::Ctor);
        self.tighten(p);
        if vs.tuple {
            self.t("~(");
            let n = vs.fields.len();
            for (k, f) in vs.fields.iter().enumerate() {
                let t = self.sy(*f).ty.subst(&map);
                self.expr(&t, s.tparams.is_empty(), 0, d);
                if k + 1 < n {
                    self.t("~,");
                }
            }
            self.t("~)");
        } else if !vs.unit_like {
            self.lit_fields(v, &vs.fields, &map, explicit || s.tparams.is_empty(), d);
        }
        Some("variant-lit")
    }

    fn lambda(&mut self, args: &[Ty], ret: &Ty, d: u32) {
        let names = self.distinct_locals(args.len());
        let mut fr = Frame { lambda: true, ..Frame::default() };
        if args.is_empty() {
            self.t("| |");
        } else {
            self.t("|");
            for (k, t) in args.iter().enumerate() {
                if k > 0 {
                    self.t("~,");
                }
                let l = self.new_local_named(&names[k], t, LocalRole::Lambda);
                self.def(l);
                if self.s.chance(1, 4) {
                    self.t("~:");
                    self.ty(t);
                }
                fr.binds.push(Bind { ns: Ns::Value, name: names[k].clone(), sym: l, via: None });
            }
            self.t("~|");
        }
        self.frames.push(fr);
        let (labels, was) = (std::mem::take(&mut self.labels), self.o.never);
        self.o.never = false;
        if *ret == Ty::Unit || self.s.chance(1, 3) {
            self.block(ret, false, d, false);
        } else {
            self.expr(ret, true, 1, d);
        }
        self.o.never = was;
        self.labels = labels;
        self.frames.pop();
    }

    /// Pattern for variant `v` of enum type; returns the bindings.
    fn variant_pat(&mut self, a: SymId, args: &[Ty], v: SymId, by_ref: Option<bool>) -> Frame {
        let vs = self.sy(v).clone();
        let map: Vec<(SymId, Ty)> = self.sy(a).tparams.iter().copied().zip(args.iter().cloned()).collect();
        let bare_ok = {
            let m = self.sy(a).module;
            let n = &vs.name;
            let same = self.w.syms.iter().filter(|s| s.kind == Kind::Variant && s.module == m && s.name == *n).count();
            same == 1
        };
        if bare_ok && self.s.chance(1, 4) {
            self.occ(v, Role::PatPath);
        } else {
            self.path(a, Ns::Type, Role::Qualifier);
            self.t("~::");
            let p = self.occ(v, Role::PatPath);
            self.tighten(p);
        }
        if vs.unit_like {
            return Frame::default();
        }
        self.fields_pat(&vs.fields, vs.tuple, &map, by_ref, true)
    }

    fn fields_pat(&mut self, fields: &[SymId], tuple: bool, map: &[(SymId, Ty)], by_ref: Option<bool>, arm: bool) -> Frame {
        let mut fr = Frame::default();
        let names = self.distinct_locals(fields.len());
        let (role, short_role) = if arm {
            (LocalRole::MatchArm, LocalRole::MatchShorthand)
        } else {
            (LocalRole::Let, LocalRole::LetShorthand)
        };
        let wrap = |t: Ty| match by_ref {
            Some(m) => Ty::rf(m, t),
            None => t,
        };
        let add = |fr: &mut Frame, name: &str, sym: SymId| {
            fr.binds.push(Bind { ns: Ns::Value, name: name.to_string(), sym, via: None })
        };
        let used = |fr: &Frame, n: &str| fr.binds.iter().any(|b| b.name == n);
        if tuple {
            self.t("~(");
            for (k, f) in fields.iter().enumerate() {
                if k > 0 {
                    self.t("~,");
                }
                if self.s.chance(1, 4) {
                    self.t("_");
                } else {
                    let t = wrap(self.sy(*f).ty.subst(map));
                    let l = self.new_local_named(&names[k], &t, role);
                    self.def(l);
                    add(&mut fr, &names[k], l);
                }
            }
            self.t("~)");
            return fr;
        }
        self.t("{");
        let rest = self.s.chance(1, 5);
        let n = if rest { self.s.range(0, fields.len()) } else { fields.len() };
        for (k, f) in fields.iter().take(n).enumerate() {
            if k > 0 {
                self.t("~,");
            }
            let fname = self.sy(*f).name.clone();
            let t = wrap(self.sy(*f).ty.subst(map));
            let free = !used(&fr, &fname);
            // `x` as a bare pattern means a constant or variant only if one is in scope; names are disjoint from those
            if free && self.s.flip() {
                let l = self.new_local_named(&fname, &t, short_role);
                let p = self.def(l);
                let file = self.file;
                let o = self.w.files[file].pieces[p].occ.as_mut().unwrap();
                o.role = Role::PatShorthand;
                o.also = Some(*f);
                add(&mut fr, &fname, l);
            } else {
                self.occ(*f, Role::PatField);
                self.t("~:");
                if used(&fr, &names[k]) || self.s.chance(1, 4) {
                    self.t("_");
                } else {
                    let l = self.new_local_named(&names[k], &t, role);
                    self.def(l);
                    add(&mut fr, &names[k], l);
                }
            }
        }
        if rest {
            if n > 0 {
                self.t("~,");
            }
            self.t("..");
        }
        self.t("}");
        fr
    }

    fn match_expr(&mut self, l: SymId, ty: &Ty, check: bool, lvl: u8, d: u32) {
        let lt = self.sy(l).ty.clone();
        let (Ty::Adt(a, args), by_ref) = (match &lt {
            Ty::Ref(m, t) => ((**t).clone(), Some(*m)),
            t => (t.clone(), None),
        }) else {
            unreachable!()
        };
        self.paren(lvl > 0, |g| {
            g.t("match (");
            let p = g.here();
            g.var_span(l);
            g.tighten(p);
            g.t("~) {");
            let vs = g.sy(a).variants.clone();
            let wild = g.s.chance(1, 3);
            let n = if wild { g.s.range(0, vs.len() - 1) } else { vs.len() };
            for v in vs.iter().take(n) {
                let fr = g.variant_pat(a, &args, *v, by_ref);
                g.frames.push(fr);
                if g.s.chance(1, 8) {
                    g.t("if (");
                    g.typed(&Ty::Bool, true, 0, d.min(1), "guard");
                    g.t("~)");
                }
                g.t("=>");
                g.arm(ty, check, d);
                g.frames.pop();
            }
            if wild || n == 0 {
                g.t("_ =>");
                g.arm(ty, check, d);
            }
            g.t("}");
        });
    }
    fn arm(&mut self, ty: &Ty, check: bool, d: u32) {
        if *ty == Ty::Unit || self.s.chance(1, 3) {
            self.block(ty, !check, d, false);
            if self.s.flip() {
                self.t("~,");
            }
        } else {
            self.expr(ty, check, 0, d);
            self.t("~,");
        }
    }

    // ---------------------------------------------------------------- blocks and statements
    /// `{ .. }` of type `ty`
    pub fn block(&mut self, ty: &Ty, synth: bool, d: u32, top: bool) {
        self.t("{");
        self.frames.push(Frame::default());
        if !top && self.s.chance(1, 10) || top && self.s.chance(1, 6) {
            let m = self.module;
            if self.w.modules.contains(&m) || self.sy(m).addr == usize::MAX {
                self.uses(m, true);
            }
        }
        let n = if top { self.s.range(0, self.o.stmts) } else { self.s.small(2) };
        let mut need_let = false;
        for _ in 0..n {
            if self.fuel < 0 && !need_let {
                break;
            }
            need_let = self.stmt(d, need_let);
        }
        if need_let {
            self.let_stmt(d);
        }
        if *ty != Ty::Unit {
            let early = top && self.s.chance(1, 10) && self.lambda_free();
            if early {
                self.t("return");
                self.typed(ty, true, 1, d, "return");
            } else if top {
                self.typed(ty, !synth, 0, d, "tail");
            } else {
                self.expr(ty, !synth, 0, d);
            }
        } else if d > 0 && self.s.chance(1, 8) {
            // a unit tail
            self.expr(&Ty::Unit, true, 0, 1);
        }
        self.frames.pop();
        self.t("}");
    }

    pub fn let_stmt(&mut self, d: u32) {
        let kind = self.s.weighted(&[6, 3, 2, 2, 2, 1]);
        let from = self.here();
        self.t("let");
        match kind {
            // inferred
            0 => {
                let t = self.any_ty();
                let t = if self.s.chance(1, 5) { Ty::rf(self.s.flip(), t) } else { t };
                let l = self.new_local(&t, LocalRole::Let);
                self.def(l);
                self.t("=");
                self.expr(&t, false, 0, d);
                self.bind(Ns::Value, l);
            }
            // annotated
            1 => {
                let t = self.any_ty();
                let t = if self.s.chance(1, 5) { Ty::rf(self.s.flip(), t) } else { t };
                let l = self.new_local(&t, LocalRole::Let);
                self.def(l);
                self.t("~:");
                self.ty(&t);
                self.t("=");
                self.typed(&t, true, 0, d, "let");
                self.bind(Ns::Value, l);
            }
            // declared, then assigned
            2 => {
                let t = self.any_ty();
                let l = self.new_local(&t, LocalRole::Let);
                self.def(l);
                self.t("~:");
                self.ty(&t);
                self.t("~;");
                self.bind(Ns::Value, l);
                self.occ(l, Role::Value);
                self.t("=");
                self.typed(&t, true, 0, d, "assign");
            }
            // tuple
            3 => {
                let ts = vec![self.any_ty(), self.any_ty()];
                let names = self.distinct_locals(2);
                self.t("(");
                let mut ls = vec![];
                for k in 0..2 {
                    if k > 0 {
                        self.t("~,");
                    }
                    if self.s.chance(1, 5) {
                        self.t("_");
                    } else {
                        let l = self.new_local_named(&names[k], &ts[k], LocalRole::Let);
                        let p = self.def(l);
                        if k == 0 {
                            self.tighten(p);
                        }
                        ls.push(l);
                    }
                }
                self.t("~)");
                self.t("=");
                self.expr(&Ty::Tuple(ts), false, 0, d);
                for l in ls {
                    self.bind(Ns::Value, l);
                }
            }
            // struct
            4 => {
                let m = self.module;
                let cands: Vec<SymId> = (0..self.w.syms.len())
                    .filter(|i| {
                        let s = self.sy(*i);
                        s.kind == Kind::Struct
                            && s.module == Some(m)
                            && s.tparams.is_empty()
                            && s.maker.is_some()
                            && self.producible(&Ty::Adt(*i, vec![]))
                    })
                    .collect();
                if cands.is_empty() {
                    self.t("_ =");
                    let t = self.any_ty();
                    self.expr(&t, false, 0, d);
                } else {
                    let a = *self.s.pick(&cands);
                    let s = self.sy(a).clone();
                    self.path(a, Ns::Type, Role::PatPath);
                    let fr = self.fields_pat(&s.fields, s.tuple, &[], None, false);
                    self.t("=");
                    self.expr(&Ty::Adt(a, vec![]), false, 0, d);
                    let top = self.frames.last_mut().unwrap();
                    top.binds.extend(fr.binds);
                }
            }
            _ => {
                self.t("_ =");
                let t = self.any_ty();
                self.expr(&t, false, 0, d);
            }
        }
        self.t("~;");
        let _ = from;
    }

    fn places(&self) -> Vec<SymId> {
        self.locals().into_iter().filter(|l| !matches!(self.sy(*l).ty, Ty::Fun(..) | Ty::Signer)).collect()
    }

    fn semi(&mut self, need: bool) -> bool {
        // after a block-like statement the `;` may be left out if a `let` follows
        if !need && self.s.chance(1, 3) {
            return true;
        }
        self.t("~;");
        false
    }

    /// One statement; returns whether the next one has to be a `let`.
    pub fn stmt(&mut self, d: u32, need_let: bool) -> bool {
        if need_let || self.s.chance(2, 5) {
            self.let_stmt(d);
            return false;
        }
        let e = d.saturating_sub(1);
        match self.s.weighted(&[4, 3, 2, 2, 2, 2, 1, 1, 2, 2, 1, 2]) {
            // a call for its effect
            0 => {
                let mut v = vec![];
                for i in 0..self.w.syms.len() {
                    let s = self.sy(i);
                    if s.kind == Kind::Fun && s.ret == Ty::Unit && !s.builtin && !s.is_test && self.visible(i, self.module) && Some(i) != self.fun {
                        v.push(i);
                    }
                }
                if v.is_empty() {
                    self.let_stmt(d);
                    return false;
                }
                let f = *self.s.pick(&v);
                let map = self.completed(f, vec![]);
                if !self.params_ok(f, &map, 0) {
                    self.let_stmt(d);
                    return false;
                }
                self.call(f, &map, d);
                self.t("~;");
                false
            }
            // assignment
            1 => {
                let ps = self.places();
                if ps.is_empty() {
                    self.let_stmt(d);
                    return false;
                }
                let l = *self.s.pick(&ps);
                let t = self.sy(l).ty.clone();
                match &t {
                    Ty::Ref(true, inner) if self.producible(inner) && inner.can_be_arg() => {
                        self.t("*");
                        let p = self.here();
                        self.var_span(l);
                        self.tighten(p);
                        self.t("=");
                        self.typed(inner, true, 0, d, "assign");
                    }
                    Ty::Int(_) if self.s.chance(1, 4) => {
                        // x = x + e
                        self.var_span(l);
                        self.t("=");
                        self.var_span(l);
                        let op = *self.s.pick(&["+", "-", "*", "/", "%", "&", "|", "^"]);
                        self.t(op);
                        self.t("(");
                        let p = self.here();
                        self.expr(&t, true, 0, d);
                        self.tighten(p);
                        self.t("~)");
                    }
                    Ty::Int(_) if self.s.chance(1, 2) => {
                        self.var_span(l);
                        let op = *self.s.pick(&["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="]);
                        self.t(op);
                        self.expr(&t, true, 0, d);
                    }
                    Ty::Ref(..) | Ty::Param(_) => {
                        self.t("_ =");
                        self.var_span(l);
                    }
                    _ => {
                        let fs: Vec<(SymId, Ty)> =
                            self.subst_fields(l).into_iter().filter(|(_, t)| self.producible(t)).collect();
                        if !fs.is_empty() && self.s.flip() {
                            let (f, ft) = self.s.pick(&fs).clone();
                            self.var_span(l);
                            self.t("~.");
                            let p = self.occ(f, Role::FieldAccess);
                            self.tighten(p);
                            self.t("=");
                            self.typed(&ft, true, 0, d, "assign");
                        } else if let (Ty::Vec(el), true) = (&t, self.s.flip()) {
                            if !self.producible(el) {
                                self.t("_ =");
                                self.var_span(l);
                            } else {
                                self.var_span(l);
                                self.t("~[");
                                self.expr(&Ty::Int(0), true, 0, e);
                                self.t("~]");
                                self.t("=");
                                self.typed(el, true, 0, d, "assign");
                            }
                        } else if self.producible(&t) {
                            self.occ(l, Role::Value);
                            self.t("=");
                            self.typed(&t, true, 0, d, "assign");
                        } else {
                            self.t("_ =");
                            self.var_span(l);
                        }
                    }
                }
                self.t("~;");
                false
            }
            // if
            2 => {
                self.t("if (");
                self.typed(&Ty::Bool, true, 0, e, "condition");
                self.t("~)");
                self.block(&Ty::Unit, false, e, false);
                if self.s.chance(1, 3) {
                    self.t("else");
                    self.block(&Ty::Unit, false, e, false);
                }
                self.semi(false)
            }
            // while / loop / for
            3 => {
                let label = if self.s.chance(1, 3) {
                    let name = format!("'{}", self.s.pick(&["outer", "a", "l1"]));
                    let host = self.fun;
                    let l = self.new_sym(Kind::Label, &name, host);
                    self.def(l);
                    self.t("~:");
                    Some(l)
                } else {
                    None
                };
                match self.s.weighted(&[2, 2, 2]) {
                    0 => {
                        self.t("while (");
                        self.typed(&Ty::Bool, true, 0, e, "condition");
                        self.t("~)");
                        self.labels.push(label);
                        self.block(&Ty::Unit, false, e, false);
                        self.labels.pop();
                    }
                    1 => {
                        self.t("loop");
                        self.labels.push(label);
                        self.t("{");
                        self.frames.push(Frame::default());
                        let mut need = false;
                        if self.s.flip() {
                            need = self.stmt(e, false);
                        }
                        if need {
                            self.let_stmt(e);
                        }
                        self.t("break ~;");
                        self.frames.pop();
                        self.t("}");
                        self.labels.pop();
                    }
                    _ => {
                        let t = self.int_ty();
                        self.t("for (");
                        let l = self.new_local(&t, LocalRole::For);
                        let p = self.def(l);
                        self.tighten(p);
                        self.t("in");
                        self.expr(&t, false, 1, 0);
                        self.t("~..");
                        self.expr(&t, true, 1, 0);
                        self.t("~)");
                        let mut fr = Frame::default();
                        fr.binds.push(Bind { ns: Ns::Value, name: self.sy(l).name.clone(), sym: l, via: None });
                        self.frames.push(fr);
                        self.labels.push(label);
                        self.block(&Ty::Unit, false, e, false);
                        self.labels.pop();
                        self.frames.pop();
                    }
                }
                self.semi(false)
            }
            // assert
            4 => {
                self.t("assert ~! ~(");
                let p = self.here();
                self.typed(&Ty::Bool, true, 0, e, "assert");
                self.tighten(p);
                if self.s.chance(3, 4) {
                    self.t("~,");
                    self.expr(&Ty::Int(0), true, 0, e.min(1));
                }
                self.t("~) ~;");
                false
            }
            // move_to
            5 => {
                let rs: Vec<SymId> = self
                    .resources()
                    .into_iter()
                    .filter(|r| self.sy(*r).fields.iter().all(|f| self.producible(&self.sy(*f).ty)))
                    .collect();
                let signer = Ty::rf(false, Ty::Signer);
                if rs.is_empty() || !self.producible(&signer) {
                    self.let_stmt(d);
                    return false;
                }
                let r = *self.s.pick(&rs);
                let f = self.b.move_to;
                self.path(f, Ns::Fun, Role::Call);
                let ex = self.s.flip();
                if ex {
                    self.type_args(&[Ty::Adt(r, vec![])]);
                }
                self.t("~(");
                let p = self.here();
                self.expr(&signer, true, 0, 0);
                self.tighten(p);
                self.t("~,");
                self.struct_lit(r, &[], ex, e);
                self.t("~) ~;");
                false
            }
            // break / continue under a condition
            6 if !self.labels.is_empty() => {
                let named: Vec<SymId> = {
                    // an inner label of the same name hides the outer one
                    let all: Vec<SymId> = self.labels.iter().flatten().copied().collect();
                    all.iter()
                        .enumerate()
                        .filter(|(i, l)| !all[i + 1..].iter().any(|m| self.sy(*m).name == self.sy(**l).name))
                        .map(|x| *x.1)
                        .collect()
                };
                self.t("if (");
                self.typed(&Ty::Bool, true, 0, e, "condition");
                self.t("~) {");
                let b = self.s.flip();
                self.t(if b { "break" } else { "continue" });
                if !named.is_empty() && self.s.flip() {
                    let l = *self.s.pick(&named);
                    self.occ(l, Role::Label);
                }
                self.t("~; }");
                self.semi(false)
            }
            // abort / return under a condition
            7 => {
                let ret = self.ret.clone();
                self.t("if (");
                self.typed(&Ty::Bool, true, 0, e, "condition");
                self.t("~) {");
                if self.s.flip() || !self.lambda_free() || !self.producible(&ret) || self.fun.is_none() {
                    self.t("abort");
                    self.expr(&Ty::Int(0), true, 1, 0);
                } else {
                    self.t("return");
                    if ret != Ty::Unit {
                        self.typed(&ret, true, 1, e, "return");
                    }
                }
                self.t("~; }");
                self.semi(false)
            }
            // a method for its effect
            8 => {
                let ls = self.locals();
                let mut v = vec![];
                for l in ls {
                    for (f, map) in self.methods_for(l, &Ty::Unit) {
                        if self.sy(f).ret == Ty::Unit {
                            v.push((l, f, map));
                        }
                    }
                }
                if v.is_empty() {
                    self.let_stmt(d);
                    return false;
                }
                let (l, f, map) = self.s.pick(&v).clone();
                let map = self.completed(f, map);
                if !self.params_ok(f, &map, 1) {
                    self.let_stmt(d);
                    return false;
                }
                self.method_call(l, f, &map, d);
                self.t("~;");
                false
            }
            // nested block
            9 => {
                self.block(&Ty::Unit, false, e, false);
                self.semi(false)
            }
            // destructuring assignment
            10 => {
                let ps: Vec<SymId> = self.places().into_iter().filter(|l| { let t = &self.sy(*l).ty; t.can_be_arg() && self.producible(t) }).collect();
                if ps.len() < 2 {
                    self.let_stmt(d);
                    return false;
                }
                let a = *self.s.pick(&ps);
                let b = *self.s.pick(&ps);
                if a == b {
                    self.let_stmt(d);
                    return false;
                }
                self.t("(");
                self.occ(a, Role::Value);
                self.t("~,");
                self.occ(b, Role::Value);
                self.t("~)");
                self.t("=");
                let t = Ty::Tuple(vec![self.sy(a).ty.clone(), self.sy(b).ty.clone()]);
                self.expr(&t, true, 0, e.min(1));
                self.t("~;");
                false
            }
            // match for its effect
            _ => {
                let ls: Vec<SymId> = self
                    .locals()
                    .into_iter()
                    .filter(|l| matches!(self.sy(*l).ty.strip(), Ty::Adt(a, _) if self.sy(*a).kind == Kind::Enum && self.sy(*a).module == Some(self.module)))
                    .collect();
                if ls.is_empty() {
                    self.let_stmt(d);
                    return false;
                }
                let l = *self.s.pick(&ls);
                self.match_expr(l, &Ty::Unit, true, 0, e);
                self.semi(false)
            }
        }
    }

    /// `S { a, b }` from the parameters of the constructor function
    pub fn maker_body(&mut self, f: SymId) {
        let Ty::Adt(a, args) = self.sy(f).ret.clone() else { unreachable!() };
        self.t("{");
        self.frames.push(Frame::default());
        self.fuel = 0;
        if self.sy(a).kind == Kind::Enum {
            let v = self.sy(a).variants[0];
            self.variant_lit(a, v, &args, true, 0);
        } else {
            self.struct_lit(a, &args, true, 0);
        }
        self.frames.pop();
        self.t("}");
    }
}
