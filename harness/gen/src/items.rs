use crate::*;

pub const LOCALS: [&str; 12] = ["a", "b", "c", "x", "y", "val", "item", "acc", "foo", "len", "z1", "_tmp"];
const FUNS: [&str; 12] = ["foo", "bar", "baz", "run", "calc", "get", "acc", "len", "f1", "f2", "do_it", "push"];
const CONSTS: [&str; 8] = ["E", "MAX", "LIMIT", "ONE", "ERR_A", "K1", "K2", "Z"];
const STRUCTS: [&str; 9] = ["S", "R", "Pair", "Coin", "Vault", "Node", "T", "U", "Box"];
const TPARAMS: [&str; 5] = ["T", "U", "K", "V", "Elem"];
const VARIANTS: [&str; 7] = ["Red", "Green", "Blue", "One", "Two", "Empty", "Full"];
const FIELDS: [&str; 9] = ["x", "y", "val", "f", "g", "inner", "count", "a", "acc"];
const MODULES: [&str; 8] = ["m", "n", "coin", "foo", "main", "utils", "m1", "m2"];
const ALIASES: [&str; 6] = ["al", "al2", "mm", "f9", "bar", "other"];
const TYPE_ALIASES: [&str; 5] = ["Al", "Al2", "Other", "S", "U"];

impl<'a> G<'a> {
    // ---------------------------------------------------------------- symbols
    pub fn new_sym(&mut self, kind: Kind, name: &str, parent: Option<SymId>) -> SymId {
        let module = match kind {
            Kind::Module => Some(self.w.syms.len()),
            _ => parent.and_then(|p| self.w.syms[p].module),
        };
        let pkg = parent.map(|p| self.w.syms[p].pkg).unwrap_or(0);
        self.w.syms.push(Sym {
            kind,
            name: name.to_string(),
            parent,
            module,
            pkg,
            ty: Ty::Unit,
            tparams: vec![],
            params: vec![],
            ret: Ty::Unit,
            fields: vec![],
            variants: vec![],
            tuple: false,
            unit_like: false,
            vis: Vis::Private,
            test_only: false,
            is_test: false,
            native: false,
            inline: false,
            entry: false,
            key: false,
            store: false,
            method: false,
            phantom: false,
            builtin: false,
            addr: 0,
            friends: vec![],
            target: None,
            aliased: false,
            role: LocalRole::None,
            def: None,
            doc: None,
            maker: None,
            extent: None,
            scope_end: None,
        });
        self.w.syms.len() - 1
    }
    pub fn sy(&self, id: SymId) -> &Sym {
        &self.w.syms[id]
    }
    pub fn sym(&mut self, id: SymId) -> &mut Sym {
        &mut self.w.syms[id]
    }
    /// an unused name from the pool
    pub fn fresh(&mut self, pool: &[&str], taken: &dyn Fn(&str) -> bool) -> String {
        let n = self.s.idx(pool.len());
        for k in 0..pool.len() {
            let c = pool[(n + k) % pool.len()];
            if !taken(c) {
                return c.to_string();
            }
        }
        let mut k = 3;
        loop {
            let c = format!("{}{}", pool[n], k);
            if !taken(&c) {
                return c;
            }
            k += 1;
        }
    }

    // ---------------------------------------------------------------- emission
    pub fn put(&mut self, text: &str, tight: bool) -> usize {
        let f = self.file;
        self.w.files[f].pieces.push(Piece { text: text.to_string(), tight, occ: None });
        self.w.files[f].pieces.len() - 1
    }
    /// tokens separated by blanks; a token starting with `~` is written tight
    pub fn t(&mut self, text: &str) {
        for tok in text.split(' ') {
            if tok.is_empty() {
                continue;
            }
            match tok.strip_prefix('~') {
                Some(x) if !x.is_empty() => self.put(x, true),
                _ => self.put(tok, false),
            };
        }
    }
    pub fn here(&self) -> usize {
        self.w.files[self.file].pieces.len()
    }
    pub fn def(&mut self, sym: SymId) -> usize {
        let name = self.sy(sym).name.clone();
        let p = self.put(&name, false);
        let f = self.file;
        self.w.syms[sym].def = Some((f, p));
        self.w.files[f].pieces[p].occ = Some(Occ { sym, def: true, also: None, via: None, role: Role::Def });
        p
    }
    pub fn occ(&mut self, sym: SymId, role: Role) -> usize {
        let name = self.sy(sym).name.clone();
        self.occ_as(sym, &name, role, None)
    }
    pub fn occ_as(&mut self, sym: SymId, name: &str, role: Role, via: Option<SymId>) -> usize {
        let p = self.put(name, false);
        let f = self.file;
        self.w.files[f].pieces[p].occ = Some(Occ { sym, def: false, also: None, via, role });
        p
    }
    pub fn tighten(&mut self, p: usize) {
        let f = self.file;
        self.w.files[f].pieces[p].tight = true;
    }

    // ---------------------------------------------------------------- the world
    pub fn run(&mut self) {
        self.builtin_syms();
        let std_pkg = self.o.std as usize;
        let npk = self.s.range(1, self.o.pkgs.max(1));
        if self.o.std {
            self.w.pkgs.push(Pkg { name: "Std".into(), deps: vec![], lib: true, addrs: vec![] });
        }
        for i in 0..npk {
            let mut deps = vec![];
            if self.o.std {
                deps.push(0);
            }
            for j in 0..i {
                if j + 1 == i || self.s.flip() {
                    deps.push(std_pkg + j);
                }
            }
            let lib = i + 1 < npk && self.s.chance(1, 3);
            self.w.pkgs.push(Pkg { name: format!("P{i}"), deps, lib, addrs: vec![] });
        }
        for p in self.w.pkgs.iter_mut() {
            p.addrs = ADDRS.iter().map(|(n, v)| (n.to_string(), v.to_string())).collect();
        }
        if self.o.std {
            self.std_sigs();
        }
        // modules, in dependency order
        for i in 0..npk {
            let n = self.s.range(1, self.o.modules.max(1));
            for _ in 0..n {
                self.module_sym(std_pkg + i);
            }
        }
        let mods = self.w.modules.clone();
        for m in mods.iter().copied() {
            if Some(m) != self.b.vector_module {
                self.module_sigs(m);
            }
        }
        // emission
        let mut k = 0;
        while k < mods.len() {
            let m = mods[k];
            let pkg = self.sy(m).pkg;
            let name = format!("/{}/sources/f{k}.move", self.w.pkgs[pkg].name);
            self.w.files.push(FileStream { pkg, path: name, pieces: vec![] });
            self.file = self.w.files.len() - 1;
            self.module(m);
            k += 1;
            while k < mods.len() && self.sy(mods[k]).pkg == pkg && self.s.chance(1, 4) {
                self.module(mods[k]);
                k += 1;
            }
            if self.o.scripts && self.s.chance(1, 10) {
                self.script(m);
            }
        }
        if self.o.specs {
            self.spec_files();
        }
    }

    fn builtin_syms(&mut self) {
        let m = self.new_sym(Kind::Module, "builtins", None);
        self.sym(m).builtin = true;
        let mk = |g: &mut Self, name: &str| {
            let f = g.new_sym(Kind::Fun, name, Some(m));
            g.sym(f).builtin = true;
            g.sym(f).vis = Vis::Public;
            f
        };
        self.b.move_from = mk(self, "move_from");
        self.b.move_to = mk(self, "move_to");
        self.b.borrow_global = mk(self, "borrow_global");
        self.b.borrow_global_mut = mk(self, "borrow_global_mut");
        self.b.exists = mk(self, "exists");
        self.b.freeze = mk(self, "freeze");
        let mkc = |g: &mut Self, name: &str, ty: Ty| {
            let f = g.new_sym(Kind::Const, name, Some(m));
            g.sym(f).builtin = true;
            g.sym(f).vis = Vis::Public;
            g.sym(f).ty = ty;
            f
        };
        self.b.max_u8 = mkc(self, "MAX_U8", Ty::Int(1));
        self.b.max_u64 = mkc(self, "MAX_U64", Ty::Int(0));
    }

    fn std_sigs(&mut self) {
        let m = self.new_sym(Kind::Module, "vector", None);
        self.sym(m).pkg = 0;
        self.b.vector_module = Some(m);
        self.w.modules.push(m);
        let mk = |g: &mut Self, name: &str, params: &[(&str, u8)], ret: u8| {
            let f = g.new_sym(Kind::Fun, name, Some(m));
            let e = g.new_sym(Kind::TypeParam, "Element", Some(f));
            let el = Ty::Param(e);
            let v = Ty::vec(el.clone());
            let dec = |k: u8| match k {
                0 => el.clone(),
                1 => v.clone(),
                2 => Ty::rf(false, v.clone()),
                3 => Ty::rf(true, v.clone()),
                4 => Ty::Int(0),
                5 => Ty::Bool,
                6 => Ty::rf(false, el.clone()),
                7 => Ty::rf(true, el.clone()),
                _ => Ty::Unit,
            };
            for (n, k) in params {
                let p = g.new_sym(Kind::Param, n, Some(f));
                g.sym(p).ty = dec(*k);
                g.sym(f).params.push(p);
            }
            let ret = dec(ret);
            let s = g.sym(f);
            s.tparams = vec![e];
            s.ret = ret;
            s.native = true;
            s.vis = Vis::Public;
            s.method = params.first().is_some_and(|p| p.0 == "self");
        };
        mk(self, "empty", &[], 1);
        mk(self, "length", &[("self", 2)], 4);
        mk(self, "is_empty", &[("self", 2)], 5);
        mk(self, "borrow", &[("self", 2), ("i", 4)], 6);
        mk(self, "borrow_mut", &[("self", 3), ("i", 4)], 7);
        mk(self, "push_back", &[("self", 3), ("e", 0)], 9);
        mk(self, "pop_back", &[("self", 3)], 0);
        mk(self, "contains", &[("self", 2), ("e", 6)], 5);
        mk(self, "append", &[("self", 3), ("other", 1)], 9);
        mk(self, "singleton", &[("e", 0)], 1);
    }

    fn module_sym(&mut self, pkg: usize) {
        let addr = self.s.weighted(&[3, 4, 2, 1]);
        let used: Vec<(usize, String)> =
            self.w.modules.iter().map(|m| (self.w.syms[*m].addr, self.w.syms[*m].name.clone())).collect();
        let name = self.fresh(&MODULES, &|n| used.iter().any(|(a, u)| *a == addr && u == n) || n == "vector");
        let m = self.new_sym(Kind::Module, &name, None);
        self.sym(m).pkg = pkg;
        self.sym(m).addr = addr;
        self.w.modules.push(m);
    }

    /// packages whose items package `p` sees: itself and its dependencies, transitively
    pub fn pkg_sees(&self, p: usize, q: usize) -> bool {
        p == q || self.w.pkgs[p].deps.iter().any(|d| self.pkg_sees(*d, q))
    }
    /// modules that come before `m` and that it may use
    pub fn usable_modules(&self, m: SymId) -> Vec<SymId> {
        let p = self.sy(m).pkg;
        self.w.modules.iter().copied().take_while(|x| *x != m).filter(|x| self.pkg_sees(p, self.sy(*x).pkg)).collect()
    }

    // ---------------------------------------------------------------- signatures
    /// a type for declared things; `tps`: type parameters in scope
    pub fn gen_ty(&mut self, m: SymId, tps: &[SymId], before: usize, depth: u32) -> Ty {
        let w = [6, 4, 2, if depth > 0 { 2 } else { 0 }, if depth > 0 { 5 } else { 0 }, if tps.is_empty() { 0 } else { 4 }];
        match self.s.weighted(&w) {
            0 => Ty::Int(self.s.weighted(&[8, 4, 2, 1, 1, 1, 1, 1, 0, 0, 0, 1]) as u8),
            1 => Ty::Bool,
            2 => Ty::Address,
            3 => Ty::vec(self.gen_ty(m, tps, before, depth - 1)),
            4 => {
                let mods = {
                    let mut v = self.usable_modules(m);
                    v.push(m);
                    v
                };
                let adts: Vec<SymId> = (0..before)
                    .filter(|i| {
                        let s = self.sy(*i);
                        matches!(s.kind, Kind::Struct | Kind::Enum)
                            && !s.key
                            && s.maker.is_some()
                            && s.module.is_some_and(|x| mods.contains(&x))
                    })
                    .collect();
                if adts.is_empty() {
                    return Ty::Int(0);
                }
                let a = *self.s.pick(&adts);
                let n = self.sy(a).tparams.len();
                let args = (0..n).map(|_| self.gen_ty(m, tps, before, depth - 1)).collect();
                Ty::Adt(a, args)
            }
            _ => Ty::Param(*self.s.pick(tps)),
        }
    }

    fn gen_tparams(&mut self, owner: SymId, max: usize, for_struct: bool) -> Vec<SymId> {
        let n = if self.s.chance(1, 3) { self.s.range(1, max) } else { 0 };
        let mut v: Vec<SymId> = vec![];
        for _ in 0..n {
            let used: Vec<String> = v.iter().map(|i| self.sy(*i).name.clone()).collect();
            let name = self.fresh(&TPARAMS, &|n| used.iter().any(|u| u == n));
            let t = self.new_sym(Kind::TypeParam, &name, Some(owner));
            self.sym(t).phantom = for_struct && self.s.chance(1, 4);
            v.push(t);
        }
        v
    }

    fn gen_fields(&mut self, m: SymId, owner: SymId, tps: &[SymId], before: usize, tuple: bool, min: usize) -> Vec<SymId> {
        let n = self.s.range(min, 3);
        let mut v: Vec<SymId> = vec![];
        let tps: Vec<SymId> = tps.iter().copied().filter(|t| !self.sy(*t).phantom).collect();
        for i in 0..n {
            let used: Vec<String> = v.iter().map(|i| self.sy(*i).name.clone()).collect();
            let name = if tuple { format!("{i}") } else { self.fresh(&FIELDS, &|n| used.iter().any(|u| u == n)) };
            let f = self.new_sym(Kind::Field, &name, Some(owner));
            let ty = self.gen_ty(m, &tps, before, 1);
            self.sym(f).ty = ty;
            v.push(f);
        }
        v
    }

    fn module_sigs(&mut self, m: SymId) {
        // friends
        let later: Vec<SymId> = self
            .w
            .modules
            .iter()
            .copied()
            .skip_while(|x| *x != m)
            .skip(1)
            .filter(|x| self.sy(*x).pkg == self.sy(m).pkg)
            .collect();
        for l in later {
            if self.s.chance(1, 3) {
                self.sym(m).friends.push(l);
            }
        }
        for _ in 0..self.s.small(3) {
            self.struct_sig(m);
        }
        for _ in 0..self.s.small(2) {
            let name = self.module_name(m, &CONSTS);
            let c = self.new_sym(Kind::Const, &name, Some(m));
            let ty = match self.s.weighted(&[5, 2, 1, 1]) {
                0 => Ty::Int(self.s.weighted(&[6, 2, 1, 1, 0, 0, 1]) as u8),
                1 => Ty::Bool,
                2 => Ty::Address,
                _ => Ty::vec(Ty::Int(1)),
            };
            let to = self.o.tests && self.s.chance(1, 10);
            let s = self.sym(c);
            s.ty = ty;
            s.test_only = to;
        }
        for _ in 0..self.s.range(1, 4) {
            self.fun_sig(m);
        }
    }

    fn module_name(&mut self, m: SymId, pool: &[&str]) -> String {
        let taken: Vec<String> =
            self.w.syms.iter().filter(|s| s.parent == Some(m)).map(|s| s.name.clone()).collect();
        self.fresh(pool, &|n| taken.iter().any(|t| t == n))
    }

    /// everything stored in a storable type is storable
    fn mark_store(&mut self, ty: &Ty) {
        match ty {
            Ty::Adt(a, args) => {
                let s = self.sy(*a).clone();
                if !s.key {
                    self.sym(*a).store = true;
                }
                let mut fs = s.fields.clone();
                for v in &s.variants {
                    fs.extend(self.sy(*v).fields.clone());
                }
                for f in fs {
                    let t = self.sy(f).ty.clone();
                    self.mark_store(&t);
                }
                for t in args {
                    self.mark_store(t);
                }
            }
            Ty::Vec(t) => self.mark_store(t),
            _ => {}
        }
    }

    fn struct_sig(&mut self, m: SymId) {
        let name = self.module_name(m, &STRUCTS);
        let is_enum = self.s.chance(1, 3);
        let before = self.w.syms.len();
        let a = self.new_sym(if is_enum { Kind::Enum } else { Kind::Struct }, &name, Some(m));
        let key = !is_enum && self.s.chance(1, 3);
        let tps = if key { vec![] } else { self.gen_tparams(a, 2, !is_enum) };
        self.sym(a).tparams = tps.clone();
        self.sym(a).store = self.s.flip();
        self.sym(a).key = key;
        if is_enum {
            let n = self.s.range(1, 3);
            let mut vs: Vec<SymId> = vec![];
            for _ in 0..n {
                let used: Vec<String> = vs.iter().map(|i| self.sy(*i).name.clone()).collect();
                let vn = self.fresh(&VARIANTS, &|n| used.iter().any(|u| u == n));
                let v = self.new_sym(Kind::Variant, &vn, Some(a));
                match self.s.weighted(&[2, 3, 2]) {
                    0 => self.sym(v).unit_like = true,
                    1 => {
                        let f = self.gen_fields(m, v, &tps, before, false, 1);
                        self.sym(v).fields = f;
                    }
                    _ => {
                        let f = self.gen_fields(m, v, &tps, before, true, 1);
                        self.sym(v).fields = f;
                        self.sym(v).tuple = true;
                    }
                }
                vs.push(v);
            }
            self.sym(a).variants = vs;
        } else {
            let tuple = !key && self.s.chance(1, 5);
            let min = if tuple { 1 } else { 0 };
            let f = self.gen_fields(m, a, &tps, before, tuple, min);
            self.sym(a).fields = f;
            self.sym(a).tuple = tuple;
        }
        if key || self.sy(a).store {
            self.mark_store(&Ty::Adt(a, vec![]));
        }
        if !key {
            // the public constructor
            let fname = self.module_name(m, &[&format!("make_{name}")]);
            let f = self.new_sym(Kind::Fun, &fname, Some(m));
            let own: Vec<SymId> = tps
                .iter()
                .map(|t| {
                    let n = self.sy(*t).name.clone();
                    self.new_sym(Kind::TypeParam, &n, Some(f))
                })
                .collect();
            let map: Vec<(SymId, Ty)> = tps.iter().zip(&own).map(|(a, b)| (*a, Ty::Param(*b))).collect();
            let fields = if is_enum { self.sy(self.sy(a).variants[0]).fields.clone() } else { self.sy(a).fields.clone() };
            let mut ps = vec![];
            for fi in fields {
                let n = self.sy(fi).name.clone();
                let n = if n.starts_with(|c: char| c.is_ascii_digit()) { format!("p{n}") } else { n };
                let p = self.new_sym(Kind::Param, &n, Some(f));
                let ty = self.sy(fi).ty.subst(&map);
                self.sym(p).ty = ty;
                ps.push(p);
            }
            let s = self.sym(f);
            s.params = ps;
            s.ret = Ty::Adt(a, own.iter().map(|t| Ty::Param(*t)).collect());
            s.tparams = own;
            s.vis = Vis::Public;
            s.maker = Some(a);
            self.sym(a).maker = Some(f);
        }
    }

    fn fun_sig(&mut self, m: SymId) {
        let name = self.module_name(m, &FUNS);
        let f = self.new_sym(Kind::Fun, &name, Some(m));
        let before = self.w.syms.len();
        let is_test = self.o.tests && self.s.chance(1, 8);
        if is_test {
            let s = self.sym(f);
            s.is_test = true;
            return;
        }
        let to = self.o.tests && self.s.chance(1, 10);
        let vis = if self.sy(m).friends.is_empty() {
            match self.s.weighted(&[3, 4, 2]) {
                0 => Vis::Private,
                1 => Vis::Public,
                _ => Vis::Package,
            }
        } else {
            match self.s.weighted(&[2, 3, 4]) {
                0 => Vis::Private,
                1 => Vis::Public,
                _ => Vis::Friend,
            }
        };
        let tps = self.gen_tparams(f, 2, false);
        let inline = self.s.chance(1, 10);
        let mut ps: Vec<SymId> = vec![];
        // receiver-style function
        let own: Vec<SymId> = (0..before)
            .filter(|i| {
                let s = self.sy(*i);
                matches!(s.kind, Kind::Struct | Kind::Enum) && s.module == Some(m) && (s.maker.is_some())
            })
            .collect();
        if !own.is_empty() && self.s.chance(1, 3) {
            let a = *self.s.pick(&own);
            let n = self.sy(a).tparams.len();
            let args = (0..n).map(|_| self.gen_ty(m, &tps, before, 0)).collect();
            let t = Ty::Adt(a, args);
            let t = match self.s.below(3) {
                0 => t,
                1 => Ty::rf(false, t),
                _ => Ty::rf(true, t),
            };
            let p = self.new_sym(Kind::Param, "self", Some(f));
            self.sym(p).ty = t;
            ps.push(p);
            self.sym(f).method = true;
        }
        for tp in &tps {
            // a generic function can only make a T from a T
            let used: Vec<String> = ps.iter().map(|i| self.sy(*i).name.clone()).collect();
            let n = self.fresh(&LOCALS[..11], &|n| used.iter().any(|u| u == n));
            let p = self.new_sym(Kind::Param, &n, Some(f));
            self.sym(p).ty = Ty::Param(*tp);
            ps.push(p);
        }
        let n = self.s.small(3);
        for _ in 0..n {
            let used: Vec<String> = ps.iter().map(|i| self.sy(*i).name.clone()).collect();
            let n = self.fresh(&LOCALS, &|n| used.iter().any(|u| u == n));
            let p = self.new_sym(Kind::Param, &n, Some(f));
            let t = if self.s.chance(1, 12) {
                if self.s.flip() { Ty::Signer } else { Ty::rf(false, Ty::Signer) }
            } else if inline && self.s.chance(1, 2) {
                let k = self.s.range(0, 2);
                let args = (0..k).map(|_| self.gen_ty(m, &tps, before, 0)).collect();
                let r = if self.s.chance(1, 4) { Ty::Unit } else { self.gen_ty(m, &tps, before, 0) };
                Ty::Fun(args, Box::new(r))
            } else {
                let t = self.gen_ty(m, &tps, before, 2);
                match self.s.weighted(&[5, 1, 1]) {
                    0 => t,
                    1 => Ty::rf(false, t),
                    _ => Ty::rf(true, t),
                }
            };
            self.sym(p).ty = t;
            ps.push(p);
        }
        let ret = match self.s.weighted(&[3, 6, 1]) {
            0 => Ty::Unit,
            1 => self.gen_ty(m, &tps, before, 2),
            _ => {
                let a = self.gen_ty(m, &tps, before, 1);
                let b = self.gen_ty(m, &tps, before, 1);
                Ty::Tuple(vec![a, b])
            }
        };
        let entry = !inline && ret == Ty::Unit && self.s.chance(1, 6);
        let s = self.sym(f);
        s.tparams = tps;
        s.params = ps;
        s.ret = ret;
        s.vis = vis;
        s.test_only = to;
        s.inline = inline;
        s.entry = entry;
    }

    // ---------------------------------------------------------------- module emission
    pub fn docs(&mut self) -> Option<String> {
        if !self.o.docs || !self.s.chance(1, 5) {
            return None;
        }
        let n = self.s.range(1, 2);
        let mut v = vec![];
        for _ in 0..n {
            let l = (*self.s.pick(&["plain words", "it's `x + y`", "fun foo() {}", "ünïcode: 名前", "# Head"])).to_string();
            self.put(&format!("/// {l}"), false);
            v.push(l);
        }
        Some(v.join("\n"))
    }

    pub fn addr(&mut self, a: usize) {
        let (n, v) = ADDRS[a];
        if v == "_" || self.s.flip() {
            self.t(n);
        } else {
            let alts: Vec<String> = match v {
                "0x1" => vec!["0x1".into(), "0x01".into(), "0x0001".into()],
                v => vec![v.to_string(), v.to_string(), v.replacen("0x", "0x00", 1)],
            };
            let x = self.s.pick(&alts).clone();
            self.t(&x);
        }
    }

    pub fn module(&mut self, m: SymId) {
        self.module = m;
        self.frames.clear();
        self.in_test = false;
        let d = self.docs();
        self.sym(m).doc = d;
        let a = self.sy(m).addr;
        let ext = self.here();
        if self.s.chance(1, 12) {
            self.t("address");
            self.addr(a);
            self.t("{ module");
            self.def(m);
            self.t("{");
            self.module_body(m);
            self.t("} }");
        } else {
            self.t("module");
            self.addr(a);
            self.t("::");
            self.def(m);
            self.t("{");
            self.module_body(m);
            self.t("}");
        }
        let to = self.here();
        let f = self.file;
        self.sym(m).extent = Some((f, ext, to));
    }

    /// frame of the module's own items
    pub fn module_frame(&self, m: SymId) -> Frame {
        let mut fr = Frame::default();
        for (i, s) in self.w.syms.iter().enumerate() {
            if s.parent != Some(m) {
                continue;
            }
            let ns = match s.kind {
                Kind::Fun | Kind::SpecFun => Ns::Fun,
                Kind::Struct | Kind::Enum => Ns::Type,
                Kind::Const | Kind::GlobalVar => Ns::Value,
                Kind::Schema => Ns::Schema,
                _ => continue,
            };
            fr.binds.push(Bind { ns, name: s.name.clone(), sym: i, via: None });
        }
        fr
    }
    pub fn builtin_frame(&self) -> Frame {
        let mut fr = Frame::default();
        for (i, s) in self.w.syms.iter().enumerate() {
            if s.builtin && s.kind != Kind::Module {
                let ns = if s.kind == Kind::Fun { Ns::Fun } else { Ns::Value };
                fr.binds.push(Bind { ns, name: s.name.clone(), sym: i, via: None });
            }
        }
        fr
    }

    fn module_body(&mut self, m: SymId) {
        let bf = self.builtin_frame();
        let fr = self.module_frame(m);
        self.frames = vec![bf, fr];
        let friends = self.sy(m).friends.clone();
        for f in friends {
            let a = self.sy(f).addr;
            self.t("friend");
            self.addr(a);
            self.t("::");
            self.occ(f, Role::Friend);
            self.t(";");
        }
        if Some(m) != self.b.vector_module {
            self.uses(m, false);
        }
        // items in random order
        let mut items: Vec<SymId> = self
            .w
            .syms
            .iter()
            .enumerate()
            .filter(|(_, s)| {
                s.parent == Some(m) && matches!(s.kind, Kind::Fun | Kind::Struct | Kind::Enum | Kind::Const)
            })
            .map(|x| x.0)
            .collect();
        let shuffle = self.s.flip();
        if shuffle {
            for i in (1..items.len()).rev() {
                let j = self.s.idx(i + 1);
                items.swap(i, j);
            }
        }
        if self.o.specs && Some(m) != self.b.vector_module {
            self.spec_sigs(m);
        }
        for it in items {
            match self.sy(it).kind {
                Kind::Fun => self.fun(it),
                Kind::Const => self.konst(it),
                _ => self.adt(it),
            }
            if self.o.specs && Some(m) != self.b.vector_module {
                self.spec_after_item(it);
            }
        }
        if self.o.specs && Some(m) != self.b.vector_module {
            self.spec_end_of_module(m);
        }
    }

    pub fn item_ns(&self, it: SymId) -> Ns {
        match self.sy(it).kind {
            Kind::Fun | Kind::SpecFun => Ns::Fun,
            Kind::Struct | Kind::Enum => Ns::Type,
            Kind::Module => Ns::Mod,
            Kind::Schema => Ns::Schema,
            _ => Ns::Value,
        }
    }

    /// may code of module `from` name the item `it`?
    pub fn visible(&self, it: SymId, from: SymId) -> bool {
        let s = self.sy(it);
        if s.builtin {
            return true;
        }
        let Some(m) = s.module else { return false };
        if s.is_test || s.test_only && !self.in_test {
            return false;
        }
        if m == from {
            return true;
        }
        if !self.pkg_sees(self.sy(from).pkg, self.sy(m).pkg) {
            return false;
        }
        match s.kind {
            Kind::Struct | Kind::Enum => true,
            Kind::Fun => match s.vis {
                Vis::Private => false,
                Vis::Public => true,
                Vis::Friend => self.sy(m).friends.contains(&from),
                Vis::Package => s.pkg == self.sy(from).pkg,
            },
            Kind::SpecFun | Kind::Schema => self.msl,
            _ => false,
        }
    }

    fn ns_of_name_taken(&self, frame: usize, name: &str) -> bool {
        self.frames[frame].binds.iter().any(|b| b.name == name)
    }

    /// `use` statements into the innermost frame; returns whether any was written
    pub fn uses(&mut self, m: SymId, block: bool) {
        let mods = self.usable_modules(m);
        if mods.is_empty() {
            return;
        }
        let n = if block { self.s.small(2) } else { self.s.range(0, 3) };
        for _ in 0..n {
            let t = *self.s.pick(&mods);
            let test = !block && self.o.tests && self.s.chance(1, 8);
            self.use_stmt(m, t, test);
        }
    }

    fn bind_import(&mut self, name: &str, target: SymId, aliased: bool, test: bool, ns: Ns) -> SymId {
        let m = self.module;
        let i = self.new_sym(Kind::Import, name, Some(m));
        let s = self.sym(i);
        s.target = Some(target);
        s.aliased = aliased;
        s.test_only = test;
        let b = Bind { ns, name: name.to_string(), sym: target, via: Some(i) };
        self.frames.last_mut().unwrap().binds.push(b);
        i
    }

    /// the name an import binds, or None when nothing free is left
    fn import_name(&mut self, target: SymId) -> Option<(String, bool)> {
        let fr = self.frames.len() - 1;
        let own = self.sy(target).name.clone();
        let alias = self.s.chance(1, 4);
        if !alias && !self.ns_of_name_taken(fr, &own) {
            return Some((own, false));
        }
        for _ in 0..4 {
            let types = self.item_ns(target) == Ns::Type;
            let a = if types { *self.s.pick(&TYPE_ALIASES) } else { *self.s.pick(&ALIASES) }.to_string();
            if !self.ns_of_name_taken(fr, &a) && a != own {
                return Some((a, true));
            }
        }
        None
    }

    fn use_stmt(&mut self, m: SymId, t: SymId, test: bool) {
        // what can be imported
        let was = self.in_test;
        self.in_test = test;
        let items: Vec<SymId> = (0..self.w.syms.len())
            .filter(|i| {
                self.sy(*i).parent == Some(t)
                    && matches!(self.sy(*i).kind, Kind::Fun | Kind::Struct | Kind::Enum)
                    && self.visible(*i, m)
            })
            .collect();
        self.in_test = was;
        let form = if items.is_empty() { 0 } else { self.s.weighted(&[4, 3, 3, 1]) };
        // decide first, write later
        let mut parts: Vec<(SymId, String, bool)> = vec![];
        let n = match form {
            2 => self.s.range(1, 3),
            _ => 1,
        };
        for k in 0..n {
            let target = match form {
                0 | 3 => t,
                1 => *self.s.pick(&items),
                _ => {
                    if k == 0 && self.s.flip() {
                        t
                    } else {
                        *self.s.pick(&items)
                    }
                }
            };
            // a second import of the same thing in one scope is left out
            let fr = self.frames.len() - 1;
            if self.frames[fr].binds.iter().any(|b| b.sym == target && b.via.is_some()) || parts.iter().any(|p| p.0 == target) {
                continue;
            }
            let Some((name, al)) = self.import_name(target) else { continue };
            if parts.iter().any(|p| p.1 == name) {
                continue;
            }
            parts.push((target, name, al));
        }
        if parts.is_empty() {
            return;
        }
        if test {
            self.t("# ~[ ~test_only ~]");
        }
        self.t("use");
        let a = self.sy(t).addr;
        self.addr(a);
        self.t("::");
        let group = form == 2;
        let write_alias = |g: &mut Self, imp: SymId, al: bool| {
            if al {
                g.t("as");
                g.def(imp);
            }
        };
        if form == 0 {
            let (target, name, al) = parts[0].clone();
            let imp = self.bind_import(&name, target, al, test, Ns::Mod);
            let p = self.here();
            self.occ(t, Role::UseSpeck);
            if !al {
                let f = self.file;
                self.sym(imp).def = Some((f, p));
            }
            write_alias(self, imp, al);
        } else {
            self.occ(t, Role::UseSpeck);
            self.t("::");
            if group {
                self.t("{");
            }
            let n = parts.len();
            for (k, (target, name, al)) in parts.into_iter().enumerate() {
                let ns = self.item_ns(target);
                let imp = self.bind_import(&name, target, al, test, ns);
                let p = self.here();
                if target == t {
                    self.occ_as(t, "Self", Role::UseSpeck, None);
                } else {
                    self.occ(target, Role::UseSpeck);
                }
                if !al {
                    let f = self.file;
                    self.sym(imp).def = Some((f, p));
                }
                write_alias(self, imp, al);
                if group && (k + 1 < n || self.s.chance(1, 4)) {
                    self.t(",");
                }
            }
            if group {
                self.t("}");
            }
        }
        self.t(";");
    }

    // ---------------------------------------------------------------- items
    fn tparam_list(&mut self, tps: &[SymId], abilities: &str) {
        if tps.is_empty() {
            return;
        }
        self.t("~<");
        for (k, t) in tps.iter().enumerate() {
            if k > 0 {
                self.t(",");
            }
            if self.sy(*t).phantom {
                self.t("phantom");
            }
            self.def(*t);
            if k == 0 {
                let p = self.here() - 1;
                if !self.sy(*t).phantom {
                    self.tighten(p);
                }
            }
            if !abilities.is_empty() {
                self.t(&format!("~: {abilities}"));
            }
        }
        self.t("~>");
    }

    pub fn type_frame(&self, tps: &[SymId]) -> Frame {
        let mut fr = Frame::default();
        for t in tps {
            fr.binds.push(Bind { ns: Ns::Type, name: self.sy(*t).name.clone(), sym: *t, via: None });
        }
        fr
    }

    fn field_decls(&mut self, fields: &[SymId], tuple: bool) {
        let n = fields.len();
        for (k, f) in fields.iter().enumerate() {
            if !tuple {
                let d = self.docs();
                self.sym(*f).doc = d;
                self.def(*f);
                self.t("~:");
            }
            let ty = self.sy(*f).ty.clone();
            self.ty(&ty);
            if k + 1 < n || !tuple && self.s.flip() {
                self.t("~,");
            }
        }
    }

    fn adt(&mut self, a: SymId) {
        let d = self.docs();
        self.sym(a).doc = d;
        let ext = self.here();
        let s = self.sy(a).clone();
        let abilities = if s.key {
            if s.store { "key, store" } else { "key" }
        } else if s.store {
            "copy, drop, store"
        } else {
            "copy, drop"
        };
        let abilities = abilities.replace(", ", " ~, ");
        let postfix = !s.key && s.kind == Kind::Struct && self.s.chance(1, 4) || s.tuple;
        self.t(if s.kind == Kind::Enum { "enum" } else { "struct" });
        self.def(a);
        self.tparam_list(&s.tparams, if s.key { "" } else { "copy + drop" });
        let fr = self.type_frame(&s.tparams);
        self.frames.push(fr);
        if !postfix {
            self.t(&format!("has {abilities}"));
        }
        if s.kind == Kind::Enum {
            self.t("{");
            let n = s.variants.len();
            for (k, v) in s.variants.iter().enumerate() {
                let d = self.docs();
                self.sym(*v).doc = d;
                self.def(*v);
                let vs = self.sy(*v).clone();
                if vs.tuple {
                    self.t("~(");
                    self.field_decls(&vs.fields, true);
                    self.t("~)");
                } else if !vs.unit_like {
                    self.t("{");
                    self.field_decls(&vs.fields, false);
                    self.t("}");
                }
                if k + 1 < n || self.s.flip() {
                    self.t("~,");
                }
            }
            self.t("}");
        } else if s.tuple {
            self.t("~(");
            self.field_decls(&s.fields, true);
            self.t("~)");
        } else {
            self.t("{");
            self.field_decls(&s.fields, false);
            self.t("}");
        }
        if postfix {
            self.t(&format!("has {abilities} ~;"));
        }
        self.frames.pop();
        let to = self.here();
        let f = self.file;
        self.sym(a).extent = Some((f, ext, to));
    }

    fn konst(&mut self, c: SymId) {
        let d = self.docs();
        self.sym(c).doc = d;
        if self.sy(c).test_only {
            self.t("# ~[ ~test_only ~]");
        }
        let ext = self.here();
        self.t("const");
        self.def(c);
        self.t("~:");
        let ty = self.sy(c).ty.clone();
        self.ty(&ty);
        self.t("=");
        let was = self.fuel;
        self.fuel = 0;
        self.lit(&ty, false);
        self.fuel = was;
        self.t("~;");
        let to = self.here();
        let f = self.file;
        self.sym(c).extent = Some((f, ext, to));
    }

    fn fun(&mut self, f: SymId) {
        let d = self.docs();
        self.sym(f).doc = d;
        let s = self.sy(f).clone();
        if s.is_test {
            self.t("# ~[ ~test ~]");
        } else if s.test_only {
            self.t("# ~[ ~test_only ~]");
        } else if s.vis == Vis::Public && s.params.is_empty() && self.s.chance(1, 8) {
            self.t("# ~[ ~view ~]");
        }
        let ext = self.here();
        match s.vis {
            Vis::Private => {}
            Vis::Public => self.t("public"),
            Vis::Friend => {
                if self.s.chance(1, 3) {
                    self.t("friend")
                } else {
                    self.t("public ~( ~friend ~)")
                }
            }
            Vis::Package => {
                if self.s.chance(1, 3) {
                    self.t("package")
                } else {
                    self.t("public ~( ~package ~)")
                }
            }
        }
        if s.entry {
            self.t("entry");
        }
        if s.inline {
            self.t("inline");
        }
        if s.native {
            self.t("native");
        }
        self.t("fun");
        self.def(f);
        self.tparam_list(&s.tparams, if s.native { "" } else { "copy + drop" });
        let fr = self.type_frame(&s.tparams);
        self.frames.push(fr);
        self.t("~(");
        let n = s.params.len();
        for (k, p) in s.params.iter().enumerate() {
            self.def(*p);
            self.t("~:");
            let ty = self.sy(*p).ty.clone();
            self.ty(&ty);
            if k + 1 < n || self.s.chance(1, 8) {
                self.t("~,");
            }
        }
        self.t("~)");
        if s.ret != Ty::Unit {
            self.t("~:");
            self.ty(&s.ret);
        }
        if s.native {
            self.t("~;");
        } else {
            let mut fr = Frame::default();
            for p in &s.params {
                fr.binds.push(Bind { ns: Ns::Value, name: self.sy(*p).name.clone(), sym: *p, via: None });
            }
            self.frames.push(fr);
            self.fun = Some(f);
            self.ret = s.ret.clone();
            self.labels.clear();
            self.in_test = s.is_test || s.test_only;
            self.fuel = 60;
            if s.maker.is_some() {
                self.maker_body(f);
            } else {
                let d = self.o.depth;
                self.block(&s.ret, false, d, true);
            }
            self.in_test = false;
            self.fun = None;
            self.frames.pop();
        }
        self.frames.pop();
        let to = self.here();
        let fi = self.file;
        self.sym(f).extent = Some((fi, ext, to));
    }

    fn script(&mut self, m: SymId) {
        // a script sees like a module that comes after every module of its package
        let pkg = self.sy(m).pkg;
        let last = *self.w.modules.iter().rev().find(|x| self.sy(**x).pkg == pkg).unwrap();
        let host = self.new_sym(Kind::Module, "script", None);
        self.sym(host).pkg = pkg;
        self.sym(host).addr = usize::MAX;
        let pos = self.w.modules.iter().position(|x| *x == last).unwrap();
        self.w.modules.insert(pos + 1, host);
        self.module = host;
        let bf = self.builtin_frame();
        self.frames = vec![bf, Frame::default()];
        self.t("script {");
        self.uses(host, false);
        let f = self.new_sym(Kind::Fun, "main", Some(host));
        if self.s.flip() {
            let p = self.new_sym(Kind::Param, "acc", Some(f));
            self.sym(p).ty = Ty::rf(false, Ty::Signer);
            self.sym(f).params = vec![p];
        }
        self.fun(f);
        self.t("}");
        self.w.modules.remove(pos + 1);
    }
}
