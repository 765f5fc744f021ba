//! Stand-in for salsa 0.27: demand-driven incremental recomputation with revisions, durabilities,
//! dependency recording, shallow/deep verification, backdating, interning and cancellation.
//!
//! Same observable contract as the real crate for what the tree under test uses. Differences: two threads may
//! compute the same query twice instead of one waiting; interned values and memos are never evicted.
pub use salsa_macros::{db, input, interned, tracked};

use std::fmt;
use std::panic::{self, UnwindSafe};

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Durability(u8);
impl Durability {
    pub const LOW: Durability = Durability(0);
    pub const MEDIUM: Durability = Durability(1);
    pub const HIGH: Durability = Durability(2);
    const IMMUTABLE: Durability = Durability(3);
    pub const MIN: Durability = Self::LOW;
    pub const MAX: Durability = Self::HIGH;
}
impl Default for Durability {
    fn default() -> Self {
        Durability::LOW
    }
}

/// The panic payload with which queries of a stale snapshot unwind.
#[derive(Debug)]
#[non_exhaustive]
pub enum Cancelled {
    PendingWrite,
    PropagatedPanic,
}
impl Cancelled {
    fn throw() -> ! {
        panic::resume_unwind(Box::new(Cancelled::PendingWrite))
    }
    pub fn catch<F, T>(f: F) -> Result<T, Cancelled>
    where
        F: FnOnce() -> T + UnwindSafe,
    {
        match panic::catch_unwind(f) {
            Ok(t) => Ok(t),
            Err(payload) => match payload.downcast() {
                Ok(cancelled) => Err(*cancelled),
                Err(payload) => panic::resume_unwind(payload),
            },
        }
    }
}
impl fmt::Display for Cancelled {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let why = match self {
            Cancelled::PendingWrite => "pending write",
            Cancelled::PropagatedPanic => "propagated panic",
        };
        f.write_str("cancelled because of ")?;
        f.write_str(why)
    }
}
impl std::error::Error for Cancelled {}

pub struct Backtrace;
impl Backtrace {
    pub fn capture() -> Option<Self> {
        None
    }
}
impl fmt::Display for Backtrace {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}

pub trait Database: plumbing::ZalsaDatabase {
    /// Starts a new revision as if an input of this durability had changed; cancels and waits for all snapshots.
    fn synthetic_write(&mut self, durability: Durability) {
        let h = self.__storage_mut();
        h.new_revision();
        h.report_tracked_write(durability);
    }
    fn unwind_if_revision_cancelled(&self) {
        self.__storage().unwind_if_cancelled();
    }
    fn trigger_cancellation(&mut self) {
        self.__storage_mut().cancel_others();
    }
}

pub trait Setter: Sized {
    type FieldTy;
    fn with_durability(self, durability: Durability) -> Self;
    fn to(self, value: Self::FieldTy) -> Self::FieldTy
    where
        Self::FieldTy: Clone;
}

pub struct Storage<Db> {
    handle: plumbing::Handle,
    _p: std::marker::PhantomData<fn() -> Db>,
}
impl<Db> Default for Storage<Db> {
    fn default() -> Self {
        Storage { handle: plumbing::Handle::new(), _p: std::marker::PhantomData }
    }
}
impl<Db> Clone for Storage<Db> {
    fn clone(&self) -> Self {
        Storage { handle: self.handle.clone(), _p: std::marker::PhantomData }
    }
}
impl<Db> Storage<Db> {
    #[doc(hidden)]
    pub fn __handle(&self) -> &plumbing::Handle {
        &self.handle
    }
    #[doc(hidden)]
    pub fn __handle_mut(&mut self) -> &mut plumbing::Handle {
        &mut self.handle
    }
}

pub mod plumbing {
    use crate::{Cancelled, Durability, Setter};
    use parking_lot::{Condvar, Mutex, RwLock};
    use rustc_hash::{FxHashMap, FxHashSet};
    use std::any::Any;
    use std::cell::RefCell;
    use std::hash::Hash;
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
    use std::sync::{Arc, OnceLock};

    pub trait ZalsaDatabase: Send + 'static {
        fn __storage(&self) -> &Handle;
        fn __storage_mut(&mut self) -> &mut Handle;
    }
    pub trait KeyPart: Sized {
        type Erased: Clone + Eq + Hash + Send + Sync + 'static;
        fn __erase(self) -> Self::Erased;
        fn __restore(e: Self::Erased) -> Self;
    }
    impl KeyPart for bool {
        type Erased = bool;
        fn __erase(self) -> bool {
            self
        }
        fn __restore(e: bool) -> Self {
            e
        }
    }
    pub trait InputStruct: 'static {
        type Fields: Send + Sync + 'static;
        const N: usize;
        fn __index() -> usize;
    }
    pub trait InternedStruct: 'static {
        type Fields: Clone + Eq + Hash + Send + Sync + 'static;
        fn __index() -> usize;
    }
    pub trait Function: 'static {
        type Db: ?Sized + 'static;
        type Key: Clone + Eq + Hash + Send + Sync + 'static;
        type Output: PartialEq + Send + Sync + 'static;
        const NAME: &'static str;
        fn __index() -> usize;
        fn execute(db: &Self::Db, key: Self::Key) -> Self::Output;
    }

    static NEXT: AtomicUsize = AtomicUsize::new(0);
    pub fn next_index() -> usize {
        NEXT.fetch_add(1, SeqCst)
    }
    const MAX_INGREDIENTS: usize = 256;

    struct Shared {
        tables: Vec<OnceLock<Box<dyn Any + Send + Sync>>>,
        current: AtomicU64,
        /// `last_changed[d]`: the last revision in which an input of durability >= d changed.
        last_changed: [AtomicU64; 3],
        cancelled: AtomicBool,
        live: Mutex<usize>,
        dropped: Condvar,
        garbage: Mutex<Vec<Arc<dyn Any + Send + Sync>>>,
        executions: AtomicU64,
        validations: AtomicU64,
    }
    impl Shared {
        fn table<T: Default + Send + Sync + 'static>(&self, index: usize) -> &T {
            self.tables[index].get_or_init(|| Box::<T>::default()).downcast_ref().expect("ingredient type")
        }
        fn last_changed(&self, d: Durability) -> u64 {
            match d.0 {
                0 => self.current.load(SeqCst),
                3 => 0,
                i => self.last_changed[i as usize].load(SeqCst),
            }
        }
    }

    pub struct Handle {
        shared: Arc<Shared>,
    }
    impl Clone for Handle {
        fn clone(&self) -> Self {
            *self.shared.live.lock() += 1;
            Handle { shared: self.shared.clone() }
        }
    }
    impl Drop for Handle {
        fn drop(&mut self) {
            *self.shared.live.lock() -= 1;
            self.shared.dropped.notify_all();
        }
    }

    struct InputData<F> {
        fields: RwLock<F>,
        stamps: Arc<Mutex<Vec<(u64, Durability)>>>,
    }
    struct InputTable<F>(RwLock<Vec<Arc<InputData<F>>>>);
    impl<F> Default for InputTable<F> {
        fn default() -> Self {
            InputTable(RwLock::new(vec![]))
        }
    }
    struct InternTable<F>(RwLock<(FxHashMap<F, u32>, Vec<F>)>);
    impl<F> Default for InternTable<F> {
        fn default() -> Self {
            InternTable(RwLock::new((FxHashMap::default(), vec![])))
        }
    }

    impl Handle {
        pub(crate) fn new() -> Handle {
            Handle {
                shared: Arc::new(Shared {
                    tables: (0..MAX_INGREDIENTS).map(|_| OnceLock::new()).collect(),
                    current: AtomicU64::new(1),
                    last_changed: [AtomicU64::new(1), AtomicU64::new(1), AtomicU64::new(1)],
                    cancelled: AtomicBool::new(false),
                    live: Mutex::new(1),
                    dropped: Condvar::new(),
                    garbage: Mutex::new(vec![]),
                    executions: AtomicU64::new(0),
                    validations: AtomicU64::new(0),
                }),
            }
        }
        pub fn current_revision(&self) -> u64 {
            self.shared.current.load(SeqCst)
        }
        /// (query executions, memo re-validations) so far: lets a harness report that incrementality was exercised.
        pub fn stats(&self) -> (u64, u64) {
            (self.shared.executions.load(SeqCst), self.shared.validations.load(SeqCst))
        }
        pub(crate) fn cancel_others(&mut self) {
            let s = &self.shared;
            let mut live = s.live.lock();
            if *live != 1 {
                s.cancelled.store(true, SeqCst);
                while *live != 1 {
                    s.dropped.wait(&mut live);
                }
                s.cancelled.store(false, SeqCst);
            }
        }
        pub(crate) fn new_revision(&mut self) {
            self.cancel_others();
            self.shared.garbage.lock().clear();
            self.shared.current.fetch_add(1, SeqCst);
        }
        pub(crate) fn report_tracked_write(&mut self, d: Durability) {
            let r = self.current_revision();
            for i in 1..=(d.0.min(2) as usize) {
                self.shared.last_changed[i].store(r, SeqCst);
            }
        }
        pub(crate) fn unwind_if_cancelled(&self) {
            if self.shared.cancelled.load(SeqCst) {
                Cancelled::throw();
            }
        }
        pub fn new_input<I: InputStruct>(&self, fields: I::Fields, d: Durability) -> u32 {
            let t = self.shared.table::<InputTable<I::Fields>>(I::__index());
            let mut v = t.0.write();
            let r = self.current_revision();
            v.push(Arc::new(InputData {
                fields: RwLock::new(fields),
                stamps: Arc::new(Mutex::new(vec![(r, d); I::N])),
            }));
            (v.len() - 1) as u32
        }
        pub fn read_input<I: InputStruct, R>(&self, id: u32, idx: usize, f: impl FnOnce(&I::Fields) -> R) -> R {
            let t = self.shared.table::<InputTable<I::Fields>>(I::__index());
            let data = t.0.read()[id as usize].clone();
            let (rev, dur) = data.stamps.lock()[idx];
            record_dep(rev, dur, || Dep::Input(data.stamps.clone(), idx));
            let fields = data.fields.read();
            f(&fields)
        }
        pub fn intern<I: InternedStruct>(&self, fields: I::Fields) -> u32 {
            let t = self.shared.table::<InternTable<I::Fields>>(I::__index());
            if let Some(id) = t.0.read().0.get(&fields) {
                return *id;
            }
            let mut w = t.0.write();
            if let Some(id) = w.0.get(&fields) {
                return *id;
            }
            let id = w.1.len() as u32;
            w.1.push(fields.clone());
            w.0.insert(fields, id);
            id
        }
        pub fn read_interned<I: InternedStruct, R>(&self, id: u32, f: impl FnOnce(&I::Fields) -> R) -> R {
            let t = self.shared.table::<InternTable<I::Fields>>(I::__index());
            let r = t.0.read();
            f(&r.1[id as usize])
        }
    }

    pub struct SetterImpl<'db, I: InputStruct, V> {
        handle: &'db mut Handle,
        id: u32,
        idx: usize,
        set: fn(&mut I::Fields, V),
        durability: Option<Durability>,
    }
    impl<'db, I: InputStruct, V> SetterImpl<'db, I, V> {
        pub fn new(handle: &'db mut Handle, id: u32, idx: usize, set: fn(&mut I::Fields, V)) -> Self {
            SetterImpl { handle, id, idx, set, durability: None }
        }
    }
    impl<I: InputStruct, V> Setter for SetterImpl<'_, I, V> {
        type FieldTy = V;
        fn with_durability(mut self, d: Durability) -> Self {
            self.durability = Some(d);
            self
        }
        fn to(self, value: V) -> V
        where
            V: Clone,
        {
            self.handle.new_revision();
            let data = {
                let t = self.handle.shared.table::<InputTable<I::Fields>>(I::__index());
                let d = t.0.read()[self.id as usize].clone();
                d
            };
            let old_dur = data.stamps.lock()[self.idx].1;
            if old_dur != Durability::MIN {
                self.handle.report_tracked_write(old_dur);
            }
            let rev = self.handle.current_revision();
            data.stamps.lock()[self.idx] = (rev, self.durability.unwrap_or(old_dur));
            (self.set)(&mut data.fields.write(), value.clone());
            value
        }
    }

    // ---- queries -------------------------------------------------------------------------------------------
    #[derive(Clone)]
    enum Dep {
        Input(Arc<Mutex<Vec<(u64, Durability)>>>, usize),
        Query(Arc<dyn ErasedSlot>),
    }
    trait ErasedSlot: Send + Sync {
        /// `db` is a `DbRef<Db>` of the function's own database view.
        fn changed_after(self: Arc<Self>, db: &dyn Any, handle: &Handle, rev: u64) -> bool;
    }
    struct DbRef<D: ?Sized>(*const D);

    struct Memo<V> {
        value: V,
        verified_at: AtomicU64,
        changed_at: u64,
        durability: Durability,
        deps: Box<[Dep]>,
    }
    struct Slot<F: Function> {
        key: F::Key,
        memo: Mutex<Option<Arc<Memo<F::Output>>>>,
    }
    struct FnTable<F: Function>(Mutex<FxHashMap<F::Key, Arc<Slot<F>>>>);
    impl<F: Function> Default for FnTable<F> {
        fn default() -> Self {
            FnTable(Mutex::new(FxHashMap::default()))
        }
    }
    struct Active {
        slot: usize,
        deps: Vec<Dep>,
        seen: FxHashSet<(usize, usize)>,
        changed_at: u64,
        durability: Durability,
    }
    thread_local! {
        static STACK: RefCell<Vec<Active>> = const { RefCell::new(Vec::new()) };
    }
    fn record_dep(changed_at: u64, durability: Durability, dep: impl FnOnce() -> Dep) {
        STACK.with(|s| {
            if let Some(top) = s.borrow_mut().last_mut() {
                top.changed_at = top.changed_at.max(changed_at);
                top.durability = top.durability.min(durability);
                let dep = dep();
                let id = match &dep {
                    Dep::Input(a, i) => (Arc::as_ptr(a) as usize, *i),
                    Dep::Query(q) => (Arc::as_ptr(q) as *const () as usize, usize::MAX),
                };
                if top.seen.insert(id) {
                    top.deps.push(dep);
                }
            }
        })
    }

    impl<F: Function> Slot<F> {
        fn shallow_verify(&self, handle: &Handle, memo: &Memo<F::Output>) -> bool {
            let verified_at = memo.verified_at.load(SeqCst);
            let now = handle.current_revision();
            if verified_at == now {
                return true;
            }
            if handle.shared.last_changed(memo.durability) <= verified_at {
                memo.verified_at.store(now, SeqCst);
                return true;
            }
            false
        }
        fn deep_verify(&self, db: &F::Db, handle: &Handle, memo: &Memo<F::Output>) -> bool {
            handle.shared.validations.fetch_add(1, SeqCst);
            let verified_at = memo.verified_at.load(SeqCst);
            let dbref = DbRef(db as *const F::Db);
            for dep in memo.deps.iter() {
                let changed = match dep {
                    Dep::Input(stamps, i) => stamps.lock()[*i].0 > verified_at,
                    Dep::Query(q) => q.clone().changed_after(&dbref, handle, verified_at),
                };
                if changed {
                    return false;
                }
            }
            memo.verified_at.store(handle.current_revision(), SeqCst);
            true
        }
        fn refresh(self: &Arc<Self>, db: &F::Db, handle: &Handle) -> Arc<Memo<F::Output>> {
            handle.unwind_if_cancelled();
            let old = self.memo.lock().clone();
            if let Some(memo) = &old {
                if self.shallow_verify(handle, memo) {
                    return memo.clone();
                }
            }
            let me = Arc::as_ptr(self) as *const () as usize;
            STACK.with(|s| {
                if s.borrow().iter().any(|a| a.slot == me) {
                    panic!("dependency graph cycle when querying {}", F::NAME);
                }
            });
            if let Some(memo) = &old {
                // deep verification runs outside of any query frame of its own, but must detect cycles too
                let frame = Frame::push(me);
                let ok = self.deep_verify(db, handle, memo);
                drop(frame);
                if ok {
                    return memo.clone();
                }
            }
            handle.shared.executions.fetch_add(1, SeqCst);
            let frame = Frame::push(me);
            let value = F::execute(db, self.key.clone());
            let active = frame.pop();
            let mut changed_at = active.changed_at;
            if let Some(old) = &old {
                if active.durability >= old.durability && old.value == value {
                    changed_at = old.changed_at;
                }
            }
            let memo = Arc::new(Memo {
                value,
                verified_at: AtomicU64::new(handle.current_revision()),
                changed_at,
                durability: active.durability,
                deps: active.deps.into_boxed_slice(),
            });
            let mut g = handle.shared.garbage.lock();
            if let Some(prev) = self.memo.lock().replace(memo.clone()) {
                g.push(prev as Arc<dyn Any + Send + Sync>);
            }
            memo
        }
    }
    struct Frame(bool);
    impl Frame {
        fn push(slot: usize) -> Frame {
            STACK.with(|s| {
                s.borrow_mut().push(Active {
                    slot,
                    deps: vec![],
                    seen: FxHashSet::default(),
                    changed_at: 1,
                    durability: Durability::IMMUTABLE,
                })
            });
            Frame(true)
        }
        fn pop(mut self) -> Active {
            self.0 = false;
            STACK.with(|s| s.borrow_mut().pop().unwrap())
        }
    }
    impl Drop for Frame {
        fn drop(&mut self) {
            if self.0 {
                STACK.with(|s| s.borrow_mut().pop());
            }
        }
    }
    impl<F: Function> ErasedSlot for Slot<F> {
        fn changed_after(self: Arc<Self>, db: &dyn Any, handle: &Handle, rev: u64) -> bool {
            let db = db.downcast_ref::<DbRef<F::Db>>().expect("salsa stand-in: all tracked functions use one database view");
            // SAFETY: the pointer was made from a reference that outlives this call
            let db = unsafe { &*db.0 };
            if self.memo.lock().is_none() {
                return true;
            }
            let memo = self.refresh(db, handle);
            memo.changed_at > rev
        }
    }

    /// # Safety
    /// `handle` belongs to `db`.
    pub unsafe fn fetch<'db, F: Function>(db: &'db F::Db, handle: &'db Handle, key: F::Key) -> &'db F::Output {
        let slot = {
            let t = handle.shared.table::<FnTable<F>>(F::__index());
            let mut t = t.0.lock();
            match t.get(&key) {
                Some(s) => s.clone(),
                None => {
                    let s = Arc::new(Slot::<F> { key: key.clone(), memo: Mutex::new(None) });
                    t.insert(key, s.clone());
                    s
                }
            }
        };
        let memo = slot.refresh(db, handle);
        record_dep(memo.changed_at, memo.durability, || Dep::Query(slot.clone()));
        // SAFETY: the memo is owned by its slot, or, once replaced, by `garbage` until the next revision, which
        // needs exclusive access to the database.
        unsafe { &*(&memo.value as *const F::Output) }
    }
}
