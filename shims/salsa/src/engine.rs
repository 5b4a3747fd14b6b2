use crate::{Cancelled, Database, Durability, Revision, Setter};
use parking_lot::{Condvar, Mutex, RwLock};
use rustc_hash::FxHashMap;
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::hash::Hash;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Id(u32);
impl Id {
    pub fn from_u32(x: u32) -> Id { Id(x) }
    pub fn as_u32(self) -> u32 { self.0 }
}
pub trait AsId {
    fn as_id(&self) -> Id;
}

/// # Safety
/// lifetime-only cast, sizes are checked
pub unsafe fn cast<A, B>(a: A) -> B {
    assert_eq!(std::mem::size_of::<A>(), std::mem::size_of::<B>());
    let a = std::mem::ManuallyDrop::new(a);
    std::ptr::read(&*a as *const A as *const B)
}

pub trait SalsaAsRef {
    type AsRef<'a> where Self: 'a;
    fn as_ref(&self) -> Self::AsRef<'_>;
}
impl<T> SalsaAsRef for Option<T> {
    type AsRef<'a> = Option<&'a T> where T: 'a;
    fn as_ref(&self) -> Option<&T> { Option::as_ref(self) }
}

/// # Safety
/// implemented by the db macro only
pub unsafe trait ZalsaDatabase {
    fn zalsa(&self) -> &Zalsa;
    fn zalsa_mut(&mut self) -> &mut Zalsa;
}

struct Coord {
    clones: Mutex<usize>,
    cv: Condvar,
}

pub struct Storage<Db: ?Sized> {
    z: Option<Arc<Zalsa>>,
    coord: Arc<Coord>,
    _p: PhantomData<fn() -> Box<Db>>,
}
impl<Db: ?Sized> Default for Storage<Db> {
    fn default() -> Self {
        Storage {
            z: Some(Arc::new(Zalsa::new())),
            coord: Arc::new(Coord { clones: Mutex::new(1), cv: Condvar::new() }),
            _p: PhantomData,
        }
    }
}
impl<Db: ?Sized> Clone for Storage<Db> {
    fn clone(&self) -> Self {
        *self.coord.clones.lock() += 1;
        Storage { z: self.z.clone(), coord: self.coord.clone(), _p: PhantomData }
    }
}
impl<Db: ?Sized> Drop for Storage<Db> {
    fn drop(&mut self) {
        self.z = None;
        *self.coord.clones.lock() -= 1;
        self.coord.cv.notify_all();
    }
}
impl<Db: ?Sized> Storage<Db> {
    pub fn zalsa(&self) -> &Zalsa { self.z.as_ref().unwrap() }
    /// Cancels every other handle and waits until this one is the only one left.
    pub fn zalsa_mut(&mut self) -> &mut Zalsa {
        self.zalsa().cancelled.store(true, Ordering::SeqCst);
        {
            let mut c = self.coord.clones.lock();
            while *c != 1 {
                self.coord.cv.wait(&mut c);
            }
        }
        self.zalsa().cancelled.store(false, Ordering::SeqCst);
        let arc = self.z.as_mut().unwrap();
        let z = Arc::get_mut(arc).expect("single handle");
        z.graveyard.get_mut().clear();
        z
    }
}
impl<Db: ?Sized> std::panic::RefUnwindSafe for Storage<Db> {}

struct InputSlot {
    vals: Vec<Box<dyn Any + Send + Sync>>,
    changed: Vec<Revision>,
    durs: Vec<Durability>,
}

type AnyArc = Arc<dyn Any + Send + Sync>;

pub struct Zalsa {
    current: Revision,
    /// revs[d] = last revision in which an input of durability >= d changed
    revs: [Revision; 4],
    cancelled: AtomicBool,
    #[allow(clippy::vec_box)]
    inputs: RwLock<Vec<Box<InputSlot>>>,
    interned: RwLock<FxHashMap<TypeId, AnyArc>>,
    tables: RwLock<FxHashMap<TypeId, AnyArc>>,
    graveyard: Mutex<Vec<Box<dyn Any + Send>>>,
}

#[derive(Clone)]
enum Dep {
    Input(u32, usize),
    Query(Arc<dyn QueryDep>),
}

trait QueryDep: Send + Sync {
    fn changed_after(&self, z: &Zalsa, db: DbPtr, rev: Revision) -> bool;
}

/// type-erased `&dyn Db`
#[derive(Copy, Clone)]
pub struct DbPtr {
    raw: [usize; 2],
    ty: TypeId,
}
impl DbPtr {
    fn of<D: ?Sized + 'static>(d: &D) -> DbPtr {
        let mut raw = [0usize; 2];
        let n = std::mem::size_of::<&D>();
        unsafe { std::ptr::copy_nonoverlapping(&d as *const &D as *const u8, raw.as_mut_ptr() as *mut u8, n) };
        DbPtr { raw, ty: TypeId::of::<D>() }
    }
    unsafe fn get<'a, D: ?Sized + 'static>(self) -> Option<&'a D> {
        if self.ty != TypeId::of::<D>() {
            return None;
        }
        let mut r = std::mem::MaybeUninit::<&'a D>::uninit();
        std::ptr::copy_nonoverlapping(self.raw.as_ptr() as *const u8, r.as_mut_ptr() as *mut u8, std::mem::size_of::<&D>());
        Some(r.assume_init())
    }
}

struct Active {
    name: &'static str,
    zalsa: *const Zalsa,
    id: (TypeId, *const ()),
    deps: Vec<Dep>,
    changed: Revision,
    dur: Durability,
    untracked: bool,
}
thread_local! {
    static ACTIVE: RefCell<Vec<Active>> = const { RefCell::new(Vec::new()) };
}
pub fn active_names() -> Vec<&'static str> {
    ACTIVE.with(|a| a.try_borrow().map(|a| a.iter().map(|x| x.name).collect()).unwrap_or_default())
}
fn record(z: &Zalsa, dep: Dep, changed: Revision, dur: Durability) {
    ACTIVE.with(|a| {
        if let Some(top) = a.borrow_mut().last_mut() {
            if std::ptr::eq(top.zalsa, z) {
                top.deps.push(dep);
                top.changed = top.changed.max(changed);
                top.dur = top.dur.min(dur);
            }
        }
    })
}
pub fn report_untracked_read(z: &Zalsa) {
    ACTIVE.with(|a| {
        if let Some(top) = a.borrow_mut().last_mut() {
            top.untracked = true;
            top.changed = z.current;
            top.dur = Durability::MIN;
        }
    })
}
struct PopGuard;
impl Drop for PopGuard {
    fn drop(&mut self) {
        ACTIVE.with(|a| {
            a.borrow_mut().pop();
        });
    }
}

impl Zalsa {
    fn new() -> Zalsa {
        Zalsa {
            current: Revision(1),
            revs: [Revision(1); 4],
            cancelled: AtomicBool::new(false),
            inputs: Default::default(),
            interned: Default::default(),
            tables: Default::default(),
            graveyard: Default::default(),
        }
    }
    pub fn current_revision(&self) -> Revision { self.current }
    pub fn new_revision(&mut self) -> Revision {
        self.current = Revision(self.current.0 + 1);
        self.revs[0] = self.current;
        self.current
    }
    pub fn report_tracked_write(&mut self, d: Durability) {
        for i in 1..=(d.0 as usize).min(3) {
            self.revs[i] = self.current;
        }
    }
    pub fn unwind_if_cancelled(&self) {
        if self.cancelled.load(Ordering::SeqCst) {
            Cancelled::PendingWrite.throw();
        }
    }
    fn table<Q: Query>(&self) -> Arc<Table<Q>> {
        let t = TypeId::of::<Q>();
        if let Some(x) = self.tables.read().get(&t) {
            return x.clone().downcast::<Table<Q>>().ok().unwrap();
        }
        let mut w = self.tables.write();
        w.entry(t)
            .or_insert_with(|| Arc::new(Table::<Q> { map: RwLock::new(FxHashMap::default()) }) as AnyArc)
            .clone()
            .downcast::<Table<Q>>()
            .ok()
            .unwrap()
    }
}
pub fn current_revision<Db: ?Sized + Database>(db: &Db) -> Revision { db.zalsa().current_revision() }

// ---------- inputs ----------
pub fn new_input(z: &Zalsa, vals: Vec<Box<dyn Any + Send + Sync>>, durs: &[Durability]) -> u32 {
    let n = vals.len();
    let mut w = z.inputs.write();
    w.push(Box::new(InputSlot { vals, changed: vec![z.current; n], durs: durs.to_vec() }));
    (w.len() - 1) as u32
}
pub fn input_field<T: 'static>(z: &Zalsa, id: u32, field: usize) -> &T {
    let slot: *const InputSlot = { &*z.inputs.read()[id as usize] as *const _ };
    // slots are boxed and written to only through &mut Zalsa
    let slot = unsafe { &*slot };
    record(z, Dep::Input(id, field), slot.changed[field], slot.durs[field]);
    slot.vals[field].downcast_ref::<T>().expect("input field type")
}
pub struct SetterImpl<'a, T> {
    z: &'a mut Zalsa,
    id: u32,
    field: usize,
    dur: Option<Durability>,
    _p: PhantomData<fn(T)>,
}
impl<'a, T> SetterImpl<'a, T> {
    pub fn new(z: &'a mut Zalsa, id: u32, field: usize) -> Self {
        SetterImpl { z, id, field, dur: None, _p: PhantomData }
    }
}
impl<T: Send + Sync + 'static> Setter for SetterImpl<'_, T> {
    type FieldTy = T;
    fn with_durability(mut self, d: Durability) -> Self {
        self.dur = Some(d);
        self
    }
    fn to(self, value: T) -> T {
        let rev = self.z.new_revision();
        let old_dur = {
            let slot = &mut self.z.inputs.get_mut()[self.id as usize];
            let old_dur = slot.durs[self.field];
            slot.changed[self.field] = rev;
            slot.durs[self.field] = self.dur.unwrap_or(old_dur);
            old_dur
        };
        if old_dur != Durability::MIN {
            self.z.report_tracked_write(old_dur);
        }
        let slot = &mut self.z.inputs.get_mut()[self.id as usize];
        let old = std::mem::replace(&mut slot.vals[self.field], Box::new(value));
        *old.downcast::<T>().ok().unwrap()
    }
}

// ---------- interned ----------
pub trait InternedStruct: 'static {
    type Fields: Hash + Eq + Clone + Send + Sync + 'static;
}
struct InternTable<F> {
    inner: RwLock<(FxHashMap<F, u32>, Vec<Arc<F>>)>,
}
fn intern_table<S: InternedStruct>(z: &Zalsa) -> Arc<InternTable<S::Fields>> {
    let t = TypeId::of::<S>();
    if let Some(x) = z.interned.read().get(&t) {
        return x.clone().downcast().ok().unwrap();
    }
    let mut w = z.interned.write();
    w.entry(t)
        .or_insert_with(|| Arc::new(InternTable::<S::Fields> { inner: RwLock::new((FxHashMap::default(), vec![])) }) as AnyArc)
        .clone()
        .downcast()
        .ok()
        .unwrap()
}
pub fn intern<S: InternedStruct>(z: &Zalsa, f: S::Fields) -> u32 {
    z.unwind_if_cancelled();
    let t = intern_table::<S>(z);
    if let Some(x) = t.inner.read().0.get(&f) {
        return *x;
    }
    let mut w = t.inner.write();
    let n = w.1.len() as u32;
    if let Some(x) = w.0.get(&f) {
        return *x;
    }
    w.1.push(Arc::new(f.clone()));
    w.0.insert(f, n);
    n
}
pub fn interned_fields<S: InternedStruct>(z: &Zalsa, id: u32) -> &S::Fields {
    let t = intern_table::<S>(z);
    let p: *const S::Fields = Arc::as_ptr(&t.inner.read().1[id as usize]);
    unsafe { &*p }
}

// ---------- tracked functions ----------
pub trait Query: 'static {
    type Db: ?Sized + Database;
    type Key: Hash + Eq + Clone + 'static;
    type Value: 'static;
    const NAME: &'static str;
    fn execute(db: &Self::Db, k: &Self::Key) -> Self::Value;
    fn values_eq(a: &Self::Value, b: &Self::Value) -> bool;
}
struct Table<Q: Query> {
    map: RwLock<FxHashMap<Q::Key, Arc<Slot<Q>>>>,
}
unsafe impl<Q: Query> Send for Table<Q> {}
unsafe impl<Q: Query> Sync for Table<Q> {}

struct Slot<Q: Query> {
    key: Q::Key,
    memo: Mutex<Option<Memo<Q::Value>>>,
}
unsafe impl<Q: Query> Send for Slot<Q> {}
unsafe impl<Q: Query> Sync for Slot<Q> {}

struct Memo<V> {
    value: Box<V>,
    verified: Revision,
    changed: Revision,
    dur: Durability,
    deps: Arc<Vec<Dep>>,
    untracked: bool,
}
struct Grave<V>(#[allow(dead_code)] Box<V>);
unsafe impl<V> Send for Grave<V> {}

fn shallow_ok<V>(z: &Zalsa, m: &mut Memo<V>) -> bool {
    if m.verified == z.current {
        return true;
    }
    if !m.untracked && z.revs[m.dur.0 as usize] <= m.verified {
        m.verified = z.current;
        return true;
    }
    false
}

fn deps_unchanged(z: &Zalsa, db: DbPtr, deps: &[Dep], since: Revision) -> bool {
    for d in deps {
        let changed = match d {
            Dep::Input(id, f) => z.inputs.read()[*id as usize].changed[*f] > since,
            Dep::Query(q) => q.changed_after(z, db, since),
        };
        if changed {
            return false;
        }
    }
    true
}

impl<Q: Query> Slot<Q> {
    /// Brings the memo up to date; returns (value, changed_at, durability).
    fn refresh(self: &Arc<Self>, z: &Zalsa, dbp: DbPtr) -> (*const Q::Value, Revision, Durability) {
        z.unwind_if_cancelled();
        let old = {
            let mut m = self.memo.lock();
            match m.as_mut() {
                Some(m) => {
                    if shallow_ok(z, m) {
                        return (&*m.value, m.changed, m.dur);
                    }
                    Some((m.deps.clone(), m.verified, m.untracked))
                }
                None => None,
            }
        };
        let my_id = (TypeId::of::<Q>(), Arc::as_ptr(self) as *const ());
        if ACTIVE.with(|a| a.borrow().iter().any(|x| x.id == my_id && std::ptr::eq(x.zalsa, z))) {
            panic!("dependency graph cycle when querying {}, set cycle_fn/cycle_initial to fixpoint iterate", Q::NAME);
        }
        if let Some((deps, verified, untracked)) = &old {
            if !untracked && deps_unchanged(z, dbp, deps, *verified) {
                let mut m = self.memo.lock();
                let m = m.as_mut().unwrap();
                m.verified = z.current;
                return (&*m.value, m.changed, m.dur);
            }
        }
        let Some(db) = (unsafe { dbp.get::<Q::Db>() }) else {
            panic!("query {} reached through a different database view", Q::NAME)
        };
        ACTIVE.with(|a| {
            a.borrow_mut().push(Active {
                name: Q::NAME,
                zalsa: z,
                id: my_id,
                deps: vec![],
                changed: Revision(0),
                dur: Durability::MAX,
                untracked: false,
            })
        });
        let (value, mut act) = {
            let guard = PopGuard;
            let value = Q::execute(db, &self.key);
            let act = ACTIVE.with(|a| a.borrow_mut().pop().unwrap());
            std::mem::forget(guard);
            (value, act)
        };
        if act.changed == Revision(0) {
            act.changed = Revision(1);
        }
        let mut m = self.memo.lock();
        if let Some(cur) = m.as_ref() {
            if cur.verified == z.current {
                // another thread was faster
                return (&*cur.value, cur.changed, cur.dur);
            }
            if act.dur >= cur.dur && Q::values_eq(&cur.value, &value) {
                act.changed = cur.changed.min(act.changed);
            }
        }
        let new = Memo {
            value: Box::new(value),
            verified: z.current,
            changed: act.changed,
            dur: act.dur,
            deps: Arc::new(act.deps),
            untracked: act.untracked,
        };
        let res = (&*new.value as *const Q::Value, new.changed, new.dur);
        if let Some(old) = m.replace(new) {
            z.graveyard.lock().push(Box::new(Grave(old.value)));
        }
        res
    }
}
impl<Q: Query> QueryDep for Slot<Q> {
    fn changed_after(&self, z: &Zalsa, db: DbPtr, rev: Revision) -> bool {
        // a Slot always lives in an Arc inside its table
        let me = unsafe {
            Arc::increment_strong_count(self as *const Self);
            Arc::from_raw(self as *const Self)
        };
        if unsafe { db.get::<Q::Db>() }.is_none() {
            return true;
        }
        let (_, changed, _) = me.refresh(z, db);
        changed > rev
    }
}

pub fn fetch<Q: Query>(db: &'static Q::Db, key: Q::Key) -> &'static Q::Value {
    let z = db.zalsa();
    z.unwind_if_cancelled();
    let t = z.table::<Q>();
    let slot = {
        let r = t.map.read();
        r.get(&key).cloned()
    };
    let slot = match slot {
        Some(s) => s,
        None => t
            .map
            .write()
            .entry(key.clone())
            .or_insert_with(|| Arc::new(Slot { key, memo: Mutex::new(None) }))
            .clone(),
    };
    let (v, changed, dur) = slot.refresh(z, DbPtr::of::<Q::Db>(db));
    record(z, Dep::Query(slot), changed, dur);
    unsafe { &*v }
}
