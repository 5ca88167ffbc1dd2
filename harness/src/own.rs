//! Elements whose every creation, use and destruction is recorded, an
//! allocator that checks how blocks are used, and projections of owning arrays.
use mdarray::{Dense, DynRank, Rank, Shape, Slice, Tensor};
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::RefCell;
use std::fmt::Debug;

#[derive(Default)]
pub struct Reg {
    live: Vec<bool>,
    vals: Vec<i64>,
    zborn: u64,
    zdead: u64,
    pub calls: u64,
    pub fault: u64,
    armed: bool,
    trapped: u32,
    drops: u64,
    pub errs: Vec<String>,
    quiet: bool,
    extra: std::collections::HashSet<u64>,
    extras: u64,
    shown: u64,
    slots: Vec<Option<(u64, i64)>>,
    slot: usize,
}
thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }
fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    REG.with(|r| f(&mut r.borrow_mut()))
}
/// Forgets everything; the next element gets identity 1.
pub fn reset() {
    reg(|r| *r = Reg::default());
}
/// A fault number with this bit: the panic is in a destructor.
pub const DROP: u64 = 1 << 40;
/// Starts counting user calls and destructions; the `fault`-th one panics (0: none).
pub fn arm(fault: u64) {
    reg(|r| {
        r.calls = 0;
        r.drops = 0;
        r.armed = true;
        r.fault = fault;
    });
}
pub fn disarm() -> u64 {
    reg(|r| {
        r.fault = 0;
        r.armed = false;
        r.calls
    })
}
/// destructors run by trapped operations since armed
pub fn drops() -> u64 {
    reg(|r| r.drops)
}
/// Catches panics; destructors fail only in here.
pub fn trap<R>(f: impl FnOnce() -> R) -> Option<R> {
    reg(|r| r.trapped += 1);
    let x = crate::trap(f);
    reg(|r| r.trapped -= 1);
    x
}
fn tick_drop() {
    if std::thread::panicking() {
        return;
    }
    let boom = reg(|r| {
        if r.quiet || !r.armed || r.trapped == 0 {
            return false;
        }
        r.drops += 1;
        r.fault == DROP | r.drops
    });
    if boom {
        panic!("destructor");
    }
}
pub fn errs() -> Vec<String> {
    reg(|r| r.errs.clone())
}
pub fn err(s: String) {
    reg(|r| r.errs.push(s));
}
pub fn live() -> Vec<i64> {
    reg(|r| (0..r.live.len()).filter(|&i| r.live[i]).map(|i| i as i64 + 1).collect())
}
pub fn born() -> i64 {
    reg(|r| r.live.len() as i64)
}
pub fn zlive() -> i64 {
    reg(|r| r.zborn as i64 - r.zdead as i64)
}

/// Marks a call of user code.
pub fn tick() {
    let boom = reg(|r| {
        if r.quiet {
            return false;
        }
        r.calls += 1;
        r.calls == r.fault
    });
    if boom {
        panic!("user code");
    }
}

/// Runs a probe that must leave everything as it was: its user calls are not counted, its elements get identities of their own.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let n = reg(|r| {
        r.quiet = true;
        r.extra.len()
    });
    let x = f();
    reg(|r| {
        r.quiet = false;
        if r.extra.len() != n {
            r.errs.push(format!("{} elements leaked", r.extra.len()));
        }
    });
    x
}
/// how many elements were shown so far
pub fn shown() -> u64 {
    reg(|r| r.shown)
}
const EXTRA: u64 = 1 << 62;

pub trait Elem: Clone + PartialEq + Debug + 'static {
    const ZST: bool;
    fn make(v: i64) -> Self;
    fn id(&self) -> i64;
    fn v(&self) -> i64;
    /// alive and intact
    fn ok(&self) -> bool;
}

impl Reg {
    fn create(&mut self, v: i64) -> u64 {
        if self.quiet {
            self.extras += 1;
            self.extra.insert(EXTRA + self.extras);
            return EXTRA + self.extras;
        }
        self.live.push(true);
        self.vals.push(v);
        self.live.len() as u64
    }
    fn alive(&self, id: u64, v: i64) -> bool {
        if id > EXTRA {
            return self.extra.contains(&id);
        }
        let i = (id as usize).wrapping_sub(1);
        i < self.live.len() && self.live[i] && self.vals[i] == v
    }
}

const ALIVE: u64 = 0xA11F_E5CA_FE00_0001;
const DEAD: u64 = 0xDEAD_0000_DEAD_0000;

pub struct El {
    id: u64,
    v: i64,
    magic: u64,
}
impl Elem for El {
    const ZST: bool = false;
    fn make(v: i64) -> El {
        El { id: reg(|r| r.create(v)), v, magic: ALIVE }
    }
    fn id(&self) -> i64 {
        self.id as i64
    }
    fn v(&self) -> i64 {
        self.v
    }
    fn ok(&self) -> bool {
        self.magic == ALIVE && reg(|r| r.alive(self.id, self.v))
    }
}
impl Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if !self.ok() {
            err(format!("element {} shown although dead or moved out", self.id));
        }
        reg(|r| r.shown += 1);
        write!(f, "{}", self.v)
    }
}
impl Clone for El {
    fn clone(&self) -> El {
        tick();
        if !self.ok() {
            err(format!("clone of a dead or garbage element ({}, {})", self.id, self.v));
        }
        El::make(self.v)
    }
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        tick();
        if !self.ok() || !o.ok() {
            err("comparison of a dead or garbage element".into());
        }
        self.v == o.v
    }
}
impl Drop for El {
    fn drop(&mut self) {
        let m = self.magic;
        self.magic = DEAD;
        let i = (self.id as usize).wrapping_sub(1);
        reg(|r| {
            if m == ALIVE && self.id > EXTRA {
                if !r.extra.remove(&self.id) {
                    r.errs.push("element of a probe dropped twice".into());
                }
            } else if m != ALIVE || i >= r.live.len() {
                r.errs.push(format!("drop of garbage (id {} magic {m:x})", self.id));
            } else if !r.live[i] {
                r.errs.push(format!("element {} (value {}) dropped twice", self.id, self.v));
            } else {
                r.live[i] = false;
            }
        });
        tick_drop();
    }
}

/// An element of one byte: the number of an entry in a table of those alive.
pub struct By(u8);
impl By {
    fn entry(&self) -> Option<(u64, i64)> {
        reg(|r| r.slots.get(self.0 as usize).copied().flatten())
    }
}
impl Elem for By {
    const ZST: bool = false;
    fn make(v: i64) -> By {
        reg(|r| {
            let id = r.create(v);
            r.slots.resize(256, None);
            // entries are reused as late as possible, number 0 never
            for _ in 0..255 {
                r.slot = r.slot % 255 + 1;
                if r.slots[r.slot].is_none() {
                    r.slots[r.slot] = Some((id, v));
                    return By(r.slot as u8);
                }
            }
            panic!("HARNESS too many elements");
        })
    }
    fn id(&self) -> i64 {
        self.entry().map_or(-7, |e| e.0 as i64)
    }
    fn v(&self) -> i64 {
        self.entry().map_or(-7, |e| e.1)
    }
    fn ok(&self) -> bool {
        self.entry().is_some_and(|(id, v)| reg(|r| r.alive(id, v)))
    }
}
impl Debug for By {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if !self.ok() {
            err(format!("element {} shown although dead or moved out", self.id()));
        }
        reg(|r| r.shown += 1);
        write!(f, "{}", self.v())
    }
}
impl Clone for By {
    fn clone(&self) -> By {
        tick();
        if !self.ok() {
            err(format!("clone of a dead or garbage element ({}, {})", self.id(), self.v()));
        }
        By::make(self.v())
    }
}
impl PartialEq for By {
    fn eq(&self, o: &By) -> bool {
        tick();
        if !self.ok() || !o.ok() {
            err("comparison of a dead or garbage element".into());
        }
        self.v() == o.v()
    }
}
impl Drop for By {
    fn drop(&mut self) {
        let e = self.entry();
        reg(|r| match e {
            None => r.errs.push(format!("drop of garbage or second drop (byte {})", self.0)),
            Some((id, _)) => {
                r.slots[self.0 as usize] = None;
                if id > EXTRA {
                    r.extra.remove(&id);
                } else {
                    r.live[id as usize - 1] = false;
                }
            }
        });
        tick_drop();
    }
}

#[derive(Debug)]
pub struct Zs;
impl Elem for Zs {
    const ZST: bool = true;
    fn make(_: i64) -> Zs {
        reg(|r| r.zborn += 1);
        Zs
    }
    fn id(&self) -> i64 {
        0
    }
    fn v(&self) -> i64 {
        -1
    }
    fn ok(&self) -> bool {
        true
    }
}
impl Clone for Zs {
    fn clone(&self) -> Zs {
        tick();
        Zs::make(0)
    }
}
impl PartialEq for Zs {
    fn eq(&self, _: &Zs) -> bool {
        tick();
        true
    }
}
impl Drop for Zs {
    fn drop(&mut self) {
        reg(|r| {
            r.zdead += 1;
            if r.zdead > r.zborn {
                r.errs.push("more zero-sized elements dropped than created".into());
            }
        });
        tick_drop();
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub d: Vec<usize>,
    pub e: Vec<(i64, i64)>,
    pub cap: Option<usize>,
    pub ptr: usize,
}

/// What the array reports about itself, checked for consistency.
pub fn snap_slice<E: Elem, S: Shape>(s: &Slice<E, S, Dense>, cap: Option<usize>) -> Result<Snap, String> {
    let d: Vec<usize> = (0..s.rank()).map(|i| s.dim(i)).collect();
    let n: usize = d.iter().product();
    if s.len() != n {
        return Err(format!("len {} but shape {d:?}", s.len()));
    }
    if s.is_empty() != (n == 0) {
        return Err(format!("is_empty {} but shape {d:?}", s.is_empty()));
    }
    if let Some(c) = cap {
        if c < n {
            return Err(format!("capacity {c} below length {n}"));
        }
        if E::ZST && c != usize::MAX {
            return Err(format!("capacity {c} of zero-sized elements"));
        }
    }
    let p = s.as_ptr() as usize;
    let mut e = vec![];
    let mut st = 1usize;
    if n > 0 {
        for i in (0..d.len()).rev() {
            if d[i] > 1 && s.stride(i) != st as isize {
                return Err(format!("stride {} of dimension {i} of {d:?}", s.stride(i)));
            }
            st *= d[i];
        }
        if !s.is_contiguous() {
            return Err("not contiguous".into());
        }
    }
    let mut k = 0;
    for x in s.expr().into_iter() {
        if k >= n {
            return Err("iteration longer than len".into());
        }
        let at = x as *const E as usize;
        if at != p + k * std::mem::size_of::<E>() {
            return Err(format!("element {k} not stored contiguously"));
        }
        if !x.ok() {
            return Err(format!("element {k} of {d:?} is dead or garbage"));
        }
        e.push((x.id(), x.v()));
        k += 1;
    }
    if k != n {
        return Err(format!("iteration gave {k} of {n}"));
    }
    Ok(Snap { d, e, cap, ptr: p })
}

pub trait Obj<E: Elem> {
    fn snap(&self) -> Result<Snap, String>;
    fn any(self: Box<Self>) -> Box<dyn Any>;
    fn dynamic(self: Box<Self>) -> Option<Tensor<E, DynRank>>;
}
impl<E: Elem, S: Shape + 'static> Obj<E> for Tensor<E, S> {
    fn snap(&self) -> Result<Snap, String> {
        snap_slice(self, Some(self.capacity()))
    }
    fn any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn dynamic(self: Box<Self>) -> Option<Tensor<E, DynRank>> {
        Some(self.into_dyn())
    }
}
impl<E: Elem> Obj<E> for Vec<E> {
    fn snap(&self) -> Result<Snap, String> {
        if let Some(k) = self.iter().position(|x| !x.ok()) {
            return Err(format!("element {k} of the vector is dead or garbage"));
        }
        let c = self.capacity();
        Ok(Snap { d: vec![self.len()], e: self.iter().map(|x| (x.id(), x.v())).collect(), cap: Some(c), ptr: self.as_ptr() as usize })
    }
    fn any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn dynamic(self: Box<Self>) -> Option<Tensor<E, DynRank>> {
        Some(Tensor::from(*self).into_dyn())
    }
}
/// Array owned by value whose slice is reached through Borrow.
pub struct Held<O, S>(pub O, pub std::marker::PhantomData<S>);
impl<E: Elem, S: Shape + 'static, O: std::borrow::Borrow<Slice<E, S>> + 'static> Obj<E> for Held<O, S> {
    fn snap(&self) -> Result<Snap, String> {
        snap_slice::<E, S>(self.0.borrow(), None)
    }
    fn any(self: Box<Self>) -> Box<dyn Any> {
        Box::new(self.0)
    }
    fn dynamic(self: Box<Self>) -> Option<Tensor<E, DynRank>> {
        let b: Box<dyn Any> = Box::new(self.0);
        let b = match b.downcast::<Tensor<E, DynRank>>() {
            Ok(t) => return Some(*t),
            Err(b) => b,
        };
        let b = match b.downcast::<Tensor<E, Rank<1>>>() {
            Ok(t) => return Some(t.into_dyn()),
            Err(b) => b,
        };
        let b = match b.downcast::<Tensor<E, Rank<2>>>() {
            Ok(t) => return Some(t.into_dyn()),
            Err(b) => b,
        };
        b.downcast::<Tensor<E, Rank<3>>>().ok().map(|t| t.into_dyn())
    }
}

/// Allocator with a header and red zones; freed blocks are poisoned and kept
/// for a while. Misuse ends the process, which the driver attributes to the case.
pub struct Checked;
const HDR: usize = 64;
const TAIL: usize = 32;
const MAGIC: u64 = 0xC0FF_EE00_1234_5678;
const FREED: u64 = 0xF4EE_D000_0000_4321;
const KEEP: usize = 256;
static mut RING: [(usize, usize, usize); KEEP] = [(0, 0, 0); KEEP];
static POS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn die(what: &str) -> ! {
    use std::io::Write;
    let mut e = std::io::stderr(); // unbuffered
    _ = e.write_all(b"allocator: ");
    _ = e.write_all(what.as_bytes());
    std::process::abort();
}
fn full(l: Layout) -> Option<(Layout, usize)> {
    let off = HDR.max(l.align());
    let size = l.size().checked_add(off)?.checked_add(TAIL)?;
    Some((Layout::from_size_align(size, l.align().max(16)).ok()?, off))
}
// The harness is single-threaded while it executes cases.
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            let Some((f, off)) = full(l) else { return std::ptr::null_mut() };
            let p = System.alloc(f);
            if p.is_null() {
                return p;
            }
            let q = p.add(off);
            let h = q.sub(HDR) as *mut u64;
            *h = MAGIC;
            *h.add(1) = l.size() as u64;
            *h.add(2) = l.align() as u64;
            std::ptr::write_bytes(q.sub(HDR - 24), 0xB5, HDR - 24);
            if l.size() <= 1 << 16 {
                std::ptr::write_bytes(q, 0xA7, l.size());
            }
            std::ptr::write_bytes(q.add(l.size()), 0xB5, TAIL);
            q
        }
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        unsafe {
            let h = q.sub(HDR) as *mut u64;
            if *h == FREED {
                die("block freed twice");
            }
            if *h != MAGIC {
                die("freeing a block that was not allocated, or its header was overwritten");
            }
            if *h.add(1) != l.size() as u64 || *h.add(2) != l.align() as u64 {
                die("block freed with a layout other than it was allocated with");
            }
            for i in 24..HDR {
                if *q.sub(HDR - i) != 0xB5 {
                    die("write before the start of a block");
                }
            }
            for i in 0..TAIL {
                if *q.add(l.size() + i) != 0xB5 {
                    die("write past the end of a block");
                }
            }
            *h = FREED;
            let (f, off) = full(l).unwrap();
            if l.size() > 1 << 16 {
                System.dealloc(q.sub(off), f);
                return;
            }
            std::ptr::write_bytes(q, 0xDD, l.size());
            let i = POS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % KEEP;
            let slot = &raw mut RING[i];
            let (op, os, oa) = *slot;
            *slot = (q.sub(off) as usize, f.size(), f.align());
            if op != 0 {
                let b = op as *const u8;
                let (mut k, end) = (os.min(HDR), os - TAIL);
                if os > 0 && oa <= HDR {
                    while k < end {
                        if *b.add(k) != 0xDD {
                            die("write to a freed block");
                        }
                        k += 1;
                    }
                }
                System.dealloc(op as *mut u8, Layout::from_size_align_unchecked(os, oa));
            }
        }
    }
}
