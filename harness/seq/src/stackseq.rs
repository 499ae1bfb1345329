//! All sequences of calls on an ExitStack.
use exit_stack::{ExitStack, Slot};
use mcx::ctx::{catch, nopanic};
use mcx::ledger::{self, *};
use mcx::mem::{align_up, Region};
use mcx::{check, Ctx};
use std::pin::Pin;
use std::ptr::NonNull;

#[macro_export]
macro_rules! for_tok {
    ($i:expr, $V:ident => $e:expr) => {{
        use mcx::ledger::*;
        match $i {
            0 => { type $V = Tok; $e }
            1 => { type $V = TokBig; $e }
            2 => { type $V = Tok16; $e }
            3 => { type $V = Tok32; $e }
            4 => { type $V = Tok64; $e }
            5 => { type $V = Zst; $e }
            6 => { type $V = Zst16; $e }
            7 => { type $V = Tok128; $e }
            8 => { type $V = Tiny; $e }
            9 => { type $V = TokHuge; $e }
            _ => unreachable!(),
        }
    }};
}
pub fn tok_name(i: usize) -> &'static str { ["Tok", "TokBig", "Tok16", "Tok32", "Tok64", "Zst", "Zst16", "Tok128", "Tiny", "TokHuge"][i] }

/// Looks like the private bookkeeping; only used for exact predictions after it was calibrated against the code.
#[allow(dead_code)]
struct Mirror<T: ?Sized> { link: Option<NonNull<Mirror<dyn Nothing>>>, value: T }
trait Nothing {}
impl<T: ?Sized> Nothing for T {}

#[derive(Clone, Copy, Debug)]
pub struct Calib { base: usize, cap: usize }

trait SlotT { fn pin(self: Box<Self>) -> (u32, usize, bool); fn pin_local(self: Box<Self>) -> (u32, usize, bool); }
impl<V: Identity> SlotT for Slot<'static, V> {
    fn pin(self: Box<Self>) -> (u32, usize, bool) {
        let v = V::make();
        let id = v.id();
        let p = Slot::pin(*self, v);
        (id, &*p as *const V as usize, V::ZST)
    }
    fn pin_local(self: Box<Self>) -> (u32, usize, bool) {
        let v = V::make();
        let id = v.id();
        let p = unsafe { Slot::pin_local(*self, v) };
        (id, &*p as *const V as usize, V::ZST)
    }
}

struct Pinned { ty: usize, id: u32, addr: usize, size: usize }

pub struct Opts { pub types: &'static [usize], pub bombs: bool, pub set: bool, pub calibrate: bool, pub prune: bool, pub unpin: bool, pub max_slots: usize, pub holes: bool,
    /// Every other value is pinned with `pin_local`.
    pub local: bool }

struct World<Mem: 'static> {
    region: Region,
    stack: *mut ExitStack<Mem>,
    slots: Vec<(usize, Box<dyn SlotT>, Option<usize>)>,
    pinned: Vec<Pinned>,
    drops: Vec<(u32, usize)>,
    zdrops: usize,
    /// acquisitions since the stack was last empty: type and success
    history: Vec<(usize, bool)>,
    used: usize,
    calib: Option<Calib>,
    mems: usize,
    after_panic: bool,
}

fn mirror<V>() -> (usize, usize, usize) { (std::mem::size_of::<Mirror<V>>(), std::mem::align_of::<Mirror<V>>(), std::mem::offset_of!(Mirror<V>, value)) }

unsafe fn shared<Mem>(s: *mut ExitStack<Mem>) -> Pin<&'static ExitStack<Mem>> { Pin::new_unchecked(&*s) }

/// Measure where the memory of this stack starts and how much there is; None if the bookkeeping is not as expected.
fn calibrate<Mem: 'static>(at: *mut ExitStack<Mem>) -> Option<Calib> {
    #[repr(C, align(8))]
    struct A<const N: usize>([u64; N]);
    let mut bases = vec![];
    let mut cap = 0;
    macro_rules! probe { ($($n:literal)*) => { $( {
        unsafe { at.write(ExitStack::new()) };
        let got = nopanic("slot", || unsafe { shared(at) }.slot::<A<$n>>());
        if let Some(s) = got {
            let p = Slot::pin(s, A([0; $n]));
            bases.push(&*p as *const A<$n> as usize - mirror::<A<$n>>().2);
            cap = mirror::<A<$n>>().0;
            // the second one of the same type follows directly
            if let Some(s2) = unsafe { shared(at) }.slot::<A<$n>>() {
                let q = Slot::pin(s2, A([0; $n]));
                if &*q as *const _ as usize != &*p as *const _ as usize + cap { bases.push(0) }
            }
        }
        unsafe { std::ptr::drop_in_place(at) };
    } )* } }
    probe!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48);
    if bases.is_empty() || bases.iter().any(|b| *b != bases[0]) || bases[0] % 8 != 0 { return None }
    // more than the largest probe is not measured
    if cap == mirror::<A<48>>().0 { cap = usize::MAX }
    Some(Calib { base: bases[0], cap })
}

impl<Mem: 'static> World<Mem> {
    fn audit(&self, what: &str) {
        let d = ledger::drops();
        if d != self.drops {
            let ids = |v: &[(u32, usize)]| v.iter().map(|x| x.0).collect::<Vec<_>>();
            check!(ids(&d) == ids(&self.drops), "{what}: destructors ran in order {:?}, expected {:?}", ids(&d), ids(&self.drops));
            for (a, b) in d.iter().zip(&self.drops) { check!(b.1 == 0 || a.1 == b.1, "{what}: value {} was pinned at {:#x} but dropped at {:#x}", a.0, b.1, a.1) }
        }
        let z = ledger::with(|l| l.zst_dropped);
        check!(z == self.zdrops, "{what}: {z} zero-sized values dropped, expected {}", self.zdrops);
        check!(self.region.intact(), "{what}: memory outside of the stack was changed");
        for p in &self.pinned {
            let id = for_tok!(p.ty, V => unsafe { (*(p.addr as *const V)).id() });
            check!(id == p.id, "{what}: pinned value {} was overwritten (now {id})", p.id);
        }
    }
    fn expect_pop(&mut self) {
        while let Some(p) = self.pinned.pop() { if p.size == 0 { self.zdrops += 1 } else { self.drops.push((p.id, p.addr)) } }
        self.history.clear();
        self.used = 0;
    }
    /// A value is now at this place: aligned, inside of the stack, apart from all others.
    fn accept(&mut self, what: &str, ty: usize, id: u32, addr: usize) {
        let (size, align) = for_tok!(ty, V => (std::mem::size_of::<V>(), std::mem::align_of::<V>()));
        check!(addr % align == 0, "{what}: value at {addr:#x} is not aligned to {align}");
        check!(self.region.contains(addr, size), "{what}: value [{addr:#x}, +{size}) is not inside of the stack [{:#x}, +{})", self.region.addr(), self.region.len());
        for p in &self.pinned { check!(addr + size <= p.addr || p.addr + p.size <= addr, "{what}: value overlaps pinned value {}", p.id) }
        self.pinned.push(Pinned { ty, id, addr, size });
    }
    fn state(&self) -> impl std::hash::Hash {
        let b = self.region.addr();
        (self.slots.iter().map(|s| (s.0, s.2)).collect::<Vec<_>>(), self.pinned.iter().map(|p| (p.ty, p.addr - b)).collect::<Vec<_>>(), self.history.iter().filter(|h| h.1).map(|h| h.0).collect::<Vec<_>>(), self.mems.min(1), self.after_panic)
    }
}

/// What may panic in a pop.
fn choose_bomb<Mem: 'static>(ctx: &mut Ctx, w: &World<Mem>, o: &Opts) -> Option<u32> {
    if !o.bombs { return None }
    let ids: Vec<u32> = w.pinned.iter().filter(|p| p.size > 0).map(|p| p.id).collect();
    if ids.is_empty() { return None }
    let c = ctx.choose(ids.len() + 1);
    if c == 0 { None } else { Some(ids[c - 1]) }
}

fn step<Mem: 'static>(ctx: &mut Ctx, w: &mut World<Mem>, o: &Opts, mk: Option<fn(&mut World<Mem>) -> (u32, usize, usize)>) {
    let (nt, ns) = (o.types.len(), w.slots.len());
    let c = ctx.choose(nt + 2 * ns + 1 + (o.set && mk.is_some()) as usize + o.unpin as usize);
    if c < nt {
        let ty = o.types[c];
        if ns >= o.max_slots { return }
        let what = format!("slot::<{}>", tok_name(ty));
        ctx.op(|| format!("{what} with {} slots open and {} values pinned", ns, w.pinned.len()));
        let st = unsafe { shared(w.stack) };
        let got: Option<Box<dyn SlotT>> = nopanic(&what, || for_tok!(ty, V => st.slot::<V>().map(|s| Box::new(s) as Box<dyn SlotT>)));
        w.history.push((ty, got.is_some()));
        let mut at = None;
        if let Some(cal) = w.calib {
            let (size, align, off) = for_tok!(ty, V => mirror::<V>());
            let s = align_up(cal.base + w.used, align) - cal.base;
            let fits = s + size <= cal.cap;
            if !w.after_panic {
                check!(got.is_some() == fits || cal.cap == usize::MAX, "{what}: {} although {} of {} bytes are used", if fits { "refused" } else { "granted" }, w.used, cal.cap);
                at = Some(cal.base + s + off);
            }
            if got.is_some() { w.used = s + size }
        }
        if let Some(s) = got { w.slots.push((ty, s, at)); }
        return;
    }
    let c = c - nt;
    if c < ns {
        let (ty, s, at) = w.slots.remove(c);
        let local = o.local && w.pinned.len() % 2 == 0;
        let what = format!("pin{} a {} into open slot {c}", if local { "_local" } else { "" }, tok_name(ty));
        ctx.op(|| what.clone());
        let (id, addr, _) = nopanic("pin", || if local { s.pin_local() } else { s.pin() });
        if let Some(at) = at { check!(at == addr, "{what}: value at offset {} of the stack, its slot was at {}", addr - w.region.addr(), at - w.region.addr()); }
        w.accept(&what, ty, id, addr);
        return;
    }
    if c < 2 * ns {
        let (ty, s, _) = w.slots.remove(c - ns);
        ctx.op(|| format!("drop an unused slot of {}", tok_name(ty)));
        nopanic("drop of a slot", || drop(s));
        return;
    }
    let c = c - 2 * ns;
    if c == 0 || (c == 1 && o.set && mk.is_some()) {
        // Both need unique access: open slots end.
        w.slots.clear();
        let bomb = choose_bomb(ctx, w, o);
        let set = c == 1;
        ctx.op(|| format!("{}{}", if set { "set" } else { "pop_all" }, bomb.map_or(String::new(), |b| format!(" with value {b} panicking in its destructor"))));
        ledger::set_bomb(bomb);
        w.audit("before");
        let next = ledger::created() as u32;
        let r = if set { let mk = mk.unwrap(); catch(|| mk(w)).map(Some) } else { catch(|| unsafe { Pin::new_unchecked(&mut *w.stack).pop_all() }).map(|_| None) };
        ledger::set_bomb(None);
        check!(r.is_err() == bomb.is_some(), "{}", match &r { Err(m) => format!("unexpected panic: {m}"), Ok(_) => "the panic of a destructor was swallowed".to_string() });
        w.expect_pop();
        w.after_panic = bomb.is_some();
        match r {
            Ok(Some((id, addr, ty))) => { w.mems += 1; w.accept("set", ty, id, addr); if let Some(cal) = w.calib { let (size, align, _) = for_tok!(ty, V => mirror::<V>()); w.used = align_up(cal.base, align) - cal.base + size; w.history.push((ty, true)); } }
            Ok(None) => {}
            // a value passed to `set` is dropped by the panic
            Err(_) => if set { let made = (next..ledger::created() as u32).collect::<Vec<_>>(); for id in made { w.drops.push((id, 0)); } else_zst(w); },
        }
        return;
    }
    // Safe code can move a stack that is Unpin: do what mem::swap would do.
    w.slots.clear();
    ctx.op(|| "move the stack, as safe code can".into());
    let r = Region::new(w.region.addr() % 4096, w.region.len(), 0x11);
    let n = std::mem::size_of::<ExitStack<Mem>>();
    unsafe {
        std::ptr::copy_nonoverlapping(w.region.ptr(), r.ptr(), n);
        std::ptr::write_bytes(w.region.ptr(), 0, n);
    }
    w.stack = r.ptr() as *mut ExitStack<Mem>;
    let old = std::mem::replace(&mut w.region, r);
    std::mem::forget(old);
    check!(w.pinned.is_empty(), "safe code can move the ExitStack (it is Unpin) while {} values are pinned in it", w.pinned.len());
}

fn else_zst<Mem: 'static>(w: &mut World<Mem>) {
    // zero-sized value passed to `set`: counted, not identified
    let z = ledger::with(|l| l.zst_dropped);
    if z == w.zdrops + 1 { w.zdrops += 1 }
}

/// The value given to `set`.
pub trait SetValue: 'static { const TY: usize; fn smake() -> Self; fn sid(&self) -> u32; }
macro_rules! sv { ($($t:ident $i:literal),*) => { $( impl SetValue for $t { const TY: usize = $i; fn smake() -> Self { <$t as Identity>::make() } fn sid(&self) -> u32 { Identity::id(self) } } )* } }
sv!(Tok 0, TokBig 1, Tok16 2, Tok32 3, Tok64 4, Zst 5, Zst16 6, Tok128 7, TokHuge 9);

pub fn body_set<Mem: SetValue>(ctx: &mut Ctx, offset: usize, o: &Opts) {
    fn mk<Mem: SetValue>(w: &mut World<Mem>) -> (u32, usize, usize) {
        let v = Mem::smake();
        let id = v.sid();
        let p = unsafe { Pin::new_unchecked(&mut *w.stack) }.set(v);
        (id, &*p as *const Mem as usize, Mem::TY)
    }
    body::<Mem>(ctx, offset, o, Some(mk::<Mem>))
}

pub fn body_mem<Mem: 'static>(ctx: &mut Ctx, offset: usize, o: &Opts) { body::<Mem>(ctx, offset, o, None) }

fn body<Mem: 'static>(ctx: &mut Ctx, offset: usize, o: &Opts, mk: Option<fn(&mut World<Mem>) -> (u32, usize, usize)>) {
    let region = Region::new(offset, std::mem::size_of::<ExitStack<Mem>>(), 0xFF);
    let stack = region.ptr() as *mut ExitStack<Mem>;
    let calib = if o.calibrate { calibrate(stack) } else { None };
    unsafe { stack.write(ExitStack::new()) };
    let mut w = World { region, stack, slots: vec![], pinned: vec![], drops: vec![], zdrops: 0, history: vec![], used: 0, calib, mems: 0, after_panic: false };
    // After pruning, no more choices are made.
    let mut pruned = false;
    for i in 0..ctx.depth {
        if o.prune { if !ctx.visit(&w.state(), ctx.depth - i) { pruned = true; break } } else { ctx.note(&w.state()); if ctx.skipped() { break } }
        if i > 0 && ctx.flag() { break }
        step(ctx, &mut w, o, mk);
        w.audit("after the call");
        if o.calibrate { refill(&mut w); }
    }
    ctx.outcome(&(w.state(), w.drops.len()));
    if ctx.skipped() { w.slots.clear(); unsafe { std::ptr::drop_in_place(w.stack) }; return }
    // The stack goes out of scope.
    w.slots.clear();
    let bomb = if pruned { None } else { choose_bomb(ctx, &w, o) };
    ctx.op(|| format!("drop the stack{}", bomb.map_or(String::new(), |b| format!(" with value {b} panicking in its destructor"))));
    ledger::set_bomb(bomb);
    let s = w.stack;
    let r = catch(|| unsafe { std::ptr::drop_in_place(s) });
    ledger::set_bomb(None);
    check!(r.is_err() == bomb.is_some(), "drop of the stack: {:?}", r);
    w.expect_pop();
    w.audit("drop of the stack");
}

/// A fresh stack at the same place grants the same acquisitions.
fn refill<Mem: 'static>(w: &mut World<Mem>) {
    if w.after_panic || w.history.is_empty() { return }
    let region = Region::new(w.region.addr() % 4096, w.region.len(), 0x77);
    let st = region.ptr() as *mut ExitStack<Mem>;
    unsafe { st.write(ExitStack::new()) };
    for (i, &(ty, granted)) in w.history.iter().enumerate() {
        let fresh = unsafe { shared(st) };
        let got = for_tok!(ty, V => fresh.slot::<V>().is_some());
        check!(got == granted, "acquisition {i} since the stack was empty ({}) was {}, on a fresh stack it is {}", tok_name(ty), if granted { "granted" } else { "refused" }, if got { "granted" } else { "refused" });
    }
    unsafe { std::ptr::drop_in_place(st) };
}

const PATTERNS: [&[usize]; 6] = [&[0], &[0, 5], &[8, 0, 2, 4], &[8], &[1, 8, 6, 3], &[7, 8]];

/// Many values in one stack, filled twice.
pub fn long<Mem: 'static>(ctx: &mut Ctx, offset: usize, calibrated: bool, most: usize) {
    let region = Region::new(offset, std::mem::size_of::<ExitStack<Mem>>(), 0xFF);
    let stack = region.ptr() as *mut ExitStack<Mem>;
    let calib = if calibrated { calibrate(stack) } else { None };
    unsafe { stack.write(ExitStack::new()) };
    let mut w = World { region, stack, slots: vec![], pinned: vec![], drops: vec![], zdrops: 0, history: vec![], used: 0, calib: None, mems: 0, after_panic: false };
    let pat = PATTERNS[ctx.choose(PATTERNS.len())];
    let list: Vec<usize> = (0..34).chain([63, 64, 65, 127, 128, 129, 200]).filter(|n| *n < most).chain([most]).collect();
    let n = ctx.pick(&list);
    let order = ctx.choose(3);
    ctx.op(|| format!("{n} values of {:?}, {}", pat.iter().map(|t| tok_name(*t)).collect::<Vec<_>>(), ["each pinned at once", "slots acquired in pairs, pinned in reverse", "all slots first"][order]));
    for round in 0..2 {
        let mut full = false;
        for i in 0..n {
            let mut ty = pat[i % pat.len()];
            // one-byte identities are few
            if ty == 8 && ledger::created() + w.slots.len() >= 240 { ty = 0 }
            let st = unsafe { shared(w.stack) };
            let got: Option<Box<dyn SlotT>> = nopanic("slot", || for_tok!(ty, V => st.slot::<V>().map(|s| Box::new(s) as Box<dyn SlotT>)));
            w.history.push((ty, got.is_some()));
            if let Some(cal) = calib {
                let (size, align, off) = for_tok!(ty, V => mirror::<V>());
                let s = align_up(cal.base + w.used, align) - cal.base;
                if got.is_some() {
                    w.used = s + size;
                    w.slots.push((ty, got.unwrap(), Some(cal.base + s + off)));
                } else { full = true }
            } else { match got { Some(s) => w.slots.push((ty, s, None)), None => full = true } }
            let pin = |w: &mut World<Mem>, k: usize| {
                let (ty, s, at) = w.slots.remove(k);
                let (id, addr, _) = nopanic("pin", || s.pin());
                if let Some(at) = at { check!(at == addr, "value {i} at offset {} of the stack, expected at {}", addr - w.region.addr(), at - w.region.addr()) }
                let (size, align) = for_tok!(ty, V => (std::mem::size_of::<V>(), std::mem::align_of::<V>()));
                check!(addr % align == 0 && w.region.contains(addr, size), "value {i} at {addr:#x} is misaligned or outside of the stack");
                w.pinned.push(Pinned { ty, id, addr, size });
            };
            match order { 0 => while !w.slots.is_empty() { pin(&mut w, 0) }, 1 => if i % 2 == 1 { while !w.slots.is_empty() { let k = w.slots.len() - 1; pin(&mut w, k) } }, _ => {} }
            if full { break }
        }
        while !w.slots.is_empty() {
            let k = if order == 1 { w.slots.len() - 1 } else { 0 };
            let (ty, s, _) = w.slots.remove(k);
            let (id, addr, _) = nopanic("pin", || s.pin());
            let size = for_tok!(ty, V => std::mem::size_of::<V>());
            w.pinned.push(Pinned { ty, id, addr, size });
        }
        let mut spans: Vec<(usize, usize)> = w.pinned.iter().filter(|p| p.size > 0).map(|p| (p.addr, p.addr + p.size)).collect();
        spans.sort();
        for x in spans.windows(2) { check!(x[0].1 <= x[1].0, "two values overlap") }
        w.audit("after pinning");
        if !full { refill(&mut w) }
        ctx.note(&(n, order, full, w.pinned.len()));
        // who panics
        let ids: Vec<u32> = w.pinned.iter().filter(|p| p.size > 0 && p.ty != 8).map(|p| p.id).collect();
        let k = ids.len();
        let mut at: Vec<usize> = if k <= 24 { (0..k).collect() } else { vec![0, 1, 2, k / 2, k - 3, k - 2, k - 1] };
        at.push(usize::MAX);
        let bomb = if round == 0 { let a = ctx.pick(&at); if a == usize::MAX { None } else { Some(ids[a]) } } else { None };
        ctx.op(|| format!("{}{}", if round == 0 { "pop_all" } else { "drop the stack" }, bomb.map_or(String::new(), |b| format!(" with value {b} panicking in its destructor"))));
        ctx.outcome(&(w.pinned.len(), full, bomb.is_some()));
        ledger::set_bomb(bomb);
        let s = w.stack;
        let r = if round == 0 { catch(|| unsafe { Pin::new_unchecked(&mut *s).pop_all() }) } else { catch(|| unsafe { std::ptr::drop_in_place(s) }) };
        ledger::set_bomb(None);
        check!(r.is_err() == bomb.is_some(), "{r:?}");
        w.expect_pop();
        w.audit("after popping");
        if bomb.is_some() {
            // not known to be empty: popping again makes it
            nopanic("pop_all", || unsafe { Pin::new_unchecked(&mut *s).pop_all() });
            w.audit("popping the empty stack");
        }
    }
}
