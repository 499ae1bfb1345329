//! P18: Fill.
use fill::Fill;
use mcx::ctx::{catch, Ctx};
use mcx::driver::Meta;
use mcx::ledger::{self, Identity, Tok};
use mcx::{check, Scenario, Tier};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

/// One answer of the iterator.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Sym { Item, Err(usize), End, Panic }

#[derive(Default)]
struct Log { calls: usize, made: Vec<u32>, errs: usize }

/// An iterator that follows a script; it is not fused, and behind the script it is infinite.
struct Source<K: Kit> { script: Rc<Vec<Sym>>, log: Rc<RefCell<Log>>, hint: usize, _k: std::marker::PhantomData<fn() -> K> }
impl<K: Kit> Iterator for Source<K> {
    type Item = K::X;
    fn next(&mut self) -> Option<K::X> {
        let mut l = self.log.borrow_mut();
        let s = self.script.get(l.calls).copied().unwrap_or(Sym::Item);
        l.calls += 1;
        if l.calls > 60 && l.calls > K::limit() { drop(l); mcx::fail!("the iterator was asked far too many times") }
        match s {
            Sym::End => None,
            Sym::Panic => { drop(l); panic!("iterator panics") }
            Sym::Item => { let (x, id) = K::item(); if let Some(id) = id { l.made.push(id) } Some(x) }
            Sym::Err(level) => { l.errs += 1; let code = 100 * level as u32 + l.calls as u32; Some(K::error(level, code)) }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { match self.hint { 0 => (0, None), 1 => (usize::MAX, None), _ => (0, Some(1)) } }
}

#[derive(Clone, Debug, PartialEq, Hash)]
struct Model { err: Option<u32>, ids: Vec<u32>, room: usize }

/// A kind of container.
trait Kit: 'static {
    type C: Fill<Self::X>;
    type X;
    const LEVELS: usize = 0;
    const FINITE: bool = true;
    fn make(ctx: &mut Ctx) -> (Self::C, Model);
    fn item() -> (Self::X, Option<u32>);
    fn error(_level: usize, _code: u32) -> Self::X { unreachable!() }
    fn ids(c: &Self::C) -> Result<Vec<u32>, u32>;
    /// Add an item to the model of the container.
    fn store(m: &mut Model, id: u32);
    fn limit() -> usize { WIDE.with(|w| w.borrow().iter().max().copied().unwrap_or(0)) + 60 }
    /// The user makes some room again.
    fn tweak(_ctx: &mut Ctx, _c: &mut Self::C, _m: &mut Model) {}
}

struct OptKit;
impl Kit for OptKit {
    type C = Option<Tok>;
    type X = Tok;
    fn make(ctx: &mut Ctx) -> (Self::C, Model) {
        let full = ctx.flag();
        let c = full.then(Tok::make);
        let ids = c.iter().map(|t| t.id()).collect();
        (c, Model { err: None, ids, room: !full as usize })
    }
    fn item() -> (Tok, Option<u32>) { let t = Tok::make(); let id = t.id(); (t, Some(id)) }
    fn ids(c: &Self::C) -> Result<Vec<u32>, u32> { Ok(c.iter().map(|t| t.id()).collect()) }
    fn store(m: &mut Model, id: u32) { m.ids.push(id); m.room -= 1 }
    fn tweak(_ctx: &mut Ctx, c: &mut Self::C, m: &mut Model) { if c.take().is_some() { m.ids.clear(); m.room += 1 } }
}

const CAP: usize = 4;

// Sizes: all small ones, or those of a list.
thread_local! { static WIDE: RefCell<Vec<usize>> = const { RefCell::new(vec![]) }; }
fn wide() -> bool { WIDE.with(|w| !w.borrow().is_empty()) }
fn size(ctx: &mut Ctx) -> usize { if wide() { let l = WIDE.with(|w| w.borrow().clone()); ctx.pick(&l) } else { ctx.choose(CAP + 1) } }
fn part(ctx: &mut Ctx, of: usize) -> usize { if wide() { let mut l = vec![0, 1, of / 2, of.saturating_sub(1), of]; l.retain(|x| *x <= of); l.sort(); l.dedup(); ctx.pick(&l) } else { ctx.choose(of + 1) } }

struct VecKit;
impl Kit for VecKit {
    type C = Vec<Tok>;
    type X = Tok;
    fn make(ctx: &mut Ctx) -> (Self::C, Model) {
        let cap = size(ctx);
        let len = part(ctx, cap);
        let mut v = Vec::with_capacity(cap);
        for _ in 0..len { v.push(Tok::make()) }
        let room = v.capacity() - len;
        (v, Model { err: None, ids: vec![], room }).with_ids()
    }
    fn item() -> (Tok, Option<u32>) { OptKit::item() }
    fn ids(c: &Self::C) -> Result<Vec<u32>, u32> { Ok(c.iter().map(|t| t.id()).collect()) }
    fn store(m: &mut Model, id: u32) { m.ids.push(id); m.room -= 1 }
    fn tweak(ctx: &mut Ctx, c: &mut Self::C, m: &mut Model) {
        if c.is_empty() { return }
        let at = ctx.choose(2) * (c.len() - 1);
        drop(c.remove(at));
        m.ids.remove(at);
        m.room += 1;
    }
}
trait WithIds { fn with_ids(self) -> Self; }
impl WithIds for (Vec<Tok>, Model) { fn with_ids(mut self) -> Self { self.1.ids = self.0.iter().map(|t| t.id()).collect(); self } }
impl WithIds for (VecDeque<Tok>, Model) { fn with_ids(mut self) -> Self { self.1.ids = self.0.iter().map(|t| t.id()).collect(); self } }

struct DequeKit;
impl Kit for DequeKit {
    type C = VecDeque<Tok>;
    type X = Tok;
    fn make(ctx: &mut Ctx) -> (Self::C, Model) {
        let cap = size(ctx);
        let shift = if wide() { part(ctx, cap.saturating_sub(1)) } else { ctx.choose(cap.max(1)) };
        let len = part(ctx, cap);
        let mut v = VecDeque::with_capacity(cap);
        let cap = v.capacity();
        // let the contents wrap around the end of the buffer
        for _ in 0..shift { v.push_back(Tok::make()); }
        for _ in 0..shift { std::mem::forget(v.pop_front()) }
        for _ in 0..len { v.push_back(Tok::make()) }
        assert_eq!(v.capacity(), cap);
        (v, Model { err: None, ids: vec![], room: cap - len }).with_ids()
    }
    fn item() -> (Tok, Option<u32>) { OptKit::item() }
    fn ids(c: &Self::C) -> Result<Vec<u32>, u32> { Ok(c.iter().map(|t| t.id()).collect()) }
    fn store(m: &mut Model, id: u32) { m.ids.push(id); m.room -= 1 }
    fn tweak(ctx: &mut Ctx, c: &mut Self::C, m: &mut Model) {
        if c.is_empty() { return }
        if ctx.flag() { drop(c.pop_front()); m.ids.remove(0); } else { drop(c.pop_back()); m.ids.pop(); }
        m.room += 1;
    }
}

struct UnitKit;
impl Kit for UnitKit {
    type C = ();
    type X = ();
    const FINITE: bool = false;
    fn make(_: &mut Ctx) -> ((), Model) { ((), Model { err: None, ids: vec![], room: usize::MAX }) }
    fn item() -> ((), Option<u32>) { ((), None) }
    fn ids(_: &()) -> Result<Vec<u32>, u32> { Ok(vec![]) }
    fn store(_: &mut Model, _: u32) {}
}

// Arrays behind slice iterators; the array outlives the execution's containers.
thread_local! { static ARR: RefCell<(Vec<Tok>, Vec<Tok>)> = const { RefCell::new((vec![], vec![])) }; }
fn array(ctx: &mut Ctx) -> (std::slice::IterMut<'static, Tok>, Model) {
    let n = size(ctx);
    let skip = part(ctx, n);
    let back = part(ctx, n - skip);
    ARR.with(|a| {
        let mut a = a.borrow_mut();
        a.0.reserve(n);
        a.0.extend((0..n).map(|_| Tok::make()));
        let s: &'static mut [Tok] = unsafe { std::slice::from_raw_parts_mut(a.0.as_mut_ptr(), n) };
        let mut it = s.iter_mut();
        for _ in 0..skip { it.next(); }
        for _ in 0..back { it.next_back(); }
        let ids = a.0.iter().map(|t| t.id()).collect();
        (it, Model { err: None, ids, room: n - skip - back })
    })
}
fn array_ids() -> Vec<u32> { ARR.with(|a| a.borrow().0.iter().map(|t| t.id()).collect()) }
thread_local! { static NEXT: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) }; }

/// The model of a slice iterator needs the position: it is behind the last stored item.
fn array_store(m: &mut Model, id: u32) {
    let (start, _) = NEXT.with(|n| n.get());
    m.ids[start] = id;
    NEXT.with(|n| n.set((start + 1, 0)));
    m.room -= 1;
}
struct IterKit;
impl Kit for IterKit {
    type C = std::slice::IterMut<'static, Tok>;
    type X = Tok;
    fn make(ctx: &mut Ctx) -> (Self::C, Model) {
        let (c, m) = array(ctx);
        let at = c.as_slice().first().map(|f| m.ids.iter().position(|i| *i == f.id()).unwrap()).unwrap_or(0);
        NEXT.with(|n| n.set((at, 0)));
        (c, m)
    }
    fn item() -> (Tok, Option<u32>) { OptKit::item() }
    fn ids(_: &Self::C) -> Result<Vec<u32>, u32> { Ok(array_ids()) }
    fn store(m: &mut Model, id: u32) { array_store(m, id) }
}
struct SwapKit;
impl Kit for SwapKit {
    type C = std::slice::IterMut<'static, Tok>;
    type X = &'static mut Tok;
    fn make(ctx: &mut Ctx) -> (Self::C, Model) { ARR.with(|a| a.borrow_mut().1.reserve(Self::limit() + 4)); IterKit::make(ctx) }
    fn item() -> (&'static mut Tok, Option<u32>) {
        ARR.with(|a| {
            let mut a = a.borrow_mut();
            assert!(a.1.len() < a.1.capacity());
            a.1.push(Tok::make());
            let t = a.1.last_mut().unwrap();
            let id = t.id();
            (unsafe { &mut *(t as *mut Tok) }, Some(id))
        })
    }
    fn ids(_: &Self::C) -> Result<Vec<u32>, u32> { Ok(array_ids()) }
    fn store(m: &mut Model, id: u32) { array_store(m, id) }
}

/// A result of a container.
struct Res<K>(K);
impl<K: Kit> Kit for Res<K> {
    type C = Result<K::C, u32>;
    type X = Result<K::X, u32>;
    const LEVELS: usize = K::LEVELS + 1;
    const FINITE: bool = K::FINITE;
    fn make(ctx: &mut Ctx) -> (Self::C, Model) {
        if ctx.flag() { return (Err(7), Model { err: Some(7), ids: vec![], room: 0 }) }
        let (c, m) = K::make(ctx);
        (Ok(c), m)
    }
    fn item() -> (Self::X, Option<u32>) { let (x, id) = K::item(); (Ok(x), id) }
    fn error(level: usize, code: u32) -> Self::X { if level == K::LEVELS { Err(code) } else { Ok(K::error(level, code)) } }
    fn ids(c: &Self::C) -> Result<Vec<u32>, u32> { match c { Ok(c) => K::ids(c), Err(e) => Err(*e) } }
    fn store(m: &mut Model, id: u32) { K::store(m, id) }
    fn tweak(ctx: &mut Ctx, c: &mut Self::C, m: &mut Model) { if let Ok(c) = c { K::tweak(ctx, c, m) } }
}

/// Dropping the arrays of the execution before would be a drop of its values.
fn forget_arrays() { ARR.with(|a| { let mut a = a.borrow_mut(); unsafe { a.0.set_len(0); a.1.set_len(0) } }) }

fn check_model<K: Kit>(what: &str, c: &K::C, m: &Model) {
    let got = K::ids(c);
    match m.err {
        Some(e) => check!(got == Err(e), "{what}: container is {got:?}, expected the error {e}"),
        None => check!(got.as_ref() == Ok(&m.ids), "{what}: container is {got:?}, expected {:?}", m.ids),
    }
}

fn show(s: &[Sym]) -> String { let n = s.iter().take_while(|x| **x == Sym::Item).count(); if n < 8 { format!("{s:?}") } else { format!("{n} items, then {:?}", &s[n..]) } }

fn body<K: Kit>(ctx: &mut Ctx, longer: usize, sizes: &[usize]) {
    WIDE.with(|w| *w.borrow_mut() = sizes.to_vec());
    forget_arrays();
    let (mut c, mut m) = K::make(ctx);
    ctx.op(|| format!("container with room for {} items{}", m.room as isize, if m.err.is_some() { ", an error" } else { "" }));
    check_model::<K>("new", &c, &m);
    for step in 0..ctx.depth {
        if ctx.skipped() { break }
        ctx.note(&(step, m.room, m.ids.len(), m.err.is_some()));
        if step > 0 { K::tweak(ctx, &mut c, &mut m); }
        // the script of the iterator
        let mut script = vec![];
        let most = m.room.min(CAP) + longer;
        if wide() {
            let room = m.room.min(300);
            let n = if step > 0 { room + 1 } else { let mut l = vec![0, 1, room / 2, room.saturating_sub(1), room, room + 1]; l.sort(); l.dedup(); ctx.pick(&l) };
            script.extend((0..n).map(|_| Sym::Item));
            let s = if step > 0 { 0 } else { ctx.choose(3 + K::LEVELS + K::FINITE as usize) };
            match s { 0 => script.push(Sym::End), 1 => script.push(Sym::Panic), l if l - 2 < K::LEVELS + 1 && l - 2 < K::LEVELS => script.push(Sym::Err(l - 2)), _ => if !K::FINITE { script.push(Sym::End) } }
        } else { loop {
            let infinite = K::FINITE && script.len() == most;
            if infinite { break }
            if script.len() == most { script.push(Sym::End); break }
            let s = ctx.choose(3 + K::LEVELS);
            let s = match s { 0 => Sym::Item, 1 => Sym::End, 2 => Sym::Panic, l => Sym::Err(l - 3) };
            script.push(s);
            if s != Sym::Item { break }
        } }
        let end = script.last().copied();
        // an iterator that is not fused, and items behind an error
        let script = Rc::new(script);
        let method = ctx.choose(5);
        let hint = ctx.choose(if step == 0 { 3 } else { 1 });
        let name = ["fill", "fill_and_keep_tail", "fill_count", "checked_fill", "fill by reference"][method];
        ctx.op(|| format!("{name} with room {} from {}", m.room as isize, show(&script)));
        let log = Rc::new(RefCell::new(Log::default()));
        let src = Source::<K> { script: script.clone(), log: log.clone(), hint, _k: std::marker::PhantomData };
        // expectation
        let (mut calls, mut pulled, mut ended, mut panics, mut stores) = (0, 0, false, false, 0);
        let mut err = m.err;
        while err.is_none() && stores < m.room {
            let s = script.get(calls).copied().unwrap_or(Sym::Item);
            calls += 1;
            match s {
                Sym::Item => { stores += 1; pulled += 1 }
                Sym::End => { ended = true; break }
                Sym::Panic => { panics = true; break }
                Sym::Err(l) => { pulled += 1; err = Some(100 * l as u32 + calls as u32) }
            }
        }
        let mut count = None;
        let mut tail: Option<Source<K>> = None;
        let mut checked = None;
        let r = catch(|| match method {
            0 => c.fill(src),
            1 => tail = Some(c.fill_and_keep_tail(src)),
            2 => count = Some(c.fill_count(src)),
            3 => { tail = c.checked_fill(src); checked = Some(tail.is_some()) }
            _ => { let mut s = src; c.fill(s.by_ref()); tail = Some(s) }
        });
        check!(r.is_err() == panics, "{name}: {r:?}");
        // what was taken
        {
            let l = log.borrow();
            check!(l.calls == calls, "{name} with room {} asked the iterator {} times, expected {calls} (script {})", m.room as isize, l.calls, show(&script));
            check!(l.made.len() == stores || !K::FINITE, "{name} took {} items, expected {stores}", l.made.len());
            for id in &l.made { K::store(&mut m, *id) }
            m.err = err;
            if panics { /* the items before the panic are kept, the state is otherwise as before */ }
        }
        if let Some(n) = count { check!(n == pulled, "fill_count returned {n}, {pulled} items were taken") }
        if let Some(s) = checked { check!(s != ended, "checked_fill returned {} although the iterator {}", if s { "a tail" } else { "None" }, if ended { "ended" } else { "did not end" }) }
        check_model::<K>(name, &c, &m);
        // the tail continues where the filling stopped
        if let Some(mut t) = tail {
            if end != Some(Sym::Panic) && !ended && K::FINITE {
                let before = log.borrow().made.len();
                let errs = log.borrow().errs;
                let x = t.next();
                let want = script.get(calls).copied().unwrap_or(Sym::Item);
                let l = log.borrow();
                check!(l.calls == calls + 1 && x.is_some() == (want != Sym::End) && (l.made.len() > before) == (want == Sym::Item) && (l.errs > errs) == matches!(want, Sym::Err(_)), "{name}: the tail does not continue behind the stored items");
                drop(l);
                std::mem::forget(x);
            }
        }
        ctx.outcome(&(name, m.ids.len(), m.err, pulled, ended, panics));
    }
    // every value is dropped once
    let inside = K::ids(&c);
    drop(c);
    let _ = inside;
}

/// Also the drops: everything that was stored is dropped when the container is, nothing else was dropped before.
fn drops<K: Kit>(ctx: &mut Ctx) {
    WIDE.with(|w| w.borrow_mut().clear());
    forget_arrays();
    let (mut c, mut m) = K::make(ctx);
    let n = ctx.choose(CAP + 3);
    let method = ctx.choose(4);
    ctx.op(|| format!("fill room {} from {n} items, entry point {method}", m.room as isize));
    ctx.note(&(n, method, m.room));
    let mut script = vec![Sym::Item; n];
    script.push(Sym::End);
    let log = Rc::new(RefCell::new(Log::default()));
    let src = Source::<K> { script: Rc::new(script), log: log.clone(), hint: 0, _k: std::marker::PhantomData };
    let before = m.ids.clone();
    match method { 0 => c.fill(src), 1 => { let _ = c.fill_and_keep_tail(src); } 2 => { c.fill_count(src); } _ => { let _ = c.checked_fill(src); } }
    let made = log.borrow().made.clone();
    for id in &made { K::store(&mut m, *id) }
    let replaced: Vec<u32> = before.iter().copied().filter(|b| !m.ids.contains(b)).collect();
    let mut d = ledger::drop_ids();
    d.sort();
    ctx.outcome(&(d.len(), m.ids.len()));
    check!(d == replaced, "filling dropped {d:?}, expected {replaced:?}");
    check_model::<K>("fill", &c, &m);
}

/// More room than 8 or 16 bits count: plain numbers, one fill through each entry point.
struct Count<'a, F> { calls: &'a std::cell::Cell<usize>, n: usize, make: F }
impl<X, F: FnMut(usize) -> X> Iterator for Count<'_, F> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        let i = self.calls.get();
        self.calls.set(i + 1);
        if i >= self.n { None } else { Some((self.make)(i)) }
    }
}
fn huge(ctx: &mut Ctx, sizes: &[usize]) {
    let kind = ctx.choose(8);
    let method = ctx.choose(4);
    let room = ctx.pick(sizes);
    let before = ctx.pick(&[0usize, 3, 65536]);
    let mut counts = vec![0, 1, room / 2, room - 1, room, room + 1, room + 65536, 65535, 65536, 65537];
    counts.sort(); counts.dedup();
    let n = ctx.pick(&counts);
    let method_name = ["fill", "fill_and_keep_tail", "fill_count", "checked_fill"][method];
    let name = format!("{method_name} of {} with room for {room} behind {before} items from an iterator of {n}", ["Vec", "VecDeque", "IterMut", "IterMut of references", "Result<Vec>", "Result<VecDeque>", "Result<IterMut>", "Result<IterMut of references>"][kind]);
    ctx.op(|| name.clone());
    if ctx.skipped() { return }
    ctx.note(&(kind, method, room, before, n));
    let calls = std::cell::Cell::new(0usize);
    fn run<C: Fill<X>, X, I: Iterator<Item = X>>(c: &mut C, method: usize, it: I) -> (Option<usize>, Option<bool>) {
        match method {
            0 => { c.fill(it); (None, None) }
            1 => { let _tail = c.fill_and_keep_tail(it); (None, None) }
            2 => (Some(c.fill_count(it)), None),
            _ => (None, Some(c.checked_fill(it).is_some())),
        }
    }
    let mut room = room;
    let old = |i: usize| 0x8000_0000u32 + i as u32;
    let item = |i: usize| i as u32 + 7;
    let mut swapped: Vec<u32> = vec![];
    let (got, told): (Vec<u32>, _) = match kind % 4 {
        0 => {
            let mut v: Vec<u32> = Vec::with_capacity(before + room);
            room = v.capacity() - before;
            v.extend((0..before).map(old));
            if kind < 4 { let t = run(&mut v, method, Count { calls: &calls, n, make: item }); (v, t) }
            else { let mut r: Result<Vec<u32>, ()> = Ok(v); let t = run(&mut r, method, Count { calls: &calls, n, make: |i| Ok(item(i)) }); (r.unwrap(), t) }
        }
        1 => {
            let mut v: VecDeque<u32> = VecDeque::with_capacity(before + room);
            room = v.capacity() - before;
            // the contents wrap around the end of the buffer
            for _ in 0..room / 2 { v.push_back(0) }
            v.clear();
            v.extend((0..before).map(old));
            if kind < 4 { let t = run(&mut v, method, Count { calls: &calls, n, make: item }); (v.into_iter().collect(), t) }
            else { let mut r: Result<VecDeque<u32>, ()> = Ok(v); let t = run(&mut r, method, Count { calls: &calls, n, make: |i| Ok(item(i)) }); (r.unwrap().into_iter().collect(), t) }
        }
        2 => {
            let mut data: Vec<u32> = (0..before + room).map(old).collect();
            let mut it = data.iter_mut();
            it.by_ref().take(before).for_each(drop);
            let (t, left) = if kind < 4 { let t = run(&mut it, method, Count { calls: &calls, n, make: item }); (t, it.len()) }
            else { let mut r: Result<_, ()> = Ok(it); let t = run(&mut r, method, Count { calls: &calls, n, make: |i| Ok(item(i)) }); (t, r.unwrap().len()) };
            check!(left == room - n.min(room), "{name}: {left} places left");
            data.truncate(before + n.min(room));
            (data, t)
        }
        _ => {
            let mut data: Vec<u32> = (0..before + room).map(old).collect();
            swapped = (0..n).map(item).collect();
            let mut it = data.iter_mut();
            it.by_ref().take(before).for_each(drop);
            let from = swapped.as_mut_ptr();
            let make = move |i: usize| unsafe { &mut *from.add(i) };
            let (t, left) = if kind < 4 { let t = run(&mut it, method, Count { calls: &calls, n, make }); (t, it.len()) }
            else { let mut r: Result<_, ()> = Ok(it); let t = run(&mut r, method, Count { calls: &calls, n, make: move |i| Ok(make(i)) }); (t, r.unwrap().len()) };
            check!(left == room - n.min(room), "{name}: {left} places left");
            data.truncate(before + n.min(room));
            (data, t)
        }
    };
    let stores = n.min(room);
    let asked = if n < room { n + 1 } else { room };
    check!(calls.get() == asked, "{name}: the iterator was asked {} times, expected {asked}", calls.get());
    check!(got.len() == before + stores, "{name}: {} items in the container, expected {}", got.len(), before + stores);
    for (i, x) in got.iter().enumerate() { let want = if i < before { old(i) } else { item(i - before) }; check!(*x == want, "{name}: item {i} is {x:#x} instead of {want:#x}") }
    for (i, x) in swapped.iter().enumerate() { let want = if i < stores { old(before + i) } else { item(i) }; check!(*x == want, "{name}: source {i} is {x:#x} instead of {want:#x}") }
    if let Some(c) = told.0 { check!(c == stores, "{name}: counts {c}") }
    if let Some(o) = told.1 { check!(o == (n >= room), "{name}: reports {}", if o { "a tail" } else { "no tail" }) }
    ctx.outcome(&(kind, method, got.len()));
}

/// A container of the user that asks again behind the end of the iterator, `more` times.
struct Nosy { items: Vec<u32>, room: usize, more: usize }
impl Fill<u32> for Nosy {
    fn fill<I: IntoIterator<Item = u32>>(&mut self, iter: I) {
        let mut it = iter.into_iter();
        let mut more = self.more;
        while self.items.len() < self.room {
            match it.next() { Some(x) => self.items.push(x), None if more == 0 => break, None => more -= 1 }
        }
    }
}
/// In a result it sees nothing behind the first error: nothing more is taken, stored or overwritten.
fn nosy(ctx: &mut Ctx, levels: usize) {
    let (room, more, method) = (ctx.choose(6), ctx.choose(4), ctx.choose(5));
    let n = ctx.choose(room + 2);
    let level = ctx.choose(levels);
    // what comes behind the error
    let behind = ctx.choose(3 * levels);
    ctx.op(|| format!("{levels} results of a container with room for {room} that asks {more} times more; {n} items, an error of level {level}, entry point {method}"));
    if ctx.skipped() { return }
    ctx.note(&(levels, room, more, method, n, level, behind));
    let calls = std::cell::Cell::new(0usize);
    fn go<C: Fill<X>, X, I: Iterator<Item = X>>(c: &mut C, method: usize, mut it: I) -> (Option<usize>, Option<bool>) {
        match method {
            0 => { c.fill(it); (None, None) }
            1 => { let _tail = c.fill_and_keep_tail(it); (None, None) }
            2 => (Some(c.fill_count(it)), None),
            3 => (None, Some(c.checked_fill(it).is_some())),
            _ => { c.fill(it.by_ref()); (None, None) }
        }
    }
    // the items of the innermost level; a script position to the answer
    let answer = |i: usize| -> Option<Result<Result<u32, usize>, usize>> {
        calls.set(calls.get() + 1);
        if calls.get() > 100 { mcx::fail!("the iterator was asked far too many times") }
        if i < n { return Some(Ok(Ok(i as u32))) }
        let error = |l: usize, code: usize| if l == 0 { Err(code) } else { Ok(Err(code)) };
        Some(if i == n { error(level, 100) } else { match behind % 3 { 0 => Ok(Ok(i as u32)), 1 => error(behind / 3, 100 + i), _ => if i % 2 == 0 { error(behind / 3, 100 + i) } else { Ok(Ok(i as u32)) } } })
    };
    let c = Nosy { items: vec![], room, more };
    let mut i = 0;
    let mut step = || { i += 1; answer(i - 1) };
    // the error is seen only when there is room for another item
    let fails = n < room;
    let (got, told): (Result<Vec<u32>, (usize, usize)>, _) = if levels == 1 {
        let mut c: Result<Nosy, usize> = Ok(c);
        let it = std::iter::from_fn(|| step().map(|x| match x { Ok(Ok(v)) => Ok(v), Ok(Err(e)) | Err(e) => Err(e) }));
        let t = go(&mut c, method, it);
        (c.map(|c| c.items).map_err(|e| (0, e)), t)
    } else {
        let mut c: Result<Result<Nosy, usize>, usize> = Ok(Ok(c));
        let t = go(&mut c, method, std::iter::from_fn(|| step()));
        (match c { Ok(Ok(c)) => Ok(c.items), Ok(Err(e)) => Err((1, e)), Err(e) => Err((0, e)) }, t)
    };
    let asked = if fails { n + 1 } else { room };
    check!(calls.get() == asked, "a result of a container that asks again behind the end: the iterator was asked {} times, expected {asked}", calls.get());
    let want = if fails { Err((level, 100)) } else { Ok((0..room as u32).collect::<Vec<_>>()) };
    check!(got == want, "a result of a container that asks again behind the end is {got:?}, expected {want:?}");
    if let Some(c) = told.0 { check!(c == asked, "fill_count returned {c}, {asked} items were taken") }
    if let Some(o) = told.1 { check!(o, "checked_fill reports no tail although the iterator did not end") }
    ctx.outcome(&(fails, level, asked));
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let d = if q { 2 } else { 3 };
    let longer = if q { 2 } else { 2 };
    macro_rules! kits { ($($n:literal $k:ty;)*) => { $(
        v.push(Scenario::new(concat!($n, ", sequences"), d, move |c| body::<$k>(c, longer, &[])).split(if q { 1 } else { 16 }, 6));
        v.push(Scenario::new(concat!($n, ", one long fill"), 1, move |c| body::<$k>(c, 6, &[])));
        let sizes: Vec<usize> = if q { (5..18).chain([31, 32, 33]).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect() } else { (5..131).chain([255, 256, 257, 511, 512, 513, 1024, 1025, 4096, 4097]).collect() };
        v.push(Scenario::new(concat!($n, ", larger sizes"), 2, move |c| body::<$k>(c, 0, &sizes)).split(if q { 1 } else { 8 }, 3));
    )* } }
    kits! {
        "Option" OptKit; "Vec" VecKit; "VecDeque" DequeKit; "IterMut" IterKit; "IterMut of references" SwapKit; "()" UnitKit;
        "Result<Option>" Res<OptKit>; "Result<Vec>" Res<VecKit>; "Result<VecDeque>" Res<DequeKit>; "Result<IterMut>" Res<IterKit>; "Result<IterMut of references>" Res<SwapKit>; "Result<()>" Res<UnitKit>;
        "Result<Result<Vec>>" Res<Res<VecKit>>; "Result<Result<Option>>" Res<Res<OptKit>>; "Result<Result<()>>" Res<Res<UnitKit>>; "Result<Result<Result<Option>>>" Res<Res<Res<OptKit>>>;
    }
    let sizes: &'static [usize] = if q { &[255, 256, 257, 32769, 65535, 65536, 65537, 131073] } else { &[255, 256, 257, 4097, 32767, 32769, 65535, 65536, 65537, 131071, 131072, 131073, (1 << 20) + 1] };
    v.push(Scenario::new("more room than 16 bits count", 1, move |c| huge(c, sizes)).split(if q { 4 } else { 8 }, 3));
    for l in [1usize, 2] { v.push(Scenario::new(format!("{l} results of a container that asks again"), 1, move |c| nosy(c, l))) }
    v.push(Scenario::new("drops of Option", 1, drops::<OptKit>));
    v.push(Scenario::new("drops of Vec", 1, drops::<VecKit>));
    v.push(Scenario::new("drops of IterMut", 1, drops::<IterKit>));
    v
}

fn main() {
    mcx::main(Meta {
        property: "P18",
        what: "every container kind (option, vector, queue with wrapped contents, slice iterators, unit, results of these, nested results) in every fill state is filled through every entry point (fill, fill_and_keep_tail, fill_count, checked_fill, by reference) from every iterator script (items, errors of every level, an early end that is not fused, a panic, endless), several times in a row with items removed in between; the number of calls of the iterator, the contents, the count, the tail and the overflow report are compared with a model",
        bounds: "capacity 0-4 with every number of items and every position; iterators of up to room+2 items (room+6 for a single fill) or endless; sequences of 2 (3) fills; room for up to 131073 (1 Mi) numbers; three nesting levels of results; a container of the user that asks up to 3 times more behind the end, in one or two results",
        assumptions: &[],
    }, scenarios)
}
