//! All sequences of calls on FixedVecs, against a Vec of identities.
use mcx::ctx::{catch, nopanic};
use mcx::ledger::{self, *};
use mcx::mem::{align_up, Region};
use mcx::{check, Ctx};
use std::mem::{align_of, size_of, MaybeUninit};
use std::ops::Bound;
use without_alloc::{FixedVec, Uninit};

pub struct Opts { pub bombs: bool, pub forget: bool, pub prune: bool, pub max_vecs: usize, pub wide: bool, pub big: u8 }

#[derive(Clone)]
struct VM { ids: Vec<u32>, cap: usize, addr: usize, bytes: usize }

struct Env { region: Region, dropped: Vec<u32>, zdropped: usize, opts: &'static Opts, tails: Vec<(usize, usize)>, leaked: usize }

impl Env {
    fn gone<V: Identity>(&mut self, id: u32) { if V::ZST { self.zdropped += 1 } else { self.dropped.push(id) } }
    /// All destructors that ran so far.
    fn audit(&self, what: &str) {
        let mut d = ledger::drop_ids();
        d.sort();
        let mut e = self.dropped.clone();
        e.sort();
        check!(d == e, "{what}: dropped values are {d:?}, expected {e:?}");
        let z = ledger::with(|l| l.zst_dropped);
        check!(z == self.zdropped, "{what}: {z} zero-sized values were dropped, expected {}", self.zdropped);
        check!(self.region.intact(), "{what}: memory around the vector was changed");
        for t in &self.tails { check!((0..t.1).all(|i| unsafe { *((t.0 + i) as *const u8) } == 0xA9), "{what}: memory split off by shrink_to_fit was changed") }
    }
    /// After a panic: take over what was dropped.
    fn resync(&mut self) { self.dropped = ledger::drop_ids(); self.zdropped = ledger::with(|l| l.zst_dropped); }
}

static INNER: Opts = Opts { bombs: false, forget: false, prune: false, max_vecs: 1, wide: false, big: 0 };
static INNER_BOMBS: Opts = Opts { bombs: true, forget: true, prune: false, max_vecs: 1, wide: false, big: 0 };

fn ids<V: Identity>(s: &[V]) -> Vec<u32> { s.iter().map(|v| v.id()).collect() }

fn check_vec<V: Identity>(what: &str, v: &mut FixedVec<'_, V>, m: &VM) {
    let got = ids(v.as_slice());
    check!(got == m.ids, "{what}: vector holds {got:?}, expected {:?}", m.ids);
    let g2 = ids(v.as_mut_slice());
    check!(g2 == got && v.len() == m.ids.len() && v.is_empty() == m.ids.is_empty(), "{what}: len, is_empty or as_mut_slice disagree with as_slice");
    check!(v.capacity() == m.cap, "{what}: capacity {} expected {}", v.capacity(), m.cap);
    if !V::ZST || m.addr != 0 {
        check!(m.cap == 0 || v.as_slice().as_ptr() as usize == m.addr, "{what}: elements are at {:#x} instead of {:#x}", v.as_slice().as_ptr() as usize, m.addr);
        check!(v.as_mut_ptr() as *const V == v.as_ptr() && v.as_ptr() == v.as_slice().as_ptr(), "{what}: as_ptr, as_mut_ptr and as_slice disagree");
    }
    check!(v.as_ptr() as usize % align_of::<V>() == 0, "{what}: elements are misaligned");
    if let Some(f) = m.ids.first() { check!(v[0].id() == *f && v[..].len() == m.ids.len() && v.last().unwrap().id() == *m.ids.last().unwrap(), "{what}: indexing is wrong") }
    check!(v.get(m.ids.len()).is_none(), "{what}: element behind the end");
}

/// An iterator of new values which counts its calls.
struct Source<V> { made: Vec<u32>, left: usize, calls: usize, ended: bool, spare: usize, after_end: bool, panic_at: usize, hint: usize, _p: std::marker::PhantomData<V> }
impl<V: Identity> Source<V> {
    fn new(n: usize, hint: usize, panic_at: usize) -> Self { Source { made: vec![], left: n, calls: 0, ended: false, spare: 16, after_end: false, panic_at, hint, _p: std::marker::PhantomData } }
}
impl<V: Identity> Iterator for Source<V> {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        self.calls += 1;
        if self.ended { self.after_end = true }
        if self.calls == self.panic_at { panic!("iterator panics") }
        if self.left == 0 {
            // not fused: a caller that asks again gets another value
            if !self.ended { self.ended = true; return None }
            if self.spare == 0 { return None }
            self.spare -= 1;
        }
        self.left = self.left.saturating_sub(1);
        let v = V::make();
        self.made.push(v.id());
        Some(v)
    }
    fn size_hint(&self) -> (usize, Option<usize>) { match self.hint { 0 => (self.left, Some(self.left)), 1 => (0, None), _ => (self.left.min(1), Some(usize::MAX)) } }
}
/// Lets the source be inspected after the vector consumed it.
struct ByRef<'a, V>(&'a mut Source<V>);
impl<V: Identity> Iterator for ByRef<'_, V> {
    type Item = V;
    fn next(&mut self) -> Option<V> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}

/// The value that panics in its destructor, out of those which the operation drops.
fn bomb(ctx: &mut Ctx, env: &Env, of: &[u32], zst: bool) -> Option<u32> {
    if !env.opts.bombs || of.is_empty() || zst { return None }
    let b = if env.opts.big > 0 {
        let mut l = vec![None, Some(of[0]), Some(of[of.len() / 2]), Some(of[of.len() - 1])];
        l.dedup();
        ctx.pick(&l)
    } else {
        let c = ctx.choose(of.len() + 1);
        if c == 0 { None } else { Some(of[c - 1]) }
    };
    ledger::set_bomb(b);
    b
}

fn bomb_text(b: Option<u32>) -> String { b.map_or(String::new(), |b| format!(", value {b} panics in its destructor")) }

/// After a panic the vector must be consistent; nothing but `may_leak` may be lost. Returns what is still inside.
fn after_panic<V: Identity>(what: &str, env: &mut Env, v: &mut FixedVec<'_, V>, m: &mut VM, had: &[u32], may_leak: bool) {
    env.resync();
    let n = v.len();
    check!(n <= m.cap && n <= had.len(), "{what}: after the panic the vector has {n} elements");
    let now = ids(v.as_slice());
    let mut it = had.iter();
    check!(now.iter().all(|x| it.any(|y| y == x)), "{what}: after the panic the vector holds {now:?}, before it held {had:?}");
    for h in had {
        let (inside, gone) = (now.contains(h), env.dropped.contains(h));
        check!(!(inside && gone), "{what}: after the panic the vector exposes value {h} although it was dropped");
        if !inside && !gone { check!(may_leak, "{what}: value {h} was lost by the panic"); env.leaked += 1 }
    }
    m.ids = now;
}

/// Where to split: every place within the (bounded) capacity, and when places are enumerated in
/// full also those beyond it: just past the end, and those whose byte offset wraps around.
fn split_at(ctx: &mut Ctx, c: usize, cap: usize, size: usize, o: &Opts) -> usize {
    let at = pos(ctx, c + 1, o);
    if at != c + 1 { return at }
    if cap == usize::MAX { return usize::MAX }
    let wrap = usize::MAX / size;
    let far = [cap + 1, usize::MAX, wrap.saturating_add(1), wrap.saturating_add(2), isize::MAX as usize / size + 2];
    far[if o.wide { ctx.choose(far.len()) } else { 0 }]
}

/// A position up to and including `n`: each one, or in sparse mode those around the ends and the middle.
fn pos(ctx: &mut Ctx, n: usize, o: &Opts) -> usize {
    if o.big < 2 || n < 6 { return ctx.choose(n + 1) }
    let mut l = vec![0, 1, n / 2, n - 1, n];
    for p in [8, 16, 32, 64, 128, 256, 512] { if p < n { l.extend([p - 1, p, p + 1]) } }
    l.sort();
    l.dedup();
    l.retain(|x| *x <= n);
    ctx.pick(&l)
}

/// One operation on one vector. Returns a second vector if it was split.
fn vec_op<'a, V: Identity>(ctx: &mut Ctx, v: &mut FixedVec<'a, V>, m: &mut VM, env: &mut Env, may_split: bool, depth: u32) -> Option<(FixedVec<'a, V>, VM)> {
    let n = m.ids.len();
    let c = if env.opts.big > 0 && !V::ZST { m.cap } else { m.cap.min(n + 2) };
    let room = m.cap - n;
    let kind = ctx.choose(if may_split { 11 } else { 7 });
    let what;
    match kind {
        0 => {
            what = "push".to_string();
            let x = V::make();
            let id = x.id();
            ctx.op(|| format!("push({id}) at {n} of {}", m.cap as isize));
            match nopanic("push", || v.push(x)) {
                Ok(()) => { check!(room > 0, "push succeeded although the vector is full"); m.ids.push(id) }
                Err(x) => { check!(room == 0, "push refused although {room} elements fit"); check!(x.id() == id, "push gave another value back"); drop(x); env.gone::<V>(id) }
            }
        }
        1 => {
            what = "pop".to_string();
            ctx.op(|| format!("pop at {n}"));
            let r = nopanic("pop", || v.pop());
            let want = m.ids.pop();
            check!(r.as_ref().map(|x| x.id()) == want, "pop returned {r:?}, expected {want:?}");
            if let Some(x) = r { let id = x.id(); drop(x); env.gone::<V>(id) }
        }
        2 => {
            let clear = pos(ctx, n + 2, env.opts);
            let k = if clear == n + 2 { 0 } else { clear };
            what = if clear == n + 2 { "clear".into() } else { format!("truncate({k})") };
            let dead: Vec<u32> = m.ids.iter().skip(k).copied().collect();
            let b = bomb(ctx, env, &dead, V::ZST);
            ctx.op(|| format!("{what} at {n}{}", bomb_text(b)));
            let r = catch(|| if clear == n + 2 { v.clear() } else { v.truncate(k) });
            ledger::set_bomb(None);
            check!(r.is_err() == b.is_some(), "{what}: {}", r.err().unwrap_or("the panic of a destructor was swallowed".into()));
            if b.is_some() { let had = m.ids.clone(); after_panic(&what, env, v, m, &had, false); check!(m.ids.len() >= k.min(n), "{what} removed too much") }
            else { m.ids.truncate(k); for d in dead { env.gone::<V>(d) } }
        }
        3 | 4 => {
            // fill and extend
            let ext = kind == 4;
            let most = room.min(if env.opts.big > 0 { c } else if env.opts.wide { 3 } else { 1 }) + 1;
            let k = pos(ctx, most, env.opts);
            let hint = if env.opts.wide { ctx.choose(3) } else { 1 };
            let stored = k.min(room);
            // the calls that the vector makes
            let calls = if ext { stored + 1 } else { stored + (k < room) as usize };
            let pan = if env.opts.bombs { pos(ctx, calls, env.opts) } else { 0 };
            let mut src = Source::<V>::new(k, hint, pan);
            what = format!("{}({k} items)", if ext { "extend" } else { "fill" });
            let spill = ext && k > room;
            // the spilled value may panic as well, that is a second panic only if nothing else panicked
            ctx.op(|| format!("{what} at {n} of {}{}", m.cap as isize, if pan > 0 { format!(", call {pan} of the iterator panics") } else { String::new() }));
            let first = ledger::created();
            if ext {
                let r = catch(|| v.extend(ByRef(&mut src)));
                check!(r.is_err() == (spill || pan > 0), "{what}: {:?}", r);
                let kept = if pan > 0 { (pan - 1).min(stored) } else { stored };
                m.ids.extend(&src.made[..kept]);
                for id in &src.made[kept..] { env.gone::<V>(*id) }
                check!(src.made.len() <= room.saturating_add(1), "{what} took {} items for {room} places", src.made.len());
            } else {
                let mut rest_ok = true;
                let r = catch(|| { let it = v.fill(ByRef(&mut src)); rest_ok = it.0.left + it.0.made.len() == k; });
                check!(r.is_err() == (pan > 0), "{what}: {:?}", r);
                let kept = if pan > 0 { pan - 1 } else { stored };
                check!(src.made.len() == kept, "{what} took {} items, expected {kept}", src.made.len());
                check!(rest_ok, "{what}: wrong rest of the iterator");
                m.ids.extend(&src.made);
                check!(pan > 0 || src.calls <= calls, "{what} asked the iterator {} times, {calls} are needed", src.calls);
            }
            check!(!src.after_end, "{what} asked again after the end of the iterator");
            let _ = first;
        }
        5 => {
            // drain
            let form = if env.opts.wide || env.opts.big > 0 { ctx.choose(9) } else { 0 };
            let (s, e, range): (usize, usize, (Bound<usize>, Bound<usize>));
            use Bound::*;
            match form {
                0 | 3 | 4 | 5 => {
                    if env.opts.big > 0 {
                        s = pos(ctx, n, env.opts);
                        e = s + pos(ctx, n - s, env.opts);
                    } else if env.opts.wide {
                        s = ctx.choose(n + 1);
                        e = s + ctx.choose(n + 1 - s);
                    } else {
                        let mut forms = vec![(0, n), (0, n / 2), (n / 2, n), (n.min(1), n.max(2) - 1)];
                        forms.dedup();
                        let (a, b) = ctx.pick(&forms);
                        s = a.min(n);
                        e = b.min(n).max(s);
                    }
                    range = match form {
                        0 => (Included(s), Excluded(e)),
                        3 if e > 0 => (Included(s), Included(e - 1)),
                        4 if s > 0 => (Excluded(s - 1), Excluded(e)),
                        5 if s > 0 && e > 0 => (Excluded(s - 1), Included(e - 1)),
                        _ => (Included(s), Excluded(e)),
                    };
                }
                1 => { s = 0; e = n; range = (Unbounded, Unbounded) }
                6 => { s = pos(ctx, n, env.opts); e = n; range = (Included(s), Unbounded) }
                7 => { s = 0; e = pos(ctx, n, env.opts); range = (Unbounded, Excluded(e)) }
                _ => {
                    // invalid ranges: every pair of bounds around the length and the largest index
                    let at = |ctx: &mut Ctx, full: bool| match ctx.choose(3) { 0 => Unbounded, k => { let x = if full { let i = ctx.choose(n + 5); if i < n + 3 { i } else { usize::MAX - (i - n - 3) } } else { { let mut l = vec![0, n.saturating_sub(1), n, n + 1, n + 256, n + 65536, usize::MAX]; l.dedup(); ctx.pick(&l) } }; if k == 1 { Included(x) } else { Excluded(x) } } };
                    let full = ctx.depth == 1 && env.opts.big == 0;
                    let r = (at(ctx, full), at(ctx, full));
                    let low = match r.0 { Unbounded => Some(0), Included(x) => Some(x), Excluded(x) => x.checked_add(1) };
                    let high = match r.1 { Unbounded => Some(n), Included(x) => x.checked_add(1), Excluded(x) => Some(x) };
                    if matches!((low, high), (Some(l), Some(h)) if l <= h && h <= n) { return None }
                    what = format!("drain({r:?})");
                    ctx.op(|| format!("{what} at {n}"));
                    let res = catch(|| { let _d = v.drain(r); });
                    check!(res.is_err(), "{what} of {n} elements did not panic");
                    check_vec(&what, v, m);
                    env.audit(&what);
                    return None;
                }
            }
            what = format!("drain({s}..{e})");
            let k = e - s;
            let (f, b) = if env.opts.big > 0 && form != 0 { (0, 0) } else if env.opts.big > 0 { let mut l = vec![(0, 0), (k.min(1), 0), (0, k.min(1)), (k, 0), (k / 2, k / 3)]; l.dedup(); ctx.pick(&l) } else if env.opts.wide { let f = ctx.choose(k + 1); (f, ctx.choose(k - f + 1)) } else if k == 0 { (0, 0) } else { ctx.pick(&[(0, 0), (1, 0), (0, 1), (k, 0)]) };
            let alternate = env.opts.wide && f > 0 && b > 0 && ctx.flag();
            let end = ctx.choose(if env.opts.forget { 2 } else { 1 });
            let (fronts, rest) = m.ids[s..e].split_at(f);
            let (mid, backs) = rest.split_at(k - f - b);
            let bm = if end == 0 && (form == 0 || env.opts.big == 0) { bomb(ctx, env, mid, V::ZST) } else { None };
            ctx.op(|| format!("{what} of {n}, {f} from the front and {b} from the back{}, then {}{}", if alternate { " alternating" } else { "" }, ["drop", "forget"][end], bomb_text(bm)));
            let had = m.ids.clone();
            let mut got_f = vec![];
            let mut got_b = vec![];
            let r = catch(|| {
                let mut d = v.drain(range);
                let mut left = k;
                let view = |d: &mut without_alloc::fixed_vec::Drain<'_, V>, left: usize, a: usize, z: usize| {
                    check!(d.len() == left && d.is_empty() == (left == 0) && d.size_hint() == (left, Some(left)) && ExactSizeIterator::len(d) == left, "{what}: drain reports length {} instead of {left}", d.len());
                    let x = ids(d.as_slice());
                    check!(x == had[s + a..e - z] && ids(d.as_mut_slice()) == x, "{what}: drain exposes {x:?}, expected {:?}", &had[s + a..e - z]);
                };
                view(&mut d, left, 0, 0);
                let (mut i, mut j) = (0, 0);
                while i < f || j < b {
                    let front = if alternate { (i <= j && i < f) || j >= b } else { i < f };
                    let x = if front { i += 1; d.next() } else { j += 1; d.next_back() };
                    left -= 1;
                    let Some(x) = x else { mcx::fail!("{what}: ended after {} of {k} elements", i + j - 1) };
                    if front { got_f.push(x.id()) } else { got_b.push(x.id()) }
                    drop(x);
                    view(&mut d, left, i, j);
                }
                if left == 0 { check!(d.next().is_none() && d.next_back().is_none(), "{what}: more elements than expected") }
                if end == 1 { std::mem::forget(d) } else { drop(d) }
            });
            ledger::set_bomb(None);
            check!(r.is_err() == bm.is_some(), "{what}: {}", r.err().unwrap_or("the panic of a destructor was swallowed".into()));
            got_b.reverse();
            check!(got_f == fronts && got_b == backs, "{what}: yielded {got_f:?} and {got_b:?}, expected {fronts:?} and {backs:?}");
            for id in fronts.iter().chain(backs) { env.gone::<V>(*id) }
            if bm.is_some() || end == 1 {
                if end == 1 && V::ZST {
                    // any number of elements may stay
                    check!(v.len() <= n - f - b, "{what}, forgotten: {} elements remain", v.len());
                    env.leaked += n - f - b - v.len();
                    m.ids = vec![0; v.len()];
                } else {
                    let mut left = had.clone();
                    left.retain(|x| !fronts.contains(x) && !backs.contains(x));
                    let before = env.dropped.clone();
                    after_panic(&what, env, v, m, &left, true);
                    if end == 1 { check!(env.dropped.len() == before.len(), "{what}: forgetting a drain dropped something") }
                }
            } else {
                for id in mid { env.gone::<V>(*id) }
                m.ids = had[..s].iter().chain(&had[e..]).copied().collect();
            }
        }
        6 => {
            what = "as_mut_slice().reverse()".to_string();
            ctx.op(|| what.clone());
            nopanic(&what, || v.as_mut_slice().reverse());
            m.ids.reverse();
        }
        7 => {
            // split_borrowed
            let at = split_at(ctx, c, m.cap, size_of::<V>(), env.opts);
            what = format!("split_borrowed({at})");
            if at > m.cap {
                ctx.op(|| what.clone());
                let r = catch(|| { let _p = v.split_borrowed(at); });
                check!(r.is_err(), "{what} with capacity {} did not panic", m.cap);
            } else {
                let mut part_m = VM { ids: m.ids.split_off(at.min(n)), cap: if V::ZST { usize::MAX } else { m.cap - at }, addr: m.addr + if V::ZST { 0 } else { at * size_of::<V>() }, bytes: 0 };
                ctx.op(|| format!("{what} of {n} elements"));
                let mut part = nopanic(&what, || v.split_borrowed(at));
                check_vec(&what, &mut part, &part_m);
                // what is done with the part
                let old = env.opts;
                env.opts = if old.bombs { &INNER_BOMBS } else { &INNER };
                if old.big == 0 && ctx.flag() { vec_op(ctx, &mut part, &mut part_m, env, false, 0); }
                env.opts = old;
                let _ = depth;
                let end = ctx.choose(if env.opts.forget { 2 } else { 1 });
                drop_vec(ctx, part, part_m, env, end == 1, "the split part");
            }
        }
        8 => {
            let at = split_at(ctx, c, m.cap, size_of::<V>(), env.opts);
            what = format!("split_and_shrink_to({at})");
            ctx.op(|| format!("{what} of {n} elements"));
            if at > m.cap {
                let r = catch(|| { let _p = v.split_and_shrink_to(at); });
                check!(r.is_err(), "{what} with capacity {} did not panic", m.cap);
            } else {
                let sz = size_of::<V>();
                let pm = VM { ids: m.ids.split_off(at.min(n)), cap: if V::ZST { usize::MAX } else { m.cap - at }, addr: m.addr + if V::ZST { 0 } else { at * sz }, bytes: m.bytes - if V::ZST { 0 } else { at * sz } };
                let mut part = nopanic(&what, || v.split_and_shrink_to(at));
                if !V::ZST { m.cap = at; m.bytes = at * sz } else { m.bytes = 0 }
                check_vec(&what, &mut part, &pm);
                check_vec(&what, v, m);
                env.audit(&what);
                return Some((part, pm));
            }
        }
        9 => {
            what = "shrink_to_fit".to_string();
            ctx.op(|| what.clone());
            let t = nopanic(&what, || v.shrink_to_fit());
            let used = if V::ZST { 0 } else { m.cap * size_of::<V>() };
            let want = m.bytes - used;
            check!(t.size() == want, "shrink_to_fit returned {} bytes, expected {want}", t.size());
            check!(want == 0 || t.as_ptr() as usize == m.addr + used, "shrink_to_fit returned the wrong memory");
            if want > 0 { unsafe { std::ptr::write_bytes(t.as_ptr() as *mut u8, 0xA9, want) }; env.tails.push((t.as_ptr() as usize, want)); }
            m.bytes = used;
        }
        _ => {
            // Move the vector, which must not matter, and take an element out of its middle with swaps and pop.
            what = "swap(0, last) and mem::replace".to_string();
            ctx.op(|| what.clone());
            if n > 1 { v.swap(0, n - 1); m.ids.swap(0, n - 1); }
            let tmp = std::mem::replace(v, FixedVec::new(Uninit::empty()));
            *v = tmp;
        }
    }
    check_vec(&what, v, m);
    env.audit(&what);
    None
}

fn drop_vec<V: Identity>(ctx: &mut Ctx, v: FixedVec<'_, V>, m: VM, env: &mut Env, forget: bool, name: &str) {
    let what = format!("{} {name} with {} elements", if forget { "forget" } else { "drop" }, m.ids.len());
    if forget {
        ctx.op(|| what.clone());
        std::mem::forget(v);
        env.leaked += m.ids.len();
        env.audit(&what);
        return;
    }
    let b = bomb(ctx, env, &m.ids, V::ZST);
    ctx.op(|| format!("{what}{}", bomb_text(b)));
    let r = catch(|| drop(v));
    ledger::set_bomb(None);
    check!(r.is_err() == b.is_some(), "{what}: {}", r.err().unwrap_or("the panic of a destructor was swallowed".into()));
    for id in &m.ids { env.gone::<V>(*id) }
    env.audit(&what);
}

/// Any memory at any alignment.
pub fn unaligned<V: Identity>(ctx: &mut Ctx, opts: &'static Opts) {
    let (s, a) = (size_of::<V>(), align_of::<V>());
    let off = ctx.choose(a + 1);
    let lens: Vec<usize> = if V::ZST { vec![0, 1, 15, 16, 20] } else { (0..=2 * a).chain([s + a - 1, 2 * s - 1, 2 * s, 3 * s + 1]).collect() };
    let len = ctx.pick(&lens);
    let from = ctx.choose(4);
    if ctx.skipped() { return }
    body::<V>(ctx, Place::Unaligned { off, len, from }, opts)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Place { Slice(usize), Unaligned { off: usize, len: usize, from: usize }, Cast { len: usize }, Empty }

fn create<V: Identity>(ctx: &mut Ctx, place: Place, opts: &'static Opts) -> (Vec<(FixedVec<'static, V>, VM)>, Env) {
    let (sz, al) = (size_of::<V>(), align_of::<V>());
    let (off, len) = match place { Place::Slice(n) => (al, n * sz), Place::Unaligned { off, len, .. } => (off, len), Place::Cast { len } => (al, len), Place::Empty => (0, 0) };
    let region = Region::new(off, len, 0x5D);
    let base = region.addr();
    let p = region.ptr();
    let count = |bytes: usize| if sz == 0 { usize::MAX } else { bytes / sz };
    let (v, m): (FixedVec<'static, V>, VM) = nopanic("constructor", || unsafe { match place {
        Place::Slice(n) => (FixedVec::new(Uninit::from(std::slice::from_raw_parts_mut(p as *mut MaybeUninit<V>, n))), VM { ids: vec![], cap: count(len), addr: base, bytes: len }),
        Place::Cast { len } => (FixedVec::new(Uninit::from_memory(std::ptr::NonNull::new(p).unwrap(), len).cast_slice().unwrap_or_else(|_| mcx::fail!("cast_slice refused"))), VM { ids: vec![], cap: count(len), addr: base, bytes: len }),
        Place::Empty => (FixedVec::new(Uninit::empty()), VM { ids: vec![], cap: count(0), addr: 0, bytes: 0 }),
        Place::Unaligned { from, .. } => {
            let q = std::ptr::NonNull::new(p).unwrap();
            let pad = align_up(base, al) - base;
            let fits = pad <= len;
            let m = VM { ids: vec![], cap: if fits { count(len - pad) } else { count(0) }, addr: if fits { base + pad } else { 0 }, bytes: if fits { len - pad } else { 0 } };
            // from memory of several types
            let v = match from {
                0 => FixedVec::from_unaligned(Uninit::from_memory(q, len)),
                1 => FixedVec::from_unaligned(Uninit::from_memory(q, len).cast_slice::<u8>().ok().unwrap()),
                2 => FixedVec::from_unaligned(Uninit::from_memory(q, len).cast::<[u8; 0]>().ok().unwrap()),
                _ => match Uninit::from_memory(q, len).cast::<u8>() { Ok(u) => FixedVec::from_unaligned(u), Err(u) => FixedVec::from_unaligned(u) },
            };
            (v, m)
        }
    } });
    ctx.op(|| format!("new vector in {place:?}, capacity {}", m.cap as isize));
    let env = Env { region, dropped: vec![], zdropped: 0, opts, tails: vec![], leaked: 0 };
    let mut vecs = vec![(v, m)];
    for (v, m) in &mut vecs { check_vec("constructor", v, m) }
    (vecs, env)
}

/// One operation on a vector with every number of elements: an induction step.
pub fn one_step<V: Identity>(ctx: &mut Ctx, max: usize, opts: &'static Opts) {
    let sz = size_of::<V>();
    let place = if V::ZST { Place::Slice(0) } else {
        let cap = ctx.choose(max + 1);
        let extra = ctx.pick(&[0, 1, sz - 1]);
        Place::Cast { len: cap * sz + extra }
    };
    let (mut vecs, mut env) = create::<V>(ctx, place, opts);
    let n = ctx.choose(vecs[0].1.cap.min(max) + 1);
    if ctx.skipped() { return }
    let (mut v, mut m) = vecs.pop().unwrap();
    for _ in 0..n { let x = V::make(); m.ids.push(x.id()); check!(v.push(x).is_ok(), "push refused") }
    ctx.note(&(place, n));
    check_vec("push", &mut v, &m);
    vecs.push((v, m));
    let (v, m) = &mut vecs[0];
    if let Some(p) = vec_op(ctx, v, m, &mut env, true, 1) { vecs.push(p) }
    if ctx.flag() {
        // Everything that is still there can be used.
        for (v, m) in &mut vecs {
            let k = m.cap.min(m.ids.len() + 2) - m.ids.len();
            for _ in 0..k { let x = V::make(); m.ids.push(x.id()); check!(v.push(x).is_ok(), "push refused after the operation") }
            if m.ids.len() == m.cap { let x = V::make(); let id = x.id(); match v.push(x) { Ok(()) => mcx::fail!("push into a full vector succeeded"), Err(x) => { drop(x); env.gone::<V>(id) } } }
            check_vec("filling up", v, m);
        }
        env.audit("filling up");
        for (v, m) in &mut vecs { check_vec("filling up others", v, m) }
        while let Some((v, m)) = vecs.pop() { drop(v); for id in &m.ids { env.gone::<V>(*id) } env.audit("drop"); }
    }
    finish(ctx, vecs, env, false)
}

/// One operation on large vectors.
pub fn big_step<V: Identity>(ctx: &mut Ctx, caps: &[usize], opts: &'static Opts) {
    let cap = ctx.pick(caps);
    let (mut vecs, mut env) = create::<V>(ctx, Place::Slice(if V::ZST { 0 } else { cap }), opts);
    let n = if opts.big == 1 { ctx.choose(cap + 1) } else { cap - ctx.pick(&[0, 1, cap / 2, cap]) };
    if ctx.skipped() { return }
    let (v, m) = &mut vecs[0];
    for _ in 0..n { let x = V::make(); m.ids.push(x.id()); check!(v.push(x).is_ok(), "push refused") }
    ctx.note(&(cap, n));
    check_vec("push", v, m);
    let before = m.ids.len();
    if let Some(p) = vec_op(ctx, v, m, &mut env, true, 1) { vecs.push(p) }
    // Everything that is still there can be used.
    let k = vecs[0].1.cap.min(before + 2).saturating_sub(vecs[0].1.ids.len());
    let (v, m) = &mut vecs[0];
    for _ in 0..k { let x = V::make(); m.ids.push(x.id()); check!(v.push(x).is_ok(), "push refused after the operation") }
    for (v, m) in &mut vecs { check_vec("filling up", v, m) }
    env.audit("filling up");
    while let Some((v, m)) = vecs.pop() { drop(v); for id in &m.ids { env.gone::<V>(*id) } env.audit("drop"); }
    finish(ctx, vecs, env, false)
}

pub fn body<V: Identity>(ctx: &mut Ctx, place: Place, opts: &'static Opts) {
    let (mut vecs, mut env) = create::<V>(ctx, place, opts);
    let mut pruned = false;
    for i in 0..ctx.depth {
        let st: Vec<_> = vecs.iter().map(|v| (v.1.ids.len(), v.1.cap, v.1.bytes)).collect();
        if opts.prune { if !ctx.visit(&(place, &st), ctx.depth - i) { pruned = true; break } } else { ctx.note(&st); if ctx.skipped() { pruned = true; break } }
        if i > 0 && ctx.flag() { break }
        let k = ctx.choose(vecs.len());
        if vecs.len() > 1 && ctx.flag() {
            let end = ctx.choose(if opts.forget { 2 } else { 1 });
            let (v, m) = vecs.remove(k);
            drop_vec(ctx, v, m, &mut env, end == 1, "a vector");
            continue;
        }
        let can = vecs.len() < opts.max_vecs;
        let d = ctx.depth;
        let (v, m) = &mut vecs[k];
        if let Some(n) = vec_op(ctx, v, m, &mut env, can, d) { vecs.push(n) }
        for (v, m) in &mut vecs { check_vec("another vector", v, m) }
    }
    finish(ctx, vecs, env, pruned)
}

fn finish<V: Identity>(ctx: &mut Ctx, mut vecs: Vec<(FixedVec<'static, V>, VM)>, mut env: Env, pruned: bool) {
    ctx.outcome(&(vecs.iter().map(|v| (v.1.ids.clone(), v.1.cap)).collect::<Vec<_>>(), env.dropped.clone(), env.zdropped));
    while let Some((v, m)) = vecs.pop() {
        if pruned { drop(v); for id in &m.ids { env.gone::<V>(*id) } env.audit("drop"); }
        else { drop_vec(ctx, v, m, &mut env, false, "the vector") }
    }
    let made = ledger::created() + ledger::with(|l| l.zst_made);
    check!(made == env.dropped.len() + env.zdropped + env.leaked, "{made} values entered, {} were dropped, {} leaked by request", env.dropped.len() + env.zdropped, env.leaked);
}

pub const ADAPTORS: [&str; 26] = [
    "nth then rest", "nth_back then rest", "last", "count", "fold", "rfold", "for_each", "rev", "skip", "step_by", "take", "by_ref take", "find", "rfind", "position", "rposition", "collect",
    "partition", "zip and next_back", "max", "all", "try_fold then rest", "skip_while", "chain of nth", "nth and nth_back", "peekable, fuse, enumerate",
];

/// What an iterator yields through one of the provided methods, in the order seen. `see` may panic.
fn adapt<X, I: DoubleEndedIterator<Item = X> + ExactSizeIterator>(mut it: I, a: usize, k: usize, id: &dyn Fn(&X) -> u32, see: &dyn Fn(u32)) {
    let s = |x: X| see(id(&x));
    let o = |x: Option<X>| match x { Some(x) => see(id(&x)), None => see(u32::MAX) };
    let n = |x: usize| see(1_000_000 + x as u32);
    match a {
        0 => { o(it.nth(k)); n(it.len()); while let Some(x) = it.next() { s(x) } o(it.nth(0)) }
        1 => { o(it.nth_back(k)); n(it.len()); while let Some(x) = it.next() { s(x) } o(it.nth_back(0)) }
        2 => { if k % 2 == 1 { o(it.next()) } o(it.last()) }
        3 => { for _ in 0..k { o(it.next_back()) } n(it.count()) }
        4 => n(it.fold(k, |c, x| { s(x); c + 1 })),
        5 => n(it.rfold(k, |c, x| { s(x); c + 1 })),
        6 => { if k > 0 { o(it.next_back()) } it.for_each(s) }
        7 => { let mut r = it.rev(); o(r.next()); o(r.nth(k)); r.for_each(s) }
        8 => { let mut r = it.skip(k); n(r.len()); o(r.next()); o(r.next_back()); r.for_each(s) }
        9 => { let mut r = it.step_by(k + 1); o(r.next()); n(r.len()); r.for_each(s) }
        10 => { let r = it.take(k); n(r.len()); r.for_each(s) }
        11 => { it.by_ref().take(k).for_each(s); n(it.len()); o(it.next_back()) }
        12 => { let mut c = 0; o(it.find(|_| { c += 1; c > k })); n(it.len()); o(it.next()) }
        13 => { let mut c = 0; o(it.rfind(|_| { c += 1; c > k })); n(it.len()); o(it.next_back()) }
        14 => { let mut c = 0; n(it.position(|x| { s(x); c += 1; c > k }).map_or(999, |x| x)); n(it.len()) }
        15 => { let mut c = 0; n(it.rposition(|x| { s(x); c += 1; c > k }).map_or(999, |x| x)); n(it.len()) }
        16 => { let v: Vec<X> = it.collect(); n(v.len()); v.into_iter().for_each(s) }
        17 => { let mut c = 0; let (p, q): (Vec<X>, Vec<X>) = it.partition(|_| { c += 1; c % (k + 1) == 0 }); p.into_iter().for_each(s); q.into_iter().for_each(s) }
        18 => { let mut z = it.zip(0..k); if let Some((x, i)) = z.next_back() { s(x); n(i) } z.for_each(|(x, i)| { s(x); n(i) }) }
        19 => { let mut c = k; o(it.max_by_key(|x| { c = (c * 7 + 3) % 11; (c, id(x)) })) }
        20 => { let mut c = 0; n(it.all(|x| { s(x); c += 1; c <= k }) as usize); n(it.len()); o(it.next_back()) }
        21 => { let r = it.try_fold(0, |c, x| { s(x); if c == k { Err(c) } else { Ok(c + 1) } }); n(r.unwrap_or(777)); n(it.len()); it.for_each(s) }
        22 => { let mut c = 0; it.skip_while(|_| { c += 1; c <= k }).for_each(s) }
        23 => { while it.len() > 0 { o(it.nth(k)); n(it.len()) } o(it.next()) }
        24 => { o(it.nth(k)); n(it.len()); o(it.nth_back(k)); n(it.len()); o(it.next_back()); o(it.next()); it.for_each(s) }
        _ => { let mut p = it.fuse().enumerate().peekable(); if let Some((i, x)) = p.peek() { n(*i); see(id(x)) } for _ in 0..k { if let Some((i, x)) = p.next_back() { n(i); s(x) } } p.for_each(|(i, x)| { n(i); s(x) }) }
    }
}

/// A drain behaves like that of a Vec through every provided method of iterators, also when the caller panics.
pub fn drain_adaptors<V: Identity>(ctx: &mut Ctx, lens: &[usize], panics: bool) {
    let n = ctx.pick(lens);
    let cap = n + ctx.choose(2);
    let region = Region::new(64, cap * size_of::<V>() + 64, 0xFF);
    let mem = unsafe { region.slice() };
    let mut v: FixedVec<'_, V> = FixedVec::from_unaligned(Uninit::from_maybe_uninit_slice(mem));
    let mut had: Vec<u32> = vec![];
    for _ in 0..n { let x = V::make(); had.push(x.id()); check!(v.push(x).is_ok(), "push refused") }
    let spots: Vec<usize> = if n <= 7 { (0..=n).collect() } else { vec![0, 1, 2, n / 2, n - 1, n] };
    let s = ctx.pick(&spots);
    let rest: Vec<usize> = spots.iter().copied().filter(|e| *e >= s).collect();
    let e = ctx.pick(&rest);
    let a = ctx.choose(ADAPTORS.len());
    let len = e - s;
    let k = if len <= 7 { ctx.choose(len + 2) } else { ctx.pick(&[0, 1, 2, 3, len / 2, len - 2, len - 1, len, len + 1, usize::MAX - 1]) };
    // these count up to k
    if k > 1 << 20 && ![0, 1, 8, 9, 10, 11, 23, 24].contains(&a) { return }
    let at = if panics && len > 0 { Some(if len <= 7 { ctx.choose(len + 1) } else { ctx.pick(&[0, 1, len / 2, len - 1, len]) }) } else { None };
    ctx.op(|| format!("drain({s}..{e}) of {n}: {} with {k}{}", ADAPTORS[a], at.map_or(String::new(), |x| format!(", the caller panics at element {x} it sees"))));
    let run = |real: bool, v: &mut FixedVec<'_, V>| {
        let log = std::cell::RefCell::new(vec![]);
        let see = |x: u32| { log.borrow_mut().push(x); if at == Some(log.borrow().len() - 1) { panic!("caller panics") } };
        let r = catch(|| if real { adapt(v.drain(s..e), a, k, &|x: &V| x.id(), &see) } else { adapt(had.clone().drain(s..e), a, k, &|x: &u32| *x, &see) });
        (log.into_inner(), r.is_err())
    };
    let want = run(false, &mut v);
    let got = run(true, &mut v);
    ctx.outcome(&(n, s, e, a, k, &got));
    check!(got == want, "drain({s}..{e}) of {n}: {} with {k} gives {:?}, expected {:?}", ADAPTORS[a], got, want);
    let left: Vec<u32> = had[..s].iter().chain(&had[e..]).copied().collect();
    check!(ids(v.as_slice()) == left, "drain({s}..{e}) of {n} with {}: vector holds {:?}, expected {left:?}", ADAPTORS[a], ids(v.as_slice()));
    let dropped = |what: &str, want: &[u32]| {
        let mut d = ledger::drop_ids();
        d.sort();
        let mut w = want.to_vec();
        w.sort();
        if V::ZST { let z = ledger::with(|l| l.zst_dropped); check!(z == want.len(), "{what}: {z} values dropped, expected {}", want.len()) }
        else { check!(d == w, "{what}: values {d:?} were dropped, expected {w:?}") }
    };
    dropped(ADAPTORS[a], &had[s..e]);
    if v.len() < v.capacity() { let x = V::make(); had.push(x.id()); check!(v.push(x).is_ok(), "push refused") }
    drop(v);
    dropped("drop of the vector", &had);
    check!(region.intact(), "memory around the vector was changed");
}

// ---- vectors of more elements than fit 8 or 16 bits ----

thread_local! { static FATE: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) }; static HBOMB: std::cell::Cell<u32> = const { std::cell::Cell::new(u32::MAX) }; }
/// An element with its number, whose drops are counted. One of them may panic.
pub struct Num(u32);
impl Drop for Num {
    fn drop(&mut self) {
        FATE.with(|f| { let mut f = f.borrow_mut(); if let Some(c) = f.get_mut(self.0 as usize) { *c = c.saturating_add(1) } });
        if HBOMB.with(|b| b.get()) == self.0 { HBOMB.with(|b| b.set(u32::MAX)); std::panic::panic_any("bomb") }
    }
}
fn num(n: u32) -> Num { FATE.with(|f| { let mut f = f.borrow_mut(); if f.len() <= n as usize { f.resize(n as usize + 1, 0) } }); Num(n) }
fn nums(v: &[Num]) -> Vec<u32> { v.iter().map(|e| e.0).collect() }
fn same_nums(what: &str, got: &[Num], want: &[u32]) {
    check!(got.len() == want.len(), "{what}: {} elements, expected {}", got.len(), want.len());
    if let Some(i) = (0..want.len()).find(|i| got[*i].0 != want[*i]) { mcx::fail!("{what}: element {i} is {}, expected {}", got[i].0, want[i]) }
}

/// One operation with every combination of places around powers of two, on vectors of up to `cap` elements.
pub fn huge_step(ctx: &mut Ctx, cap: usize, places: &[usize], bombs: bool) {
    FATE.with(|f| f.borrow_mut().clear());
    HBOMB.with(|b| b.set(u32::MAX));
    let region = Region::new(4, cap * 4, 0x77);
    let mut v: FixedVec<'static, Num> = FixedVec::new(unsafe { Uninit::from(&mut *std::ptr::slice_from_raw_parts_mut(region.ptr() as *mut MaybeUninit<Num>, cap)) });
    let mut places: Vec<usize> = places.iter().copied().filter(|p| *p <= cap).chain([cap]).collect();
    places.dedup();
    let n = ctx.pick(&places);
    let op = ctx.choose(9);
    if ctx.skipped() { return }
    // elements are filled in, not pushed, for speed
    let mut m: Vec<u32> = (0..n as u32).collect();
    FATE.with(|f| f.borrow_mut().resize(n, 0));
    { let mut rest = v.fill((0..n as u32).map(num)); check!(rest.next().is_none(), "fill of {n} elements left some") }
    check!(v.capacity() == cap && v.len() == n, "fill: length {} and capacity {}, expected {n} and {cap}", v.len(), v.capacity());
    let below: Vec<usize> = places.iter().copied().filter(|p| *p <= n).collect();
    let mut next = n as u32;
    let mut kept: Vec<u32> = vec![]; // forgotten
    let mut part: Option<(FixedVec<'static, Num>, Vec<u32>)> = None;
    let what;
    match op {
        0 => {
            let (a, b) = (ctx.pick(&below), ctx.pick(&below));
            if a > b { return }
            let ends: Vec<usize> = places.iter().copied().filter(|p| *p <= b - a).collect();
            let (f, k) = (ctx.pick(&ends), ctx.pick(&ends));
            if f + k > b - a { return }
            let bomb = bombs && f + k < b - a && ctx.flag();
            // every way to say it
            let mut ranges = vec![(Bound::Included(a), Bound::Excluded(b))];
            if f + k == 0 && !bomb {
                let mut starts = vec![Bound::Included(a)];
                let mut ends = vec![Bound::Excluded(b)];
                if a > 0 { starts.push(Bound::Excluded(a - 1)) } else { starts.push(Bound::Unbounded) }
                if b > 0 { ends.push(Bound::Included(b - 1)) }
                if b == n { ends.push(Bound::Unbounded) }
                ranges = starts.iter().flat_map(|s| ends.iter().map(move |e| (*s, *e))).collect();
            }
            let range = ctx.pick(&ranges);
            what = format!("drain({range:?}) of {n} elements, taking {f} and {k}{}", if bomb { ", one panics when dropped" } else { "" });
            ctx.op(|| what.clone());
            if bomb { HBOMB.with(|h| h.set((a + f) as u32)) }
            let r = catch(|| {
                let mut d = v.drain(range);
                check!(d.len() == b - a && d.size_hint() == (b - a, Some(b - a)), "{what}: the drain has {} elements", d.len());
                for i in 0..f { let x = d.next(); check!(x.as_ref().map(|x| x.0) == Some((a + i) as u32), "{what}: next gave {:?}", x.as_ref().map(|x| x.0)) }
                for i in 0..k { let x = d.next_back(); check!(x.as_ref().map(|x| x.0) == Some((b - 1 - i) as u32), "{what}: next_back gave {:?}", x.as_ref().map(|x| x.0)) }
                check!(d.len() == b - a - f - k, "{what}: the rest has {} elements", d.len());
                same_nums("the rest of the drain", d.as_slice(), &m[a + f..b - k]);
            });
            HBOMB.with(|b| b.set(u32::MAX));
            check!(r.is_err() == bomb, "{what}: {r:?}");
            if bomb {
                // the others may leak
                let now = nums(&v);
                check!(now.len() <= n && now.iter().all(|x| (*x as usize) < a || (*x as usize) >= b), "{what}: drained elements are still there");
                let mut there = vec![false; n];
                for x in &now { there[*x as usize] = true }
                kept = m.iter().copied().filter(|x| !there[*x as usize] && FATE.with(|f| f.borrow()[*x as usize]) == 0).collect();
                m = now;
            } else { m.drain(a..b); }
        }
        1 => {
            let k = ctx.pick(&places);
            let bomb = bombs && k < n && ctx.flag();
            what = format!("truncate({k}) of {n} elements{}", if bomb { ", the last one panics" } else { "" });
            ctx.op(|| what.clone());
            if bomb { HBOMB.with(|h| h.set(n as u32 - 1)) }
            let r = catch(|| v.truncate(k));
            HBOMB.with(|b| b.set(u32::MAX));
            check!(r.is_err() == bomb, "{what}: {r:?}");
            if bomb { check!(v.len() < n && v.len() >= k, "{what}: length is {} after the panic", v.len()); m.truncate(v.len()) } else { m.truncate(k) }
        }
        2 | 3 => {
            let at = ctx.pick(&places);
            what = format!("{}({at}) of {n} elements", if op == 2 { "split_borrowed" } else { "split_and_shrink_to" });
            ctx.op(|| what.clone());
            let tail = m.split_off(at.min(n));
            if op == 2 {
                let p = v.split_borrowed(at);
                check!(p.capacity() == cap - at, "{what}: capacity of the part is {}", p.capacity());
                same_nums("the part", &p, &tail);
            } else {
                let p = v.split_and_shrink_to(at);
                check!(p.capacity() == cap - at && v.capacity() == at, "{what}: capacities are {} and {}", v.capacity(), p.capacity());
                part = Some((p, tail));
            }
        }
        4 => {
            what = format!("push and pop at {n} elements");
            ctx.op(|| what.clone());
            for _ in 0..3 { let r = v.push(num(next)); check!(r.is_ok() == (m.len() < cap), "push at {} of {cap}", m.len()); if r.is_ok() { m.push(next) } next += 1; drop(r); same_nums("push", &v, &m) }
            for _ in 0..5 { let x = v.pop(); check!(x.as_ref().map(|x| x.0) == m.pop(), "pop gave {:?}", x.as_ref().map(|x| x.0)); drop(x); check!(v.len() == m.len(), "length {} after pop, expected {}", v.len(), m.len()) }
        }
        5 | 6 => {
            let k = ctx.pick(&places) + ctx.choose(2);
            let more: Vec<u32> = (next..next + k as u32).collect();
            next += k as u32;
            let room = cap - n;
            what = format!("{} {k} elements to {n} of {cap}", if op == 5 { "fill" } else { "extend" });
            ctx.op(|| what.clone());
            if op == 5 {
                let mut asked = 0;
                let left: Vec<u32> = v.fill(more.iter().map(|x| { asked += 1; num(*x) })).map(|x| x.0).collect();
                check!(left == more[room.min(k)..], "{what}: {} elements are left", left.len());
                check!(asked == k, "{what}: {asked} elements were made");
            } else {
                let r = catch(|| v.extend(more.iter().map(|x| num(*x))));
                check!(r.is_err() == (k > room), "{what}: {r:?}");
            }
            m.extend(&more[..room.min(k)]);
            if op == 6 { check!(v.len() == n + room.min(k), "{what}: {} elements", v.len()) }
        }
        7 => {
            what = format!("shrink_to_fit with {n} elements");
            ctx.op(|| what.clone());
            let t = v.shrink_to_fit();
            check!(t.size() == 0, "{what}: {} bytes were given back", t.size());
        }
        _ => {
            what = format!("from_unaligned, {cap} elements of 4 bytes in {} bytes", cap * 4 - 1);
            ctx.op(|| what.clone());
            std::mem::forget(std::mem::replace(&mut v, FixedVec::new(Uninit::empty())));
            let mut w: FixedVec<'static, Num> = FixedVec::from_unaligned(unsafe { Uninit::from_memory(std::ptr::NonNull::new(region.ptr()).unwrap().cast(), cap * 4 - 1) });
            check!(w.capacity() == cap - 1 && w.as_slice().as_ptr() as usize == region.addr(), "{what}: capacity {}", w.capacity());
            let t = w.shrink_to_fit();
            check!(t.size() == 3, "{what}: shrink_to_fit gave {} bytes back", t.size());
            kept = std::mem::take(&mut m);
        }
    }
    same_nums(&what, &v, &m);
    check!(region.intact(), "{what}: memory around the vector was written");
    let dropped = |what: &str, live: &dyn Fn(u32) -> bool| FATE.with(|f| for (i, c) in f.borrow().iter().enumerate() {
        let want = !live(i as u32) as u8;
        if *c != want { mcx::fail!("{what}: element {i} was dropped {c} times, expected {want}") }
    });
    let flags = |l: &[&[u32]]| { let mut s = vec![false; next as usize + 1]; for l in l { for x in *l { s[*x as usize] = true } } s };
    let s = flags(&[&m, &kept, part.as_ref().map_or(&[][..], |p| &p.1)]);
    dropped(&what, &|i| s[i as usize]);
    if let Some((p, t)) = part { same_nums("the part", &p, &t); drop(p); let s = flags(&[&m, &kept]); dropped("dropping the part", &|i| s[i as usize]); same_nums(&what, &v, &m) }
    let bomb = bombs && m.len() > 2 && ctx.flag();
    if bomb { ctx.op(|| "the middle element panics when the vector is dropped".into()); HBOMB.with(|b| b.set(m[m.len() / 2])) }
    let r = catch(|| drop(v));
    HBOMB.with(|b| b.set(u32::MAX));
    check!(r.is_err() == bomb, "dropping the vector: {r:?}");
    let s = flags(&[&kept]);
    dropped("dropping the vector", &|i| s[i as usize]);
    ctx.outcome(&(n, what));
}
