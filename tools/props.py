import json
P=[]
def p(id,title,statement,over,qt,why,files,state,mech,obs,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
SB="static-alloc/src/bump.rs"; UB="static-alloc/src/unsync/bump.rs"; CH="static-alloc/src/unsync/chain.rs"; LK="static-alloc/src/leaked.rs"
ES="exit-stack/src/lib.rs"; UN="without-alloc/src/uninit.rs"; FV="without-alloc/src/fixed_vec.rs"; BX="without-alloc/src/boxed.rs"; RC="without-alloc/src/rc.rs"; AL="without-alloc/src/alloc.rs"
FI="fill/src/fill.rs"; US="unsize/src/lib.rs"; UA="unsize/src/alloc_impls.rs"; TL="alloc-traits/src/local.rs"; TU="alloc-traits/src/util.rs"; TY="alloc-traits/src/layout.rs"

p("P01","Concurrent allocation from a shared Bump is disjoint and linearizable",
"When any number of threads allocate concurrently from one shared static `Bump` through any of its entry points, every successful allocation is aligned as requested, lies entirely inside the allocator's storage and overlaps no other allocation made since construction or the last reset. The results observed by all threads equal those of performing the calls one at a time in some order consistent with real time; in particular an unconditional allocation fails only if the request does not fit into the space remaining at some moment during the call. Every call finishes after a bounded number of its own steps unless other threads keep completing allocations.",
["schedules","inputs"],"all interleavings of 2-3 threads performing 1-3 allocator calls each, over small layouts (size, alignment) that collide, including requests that do not fit",
"tests/threaded.rs samples a few OS schedules of plain leaks on a large slab; which interleavings of the level update occur is up to the OS, and races at the end of the slab are never provoked.",
[SB],[("consumed","bytes handed out so far",SB+" Bump.consumed")],[("compare-and-exchange of the level, retry with the observed level",SB+" Bump::bump, try_alloc, try_alloc_at")],["returned pointers and levels","None/Failure results"],"scheduler-controlled atomics inside static-alloc (cfg static_alloc_mc)")

p("P02","Level-conditional allocation succeeds only if nothing was allocated since",
"An allocation conditional on a level succeeds only if no other allocation has been made from the shared `Bump` since it had that level; it then returns the lowest suitably aligned address at or after that level together with the level right after it, so that consecutive conditional allocations are contiguous up to alignment. Otherwise it fails without consuming anything, and a reported mismatch names the level the allocator really had at some moment during the call, which (absent further allocations) makes an immediate retry succeed if the request fits. The level never decreases while the allocator is shared and is not changed by failed or zero-sized requests; a zero-sized conditional request succeeds exactly if the level still matches.",
["schedules","inputs","histories"],"all interleavings of 2-3 threads using current, stale and freshly observed levels with conditional and unconditional calls; all sequential histories up to a depth",
"Unit tests use levels single-threaded in the success case; stale levels, races between observing and using a level and failure reporting depend on the schedule.",
[SB],[("Level","observed amount of consumed bytes",SB+" Level")],[("compare-and-exchange against the caller's level",SB+" try_alloc_at, get_at, leak_at, leak_box_at, level")],["Failure::Mismatch{observed}","Allocation.level","Bump::level"],"scheduler-controlled atomics inside static-alloc (cfg static_alloc_mc)")

p("P03","Sequential Bump allocation succeeds iff it fits and packs tightly",
"For every sequence of calls on a static `Bump` over storage of any size and alignment, an unconditional allocation succeeds exactly if the requested size fits behind the next suitably aligned address, and is then placed exactly there, inside the storage and disjoint from all earlier allocations. A failed request consumes nothing, zero-sized typed requests always succeed with a well-aligned non-null pointer and consume nothing, and `reset` makes the entire capacity available again. Bytes stored in one allocation are never altered by later allocator calls, and storage given at construction (a value, or zeroes) is found unmodified in not yet used memory.",
["inputs","histories"],"all sequences up to a depth of alloc/get/leak/level/reset calls over a grid of sizes, alignments and storage types",
"Unit tests and doc tests try a handful of layouts; boundary combinations of offset, alignment padding and remaining space are a large grid.",
[SB],[("consumed","bytes handed out so far",SB+" Bump.consumed")],[("offset computation and bounds checks",SB+" try_alloc_at"),("ZST path",SB+" zst_fake_alloc")],["returned pointers","Bump::level"])

p("P04","Bump fulfils the GlobalAlloc and LocalAlloc contracts",
"Through the global and local allocator interfaces of `Bump`, every returned block has at least the requested size and alignment and is disjoint from all other live blocks; exhaustion and impossible layouts are reported as null or `None`, never by panicking. Reallocation keeps the first min(old,new) bytes, satisfies the new size and alignment and on failure leaves the old block untouched; zeroed allocation returns all-zero bytes even in memory that was used before a reset. Deallocation never disturbs other live blocks nor makes memory that is still live available again.",
["inputs","histories"],"all sequences up to a depth of alloc, alloc_zeroed, realloc (grow, shrink, raise alignment), dealloc and reset over several live blocks",
"tests/vec.rs uses the allocator for one Vec; reallocation with interleaved blocks, alignment changes, failures and reused memory is not covered.",
[SB,TL,TU],[],[("GlobalAlloc impl",SB+" unsafe impl GlobalAlloc"),("LocalAlloc impl",SB+" unsafe impl LocalAlloc")],["block pointers and block contents"])

p("P05","Values placed in a Bump are dropped exactly as their handle promises",
"A value moved into a bump allocator by leaking is never dropped by the allocator, neither on reset-free use nor when the allocator itself goes out of scope, and a failed leak hands the identical value back in its error together with the failure kind. An owning `LeakBox` drops its value exactly once when it is dropped, never when it was leaked, converted to raw or pinned-and-forgotten, and moves it out exactly once with `take`. Writing a value into an uninitialised box and converting between representations never drops, duplicates or changes the value or its address.",
["histories","inputs","configurations"],"all sequences of lifecycle operations up to a depth over values with identity, for sized, zero-sized, over-aligned values and slices, on static and unsync bumps, including failing allocations and panicking destructors",
"Unit tests check single lifecycles; combinations of conversions, failures and panicking destructors are not enumerated.",
[SB,LK,UB],[],[("Allocation::leak, LeakError",SB),("LeakBox into_raw/from_raw/take/leak/write/Drop",LK)],["drop ledger","addresses"])

p("P06","Unsync Bump allocation succeeds iff it fits, for every way to create one",
"For every sequence of calls on a single-threaded `unsync::Bump` or `MemBump`, however it was created (uninitialised, zeroed, on the heap with a capacity, in borrowed memory), a fresh allocator starts empty and an unconditional allocation succeeds exactly if the request fits behind the next suitably aligned address of the data area; it is placed exactly there, in bounds and disjoint from all earlier ones. Conditional allocation succeeds exactly if additionally the level matches, failures consume nothing and report the current level or exhaustion, zero-sized requests succeed without consuming anything, and `reset` makes the full capacity available again. An `unsync::Bump<T>` can always hold at least one `T`, whatever the alignment of `T`, and the reported capacity is exactly the number of allocatable bytes.",
["inputs","histories","configurations"],"all sequences up to a depth of alloc/alloc_at/get/get_at/bump_box/bump_array/level/reset over constructors, capacities, sizes and alignments",
"tests/unsync.rs covers a handful of calls on two fixed types; the grid of constructors, capacities, alignments and call orders is not reached.",
[UB],[("index","bytes handed out so far, stored in front of the data",UB+" MemBump.index")],[("bounds and alignment computation",UB+" MemBump::try_alloc_at"),("view of Bump<T> as MemBump",UB+" Deref"),("heap constructor",UB+" MemBump::new")],["returned pointers","capacity","level"])

p("P07","MemBump in borrowed memory stays inside it and survives conversions",
"Creating a `MemBump` in borrowed bytes of any length and address succeeds exactly if an aligned header fits, yields an empty allocator, and never touches bytes outside the borrowed slice. Converting it back to memory returns exactly the memory it occupied inside that slice, and re-attaching with the unchecked constructor preserves the level and all previously allocated values. Looking up a non-zero-sized value by the level observed before it was allocated yields the address that the allocation returned, for every alignment.",
["inputs","histories"],"all slice lengths 0..N at all start offsets modulo the header alignment, with all allocation sequences up to a depth and conversions at every point",
"Tests use one aligned large array; unaligned starts, tiny slices and round trips with live values are not exercised.",
[UB],[],[("MemBump::from_mem, from_mem_unchecked, into_mem",UB),("MemBump::get_unchecked",UB)],["canaries around the slice","returned slices and pointers"])

p("P08","Alloca always provides exactly the requested aligned scratch slice",
"For every element type and every length whose padded layout stays below the documented maximum stack size, `Alloca::run` calls the closure exactly once with a slice of exactly that length, correctly aligned, fully writable, disjoint from the memory of enclosing runs, and returns the closure's result; this includes zero lengths and zero-sized elements. Construction succeeds exactly if the padded length has a valid layout and never panics, and a panic in the closure propagates.",
["inputs"],"all lengths around every internal size-class boundary for elements of sizes 0..64 and alignments 1..64, nesting depth up to 3, and extreme lengths",
"tests/alloca.rs runs one length of one type; each size class is a separate instantiation and boundaries are not visited.",
[LK,UB],[],[("Alloca::new, run, run_with",LK)],["slice length, address","closure result"])

p("P09","Chain of bumps keeps all allocations alive and frees every link once",
"A `Chain` serves each allocation from its newest link if it fits and otherwise reports exhaustion; boxes are aligned, inside memory owned by the chain, and disjoint from all earlier ones. Joining another chain makes that chain's newest link current without moving, freeing or altering any value in this chain or in that link (older links of the joined chain are released, as documented); capacity figures reflect the current link. Dropping a chain releases the memory of every link it still owns exactly once, so that no link is ever leaked or released twice, with the layout it was obtained with, and creating a chain that cannot be allocated leaks nothing and reports an error with the size that could not be allocated, which is at least the requested one.",
["histories","inputs"],"all sequences up to a depth of new, chain (including empty, multi-link and self-built chains), bump_box of several types, and drop, over capacities 0..N",
"tests/chain.rs links two chains; leaks, double frees and order of links for longer histories are not observed, and tests do not account for memory.",
[CH,UB],[("root/next","singly linked list of heap links",CH+" Chain.root, Link.next")],[("Chain::chain, Drop for Chain/Link",CH),("Link::layout_from_size",CH)],["global allocator ledger","returned boxes"])

p("P10","ExitStack drops every pinned value exactly once, in LIFO order, in place",
"Every value pinned to an `ExitStack` is dropped exactly once, at the latest when the stack is popped, set again or dropped, in reverse order of pinning and at the very address at which it was pinned; until then the value is never moved or overwritten, and the stack cannot be moved by safe code once values are pinned. If a destructor panics, all remaining values are still dropped before the panic leaves the operation. Values never pinned (unused slots) are not dropped.",
["histories","fault_sequences"],"all sequences up to a depth of slot, pin, abandon slot, set, pop_all and drop over values of several sizes, with a panic injected in the destructor of any one value",
"tests/stackful.rs covers a few straight-line histories; destructor panics at each position and mixed orders are not enumerated.",
[ES],[("top/link","intrusive list of pinned values",ES+" ExitStack.top, PinSlot.link")],[("inner_pop_all_with_unsafe_self_and_pinned",ES),("Slot::pin",ES)],["drop ledger with addresses"])

p("P11","ExitStack slots are disjoint, reusable, and set never fails",
"An `ExitStack<Mem>` hands out a slot exactly if a value of that type with its bookkeeping still fits its memory; slots live at the same time never overlap each other and are aligned for their type, and slot acquisition order is independent of pinning order. After popping all values the full memory is available again, so that the same acquisitions succeed as on a fresh stack. `set` always succeeds for every `Mem`, including over-aligned and zero-sized ones, after dropping all earlier values.",
["histories","inputs"],"all sequences up to a depth of slot/pin/set/pop_all with value types of sizes 0..64 and alignments 1..64 on several memory types",
"Tests use plain integer arrays as memory; alignment combinations, refills after popping and slot orders are not enumerated.",
[ES,UB],[],[("ExitStack::slot, set, pop_all",ES),("memory: Bump<PinSlot<Mem>>",ES)],["slot availability","addresses"])

p("P12","Splitting and casting uninitialised memory never loses or duplicates bytes",
"All operations that split, cast, borrow or shrink an uninitialised memory handle (shared or mutable) partition exactly the original bytes: the parts are disjoint, in order, stay within the original region and together cover it, apart from alignment padding which stays with the front part. A split or cast succeeds exactly if the resulting part satisfies size and alignment of the requested layout or type, and a failed one leaves the original handle fully usable. Every typed or slice handle is aligned, its pointer, slice metadata, capacity and byte size agree with the bytes it owns, and initialising through it writes only those bytes.",
["inputs","histories"],"all sequences up to a depth of split/cast/shrink/convert operations over regions of 0..N bytes at every alignment offset, tracked against an interval model",
"Unit tests check lifetimes and one cast; the algebra over offsets, alignments and element sizes is not covered.",
[UN],[],[("UninitView::split_at_byte, split_layout, split_at, cast, cast_slice",UN),("Uninit wrappers",UN)],["pointers, lengths, slices obtained from handles"])

p("P13","FixedVec behaves like a Vec of fixed capacity",
"For every sequence of operations a `FixedVec` holds the same elements in the same order as a growable vector performing the same operations, except that operations exceeding the capacity are refused: `push` gives the value back, `fill` returns the untouched rest of the iterator, `extend` panics. Capacity equals the number of elements fitting the given memory, including unaligned memory from which an aligned part is taken and zero-sized elements with practically unlimited capacity. Splitting distributes elements and capacity exactly at the given index, and draining any range, consumed from either end to any extent, leaves exactly the elements outside the range.",
["histories","inputs"],"all operation sequences up to a depth with small capacities over all arguments (indices, ranges, iterator lengths), for sized, zero-sized and over-aligned elements and all memory alignments",
"Tests follow a few scripted sequences; drains partially consumed from both ends, splits followed by pushes and unaligned memory combine too widely.",
[FV,UN],[],[("FixedVec methods and Drain",FV)],["slice content compared with Vec"])

p("P14","FixedVec drops each element exactly once, even when destructors panic",
"Every element that enters a `FixedVec` is dropped exactly once or moved out exactly once, whatever sequence of operations follows, including splits, partially consumed drains and shrinking. If an element's destructor or a supplied iterator panics at any point, no element is ever dropped twice or exposed again after being dropped, and the vector stays usable and consistent; forgetting a drain or a split part may leak elements but never duplicates one. Truncation and dropping the vector still drop every remaining element when one destructor panics.",
["fault_sequences","histories"],"all operation sequences up to a depth with a panic injected at each destructor/iterator call and each handle optionally forgotten",
"Two unit tests inject one panic each; the position of the panic relative to each operation and forgotten handles are not enumerated.",
[FV],[],[("length bookkeeping: SetLenOnDrop, set_len before drain, Drain::drop",FV)],["drop ledger"])

p("P15","without-alloc Box owns its value and returns its memory",
"A `Box` placed in borrowed memory drops its value exactly once when dropped and never after being leaked, converted to raw or taken; taking returns the identical value and a memory handle covering the same bytes, which can be reused for a new value. Conversions to raw and back, and unsizing to slices or trait objects, preserve the value, its address, its drop behaviour and the amount of memory handed back. A value mutated through the box is observed mutated everywhere.",
["histories","inputs","configurations"],"all sequences up to a depth of create/mutate/into_raw/from_raw/unsize/take/leak/drop over sized, zero-sized, over-aligned values and trait objects, with panicking destructors",
"tests/box.rs covers single steps; sequences of conversions and memory reuse are not covered.",
[BX,UN],[],[("Box::new, take, into_raw, from_raw, leak, Drop, CoerciblePtr",BX)],["drop ledger","addresses and memory lengths"])

p("P16","Rc/Weak keep the value alive iff strong handles exist, and free memory once",
"The value in a without-alloc `Rc` is dropped exactly once, exactly when its last strong handle goes away, or moved out by unwrapping when the handle is the only strong one; upgrading a weak handle succeeds exactly while the value is alive and not already being dropped. Mutable access and raw conversion are granted exactly when the handle is unique, reported strong and weak counts equal the number of existing handles (all strong ones together count as one weak), and distinct handles compare pointer-equal iff they share the value. The memory is handed back only by the very last handle, covers the original bytes, and never while the value is alive or being dropped, even when destructors use or drop handles to the same value.",
["histories","fault_sequences"],"all sequences up to a depth of new/clone/downgrade/upgrade/drop/try_unwrap/get_mut/into_raw/from_raw over several handles, with destructors that hold, upgrade, unwrap or drop weak handles to themselves or panic",
"tests/rc.rs runs a few scripted count checks; interleavings of handle operations and re-entrant destructors are not enumerated.",
[RC],[("strong/weak counters","handle counts stored behind the value",RC+" RcBox")],[("Rc/Weak inc/dec, Drop, try_unwrap, into_raw",RC)],["counts, drop ledger, recovered memory"])

p("P17","Allocating extension methods build correct values or fail cleanly",
"For every local allocator, including ones that fail at arbitrary calls or return blocks larger or more aligned than needed, the allocation helpers (typed memory, layouts, boxes, fixed vectors, reference counted values, copies of slices, strings and dynamically sized values) either return an object placed wholly inside one block obtained with a sufficient layout and holding the given contents or capacity, or return `None`. On `None` the passed value is dropped exactly once and nothing else is affected; zero-sized requests never call the allocator and always succeed with correctly aligned, full-length results. Impossible capacities are refused without calling the allocator.",
["fault_sequences","inputs"],"all fault patterns over sequences of up to N helper calls, over element types (sizes 0..32, alignments 1..32), lengths and capacities including overflowing ones",
"Tests use a Bump that is large enough; failing allocators, zero-sized slices and overflow are not visited.",
[AL,UN,FV,RC],[],[("LocalAllocLeakExt default methods",AL)],["recording allocator, contents, drop ledger"])

p("P18","Fill consumes exactly the items it stores and never exceeds capacity",
"Filling a finite container takes items from the iterator one at a time only while there is room, stores them in order, and neither discards an item nor asks for more once the container is full or the iterator ended, even for infinite iterators. The helper variants agree: the kept tail yields precisely the items not stored, the count equals the number of stored items, and a checked fill reports overflow exactly as documented without losing items. Filling a result container stops at the first error, becomes that error, and otherwise behaves as filling the inner container.",
["inputs","histories"],"all containers (Vec, VecDeque, Option, unit, slice iterators, nested results) with all capacities/lengths 0..N and all item/error/end patterns, including non-fused and infinite iterators",
"tests fill one container each with a longer range; exact consumption, errors after full, repeated fills and non-fused iterators are not checked.",
[FI],[],[("Fill impls",FI)],["calls to next(), container contents"])

p("P19","Unsizing a pointer changes only its type",
"Converting any supported pointer (references, raw and non-null pointers, pinned pointers, owning and reference-counted smart pointers including dangling weak ones, and this workspace's own boxes and memory handles) to a slice or trait object yields a pointer to the same address with the right metadata that behaves like the original value. Ownership is transferred exactly once: reference counts are unchanged, nothing is dropped or leaked by the conversion, and the final drop runs the original destructor and releases memory with the original layout.",
["configurations","histories","inputs"],"all pointer kinds x all provided coercions x value kinds (zero-sized, over-aligned, with destructor), with all small histories of clone/downgrade/unsize/drop",
"tests convert one or two kinds each and check a single call; the matrix with ownership accounting is not covered.",
[US,UA,"unsize/src/coercion_impls.rs",BX,UN],[],[("unsize_with, CoerciblePtr impls",US),("smart_ptr_to_from_raw",UA)],["addresses, counts, drop ledger, allocator ledger"])

p("P20","Default LocalAlloc operations keep data under allocator failures",
"The provided default zero-initialising and reallocating operations, for every conforming local allocator, return a block of the requested layout that is entirely zero, respectively starts with the first min(old,new) bytes of the old block, and release the old block exactly once with its own layout exactly when reallocation succeeds. If the allocator fails they report failure, release nothing and leave the old block unchanged. Layout types agree with the standard ones: a non-zero layout exists exactly for non-zero sizes and conversions preserve size and alignment.",
["fault_sequences","inputs","histories"],"all sequences up to a depth of alloc/alloc_zeroed/realloc/dealloc over small sizes and alignments with all failure patterns of the underlying allocator",
"There are no tests of the default methods; failure patterns and dirty memory are never exercised.",
[TL,TU,TY],[],[("util::defaults::local",TU),("NonZeroLayout",TY)],["recording allocator, block contents"])

p("P21","Smart pointers and vectors compare, hash and format as their contents",
"For all of the workspace's pointer and vector types that offer comparison, ordering, hashing, borrowing or formatting, the result equals that of the same operation on the contained values: all comparison operators agree with each other and with the contents, including partially ordered values, equal contents hash equally and identically to the borrowed form, and debug/display output is that of the content (pointer formatting shows the content's address). None of these operations changes, drops or moves the contents.",
["inputs"],"all pairs of values from a small alphabet including incomparable ones, for every type and every operator, and all slices up to a length for vectors",
"Almost none of these impls is called by a test; the truth tables over incomparable values and slices of different lengths are not covered.",
[BX,RC,FV,LK],[],[("trait impls",BX+", "+RC+", "+FV+", "+LK)],["results of trait methods"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
