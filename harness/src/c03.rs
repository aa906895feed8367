//! C03: views of blocks.
use crate::util::*;
use knaster_graph::block::*;
const MAXC: usize = 3;
const MAXF: usize = 4;
fn id(c: usize, f: usize) -> f32 { (1 + c * 16 + f) as f32 }
/// Every (channel, frame) is its own sample, by all three ways to get at it.
fn fill<K: Block<Sample = f32>>(b: &mut K, ch: usize, bs: usize) {
    check(Block::channels(b) == ch && Block::block_size(b) == bs, "a block reports its size");
    for c in 0..ch { for f in 0..bs { b.write(id(c, f), c, f); } }
    let mut ok = true;
    for c in 0..ch {
        let s = Block::channel_as_slice(b, c);
        ok &= s.len() == bs;
        for f in 0..bs { ok &= s[f] == id(c, f) && Block::read(b, c, f) == id(c, f); }
    }
    let mut n = 0;
    for (c, s) in b.iter_mut().enumerate() {
        ok &= s.len() == bs;
        for f in 0..bs { ok &= s[f] == id(c, f); }
        n += 1;
    }
    check(ok && n == ch, "the samples of a block are distinct and the same by every access");
}
/// The block after `fill`, apart from `hit`.
fn intact<K: Block<Sample = f32>>(b: &K, ch: usize, bs: usize, hit: Option<(usize, usize, f32)>) -> bool {
    let mut ok = true;
    for c in 0..ch { for f in 0..bs {
        let v = Block::read(b, c, f);
        let mut want = id(c, f);
        if let Some((hc, hf, x)) = hit { if hc == c && hf == f { want = x; } }
        ok &= same(v, want);
    } }
    ok
}
/// How a view is used; `s`, `len` is its window in the block below.
fn use_view<V: Block<Sample = f32>>(v: &mut V, s: usize, len: usize, ch: usize, how: usize, x: f32) -> Option<(usize, usize, f32)> {
    check(Block::block_size(v) == len && Block::channels(v) == ch, "a view reports the size of its window");
    if ch == 0 { check(v.iter_mut().next().is_none(), "a view of no channels has none"); return None; }
    let c = any_in(0, ch as u64 - 1, "channel") as usize;
    match how {
        0 => {
            let mut n = 0;
            let mut ok = true;
            for (c, w) in v.iter_mut().enumerate() {
                ok &= w.len() == len;
                for f in 0..len { ok &= w[f] == id(c, s + f); }
                n += 1;
            }
            check(ok && n == ch, "iterating over a view gives its window of every channel in order");
            // and every frame is writable through it
            let (hc, hf) = (choice(ch as u32, "written channel"), choice(MAXF as u32, "written frame"));
            if hf >= len { return None; }
            let w = v.iter_mut().nth(hc).unwrap();
            w[hf] = x;
            Some((hc, s + hf, x))
        }
        1 => {
            let w = Block::channel_as_slice(v, c);
            check(w.len() == len, "a channel of a view has the length of the window");
            if len == 0 { return None; }
            let f = any_in(0, len as u64 - 1, "frame") as usize;
            check(w[f] == id(c, s + f), "a channel of a view is that channel of the block from the window's start");
            None
        }
        2 => {
            let w = v.channel_as_slice_mut(c);
            check(w.len() == len, "a channel of a view has the length of the window");
            if len == 0 { return None; }
            let f = any_in(0, len as u64 - 1, "frame") as usize;
            w[f] = x;
            Some((c, s + f, x))
        }
        3 => {
            if len == 0 { return None; }
            let f = any_in(0, len as u64 - 1, "frame") as usize;
            check(Block::read(v, c, f) == id(c, s + f), "reading from a view reads that frame of its window");
            None
        }
        4 => {
            if len == 0 { return None; }
            let f = any_in(0, len as u64 - 1, "frame") as usize;
            v.write(x, c, f);
            Some((c, s + f, x))
        }
        // accesses outside the window: refused, or at least without effect on anything else
        5 => {
            let (c, f) = (any_in(0, ch as u64 + 1, "any channel") as usize, any_in(0, 2 * MAXF as u64, "any frame") as usize);
            panic_ok(true);
            v.write(x, c, f);
            panic_ok(false);
            if c < ch && f < len { Some((c, s + f, x)) } else { None }
        }
        _ => {
            // whatever is read outside the window, nothing is written
            let (c, f) = (any_in(0, ch as u64 + 1, "any channel") as usize, any_in(0, 2 * MAXF as u64, "any frame") as usize);
            panic_ok(true);
            let y = Block::read(v, c, f);
            panic_ok(false);
            if c < ch && f < len { check(y == id(c, s + f), "reading from a view reads that frame of its window"); }
            None
        }
    }
}
fn read_view<V: BlockRead<Sample = f32>>(v: &V, s: usize, len: usize, ch: usize, how: usize) {
    check(v.block_size() == len && v.channels() == ch, "a view reports the size of its window");
    if ch == 0 || len == 0 { return; }
    let (c, f) = (any_in(0, ch as u64 - 1, "channel") as usize, any_in(0, len as u64 - 1, "frame") as usize);
    match how {
        0 => check(v.read(c, f) == id(c, s + f), "reading from a view reads that frame of its window"),
        1 => { let w = v.channel_as_slice(c); check(w.len() == len && w[f] == id(c, s + f), "a channel of a view is that channel of the block from the window's start"); }
        _ => {
            let (c, f) = (any_in(0, ch as u64 + 1, "any channel") as usize, any_in(0, 2 * MAXF as u64, "any frame") as usize);
            panic_ok(true);
            let y = v.read(c, f);
            panic_ok(false);
            if c < ch && f < len { check(y == id(c, s + f), "reading from a view reads that frame of its window"); }
        }
    }
}
/// A window of a block of `bs` frames; the start is symbolic, the length explored.
fn window(bs: usize, name: &str) -> (usize, usize) {
    let len = choice(bs as u32 + 1, "length");
    (any_in(0, (bs - len) as u64, name) as usize, len)
}
fn views<K: Block<Sample = f32>>(b: &mut K, ch: usize, bs: usize, deep: bool) {
    fill(b, ch, bs);
    let x = any_f32("x");
    let (s, len) = window(bs, "start");
    match choice(if deep { 6 } else { 4 }, "views") {
        0 => {
            let hit = use_view(&mut b.partial_mut(s, len), s, len, ch, choice(7, "how"), x);
            check(intact(b, ch, bs, hit), "an access through a view changes no other sample");
        }
        1 => {
            let (s2, l2) = window(len, "start 2");
            let mut v = b.partial_mut(s, len);
            let hit = use_view(&mut v.partial_mut(s2, l2), s + s2, l2, ch, choice(7, "how"), x);
            check(intact(b, ch, bs, hit), "an access through a view of a view changes no other sample");
        }
        2 => { cover("read"); read_view(&b.partial(s, len), s, len, ch, choice(3, "how")); check(intact(b, ch, bs, None), "reading changes nothing"); }
        3 => {
            let (s2, l2) = window(len, "start 2");
            let v = b.partial(s, len);
            read_view(&PartialBlock::from_block(&v, s2, l2), s + s2, l2, ch, choice(3, "how"));
        }
        4 => {
            // three deep
            let (s2, l2) = window(len, "start 2");
            let (s3, l3) = window(l2, "start 3");
            let mut v = b.partial_mut(s, len);
            let mut w = v.partial_mut(s2, l2);
            let hit = use_view(&mut w.partial_mut(s3, l3), s + s2 + s3, l3, ch, choice(7, "how"), x);
            check(intact(b, ch, bs, hit), "an access through a view of a view changes no other sample");
        }
        _ => {
            // a read-only view of a mutable one
            let (s2, l2) = window(len, "start 2");
            let v = b.partial_mut(s, len);
            read_view(&v.partial(s2, l2), s + s2, l2, ch, choice(3, "how"));
        }
    }
}
fn vec(deep: bool, maxc: u32, maxf: u32) {
    let (ch, bs) = (choice(maxc + 1, "channels"), 1 + choice(maxf, "block size"));
    views(&mut VecBlock::<f32>::new(ch, bs), ch, bs, deep);
}
// @h h_c03_vec cover=read : VecBlock of 0 to 2 channels and 1 to 3 frames; every window (symbolic start), every frame and channel in and around it (symbolic), views and views of views, all five ways of access
#[unsafe(no_mangle)]
pub extern "C" fn h_c03_vec() { vec(false, 2, 3); }
// @h h_c03_vec_deep thorough : as h_c03_vec with up to 3 channels and 4 frames, three levels of views and read-only views of mutable ones
#[unsafe(no_mangle)]
pub extern "C" fn h_c03_vec_deep() { vec(true, 3, 4); }
// @h h_c03_static : StaticBlock of 3x2, 1x3, 2x1
#[unsafe(no_mangle)]
pub extern "C" fn h_c03_static() {
    match choice(3, "shape") {
        0 => views(&mut StaticBlock::<f32, U3, U2>::new(), 3, 2, false),
        1 => views(&mut StaticBlock::<f32, U1, U3>::new(), 1, 3, false),
        _ => views(&mut StaticBlock::<f32, U2, U1>::new(), 2, 1, false),
    }
}
// @h h_c03_raw : RawContiguousBlock and RawAggregateBlock of up to 2 channels and 3 frames, over memory with guard samples around it
#[unsafe(no_mangle)]
pub extern "C" fn h_c03_raw() { raw(2, 3); }
// @h h_c03_raw_deep thorough : as h_c03_raw up to 3 channels and 4 frames
#[unsafe(no_mangle)]
pub extern "C" fn h_c03_raw_deep() { raw(3, 4); }
fn raw(maxc: u32, maxf: u32) {
    let (ch, bs) = (1 + choice(maxc, "channels"), 1 + choice(maxf, "block size"));
    const G: usize = 2;
    let mut mem = [-7.0f32; MAXC * MAXF + 2 * G];
    let p = mem.as_mut_ptr();
    if choice(2, "kind") == 0 {
        views(&mut unsafe { RawContiguousBlock::new(p.add(G), ch, bs) }, ch, bs, false);
    } else {
        // channels in reverse order
        let ptrs: Vec<*mut f32> = (0..ch).map(|c| unsafe { p.add(G + (ch - 1 - c) * bs) }).collect();
        views(&mut unsafe { RawAggregateBlock::new(&ptrs, bs) }, ch, bs, false);
    }
    let mut ok = true;
    for g in 0..G { ok &= mem[g] == -7.0 && mem[G + ch * bs + g] == -7.0; }
    check(ok, "nothing outside the block is written");
}
// @h h_c03_read : RawAggregateBlockRead of up to 3 channels and 4 frames, views and views of views
#[unsafe(no_mangle)]
pub extern "C" fn h_c03_read() {
    let (ch, bs) = (1 + choice(MAXC as u32, "channels"), 1 + choice(MAXF as u32, "block size"));
    let data: Vec<Vec<f32>> = (0..ch).map(|c| (0..bs).map(|f| id(c, f)).collect()).collect();
    let ptrs: Vec<*const f32> = data.iter().map(|c| c.as_ptr()).collect();
    let b = unsafe { RawAggregateBlockRead::new(&ptrs, bs) };
    let (s, len) = window(bs, "start");
    let how = choice(3, "how");
    match choice(3, "view") {
        0 => read_view(&b, 0, bs, ch, how),
        1 => read_view(&PartialBlock::from_block(&b, s, len), s, len, ch, how),
        _ => { let (s2, l2) = window(len, "start 2"); let v = PartialBlock::from_block(&b, s, len); read_view(&PartialBlock::from_block(&v, s2, l2), s + s2, l2, ch, how) }
    }
}
// @h h_c03_large : where the channels of views of a contiguous block of any size up to 65535 x 65535 begin and how long they are; only addresses are computed
#[unsafe(no_mangle)]
pub extern "C" fn h_c03_large() {
    let (ch, bs) = (any_u16("channels") as usize, any_u16("block size") as usize);
    let mut one = [0f32; 1];
    let base = one.as_mut_ptr();
    let b = unsafe { RawContiguousBlock::new(base, ch, bs) };
    let c = any_u16("channel") as usize;
    assume(c < ch);
    let at = |p: *const f32| (p as usize).wrapping_sub(base as usize);
    let w = Block::channel_as_slice(&b, c);
    check(at(w.as_ptr()) == 4 * c * bs && w.len() == bs, "channels follow one another");
    let (s, l) = (any_u16("start") as usize, any_u16("length") as usize);
    assume(s + l <= bs);
    let v = b.partial(s, l);
    let w = v.channel_as_slice(c);
    check(at(w.as_ptr()) == 4 * (c * bs + s) && w.len() == l, "a channel of a view begins at the window's start");
    let (s2, l2) = (any_u16("start 2") as usize, any_u16("length 2") as usize);
    assume(s2 + l2 <= l);
    let v2 = PartialBlock::from_block(&v, s2, l2);
    let w = v2.channel_as_slice(c);
    check(at(w.as_ptr()) == 4 * (c * bs + s + s2) && w.len() == l2, "a channel of a view of a view begins at both starts");
}
