//! C05: block processing equals frame-by-frame processing.
use crate::ug::*;
use knaster_core::log::ArLogSender;
const BS: usize = 4;
const SAME: &str = "producing a block at once, in parts or frame by frame gives the same samples";
const DONE: &str = "completion is reported at the same frame however the block is produced";
struct Two { both: bool }
fn input<T: UGen>(k: usize) -> VecBlock<f32> {
    let mut b = VecBlock::new(T::Inputs::USIZE, BS);
    for c in 0..T::Inputs::USIZE { for f in 0..BS {
        // one arbitrary sample per channel and block
        let x = if f == (k + c) % BS { any_f32("in") } else { 0.25 + f as f32 + (10 * c + 100 * k) as f32 };
        b.write(x, c, f);
    } }
    b
}
fn parts<T: UGen<Sample = f32>>(u: &mut T, ctx: &mut AudioCtx, flags: &mut UGenFlags, i: &VecBlock<f32>, o: &mut VecBlock<f32>, how: usize) {
    let frames = |u: &mut T, ctx: &mut AudioCtx, flags: &mut UGenFlags, o: &mut VecBlock<f32>, s: usize, e: usize| {
        let org = ctx.block;
        for f in s..e { ctx.block = org.make_partial(f, 1); run_frames(u, ctx, flags, i, o, f, 1); }
        ctx.block = org;
    };
    match how {
        0 => frames(u, ctx, flags, o, 0, BS),
        1 => { run_part(u, ctx, flags, i, o, 0, 1); run_part(u, ctx, flags, i, o, 1, BS - 1); }
        2 => { run_part(u, ctx, flags, i, o, 0, BS - 1); frames(u, ctx, flags, o, BS - 1, BS); }
        3 => { run_part(u, ctx, flags, i, o, 0, 2); run_part(u, ctx, flags, i, o, 2, 2); }
        _ => { frames(u, ctx, flags, o, 0, 1); run_part(u, ctx, flags, i, o, 1, 1); run_part(u, ctx, flags, i, o, 2, BS - 2); }
    }
}
impl Visit for Two {
    fn unit<T: UGen<Sample = f32> + 'static>(&mut self, mk: &mut dyn FnMut() -> T) {
        let (mut a, mut b) = (mk(), mk());
        let mut ctx = AudioCtx::new(48000, BS, ArLogSender::non_rt());
        a.init(48000, BS);
        b.init(48000, BS);
        let hints = T::param_hints();
        let how = choice(5, "how");
        for k in 0..3 {
            if k < 1 + self.both as usize {
                let p = choice(T::Parameters::USIZE as u32 + 1, "parameter");
                if p > 0 { let v = value_for(&hints[p - 1], choice(2, "value")); for u in [&mut a, &mut b] { check(u.param(&mut ctx, p - 1, v).is_ok(), "a parameter can be set"); } }
            }
            let i = input::<T>(k);
            let (mut x, mut y) = (VecBlock::<f32>::new(T::Outputs::USIZE, BS), VecBlock::<f32>::new(T::Outputs::USIZE, BS));
            for c in 0..T::Outputs::USIZE { for f in 0..BS { x.write(-77.0, c, f); y.write(-78.0, c, f); } }
            let (mut fa, mut fb) = (UGenFlags::new(), UGenFlags::new());
            a.process_block(&mut ctx, &mut fa, &i, &mut x);
            if k < 2 { parts(&mut b, &mut ctx, &mut fb, &i, &mut y, how); } else { b.process_block(&mut ctx, &mut fb, &i, &mut y); }
            for c in 0..T::Outputs::USIZE { for f in 0..BS { check(same(Block::read(&x, c, f), Block::read(&y, c, f)), SAME); } }
            check(fa.done() == fb.done(), DONE);
            ctx.block.set_frame_clock((k as u64 + 1) * BS as u64);
        }
    }
}
// @h h_c05_units : every unit there is a public way to make (45 with wrapped ones), blocks of 4 frames at 48 kHz with one arbitrary sample per input channel: a block at once equals one produced frame by frame or in any of four ways in parts, twice in a row and at once after that; one change of any parameter to one of two values before
#[unsafe(no_mangle)]
pub extern "C" fn h_c05_units() { unit(choice(UNITS, "unit"), &mut Two { both: false }); }
// @h h_c05_units2 : as h_c05_units with a change of any parameter before the first two blocks
#[unsafe(no_mangle)]
pub extern "C" fn h_c05_units2() { unit(choice(UNITS, "unit"), &mut Two { both: true }); }
