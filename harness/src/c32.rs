//! C32: choice parameters and value conversions round-trip.
use crate::gr::*;
use knaster_core::num_derive::{FromPrimitive, ToPrimitive};
use knaster_core::num_traits;
use knaster_core::{Done, KnasterIntegerParameter, PInteger, PIntegerConvertible, PTrigger, ParameterType, impl_ugen};
use knaster_core_dsp::polyblep::Waveform;
use knaster_core_dsp::svf::SvfFilterType;
use knaster_graph::handle::HandleTrait;
#[derive(Clone, Copy, Debug, FromPrimitive, ToPrimitive, PartialEq, Default, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
pub enum One { #[default] Only }
/// More choices than a byte with a sign can count.
#[derive(Clone, Copy, Debug, FromPrimitive, ToPrimitive, PartialEq, Default, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
pub enum Five { A, B, #[default] C, D, E }
fn enumeration<T: PIntegerConvertible + Default + Copy>(all: &[T], names: &[&'static str], default: usize) {
    let len = all.len();
    let int = |t: T| -> usize { usize::from(Into::<PInteger>::into(t)) };
    for (i, t) in all.iter().enumerate() {
        check(int(*t) == i, "a choice's integer is its place in the list");
        check(int(T::from(PInteger(i))) == i, "an integer in the range yields the choice it stands for");
        check(T::pinteger_descriptions(PInteger(i)) == Some(names[i]), "a choice is listed by its name");
        check(matches!(ParameterValue::from(*t), ParameterValue::Integer(PInteger(n)) if n == i), "a choice is sent as its integer");
    }
    let (a, b) = T::pinteger_range();
    check(a.0 == 0 && b.0 == len - 1, "the range is from the first to the last choice");
    let n = any_u64("n") as usize;
    let got = int(T::from(PInteger(n)));
    check(got < len, "every integer yields a choice");
    check(got == if n < len { n } else { default }, "an integer outside the range yields the default");
    check(n < len || T::pinteger_descriptions(PInteger(n)).is_none(), "there is no name outside the range");
    let hint = ParameterHint::from_pinteger_enum::<T>();
    check(matches!(hint.ty(), ParameterType::Integer), "a choice parameter is an integer parameter");
    check(hint.float_hint().is_none(), "a choice parameter is no float parameter");
    let h = hint.integer_hint().unwrap();
    check(h.default.map(usize::from) == Some(default), "the default choice is the default");
    check(h.range.0.0 == 0 && h.range.1.0 == len - 1, "the hint has the range of the choices");
    check(h.description(PInteger(n)).is_some() == (n < len), "one name per choice");
    let list = h.descriptions().unwrap();
    check(list.len() == len, "one name per choice");
    for (i, (v, s)) in list.iter().enumerate() { check(v.0 == i && s == names[i], "the names are listed in order"); }
}
// @h h_c32_choices : the enumerations Done, SvfFilterType and Waveform, one with a single choice and one with a default in its middle: all choices, any 64-bit integer
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_choices() {
    use SvfFilterType as S;
    use Waveform as W;
    match choice(5, "enumeration") {
        0 => enumeration(&[Done::None, Done::FreeSelf, Done::FreeParent], &["None", "FreeSelf", "FreeParent"], 0),
        1 => enumeration(&[S::Low, S::High, S::Band, S::Notch, S::Peak, S::All, S::Bell, S::LowShelf, S::HighShelf], &["Low", "High", "Band", "Notch", "Peak", "All", "Bell", "LowShelf", "HighShelf"], 0),
        2 => enumeration(
            &[W::Sawtooth, W::Sine, W::Cosine, W::Triangle, W::Square, W::Rectangle, W::Ramp, W::ModifiedTriangle, W::ModifiedSquare, W::HalfWaveRectifiedSine, W::FullWaveRectifiedSine, W::TriangularPulse, W::TrapezoidFixed, W::TrapezoidVariable],
            &["Sawtooth", "Sine", "Cosine", "Triangle", "Square", "Rectangle", "Ramp", "ModifiedTriangle", "ModifiedSquare", "HalfWaveRectifiedSine", "FullWaveRectifiedSine", "TriangularPulse", "TrapezoidFixed", "TrapezoidVariable"], 0),
        3 => enumeration(&[One::Only], &["Only"], 0),
        _ => enumeration(&[Five::A, Five::B, Five::C, Five::D, Five::E], &["A", "B", "C", "D", "E"], 2),
    }
}
fn kinds(v: ParameterValue, f: bool, i: bool, b: bool) {
    check(v.float().is_some() == f && v.f::<f32>().is_some() == f && v.f::<f64>().is_some() == f, "only a float value is read as a float");
    check(v.integer().is_some() == i, "only an integer value is read as an integer");
    check(v.bool().is_some() == b, "only a boolean value is read as a boolean");
}
// @h h_c32_values : any float of 32 and of 64 bits, any 64-bit integer, any boolean, a trigger and a smoothing setting, as parameter values
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_values() {
    let x = any_f64("x");
    let v = ParameterValue::from(x);
    kinds(v, true, false, false);
    check(v.float().unwrap().to_bits() == x.to_bits() && v.f::<f64>().unwrap().to_bits() == x.to_bits(), "a double arrives as it was sent");
    check(same(v.f::<f32>().unwrap(), x as f32), "a double read as a single is the nearest one");
    let y = any_f32("y");
    let v = ParameterValue::from(y);
    kinds(v, true, false, false);
    check(same(v.f::<f32>().unwrap(), y), "a single arrives as it was sent");
    check(same64(v.float().unwrap(), y as f64), "a single arrives as it was sent");
    let n = any_u64("n") as usize;
    let v = ParameterValue::from(n);
    kinds(v, false, true, false);
    check(usize::from(v.integer().unwrap()) == n, "an integer arrives as it was sent");
    let v = ParameterValue::Integer(PInteger(n));
    kinds(v, false, true, false);
    check(usize::from(v.integer().unwrap()) == n && matches!(v.ty(), ParameterType::Integer), "an integer arrives as it was sent");
    let b = any_bool("b");
    let v = ParameterValue::from(b);
    kinds(v, false, false, true);
    check(v.bool() == Some(b) && matches!(v.ty(), ParameterType::Bool), "a boolean arrives as it was sent");
    let v = ParameterValue::from(PTrigger);
    kinds(v, false, false, false);
    check(matches!(v, ParameterValue::Trigger) && matches!(v.ty(), ParameterType::Trigger), "a trigger arrives as a trigger");
    let v = ParameterValue::from((ParameterSmoothing::Linear(y), Rate::AudioRate));
    kinds(v, false, false, false);
    check(matches!(v, ParameterValue::Smoothing(ParameterSmoothing::Linear(z), Rate::AudioRate) if same(z, y)), "a smoothing setting arrives as it was sent");
    check(matches!(ParameterValue::from(ParameterSmoothing::None), ParameterValue::Smoothing(ParameterSmoothing::None, Rate::BlockRate)), "a smoothing setting alone is for the block rate");
}
/// What a unit was given, where the harness can see it. Words of 32 bits.
static mut GOT: [u64; 9] = [0; 9];
fn got(i: usize) -> u64 { unsafe { GOT[i] } }
fn put(i: usize, v: u64) { unsafe { GOT[i] = v } }
/// A unit of all the kinds of parameters, with the arguments in different orders.
pub struct All<F> { f: core::marker::PhantomData<F>, frames: usize }
#[impl_ugen]
impl<F: Float> All<F> {
    pub fn new() -> Self { All { f: Default::default(), frames: 0 } }
    fn init(&mut self, sample_rate: u32, block_size: usize) { put(8, sample_rate as u64 * 1000 + block_size as u64); }
    #[param(default = 0.25, range = 0.0..=2.0, kind = Amplitude)]
    fn wide(&mut self, ctx: &mut AudioCtx, v: PFloat) { put(0, v.to_bits()); put(7, ctx.sample_rate() as u64); }
    #[param]
    fn single(&mut self, v: f32) { put(1, v.to_bits() as u64); }
    #[param(logarithmic = true)]
    fn double(&mut self, v: f64, ctx: &AudioCtx) { put(2, v.to_bits()); put(7, ctx.sample_rate() as u64); }
    #[param]
    fn number(&mut self, v: PInteger) { put(3, usize::from(v) as u64); }
    #[param(from = Five)]
    fn letter(&mut self, v: PInteger) { put(4, Five::from(v) as u64); }
    #[param]
    fn switch(&mut self, v: bool) { put(5, 1 + v as u64); }
    #[param]
    fn bang(&mut self, ctx: &mut AudioCtx) { put(6, got(6) + 1); put(7, ctx.sample_rate() as u64); }
    fn process(&mut self, ctx: &mut AudioCtx, input: [F; 3]) -> [F; 2] { self.frames += 1; put(7, ctx.sample_rate() as u64); [input[0] - input[1], input[2] + F::new(self.frames as f64)] }
}
const NAMES: [&str; 7] = ["wide", "single", "double", "number", "letter", "switch", "bang"];
/// Parameter `p`'s value, and what is stored for it.
fn value(p: usize) -> (ParameterValue, u64) {
    match p {
        0 | 2 => { let x = any_f64("x"); (x.into(), x.to_bits()) }
        1 => { let x = any_f32("x"); assume(!x.is_nan()); (x.into(), x.to_bits() as u64) }
        3 => { let n = any_u64("n"); ((n as usize).into(), n) }
        4 => { let f = [Five::A, Five::B, Five::C, Five::D, Five::E][choice(5, "letter")]; (f.into(), f as u64) }
        5 => { let b = any_bool("b"); (b.into(), 1 + b as u64) }
        _ => (PTrigger.into(), got(6) + 1),
    }
}
const ARRIVES: &str = "a value arrives as the value that was sent, at the parameter it was sent to";
fn arrived(before: [u64; 9], p: usize, want: u64) {
    for i in 0..7 { check(got(i) == if i == p { want } else { before[i] }, ARRIVES); }
}
// @h h_c32_unit : a unit built from annotated methods with a float parameter of each width, an integer, a choice, a boolean and a trigger (with and without the context): names, kinds and hints are those of the methods, and two changes of any parameters by index or name (any values) reach their methods only
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_unit() {
    type A = All<f32>;
    check(<A as UGen>::Parameters::USIZE == 7 && <A as UGen>::Inputs::USIZE == 3 && <A as UGen>::Outputs::USIZE == 2, "a unit has the parameters and channels of its methods");
    let (names, hints) = (A::param_descriptions(), A::param_hints());
    for i in 0..7 {
        check(names[i] == NAMES[i], "parameters are named after their methods, in order");
        check(match i { 0 | 1 | 2 => matches!(A::param_types()[i], ParameterType::Float), 3 | 4 => matches!(A::param_types()[i], ParameterType::Integer), 5 => matches!(A::param_types()[i], ParameterType::Bool), _ => matches!(A::param_types()[i], ParameterType::Trigger) }, "parameters are of the kind of their methods");
    }
    let h = hints[0].float_hint().unwrap();
    check(h.default == Some(0.25) && h.range == Some((0.0..=2.0).into()) && h.kind == Some(knaster_core::FloatParameterKind::Amplitude) && h.is_logarithmic.is_none(), "a hint is the one in the annotation");
    check(*hints[1].float_hint().unwrap() == Default::default() && hints[2].float_hint().unwrap().is_logarithmic == Some(true), "a hint is the one in the annotation");
    let h = hints[3].integer_hint().unwrap();
    check(h.range.0.0 == 0 && h.range.1.0 == usize::MAX && h.descriptions().is_none(), "a hint is the one in the annotation");
    check(hints[4].integer_hint().unwrap().descriptions().unwrap().len() == 5, "a hint is the one in the annotation");
    let mut ctx = AudioCtx::new(48000, 4, knaster_core::log::ArLogSender::non_rt());
    let mut u = A::new();
    UGen::init(&mut u, 48000, 4);
    check(got(8) == 48000 * 1000 + 4, "a unit is told the sample rate and block size");
    let mut last = 0;
    for _ in 0..2 {
        let p = choice(7, "parameter");
        last = p;
        let (v, want) = value(p);
        let before = unsafe { GOT };
        let r = if choice(2, "name") == 1 { u.param(&mut ctx, NAMES[p], v) } else { u.param(&mut ctx, p, v) };
        check(r.is_ok(), "a parameter can be set");
        arrived(before, p, want);
        if matches!(p, 0 | 2 | 6) { check(got(7) == 48000, "a method is given the context"); }
    }
    // what a parameter cannot do leaves it alone
    let before = unsafe { GOT };
    check(u.param(&mut ctx, last, (ParameterSmoothing::Linear(1.0), Rate::AudioRate)).is_ok(), "a smoothing setting is not an error");
    arrived(before, 7, 0);
    let mut flags = UGenFlags::new();
    let o = UGen::process(&mut u, &mut ctx, &mut flags, [5.0, 3.0, 7.0].into());
    check(o[0] == 2.0 && o[1] == 8.0, "the method's inputs and outputs are the unit's channels in order");
}
// @h h_c32_graph : the same unit in a running graph, set through a typed handle, a type-erased handle, a parameter of the graph editor or the graph, by index or name (any parameter, any value)
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_graph() {
    let (mut g, mut ap, l) = AudioProcessor::<f32>::new::<U0, U2>(opts());
    core::mem::forget(l);
    #[allow(deprecated)]
    let h = g.push(All::<f32>::new());
    let id: NodeId = (&h).into();
    for c in 0..2 { check(g.connect2(id, c, c, NodeOrGraph::Graph).is_ok(), "a valid connection is accepted"); }
    g.edit(|_| {});
    let p = choice(7, "parameter");
    let (v, want) = value(p);
    let before = unsafe { GOT };
    let name = choice(2, "name") == 1;
    let ok = match (choice(4, "way"), name) {
        (0, false) => h.set((p, v)).is_ok(),
        (0, true) => h.set((NAMES[p], v)).is_ok(),
        (1, false) => h.into_any().set((p, v)).is_ok(),
        (1, true) => h.into_any().set((NAMES[p], v)).is_ok(),
        (2, false) => g.set(id, p, v, knaster_graph::Time::asap()).is_ok(),
        (2, true) => g.set(id, NAMES[p], v, knaster_graph::Time::asap()).is_ok(),
        (_, false) => g.edit(|g| g.handle(id).unwrap().param(p).set(v).is_ok()),
        (_, true) => g.edit(|g| g.handle(id).unwrap().param(NAMES[p]).set(v).is_ok()),
    };
    check(ok, "a parameter can be set");
    ap.run_without_inputs();
    arrived(before, p, want);
    for f in 0..B { check(rd(ap.output_block(), 1, f) == (f + 1) as f32, "the unit runs once per frame"); }
    ap.run_without_inputs();
    arrived(before, p, want);
}
/// A unit with its own block routine in the array form.
pub struct Blocks<F> { n: u32, f: core::marker::PhantomData<F> }
#[impl_ugen]
impl<F: Float> Blocks<F> {
    #[param]
    fn a(&mut self, v: PFloat) { put(0, v.to_bits()); }
    fn process(&mut self, input: [F; 2]) -> [F; 3] { self.n += 1; [input[1], input[0], F::new(self.n as f64)] }
    fn process_block(&mut self, input: [&[F]; 2], out: [&mut [F]; 3]) {
        let [a, b] = input;
        let [x, y, z] = out;
        for i in 0..a.len() { self.n += 1; x[i] = b[i]; y[i] = a[i]; z[i] = F::new(self.n as f64); }
    }
}
// @h h_c32_blocks : a unit with a block method in array form: three frames of any samples in whole blocks or frame by frame: inputs and outputs are the channels in order
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_blocks() {
    use knaster_core::{Block, VecBlock};
    let mut u = Blocks::<f32> { n: 0, f: Default::default() };
    let mut ctx = AudioCtx::new(48000, 3, knaster_core::log::ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    let (mut i, mut o) = (VecBlock::<f32>::new(2, 3), VecBlock::<f32>::new(3, 3));
    for c in 0..2 { for f in 0..3 { i.write(any_f32("in"), c, f); } }
    if choice(2, "frames") == 1 {
        for f in 0..3 { let r = UGen::process(&mut u, &mut ctx, &mut flags, [Block::read(&i, 0, f), Block::read(&i, 1, f)].into()); for c in 0..3 { o.write(r[c], c, f); } }
    } else {
        UGen::process_block(&mut u, &mut ctx, &mut flags, &i, &mut o);
    }
    for f in 0..3 {
        check(same(rd(&o, 0, f), Block::read(&i, 1, f)) && same(rd(&o, 1, f), Block::read(&i, 0, f)) && rd(&o, 2, f) == (f + 1) as f32, "the method's inputs and outputs are the unit's channels in order");
    }
}
struct Smooth;
impl crate::ug::Visit for Smooth {
    fn unit<T: UGen<Sample = f32> + 'static>(&mut self, mk: &mut dyn FnMut() -> T) {
        const BS: usize = 4;
        let (mut a, mut b) = (mk(), mk());
        let mut ctx = AudioCtx::new(48000, BS, knaster_core::log::ArLogSender::non_rt());
        a.init(48000, BS);
        b.init(48000, BS);
        assume(T::Parameters::USIZE > 0);
        let p = choice(T::Parameters::USIZE as u32, "parameter");
        let s = if choice(2, "smoothing") == 0 { ParameterSmoothing::None } else { ParameterSmoothing::Linear(any_f32("seconds")) };
        let r = if choice(2, "rate") == 0 { knaster_core::Rate::BlockRate } else { knaster_core::Rate::AudioRate };
        let before = choice(2, "when");
        for k in 0..3 {
            if k == before { let _ = a.param(&mut ctx, p, ParameterValue::Smoothing(s, r)); }
            let mut i = VecBlock::<f32>::new(T::Inputs::USIZE, BS);
            for c in 0..T::Inputs::USIZE { for f in 0..BS { i.write(0.25 + f as f32 + (10 * c + 100 * k) as f32, c, f); } }
            let (mut x, mut y) = (VecBlock::<f32>::new(T::Outputs::USIZE, BS), VecBlock::<f32>::new(T::Outputs::USIZE, BS));
            let (mut fa, mut fb) = (UGenFlags::new(), UGenFlags::new());
            a.process_block(&mut ctx, &mut fa, &i, &mut x);
            b.process_block(&mut ctx, &mut fb, &i, &mut y);
            for c in 0..T::Outputs::USIZE { for f in 0..BS { check(same(Block::read(&x, c, f), Block::read(&y, c, f)), "a smoothing setting changes nothing in a unit without smoothing"); } }
            check(fa.done() == fb.done(), "a smoothing setting changes nothing in a unit without smoothing");
        }
    }
}
// @h h_c32_smoothing : every shipped unit without smoothing (43, some wrapped): any smoothing setting (any f32 of seconds, either rate) for any parameter, before the first block or the second
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_smoothing() {
    use crate::ug::*;
    let k = choice(UNITS, "unit");
    assume(k != 42 && k != 44);
    unit(k, &mut Smooth);
}
