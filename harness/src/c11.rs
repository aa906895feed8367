//! C11: log messages from the audio side arrive whole and in order.
use crate::util::*;
use knaster_core::log::*;
use knaster_core::rt_log;
/// A part of a message, as a word.
fn word(m: &ArLogMessage) -> u64 {
    match m { ArLogMessage::Str(s) => 0x5000 + s.len() as u64, ArLogMessage::Float(f) => f.to_bits(), ArLogMessage::Unsigned(u) => *u, ArLogMessage::Signed(i) => *i as u64, ArLogMessage::Timestamp(t) => t.to_subsample_tesimals_u64(), ArLogMessage::End => 0xe0d }
}
fn kind(m: &ArLogMessage) -> u64 { match m { ArLogMessage::Str(_) => 0, ArLogMessage::Float(_) => 1, ArLogMessage::Unsigned(_) => 2, ArLogMessage::Signed(_) => 3, ArLogMessage::Timestamp(_) => 4, ArLogMessage::End => 5 } }
type Msg = Vec<(u64, u64)>;
/// Sends one of the kinds of message; its parts without the end.
fn send(s: &mut ArLogSender) -> Msg {
    let a = any_u64("a");
    match choice(5, "message") {
        0 => { rt_log!(s;); vec![] }
        1 => { rt_log!(s; a); vec![(2, a)] }
        2 => { let b = any_u32("b") as i32; rt_log!(s; "two", b); vec![(0, 0x5003), (3, b as i64 as u64)] }
        3 => { let b = any_u8("b"); let t = Seconds::new(any_u32("s"), any_in(0, 282_239_999, "ticks") as u32); rt_log!(s; b, t, "x"); vec![(2, b as u64), (4, t.to_subsample_tesimals_u64()), (0, 0x5001)] }
        _ => { let f = any_f64("f"); assume(f == f); rt_log!(s; f, 0x5u16, a, "four"); vec![(1, f.to_bits()), (2, 5), (2, a), (0, 0x5004)] }
    }
}
/// Receives; what arrives must be `expect`, whole messages only.
fn recv<N: Size>(r: &mut ArLogReceiver<N>, expect: &mut Vec<Msg>) {
    let (mut d, mut n, mut part) = (0u64, 0usize, 0usize);
    let e = core::mem::take(expect);
    r.recv(|ms| {
        for m in ms {
            check(n < e.len(), "nothing arrives that was not sent, or twice");
            if m.is_end() { check(part == e[n].len(), "a message arrives with all of its parts"); n += 1; part = 0; }
            else { check(part < e[n].len(), "two messages are never merged"); d |= word(m) ^ e[n][part].1 | (kind(m) ^ e[n][part].0); part += 1; }
        }
    });
    check(part == 0, "no part of an unfinished message arrives");
    check(n == e.len(), "every message that fits in the channel is received");
    check(d == 0, "a message's parts arrive as they were sent, in order");
}
fn seq(n: usize, maxcap: usize) {
    let cap = choice(maxcap as u32, "capacity") + 1;
    let (mut s, mut r) = ArLogReceiver::new().sender(cap);
    let (mut used, mut pending) = (0, Vec::new());
    for _ in 0..n {
        let m = send(&mut s);
        if used + m.len() + 1 <= cap { used += m.len() + 1; pending.push(m); } else { cover("dropped"); }
        if choice(2, "receive") == 1 { recv(&mut r, &mut pending); used = 0; }
    }
    recv(&mut r, &mut pending);
    let a = any_u64("last");
    rt_log!(s; a, a);
    if cap >= 3 { pending.push(vec![(2, a), (2, a)]); }
    recv(&mut r, &mut pending);
    recv(&mut r, &mut pending);
}
// @h h_c11_seq cover=dropped : channel capacities 1 to 6, three messages of 0 to 4 parts (text, numbers, times; any values), received after any of them, then one more: each arrives whole, once and in order, or not at all if it does not fit
#[unsafe(no_mangle)]
pub extern "C" fn h_c11_seq() { seq(3, 6); }
// @h h_c11_seq4 thorough cover=dropped : capacities 1 to 9, four messages
#[unsafe(no_mangle)]
pub extern "C" fn h_c11_seq4() { seq(4, 9); }
// @h h_c11_parts : a message of three parts sent piece by piece, with a receive between any of them, the ring in any of 8 positions: nothing arrives before its end
#[unsafe(no_mangle)]
pub extern "C" fn h_c11_parts() {
    let (mut s, mut r) = ArLogReceiver::new().sender(7);
    // moves the position in the ring
    for _ in 0..choice(8, "position") { s.send(ArLogMessage::End); recv(&mut r, &mut vec![vec![]]); }
    let before = choice(2, "before") == 1;
    if before { rt_log!(s; 1u64); }
    let mut pending: Vec<Msg> = if before { vec![vec![(2, 1)]] } else { vec![] };
    let v = [any_u64("a"), any_u64("b"), any_u64("c")];
    for x in v { s.send(x.into()); if choice(2, "receive") == 1 { recv(&mut r, &mut pending); } }
    s.send(ArLogMessage::End);
    pending.push(v.iter().map(|x| (2, *x)).collect());
    recv(&mut r, &mut pending);
}
// @h h_c11_two : two channels of one receiver: the messages of each arrive in their own order, unmixed
#[unsafe(no_mangle)]
pub extern "C" fn h_c11_two() {
    let (mut s, r) = ArLogReceiver::new().sender(5);
    let (mut t, mut r) = r.sender(3);
    let (mut used, mut pending) = ([0, 0], [Vec::new(), Vec::new()]);
    for _ in 0..3 {
        let c = choice(2, "channel");
        let m = send(if c == 0 { &mut s } else { &mut t });
        if used[c] + m.len() + 1 <= [5, 3][c] { used[c] += m.len() + 1; pending[c].push(m); }
        if choice(2, "receive") == 1 { let mut all = core::mem::take(&mut pending[0]); all.append(&mut pending[1]); recv(&mut r, &mut all); used = [0, 0]; }
    }
    let mut all = core::mem::take(&mut pending[0]);
    all.append(&mut pending[1]);
    recv(&mut r, &mut all);
}
// @h h_c11_audio : messages sent by a node from the audio side in two blocks (two a block) through the audio processor's channel of capacity 4 or 5, received after each block or at the end
#[unsafe(no_mangle)]
pub extern "C" fn h_c11_audio() {
    use crate::gr::*;
    struct L(u64);
    impl UGen for L {
        type Sample = Z;
        type Inputs = U0;
        type Outputs = U1;
        type Parameters = U0;
        fn process(&mut self, ctx: &mut AudioCtx, _: &mut UGenFlags, _: Frame<Z, U0>) -> Frame<Z, U1> { self.0 += 1; rt_log!(ctx.logger(); "n", self.0); [Z(0)].into() }
        fn param_hints() -> NumericArray<ParameterHint, U0> { [].into() }
        fn param_descriptions() -> NumericArray<&'static str, U0> { [].into() }
        fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
    }
    let cap = 4 + choice(4, "capacity");
    let (mut g, mut ap, mut r) = AudioProcessor::<Z>::new::<U0, U1>(AudioProcessorOptions { log_channel_capacity: cap, ..opts() });
    let first = any_u64("first");
    assume(first < 1 << 60);
    g.edit(|g| { g.push(L(first)); });
    let (mut used, mut pending) = (0, Vec::new());
    for b in 0..2 {
        ap.run_without_inputs();
        for f in 0..B as u64 { if used + 3 <= cap { used += 3; pending.push(vec![(0, 0x5001), (2, first + b * B as u64 + f + 1)]); } }
        if choice(2, "receive") == 1 { recv(&mut r, &mut pending); used = 0; }
    }
    recv(&mut r, &mut pending);
}
