//! C02: sample positions, tick counts and fractional times.
use crate::util::*;
const T: u64 = SUBSECOND_TESIMALS_PER_SECOND as u64;
const BT: u64 = SUBBEAT_TESIMALS_PER_BEAT as u64;
/// Rates that divide the tick resolution.
const RATES: [u64; 12] = [44100, 48000, 96000, 22050, 88200, 192000, 24000, 32000, 16000, 8000, 176400, 1];
fn rate(n: u32) -> u64 { RATES[choice(n, "rate")] }

// @h h_c02_samples quickonly : sample rates 44100, 48000, 96000, 22050, every sample count below 2^32 s
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_samples() { c02_samples(4) }
// @h h_c02_samples_all thorough time=3000 : 12 sample rates dividing the tick resolution, every sample count below 2^32 s
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_samples_all() { c02_samples(12) }
fn c02_samples(rates: u32) {
    let r = rate(rates);
    let (s, f) = (any_u32("s"), any_u32("f"));
    assume((f as u64) < r);
    let n = s as u64 * r + f as u64;
    let t = Seconds::from_samples(n, r);
    check(t == Seconds::new(s, (f as u64 * (T / r)) as u32), "from_samples is the exact position");
    check(t.to_samples(r) == n, "to_samples(from_samples(n)) == n");
    // one sample later is strictly later, and exactly one sample period later
    if n < u32::MAX as u64 * r {
        let t1 = Seconds::from_samples(n + 1, r);
        check(t1 > t, "order preserved");
        check(t1 == t + Seconds::from_samples(1, r), "commutes with adding one sample");
    }
    note(n);
}
// @h h_c02_samples_add quickonly : rates 44100, 48000, 96000, 22050, all pairs of sample counts below 2^31 s
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_samples_add() { c02_samples_add(4) }
// @h h_c02_samples_add_all thorough time=3000 : 12 rates, all pairs of sample counts below 2^31 s
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_samples_add_all() { c02_samples_add(12) }
fn c02_samples_add(rates: u32) {
    let r = rate(rates);
    let (s, f, u, g) = (any_u32("s"), any_u32("f"), any_u32("u"), any_u32("g"));
    assume((f as u64) < r && (g as u64) < r && s < (1 << 31) - 1 && u < (1 << 31) - 1);
    let (n, m) = (s as u64 * r + f as u64, u as u64 * r + g as u64);
    let (a, b) = (Seconds::from_samples(n, r), Seconds::from_samples(m, r));
    check(a + b == Seconds::from_samples(n + m, r), "commutes with addition");
    check((a < b) == (s < u || (s == u && f < g)), "order preserved");
}
// @h h_c02_samples_order : rates 44100, 48000 and 192000, pairs of raw sample counts below 2^40
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_samples_order() {
    let r = [44100u64, 48000, 192000][choice(3, "rate")];
    let (n, m) = (any_u64("n"), any_u64("m"));
    assume(n < m && m < 1 << 40);
    check(Seconds::from_samples(n, r) < Seconds::from_samples(m, r), "order preserved");
    check(Seconds::from_samples(n, r).to_samples(r) == n, "identity");
}
// @h h_c02_floor : any well-formed time at rates 12 dividing and 6 not dividing the tick resolution
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_floor() {
    let r = [44100u64, 48000, 96000, 88200, 192000, 22050, 24000, 32000, 16000, 8000, 176400, 1, 44101, 11025, 12345, 47999, 7, 352800][choice(18, "rate")];
    let (s, t) = (any_u32("s"), any_u32("t"));
    assume((t as u64) < T);
    let n = Seconds::new(s, t).to_samples(r);
    let whole = s as u64 * r;
    check(n >= whole, "not less than the whole seconds");
    let k = n - whole;
    // k = number of whole samples that have elapsed within the second: k/r <= t/T < (k+1)/r
    check(k < r, "less than a second's worth");
    check(k * T <= t as u64 * r, "never rounds up");
    check((k + 1) * T > t as u64 * r, "never more than one sample late");
    note(n);
}
// @h h_c02_flat : any well-formed time; any tick count representable as one
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_flat() {
    let (s, t) = (any_u32("s"), any_u32("t"));
    assume((t as u64) < T);
    let a = Seconds::new(s, t);
    let x = a.to_subsample_tesimals_u64();
    check(x == s as u64 * T + t as u64, "flat tick count");
    check(Seconds::from_subsample_tesimals_u64(x) == a, "flat tick count and back");
    note(x);
}
// @h h_c02_secs_f64 : 5 whole parts, every fraction in 2^-8 steps
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_secs_f64() {
    let w = [0u32, 1, 3, 65535, 1 << 20][choice(5, "whole")];
    let k = any_u32("k");
    assume(k < 256);
    let x = w as f64 + k as f64 / 256.0;
    let t = Seconds::from_secs_f64(x);
    // exact tick count is k*T/256, truncated
    let e = (k as u64 * T) >> 8;
    check(t == Seconds::new(w, e as u32), "from_secs_f64 truncates to a tick");
    let (t2, loss) = Seconds::from_secs_f64_return_precision_loss(x);
    check(t2 == t, "same time with the precision loss reported");
    check(loss >= -1e-9 && loss < 1.0 / T as f64 + 1e-9, "loses less than one tick");
    note(t.to_subsample_tesimals_u64());
}
// @h h_c02_secs_back : whole seconds 0, 1, 1000 with every tick count below 2^8, and 2^8 evenly spread tick counts
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_secs_back() {
    let w = [0u32, 1, 1000][choice(3, "whole")];
    let k = any_u32("k");
    assume(k < 256);
    let t = if choice(2, "spread") == 0 { k } else { k * (T / 256) as u32 };
    let a = Seconds::new(w, t);
    let x = a.to_secs_f64();
    check(x >= w as f64 && x < w as f64 + 1.0, "within its second");
    let d = (x - w as f64) * T as f64 - t as f64;
    check(d > -0.01 && d < 0.01, "to_secs_f64 is the time in seconds");
    note(x.to_bits());
}
// @h h_c02_beats : beat fractions 2,3,4,5,6,7,8,9,12,16,32,64,1920 with every numerator; whole beats any u32; f64 with 2^-16 resolution
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_beats() {
    macro_rules! frac { ($($n:literal),*) => {{ let mut i = 0; let c = choice([$($n),*].len() as u32, "fraction"); $( if i == c { let k = any_u32("num"); let b = any_u32("beats"); assume(k < $n);
        let v = Beats::from_fractional_beats::<$n>(b, k);
        // n-th parts are exact when n divides the resolution
        check(v == Beats::new(b, k * (BT / $n) as u32), "fraction of a beat"); check(BT % $n == 0, "resolution divides");
        // n of them make one beat
        if k == 1 && b == 0 { let mut s = Beats::ZERO; let m: u32 = if $n <= 64 { $n } else { 0 }; for _ in 0..m { s += v; } if m > 0 { check(s == Beats::from_beats(1), "n n-th parts make a beat"); } } } i += 1; )* let _ = i; }} }
    frac!(2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 32, 64, 1920);
}
// @h h_c02_beats_f64 : 5 whole parts, fractions in 2^-8 steps
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_beats_f64() {
    let w = [0u32, 1, 3, 65535, 1 << 20][choice(5, "whole")];
    let k = any_u32("k");
    assume(k < 256);
    let x = w as f64 + k as f64 / 256.0;
    let t = Beats::from_beats_f64(x);
    check(t == Beats::new(w, ((k as u64 * BT) >> 8) as u32), "from_beats_f64 truncates to a tick");
    check(Beats::from(x) == t, "From<f64>");
    let d = t.as_beats_f64() - x;
    check(d <= 1e-12 && d > -1.0 / BT as f64 - 1e-9, "loses less than one tick");
}
