//! C01: time and beat arithmetic.
use crate::util::*;
const T: u64 = SUBSECOND_TESIMALS_PER_SECOND as u64;
const BT: u64 = SUBBEAT_TESIMALS_PER_BEAT as u64;
fn sec(n: &str, m: &str) -> (Seconds, u64) {
    let (s, t) = (any_u32(n), any_u32(m));
    assume((t as u64) < T);
    (Seconds::new(s, t), s as u64 * T + t as u64)
}
/// (whole, ticks) of a `Seconds` through its public, exact flat conversion.
fn flat(s: Seconds) -> u64 { s.to_subsample_tesimals_u64() }
fn beat(n: &str, m: &str) -> (Beats, u64) {
    let (s, t) = (any_u32(n), any_u32(m));
    assume((t as u64) < BT);
    (Beats::new(s, t), s as u64 * BT + t as u64)
}
/// The well-formed `Beats` with this flat value; comparing by `==` also decides that the fractional part is below one beat.
fn beat_of(v: u64) -> Beats { Beats::new((v / BT) as u32, (v % BT) as u32) }
fn sec_of(v: u64) -> Seconds { Seconds::new((v / T) as u32, (v % T) as u32) }

// @h h_c01_sec_add : all pairs of well-formed times whose sum is representable
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_sec_add() {
    let (a, x) = sec("a.s", "a.t");
    let (b, y) = sec("b.s", "b.t");
    let c = x / T + y / T + if x % T + y % T >= T { 1 } else { 0 };
    assume(c <= u32::MAX as u64);
    let r = a + b;
    let mut r2 = a;
    r2 += b;
    let t = (x % T + y % T) - if x % T + y % T >= T { T } else { 0 };
    check(r == Seconds::new(c as u32, t as u32), "a+b is the exact sum, normalised");
    check(r2 == r, "+= equals +");
    note(flat(r));
}
// @h h_c01_sec_sub : all pairs of well-formed times
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_sec_sub() {
    let (a, x) = sec("a.s", "a.t");
    let (b, y) = sec("b.s", "b.t");
    let (s, t) = (any_u32("d.s"), any_u32("d.t"));
    match a.checked_sub(b) {
        None => { check(x < y, "checked_sub is None only for a negative difference"); check(a.saturating_sub(b) == Seconds::ZERO, "saturating_sub is zero for a negative difference"); }
        Some(r) => {
            check(x >= y, "checked_sub is Some only for a non-negative difference");
            // d is the well-formed time with b + d == a, if there is one
            assume((t as u64) < T && s as u64 * T + t as u64 == x - y);
            check(r == Seconds::new(s, t), "checked_sub is the exact difference, normalised");
            check(a.saturating_sub(b) == Seconds::new(s, t), "saturating_sub is the exact difference");
            note(flat(r));
        }
    }
}
// @h h_c01_sec_cmp : all pairs of well-formed times
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_sec_cmp() {
    let (a, x) = sec("a.s", "a.t");
    let (b, y) = sec("b.s", "b.t");
    check((a < b) == (x < y), "<");
    check((a <= b) == (x <= y), "<=");
    check((a == b) == (x == y), "==");
    check(a.cmp(&b) == x.cmp(&y), "cmp");
    check(a.partial_cmp(&b) == Some(x.cmp(&y)), "partial_cmp");
    check(core::cmp::max(a, b) == if x > y { a } else { b }, "max");
}
const FACT: [(u32, u32); 12] = [
    (0, 0), (1, 0), (0, 1), (0, T as u32 - 1), (2, 0), (0, T as u32 / 2), (1, T as u32 / 2), (3, T as u32 / 4),
    (0, T as u32 / 44100), (7, 12345678), (1000, T as u32 - 1), (65535, T as u32 / 3 * 2),
];
// @h h_c01_sec_mul : one factor any well-formed time below 65536 s, the other one of 12 listed constants (both orders)
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_sec_mul() {
    let (a, x) = sec("a.s", "a.t");
    assume(x < 65536 * T);
    let (s, t) = FACT[choice(12, "factor")];
    let b = Seconds::new(s, t);
    let swap = choice(2, "swap") == 1;
    // the exact product of s + t/T with a, in ticks, truncated
    let e = s as u64 * x + t as u64 * (x / T) + (t as u64 * (x % T)) / T;
    assume(e / T <= u32::MAX as u64);
    let r = if swap { b * a } else { a * b };
    let mut r2 = if swap { b } else { a };
    r2 *= if swap { a } else { b };
    check(r == sec_of(e), "a*b is the exact product truncated to a tick, normalised");
    check(r2 == r, "*= equals *");
    note(flat(r));
}
// @h h_c01_beat_add : all pairs of well-formed beat values whose sum is representable
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_beat_add() {
    let (a, x) = beat("a.b", "a.t");
    let (b, y) = beat("b.b", "b.t");
    let carry = x % BT + y % BT >= BT;
    let c = x / BT + y / BT + carry as u64;
    assume(c <= u32::MAX as u64);
    let t = (x % BT + y % BT) - if carry { BT } else { 0 };
    let r = a + b;
    let mut r2 = a;
    r2 += b;
    check(r == Beats::new(c as u32, t as u32), "a+b is the exact sum, normalised");
    check(r2 == r, "+= equals +");
    let s: Beats = [a, b].into_iter().sum();
    check(s == r, "sum() adds up");
}
// @h h_c01_beat_sub : all pairs of well-formed beat values
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_beat_sub() {
    let (a, x) = beat("a.b", "a.t");
    let (b, y) = beat("b.b", "b.t");
    let (s, t) = (any_u32("d.s"), any_u32("d.t"));
    match a.checked_sub(b) {
        None => { check(x < y, "checked_sub is None only for a negative difference"); check(a.saturating_sub(b) == Beats::ZERO, "saturating_sub is zero for a negative difference"); }
        Some(r) => {
            check(x >= y, "checked_sub is Some only for a non-negative difference");
            assume((t as u64) < BT && s as u64 * BT + t as u64 == x - y);
            check(r == Beats::new(s, t), "checked_sub is the exact difference, normalised");
            check(a.saturating_sub(b) == r, "saturating_sub is the exact difference");
        }
    }
}
// @h h_c01_beat_cmp : all pairs of well-formed beat values
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_beat_cmp() {
    let (a, x) = beat("a.b", "a.t");
    let (b, y) = beat("b.b", "b.t");
    check((a < b) == (x < y), "<");
    check((a >= b) == (x >= y), ">=");
    check((a == b) == (x == y), "==");
    check(a.cmp(&b) == x.cmp(&y), "cmp");
    check(a.partial_cmp(&b) == Some(x.cmp(&y)), "partial_cmp");
}
