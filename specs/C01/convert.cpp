// vf-assume: sub-second parts given to the conversion lie in [0, 1s), as POSIX file times do
#include "vf.hpp"
#include "asioext/detail/chrono.hpp"
#include <ratio>
namespace chrono = asioext::chrono;
namespace d = asioext::detail;
typedef int64_t i64;
static const i64 G = 1000000000, MILL = 1000000;
static const i64 IMIN = INT64_MIN, IMAX = INT64_MAX;

// value == hi * unit + lo, exactly (no reduction modulo 2^64), for 0 <= lo < unit
static bool split_is(i64 value, i64 hi, i64 lo, i64 unit) {
  i64 q = IMIN / unit - 1;       // floor of the smallest value
  return lo >= 0 && lo < unit && hi >= q && hi <= IMAX / unit &&
         (uint64_t)value == (uint64_t)hi * (uint64_t)unit + (uint64_t)lo;
}
// does hi * unit + lo fit 64 bits?
static bool fits(i64 hi, i64 lo, i64 unit) {
  i64 q = IMIN / unit - 1, r = (i64)((uint64_t)IMIN - (uint64_t)q * (uint64_t)unit);
  i64 qx = IMAX / unit, rx = IMAX - qx * unit;
  return (hi > q || (hi == q && lo >= r)) && (hi < qx || (hi == qx && lo <= rx));
}

template <class Rep, class Dur, class Sub>
static void decompose(i64 unit) {
  i64 v = (i64)vf_u64("time");
  Rep f0 = (Rep)vf_u64("old first"); i64 s0 = (i64)vf_u64("old second");
  chrono::duration<Rep> f(f0); Sub s(s0);
  bool ok = d::decompose_time(Dur(v), f, s);
  if (sizeof(Rep) < 8) {
    const i64 lim = (i64)1 << (8 * sizeof(Rep) - 1);
    vf_assert(ok == (v >= -lim * unit && v < lim * unit), "a time is refused exactly if its whole seconds do not fit");
  } else vf_assert(ok, "64 bit seconds hold every time");
  if (ok) {
    vf_cover("exact");
    vf_assert(split_is(v, f.count(), s.count(), unit), "a time is split into whole seconds, rounded down, and a non-negative rest");
  }
}
VF_HARNESS(decompose_ns) { decompose<i64, chrono::nanoseconds, chrono::nanoseconds>(G); vf_expect_cover("exact"); }
VF_HARNESS(decompose_ns_32) { decompose<int32_t, chrono::nanoseconds, chrono::nanoseconds>(G); vf_expect_cover("exact"); }
VF_HARNESS(decompose_us) { decompose<i64, chrono::microseconds, chrono::microseconds>(MILL); vf_expect_cover("exact"); }
VF_HARNESS(decompose_us_32) { decompose<int32_t, chrono::microseconds, chrono::microseconds>(MILL); vf_expect_cover("exact"); }

template <class Rep, class Dur, class Sub>
static void compose(i64 unit) {
  Rep hi = (Rep)vf_u64("seconds"); i64 lo = (i64)vf_u64("rest"), old = (i64)vf_u64("old");
  vf_assume(lo >= 0 && lo < unit);
  Dur out(old);
  bool ok = d::compose_time(chrono::duration<Rep>(hi), Sub(lo), out);
  vf_assert(ok == fits(hi, lo, unit), "a time is refused exactly if it does not fit 64 bits");
  if (ok) {
    vf_cover("fits");
    if (hi < 0) vf_cover("before the epoch");
    vf_assert((uint64_t)out.count() == (uint64_t)(i64)hi * (uint64_t)unit + (uint64_t)lo, "seconds and rest are added up exactly");
  } else {
    vf_assert(out.count() == old, "a refused conversion leaves its result alone");
  }
}
VF_HARNESS(compose_ns) { compose<i64, chrono::nanoseconds, chrono::nanoseconds>(G); vf_expect_cover("before the epoch"); }
VF_HARNESS(compose_ns_32) { compose<int32_t, chrono::nanoseconds, chrono::nanoseconds>(G); vf_expect_cover("before the epoch"); }
VF_HARNESS(compose_us) { compose<i64, chrono::microseconds, chrono::microseconds>(MILL); vf_expect_cover("before the epoch"); }
VF_HARNESS(round_trip) {
  i64 v = (i64)vf_u64("time");
  chrono::seconds f(0); chrono::nanoseconds s(0), back(0);
  vf_assert(d::decompose_time(chrono::nanoseconds(v), f, s) && d::compose_time(f, s, back) && back.count() == v, "every time survives splitting and joining");
}

// unit conversion by num/den: exact (rounded towards zero), or refused
template <class A, class PA, class B, class PB>
static void cast(i64 num, i64 den) {
  A v = (A)vf_u64("value"); B old = (B)vf_u64("old");
  chrono::duration<B, PB> out(old);
  bool ok = d::safe_duration_cast(chrono::duration<A, PA>(v), out);
  const i64 lo = std::numeric_limits<B>::min(), hi = std::numeric_limits<B>::max();
  if (num != 1 && den == 1) {
    vf_assert(ok == ((i64)v >= lo / num && (i64)v <= hi / num), "a value is refused exactly if the result does not fit");
    if (ok) { vf_cover("ok"); vf_assert((uint64_t)(i64)out.count() == (uint64_t)(i64)v * (uint64_t)num, "the value is scaled exactly"); }
  } else if (num == 1) {
    i64 q = (i64)vf_u64("q"), r = (i64)vf_u64("r");   // v = q * den + r, rounded towards zero
    vf_assume(q >= IMIN / den && q <= IMAX / den && r > -den && r < den && (v >= 0 ? r >= 0 && q >= 0 : r <= 0 && q <= 0) && (uint64_t)(i64)v == (uint64_t)q * (uint64_t)den + (uint64_t)r);
    vf_assert(ok == (q >= lo && q <= hi), "a value is refused exactly if the result does not fit");
    if (ok) { vf_cover("ok"); vf_assert((i64)out.count() == q, "the value is divided, rounding towards zero"); }
  } else {
    if ((i64)v < IMIN / num || (i64)v > IMAX / num) vf_assert(!ok, "a value whose conversion overflows is refused");
    else {
      i64 p = (i64)((uint64_t)(i64)v * (uint64_t)num);
      i64 q = (i64)vf_u64("q"), r = (i64)vf_u64("r");
      vf_assume(q >= IMIN / den && q <= IMAX / den && r > -den && r < den && (p >= 0 ? r >= 0 && q >= 0 : r <= 0 && q <= 0) && (uint64_t)p == (uint64_t)q * (uint64_t)den + (uint64_t)r);
      vf_assert(ok == (q >= lo && q <= hi), "a value is refused exactly if the result does not fit");
      if (ok) { vf_cover("ok"); vf_assert((i64)out.count() == q, "the value is scaled, rounding towards zero"); }
    }
  }
  if (!ok) vf_assert(out.count() == old, "a refused conversion leaves its result alone");
}
VF_HARNESS(cast_same) { cast<i64, std::nano, i64, std::nano>(1, 1); }
VF_HARNESS(cast_narrow) { cast<i64, std::ratio<1>, int32_t, std::ratio<1>>(1, 1); }
VF_HARNESS(cast_widen) { cast<int32_t, std::ratio<1>, i64, std::ratio<1>>(1, 1); }
VF_HARNESS(cast_s_ns) { cast<i64, std::ratio<1>, i64, std::nano>(G, 1); }
VF_HARNESS(cast_s_ns_32) { cast<int32_t, std::ratio<1>, i64, std::nano>(G, 1); }
VF_HARNESS(cast_s_ms_32) { cast<i64, std::ratio<1>, int32_t, std::milli>(1000, 1); }
VF_HARNESS(cast_s_us) { cast<i64, std::ratio<1>, i64, std::micro>(MILL, 1); }
VF_HARNESS(cast_ns_s) { cast<i64, std::nano, i64, std::ratio<1>>(1, G); }
VF_HARNESS(cast_ns_s_32) { cast<i64, std::nano, int32_t, std::ratio<1>>(1, G); }
VF_HARNESS(cast_us_s) { cast<i64, std::micro, i64, std::ratio<1>>(1, MILL); }
VF_HARNESS(cast_ns_h) { cast<i64, std::nano, i64, std::ratio<3600>>(1, 3600 * G); }
VF_HARNESS(cast_frames_ms) { cast<i64, std::ratio<1, 24>, i64, std::milli>(125, 3); }
VF_HARNESS(cast_frames_ms_32) { cast<i64, std::ratio<1, 24>, int32_t, std::milli>(125, 3); }

VF_HARNESS(cast_ms_frames_32) { cast<i64, std::milli, int32_t, std::ratio<1, 24>>(3, 125); }
VF_HARNESS(time_t_round_trip) {
  std::time_t t = (std::time_t)vf_u64("t");
  vf_assume(t >= IMIN / G && t <= IMAX / G);
  asioext::file_time_type p = asioext::file_clock::from_time_t(t);
  vf_assert((uint64_t)p.time_since_epoch().count() == (uint64_t)t * (uint64_t)G, "from_time_t is exact");
  vf_assert(asioext::file_clock::to_time_t(p) == t, "a time_t survives the round trip");
  i64 v = (i64)vf_u64("time");
  std::time_t b = asioext::file_clock::to_time_t(asioext::file_time_type(chrono::nanoseconds(v)));
  vf_assert(b >= IMIN / G && b <= IMAX / G, "to_time_t yields the seconds of the time");
  i64 r = (i64)((uint64_t)v - (uint64_t)b * (uint64_t)G);
  vf_assert(v >= 0 ? r >= 0 && r < G : r <= 0 && r > -G, "to_time_t drops the sub-second part");
}
