// C71: time scales.
#include <cmath>
#include <string>
#include <array>

#include "astronomy/epoch.hpp"
#include "astronomy/time_scales.hpp"
#include "harness/calendars.h"
#include "harness/principia.h"

// The data of the Earth orientation parameters, read independently.
namespace eop {
constexpr double Second = 1;
struct EOPC04Entry {
  int date;
  double ut1_minus_utc;
};
struct ExperimentalEOPC02Entry {
  double mjd;
  double ut1_minus_tai;
  constexpr ExperimentalEOPC02Entry(double m, double u)
      : mjd(m), ut1_minus_tai(u) {}
};
#include "astronomy/experimental_eop_c02.generated.h"
#include "astronomy/eop_c04.generated.h"
}  // namespace eop

using namespace principia::astronomy::_date_time;
using namespace principia::astronomy::_epoch;
using namespace principia::astronomy::_time_scales;
namespace cal = calendars;
using cal::Format;
using cal::Int;
using seq::Dies;
using seq::Notes;
using seq::Of;

namespace {

using Real = long double;

double FromJ2000(Instant const& t) {
  return (t - J2000) / Second;
}

// A string for a day number (Gregorian).
std::string DayString(Int const n) {
  cal::YMD const d = cal::FromDayNumber(n, true);
  return Format(d.year < 1583 ? "G%04d-%02d-%02d" : "%04d-%02d-%02d",
                d.year, d.month, d.day);
}

// Seconds since J2000 on a scale without leap seconds; `ms` may be larger than
// a day.
Real Seconds(Int const n, Int const ms) {
  return (Real(n) - 2'451'545) * 86'400 - 43'200 + Real(ms) / 1000;
}

std::string TimeOf(Int const ms) {
  Int const s = ms / 1000;
  return Format("%02d:%02d:%02d.%03d", (int)(s / 3600), (int)(s / 60 % 60),
                (int)(s % 60), (int)(ms % 1000));
}

void Near(Instant const& t, Real const expected, double const tolerance,
          std::string const& what) {
  Check(std::abs(FromJ2000(t) - expected) <=
            tolerance + 1e-11 + std::abs(expected) * 3e-16L,
        what, " is ", FromJ2000(t), " s after J2000, expected ",
        (double)expected);
}

// Bulletin C: the days at the end of which a second was inserted.
constexpr int leap_seconds[][2] = {
    {1972, 6},  {1972, 12}, {1973, 12}, {1974, 12}, {1975, 12}, {1976, 12},
    {1977, 12}, {1978, 12}, {1979, 12}, {1981, 6},  {1982, 6},  {1983, 6},
    {1985, 6},  {1987, 12}, {1989, 12}, {1990, 12}, {1992, 6},  {1993, 6},
    {1994, 6},  {1995, 12}, {1997, 6},  {1998, 12}, {2005, 12}, {2008, 12},
    {2012, 6},  {2015, 6},  {2016, 12}};

// The day after the leap.
Int AfterLeap(int const (&leap)[2]) {
  return leap[1] == 6 ? cal::DayNumber(true, leap[0], 7, 1)
                      : cal::DayNumber(true, leap[0] + 1, 1, 1);
}

struct Stretch {
  int year, month, day;
  Real offset, epoch_mjd, rate;
  // The leap which ends this period, in nanoseconds.
  Int leap_ns;
};
// UTC-TAI.history.
constexpr Stretch stretches[] = {
    {1961, 1, 1, 1.422'818'0L, 37300, 0.001'296L, -50'000'000},
    {1961, 8, 1, 1.372'818'0L, 37300, 0.001'296L, 0},
    {1962, 1, 1, 1.845'858'0L, 37665, 0.001'123'2L, 100'000'000},
    {1963, 11, 1, 1.945'858'0L, 37665, 0.001'123'2L, 0},
    {1964, 1, 1, 3.240'130'0L, 38761, 0.001'296L, 100'000'000},
    {1964, 4, 1, 3.340'130'0L, 38761, 0.001'296L, 100'000'000},
    {1964, 9, 1, 3.440'130'0L, 38761, 0.001'296L, 100'000'000},
    {1965, 1, 1, 3.540'130'0L, 38761, 0.001'296L, 100'000'000},
    {1965, 3, 1, 3.640'130'0L, 38761, 0.001'296L, 100'000'000},
    {1965, 7, 1, 3.740'130'0L, 38761, 0.001'296L, 100'000'000},
    {1965, 9, 1, 3.840'130'0L, 38761, 0.001'296L, 0},
    {1966, 1, 1, 4.313'170'0L, 39126, 0.002'592L, -100'000'000},
    {1968, 2, 1, 4.213'170'0L, 39126, 0.002'592L, 107'758'000}};

Stretch const* FindStretch(Int const n) {
  Stretch const* result = nullptr;
  for (auto const& s : stretches) {
    if (cal::DayNumber(true, s.year, s.month, s.day) <= n) result = &s;
  }
  return result;
}

Int const utc_begin = cal::DayNumber(true, 1961, 1, 1);
Int const utc_1972 = cal::DayNumber(true, 1972, 1, 1);
// After the last announced leap second or its absence.
Int const utc_end = cal::DayNumber(true, 2023, 1, 1);

// TAI - UTC in seconds at `ms` in the day `n`.
Real TAIMinusUTC(Int const n, Int const ms) {
  if (n < utc_1972) {
    auto const* const s = FindStretch(n);
    return s->offset +
           (Real(n) - 2'400'001 + Real(ms) / 86'400'000 - s->epoch_mjd) *
               s->rate;
  }
  int result = 10;
  for (auto const& leap : leap_seconds) {
    if (AfterLeap(leap) <= n) ++result;
  }
  return result;
}

// The length of a UTC day in nanoseconds.
Int DayLength(Int const n) {
  Int const ordinary = 86'400'000'000'000;
  if (n < utc_1972) {
    auto const* const s = FindStretch(n);
    bool const last = n + 1 == utc_1972 || FindStretch(n + 1) != s;
    return last ? ordinary + s->leap_ns : ordinary;
  }
  for (auto const& leap : leap_seconds) {
    if (AfterLeap(leap) == n + 1) return ordinary + 1'000'000'000;
  }
  return ordinary;
}

Real UTC(Int const n, Int const ms) {
  return Seconds(n, ms) + TAIMinusUTC(n, ms) + 32.184L;
}

// The string for a UTC time which may be in a leap second.
std::string UTCString(Int const n, Int const ms) {
  return DayString(n) + "T" +
         (ms >= 86'400'000
              ? Format("23:59:%02d.%03d", (int)(60 + (ms - 86'400'000) / 1000),
                       (int)(ms % 1000))
              : TimeOf(ms));
}

void CheckUTC(Int const n, Int const ms) {
  std::string const s = UTCString(n, ms);
  seq::Step();
  bool const valid = ms * 1'000'000 < DayLength(n);
  bool const dies = Dies([&] {
    Instant const t = ParseUTC(s);
    if (valid) {
      Near(t, UTC(n, ms), 3e-7, s + " UTC");
    }
  });
  CheckEq(dies, !valid, "is it valid UTC? ", s);
}

}  // namespace

// Every day of UTC: its beginning, its middle, its end, and what follows.
SEQ_HARNESS(UTCDays, .split = 1, .hang_s = 300) {
  int const chunk = Choose(64);
  for (Int n = utc_begin + chunk; n < utc_end; n += 64) {
    for (Int const ms :
         {0, 1, 43'199'999, 43'200'000, 86'399'000, 86'399'500, 86'399'899,
          86'399'900, 86'399'949, 86'399'950, 86'399'999}) {
      CheckUTC(n, ms);
    }
    cal::YMD const next = cal::FromDayNumber(n + 1, true);
    if (next.day == 1 && (n < utc_1972 || next.month == 1 || next.month == 7)) {
      for (Int ms = 86'400'000; ms < 86'401'000; ++ms) {
        CheckUTC(n, ms);
      }
    } else {
      std::string const s = UTCString(n, 86'400'500);
      Check(Dies([&] { ParseUTC(s); }), "no leap second ", s);
    }
    // 24:00 is the beginning of the next day.
    std::string const end = DayString(n) + "T24:00:00";
    Instant const t = ParseUTC(end);
    Check(t == ParseUTC(DayString(n + 1) + "T00:00:00"), "end of the day ", end);
    // UTC goes on continuously through the leap.
    Near(t, UTC(n, 0) + DayLength(n) * 1e-9L +
            (n < utc_1972 ? FindStretch(n)->rate *
                                (1 + DayLength(n) / 86400e9L - 1)
                          : 0),
         2e-6, end);
  }
}

// Every second of the days where UTC has a leap, every millisecond around it.
SEQ_HARNESS(UTCLeaps, .split = 1, .hang_s = 300) {
  std::vector<Int> days;
  for (Int n = utc_begin; n < utc_end; ++n) {
    if (DayLength(n) != 86'400'000'000'000) days.push_back(n);
  }
  CheckEq(days.size(), std::size(leap_seconds) + 10);
  Int const n = seq::Pick(days);
  Notes(DayString(n));
  for (Int s = 0; s < 86'400; ++s) {
    for (Int const ms : {0, 899, 900, 949, 950, 999}) {
      if (s % 7 == 0 || s % 60 == 59) CheckUTC(n, s * 1000 + ms);
    }
  }
  double last = -std::numeric_limits<double>::infinity();
  for (Int ms = 86'398'000; ms < 86'403'000; ++ms) {
    Int const day = ms < 86'401'000 ? n : n + 1;
    Int const ms_of_day = ms < 86'401'000 ? ms : ms - 86'401'000;
    CheckUTC(day, ms_of_day);
    if (ms_of_day * 1'000'000 < DayLength(day)) {
      double const t = FromJ2000(ParseUTC(UTCString(day, ms_of_day)));
      Check(t > last, "order of ", UTCString(day, ms_of_day));
      last = t;
    }
  }
}

SEQ_HARNESS(UTCRange) {
  Int const n = Of<Int>({utc_begin - 1, utc_begin - 366, utc_begin - 40'000,
                         cal::DayNumber(true, 2030, 1, 1),
                         cal::DayNumber(true, 2023, 7, 1),
                         cal::DayNumber(true, 2101, 1, 1)});
  Int const ms = Of<Int>({0, 43'200'000, 86'399'999});
  Check(Dies([&] { ParseUTC(UTCString(n, ms)); }),
        "outside of the known UTC: ", UTCString(n, ms));
}

// The scales without leap seconds.
SEQ_HARNESS(Uniform, .split = 1, .hang_s = 300) {
  Int const first = cal::DayNumber(true, 1600, 1, 1);
  Int const last = cal::DayNumber(true, 2400, 1, 1);
  int const chunk = Choose(64);
  for (Int n = first + chunk; n < last; n += 64) {
    for (Int const ms : {0, 1, 500, 43'199'999, 43'200'000, 43'200'001,
                         50'000'123, 86'399'000, 86'399'999, 86'400'000}) {
      std::string const s = DayString(n) + "T" + TimeOf(ms);
      seq::Step();
      Real const seconds = Seconds(n, ms);
      double const ulp = std::abs((double)seconds) * 3e-16;
      Instant const tt = ParseTT(s);
      Near(tt, seconds, ulp, s + " TT");
      if (ms % 500 == 0) {
        // Representable.
        CheckEq(FromJ2000(tt), (double)seconds, s, " TT is exact");
      }
      Near(ParseTAI(s), seconds + 32.184L, ulp + 1e-14, s + " TAI");
      Near(ParseGPSTime(s), seconds + 19 + 32.184L, ulp + 1e-14, s + " GPS");
      Near(Parse北斗Time(s), seconds + 33 + 32.184L, ulp + 1e-14, s + " 北斗");
      DateTime const date_time = operator""_DateTime(s.c_str(), s.size());
      Check(DateTimeAsTT(date_time) == tt, "DateTimeAsTT of ", s);
      // Rounding to days and seconds.
      std::int64_t const expected_ms = ms == 86'400'000 ? 0 : ms;
      Int const expected_n = ms == 86'400'000 ? n + 1 : n;
      Date const day = TTDay(tt);
      Check(day.jd() == expected_n - 0.5, "TT day of ", s);
      if (ms % 500 == 0) {
        DateTime const second = TTSecond(tt);
        Check(second.date().jd() == expected_n - 0.5 &&
                  second.time() == TimeOfDay(expected_ms / 3600'000,
                                             expected_ms / 60'000 % 60,
                                             expected_ms / 1000 % 60, 0),
              "TT second of ", s);
      }
    }
    std::string const leap = DayString(n) + "T23:59:60";
    Check(Dies([&] { ParseTT(leap); }), "leap second ", leap, " TT");
    Check(Dies([&] { ParseTAI(leap); }), "leap second ", leap, " TAI");
    Check(Dies([&] { ParseGPSTime(leap); }), "leap second ", leap, " GPS");
    Check(Dies([&] { Parse北斗Time(leap); }), "leap second ", leap, " 北斗");
    // As Julian dates.
    for (int const f : {0, 25, 50, 75}) {
      // The Julian day starts at noon.
      Real const seconds = Seconds(n, 43'200'000 + f * 864'000);
      double const tolerance = std::abs((double)seconds) * 3e-16;
      std::string const jd = Format("JD%lld.%02d", (long long)n, f);
      std::string const mjd = Format("MJD%lld.%02d",
                                     (long long)(n - 2'400'001), f);
      Near(ParseTT(jd), seconds, tolerance, jd + " TT");
      Near(ParseTAI(jd), seconds + 32.184L, tolerance + 1e-14, jd + " TAI");
      if (n >= 2'400'001) {
        Near(ParseTT(mjd), seconds - 43'200, tolerance, mjd + " TT");
        Near(ParseTAI(mjd), seconds - 43'200 + 32.184L, tolerance + 1e-14,
             mjd + " TAI");
      }
      Check(Dies([&] { ParseGPSTime(jd); }), "Julian date in GPS");
      Check(Dies([&] { Parse北斗Time(jd); }), "Julian date in 北斗");
      Check(Dies([&] { ParseUTC(jd); }), "Julian date in UTC");
    }
  }
}

// The days and seconds of TT, around the boundaries.
SEQ_HARNESS(Floors) {
  Int const n = Of<Int>({1, 2, 1000, 1'721'426, 2'299'160, 2'299'161, 2'415'021,
                         2'433'282, 2'451'543, 2'451'544, 2'451'545, 2'451'546,
                         2'451'547, 2'460'000, 5'000'000});
  Int const s = Of<Int>({0, 1, 59, 60, 3599, 3600, 43'198, 43'199, 43'200,
                         43'201, 43'202, 86'398, 86'399});
  int const offset = Choose(15);
  double x = (double)Seconds(n, s * 1000);
  auto const up = [](double const x) {
    return std::nextafter(x, std::numeric_limits<double>::infinity());
  };
  auto const down = [](double const x) {
    return std::nextafter(x, -std::numeric_limits<double>::infinity());
  };
  switch (offset) {
    case 0: break;
    case 1: x = up(x); break;
    case 2: x = down(x); break;
    case 3: x += 0.5; break;
    case 4: x -= 0.5; break;
    case 5: x = down(x + 1); break;
    case 6: x = up(x + 1); break;
    case 7: x += 1e-9; break;
    case 8: x -= 1e-9; break;
    case 9: x += 0.999'999; break;
    case 10: x += 1e-3; break;
    case 11: x = down(down(x)); break;
    case 12: x = up(up(x)); break;
    case 13: x += 1e-20; break;
    case 14: x -= 1e-20; break;
  }
  // Exact.
  Int const second = static_cast<Int>(std::floor(x)) + 43'200 +
                     86'400 * 2'451'545LL;
  if (second < 86'400) {
    // Before the first day.
    seq::Prune();
  }
  Int const expected_n = second / 86'400;
  int const expected_s = second % 86'400;
  Instant const t = J2000 + x * Second;
  Notes(x);
  CheckEq(TTDay(t).jd(), expected_n - 0.5, "TT day of ", x);
  DateTime const ttsecond = TTSecond(t);
  CheckEq(ttsecond.date().jd(), expected_n - 0.5, "TT second of ", x);
  Check(ttsecond.time() == TimeOfDay(expected_s / 3600, expected_s / 60 % 60,
                                     expected_s % 60, 0),
        "TT second of ", x, " is ", ttsecond.time().hour(), ":",
        ttsecond.time().minute(), ":", ttsecond.time().second());
  Check(DateTimeAsTT(ttsecond) <= t &&
            t < DateTimeAsTT(ttsecond) + 1 * Second,
        "TT second contains ", x);
}

namespace {

// The points of UT1: seconds since 2000-01-01T12:00:00 UT1, and TT.
struct Node {
  Real ut1;
  Real tt;
};

std::vector<Node> const& Nodes() {
  static std::vector<Node> const nodes = [] {
    std::vector<Node> result;
    int const d0 = eop::eop_c04.front().date;
    Int const n0 = cal::DayNumber(true, d0 / 10000, d0 / 100 % 100, d0 % 100);
    for (auto const& e : eop::experimental_eop_c02) {
      Real const ut1 = (Real(e.mjd) - 51'544.5L) * 86'400;
      if (ut1 <= Seconds(n0, 0) + eop::eop_c04.front().ut1_minus_utc) {
        result.push_back({ut1, ut1 - e.ut1_minus_tai + 32.184L});
      }
    }
    for (auto const& e : eop::eop_c04) {
      Int const n =
          cal::DayNumber(true, e.date / 10000, e.date / 100 % 100,
                         e.date % 100);
      result.push_back({Seconds(n, 0) + e.ut1_minus_utc, UTC(n, 0)});
    }
    return result;
  }();
  return nodes;
}

Real TTFromUT1(Real const ut1) {
  auto const& nodes = Nodes();
  std::size_t low = 0;
  std::size_t high = nodes.size() - 1;
  while (high - low > 1) {
    std::size_t const middle = (low + high) / 2;
    (nodes[middle].ut1 <= ut1 ? low : high) = middle;
  }
  return nodes[low].tt + (ut1 - nodes[low].ut1) *
                             (nodes[high].tt - nodes[low].tt) /
                             (nodes[high].ut1 - nodes[low].ut1);
}

Real UT1FromTT(Real const tt) {
  auto const& nodes = Nodes();
  std::size_t low = 0;
  std::size_t high = nodes.size() - 1;
  while (high - low > 1) {
    std::size_t const middle = (low + high) / 2;
    (nodes[middle].tt <= tt ? low : high) = middle;
  }
  return nodes[low].ut1 + (tt - nodes[low].tt) *
                              (nodes[high].ut1 - nodes[low].ut1) /
                              (nodes[high].tt - nodes[low].tt);
}

}  // namespace

// Universal Time, on the days of the observations, between them, and around
// them.
SEQ_HARNESS(UT1, .split = 1, .hang_s = 300) {
  int const chunk = Choose(64);
  auto const& nodes = Nodes();
  for (std::size_t i = chunk; i + 1 < nodes.size(); i += 64) {
    Real const length = nodes[i + 1].ut1 - nodes[i].ut1;
    for (Real const f : {0.0L, 0.25L, 0.5L, 0.9L, 0.999999L}) {
      seq::Step();
      // To the millisecond.
      Real ut1 = std::ceil((nodes[i].ut1 + f * length) * 1000) / 1000;
      Int const ms =
          std::llround((ut1 + 43'200) * 1000) + 86'400'000 * 2'451'545LL;
      Int const n = ms / 86'400'000;
      ut1 = Seconds(n, ms % 86'400'000);
      if (ut1 >= nodes.back().ut1) continue;
      std::string const s = DayString(n) + "T" + TimeOf(ms % 86'400'000);
      Instant const t = ParseUT1(s);
      Near(t, TTFromUT1(ut1), 2e-6, s + " UT1");
      // Half a day later as a Julian date.
      if (n >= 2'400'001) {
        std::string const mjd = Format(
            "MJD%lld.%012lld", (long long)(n - 2'400'001),
            (long long)((ms % 86'400'000) * 1'000'000'000'000.L / 86'400'000));
        Near(ParseUT1(mjd), TTFromUT1(ut1), 3e-6, mjd + " UT1");
      }
      // The Earth rotation angle.
      double const tt = FromJ2000(t);
      if (nodes[i].ut1 >= Nodes()[700].ut1 &&
          tt >= (double)UTC(cal::DayNumber(true, 1962, 1, 1), 0) &&
          tt < (double)nodes.back().tt) {
        Real const ut1_days = UT1FromTT(tt) / 86'400;
        Real const turns =
            0.7790572732640L + 1.00273781191135448L * ut1_days;
        Real const actual = EarthRotationAngle(t) / (2 * π * Radian);
        Real const difference = actual - turns;
        // 1e-11 of a turn is a µs.
        Check(std::abs(difference - std::round(difference)) < 1e-10L,
              "Earth rotation angle at ", s, " off by ", (double)difference,
              " turns");
      }
    }
  }
}

// The data are smooth: the length of the day varies slowly.
SEQ_HARNESS(UT1Smooth, .split = 1) {
  auto const& nodes = Nodes();
  std::size_t const i =
      1 + Choose(static_cast<int>(nodes.size()) - 3);
  auto const rate = [&](std::size_t const i) {
    return double((nodes[i + 1].tt - nodes[i].tt) /
                      (nodes[i + 1].ut1 - nodes[i].ut1) -
                  1) * 86'400;
  };
  // The two series differ by 0.1 s at their junction.
  auto const junction = [&](std::size_t const i) {
    double const days = (nodes[i + 1].ut1 - nodes[i].ut1) / 86'400;
    return days > 1.1 && days < 99;
  };
  if (junction(i) || junction(i - 1)) seq::Prune();
  // The length of the day, in seconds per day.
  Check(std::abs(rate(i)) < 0.009, "length of day ", rate(i));
  Check(std::abs(rate(i) - rate(i - 1)) < 3e-3,
        "jump of the length of day ", rate(i - 1), " to ", rate(i), " at ",
        (double)nodes[i].ut1);
}

SEQ_HARNESS(UT1Range) {
  std::string const s = seq::Pick(std::vector<std::string>{
      "1800-01-01T00:00:00", "2023-06-07T00:00:00", "2022-06-08T00:00:00",
      "2101-01-01T00:00:00", "JD2459800", "JD2459737.6", "MJD59738",
      "MJD100000", "JD2378497"});
  Check(Dies([&] { ParseUT1(s); }), "outside of the range ", s);
  auto const& nodes = Nodes();
  Check(Dies([&] {
          EarthRotationAngle(J2000 + (double)(nodes.back().tt + 1) * Second);
        }),
        "rotation after the end");
  Check(Dies([&] {
          EarthRotationAngle(J2000 +
                             (double)(UTC(cal::DayNumber(true, 1962, 1, 1), 0) -
                                      1) * Second);
        }),
        "rotation before the beginning");
  Check(Dies([&] { ParseUT1("2000-12-31T23:59:60"); }), "leap second");
}

SEQ_HARNESS(Epochs) {
  Check(J2000 == ParseTT("2000-01-01T12:00:00"), "J2000");
  Check(J2000 == ParseTT("JD2451545"), "J2000");
  Check(J2000 == ParseTT("MJD51544.5"), "J2000");
}
