// C70: dates, times of day, and Julian dates.
#include <iostream>
#include <sstream>
#include <string>

#include "astronomy/date_time.hpp"
#include "harness/calendars.h"
#include "seq/seq.h"

using namespace principia::astronomy::_date_time;
namespace cal = calendars;
using cal::Format;
using cal::Int;
using seq::Check;
using seq::CheckEq;
using seq::Choose;
using seq::Dies;
using seq::Notes;

namespace {

using Cal = date_time::Calendar;

Cal ToCal(bool const gregorian) {
  return gregorian ? Cal::Gregorian : Cal::Julian;
}

Date ParseDate(std::string const& s) {
  return operator""_Date(s.c_str(), s.size());
}
TimeOfDay ParseTime(std::string const& s) {
  return operator""_Time(s.c_str(), s.size());
}
DateTime ParseDateTime(std::string const& s) {
  return operator""_DateTime(s.c_str(), s.size());
}
JulianDate ParseJulian(std::string const& s) {
  return operator""_Julian(s.c_str(), s.size());
}
template<typename T>
std::string Print(T const& t) {
  std::ostringstream o;
  o << t;
  return o.str();
}

std::string Show(Date const& d) {
  return Format("%c %d-%d-%d", d.calendar() == Cal::Julian ? 'J' : 'G',
                d.year(), d.month(), d.day());
}

void Is(Date const& date, cal::YMD const& expected, char const* const what,
        std::string const& from) {
  Check(date.year() == expected.year && date.month() == expected.month &&
            date.day() == expected.day &&
            (date.calendar() == Cal::Gregorian) == expected.gregorian,
        what, " of ", from, " is ", Show(date), ", expected ",
        expected.gregorian ? "G " : "J ", expected.year, "-", expected.month,
        "-", expected.day);
}

// The digits of the year, with its sign.
std::string Year(int const y) {
  return Format("%s%04d", y < 0 ? "-" : "", std::abs(y));
}

}  // namespace

// Every day of every year which can be written, in both calendars.
SEQ_HARNESS(Days, .split = 1, .hang_s = 300) {
  int const chunk = Choose(400);
  int const years = 50;
  for (int y = -10'000 + chunk * years;
       y < -10'000 + (chunk + 1) * years; ++y) {
    if (y < -9999) continue;
    for (bool const gregorian : {false, true}) {
      char const letter = gregorian ? 'G' : 'J';
      Cal const calendar = ToCal(gregorian);
      int ordinal = 0;
      Int n = cal::NewYear(gregorian, y) - 1;
      for (int m = 1; m <= 12; ++m) {
        int const length = cal::MonthLength(gregorian, y, m);
        for (int d = 1; d <= length; ++d) {
          ++ordinal;
          ++n;
          seq::Step();
          std::string const s =
              Format("%c%s-%02d-%02d", letter, Year(y).c_str(), m, d);
          Date const date = Date::Calendar(y, m, d, calendar);
          Is(date, {y, m, d, gregorian}, "Calendar", s);
          CheckEq(date.jd(), n - 0.5, "Julian date of ", s);
          CheckEq(Int{date.mjd()}, n - 2'400'001, "MJD of ", s);
          CheckEq(date.ordinal(), ordinal, "ordinal of ", s);
          // The day after.
          Date const next = date.next_day();
          Is(next, cal::FromDayNumber(n + 1), "day after", s);
          Check(date < next && date != next && !(next <= date) &&
                    !(date == next),
                "order of ", s, " and the next day");
          // The same day in common use.
          Date const common = Date::JD(n - 0.5);
          Is(common, cal::FromDayNumber(n), "date from the Julian date", s);
          Check(common == date && !(common != date) && common <= date &&
                    common >= date,
                "the same day compares equal: ", s);
          // By ordinal.
          Date const by_ordinal = Date::Ordinal(y, ordinal, calendar);
          Is(by_ordinal, cal::FromDayNumber(n), "date by ordinal", s);
          Date const digits = Date::YYYYMMDD(
              (y < 0 ? -1 : 1) * (std::abs(y) * 10000LL + m * 100 + d),
              calendar);
          if (y != 0) {
            Is(digits, {y, m, d, gregorian}, "YYYYMMDD", s);
            Is(Date::YYYYDDD(
                   (y < 0 ? -1 : 1) * (std::abs(y) * 1000LL + ordinal),
                   calendar),
               cal::FromDayNumber(n), "YYYYDDD", s);
          }
          // The sample of the days for which the strings are examined.
          if (d > 1 && d < length && (y + d) % 9 != 0) {
            continue;
          }
          Is(ParseDate(s), {y, m, d, gregorian}, "extended format", s);
          Is(ParseDate(Format("%c%s%02d%02d", letter, Year(y).c_str(), m, d)),
             {y, m, d, gregorian}, "basic format", s);
          Is(ParseDate(Format("%c%s-%03d", letter, Year(y).c_str(), ordinal)),
             cal::FromDayNumber(n), "extended ordinal format", s);
          Is(ParseDate(Format("%c%s%03d", letter, Year(y).c_str(), ordinal)),
             cal::FromDayNumber(n), "basic ordinal format", s);
          CheckEq(Print(date),
                  (gregorian && y > 1582 ? s.substr(1) : s),
                  "printing");
          Is(ParseDate(Print(date)), {y, m, d, gregorian}, "printing", s);
          if (gregorian && y >= 1583) {
            Is(Date::Calendar(y, m, d), {y, m, d, true}, "default calendar", s);
            Is(Date::Ordinal(y, ordinal), {y, m, d, true},
               "default calendar, ordinal", s);
            Is(ParseDate("+" + s.substr(1)), {y, m, d, true}, "with sign", s);
            Is(ParseDate("G+" + s.substr(1)), {y, m, d, true},
               "with prefix and sign", s);
            // The ISO week is that of its Thursday.
            int const weekday = cal::Weekday(n);
            cal::YMD const thursday =
                cal::FromDayNumber(n + 4 - weekday, true);
            int const iso_year = thursday.year;
            int const week = static_cast<int>(
                (n + 4 - weekday - cal::NewYear(true, iso_year)) / 7 + 1);
            if (iso_year >= 1583 && iso_year <= 9999) {
              Is(Date::Week(iso_year, week, weekday), {y, m, d, true},
                 "ISO week", s);
              Is(ParseDate(Format("%04d-W%02d-%d", iso_year, week, weekday)),
                 {y, m, d, true}, "extended week format", s);
              Is(ParseDate(Format("%04dW%02d%d", iso_year, week, weekday)),
                 {y, m, d, true}, "basic week format", s);
            }
          } else {
            if (y < 1583) {
              Check(Dies([&] { Date::Calendar(y, m, d); }),
                    "no calendar given for ", s);
              Check(Dies([&] { Date::Ordinal(y, ordinal); }),
                    "no calendar given for ordinal ", s);
              Check(Dies([&] { ParseDate(s.substr(1)); }),
                    "no calendar given for string ", s);
            }
          }
        }
        for (int const d : {-1, 0, length + 1, 32, 99}) {
          Check(Dies([&] { Date::Calendar(y, m, d, calendar); }),
                "day ", d, " of ", letter, y, "-", m);
        }
      }
      CheckEq(Int{n} + 1, cal::NewYear(gregorian, y + 1));
      for (int const m : {-1, 0, 13, 99}) {
        Check(Dies([&] { Date::Calendar(y, m, 1, calendar); }),
              "month ", m, " of ", letter, y);
      }
      for (int const o : {-1, 0, ordinal + 1, 999}) {
        Check(Dies([&] { Date::Ordinal(y, o, calendar); }),
              "ordinal ", o, " of ", letter, y);
      }
      if (gregorian) {
        // A year has 53 weeks iff it has 53 Thursdays.
        int const january_1st = cal::Weekday(cal::NewYear(true, y));
        int const weeks =
            january_1st == 4 || (ordinal == 366 && january_1st == 3) ? 53 : 52;
        for (int const w : {-1, 0, weeks + 1, 54}) {
          Check(Dies([&] { Date::Week(y, w, 1); }), "week ", w, " of ", y);
        }
        for (int const d : {-1, 0, 8}) {
          Check(Dies([&] { Date::Week(y, 1, d); }), "week day ", d, " of ", y);
        }
        if (y < 1583) {
          Check(Dies([&] { Date::Week(y, 1, 1); }), "week in ", y);
        }
      }
    }
  }
}

SEQ_HARNESS(YearsOutOfRange, .split = 1) {
  int const y = seq::Of({10'000, 10'001, 99'999, 20'000});
  bool const gregorian = Choose(2);
  Check(Dies([&] { Date::Calendar(y, 1, 1, ToCal(gregorian)); }), "year ", y);
  Check(Dies([&] { Date::YYYYMMDD(y * 10'000LL + 101, ToCal(gregorian)); }),
        "YYYYMMDD year ", y);
  Check(Dies([&] { Date::YYYYMMDD(-y * 10'000LL - 101, ToCal(gregorian)); }),
        "YYYYMMDD year ", -y);
  Check(Dies([&] { Date::YYYYDDD(y * 1000LL + 1, ToCal(gregorian)); }),
        "YYYYDDD year ", y);
  Check(Dies([&] { Date::YYYYDDD(-y * 1000LL - 1, ToCal(gregorian)); }),
        "YYYYDDD year ", -y);
  Check(Dies([&] { Date::YYYYwwD(y * 1000LL + 11); }), "YYYYwwD year ", y);
  Check(Dies([&] { Date::YYYYwwD(-2000'01'1); }), "negative YYYYwwD");
  // The Julian date must be that of midnight.
  for (double const f : {0.0, 0.25, 0.25, 0.75, 0.499}) {
    Check(Dies([&] { Date::JD(2'451'545 + f); }), "fraction ", f);
  }
}

// All the times of day, valid or not.
SEQ_HARNESS(Times, .split = 1, .hang_s = 300) {
  int const hour = Choose(28) - 1;
  for (int minute = -1; minute <= 62; ++minute) {
    for (int second = -1; second <= 62; ++second) {
      for (int const ms : {-1, 0, 1, 500, 999, 1000}) {
        seq::Step();
        bool const ordinary = hour >= 0 && hour < 24 && minute >= 0 &&
                              minute < 60 && second >= 0 && second < 60 &&
                              ms >= 0 && ms < 1000;
        bool const leap = hour == 23 && minute == 59 && second == 60 &&
                          ms >= 0 && ms < 1000;
        bool const end = hour == 24 && minute == 0 && second == 0 && ms == 0;
        bool const valid = ordinary || leap || end;
        std::string const what =
            Format("%d:%d:%d,%d", hour, minute, second, ms);
        CheckEq(Dies([&] { TimeOfDay(hour, minute, second, ms); }), !valid,
                "is the time valid? ", what);
        auto const is = [&](TimeOfDay const& t) {
          Check(t.hour() == hour && t.minute() == minute &&
                    t.second() == second && t.millisecond() == ms,
                "components of ", what);
          CheckEq(t.is_leap_second(), leap, "leap second? ", what);
          CheckEq(t.is_end_of_day(), end, "end of day? ", what);
        };
        if (valid) {
          TimeOfDay const time(hour, minute, second, ms);
          is(time);
          is(ParseTime(Print(time)));
          is(TimeOfDay::hhmmss_ms(hour * 10000 + minute * 100 + second, ms));
          for (int const other : {0, 1, 500, 999}) {
            if (!end) {
              CheckEq(time == TimeOfDay(hour, minute, second, other),
                      ms == other, "equality of ", what);
              CheckEq(time != TimeOfDay(hour, minute, second, other),
                      ms != other, "inequality of ", what);
            }
          }
          if (second == 1 && hour < 24) {
            Check(time != TimeOfDay(hour, minute, 2, ms) &&
                      !(time == TimeOfDay(hour, minute, 2, ms)),
                  "seconds matter");
            Check(time != TimeOfDay(hour, (minute + 1) % 60, 1, ms),
                  "minutes matter");
            Check(time != TimeOfDay((hour + 1) % 24, minute, 1, ms),
                  "hours matter");
          }
        }
        if (hour < 0 || minute < 0 || second < 0 || ms < 0 || ms > 999) {
          continue;
        }
        // The strings.
        for (bool const extended : {true, false}) {
          std::string const hms =
              Format(extended ? "%02d:%02d:%02d" : "%02d%02d%02d",
                     hour, minute, second);
          std::vector<std::string> strings;
          if (ms == 0) {
            strings.push_back(hms);
            strings.push_back(hms + ".0");
            strings.push_back(hms + ",00");
          }
          if (ms == 500) {
            strings.push_back(hms + ".5");
            strings.push_back(hms + ",50");
          }
          strings.push_back(hms + Format(".%03d", ms));
          strings.push_back(hms + Format(",%03d", ms));
          for (auto const& s : strings) {
            if (valid) {
              is(ParseTime(s));
            } else {
              Check(Dies([&] { ParseTime(s); }), "invalid time ", s);
            }
          }
        }
      }
    }
  }
}

SEQ_HARNESS(Milliseconds) {
  int const digits = Choose(3) + 1;
  int const value = Choose(digits == 1 ? 10 : digits == 2 ? 100 : 1000);
  char const mark = ".,"[Choose(2)];
  bool const extended = Choose(2);
  std::string const s = (extended ? "12:34:56" : "123456") +
                        Format(digits == 1   ? "%c%01d"
                               : digits == 2 ? "%c%02d"
                                             : "%c%03d", mark, value);
  int const ms = value * (digits == 1 ? 100 : digits == 2 ? 10 : 1);
  Check(ParseTime(s) == TimeOfDay(12, 34, 56, ms), "milliseconds of ", s);
  Check(ParseTime(Print(ParseTime(s))) == TimeOfDay(12, 34, 56, ms),
        "printing ", s);
  Check(Dies([&] { ParseTime(s + "0000"); }), "too many digits after ", s);
  Check(Dies([&] {
          ParseTime((extended ? "12:34:56" : "123456") +
                    Format("%c%04d", mark, value));
        }),
        "four digits");
}

// Leap seconds, ends of days.
SEQ_HARNESS(DateTimes, .split = 1, .hang_s = 300) {
  int const y = Choose(600) + 1500;
  bool const gregorian = Choose(2);
  for (Int n = cal::NewYear(gregorian, y); n < cal::NewYear(gregorian, y + 1);
       ++n) {
    seq::Step();
    cal::YMD const ymd = cal::FromDayNumber(n, gregorian);
    Date const date =
        Date::Calendar(ymd.year, ymd.month, ymd.day, ToCal(gregorian));
    bool const last =
        ymd.day == cal::MonthLength(gregorian, ymd.year, ymd.month);
    TimeOfDay const leap(23, 59, 60, 123);
    std::string const s = Print(date);
    CheckEq(Dies([&] { DateTime(date, leap); }), !last,
            "leap second on ", s);
    CheckEq(Dies([&] { ParseDateTime(s + "T23:59:60"); }), !last,
            "leap second string on ", s);
    DateTime const midnight = DateTime::BeginningOfDay(date);
    Check(midnight.date() == date && midnight.time() == TimeOfDay(0, 0, 0, 0),
          "beginning of ", s);
    Check(midnight == ParseDateTime(s + "T00:00:00"), "midnight ", s);
    DateTime const end(date, TimeOfDay(24, 0, 0, 0));
    Check(end.date() == date && end.time().is_end_of_day(), "end of ", s);
    DateTime const normalized = end.normalized_end_of_day();
    Is(normalized.date(), cal::FromDayNumber(n + 1), "end of", s);
    Check(normalized.time() == TimeOfDay(0, 0, 0, 0), "end of ", s);
    DateTime const next = DateTime::BeginningOfDay(Date::JD(n + 0.5));
    Check(end == next && next == end && !(end != next), "24:00 of ", s);
    Check(end != midnight && !(end == midnight), "00:00 and 24:00 of ", s);
    DateTime const noon(date, TimeOfDay(12, 0, 0, 0));
    Check(noon.normalized_end_of_day() == noon &&
              noon.normalized_end_of_day().date() == date &&
              noon.normalized_end_of_day().time() == TimeOfDay(12, 0, 0, 0),
          "noon of ", s);
    Check(noon != midnight && noon != end && noon != next, "noon of ", s);
    Check(ParseDateTime(Print(noon)) == noon, "printing noon of ", s);
    CheckEq(Print(noon), s + "T12:00:00", "printing noon");
  }
}

// Julian dates are exact.
SEQ_HARNESS(JulianDates) {
  bool const modified = Choose(2);
  Int const day = seq::Of<Int>({0, 1, 9, 10, 59'215, 99'999, 2'400'000,
                                2'400'001, 2'451'544, 2'451'545, 2'451'546,
                                9'999'999, 99'999'999, 123'456'789});
  int const digits = Choose(7);
  static Int const fractions[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
  Int numerator = 0;
  Int denominator = 1;
  if (digits <= 3) {
    for (int i = 0; i < digits; ++i) {
      numerator = numerator * 10 + fractions[Choose(10)];
      denominator *= 10;
    }
  } else {
    int const count = seq::Of({4, 7, 9, 12, 15});
    for (int i = 0; i < count; ++i) denominator *= 10;
    numerator = seq::Of<Int>({0, 1, denominator / 2 - 1, denominator / 2,
                              denominator / 2 + 1, denominator - 1,
                              123'456'789'012'345 % denominator});
    if (denominator > 900'000'000'000'000'000 / (day + 1)) {
      seq::Prune();
    }
  }
  int width = 0;
  for (Int d = denominator; d > 1; d /= 10) ++width;
  std::string s = Format(modified ? "MJD%lld" : "JD%lld", (long long)day);
  if (width > 0) s += Format(".%0*lld", width, (long long)numerator);
  Notes(s);
  Check(IsJulian(s.c_str(), s.size()), "is Julian ", s);
  JulianDate const date = ParseJulian(s);
  using Wide = __int128;
  // Twice the Julian date, relative to J2000.
  Wide const expected_numerator =
      2 * ((Wide{day} - 2'451'545) * denominator + numerator) +
      (modified ? Wide{2} * 2'400'000 * denominator + denominator : 0);
  Wide const actual_numerator =
      2 * (Wide{date.day()} * date.fraction_denominator() +
           date.fraction_numerator());
  Check(date.fraction_denominator() > 0 && date.fraction_numerator() >= 0 &&
            date.fraction_numerator() < date.fraction_denominator(),
        "fraction of ", s);
  Check(expected_numerator * date.fraction_denominator() ==
            actual_numerator * denominator,
        "value of ", s, ": day ", date.day(), " fraction ",
        date.fraction_numerator(), "/", date.fraction_denominator());
}

// All the strings obtained from valid ones by a few edits.
namespace {

struct Parsed {
  bool valid = false;
  // Neither valid nor invalid as far as the documentation goes.
  bool unspecified = false;
  bool extended = false;
  Int day_number = 0;
  bool gregorian = true;
  bool last_of_month = false;
};

bool Digits(std::string_view const s, std::string_view const format,
            std::vector<int>& fields) {
  // In the format, each letter is a digit of the field.
  if (s.size() != format.size()) return false;
  char last = 0;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (format[i] >= 'a' && format[i] <= 'z') {
      if (s[i] < '0' || s[i] > '9') return false;
      if (format[i] != last) {
        fields.push_back(0);
      }
      fields.back() = fields.back() * 10 + (s[i] - '0');
      last = format[i];
    } else {
      if (s[i] != format[i]) return false;
      last = 0;
    }
  }
  return true;
}

Parsed OracleDate(std::string_view s) {
  Parsed result;
  bool has_calendar = false;
  bool negative = false;
  if (!s.empty() && (s[0] == 'J' || s[0] == 'G')) {
    has_calendar = true;
    result.gregorian = s[0] == 'G';
    s.remove_prefix(1);
  }
  if (!s.empty() && (s[0] == '+' || s[0] == '-')) {
    negative = s[0] == '-';
    s.remove_prefix(1);
  }
  for (bool const extended : {true, false}) {
    result.extended = extended;
    std::vector<int> f;
    if (Digits(s, extended ? "yyyy-mm-dd" : "yyyymmdd", f)) {
      int const y = negative ? -f[0] : f[0];
      if (negative && y == 0) {
        result.unspecified = true;
        return result;
      }
      result.valid = (has_calendar || y >= 1583) &&
                     cal::Valid(result.gregorian, y, f[1], f[2]);
      if (result.valid) {
        result.day_number =
            cal::DayNumber(result.gregorian, y, f[1], f[2]);
        result.last_of_month =
            f[2] == cal::MonthLength(result.gregorian, y, f[1]);
      }
      return result;
    }
    f.clear();
    if (Digits(s, extended ? "yyyy-ddd" : "yyyyddd", f)) {
      int const y = negative ? -f[0] : f[0];
      if (negative && y == 0) {
        result.unspecified = true;
        return result;
      }
      result.valid = (has_calendar || y >= 1583) && f[1] >= 1 &&
                     f[1] <= (cal::Leap(result.gregorian, y) ? 366 : 365);
      if (result.valid) {
        result.day_number = cal::NewYear(result.gregorian, y) + f[1] - 1;
        // This changes the calendar, if need be.
        cal::YMD const ymd = cal::FromDayNumber(result.day_number);
        result.gregorian = ymd.gregorian;
        result.last_of_month =
            ymd.day == cal::MonthLength(ymd.gregorian, ymd.year, ymd.month);
      }
      return result;
    }
    f.clear();
    if (Digits(s, extended ? "yyyy-Www-d" : "yyyyWwwd", f)) {
      int const y = f[0];
      if (has_calendar || negative || y < 1583 || f[1] < 1 || f[2] < 1 ||
          f[2] > 7) {
        return result;
      }
      // The first week contains January 4th.
      Int const january_4th = cal::NewYear(true, y) + 3;
      Int const n = january_4th - (cal::Weekday(january_4th) - 1) +
                    (f[1] - 1) * 7 + f[2] - 1;
      cal::YMD const thursday =
          cal::FromDayNumber(n - cal::Weekday(n) + 4, true);
      result.valid = thursday.year == y;
      result.day_number = n;
      cal::YMD const ymd = cal::FromDayNumber(n);
      result.last_of_month =
          ymd.day == cal::MonthLength(ymd.gregorian, ymd.year, ymd.month);
      return result;
    }
  }
  return result;
}

struct ParsedTime {
  bool valid = false;
  bool unspecified = false;
  bool extended = false;
  int hms = 0;
  int ms = 0;
};

ParsedTime OracleTime(std::string_view s) {
  ParsedTime result;
  std::size_t const mark = s.find_first_of(".,");
  std::string_view decimals;
  if (mark != std::string_view::npos) {
    decimals = s.substr(mark + 1);
    s = s.substr(0, mark);
    if (decimals.size() > 3) return result;
    for (char const c : decimals) {
      if (c < '0' || c > '9') return result;
      result.ms = result.ms * 10 + (c - '0');
    }
    for (auto i = decimals.size(); i < 3; ++i) result.ms *= 10;
  }
  for (bool const extended : {true, false}) {
    result.extended = extended;
    std::vector<int> f;
    if (Digits(s, extended ? "hh:mm:ss" : "hhmmss", f)) {
      result.unspecified = mark != std::string_view::npos && decimals.empty();
      result.valid = (f[0] < 24 && f[1] < 60 && f[2] < 60) ||
                     (f[0] == 23 && f[1] == 59 && f[2] == 60) ||
                     (f[0] == 24 && f[1] == 0 && f[2] == 0 && result.ms == 0);
      result.hms = f[0] * 10000 + f[1] * 100 + f[2];
      return result;
    }
  }
  return result;
}

void CheckDate(std::string const& s) {
  seq::Step();
  Parsed const expected = OracleDate(s);
  if (expected.unspecified) return;
  bool const dies = Dies([&] {
    Date const date = ParseDate(s);
    if (expected.valid) {
      Is(date, cal::FromDayNumber(expected.day_number, expected.gregorian),
         "parsing", s);
    }
  });
  CheckEq(dies, !expected.valid, "is the date valid? \"", s, "\"");
}

void CheckTime(std::string const& s) {
  seq::Step();
  ParsedTime const expected = OracleTime(s);
  if (expected.unspecified) return;
  bool const dies = Dies([&] {
    TimeOfDay const t = ParseTime(s);
    if (expected.valid) {
      Check(t.hour() * 10000 + t.minute() * 100 + t.second() == expected.hms &&
                t.millisecond() == expected.ms,
            "parsing the time ", s);
    }
  });
  CheckEq(dies, !expected.valid, "is the time valid? \"", s, "\"");
}

void CheckDateTime(std::string const& s) {
  seq::Step();
  bool valid = false;
  Parsed date;
  ParsedTime time;
  std::size_t const t = s.find('T');
  if (t != std::string::npos) {
    date = OracleDate(std::string_view(s).substr(0, t));
    time = OracleTime(std::string_view(s).substr(t + 1));
    if (date.unspecified || time.unspecified) return;
    valid = date.valid && time.valid && date.extended == time.extended &&
            (time.hms != 235960 || date.last_of_month);
  }
  bool const dies = Dies([&] {
    DateTime const dt = ParseDateTime(s);
    if (valid) {
      Is(dt.date(), cal::FromDayNumber(date.day_number, date.gregorian),
         "parsing", s);
      Check(dt.time().hour() * 10000 + dt.time().minute() * 100 +
                        dt.time().second() == time.hms &&
                dt.time().millisecond() == time.ms,
            "parsing the time of ", s);
    }
  });
  CheckEq(dies, !valid, "is the date-time valid? \"", s, "\"");
}

constexpr char alphabet[] = "0129-:WJG+T.,Z";

template<typename F>
void Edits(std::string const& s, F const& f) {
  for (std::size_t i = 0; i <= s.size(); ++i) {
    for (char const* c = alphabet; *c != 0; ++c) {
      std::string t = s;
      t.insert(i, 1, *c);
      f(t);
    }
    if (i == s.size()) break;
    std::string t = s;
    t.erase(i, 1);
    if (!t.empty()) f(t);
    for (char const* c = alphabet; *c != 0; ++c) {
      std::string t = s;
      t[i] = *c;
      f(t);
    }
  }
}

template<typename F>
void Edited(std::string const& s, F const& f) {
  f(s);
  // The first edit is a choice, so that the work may be divided.
  std::vector<std::string> first;
  Edits(s, [&](std::string const& t) { first.push_back(t); });
  std::string const& t = first[Choose(static_cast<int>(first.size()))];
  Notes(t);
  f(t);
  Edits(t, f);
}

}  // namespace

SEQ_HARNESS(DateStrings, .split = 2) {
  Edited(seq::Pick(std::vector<std::string>{
             "2000-02-29", "20001231", "1999-12-31", "2004-366", "2004366",
             "2004-W53-7", "2015W527", "J-0044-03-15", "G15821015",
             "J-0001-365", "-0100366"}),
         &CheckDate);
}

SEQ_HARNESS(TimeStrings, .split = 2) {
  Edited(seq::Pick(std::vector<std::string>{
             "23:59:60", "235959", "12:34:56,789", "123456.78", "24:00:00",
             "240000.0"}),
         &CheckTime);
}

SEQ_HARNESS(DateTimeStrings, .split = 2) {
  Edited(seq::Pick(std::vector<std::string>{
             "2000-02-29T23:59:60", "20001231T235960,12", "2004-366T00:00:00",
             "2015W527T240000", "J-00440315T120000",
             "J-0044-03-15T12:00:00.5", "2015-W52-7T12:00:00",
             "+19991231T000000"}),
         &CheckDateTime);
}
