// An independent model of the calendars: the days are counted one year at a
// time from a single anchor.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>

namespace calendars {

using Int = std::int64_t;

inline bool Leap(bool const gregorian, int const year) {
  if (gregorian && year % 100 == 0) {
    return year % 400 == 0;
  }
  return year % 4 == 0;
}

inline int MonthLength(bool const gregorian, int const year, int const month) {
  switch (month) {
    case 4: case 6: case 9: case 11:
      return 30;
    case 2:
      return Leap(gregorian, year) ? 29 : 28;
    default:
      return 31;
  }
}

constexpr int first_year = -10'001;
constexpr int last_year = 10'002;

// The Julian day number (the Julian date at noon) of January 1st.
inline Int NewYear(bool const gregorian, int const year) {
  static std::vector<Int> const tables[2] = {
      [] {
        std::vector<Int> t(last_year - first_year + 1);
        t[-4712 - first_year] = 0;
        for (int y = -4711; y <= last_year; ++y) {
          t[y - first_year] =
              t[y - 1 - first_year] + (Leap(false, y - 1) ? 366 : 365);
        }
        for (int y = -4713; y >= first_year; --y) {
          t[y - first_year] =
              t[y + 1 - first_year] - (Leap(false, y) ? 366 : 365);
        }
        return t;
      }(),
      [] {
        std::vector<Int> t(last_year - first_year + 1);
        t[2000 - first_year] = 2'451'545;
        for (int y = 2001; y <= last_year; ++y) {
          t[y - first_year] =
              t[y - 1 - first_year] + (Leap(true, y - 1) ? 366 : 365);
        }
        for (int y = 1999; y >= first_year; --y) {
          t[y - first_year] =
              t[y + 1 - first_year] - (Leap(true, y) ? 366 : 365);
        }
        return t;
      }()};
  return tables[gregorian ? 1 : 0][year - first_year];
}

struct YMD {
  int year;
  int month;
  int day;
  bool gregorian;
};

inline Int DayNumber(bool const gregorian,
                     int const year, int const month, int const day) {
  Int n = NewYear(gregorian, year) + day - 1;
  for (int m = 1; m < month; ++m) {
    n += MonthLength(gregorian, year, m);
  }
  return n;
}

inline YMD FromDayNumber(Int const n, bool const gregorian) {
  int low = first_year;
  int high = last_year;
  while (high - low > 1) {
    int const middle = low + (high - low) / 2;
    (NewYear(gregorian, middle) <= n ? low : high) = middle;
  }
  Int rest = n - NewYear(gregorian, low);
  int month = 1;
  while (rest >= MonthLength(gregorian, low, month)) {
    rest -= MonthLength(gregorian, low, month);
    ++month;
  }
  return {low, month, static_cast<int>(rest) + 1, gregorian};
}

// The date in civil use: the Gregorian reform follows 1582-10-04.
inline YMD FromDayNumber(Int const n) {
  return FromDayNumber(n, n >= 2'299'161);
}

inline bool Valid(bool const gregorian, Int const y, Int const m, Int const d) {
  return m >= 1 && m <= 12 && d >= 1 &&
         d <= MonthLength(gregorian, static_cast<int>(y), static_cast<int>(m));
}

// 1 is Monday.
inline int Weekday(Int const n) {
  return static_cast<int>(((n % 7) + 7) % 7) + 1;
}

template<typename... A>
std::string Format(char const* const format, A const... a) {
  char buffer[100];
  std::snprintf(buffer, sizeof buffer, format, a...);
  return buffer;
}

}  // namespace calendars
