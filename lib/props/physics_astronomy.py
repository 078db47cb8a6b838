"""Properties of astronomy."""
S('C70', 'Dates, times of day and Julian dates follow the calendars',
  '''Every day that can be written, in the Julian and (proleptic) Gregorian
  calendars, has the Julian day, the modified Julian day and the ordinal that
  counting the days gives; the date after it, the date built from its Julian
  day, from its ordinal or from its ISO week, and the date parsed from each of
  its representations in the calendar, ordinal and week formats, basic and
  extended, with or without prefix and sign, are that same day, and dates are
  ordered by day across calendars.  Printing and parsing are inverses.  Times of
  day exist exactly for the milliseconds of a day, leap seconds at 23:59:60 and
  24:00:00, and leap seconds only occur on the last day of a month; 24:00 is
  00:00 of the next day.  Julian dates have exactly the value written.  Strings
  that represent no date or time in one of the formats are rejected.''',
  '''All the days of the years -9999 to 9999 in both calendars, and invalid
  days, months, weeks and ordinals of each; all the times of day for every second
  and some milliseconds; the leap seconds and midnights of 600 years; all the
  decimal fractions of up to 3 digits of some Julian dates; all the strings
  obtained by two insertions, deletions or replacements from 25 valid strings.''',
  '''Calendar arithmetic goes wrong on isolated dates (century years, the reform,
  53rd weeks, negative years) and parsers on isolated strings; the tests have a
  few dozen of them.''',
  ['astronomy/date_time.hpp', 'astronomy/date_time_body.hpp', 'base/mod.hpp'],
  [('calendar arithmetic', 'astronomy/date_time_body.hpp: Date::JD, Date::jd'),
   ('parsers', 'astronomy/date_time_body.hpp: DateParser, TimeParser, '
    'JulianDateParser')],
  dict(harness=['C70_dates.cc'], math=True, opt='-O1',
       rule='A case is a set of days, a time of day, a Julian date, or the '
            'strings that result from two edits of a valid string.'),
  note='Instants and DateTime have no arithmetic of their own; the conversion '
       'to instants is C71.',
  technique=ENUM_TECH)

S('C71', 'Time scales denote the instants that their definitions say',
  '''Times in TT, TAI, GPS time and 北斗 time, given as date-times or (for TT and
  TAI) as Julian or modified Julian dates, are converted to the instant that the
  constant offsets of these scales define, to rounding.  UTC follows the offsets,
  rates and leaps published since 1961: every time of every day is converted to
  the right instant, the scale is strictly increasing through each leap, the
  leap seconds and the skipped milliseconds exist and are missing exactly where
  they should be, and everything else is rejected.  UT1 and the Earth rotation
  angle interpolate the series of the Earth orientation parameters, and times
  outside of the series are rejected.  The TT day and the TT second of an instant
  are the ones that contain it, however close to a boundary.''',
  '''All the days of 1961 to 2022 at 11 times, all the milliseconds of their
  possible leap seconds, a sixth of the seconds of the days with a leap, all the
  days from 1600 to 2400 at 10 times and 4 Julian dates in the uniform scales,
  5 times between all the points of the series of UT1, 15 offsets down to an ulp
  from 13 seconds of 15 days.''',
  '''Each leap, rate change and junction of series is a special case in the code,
  most of which no test visits; a wrong one shifts by up to a second the epochs
  of the initial states.''',
  ['astronomy/time_scales.hpp', 'astronomy/time_scales_body.hpp',
   'astronomy/epoch.hpp'],
  [('UTC', 'astronomy/time_scales_body.hpp: ModernUTCMinusTAI, '
    'TAIMinusStretchyUTC, IsValidStretchyUTC'),
   ('UT1', 'astronomy/time_scales_body.hpp: LookupUT1, InterpolatedEOPC04, '
    'EarthRotationAngle'),
   ('floors', 'astronomy/time_scales_body.hpp: TTDay, TTSecond')],
  dict(harness=['C71_time_scales.cc'], math=True, opt='-O1',
       rule='A case is a set of times in a scale.',
       assumptions=['The Earth orientation parameters themselves are only '
                    'checked for smoothness.']),
  technique=ENUM_TECH)
