"""The properties: text, anchors, bounds.  tools/gen.py writes
properties.jsonl and MANIFEST.json from this."""
B = 'badidatetime/'
TU, DT, BC, GC, BA, ST, SP = (B + x for x in (
    '_timedateutils.py', 'datetime.py', 'badi_calendar.py',
    'gregorian_calendar.py', 'base_calendar.py', '_structures.py',
    '_strptime.py'))

PROPS = []


def P(id, title, statement, qtext, why, files, mech, bounds, outside,
      assumptions=(), over=('inputs',)):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      qtext=qtext, why=why, files=files, mech=mech,
                      bounds=bounds, outside=outside,
                      assumptions=list(assumptions)))


GAP = ('the ten days -0261-11-09 .. -0261-11-18, which fall in the omitted '
       'days of October 1582 and raise ValueError')

P('C01', 'Ordinals count the days of the calendar',
  'date.toordinal() of any supported date is the number of days from the '
  'first supported day, so consecutive days have consecutive ordinals and '
  'Ayyam-i-Ha lies between the 18th and the 19th month. '
  'date.fromordinal() is its exact inverse in the short and the long form, '
  'and refuses ordinals that are not of a supported day.',
  'every supported date in both forms and every ordinal',
  'About 1.1 million days with leap years that follow the equinox and not a '
  'formula; the tests sample a few dozen.',
  [DT, TU], [('ordinal of a date', TU + ':_ymd2ord'),
             ('date of an ordinal', TU + ':_ord2ymd'),
             ('public interface', DT + ':date.toordinal, date.fromordinal')],
  'years -1842 to 1161, every month and day, both forms (blocks of years, '
  'each decided for all its dates at once)',
  'the years -1796, -1792 and -1788 have a known finding (ordinals one too '
  'high); ' + GAP)

P('C02', 'Years have 365 or 366 days and begin at the vernal equinox',
  'Every supported year has 365 days, or 366 when it is a leap year, and '
  'Naw-Ruz keeps to the vernal equinox: the years follow the tropical year '
  'without drift and leap years are four or five years apart. For '
  'the years 172 to 221 Naw-Ruz is the published one, and Naw-Ruz and Ridvan '
  'are found in March and April.',
  'every supported year',
  'Three thousand years; the tests check selected ones.',
  [BC, TU, DT], [('leap years', BC + ':_is_leap_year, _days_in_year'),
                 ('first day of a year', BC + ':_build_badi_year_start, '
                  'naw_ruz_g_date, first_day_of_ridvan_g_date'),
                 ('day counts', TU + ':_days_before_year')],
  'years -1842 to 1161 (Gregorian dates of the festivals: a sample of the '
  'years in the quick tier, all in the thorough tier)',
  'whether the tabulated year lengths are astronomically right at the '
  'minute; the accuracy of the equinox series',
  ['the equinox and sunset of a year are what the shipped code computes'])

P('C03', 'Only dates and times that exist can be built',
  'The constructors of date, time and datetime accept exactly the dates of '
  'the calendar (year, month 0 to 19, the days of the month, 4 or 5 days of '
  'Ayyam-i-Ha) and the times of a day, in the short and in the long form. '
  'What they accept they keep unchanged; the rest is refused.',
  'all integer arguments, within and around the legal ranges',
  'The product of all argument values; the tests have a table of examples.',
  [DT, TU, BC], [('checks', DT + ':date.__new__, time.__new__, '
                  'datetime.__new__; ' + TU + ':_check_date_fields, '
                  '_check_time_fields')],
  'years -2000 to 1300, Kull-i-Shay -4 to 4 with every Vahid and year, '
  'months -3 to 25, days -3 to 25, hours, minutes, seconds and microseconds '
  'beyond both ends', 'floats and other types as arguments')

P('C04', 'Short and long form name the same date',
  'The conversion of a date between (year, month, day) and (Kull-i-Shay, '
  'Vahid, year, month, day) is a bijection: it keeps the day and the '
  'time, and converting there and back gives the date converted.',
  'every supported date and time in either form',
  'Tests convert a dozen dates.',
  [BC, DT], [('conversions', BC + ':long_date_from_short_date, '
              'short_date_from_long_date, kvymdhms_from_b_date, date_from_kvymdhms')],
  'years -1842 to 1161; all times of a day',
  'seconds of 60 and more (existing tests pin an odd carry)')

P('C05', 'Julian days and Badi dates are inverse',
  'The Julian day of a Badi date grows by one from each day to the next and '
  'converting it back gives the same date and, within the resolution of the '
  'conversion, the same time.',
  'every supported date and time of day',
  'Sunset moves every day, so each date is a different case; tests sample '
  'a few dozen.',
  [BC], [('to Julian days', BC + ':jd_from_badi_date'),
         ('from Julian days', BC + ':badi_date_from_jd')],
  'all dates of the sampled years (quick) at the default place; a '
  'function of the day, bounded by the computed sunsets, stands for '
  'sunset', 'other places; ' + GAP)

P('C06', 'Historical Gregorian dates and Julian days are inverse',
  'The Julian day of a historical Gregorian date is the true one: Julian '
  'calendar up to 1582-10-04, Gregorian calendar from 1582-10-15, and '
  'the days between are refused. Converting a Julian day back gives the date '
  'and the time of day.',
  'every date from -4712 to 4000, every Julian day with a fraction',
  'Tests compare a table of dates; leap day rules of two calendars and '
  'the reform make many corner cases.',
  [GC], [('to Julian days', GC + ':jd_from_gregorian_date'),
         ('from Julian days', GC + ':gregorian_date_from_jd')],
  'years -4712 to 4000 to Julian days; Julian days 0 to 3182400 back (blocks '
  'of four years, sampled in the quick tier) with fractions of 1/1024, and '
  'half hours for the time of day', 'fractions that are not multiples of '
  '1/1024')

P('C07', 'Exact Gregorian dates count every year by the Gregorian rule',
  'With exact=True Julian days count all years by the Gregorian leap rule '
  'without interruption, days of consecutive dates are consecutive, and '
  'converting back gives the same date. The alternative 4/128 rule '
  'counts likewise.',
  'every date of years -2000 to 4000, every day back',
  'Tests compare tables of dates.',
  [GC, BA], [('days', BA + ':_days_in_years'), ('to Julian days',
             GC + ':jd_from_gregorian_date'), ('from Julian days',
             GC + ':gregorian_date_from_jd')],
  'years -2000 to 4000 to Julian days; every day of sampled years from '
  '-1500 to 3005 back (all each third year in the thorough tier) with '
  'fractions of 1/64 (quarters before year 1)',
  'the 4/128 rule is checked on year counts and leap years only')

P('C08', 'Badi and Gregorian dates correspond day by day',
  'Converting a Badi date to a Gregorian date and back gives the same date, '
  'consecutive Badi days give consecutive Gregorian days, and a Badi day '
  'corresponds to the Gregorian day at whose sunset it begins.',
  'every supported date',
  'Each day is a different case because sunset and the equinox move.',
  [BC, GC], [('conversions', BC + ':badi_date_from_gregorian_date, '
              'gregorian_date_from_badi_date')],
  'all dates of the sampled years (quick: every few decades; thorough: '
  'more) at the default place', 'other places; ' + GAP)

P('C09', 'Meeus and exact Julian days convert both ways',
  'Converting an exact Julian day to a historical (Meeus) one and back gives '
  'the same day, keeps the order, and agrees with the two Gregorian '
  'calendars: the days of one date correspond.',
  'every Julian day and fraction from 0 to 3500000',
  'The conversion is a ladder of hand written boundaries; tests probe '
  'some of them.',
  [BA], [('ladder', BA + ':_meeus_from_exact, _exact_from_meeus')],
  'Julian days 0 to 3500000, fractions of 2^-20', 'finer fractions; days of '
  'the omitted Julian leap days, which have no exact day and raise '
  'ValueError')

P('C10', 'Weekdays and ISO weeks follow the days',
  'The weekday advances by one each day through all changes of month and '
  'year. isocalendar() gives the year, week and weekday of the week that '
  'begins on the first weekday and whose year holds its fourth day, and '
  'fromisocalendar() is its inverse and refuses weeks and days that do not '
  'exist.',
  'every supported date, every (year, week, day)',
  'Week 1 and week 53 depend on the weekday and length of each '
  'year; tests have a few examples.',
  [DT, TU], [('weekday', DT + ':date.weekday, isoweekday'),
             ('ISO calendar', DT + ':date.isocalendar, fromisocalendar; '
              + TU + ':_isoweek1jalal, _isoweek_to_badi')],
  'years -1842 to 1161 in blocks, sampled in the quick tier',
  'the years with wrong ordinals (C01) and their neighbours; in '
  'years of 53 weeks fromisocalendar(y, 52, d) has a known finding')

P('C11', 'Dates compare in calendar order and hash alike',
  'Comparison of any two dates is the order of their days, in whatever '
  'form they are; equal dates have equal hashes. A date is never equal '
  'to, nor ordered with, anything else.',
  'all pairs of dates in all combinations of forms',
  'Pairs: tests compare a handful.',
  [DT], [('comparison', DT + ':date._cmp, __eq__, __lt__, __hash__')],
  'all pairs of dates with years -1842 to 1161', 'subclasses')

P('C12', 'Date arithmetic counts days',
  'Adding a timedelta to a date moves it by that many days and keeps its '
  'form, the difference of two dates is the number of days between them, '
  'and adding and subtracting are inverse. A result outside the '
  'supported range raises OverflowError.',
  'every date, every timedelta',
  'Months of 4 or 5 days and long form carries; tests have few sums.',
  [DT, TU], [('arithmetic', DT + ':date.__add__, __sub__')],
  'all dates of sampled years with every count of days within a window of '
  'some years (quick), wider windows in the thorough tier',
  'the years with wrong ordinals (C01)')

P('C13', 'Times compare by the instant they denote',
  'Comparison of two times is the order of the instants of the day after '
  'taking off their UTC offsets, and equal times hash alike. A naive and an '
  'aware time are unequal and have no order.',
  'all pairs of times, naive or with any fixed offset',
  'Pairs of fields and offsets; tests compare a handful.',
  [DT], [('comparison', DT + ':time._cmp, __hash__')],
  'every pair of times to the microsecond; offsets of any number of '
  'seconds within a day', 'offsets that depend on the date')

P('C14', 'Datetimes compare by the instant they denote',
  'Comparison of two datetimes is the order of their instants after taking '
  'off their UTC offsets, whatever their form; equal datetimes hash alike. A '
  'naive and an aware datetime are unequal and have no order.',
  'all pairs of datetimes', 'Pairs; tests compare a handful.',
  [DT], [('comparison', DT + ':datetime._cmp, __hash__')],
  'all dates of sampled years, all times to the microsecond, offsets of '
  'whole minutes', 'offsets that depend on the date')

P('C15', 'Datetime arithmetic moves by exact durations',
  'Adding a timedelta to a datetime moves it by exactly that duration, '
  'carrying into the date; the difference of two datetimes is '
  'the duration between them, with UTC offsets taken into account, so that '
  'adding and subtracting are inverse.',
  'every datetime, every timedelta', 'Carries through microseconds, '
  'days, Ayyam-i-Ha, years; tests have a few sums.',
  [DT], [('arithmetic', DT + ':datetime.__add__, __sub__')],
  'all dates of sampled years; all times and durations to the microsecond '
  'within a window of days', 'the years with wrong ordinals (C01)')

P('C16', 'Pickling keeps dates, times and datetimes',
  'Unpickling a pickled or copied date, time or datetime gives an equal '
  'object with the same fields, form, fold and time zone.',
  'every object', 'The state is packed into bytes by hand: each field has '
  'its own range.',
  [DT], [('state', DT + ':_getstate, __setstate, __reduce_ex__')],
  'years -1842 to 1161 in both forms, every time to the microsecond, both '
  'folds, with and without a fixed offset', 'pickle protocols below 2')

P('C17', 'ISO format strings read back',
  'fromisoformat() of the isoformat() of any date, time or datetime gives '
  'the same value, with any time specification up to its precision. The '
  'texts YYYYMMDD, YYYY-MM, YYYYDDD, YYYY-DDD, YYYY-Www-D and YYYYWwwD are '
  'read by date.fromisoformat() as the date they name and by '
  'datetime.fromisoformat() as its midnight without a zone; texts naming a '
  'month, a day or a day of the year that does not exist are refused. Times '
  'in the compact and extended forms of hours, minutes and seconds, each '
  'with an optional fraction of the last, are read as the time they '
  'denote, by time and datetime alike; an hour above 24, a minute '
  'above 59 and a second above 60 are refused.',
  'every object', 'Each field has its own width and sign; tests have '
  'tables of strings.',
  [DT, TU], [('printing', DT + ':isoformat; ' + TU + ':_format_time'),
             ('parsing', TU + ':_parse_isoformat_date_time_timezone; ' + DT +
              ':fromisoformat')],
  'all dates of sampled years, all times to the microsecond, offsets of '
  'whole minutes', 'offsets with seconds, which the parser does not accept')

P('C18', 'Time zone offsets are printed and kept exactly',
  'A timezone keeps any offset strictly within a day, prints it as UTC, '
  'UTC+HH:MM or with seconds and microseconds as needed, and two timezones '
  'are equal exactly when their offsets are.',
  'every offset', 'Signs and carries of negative offsets; tests have a few.',
  [DT, TU], [('names', DT + ':timezone; ' + TU + ': z, Z')],
  'every offset to the microsecond', 'zoneinfo data')

P('C19', 'Hours, minutes and seconds convert to day fractions and back',
  'Converting a time of day to a fraction of a day and back gives the same '
  'time within the resolution of the conversion (4 ms), with all fields '
  'in their ranges.',
  'every time of day, every fraction',
  'Rounding near full minutes and hours; tests sample.',
  [BA], [('conversions', BA + ':_hms_from_decimal_day, '
          '_decimal_day_from_hms, _sec_microsec_from_seconds')],
  'all times to the second or microsecond, all fractions of 2^-40',
  'finer fractions')

P('C20', 'Replacing and combining keeps the other fields',
  'replace() changes only the fields given, combine() takes the date and '
  'the time given, and date(), time() and timetz() of the result give them '
  'back, in either form.',
  'every object and every replaced field', 'All subsets of fields and '
  'values; tests try some.',
  [DT], [('fields', DT + ':replace, combine, date, time, timetz')],
  'all dates with years -1842 to 1161, all times to the microsecond',
  'subclasses')

P('C21', 'Timestamps round trip',
  'The timestamp of a datetime converted back gives the same datetime within '
  'the resolution of the conversion, and timestamps of datetimes are '
  'ordered as their instants. The calendar functions give the seconds from '
  '1970-01-01 00:00 UTC for a Badi date and that date back.',
  'every datetime of the supported timestamps', 'Depends on sunset of the '
  'day; tests check a few.',
  [DT, TU, BC], [('timestamps', DT + ':datetime.timestamp, fromtimestamp; ' + BC +
    ':timestamp_from_badi_date, badi_date_from_timestamp')],
  'sampled days, all times', 'other places than the default one')

P('C22', 'strftime and strptime are inverse',
  'Formatting a datetime with directives that determine it and parsing the '
  'string with the same format gives the same value, numeric directives '
  'print the fields they name, names of months and weekdays are those of the '
  'date, a zone offset is printed with its sign and read back as the '
  'seconds it denotes (with its fraction), a fraction of a second is read as '
  'microseconds whatever its number of digits, and all other text of the '
  'format is kept. strptime() refuses with ValueError dates and zones that '
  'do not exist and weekdays or weeks that do not determine a date.',
  'every datetime and the listed formats', 'Products of formats and values.',
  [TU, SP], [('formatting', TU + ':strftime'), ('parsing', SP +
             ':_strptime')],
  'all dates of sampled years; the formats listed in the harness',
  'locale dependent and ambiguous directives')

P('C23', 'Time zone conversion keeps the instant',
  'astimezone() to any fixed offset denotes the same instant, and '
  'converting back gives the original fields; utcoffset, fromutc and '
  'the comparison agree. astimezone() without a zone converts to the local '
  'zone, naive datetimes are taken as local time, and an offset of zero is '
  'an offset like any other.',
  'every aware datetime and every pair of offsets', 'Carries over day, '
  'month and year borders for every offset.',
  [DT], [('conversion', DT + ':datetime.astimezone, timezone.fromutc')],
  'all dates of sampled years, all times, all offsets of whole minutes',
  'zoneinfo')

P('C24', 'Time tuples carry the fields of the datetime',
  'timetuple() holds year, month, day, time, weekday, day of the year and '
  'zone of the datetime and is a valid time tuple (tm_gmtoff is the offset '
  'in seconds, also when it is zero), utctimetuple() those of '
  'the same instant in UTC, and ctime() prints them.',
  'every datetime', 'Day of year and weekday for every date.',
  [DT, TU, ST], [('tuples', DT + ':timetuple; ' + ST + ':ShortFormStruct, '
                  'LongFormStruct')],
  'all dates of sampled years', '')

P('C25', 'Unit conversions are exact inverses with fields in range',
  'Seconds, degrees, zones and hour angles convert to and from their '
  'fields (days, hours, minutes, seconds, direction) without loss, with '
  'every field in its range. Half-way cases round to even where integer '
  'division is rounded.',
  'all values of all fields', 'Tests use tables of examples.',
  [BA, TU, BC], [('conversions', BA + ':_seconds_from_dhms, '
              '_dhms_from_seconds, _tz_decimal_from_dhms, _decimal_from_dms, '
              '_degrees_from_hms, _local_zone_correction'),
             ('rounding', DT + ':_divide_and_round'),
             ('trimming', BC + ':_trim_hms')],
  'all whole values of the fields, zones of quarters of an hour, dividers '
  'as listed', 'values beyond one day or 180 degrees')

P('C27', 'A Badi date with its time is split and joined without loss',
  'Joining hours, minutes and seconds to the fractional day of a Badi date, '
  'in short or long form, and splitting it again keeps the date and, within '
  'the resolution, the time.',
  'every supported date and time', 'Tests use tables of examples.',
  [BC], [('split and join', BC + ':kvymdhms_from_b_date, date_from_kvymdhms')],
  'all dates of sampled years, all times to the second', '')

P('C28', 'POSIX timestamps give their Gregorian date and time',
  'The Gregorian date and time of a POSIX timestamp is the one that many '
  'seconds from 1970-01-01 00:00 UTC in the proleptic Gregorian calendar, '
  'before and after the epoch, and in any zone.',
  'every second of the years covered', 'Year, month and leap day '
  'borders; the tests check some instants.',
  [GC], [('conversion', GC + ':posix_timestamp')],
  'every second of sampled years 1900 to 2100 (all years in the thorough '
  'tier); zones of full hours over three weeks with microseconds',
  'fractions of seconds finer than microseconds')

P('C29', 'The day changes at sunset',
  'The Badi date of an instant is that of the evening before until sunset '
  'of the place, and the next from sunset on; its time counts from that '
  'sunset.',
  'every instant of the days covered', 'Each day has its own sunset.',
  [BC], [('date of an instant', BC + ':badi_date_from_jd, '
          '_utc_to_badi_time')],
  'all instants of sampled years at the default place, sunsets as computed',
  'the accuracy of the computed sunset; instants within two minutes of '
  'sunset (a day may be up to a minute longer than 24 hours, and the code '
  'counts what it has beyond 24 hours to the next day)')

P('C30', 'Only valid time tuples are accepted',
  'The time functions accept exactly the tuples of nine (short form) or '
  'eleven (long form) integers of which the date exists and every field is in '
  'its range, as plain tuples or as the named tuples of the package. A time '
  'tuple keeps its fields, its form follows from its length, and with a zone '
  'its daylight saving flag, offset and name are those of the zone.',
  'every tuple of integers around the legal ranges', 'Eleven fields, each '
  'with its range, and days that depend on year and month; the tests pass a '
  'few bad tuples.',
  [ST, TU, DT], [('check', TU + ':_checktm'),
                 ('time tuples', ST + ':struct_time, ShortFormStruct, '
                  'LongFormStruct')],
  'fields up to three beyond their range, years of blocks covering -1842 to '
  '1161, lengths 0 to 13, zones of any whole second', 'fields that are no '
  'integers')

P('C31', 'Texts of objects name their fields',
  'repr() of a date, time or datetime is a constructor call with exactly its '
  'fields (seconds and microseconds left out when zero, fold when 1), and '
  'str() prints the fields in order, each padded to its width, with the '
  'zone offset.',
  'every date, time and datetime', 'Zero fields, negative years and small '
  'microseconds each change the text; tests compare some examples.',
  [DT], [('texts', DT + ':date.__repr__, time.__repr__, datetime.__repr__, '
          'date._str_convertion, datetime._dt_str_conversion')],
  'all supported dates, all times; datetimes with any time on one day and '
  'any date at four times', 'zones other than the fixed ones of the package')

P('C32', 'A fractional hour, minute or second is split into finer fields',
  'A datetime built with a fractional last field has in-range integer '
  'fields, keeps the coarser fields as given, denotes the time given to '
  'within rounding, and is refused when a non-zero field follows a fraction.',
  'every float of the range on the stated grids', 'The bad cases lie within '
  'a rounding error of the next hour or minute.',
  [DT, BC], [('fields', DT + ':datetime.__new__, datetime._create_time')],
  'floats that are multiples of 2**-3, 2**-12, 2**-30 and 2**-40 below 24 '
  '(hours) or 60', 'finer floats')

P('C33', 'Dates convert at any place',
  'With the coordinates and zone of another place, Julian days and Badi '
  'dates are inverse, a Badi day begins at the sunset of the place on the '
  'evening of its civil day there, that is its Gregorian date, and the day '
  'changes at that sunset.',
  'every date and time at the places covered', 'Days shift with longitude '
  'and zone; the tests use a few places and dates.',
  [BC, BA], [('conversions', BC + ':jd_from_badi_date, badi_date_from_jd, '
              'gregorian_date_from_badi_date, _utc_to_badi_time'),
             ('sunset of a place', BA + ':_sun_setting')],
  'ten places from 55 S to 52 N and on both sides of the date line, all '
  'dates of sampled years, all times to 23:55',
  'places beyond 60 degrees of latitude; zones far from the longitude; '
  'whether the computed sunsets are accurate')

P('C34', 'Sunset, midday and the length of the day agree',
  'utc_sunset() is the time of day at which the Badi day begins, the length '
  'of a day is the time from one sunset to the next, and midday() is half a '
  'day after sunset, so that %p and %I tell the halves of the day apart.',
  'every date', 'Omitted days of the historical calendar lie between some '
  'days and the next; the tests check a few days.',
  [BC, TU], [('times', BC + ':utc_sunset, midday, _day_length'),
             ('halves of the day', TU + ':p, I, _find_midday')],
  'all dates of sampled years, including those with an omitted Julian leap '
  'day, and the places of C33',
  'two minutes around midday and, for it, times of the 4th to the 12th hour; '
  'the days of the reform gap; whether the '
  'computed sunsets are accurate')

P('C35', 'Zones may change with the datetime',
  'With a zone whose offset depends on the fold, a datetime has the offset '
  'of its fold: differences to, order with and conversion to other zones, its '
  'timestamp and its text follow the instant so denoted, while within '
  'the zone the fields alone are compared, and such a time equals none of '
  'another zone. A datetime whose zone has no offset behaves as a naive one.',
  'every datetime, both folds, every pair of offsets', 'Needs a zone of '
  'its own; the tests use fixed offsets.',
  [DT], [('comparison', DT + ':datetime._cmp, __sub__, __hash__'),
         ('offset', DT + ':datetime.utcoffset, astimezone, isoformat')],
  'all dates of sampled years, all times to the microsecond, pairs of '
  'offsets of whole minutes', 'conversion to such a zone, which is up '
  'to its own fromutc()')

NOT_APPLICABLE = [
    ('N01', 'Equinoxes and sunsets are astronomically accurate',
     'The computed vernal equinox and sunset of any day and place agree '
     'with the true ones to the minute.',
     'series of hundreds of sine terms over floats: no SMT encoding within '
     'reach decides them, and the oracle is physical observation',
     [BA, GC, B + '_astronomical_terms.py']),
    ('N02', 'The place and zone of the machine are found correctly',
     'The local coordinates and the zone used for local times are those of '
     'the machine.',
     'depends on the network, geopy and the zone database, outside the code',
     [B + '__init__.py', DT]),
]
