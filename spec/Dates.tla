-------------------------------- MODULE Dates --------------------------------
(***************************************************************************)
(* Dates: [y, mo, d, h, mi, s, z] with z the offset from UTC in minutes.    *)
(* Seconds since 1970 do not fit TLC's integers: an instant is [day, min]   *)
(* (days since 1970-01-01 and the minute of that day) plus the second.      *)
(***************************************************************************)
EXTENDS Msg

DayNum(y, m, d) == \* days since 1970-01-01 (proleptic Gregorian calendar)
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        doy == (153 * (m + (IF m > 2 THEN 0 - 3 ELSE 9)) + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 719468
Civil(n) == \* the date of day n: [y, mo, d]
    LET z == n + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), mo |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1]
ASSUME \A n \in {0, 59, 60, 365, 789, 11016, 11017, 19782, 19783, 24855} :
          LET c == Civil(n) IN DayNum(c.y, c.mo, c.d) = n

FromMin(day, min, s, z) == \* min may lie outside the day
    LET dd == day + (min \div 1440) mm == min % 1440 c == Civil(dd) IN
    [y |-> c.y, mo |-> c.mo, d |-> c.d, h |-> mm \div 60, mi |-> mm % 60, s |-> s, z |-> z]
\* the same instant in zone z
InZone(dt, z) == FromMin(DayNum(dt.y, dt.mo, dt.d), dt.h * 60 + dt.mi - dt.z + z, dt.s, z)
NowDate(now) == FromMin(now.day, now.sec \div 60, now.sec % 60, 0)
Original == 99999
ZoneOf(dt, z) == IF z = Original THEN dt ELSE InZone(dt, z)

Pad2(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Pad4(n) == (IF n < 10 THEN "000" ELSE IF n < 100 THEN "00" ELSE IF n < 1000 THEN "0" ELSE "") \o ToString(n)
ZAbs(z) == IF z < 0 THEN 0 - z ELSE z
ZText(z, sep) == (IF z < 0 THEN "-" ELSE "+") \o Pad2(ZAbs(z) \div 60) \o sep \o Pad2(ZAbs(z) % 60)
DateT(dt) == Pad4(dt.y) \o "-" \o Pad2(dt.mo) \o "-" \o Pad2(dt.d)
TimeT(dt) == Pad2(dt.h) \o ":" \o Pad2(dt.mi) \o ":" \o Pad2(dt.s)
WeekdayNum(dt) == (DayNum(dt.y, dt.mo, dt.d) + 4) % 7
WeekdayTab == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
MonthTab == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
DatePartText(dt, p) ==
    CASE p = "year" -> Pad4(dt.y)
      [] p = "month" -> Pad2(dt.mo)
      [] p = "day" -> Pad2(dt.d)
      [] p = "date" -> DateT(dt)
      [] p = "julian" -> ToString(DayNum(dt.y, dt.mo, dt.d) + 40587)
      [] p = "hour" -> Pad2(dt.h)
      [] p = "minute" -> Pad2(dt.mi)
      [] p = "second" -> Pad2(dt.s)
      [] p = "time" -> TimeT(dt)
      [] p = "iso8601" -> DateT(dt) \o "T" \o TimeT(dt) \o (IF dt.z = 0 THEN "Z" ELSE ZText(dt.z, ":"))
      [] p = "std11" -> WeekdayTab[WeekdayNum(dt) + 1] \o ", " \o ToString(dt.d) \o " " \o MonthTab[dt.mo] \o " " \o Pad4(dt.y)
                        \o " " \o TimeT(dt) \o " " \o ZText(dt.z, "")
      [] p = "zone" -> ZText(dt.z, "")
      [] p = "weekday" -> ToString(WeekdayNum(dt))
\* the date a header field holds: <<>> or <<date>>.  tab: dates of generated texts
HeaderDate(h, tab) ==
    IF h.old THEN (IF Has(h, "dt") THEN <<h.dt>> ELSE <<>>)
    ELSE LET i == FirstIdx(tab, LAMBDA x : x[1] = h.v) IN IF i = 0 THEN <<>> ELSE <<tab[i][2]>>
==============================================================================
