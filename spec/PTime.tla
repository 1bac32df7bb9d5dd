-------------------------------- MODULE PTime --------------------------------
(* Dates, times, datetimes and durations: the texts and numbers they are read  *)
(* from, the calendar, the bounds and time-zone constraints, and the texts     *)
(* they are written as.                                                        *)
(*   date {p: y,m,d}   time {p: h,m,s,us; tz, off}   dt {p: y..us; tz, off}    *)
(*   td {days, s, us} (0 <= s < 86400, 0 <= us < 10^6)                         *)
(* A zone made by the library carries its name (nm) too.                       *)
EXTENDS PScalar, IOUtils

(********************************* the calendar *****************************)
LeapYear(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN (IF LeapYear(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
(* day number (1970-01-01 is 0) of a date and back *)
RECURSIVE MonthDays(_, _)
MonthDays(y, m) == IF m = 1 THEN 0 ELSE MonthDays(y, m - 1) + DaysIn(y, m - 1)
YearDays(y) == y * 365 + (IF y = 0 THEN 0 ELSE (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400 + 1)
DayNo(y, m, d) == YearDays(y) + MonthDays(y, m) + d - 1 - 719528
FirstDay == -719528   \* 0000-01-01
LastDay == 2932896    \* 9999-12-31
DateOf(n) ==
  LET k == n + 719528
      y0 == k \div 366
      y == CHOOSE y \in y0..(k \div 365) : YearDays(y) <= k /\ k < YearDays(y + 1)
      r == k - YearDays(y)
      m == CHOOSE m \in 1..12 : MonthDays(y, m) <= r /\ r < MonthDays(y, m) + DaysIn(y, m)
  IN <<y, m, r - MonthDays(y, m) + 1>>

(***************************** texts as bytes *******************************)
(* a character of n bytes is followed by n-1 fillers, so positions are bytes  *)
RECURSIVE Bytes(_)
Bytes(s) == IF Len(s) = 0 THEN "" ELSE
            Ch(s,1) \o (IF Ch(s,1) \in DOMAIN Utf8N THEN Rep("?", Utf8N[Ch(s,1)] - 1) ELSE "") \o Bytes(From(s,2))
IsDig(b, i) == i >= 1 /\ i <= Len(b) /\ Ch(b, i) \in Digits
At(b, i) == IF i >= 1 /\ i <= Len(b) THEN Ch(b, i) ELSE ""
Two(b, i) == DigInt(SubSeq(b, i, i + 1))
RECURSIVE RunEnd(_, _)
RunEnd(b, i) == IF IsDig(b, i) THEN RunEnd(b, i + 1) ELSE i
Pad6(d) == DigInt(UpTo(d \o Rep("0", 6 - Len(d)), 6))

ShortInput == "input is too short"
ExtraCh == "unexpected extra characters at the end of the input"
DaySmall == "dates before 0000 are not supported as unix timestamps"
DayLarge == "dates after 9999 are not supported as unix timestamps"
TimeLarge == "numeric times may not exceed 86,399 seconds"
DurLarge == "a numeric value in the duration is too large"
DurDays == "durations may not exceed 999,999,999 days"
DurHours == "durations may not exceed 999,999,999 hours"
Frac6 == "second fraction value is more than 6 digits long"
Frac3 == "millisecond fraction value is more than 3 digits long"
NoNan == "NaN values not permitted"
Bad(e) == [e |-> e]

DatePart(b) ==
  IF Len(b) < 10 THEN Bad(ShortInput)
  ELSE IF \E i \in 1..4 : ~IsDig(b, i) THEN Bad("invalid character in year")
  ELSE IF Ch(b, 5) # "-" THEN Bad("invalid date separator, expected `-`")
  ELSE IF ~IsDig(b, 6) \/ ~IsDig(b, 7) THEN Bad("invalid character in month")
  ELSE IF Ch(b, 8) # "-" THEN Bad("invalid date separator, expected `-`")
  ELSE IF ~IsDig(b, 9) \/ ~IsDig(b, 10) THEN Bad("invalid character in day")
  ELSE LET y == DigInt(UpTo(b, 4)) m == Two(b, 6) d == Two(b, 9) IN
       IF m < 1 \/ m > 12 THEN Bad("month value is outside expected range of 1-12")
       ELSE IF d < 1 \/ d > DaysIn(y, m) THEN Bad("day value is outside expected range")
       ELSE [e |-> "", p |-> <<y, m, d>>]
(* hh:mm[:ss[.ffffff]] from byte o+1; n: next byte *)
Clock(b, o, prec) ==
  IF Len(b) - o < 5 THEN Bad(ShortInput)
  ELSE IF ~IsDig(b, o+1) \/ ~IsDig(b, o+2) THEN Bad("invalid character in hour")
  ELSE IF Ch(b, o+3) # ":" THEN Bad("invalid time separator, expected `:`")
  ELSE IF ~IsDig(b, o+4) \/ ~IsDig(b, o+5) THEN Bad("invalid character in minute")
  ELSE IF Two(b, o+1) > 23 THEN Bad("hour value is outside expected range of 0-23")
  ELSE IF Two(b, o+4) > 59 THEN Bad("minute value is outside expected range of 0-59")
  ELSE LET hm == <<Two(b, o+1), Two(b, o+4)>> IN
       IF At(b, o+6) # ":" THEN [e |-> "", p |-> hm \o <<0, 0>>, n |-> o+6]
       ELSE IF ~IsDig(b, o+7) \/ ~IsDig(b, o+8) THEN
            Bad("invalid character in second")
       ELSE IF Two(b, o+7) > 59 THEN Bad("second value is outside expected range of 0-59")
       ELSE IF At(b, o+9) \notin {".", ","} THEN [e |-> "", p |-> hm \o <<Two(b, o+7), 0>>, n |-> o+9]
       ELSE LET z == RunEnd(b, o+10) f == SubSeq(b, o+10, z-1) IN
            IF Len(f) > 6 /\ prec = "error" THEN Bad(Frac6)
            ELSE IF Len(f) = 0 THEN Bad("second fraction digits missing after `.`")
            ELSE [e |-> "", p |-> hm \o <<Two(b, o+7), Pad6(f)>>, n |-> z]
NeedDig(b, i, e) == IF IsDig(b, i) THEN "" ELSE e
TimeText(b, o, prec) ==
  LET t == Clock(b, o, prec) IN
  IF t.e # "" THEN t
  ELSE LET c == At(b, t.n) none == [e |-> "", p |-> t.p, tz |-> FALSE, off |-> 0] IN
       IF c = "" THEN none
       ELSE IF c \in {"Z", "z"} THEN IF Len(b) > t.n THEN Bad(ExtraCh) ELSE [none EXCEPT !.tz = TRUE]
       ELSE IF c \notin {"+", "-", Data.minus} THEN Bad("invalid timezone sign")
       ELSE LET i == t.n + (IF c = Data.minus THEN 3 ELSE 1)
                e1 == NeedDig(b, i, "invalid timezone hour")
                e2 == NeedDig(b, i+1, "invalid timezone hour")
                j == IF At(b, i+2) = ":" THEN i+3 ELSE i+2
                e3 == IF At(b, i+2) = ":" THEN NeedDig(b, j, "invalid timezone minute")
                      ELSE IF IsDig(b, j) THEN "" ELSE "invalid timezone minute"
                e4 == NeedDig(b, j+1, "invalid timezone minute")
            IN IF e1 # "" THEN Bad(e1) ELSE IF e2 # "" THEN Bad(e2) ELSE IF e3 # "" THEN Bad(e3) ELSE IF e4 # "" THEN Bad(e4)
               ELSE IF Two(b, j) > 59 THEN Bad("timezone minute value is outside expected range of 0-59")
               ELSE LET a == Two(b, i) * 3600 + Two(b, j) * 60 IN
                    IF a >= 86400 THEN Bad("timezone offset must be less than 24 hours")
                    ELSE IF Len(b) > j+1 THEN Bad(ExtraCh)
                    ELSE [none EXCEPT !.tz = TRUE, !.off = IF c = "+" THEN a ELSE 0 - a]

(****************************** numbers of time *****************************)
(* digits divided by a small number *)
RECURSIVE DDivN(_, _, _, _, _)
DDivN(s, i, m, q, r) == IF i > Len(s) THEN [q |-> StripZ(q), r |-> r]
                        ELSE LET a == r * 10 + DigVal[Ch(s,i)] IN DDivN(s, i+1, m, q \o ToString(a \div m), a % m)
DDiv(s, m) == DDivN(s, 1, m, "0", 0)
Watershed == "20000000000"
(* seconds (sign and digits) and microseconds since the epoch -> day, second of day, microsecond; negative results rounded down *)
OfSeconds(neg, d, us) ==
  IF Len(d) > 14 THEN Bad(IF neg THEN DaySmall ELSE DayLarge)
  ELSE LET c == us \div 1000000
           x == DDiv(d, 86400)
           day0 == IF Len(x.q) > 8 THEN 99999999 ELSE DigInt(x.q)
           s0 == (IF neg THEN 0 - x.r ELSE x.r) + c
           day == (IF neg THEN 0 - day0 ELSE day0) + s0 \div 86400
       IN IF day < FirstDay THEN Bad(DaySmall) ELSE IF day > LastDay THEN Bad(DayLarge)
          ELSE [e |-> "", day |-> day, s |-> s0 % 86400, us |-> us % 1000000]
(* a whole timestamp, in milliseconds beyond the watershed *)
OfStamp(neg, d, us) ==
  IF DCmp(d, Watershed) <= 0 THEN OfSeconds(neg, d, us)
  ELSE LET x == DDiv(d, 1000) IN
       IF ~neg \/ x.r = 0 THEN OfSeconds(neg, x.q, x.r * 1000 + us)
       ELSE LET r == OfSeconds(TRUE, x.q, 0) IN  \* one second less, and the rest of it
            IF r.e # "" THEN r
            ELSE LET u == (1000 - x.r) * 1000 + us
                     s == r.s - 1 + u \div 1000000
                     day == r.day + s \div 86400
                 IN IF day < FirstDay THEN Bad(DaySmall) ELSE [e |-> "", day |-> day, s |-> s % 86400, us |-> u % 1000000]
AsDt(r) == IF r.e # "" THEN r
           ELSE [e |-> "", p |-> DateOf(r.day) \o <<r.s \div 3600, (r.s % 3600) \div 60, r.s % 60, r.us>>, tz |-> TRUE, off |-> 0]
(* microseconds of a decimal fraction, rounded *)
Micros(fd) == Pad6(fd) + (IF Len(fd) > 6 /\ DigVal[Ch(fd, 7)] >= 5 THEN 1 ELSE 0)
DInc(d) ==
  LET k == {i \in 1..Len(d) : Ch(d, i) # "9"} IN
  IF k = {} THEN "1" \o Rep("0", Len(d))
  ELSE LET i == CHOOSE i \in k : \A j \in k : j <= i IN UpTo(d, i-1) \o ToString(DigVal[Ch(d,i)] + 1) \o Rep("0", Len(d) - i)
(* the whole part below a number and the fraction above it, in millionths *)
FloorOf(neg, id, fd) ==
  LET m == Micros(fd) IN
  IF ~neg \/ m = 0 THEN [neg |-> neg, d |-> id, us |-> IF neg /\ fd # "" THEN 0 ELSE m]
  ELSE [neg |-> TRUE, d |-> DInc(id), us |-> 1000000 - m]
(* a float in milliseconds: the whole milliseconds and their fraction *)
OfFloat(neg, id, fd) ==
  IF DCmp(id, Watershed) <= 0 THEN LET f == FloorOf(neg, id, fd) IN OfStamp(f.neg, f.d, f.us)
  ELSE LET f == FloorOf(neg, id, fd) IN OfStamp(f.neg, f.d, f.us \div 1000)
(* a text with a decimal point: milliseconds are brought to seconds first *)
OfFloatText(neg, id, fd, prec) ==
  LET ms == DCmp(id, Watershed) > 0 \/ (id = Watershed /\ StripZR(fd) # "")
      i == IF ~ms THEN id ELSE UpTo(id, Len(id) - 3)
      f == IF ~ms THEN fd ELSE From(id, Len(id) - 2) \o fd
      x == FloorOf(neg, i, StripZR(f))
  IN IF prec = "error" /\ Len(fd) > (IF ms THEN 3 ELSE 6) THEN Bad(IF ms THEN Frac3 ELSE Frac6)
     ELSE OfStamp(x.neg, x.d, x.us)
(* an optionally signed number in plain notation *)
NumText(b) ==
  LET sg == At(b, 1) \in {"-", "+"}
      x == IF sg THEN From(b, 2) ELSE b
      z == RunEnd(x, 1)
      id == StripZ(UpTo(x, z - 1))
      fd == From(x, z + 1)
      no == [k |-> "none", neg |-> FALSE, d |-> "0", fd |-> ""]
      yes == [no EXCEPT !.neg = At(b, 1) = "-", !.d = id]
  IN IF z = 1 \/ DCmp(id, I64MAX) > 0 THEN no
     ELSE IF z > Len(x) THEN [yes EXCEPT !.k = "int"]
     ELSE IF Ch(x, z) = "." /\ AllIn(fd, Digits) THEN [yes EXCEPT !.k = "float", !.fd = fd]
     ELSE no

DateText(b) ==
  LET d == DatePart(b)
      e == IF d.e # "" THEN d.e ELSE IF Len(b) > 10 THEN ExtraCh ELSE ""
      n == NumText(b)
  IN IF e = "" THEN d
     ELSE IF n.k # "int" THEN Bad(e)
     ELSE LET r == OfStamp(n.neg, n.d, 0) IN
          IF r.e # "" THEN r ELSE IF r.s # 0 \/ r.us # 0 THEN Bad("Timestamp is not an exact date")
          ELSE [e |-> "", p |-> DateOf(r.day)]
DtText(b, prec) ==
  LET d == DatePart(b)
      t == IF d.e # "" THEN d
           ELSE IF At(b, 11) \notin {"T", "t", " ", "_"} THEN Bad("invalid datetime separator, expected `T`, `t`, `_` or space")
           ELSE TimeText(b, 11, prec)
      n == NumText(b)
  IN IF t.e = "" THEN [t EXCEPT !.p = d.p \o @]
     ELSE IF n.k = "int" THEN AsDt(OfStamp(n.neg, n.d, 0))
     ELSE IF n.k = "float" THEN AsDt(OfFloatText(n.neg, n.d, n.fd, prec))
     ELSE t

(********************************** durations *******************************)
(* sign, days, seconds of the day and microseconds -> td, or an error          *)
MkTd(days, s, us) == LET t == s + us \div 1000000 IN
                     [t |-> "td", days |-> days + t \div 86400, s |-> t % 86400, us |-> us % 1000000]
MaxDays == 999999999
Dur(neg, days, s, us) ==
  IF days + (s + us \div 1000000) \div 86400 > MaxDays THEN Bad(DurDays)
  ELSE IF neg /\ days + (s + us \div 1000000) \div 86400 = MaxDays /\ ((s + us \div 1000000) % 86400 # 0 \/ us % 1000000 # 0) THEN Bad(DurDays)
  ELSE [e |-> "", v |-> IF neg THEN MkTd(0 - days, 0 - s, 0 - us) ELSE MkTd(days, s, us)]
OfSecs(neg, d, us) ==
  LET x == DDiv(d, 86400) IN
  IF Len(x.q) > 9 THEN Bad(DurDays) ELSE Dur(neg, DigInt(x.q), x.r, us)
U32MAX == "4294967295"
(* days, seconds, microseconds counted by an ISO 8601 duration; at most four fraction digits are given an exact meaning *)
RECURSIVE Iso(_, _, _, _, _, _, _)
Iso(b, i, gotT, frac, day, s, us) ==
  IF i > Len(b) THEN (IF i < 3 THEN Bad(ShortInput) ELSE [e |-> "", day |-> day, s |-> s, us |-> us])
  ELSE IF Ch(b, i) = "T" THEN IF gotT THEN Bad("`t` character repeated in duration") ELSE Iso(b, i+1, TRUE, frac, day, s, us)
  ELSE IF ~IsDig(b, i) THEN Bad("invalid digit in duration")
  ELSE LET z == RunEnd(b, i) d == StripZ(SubSeq(b, i, z-1))
           dot == At(b, z) \in {".", ","}
           fz == IF dot THEN RunEnd(b, z+1) ELSE z
           f == IF dot THEN SubSeq(b, z+1, fz-1) ELSE ""
           u == At(b, fz)
           mult == IF gotT THEN (IF u = "H" THEN 3600 ELSE IF u = "M" THEN 60 ELSE IF u = "S" THEN 1 ELSE 0)
                   ELSE (IF u = "Y" THEN 365 ELSE IF u = "M" THEN 30 ELSE IF u = "W" THEN 7 ELSE IF u = "D" THEN 1 ELSE 0)
       IN IF DCmp(d, U32MAX) > 0 THEN Bad(DurLarge)
          ELSE IF frac THEN Bad("quantity fraction invalid in duration")
          ELSE IF mult = 0 THEN Bad(IF gotT THEN "quantity invalid in time part of duration" ELSE "quantity invalid in date part of duration")
          ELSE IF Len(d) > 8 THEN Bad("?")  \* (beyond 32-bit arithmetic: not generated)
          ELSE LET n == DigInt(d) * mult
                   den == IF Len(f) = 0 THEN 1 ELSE IF Len(f) = 1 THEN 10 ELSE IF Len(f) = 2 THEN 100 ELSE IF Len(f) = 3 THEN 1000 ELSE IF Len(f) = 4 \/ u # "S" THEN 10000 ELSE IF Len(f) = 5 THEN 100000 ELSE 1000000
                   fn == (IF Len(f) = 0 THEN 0 ELSE DigInt(UpTo(f, Min2(IF u = "S" THEN 6 ELSE 4, Len(f))))) * mult
                   part(x, unit) == (x % den) * unit      \* of one unit, in den-ths
                   p == part(fn, 86400)
               IN IF gotT THEN Iso(b, fz+1, gotT, dot, day, s + n + fn \div den, us + (fn % den) * (1000000 \div den))
                  ELSE Iso(b, fz+1, gotT, dot, day + n + fn \div den, s + p \div den, us + (p % den) * (1000000 \div den))
(* [h]h:mm[:ss[.ffffff]]; at most twelve bytes after the first colon count *)
ClockDur(b, prec) ==
  LET k == FindCh(b, ":")
      h == UpTo(b, k - 1)
      r == From(b, k + 1)
      t == Clock("00:" \o UpTo(r, Min2(12, Len(r))), 0, prec)
  IN IF Len(b) < 5 THEN Bad(ShortInput)
     ELSE IF k = 0 THEN Bad("invalid character in hour")
     ELSE IF Len(h) > 10 THEN Bad(DurHours)
     ELSE IF ~AllIn(h, Digits) THEN Bad("invalid character in hour")
     ELSE IF Len(h) > 0 /\ DCmp(StripZ(h), "2400000000") > 0 THEN Bad(DurHours)
     ELSE IF Len(r) > 12 /\ prec = "error" THEN Bad(Frac6)
     ELSE IF t.e # "" THEN t
     ELSE IF Min2(12, Len(r)) + 3 >= t.n THEN Bad(ExtraCh)
     ELSE LET x == IF Len(h) = 0 THEN [q |-> "0", r |-> 0] ELSE DDiv(h, 24) IN
          [e |-> "", day |-> DigInt(x.q), s |-> x.r * 3600 + t.p[2] * 60 + t.p[3], us |-> t.p[4]]
Skip(b, ps) == LET k == IndexWhere(ps, LAMBDA p : HasPrefix(Chars(b), Chars(p))) IN IF k = 0 THEN b ELSE From(b, Len(ps[k]) + 1)
DaysDur(b, prec) ==
  LET z == RunEnd(b, 1) d == StripZ(UpTo(b, z-1))
      r0 == From(b, z)
      r1 == IF At(r0, 1) = " " THEN From(r0, 2) ELSE r0
      r2 == From(r1, 2)
      r3 == Skip(r2, <<"ays", "ay", "AYS", "AY">>)
      r4 == Skip(r3, <<", ", ",", " ">>)
  IN IF z = 1 THEN Bad("invalid digit in duration")
     ELSE IF DCmp(d, U32MAX) > 0 THEN Bad(DurLarge)
     ELSE IF At(r1, 1) \notin {"d", "D"} THEN Bad("\"day\" identifier in duration not correctly formatted")
     ELSE IF r3 = r2 /\ At(r2, 1) \in {"a", "A"} THEN Bad("\"day\" identifier in duration not correctly formatted")
     ELSE IF Len(d) > 9 THEN (IF r4 = "" THEN Bad(DurDays) ELSE LET t == ClockDur(r4, prec) IN
                              IF t.e # "" THEN t ELSE IF t.day > 0 THEN Bad(DurHours) ELSE Bad(DurDays))
     ELSE IF r4 = "" THEN [e |-> "", day |-> DigInt(d), s |-> 0, us |-> 0]
     ELSE LET t == ClockDur(r4, prec) IN
          IF t.e # "" THEN t ELSE IF t.day > 0 THEN Bad(DurHours) ELSE [t EXCEPT !.day = DigInt(d)]
DurText(b0, prec) ==
  LET sg == At(b0, 1) \in {"-", "+"}
      b == IF sg THEN From(b0, 2) ELSE b0
      r == IF b = "" THEN Bad(ShortInput)
           ELSE IF Ch(b, 1) = "P" THEN Iso(From(b, 2), 1, FALSE, FALSE, 0, 0, 0)
           ELSE IF CountCh(b, "d") + CountCh(b, "D") > 0 \/ Len(b) < 5 THEN DaysDur(b, prec)
           ELSE ClockDur(b, prec)
  IN IF r.e # "" THEN r ELSE Dur(At(b0, 1) = "-", r.day, r.s, r.us)

(*********************************** texts **********************************)
P2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
PadN(n, w) == LET s == ToString(n) IN Rep("0", w - Len(s)) \o s
Abs(n) == IF n < 0 THEN 0 - n ELSE n
ShowDate(p) == PadN(p[1], 4) \o "-" \o P2(p[2]) \o "-" \o P2(p[3])
ShowOff(v) == IF ~v.tz THEN "" ELSE IF v.off = 0 THEN "Z"
              ELSE LET m == Abs(v.off) \div 60 IN (IF v.off < 0 THEN "-" ELSE "+") \o P2(m \div 60) \o ":" \o P2(m % 60)
ShowClock(p) == P2(p[1]) \o ":" \o P2(p[2]) \o ":" \o P2(p[3]) \o (IF p[4] = 0 THEN "" ELSE "." \o PadN(p[4], 6))
ShowTime(v) == ShowClock(v.p) \o ShowOff(v)
ShowDt(v) == ShowDate(v.p) \o "T" \o ShowClock(SubSeq(v.p, 4, 7)) \o ShowOff(v)
ShowTd(v) ==
  LET neg == v.days < 0
      us == IF neg /\ v.us > 0 THEN 1000000 - v.us ELSE v.us
      s1 == IF neg THEN (IF v.us > 0 THEN v.s + 1 ELSE v.s) ELSE v.s
      s == IF neg /\ s1 > 0 THEN 86400 - s1 ELSE s1
      d == IF neg THEN (IF s1 > 0 THEN Abs(v.days + 1) ELSE Abs(v.days)) ELSE v.days
      part(n, u) == IF n = 0 THEN "" ELSE ToString(n) \o u
      secs == IF s % 60 = 0 /\ us = 0 THEN ""
              ELSE ToString(s % 60) \o (IF us = 0 THEN "" ELSE "." \o StripZR(PadN(us, 6))) \o "S"
  IN (IF neg THEN "-P" ELSE "P") \o
     (IF d = 0 /\ s = 0 /\ us = 0 THEN "T0S"
      ELSE part(d \div 365, "Y") \o part(d % 365, "D") \o
           (IF s = 0 /\ us = 0 THEN "" ELSE "T" \o part(s \div 3600, "H") \o part((s % 3600) \div 60, "M") \o secs))
(* how an error mentions a bound on durations *)
HumanTd(v) ==
  LET part(n, u) == IF n = 0 THEN <<>> ELSE <<ToString(n) \o " " \o u \o (IF n = 1 THEN "" ELSE "s")>>
      l == part(v.days, "day") \o part(v.s \div 3600, "hour") \o part((v.s % 3600) \div 60, "minute") \o part(v.s % 60, "second") \o part(v.us, "microsecond")
  IN IF l = <<>> THEN "0 seconds" ELSE Join(l, " and ")
ShowTemporal(v) ==
  CASE v.t = "date" -> ShowDate(v.p) [] v.t = "time" -> ShowTime(v) [] v.t = "dt" -> ShowDt(v) [] v.t = "td" -> ShowTd(v)
(* the name of a zone the library made *)
ZoneName(off) ==
  IF off = 0 THEN "UTC"
  ELSE (IF off > 0 THEN "+" ELSE "-") \o P2(Abs(off) \div 3600) \o ":" \o P2((Abs(off) \div 60) % 60) \o
       (IF Abs(off) % 60 = 0 THEN "" ELSE ":" \o P2(Abs(off) % 60))

(***************************** reading a value ******************************)
(* Res whose value is the temporal value *)
MkRaw(t, r) == IF t = "date" THEN [t |-> t, p |-> r.p]
               ELSE IF r.tz THEN [t |-> t, p |-> r.p, tz |-> TRUE, off |-> r.off, nm |-> ZoneName(r.off)]
               ELSE [t |-> t, p |-> r.p, tz |-> FALSE, off |-> 0]
Parse(k, x, e) == Err(k, x, << <<"error", Str(e)>> >>)
TextIn(e, strict, mode) ==
  IF mode = "python" THEN ~strict /\ e.t \in {"str", "strsub", "bytes", "bytessub"} ELSE StrLike(e)
BytesIn(e) == IF StrLike(e) THEN Bytes(e.s) ELSE IF e.u THEN Bytes(e.y) ELSE Rep("?", Len(e.y) \div 2)
TextEx(mode) == IF mode \in {"json", "strings"} THEN Strict ELSE Lax
Read(k, t, r, x, mode) == IF r.e # "" THEN Parse(k, x, r.e) ELSE OkV(MkRaw(t, r), TextEx(mode))
Own(x, e, t) == OkV(x, IF Has(e, "sub") THEN Strict ELSE Exact)
MachineInt(e, mode) == e.t \in {"int", "intsub"} \/ (e.t = "big" /\ InI64(e) /\ (mode # "json" \/ Len(e.d) < 19))
(* a number that is read as a float: a float, a decimal, an integer beyond 64 bits *)
FloatIn(e, mode) ==
  \/ e.t \in FltTags
  \/ mode = "python" /\ e.t = "dec"
  \/ mode = "python" /\ e.t = "big" /\ Len(e.d) <= 308
Parts(e) ==   \* of a number read as a float
  IF e.t = "dec" THEN ParseDec(e.s)
  ELSE IF e.t = "big" THEN [ok |-> TRUE, neg |-> e.neg, id |-> e.d, fd |-> "", k |-> ""]
  ELSE IF e.t = "fbig" THEN [ok |-> TRUE, neg |-> e.neg, id |-> e.d, fd |-> "", k |-> ""]
  ELSE IF e.t = "fsp" THEN [ok |-> TRUE, neg |-> e.k = "-inf", id |-> "0", fd |-> "", k |-> IF e.k = "-0.0" THEN "" ELSE IF e.k = "-inf" THEN "inf" ELSE e.k]
  ELSE ParseDec(FloatStr(e, FALSE))

InDate(x, e, strict, mode) ==
  IF mode = "python" /\ e.t = "date" THEN Own(x, e, "date")
  ELSE IF TextIn(e, strict, mode) THEN Read("date_parsing", "date", DateText(BytesIn(e)), x, mode)
  ELSE Err0("date_type", x)
InDt(x, e, strict, prec, mode) ==
  LET of(r) == IF r.e # "" THEN Parse("datetime_parsing", x, r.e) ELSE OkV(MkRaw("dt", AsDt(r)), Lax) IN
  IF mode = "python" /\ e.t = "dt" THEN Own(x, e, "dt")
  ELSE IF TextIn(e, strict, mode) THEN Read("datetime_parsing", "dt", DtText(BytesIn(e), prec), x, mode)
  ELSE IF strict \/ mode \in {"strings", "jkey"} THEN Err0("datetime_type", x)
  ELSE IF MachineInt(e, mode) THEN of(OfStamp(IntNeg(e), IntDig(e), 0))
  ELSE IF FloatIn(e, mode) THEN
       LET n == Parts(e) IN
       IF n.k = "nan" THEN Parse("datetime_parsing", x, NoNan)
       ELSE IF n.k = "inf" THEN of(Bad(IF n.neg THEN DaySmall ELSE DayLarge))
       ELSE of(OfFloat(n.neg, n.id, n.fd))
  ELSE IF mode = "python" /\ e.t = "date" THEN OkV([t |-> "dt", p |-> e.p \o <<0,0,0,0>>, tz |-> FALSE, off |-> 0], Lax)
  ELSE Err0("datetime_type", x)
InTime(x, e, strict, prec, mode) ==
  LET of(neg, d, us) ==
        IF neg THEN Parse("time_parsing", x, "time in seconds should be positive")
        ELSE IF Len(d) > 8 \/ DigInt(d) + us \div 1000000 >= 86400 THEN Parse("time_parsing", x, TimeLarge)
        ELSE LET s == DigInt(d) + us \div 1000000 IN
             OkV(MkRaw("time", [p |-> <<s \div 3600, (s % 3600) \div 60, s % 60, us % 1000000>>, tz |-> TRUE, off |-> 0]), Lax)
  IN
  IF mode = "python" /\ e.t = "time" THEN Own(x, e, "time")
  ELSE IF TextIn(e, strict, mode) THEN Read("time_parsing", "time", TimeText(BytesIn(e), 0, prec), x, mode)
  ELSE IF strict \/ mode \in {"strings", "jkey"} THEN Err0("time_type", x)
  ELSE IF MachineInt(e, mode) THEN of(IntNeg(e), IntDig(e), 0)
  ELSE IF e.t = "big" /\ mode = "json" THEN Parse("time_parsing", x, TimeLarge)
  ELSE IF FloatIn(e, mode) THEN
       LET n == Parts(e) IN
       IF n.k = "nan" THEN Parse("time_parsing", x, NoNan)
       ELSE IF n.k = "inf" THEN of(n.neg, "999999999", 0)
       ELSE of(n.neg /\ (n.id # "0" \/ n.fd # ""), n.id, Micros(n.fd))
  ELSE Err0("time_type", x)
InTd(x, e, strict, prec, mode) ==
  LET of(r, ex) == IF r.e # "" THEN Parse("time_delta_parsing", x, r.e) ELSE OkV(r.v, ex) IN
  IF mode = "python" /\ e.t = "td" THEN Own(x, e, "td")
  ELSE IF TextIn(e, strict, mode) THEN of(DurText(BytesIn(e), prec), TextEx(mode))
  ELSE IF strict \/ mode \in {"strings", "jkey"} THEN Err0("time_delta_type", x)
  ELSE IF mode = "python" /\ e.t = "bool" THEN of(OfSecs(FALSE, IF e.b THEN "1" ELSE "0", 0), Lax)
  ELSE IF MachineInt(e, mode) THEN of(OfSecs(IntNeg(e), IntDig(e), 0), Lax)
  ELSE IF FloatIn(e, mode) THEN
       LET n == Parts(e) IN
       IF n.k = "nan" THEN Parse("time_delta_parsing", x, NoNan)
       ELSE IF n.k = "inf" THEN of(Bad(DurDays), Lax)
       ELSE of(OfSecs(n.neg, n.id, Micros(n.fd)), Lax)
  ELSE Err0("time_delta_type", x)

(****************************** order and bounds ****************************)
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> THEN 0 ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE Lex(Tail(a), Tail(b))
TdKey(v) == <<v.days, v.s, v.us>>
ClockKey(p, off) == <<p[1] * 3600 + p[2] * 60 + p[3] - off, p[4]>>
DtKey(v) == LET c == ClockKey(SubSeq(v.p, 4, 7), v.off) IN <<DayNo(v.p[1], v.p[2], v.p[3]) + c[1] \div 86400, c[1] % 86400, c[2]>>
TCmp(a, b) ==
  CASE a.t = "date" -> Lex(a.p, b.p)
    [] a.t = "td" -> Lex(TdKey(a), TdKey(b))
    [] a.t = "time" -> IF a.tz /\ b.tz THEN Lex(ClockKey(a.p, a.off), ClockKey(b.p, b.off)) ELSE Lex(a.p, b.p)
    [] a.t = "dt" -> IF a.tz /\ b.tz THEN Lex(DtKey(a), DtKey(b)) ELSE Lex(a.p, b.p)
ShowBound(v) == Str(IF v.t = "td" THEN HumanTd(v) ELSE ShowTemporal(v))
TimeBounds(s, v, r, x) ==
  IF Has(s, "le") /\ TCmp(v, s.le) > 0 THEN Keep(r, Err("less_than_equal", x, <<<<"le", ShowBound(s.le)>>>>))
  ELSE IF Has(s, "lt") /\ TCmp(v, s.lt) >= 0 THEN Keep(r, Err("less_than", x, <<<<"lt", ShowBound(s.lt)>>>>))
  ELSE IF Has(s, "ge") /\ TCmp(v, s.ge) < 0 THEN Keep(r, Err("greater_than_equal", x, <<<<"ge", ShowBound(s.ge)>>>>))
  ELSE IF Has(s, "gt") /\ TCmp(v, s.gt) <= 0 THEN Keep(r, Err("greater_than", x, <<<<"gt", ShowBound(s.gt)>>>>))
  ELSE r
(* the present day, as the environment tells it *)
Today == IF "PTODAY" \in DOMAIN IOEnv THEN DigInt(IOEnv.PTODAY) ELSE 20270101
AsDayNumber(v) == (v.p[1] * 100 + v.p[2]) * 100 + v.p[3]
NowBound(s, v, r, x, k) ==
  IF ~Has(s, "now_op") THEN r
  ELSE IF s.now_op = "past" /\ AsDayNumber(v) > Today THEN Keep(r, Err0(k \o "_past", x))
  ELSE IF s.now_op = "future" /\ AsDayNumber(v) < Today THEN Keep(r, Err0(k \o "_future", x))
  ELSE r
ZoneBound(s, v, r, x) ==
  IF ~Has(s, "tz_constraint") THEN r
  ELSE LET z == s.tz_constraint IN
       IF z.t = "str" /\ z.s = "naive" THEN (IF v.tz THEN Keep(r, Err0("timezone_naive", x)) ELSE r)
       ELSE IF ~v.tz THEN Keep(r, Err0("timezone_aware", x))
       ELSE IF z.t = "int" /\ z.i # v.off
            THEN Keep(r, Err("timezone_offset", x, << <<"tz_actual", IntV(v.off)>>, <<"tz_expected", IntV(z.i)>> >>))
       ELSE r
Step2(r, F(_)) == IF IsOk(r) THEN F(r) ELSE r
Year0(r, x, k) == IF r.v.p[1] = 0 THEN Keep(r, Parse(k, x, "year 0 is out of range")) ELSE r

Prec(s, c) == SC(s, c.cfg, "microseconds_precision", "microseconds_precision", "truncate")
(* a parsing error of the other type, renamed; nothing when the other type has no use for the input either *)
VDate(s, x, e, c) ==
  LET strict == IsStrict(s, c)
      a == InDate(x, e, strict, c.mode)
      b == InDt(x, e, FALSE, "truncate", c.mode)
      r == IF IsOk(a) \/ strict THEN a
           ELSE IF IsOk(b) THEN (IF SubSeq(b.v.p, 4, 7) = <<0,0,0,0>> THEN OkV([t |-> "date", p |-> SubSeq(b.v.p, 1, 3)], Lax)
                                 ELSE [Err0("date_from_datetime_inexact", x) EXCEPT !.ex = Lax])
           ELSE IF b.errs[1].ty = "datetime_parsing" THEN [b EXCEPT !.errs[1].ty = "date_from_datetime_parsing", !.ex = Lax]
           ELSE [a EXCEPT !.ex = Lax]
  IN Step2(Step2(Step2(r, LAMBDA q : TimeBounds(s, q.v, q, x)), LAMBDA q : NowBound(s, q.v, q, x, "date")), LAMBDA q : Year0(q, x, "date_parsing"))
VDt(s, x, e, c) ==
  LET strict == IsStrict(s, c)
      a == InDt(x, e, strict, Prec(s, c), c.mode)
      b == InDate(x, e, FALSE, c.mode)
      r == IF IsOk(a) \/ strict THEN a
           ELSE IF IsOk(b) THEN OkV([t |-> "dt", p |-> b.v.p \o <<0,0,0,0>>, tz |-> FALSE, off |-> 0], Lax)
           ELSE IF b.errs[1].ty = "date_parsing" THEN [b EXCEPT !.errs[1].ty = "datetime_from_date_parsing", !.ex = Lax]
           ELSE [a EXCEPT !.ex = Lax]
  IN Step2(Step2(Step2(Step2(r, LAMBDA q : TimeBounds(s, q.v, q, x)), LAMBDA q : NowBound(s, q.v, q, x, "datetime")),
                 LAMBDA q : ZoneBound(s, q.v, q, x)), LAMBDA q : Year0(q, x, "datetime_parsing"))
VTimeOfDay(s, x, e, c) ==
  Step2(Step2(InTime(x, e, IsStrict(s, c), Prec(s, c), c.mode), LAMBDA q : TimeBounds(s, q.v, q, x)), LAMBDA q : ZoneBound(s, q.v, q, x))
VTd(s, x, e, c) ==
  Step2(InTd(x, e, IsStrict(s, c), Prec(s, c), c.mode), LAMBDA q : TimeBounds(s, q.v, q, q.v))

TimeTypes == {"date", "time", "datetime", "timedelta"}
VTemporal(s, x, c) ==
  LET e == Eff(x) IN
  CASE s.type = "date" -> VDate(s, x, e, c) [] s.type = "time" -> VTimeOfDay(s, x, e, c)
    [] s.type = "datetime" -> VDt(s, x, e, c) [] s.type = "timedelta" -> VTd(s, x, e, c)
=============================================================================
