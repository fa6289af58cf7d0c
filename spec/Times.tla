-------------------------------- MODULE Times -------------------------------
(***************************************************************************)
(* UTCTime and GeneralizedTime (X.680 46, 47; X.690 8.25, 8.26, 11.7,      *)
(* 11.8). A value is <<year, month, day, hour, minute, second,             *)
(* millisecond or -1, zone kind (0 none, 1 Z, 2 differential), hh, mm>>.   *)
(***************************************************************************)
EXTENDS Bytes

LOCAL D(s, i) == i <= Len(s) /\ s[i] \in 48..57
LOCAL D2(s, i) == D(s, i) /\ D(s, i + 1)
LOCAL N2(s, i) == 10 * (s[i] - 48) + (s[i + 1] - 48)
LOCAL DateOk(mo, d, h, mi, s) == mo \in 1..12 /\ d \in 1..31 /\ h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59

\* the zone at position p: <<>> if malformed
LOCAL Zone(s, p) ==
  IF Len(s) = p /\ s[p] = 90 THEN <<1, 0, 0>>
  ELSE IF Len(s) = p + 4 /\ s[p] \in {43, 45} /\ D2(s, p + 1) /\ D2(s, p + 3)
  THEN LET hh == N2(s, p + 1)
           mm == N2(s, p + 3)
       IN IF s[p] = 43 THEN <<2, hh, mm>>
          ELSE IF hh = 0 THEN <<2, 0, -mm>> ELSE <<2, -hh, mm>>
  ELSE <<>>

\* fraction at position p (the separator): <<ms, next position>>, <<>> if malformed
LOCAL Frac(s, p) ==
  LET n == CHOOSE k \in 0..4 : (k = 4 \/ ~D(s, p + 1 + k)) /\ \A j \in 0..(k - 1) : D(s, p + 1 + j)
  IN IF n = 0 \/ n = 4 THEN <<>>
     ELSE << FoldLeft(LAMBDA a, j : a * 10 + (IF j <= n THEN s[p + j] - 48 ELSE 0), 0, <<1, 2, 3>>), p + 1 + n >>

\* yd digits of year; gen: GeneralizedTime
TimeParse(s, gen) ==
  LET yd == IF gen THEN 4 ELSE 2
      q == yd + 9        \* position after minutes
  IN IF ~(\A i \in 1..(yd + 8) : D(s, i)) \/ q > Len(s) THEN <<>>
     ELSE LET year == IF gen THEN 100 * N2(s, 1) + N2(s, 3) ELSE N2(s, 1)
              mo == N2(s, yd + 1)
              dd == N2(s, yd + 3)
              hh == N2(s, yd + 5)
              mi == N2(s, yd + 7)
              nosec == s[q] \in {43, 45} \/ Len(s) = q
              sec == IF nosec THEN 0 ELSE IF D2(s, q) THEN N2(s, q) ELSE 99
              r == IF nosec THEN q ELSE q + 2
              fr == IF gen /\ ~nosec /\ r <= Len(s) /\ s[r] \in {44, 46} THEN Frac(s, r) ELSE <<-1, r>>
              z == IF fr = <<>> THEN <<>>
                   ELSE IF fr[2] > Len(s) THEN (IF gen THEN <<0, 0, 0>> ELSE <<>>)
                   ELSE Zone(s, fr[2])
          IN IF ~DateOk(mo, dd, hh, mi, sec) \/ z = <<>> THEN <<>>
             ELSE <<year, mo, dd, hh, mi, sec, fr[1]>> \o z

\* DER for GeneralizedTime
GenTimeDer(s) == s # <<>> /\ s[Len(s)] = 90 /\ \A i \in DOMAIN s : s[i] # 44

LOCAL T2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
LOCAL Trim0(s) == LET k == CHOOSE k \in 0..Len(s) : (k = 0 \/ s[k] # 48) /\ \A j \in (k + 1)..Len(s) : s[j] = 48 IN Take(s, k)
\* the canonical content (written with Z whatever the zone: K5)
TimeEnc(v, gen) ==
  (IF gen THEN T2(v[1] \div 100) \o T2(v[1] % 100) ELSE T2(v[1] % 100))
  \o T2(v[2]) \o T2(v[3]) \o T2(v[4]) \o T2(v[5]) \o T2(v[6])
  \o (IF gen /\ v[7] > 0 THEN <<46>> \o Trim0(<<48 + (v[7] \div 100), 48 + ((v[7] \div 10) % 10), 48 + (v[7] % 10)>>) ELSE <<>>)
  \o <<90>>

(*--------------- text, and the moment that a value denotes ---------------*)
LOCAL Abs(n) == IF n < 0 THEN -n ELSE n
TimeText(v, gen) ==
  T2(v[1] \div 100) \o T2(v[1] % 100) \o <<45>> \o T2(v[2]) \o <<45>> \o T2(v[3]) \o <<32>>
  \o T2(v[4]) \o <<58>> \o T2(v[5]) \o <<58>> \o T2(v[6])
  \o (IF v[7] >= 0 THEN <<46, 48 + (v[7] \div 100)>> \o T2(v[7] % 100) ELSE <<>>)
  \o (CASE v[8] = 0 -> IF gen THEN <<>> ELSE <<90>>
         [] v[8] = 1 -> <<90>>
         [] v[8] = 2 -> <<IF v[9] < 0 \/ v[10] < 0 THEN 45 ELSE 43>> \o T2(Abs(v[9])) \o T2(Abs(v[10])))
\* days of the Gregorian calendar since 1970-01-01 (all the constants of a cycle of 400 years, beginning in March)
Days(year, mo, d) ==
  LET y == IF mo <= 2 THEN year - 1 ELSE year
      era == y \div 400
      yoe == y - 400 * era
      doy == ((153 * (IF mo > 2 THEN mo - 3 ELSE mo + 9) + 2) \div 5) + d - 1
  IN era * 146097 + yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy - 719468
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, mo) == CASE mo = 2 -> IF Leap(y) THEN 29 ELSE 28 [] mo \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
\* the offset of the zone in seconds; the sign of a differential is that of its hours
LOCAL Offset(v) == IF v[8] # 2 THEN 0 ELSE 3600 * v[9] + 60 * (IF v[9] < 0 THEN -Abs(v[10]) ELSE IF v[9] > 0 THEN Abs(v[10]) ELSE v[10])
IsMoment(v) == v[3] <= MonthDays(v[1], v[2]) /\ (v[8] = 2 => Abs(v[9]) <= 25 /\ Abs(v[10]) <= 59)
\* <<days since 1970-01-01, second of the day>> in UTC
Instant(v) ==
  LET sec == v[4] * 3600 + v[5] * 60 + v[6] - Offset(v)
  IN <<Days(v[1], v[2], v[3]) + (sec \div 86400), sec % 86400>>
Moment(v) == IF ~IsMoment(v) THEN <<0>> ELSE <<1>> \o Instant(v) \o <<IF v[7] < 0 THEN 0 ELSE v[7], Offset(v)>>
\* the century of a two-digit year (RFC 5280 4.1.2.5.1)
WithCentury(v) == [v EXCEPT ![1] = IF @ >= 50 THEN 1900 + @ ELSE 2000 + @]
=============================================================================
