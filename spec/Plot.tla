--------------------------------- MODULE Plot ---------------------------------
(* What the plots show (C28): the folded data over one and a half turns, the profile above its median, the best S/N at every DM, numbers
   rounded to the digits shown, dates of the calendar; and the S/N of a periodogram against its trial periods. *)
EXTENDS Num, FiniteSets, SequencesExt, TLC
\* one period and the first half of the next
Ext(x) == x \o SubSeq(x, 1, Len(x) \div 2)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
\* twice the median
Median2(s) == LET t == TLCEval(Sorted(s)) n == Len(s) IN t[(n + 1) \div 2] + t[(n \div 2) + 1]
ColumnSum(rows, j) == SumF(LAMBDA i : rows[i][j], 1, Len(rows))
Profile(rows) == [j \in 1..Len(rows[1]) |-> ColumnSum(rows, j)]
\* twice the heights of the bars
Heights2(rows) == LET x == TLCEval(Ext(Profile(rows))) m == Median2(x) IN [i \in 1..Len(x) |-> (2 * x[i]) - m]
\* peaks: sequence of <<dm, snr>>.  One point per DM, ascending, at the best S/N found there
Dms(peaks) == {peaks[i][1] : i \in 1..Len(peaks)}
BestAt(peaks, d) == MaxF(LAMBDA i : IF peaks[i][1] = d THEN peaks[i][2] ELSE -1073741824, 1, Len(peaks))
DmCurve(peaks) == LET ds == Sorted(SetToSeq(Dms(peaks))) IN [i \in 1..Len(ds) |-> <<ds[i], BestAt(peaks, ds[i])>>]
\* numbers: <<integer part, billionths>>; shown with k digits after the point: <<integer part, digits read as a number>>
Pow10(k) == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>[k + 1]
Rounded(value, shown, k) ==
    /\ shown[1] - value[1] \in -1..1
    /\ Abs((((shown[1] - value[1]) * 1000000000) - value[2]) + (shown[2] * Pow10(9 - k))) <= (IF k = 0 THEN 500000000 ELSE 5 * Pow10(8 - k)) + 1
\* hours (or degrees), minutes, seconds, hundredths; value in thousandths of a second
Sexagesimal(s) == s[2] \in 0..59 /\ s[3] \in 0..59 /\ s[4] \in 0..99
InHundredths(s) == (((((s[1] * 60) + s[2]) * 60) + s[3]) * 100) + s[4]
AngleShown(sign, value, s) == Sexagesimal(s) /\ Abs((sign * InHundredths(s) * 10) - value) <= 6
\* ---- calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* Modified Julian Day of a date (17 November 1858 is day 0)
Mjd(y, m, d) == LET a == (14 - m) \div 12
                    yy == y + 4800 - a
                    mm == m + (12 * a) - 3 IN
                (((d + (((153 * mm) + 2) \div 5) + (365 * yy) + (yy \div 4)) - (yy \div 100)) + (yy \div 400) - 32045) - 2400001
DateShown(day, ms, y, mo, d, h, mi, s) ==
    /\ mo \in 1..12 /\ d \in 1..MonthDays(y, mo) /\ h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59
    /\ Mjd(y, mo, d) - day \in -1..1
    /\ Abs(((Mjd(y, mo, d) - day) * 86400000) + (((((h * 60) + mi) * 60) + s) * 1000) - ms) <= 501
\* ---- periodogram: snrs[trial][width]
Best(row) == MaxF(LAMBDA i : row[i], 1, Len(row))
PeriodogramCurve(periods, snrs, iwidth) ==
    [i \in 1..Len(periods) |-> <<periods[i], IF iwidth = 0 THEN Best(snrs[i]) ELSE snrs[i][iwidth]>>]
===============================================================================
