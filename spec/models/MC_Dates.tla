------------------------------ MODULE MC_Dates ------------------------------
(* The calendar ticking day by day from 1970-01-01; the closed form of Dates      *)
(* always gives the number of days passed.                                        *)
EXTENDS Dates, TLC
CONSTANT LastYear
VARIABLES y, m, d, count
Init == y = 1970 /\ m = 1 /\ d = 1 /\ count = 0
Next == /\ y <= LastYear /\ count' = count + 1
        /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED << y, m >>
           ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ UNCHANGED y ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Closed == count = Days(y, m, d)
=============================================================================
