------------------------------- MODULE Dates --------------------------------
(* The Gregorian calendar, days since 1970-01-01 in closed form. *)
EXTENDS Integers
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
RECURSIVE BeforeMonth(_, _)
BeforeMonth(y, m) == IF m = 1 THEN 0 ELSE BeforeMonth(y, m - 1) + MonthDays(y, m - 1)
LeapsThrough(y) == y \div 4 - y \div 100 + y \div 400
Days(y, m, d) == 365 * (y - 1970) + LeapsThrough(y - 1) - LeapsThrough(1969) + BeforeMonth(y, m) + d - 1
=============================================================================
