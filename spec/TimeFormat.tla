------------------------------- MODULE TimeFormat -------------------------------
(* C29: what a format (character codes) renders a broken-down time to, in the
   "C" locale.  A machine that reads one character a step: mode "text", or
   "spec" after a percent sign.                                               *)
EXTENDS Integers, Sequences, SequencesExt
Digit(n) == 48 + n
Two(n) == <<Digit(n \div 10), Digit(n % 10)>>
Two_(n) == IF n < 10 THEN <<32, Digit(n)>> ELSE Two(n)
Three(n) == <<Digit(n \div 100)>> \o Two(n % 100)
Year(t) == t.year + 1900
Year4(t) == Two(Year(t) \div 100) \o Two(Year(t) % 100)
Hour12(t) == IF t.hour % 12 = 0 THEN 12 ELSE t.hour % 12
Month3 == <<<<74,97,110>>,<<70,101,98>>,<<77,97,114>>,<<65,112,114>>,<<77,97,121>>,<<74,117,110>>,<<74,117,108>>,<<65,117,103>>,<<83,101,112>>,<<79,99,116>>,<<78,111,118>>,<<68,101,99>>>>
MonthRest == <<<<117,97,114,121>>,<<114,117,97,114,121>>,<<99,104>>,<<105,108>>,<<>>,<<101>>,<<121>>,<<117,115,116>>,<<116,101,109,98,101,114>>,<<111,98,101,114>>,<<101,109,98,101,114>>,<<101,109,98,101,114>>>>
Day3 == <<<<83,117,110>>,<<77,111,110>>,<<84,117,101>>,<<87,101,100>>,<<84,104,117>>,<<70,114,105>>,<<83,97,116>>>>
DayRest == <<<<100,97,121>>,<<100,97,121>>,<<115,100,97,121>>,<<110,101,115,100,97,121>>,<<114,115,100,97,121>>,<<100,97,121>>,<<117,114,100,97,121>>>>
AmPm(t) == <<IF t.hour < 12 THEN 65 ELSE 80, 77>>
Time(t) == Two(t.hour) \o <<58>> \o Two(t.min) \o <<58>> \o Two(t.sec)
UsDate(t) == Two(t.mon + 1) \o <<47>> \o Two(t.mday) \o <<47>> \o Two(Year(t) % 100)
\* the conversions by their letter: %% A B C D F H I M R S T U W X Y a b c d e h j m n p r t u w x y
Letters == {37, 65, 66, 67, 68, 70, 72, 73, 77, 82, 83, 84, 85, 87, 88, 89, 97, 98, 99, 100, 101, 104, 106, 109, 110, 112, 114, 116, 117, 119, 120, 121}
Conv(c, t) ==
    CASE c = 37 -> <<37>>
      [] c = 65 -> Day3[t.wday + 1] \o DayRest[t.wday + 1]
      [] c = 66 -> Month3[t.mon + 1] \o MonthRest[t.mon + 1]
      [] c = 67 -> Two(Year(t) \div 100)
      [] c \in {68, 120} -> UsDate(t)
      [] c = 70 -> Year4(t) \o <<45>> \o Two(t.mon + 1) \o <<45>> \o Two(t.mday)
      [] c = 72 -> Two(t.hour)
      [] c = 73 -> Two(Hour12(t))
      [] c = 77 -> Two(t.min)
      [] c = 82 -> Two(t.hour) \o <<58>> \o Two(t.min)
      [] c = 83 -> Two(t.sec)
      [] c \in {84, 88} -> Time(t)
      [] c = 85 -> Two((t.yday + 7 - t.wday) \div 7)
      [] c = 87 -> Two((t.yday + 7 - ((t.wday + 6) % 7)) \div 7)
      [] c = 89 -> Year4(t)
      [] c = 97 -> Day3[t.wday + 1]
      [] c \in {98, 104} -> Month3[t.mon + 1]
      [] c = 99 -> Day3[t.wday + 1] \o <<32>> \o Month3[t.mon + 1] \o <<32>> \o Two_(t.mday) \o <<32>> \o Time(t) \o <<32>> \o Year4(t)
      [] c = 100 -> Two(t.mday)
      [] c = 101 -> Two_(t.mday)
      [] c = 106 -> Three(t.yday + 1)
      [] c = 109 -> Two(t.mon + 1)
      [] c = 110 -> <<10>>
      [] c = 112 -> AmPm(t)
      [] c = 114 -> Two(Hour12(t)) \o <<58>> \o Two(t.min) \o <<58>> \o Two(t.sec) \o <<32>> \o AmPm(t)
      [] c = 116 -> <<9>>
      [] c = 117 -> <<Digit(IF t.wday = 0 THEN 7 ELSE t.wday)>>
      [] c = 119 -> <<Digit(t.wday)>>
      [] c = 121 -> Two(Year(t) % 100)
\* one character read
Read(s, c, t) == IF s.mode = "spec" THEN [mode |-> "text", out |-> s.out \o Conv(c, t)]
                 ELSE IF c = 37 THEN [s EXCEPT !.mode = "spec"]
                 ELSE [s EXCEPT !.out = Append(s.out, c)]
Start == [mode |-> "text", out |-> <<>>]
Render(f, t) == FoldLeft(LAMBDA s, c : Read(s, c, t), Start, f).out
=============================================================================
