-------------------------------- MODULE Scalars -------------------------------
(* P15: domains of the custom scalars. Numbers are decimal texts, compared as such,
   because the bounds exceed TLC's integers.                                        *)
EXTENDS JsonVal, Json
VARIABLES c, done
D == [d \in {"0","1","2","3","4","5","6","7","8","9"} |-> CASE d="0"->0 [] d="1"->1 [] d="2"->2 [] d="3"->3 [] d="4"->4 [] d="5"->5 [] d="6"->6 [] d="7"->7 [] d="8"->8 [] OTHER->9]
Ch(s, i) == SubSeq(s, i, i)
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in DOMAIN D
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Strip(SubSeq(s, 2, Len(s))) ELSE s
\* unsigned decimal texts: a <= b
Leq(a0, b0) == LET a == Strip(a0)  b == Strip(b0) IN
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE \/ a = b
       \/ \E i \in 1..Len(a) : D[Ch(a, i)] < D[Ch(b, i)] /\ \A j \in 1..(i-1) : Ch(a, j) = Ch(b, j)
Neg(s) == Len(s) > 0 /\ Ch(s, 1) = "-"
Mag(s) == IF Neg(s) THEN SubSeq(s, 2, Len(s)) ELSE s
IsInt(s) == AllDigits(Mag(s))
\* within [-lo, hi], both magnitudes
Within(s, lo, hi) == IsInt(s) /\ IF Neg(s) THEN Leq(Mag(s), lo) ELSE Leq(s, hi)
Bounds == [Int8 |-> <<"128", "127">>, Int16 |-> <<"32768", "32767">>, Int32 |-> <<"2147483648", "2147483647">>,
           Int64 |-> <<"9223372036854775808", "9223372036854775807">>,
           Int128 |-> <<"170141183460469231731687303715884105728", "170141183460469231731687303715884105727">>,
           UInt8 |-> <<"0", "255">>, UInt16 |-> <<"0", "65535">>, UInt32 |-> <<"0", "4294967295">>,
           UInt64 |-> <<"0", "18446744073709551615">>, UInt128 |-> <<"0", "340282366920938463463374607431768211455">>]
Small == {"Int8", "Int16", "Int32", "UInt8", "UInt16", "UInt32"}
Wide == {"Int64", "Int128", "UInt64", "UInt128"}
Numbers == {"0", "1", "-1", "5", "126", "127", "128", "129", "-127", "-128", "-129", "254", "255", "256", "32767", "32768", "-32768", "-32769",
            "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
            "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
            "18446744073709551615", "18446744073709551616",
            "170141183460469231731687303715884105727", "170141183460469231731687303715884105728",
            "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
            "340282366920938463463374607431768211455", "340282366920938463463374607431768211456"}
\* as JSON numbers only those a JSON reader keeps exact
Exact(s) == Within(s, "9223372036854775808", "18446744073709551615")
OddTexts == {"", " 5", "5 ", "1.0", "1e3", "0x10", "five", "-", "--1", "1_000", "12a"}

Emails == [good |-> {"a@b.co", "valid@email.com", "first.last+tag@sub.example.org"}, bad |-> {" a@b.co", "a@b.co ", "a@b.co,c@d.co", "invalid_email", "@b.co", "a@", "a b@c.de", "a@@b.co", ""}]
Urls == [good |-> {"mailto:a@b.co", "urn:isbn:0451450523", "data:text/plain,hello", "https://tailcall.run/a?b=c", "http://localhost:8080", "ftp://h/x"}, bad |-> {"/relative", "not a url", "", "http://", "tailcall.run", "http://h:99999/"}]
Phones == [good |-> {"+911234567890", "+14155552671"}, bad |-> {"1234", "hello", "", "4155552671"}]
\* dates are assembled from their parts, and well formed exactly when every part is
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m \in {1,3,5,7,8,10,12} THEN 31 ELSE IF m # 2 THEN 30 ELSE IF Leap(y) THEN 29 ELSE 28
Dates == [y : {1900, 2000, 2023, 2024}, m : {0, 2, 4, 12, 13}, d : {0, 1, 28, 29, 30, 31, 32}, h : {0, 23, 24}, s : {0, 59}, z : {"Z", "+05:30", "-00:00", "", "+5", "Z ", "+0530", "+05", " Z"}, f : {"", ".123", "."}]
DateSel(x) == \/ x.h = 0 /\ x.s = 0 /\ x.z = "Z" /\ x.f = ""
              \/ x.y = 2023 /\ x.m = 4 /\ x.d = 30
DateText(x) == ToString(x.y) \o "-" \o Pad2(x.m) \o "-" \o Pad2(x.d) \o "T" \o Pad2(x.h) \o ":00:" \o Pad2(x.s) \o x.f \o x.z
DateOk(x) == x.m \in 1..12 /\ x.d >= 1 /\ x.d <= DaysIn(x.y, x.m) /\ x.h <= 23 /\ x.z \in {"Z", "+05:30", "-00:00"} /\ x.f # "."
DateRecs == {x \in Dates : DateSel(x)}
GoodDates == {DateText(x) : x \in {y \in DateRecs : DateOk(y)}}
BadDates == {DateText(x) : x \in {y \in DateRecs : ~DateOk(y)}} \cup {"2023-04-01", "2023-04-01 now", "", "T", "2023-04-01T00:00", "12:00:00Z"}

Wrong == {Null, <<"b", "true">>, <<"f", "1.25">>, <<"f", "-0.5">>, <<"f", "1.0">>, <<"f", "-3.0">>, <<"f", "0.0">>, <<"a", <<>>>>, <<"a", <<<<"i", "1">>>>>>, <<"o", <<>>>>, <<"o", <<<<"a", <<"i", "1">>>>>>>>}
Texts == OddTexts \cup Emails.good \cup Emails.bad \cup Urls.good \cup Urls.bad \cup Phones.good \cup Phones.bad \cup GoodDates \cup BadDates \cup {"hello", "aGVsbG8=", "é日"}
Values == Wrong \cup {<<"i", n>> : n \in {m \in Numbers : Exact(m)}} \cup {<<"s", n>> : n \in Numbers \cup Texts}
Names == Small \cup Wide \cup {"Email", "PhoneNumber", "Date", "DateTime", "Url", "JSON", "Empty", "Bytes"}
\* which texts a well formed check may be asked about (phone and URL texts are judged only on their own lists)
Judged(n, v) == CASE n = "Email" -> v[1] # "s" \/ v[2] \in Emails.good \cup Emails.bad \cup {"hello"}
                  [] n = "Url" -> v[1] # "s" \/ v[2] \in Urls.good \cup Urls.bad \cup {"hello"}
                  [] n = "PhoneNumber" -> v[1] # "s" \/ v[2] \in Phones.good \cup Phones.bad
                  [] n \in Wide -> ~(v[1] = "s" /\ v[2] \in Phones.good)   \* a leading plus sign is left open
                  [] OTHER -> TRUE
Accept(n, v) ==
  CASE n \in {"JSON", "Empty"} -> TRUE
    [] n = "Bytes" -> v[1] = "s"
    [] n \in Small -> v[1] = "i" /\ Within(v[2], Bounds[n][1], Bounds[n][2])
    [] n \in Wide -> v[1] = "s" /\ Within(v[2], Bounds[n][1], Bounds[n][2])
    [] n = "Email" -> v[1] = "s" /\ v[2] \in Emails.good
    [] n = "Url" -> v[1] = "s" /\ v[2] \in Urls.good
    [] n = "PhoneNumber" -> v[1] = "s" /\ v[2] \in Phones.good
    [] OTHER -> v[1] = "s" /\ v[2] \in GoodDates
\* the names that are scalars without being declared
TypeNames == SetToSeq(Names \cup {"Boolean", "Float", "ID", "Int", "String", "int", "STRING", "Id", "email", "URL", "Int7", "Foo", "", "json", "Strin", "String!", "[Int]"})
Known(n) == n \in Names \cup {"Boolean", "Float", "ID", "Int", "String"}
Init == done = FALSE /\ c \in Names
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET vs == SetToSeq({v \in Values : Judged(c, v)}) IN
           PrintT("@" \o ToJson([in |-> [scalar |-> c, values |-> vs, names |-> TypeNames], known |-> [i \in 1..Len(TypeNames) |-> Known(TypeNames[i])], out |-> [i \in 1..Len(vs) |-> Accept(c, vs[i])]]))
Spec == Init /\ [][Next]_<<c, done>>
\* wider kinds accept whatever narrower ones do
Nested == \A n \in Numbers : /\ Accept("Int8", <<"i", n>>) => Accept("Int16", <<"i", n>>)
                             /\ Accept("Int16", <<"i", n>>) => Accept("Int32", <<"i", n>>)
                             /\ Accept("UInt8", <<"i", n>>) => Accept("UInt16", <<"i", n>>)
                             /\ Accept("Int64", <<"s", n>>) => Accept("Int128", <<"s", n>>)
                             /\ Accept("UInt64", <<"s", n>>) => Accept("UInt128", <<"s", n>>) /\ Accept("Int128", <<"s", n>>)
=============================================================================
