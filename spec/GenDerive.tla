------------------------------ MODULE GenDerive ------------------------------
(* Enumerates definitions for the derive macros, with payloads and field values *)
(* for the consistent ones.                                                     *)
EXTENDS UbxDerive, Json, IOUtils
VARIABLE written
Thorough == IOEnv.TIER = "thorough"
Seed == IF IOEnv.SEED = "1" THEN 1 ELSE IF IOEnv.SEED = "2" THEN 2 ELSE 3 + Len(IOEnv.SEED)
(* a small hash, so that every run enumerates the same definitions             *)
H(x, y) == LET z == ((((x % 2000) * 7919) + (y * 10473) + (Seed * 131) + x) % 32749) IN (((z * 48271) % 65521) \div 7)
Pick(x, y, s) == s[(H(x, y) % Len(s)) + 1]

(* ------------------------------------------------------------- fields      *)
SizedSeq == <<"u8", "i8", "u16", "i16", "u32", "i32", "f32", "f64", "[u8; 1]", "[u8; 2]", "[u8; 3]", "[u8; 7]">>
Named(j) == "f" \o ToString(j)
Fld(j, ty, mm, b, o) == [n |-> Named(j), t |-> ty, m |-> mm, by |-> b, o |-> o]
MapsFor(ty, mac) ==
  IF ty \in Numbers THEN <<"-", "-", "alias", "wrap", "fail", "scale">>
  ELSE IF ty \in {"f32", "f64"} THEN <<"-", "alias", "wrap", "fail">>
  ELSE IF mac = "recv" THEN <<"-", "alias", "asref">> ELSE <<"-", "alias">>
Macros == <<"recv", "send", "both">>
At(key, x) == <<key, "int", x, "">>
Header(c, i, key, x) == <<At("class", c), At("id", i), At(key, x)>>
Def(mac, attrs, fs) == [k |-> "packet", m |-> mac, shape |-> "named", ubx |-> 1, attrs |-> attrs, f |-> fs]
FixedDef(x, mac, fs) == Def(mac, Header(H(x, 90) % 256, H(x, 91) % 256, "fixed_payload_len", SumFrom(fs, Len(fs))), fs)
MaxDef(x, mac, fs) == Def(mac, Header(H(x, 90) % 256, H(x, 91) % 256, "max_payload_len", 40 + (H(x, 92) % 900)), fs)
SomeField(x, j, mac) ==
  LET ty == Pick(x, 3*j, SizedSeq) IN Fld(j, ty, Pick(x, 3*j + 1, MapsFor(ty, mac)), 0, H(x, 3*j + 2) % 2)
SomeFields(x, mac, count) == [j \in 1..count |-> SomeField(x, j, mac)]
(* the open field at the end                                                   *)
Open(x, j, mac) == IF mac = "send" THEN Fld(j, "&'a [Item]", "-", 0, 0)
                   ELSE Fld(j, Pick(x, 71, <<"[u8; 0]", "&'a [u8]">>), Pick(x, 72, <<"-", "iter", "iterfail", "alias">>), 0, H(x, 73) % 2)

Types == <<"u8", "i8", "u16", "i16", "u32", "i32", "f32", "f64", "[u8; 1]", "[u8; 2]", "[u8; 3]", "[u8; 4]", "[u8; 7]", "[u8; 300]",
           "[u8; 0]", "&'a [u8]", "u64", "i64", "u128", "bool", "char", "usize", "[u16; 2]", "[i8; 2]", "[u8; LEN]", "[u8; 1 + 1]",
           "(u8, u8)", "Option<u8>", "String", "Other">>
BytesNeeded(ty) == IF WidthOf(ty) >= 0 THEN WidthOf(ty) ELSE 8
(* 1. every type alone, as fixed and as open packet                            *)
F1 == [j \in 1..(3 * Len(Types)) |->
         LET ty == Types[(j-1) \div 3 + 1]
             fs == <<Fld(1, ty, "-", 0, 0)>>
         IN IF j % 3 = 0 THEN Def("recv", Header(1, 2, "max_payload_len", 64), fs)
            ELSE Def(IF j % 3 = 1 /\ ty \notin Unsized THEN "both" ELSE "recv",
                     Header(1, 2, "fixed_payload_len", BytesNeeded(ty)), fs)]
(* 2. pairs of types                                                           *)
F2 == [j \in 1..(Len(SizedSeq) * Len(SizedSeq)) |->
         LET a == SizedSeq[(j-1) \div Len(SizedSeq) + 1]
             b == SizedSeq[((j-1) % Len(SizedSeq)) + 1]
             mac == Macros[(j % 3) + 1]
             fs == <<Fld(1, a, Pick(j, 5, MapsFor(a, mac)), 0, j % 2), Fld(2, b, Pick(j, 6, MapsFor(b, mac)), 0, H(j, 7) % 2)>>
         IN FixedDef(j, mac, fs)]
(* 3. longer packets, fixed and open                                           *)
F3 == [j \in 1..(IF Thorough THEN 360 ELSE 60) |->
         LET mac == Macros[(j % 3) + 1]
             count == H(j, 80) % 7
         IN IF H(j, 81) % 5 < 3 THEN FixedDef(1000 + j, mac, SomeFields(1000 + j, mac, count))
            ELSE IF mac = "both" THEN MaxDef(1000 + j, "recv", SomeFields(1000 + j, "recv", count) \o <<Open(j, count + 1, "recv")>>)
            ELSE MaxDef(1000 + j, mac, SomeFields(1000 + j, mac, count) \o <<Open(j, count + 1, mac)>>)]
(* 4. sized fields: a counting byte, then sized and fixed fields mixed           *)
F4 == [j \in 1..(IF Thorough THEN 200 ELSE 36) |->
         LET x == 3000 + j
             lead == <<Fld(1, "u8", "-", 0, 0), SomeField(x, 2, "recv"), Fld(3, "u8", "-", 0, 0)>>
             body == [q \in 1..(1 + (H(x, 60) % 4)) |->
                        IF q = 1 \/ H(x, 61 + q) % 2 = 0
                        THEN Fld(3 + q, Pick(x, 40 + q, <<"[u8; 0]", "&'a [u8]">>), "sized", IF H(x, 50 + q) % 2 = 0 THEN 1 ELSE 3, H(x, 45 + q) % 2)
                        ELSE SomeField(x, 3 + q, "recv")]
             tail == IF H(x, 66) % 3 = 0 THEN <<Open(x, 4 + Len(body), "recv")>> ELSE <<>>
         IN MaxDef(x, "recv", lead \o body \o tail)]
(* counting bytes that follow a sized field themselves                          *)
F4b == << MaxDef(3901, "recv", <<Fld(1, "u8", "-", 0, 0), Fld(2, "[u8; 0]", "sized", 1, 0), Fld(3, "u8", "-", 0, 0), Fld(4, "[u8; 0]", "sized", 3, 0)>>),
          MaxDef(3902, "recv", <<Fld(1, "u8", "-", 0, 0), Fld(2, "[u8; 0]", "sized", 1, 0), Fld(3, "u8", "-", 0, 0), Fld(4, "[u8; 0]", "sized", 3, 0),
                                 Fld(5, "u16", "wrap", 0, 0), Fld(6, "[u8; 0]", "sized", 3, 0), Fld(7, "[u8; 0]", "iterfail", 0, 0)>>) >>
(* 5. headers                                                                  *)
Two == <<Fld(1, "u8", "-", 0, 0), Fld(2, "u16", "wrap", 0, 0)>>
C0 == At("class", 5)
I0 == At("id", 6)
L0 == At("fixed_payload_len", 3)
X0 == At("max_payload_len", 3)
D0 == <<"flags", "str", 0, "default_for_builder">>
HeadersFixed == <<
  <<C0, I0, L0>>, <<L0, I0, C0>>, <<I0, L0, C0>>, <<C0, I0, L0, D0>>, <<D0, C0, I0, L0>>,
  <<I0, L0>>, <<C0, L0>>, <<C0, I0>>, <<>>, <<L0>>,
  <<C0, I0, L0, X0>>, <<C0, I0, X0, L0>>, <<C0, I0, X0>>,
  <<C0, C0, I0, L0>>, <<C0, I0, I0, L0>>, <<C0, I0, L0, L0>>, <<C0, I0, L0, C0>>, <<C0, I0, X0, X0>>, <<C0, I0, L0, D0, D0>>,
  <<At("class", 256), I0, L0>>, <<At("class", 255), I0, L0>>, <<At("class", 0), I0, L0>>,
  <<C0, At("id", 256), L0>>, <<C0, At("id", 255), L0>>, <<C0, At("id", 0), L0>>, <<C0, At("id", 1000), L0>>,
  <<At("class", -1), I0, L0>>, <<C0, At("id", -1), L0>>, <<C0, I0, At("fixed_payload_len", -3)>>,
  <<C0, I0, At("fixed_payload_len", 2)>>, <<C0, I0, At("fixed_payload_len", 4)>>, <<C0, I0, At("fixed_payload_len", 0)>>,
  <<C0, I0, At("fixed_payload_len", 65539)>>, <<C0, I0, At("fixed_payload_len", 65535)>>, <<C0, I0, At("fixed_payload_len", 259)>>,
  <<C0, I0, At("max_payload_len", 65536)>>, <<C0, I0, At("max_payload_len", 65535)>>,
  <<<<"class", "str", 0, "5">>, I0, L0>>, <<C0, <<"id", "str", 0, "6">>, L0>>, <<C0, I0, <<"fixed_payload_len", "str", 0, "3">>>>,
  <<C0, I0, <<"max_payload_len", "str", 0, "3">>>>,
  <<<<"class", "float", 5, "">>, I0, L0>>, <<C0, I0, L0, <<"flags", "int", 1, "">>>>,
  <<C0, I0, L0, <<"flags", "str", 0, "other_flag">>>>, <<C0, I0, L0, <<"flags", "str", 0, "default">>>>,
  <<C0, I0, L0, At("length", 3)>>, <<C0, I0, L0, At("klass", 5)>>, <<At("klass", 5), I0, L0>>,
  <<C0, I0, L0, <<"default_for_builder", "path", 0, "">>>>, <<<<"class", "path", 0, "">>, I0, L0>>,
  <<C0, I0, L0, At("Class", 5)>>, <<C0, I0, L0, At("fixed_payload_length", 3)>> >>
F5 == [j \in 1..(3 * Len(HeadersFixed)) |-> Def(Macros[(j % 3) + 1], HeadersFixed[(j-1) \div 3 + 1], Two)]
OpenTwo(mac) == <<Fld(1, "u8", "-", 0, 0), IF mac = "send" THEN Fld(2, "&'a [Item]", "-", 0, 0) ELSE Fld(2, "[u8; 0]", "iter", 0, 0)>>
HeadersOpen == <<
  <<C0, I0, X0>>, <<X0, C0, I0>>, <<C0, I0, At("max_payload_len", 65535)>>, <<C0, I0, At("max_payload_len", 65536)>>,
  <<C0, I0, At("max_payload_len", 0)>>, <<C0, I0, X0, X0>>, <<C0, I0, L0>>, <<C0, I0, At("fixed_payload_len", 1)>>,
  <<C0, I0, At("fixed_payload_len", 0)>>, <<C0, I0, X0, L0>>, <<C0, I0>>, <<I0, X0>>, <<C0, X0>>, <<C0, I0, At("max_len", 3)>> >>
F5b == [j \in 1..(2 * Len(HeadersOpen)) |->
          LET mac == IF j % 2 = 0 THEN "recv" ELSE "send" IN Def(mac, HeadersOpen[(j-1) \div 2 + 1], OpenTwo(mac))]
(* 6. lengths off by something, for packets of several shapes                   *)
F6 == [j \in 1..(IF Thorough THEN 200 ELSE 40) |->
         LET x == 6000 + j
             mac == Macros[(j % 3) + 1]
             fs == SomeFields(x, mac, 1 + (H(x, 80) % 5))
             off == Pick(x, 82, <<-2, -1, 0, 1, 2, 4, 8, 256, -256>>)
         IN Def(mac, Header(1, 1, "fixed_payload_len", SumFrom(fs, Len(fs)) + off), fs)]
(* lengths that agree only modulo 2^16 or 2^8                                    *)
F6b == << Def("recv", Header(1, 1, "fixed_payload_len", 1), <<Fld(1, "u8", "-", 0, 0), Fld(2, "[u8; 65536]", "-", 0, 0)>>),
          Def("recv", Header(1, 1, "fixed_payload_len", 0), <<Fld(1, "[u8; 65536]", "-", 0, 0)>>),
          Def("recv", Header(1, 1, "fixed_payload_len", 44), <<Fld(1, "[u8; 300]", "-", 0, 0)>>),
          Def("both", Header(1, 1, "fixed_payload_len", 1), <<Fld(1, "u8", "-", 0, 0), Fld(2, "[u8; 0]", "-", 0, 0)>>),
          Def("recv", Header(1, 1, "max_payload_len", 1), <<Fld(1, "u8", "-", 0, 0), Fld(2, "[u8; 65536]", "-", 0, 0)>>) >>
(* 7. an open field at every place, also with the length of the others           *)
F7 == [j \in 1..48 |->
         LET x == 7000 + j
             count == 2 + (j % 4)
             pos == 1 + ((j \div 4) % count)
             open == Fld(pos, Pick(x, 1, <<"[u8; 0]", "&'a [u8]">>), Pick(x, 2, <<"-", "iter", "iterfail">>), 0, 0)
             fs == [SomeFields(x, "recv", count) EXCEPT ![pos] = open]
         IN IF j % 3 = 0 THEN FixedDef(x, "recv", fs) ELSE MaxDef(x, "recv", fs)]
(* 8. attributes of fields                                                     *)
BadMaps == <<"unknownkey", "sametype", "two", "twofirst", "dupmap", "dupalias", "duplate", "noargs", "badkey">>
F8 == [j \in 1..(2 * Len(BadMaps)) |->
         FixedDef(j, IF j % 2 = 0 THEN "recv" ELSE "both",
                  <<Fld(1, "u8", "-", 0, 0), Fld(2, "u16", BadMaps[(j-1) \div 2 + 1], 0, 0), Fld(3, "u8", "-", 0, 0)>>)]
SameName(fs) == [fs EXCEPT ![2].n = "f1"]
F8b == << FixedDef(1, "recv", SameName(SomeFields(1, "recv", 3))), FixedDef(2, "both", SameName(Two)), FixedDef(3, "send", SameName(Two)),
          [Def("recv", <<C0, I0, L0>>, Two) EXCEPT !.ubx = 0], [Def("recv", <<C0, I0, L0>>, Two) EXCEPT !.ubx = 2],
          [Def("send", <<C0, I0, L0>>, Two) EXCEPT !.ubx = 0], [Def("send", <<C0, I0, L0>>, Two) EXCEPT !.ubx = 2],
          [Def("both", <<C0, I0, L0>>, Two) EXCEPT !.ubx = 0], [Def("both", <<C0, I0, L0>>, Two) EXCEPT !.ubx = 2] >>
       \o [j \in 1..9 |-> [Def(Macros[(j % 3) + 1], <<C0, I0, L0>>, Two) EXCEPT !.shape = <<"tuple", "unit", "enum">>[(j-1) \div 3 + 1]]]
       \o << FixedDef(5, "recv", <<>>), FixedDef(5, "send", <<>>), FixedDef(5, "both", <<>>), MaxDef(5, "recv", <<>>), MaxDef(5, "send", <<>>) >>
Packets20 == F1 \o F2 \o F3 \o F4 \o F4b \o F5 \o F5b \o F6 \o F6b \o F7 \o F8 \o F8b

(* 9. enumerations and bit flags                                               *)
Va(n, x) == <<n, "int", x>>
EDef(u, r, v) == [k |-> "enum", ubx |-> u, repr |-> r, v |-> v]
V3 == <<Va("A", 0), Va("B", 3), Va("C", 255)>>
Full == [j \in 1..256 |-> Va("V" \o ToString(j-1), j-1)]
ExtendAttrs == << <<"from", "rest_reserved">>, <<"from", "into_raw", "rest_reserved">>, <<"rest_reserved", "into_raw", "from">>,
  <<"from_unchecked", "into_raw", "rest_error">>, <<"from_unchecked", "rest_error">>, <<"from_unchecked", "into_raw">>, <<"into_raw">>,
  <<"rest_reserved">>, <<"rest_error">>, <<"into_raw", "rest_error">>, <<"from_unchecked">>,
  <<"from", "rest_error">>, <<"rest_error", "into_raw", "from">>, <<"from">>, <<"from", "into_raw">>,
  <<"from_unchecked", "rest_reserved">>, <<"from", "rest_reserved", "rest_error">>, <<"from", "rest_reserved", "rest_reserved">>,
  <<"from_unchecked", "rest_error", "rest_error">>, <<"from", "from", "rest_reserved">>, <<"from", "from_unchecked", "rest_error">>,
  <<"from_unchecked", "from", "rest_reserved">>, <<"from", "into_raw", "into_raw", "rest_reserved">>,
  <<"from", "rest_reserved", "other">>, <<"into">>, <<"from", "rest">>, <<"-">>, <<"=">> >>
E9 == [j \in 1..Len(ExtendAttrs) |-> EDef(ExtendAttrs[j], "u8", V3)]
      \o [j \in 1..4 |-> EDef(ExtendAttrs[<<1, 4, 14, 12>>[j]], "u8", Full)]
      \o [j \in 1..10 |-> EDef(ExtendAttrs[IF j % 2 = 0 THEN 2 ELSE 4], <<"-", "u16", "i8", "u8, C", "=">>[(j-1) \div 2 + 1], V3)]
      \o [j \in 1..24 |-> EDef(ExtendAttrs[IF j % 2 = 0 THEN 2 ELSE 4], "u8",
            << <<Va("A", 1)>>, <<Va("A", 255), Va("B", 0)>>, <<Va("A", 5), Va("B", 4), Va("C", 3), Va("D", 200)>>,
               <<Va("A", 1), Va("B", 256)>>, <<Va("A", 1), Va("B", -1)>>, <<Va("A", 1), <<"B", "none", 0>>>>,
               <<Va("A", 1), <<"B", "str", 2>>>>, <<Va("A", 1), <<"B", "const", 2>>>>, <<Va("A", 1), <<"B", "tuple", 2>>>>,
               <<Va("A", 1), Va("B", 1)>>, <<Va("A", 1), Va("A", 2)>>, <<Va("A", 1), <<"B", "named", 2>>>> >>[(j-1) \div 2 + 1])]
(* a few with random codes                                                      *)
      \o [j \in 1..(IF Thorough THEN 40 ELSE 8) |->
            EDef(ExtendAttrs[IF j % 2 = 0 THEN 2 ELSE 4], "u8",
                 LET cs == SetToSeq({H(9000 + j, q) % 256 : q \in 1..(1 + (H(9000 + j, 50) % 40))}) IN
                 [q \in 1..Len(cs) |-> Va("V" \o ToString(cs[q]), cs[q])])]
FDef(u, r, v) == [k |-> "flags", ubx |-> u, repr |-> r, v |-> v]
Fl(n, bs) == <<n, "int", bs>>
W3 == <<Fl("A", <<0>>), Fl("B", <<3>>), Fl("C", <<7>>)>>
F9 == [j \in 1..Len(ExtendAttrs) |-> FDef(ExtendAttrs[j], "u8", W3)]
      \o [j \in 1..8 |-> FDef(ExtendAttrs[2], <<"u8", "u16", "u32", "u64", "i8", "i32", "bool", "usize">>[j], W3)]
      \o [j \in 1..36 |-> FDef(ExtendAttrs[2], <<"u8", "u16", "u32">>[(j % 3) + 1],
            << <<Fl("A", <<>>)>>, <<Fl("A", <<0, 1>>)>>, <<Fl("A", <<8>>)>>, <<Fl("A", <<15>>)>>, <<Fl("A", <<16>>)>>, <<Fl("A", <<31>>)>>,
               <<Fl("A", <<32>>)>>, <<Fl("A", <<2>>), Fl("B", <<2>>)>>, <<Fl("A", <<2>>), Fl("A", <<3>>)>>,
               <<<<"A", "str", <<1>>>>>>, <<<<"A", "const", <<1>>>>>>, <<Fl("A", <<1>>), Fl("B", <<5>>), Fl("C", <<7, 6>>)>> >>[(j-1) \div 3 + 1])]
      \o [j \in 1..3 |-> FDef(ExtendAttrs[1], <<"u8", "u16", "u32">>[j],
                           [q \in 1..BitsIn(<<"u8", "u16", "u32">>[j]) |-> Fl("B" \o ToString(q-1), <<q-1>>)])]
(* 10. unions                                                                   *)
P(c, i, len, mx) == <<c, i, len, mx>>
Union(form, ps) == [k |-> "union", form |-> form, packs |-> ps]
PackLists == << <<P(1, 2, 4, 4)>>,
   <<P(1, 2, 4, 4), P(1, 2, 5, 5)>>, <<P(1, 2, 4, 4), P(1, 2, -1, 70)>>, <<P(1, 2, -1, 70), P(1, 2, 4, 4)>>,
   <<P(1, 2, 4, 4), P(1, 3, 4, 4), P(2, 2, 4, 4), P(2, 1, 0, 0)>>, <<P(1, 2, 4, 4), P(1, 2, 4, 4)>>,
   <<P(9, 9, -1, 1000), P(1, 1, 3, 3), P(9, 9, 2, 2), P(9, 8, -1, 900)>>, <<P(1, 1, 0, 0)>>,
   <<P(0, 0, 1, 1), P(255, 255, -1, 65535), P(0, 255, 2, 2), P(255, 0, 8, 8)>> >>
U10 == [j \in 1..Len(PackLists) |-> Union("good", PackLists[j])]
       \o [j \in 1..6 |-> Union(<<"nounknown", "struct", "nobrace", "path", "unknownlast", "equals">>[j], PackLists[2])]

AllDefs == Packets20 \o E9 \o F9 \o U10
Chosen == SelectSeq(AllDefs, Decided)

(* ---------------------------------------------------- payloads and values  *)
Pat(n, a) == [j \in 1..n |-> (a + j * 37) % 256]
Spread(d) == SumFrom(d.f, Len(d.f)) + 3 * Cardinality({j \in 1..Len(d.f) : d.f[j].m = "sized"})
(* a payload with field j beginning with 238                                    *)
Spoiled(d, pl) == {[pl EXCEPT ![q] = 238] : q \in {StartOf(d, j, pl) + 1 : j \in {i \in 1..Len(d.f) : Holds(d, pl)}} \cap 1..Len(pl)}
Payloads(d) ==
  LET full == Spread(d)
      base == SumFrom(d.f, Len(d.f))
      lens == {full, full + 1, full + 5, base, IF full > 0 THEN full - 1 ELSE 0, IF base > 0 THEN base - 1 ELSE 0, 0, 1, full + 16}
              \cup (IF full < 30 THEN 0..full ELSE {})
      plain == {Pat(n, a) : n \in lens, a \in {0, 17}}
      good == {pl \in {Pat(full + x, a) : x \in {0, 1, 6}, a \in {0, 17, 101, 200}} : Holds(d, pl)}
  IN plain \cup good \cup UNION {Spoiled(d, pl) : pl \in good}
     \cup {[j \in 1..full |-> 255], [j \in 1..full |-> 128], [j \in 1..full |-> 0], [j \in 1..full |-> 238]}
Values(d) ==
  LET one(a) == [j \in 1..Len(d.f) |-> IF WidthOf(d.f[j].t) > 0 THEN Pat(WidthOf(d.f[j].t), a + 29 * j) ELSE Pat((a + j) % 5, a)]
      same(b) == [j \in 1..Len(d.f) |-> IF WidthOf(d.f[j].t) > 0 THEN [q \in 1..WidthOf(d.f[j].t) |-> b] ELSE <<>>]
  IN {one(0), one(13), one(90), same(0), same(255)}
     \cup {[same(0) EXCEPT ![j] = IF WidthOf(d.f[j].t) > 0 THEN [q \in 1..WidthOf(d.f[j].t) |-> q % 256] ELSE <<1, 2, 3>>] : j \in 1..Len(d.f)}
Frames20(d) ==
  {<<d.packs[j][1], d.packs[j][2], Pat(n, 5)>> : j \in 1..Len(d.packs), n \in {0, 1, 2, 3, 4, 5, 8, 9}}
  \cup {<<c, i, Pat(n, 7)>> : c \in {0, 1, 2, 9, 255}, i \in {0, 1, 2, 9, 255}, n \in {2, 4}}
Scenario(d) ==
  LET ok == Consistent(d) IN
  [d |-> d, ok |-> ok,
   pls |-> IF ok /\ d.k = "packet" /\ d.m # "send" THEN SetToSeq(Payloads(d)) ELSE <<>>,
   ins |-> IF ok /\ d.k = "packet" /\ d.m # "recv" THEN SetToSeq(Values(d)) ELSE <<>>,
   frames |-> IF ok /\ d.k = "union" THEN SetToSeq(Frames20(d)) ELSE <<>>]
ASSUME ndJsonSerialize(IOEnv.OUT, [j \in 1..Len(Chosen) |-> Scenario(Chosen[j])])
ASSUME PrintT(<<Len(AllDefs), Len(Chosen), Cardinality({j \in 1..Len(Chosen) : Consistent(Chosen[j])})>>)
Spec == written = TRUE /\ [][FALSE]_written
=============================================================================
