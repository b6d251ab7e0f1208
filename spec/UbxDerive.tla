------------------------------- MODULE UbxDerive -------------------------------
(***************************************************************************)
(* The definition language of the derive macros (C20): which definitions   *)
(* are consistent, and what an accepted one means.                         *)
(*                                                                         *)
(* A packet definition (k = "packet"):                                     *)
(*   m       macro: "recv", "send" or "both"                               *)
(*   shape   "named", "tuple", "unit" (structures) or "enum"               *)
(*   ubx     number of #[ubx(...)] attributes (the second repeats the id)  *)
(*   attrs   <<key, kind of literal, number, text>>, in order              *)
(*   f       fields [n |-> name, t |-> type, m |-> mapping, by |-> index   *)
(*           of the field that gives the size, o |-> order of its keys]    *)
(* An enumeration (k = "enum"): ubx (sequence of keys, <<"-">> when the     *)
(*   attribute is absent), repr, v: variants <<name, kind, value>>         *)
(* Bit flags (k = "flags"): ubx, repr, v: constants <<name, kind, bits>>   *)
(* A union (k = "union"): form, packs: packets <<class, id, length, max>>  *)
(***************************************************************************)
EXTENDS UbxBuild, FiniteSets

(* ------------------------------------------------------------- the types   *)
WidthOf(ty) ==
  CASE ty \in {"u8", "i8", "[u8; 1]"} -> 1
    [] ty \in {"u16", "i16", "[u8; 2]"} -> 2
    [] ty \in {"u32", "i32", "f32", "[u8; 4]"} -> 4
    [] ty = "[u8; 3]" -> 3
    [] ty = "[u8; 7]" -> 7
    [] ty = "f64" -> 8
    [] ty = "[u8; 300]" -> 300
    [] ty = "[u8; 65536]" -> 65536
    [] ty \in {"[u8; 0]", "&'a [u8]", "&'a [Item]"} -> 0
    [] OTHER -> -1
Numbers == {"u8", "i8", "u16", "i16", "u32", "i32"}
Arrays == {"[u8; 1]", "[u8; 2]", "[u8; 3]", "[u8; 4]", "[u8; 7]", "[u8; 300]", "[u8; 65536]"}
Sized == Numbers \cup {"f32", "f64"} \cup Arrays
Unsized == {"[u8; 0]", "&'a [u8]"}

(* ---------------------------------------------------------- the mappings   *)
(*  "-"       none                                                          *)
(*  "alias"   alias = a_<name>                                              *)
(*  "wrap"    map_type                                                      *)
(*  "fail"    map_type, may_fail: valid unless its first byte is 238         *)
(*  "scale"   map_type = f64, scale = 0.5, alias = a_<name>                  *)
(*  "asref"   an array mapped by reference                                   *)
(*  "iter"    an unsized field mapped to a view of its bytes                 *)
(*  "iterfail" may_fail: valid unless it begins with 238                     *)
(*  "sized"   an unsized field with size_fn                                  *)
MappingOk(x) ==
  CASE x.m \in {"-", "alias"} -> TRUE
    [] x.m \in {"wrap", "fail"} -> x.t \in Sized \ Arrays
    [] x.m = "scale" -> x.t \in Numbers
    [] x.m = "asref" -> x.t \in Arrays
    [] x.m \in {"iter", "iterfail", "sized"} -> x.t \in Unsized
    [] OTHER -> FALSE     \* unknown key, map to the same type, attribute or key given twice
(* Definitions about whose consistency nothing is said: mappings of kinds     *)
(* their field is not meant for.                                              *)
Decided(d) ==
  d.k # "packet" \/ \A j \in 1..Len(d.f) :
     LET x == d.f[j] IN
     /\ x.m \in {"wrap", "fail", "scale", "asref", "iter", "iterfail", "sized"} => WidthOf(x.t) < 0 \/ MappingOk(x)
     /\ x.m = "sized" => x.by \in 1..(j-1) /\ d.f[x.by].t = "u8" /\ d.f[x.by].m = "-"
     /\ d.m # "recv" => x.t \notin Unsized /\ x.m # "asref"
     /\ d.m # "send" => x.t # "&'a [Item]"

(* ------------------------------------------------------------ consistency  *)
Keys(d) == {d.attrs[j][1] : j \in 1..Len(d.attrs)}
Attr(d, key) == d.attrs[CHOOSE j \in 1..Len(d.attrs) : d.attrs[j][1] = key]
AttrOk(a) ==
  CASE a[1] \in {"class", "id"} -> a[2] = "int" /\ a[3] \in 0..255
    [] a[1] \in {"fixed_payload_len", "max_payload_len"} -> a[2] = "int" /\ a[3] \in 0..65535
    [] a[1] = "flags" -> a[2] = "str" /\ a[4] = "default_for_builder"
    [] OTHER -> FALSE
HeaderOk(d) ==
  /\ d.ubx = 1
  /\ \A j \in 1..Len(d.attrs) : AttrOk(d.attrs[j])
  /\ Cardinality(Keys(d)) = Len(d.attrs)
  /\ {"class", "id"} \subseteq Keys(d)
  /\ Cardinality({"fixed_payload_len", "max_payload_len"} \cap Keys(d)) = 1
RECURSIVE SumFrom(_, _)
SumFrom(fs, j) == IF j = 0 THEN 0 ELSE SumFrom(fs, j-1) + WidthOf(fs[j].t)
AllSized(d) == \A j \in 1..Len(d.f) : WidthOf(d.f[j].t) > 0
NameOf(x) == IF x.m \in {"alias", "scale"} THEN "a_" \o x.n ELSE x.n
FieldsOk(d) ==
  /\ \A j \in 1..Len(d.f) : WidthOf(d.f[j].t) >= 0 /\ MappingOk(d.f[j])
  /\ Cardinality({NameOf(d.f[j]) : j \in 1..Len(d.f)}) = Len(d.f)
  /\ \A j \in 1..(Len(d.f) - 1) : WidthOf(d.f[j].t) > 0 \/ d.f[j].m = "sized"
  /\ IF "fixed_payload_len" \in Keys(d) THEN AllSized(d) /\ SumFrom(d.f, Len(d.f)) = Attr(d, "fixed_payload_len")[3]
     ELSE ~AllSized(d)
PacketOk(d) == d.shape = "named" /\ HeaderOk(d) /\ FieldsOk(d)

KnownKeys == {"from", "from_unchecked", "into_raw", "rest_reserved", "rest_error"}
Has(d, key) == \E j \in 1..Len(d.ubx) : d.ubx[j] = key
Times(d, keys) == Cardinality({j \in 1..Len(d.ubx) : d.ubx[j] \in keys})
ExtendOk(d) ==
  /\ \A j \in 1..Len(d.ubx) : d.ubx[j] \in KnownKeys
  /\ Times(d, {"from", "from_unchecked"}) <= 1
  /\ Times(d, {"into_raw"}) <= 1
  /\ Times(d, {"rest_reserved", "rest_error"}) <= 1
  /\ ~(Has(d, "from") /\ Has(d, "rest_error"))
Distinct(s) == Cardinality(Range(s)) = Len(s)
EnumOk(d) ==
  /\ ExtendOk(d)
  /\ d.repr = "u8"
  /\ \A j \in 1..Len(d.v) : d.v[j][2] = "int" /\ d.v[j][3] \in 0..255
  /\ Distinct([j \in 1..Len(d.v) |-> d.v[j][3]]) /\ Distinct([j \in 1..Len(d.v) |-> d.v[j][1]])
  /\ ~(Has(d, "from_unchecked") /\ Has(d, "rest_reserved"))
  (* a total conversion needs a variant for every value                       *)
  /\ Has(d, "from") => Has(d, "rest_reserved") \/ Len(d.v) = 256
BitsIn(r) == CASE r = "u8" -> 8 [] r = "u16" -> 16 [] r = "u32" -> 32 [] OTHER -> 0
FlagsOk(d) ==
  /\ ExtendOk(d)
  /\ Has(d, "rest_reserved") /\ ~Has(d, "from_unchecked")
  /\ d.repr \in {"u8", "u16", "u32"}
  /\ \A j \in 1..Len(d.v) : d.v[j][2] = "int" /\ Len(d.v[j][3]) = 1 /\ d.v[j][3][1] < BitsIn(d.repr)
  /\ Distinct([j \in 1..Len(d.v) |-> d.v[j][3]]) /\ Distinct([j \in 1..Len(d.v) |-> d.v[j][1]])
Consistent(d) ==
  CASE d.k = "packet" -> PacketOk(d)
    [] d.k = "enum" -> EnumOk(d)
    [] d.k = "flags" -> FlagsOk(d)
    [] d.k = "union" -> d.form = "good"

(* ------------------------------------------------- what a packet means      *)
Fixed(d) == "fixed_payload_len" \in Keys(d)
Meta(d) == <<Attr(d, "class")[3], Attr(d, "id")[3],
             IF Fixed(d) THEN Attr(d, "fixed_payload_len")[3] ELSE -1,
             IF Fixed(d) THEN Attr(d, "fixed_payload_len")[3] ELSE Attr(d, "max_payload_len")[3]>>
(* where field j begins and how many bytes it has: size_fn counts one to      *)
(* three bytes from the field it names                                        *)
SizeBy(b) == 1 + (b % 3)
RECURSIVE StartOf(_, _, _), SizeOf(_, _, _)
SizeOf(d, j, pl) ==
  IF WidthOf(d.f[j].t) > 0 THEN WidthOf(d.f[j].t)
  ELSE IF d.f[j].m = "sized" THEN SizeBy(pl[StartOf(d, d.f[j].by, pl) + 1])
  ELSE Len(pl) - StartOf(d, j, pl)
StartOf(d, j, pl) == IF j = 1 THEN 0 ELSE StartOf(d, j-1, pl) + SizeOf(d, j-1, pl)
FieldBytesOf(d, j, pl) == Slice(pl, StartOf(d, j, pl), SizeOf(d, j, pl))
(* the payload holds every fixed field and every sized one                    *)
Holds(d, pl) ==
  IF Fixed(d) THEN Len(pl) = SumFrom(d.f, Len(d.f))
  ELSE LET fixedpart == SumFrom(d.f, Len(d.f))
           sized == {j \in 1..Len(d.f) : d.f[j].m = "sized"} IN
       /\ Len(pl) >= fixedpart
       /\ \A j \in 1..Len(d.f) :      \* in order, so that the sizes can be read
            (\A i \in sized : i < j => d.f[i].by < i) =>
               LET need == FoldLeft(LAMBDA a, i : a + (IF d.f[i].m = "sized" THEN SizeBy(pl[StartOf(d, d.f[i].by, pl) + 1]) ELSE 0),
                                    0, [i \in 1..j |-> i])
               IN Len(pl) >= fixedpart + need
ValidFor(d, pl) ==
  /\ Holds(d, pl)
  /\ \A j \in 1..Len(d.f) :
       d.f[j].m \in {"fail", "iterfail"} =>
         LET b == FieldBytesOf(d, j, pl) IN b = <<>> \/ b[1] # 238
(* the accessors in order: <<name, value>>                                    *)
Seen(d, j, pl) ==
  LET x == d.f[j]
      b == FieldBytesOf(d, j, pl)
  IN CASE x.m \in {"-", "alias"} -> << <<NameOf(x), b>> >>
       [] x.m = "scale" -> << <<NameOf(x) \o "_raw", b>>, <<NameOf(x), Wide(x.t, b)>> >>
       [] x.m \in {"wrap", "fail", "asref"} -> << <<x.n \o "_raw", b>>, <<x.n, b>> >>
       [] OTHER -> << <<x.n, b>> >>
SeenAll(d, pl) == Cat([j \in 1..Len(d.f) |-> Seen(d, j, pl)])

(* ------------------------------------------------ what a builder makes      *)
(* ins: the raw bytes of every field; an item of the last, open field t has   *)
(* two bytes, <<t, 255 - t>>                                                  *)
BuiltField(d, j, ins) == IF WidthOf(d.f[j].t) > 0 THEN ins[j]
                         ELSE Cat([i \in 1..Len(ins[j]) |-> <<ins[j][i], 255 - ins[j][i]>>])
BuiltPacket(d, ins) ==
  FrameOf(Attr(d, "class")[3], Attr(d, "id")[3], Cat([j \in 1..Len(d.f) |-> BuiltField(d, j, ins)]))

(* --------------------------------------- enumerations, flags and unions     *)
Codes20(d) == {d.v[j][3] : j \in 1..Len(d.v)}
EnumName(d, c) == IF c \in Codes20(d) THEN d.v[CHOOSE j \in 1..Len(d.v) : d.v[j][3] = c][1]
                  ELSE "Reserved" \o ToString(c)
Dispatched(d, c, i, pl) ==
  LET S == {j \in 1..Len(d.packs) : d.packs[j][1] = c /\ d.packs[j][2] = i
                                    /\ IF d.packs[j][3] >= 0 THEN Len(pl) = d.packs[j][3]
                                       ELSE Len(pl) >= 1}
  IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A q \in S : j <= q
Longest(d) == FoldLeft(LAMBDA a, p : IF p[4] > a THEN p[4] ELSE a, 0, d.packs)
=============================================================================
