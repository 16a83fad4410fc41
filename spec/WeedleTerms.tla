---------------------------- MODULE WeedleTerms ----------------------------
(***************************************************************************)
(* The terminal vocabulary of the parser.                                  *)
(*                                                                         *)
(* Input is modelled as a sequence of UTF-8 bytes (0..255): every lexical  *)
(* decision of the parser is taken on ASCII bytes, and UTF-8 is self-      *)
(* synchronising, so byte offsets are exactly the offsets of the `&str`    *)
(* slices a caller of the library can observe.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* ---- strings -> bytes --------------------------------------------------
AsciiTable ==
  " !'#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* position 3 of the table should be a double quote; it is patched below.
Ord1 == [c \in {SubSeq(AsciiTable, k, k) : k \in 1..Len(AsciiTable)} |->
           31 + (CHOOSE k \in 1..Len(AsciiTable) :
                    SubSeq(AsciiTable, k, k) = c /\ k # 3)]
Bytes(str) == [k \in 1..Len(str) |->
                 IF SubSeq(str, k, k) = "\"" THEN 34
                 ELSE IF SubSeq(str, k, k) = "\n" THEN 10
                 ELSE IF SubSeq(str, k, k) = "\t" THEN 9
                 ELSE IF SubSeq(str, k, k) = "\r" THEN 13
                 ELSE Ord1[SubSeq(str, k, k)]]

\* ---- character classes -------------------------------------------------
IsDigit(c)  == c >= 48 /\ c <= 57
IsOct(c)    == c >= 48 /\ c <= 55
IsUpper(c)  == c >= 65 /\ c <= 90
IsLower(c)  == c >= 97 /\ c <= 122
IsAlpha(c)  == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
IsAlnum(c)  == IsAlpha(c) \/ IsDigit(c)
IsHex(c)    == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IsBlank(c)  == c = 32 \/ c = 10 \/ c = 9 \/ c = 13
\* characters that may continue an identifier (and so a keyword boundary must
\* not be followed by one of them)
IsIdCont(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 95 \/ c = 45

\* ---- terminals: <<name of the AST type, spelling, is it a word?>> --------
Punct == <<
  <<"OpenParen", "(">>, <<"CloseParen", ")">>, <<"OpenBracket", "[">>,
  <<"CloseBracket", "]">>, <<"OpenBrace", "{">>, <<"CloseBrace", "}">>,
  <<"Comma", ",">>, <<"Minus", "-">>, <<"Dot", ".">>, <<"Ellipsis", "...">>,
  <<"Colon", ":">>, <<"SemiColon", ";">>, <<"LessThan", "<">>,
  <<"Assign", "=">>, <<"GreaterThan", ">">>, <<"QMark", "?">>,
  <<"Asterisk", "*">> >>

Words == <<
  <<"Or", "or">>, <<"Optional", "optional">>, <<"Async", "async">>,
  <<"Attribute", "attribute">>, <<"Callback", "callback">>,
  <<"Const", "const">>, <<"Deleter", "deleter">>,
  <<"Dictionary", "dictionary">>, <<"Enum", "enum">>, <<"Getter", "getter">>,
  <<"Includes", "includes">>, <<"Inherit", "inherit">>,
  <<"Interface", "interface">>, <<"Iterable", "iterable">>,
  <<"Maplike", "maplike">>, <<"Namespace", "namespace">>,
  <<"Partial", "partial">>, <<"Required", "required">>,
  <<"Setlike", "setlike">>, <<"Setter", "setter">>, <<"Static", "static">>,
  <<"Stringifier", "stringifier">>, <<"Typedef", "typedef">>,
  <<"Unrestricted", "unrestricted">>, <<"Symbol", "symbol">>,
  <<"NegInfinity", "-Infinity">>, <<"ByteString", "ByteString">>,
  <<"DOMString", "DOMString">>, <<"FrozenArray", "FrozenArray">>,
  <<"Infinity", "Infinity">>, <<"NaN", "NaN">>, <<"USVString", "USVString">>,
  <<"Any", "any">>, <<"Boolean", "boolean">>, <<"Byte", "byte">>,
  <<"Double", "double">>, <<"False", "false">>, <<"Float", "float">>,
  <<"Long", "long">>, <<"Null", "null">>, <<"Object", "object">>,
  <<"Octet", "octet">>, <<"Sequence", "sequence">>, <<"Short", "short">>,
  <<"True", "true">>, <<"Unsigned", "unsigned">>,
  <<"Undefined", "undefined">>, <<"Record", "record">>,
  <<"ArrayBuffer", "ArrayBuffer">>, <<"DataView", "DataView">>,
  <<"Int8Array", "Int8Array">>, <<"Int16Array", "Int16Array">>,
  <<"Int32Array", "Int32Array">>, <<"Uint8Array", "Uint8Array">>,
  <<"Uint16Array", "Uint16Array">>, <<"Uint32Array", "Uint32Array">>,
  <<"Uint8ClampedArray", "Uint8ClampedArray">>,
  <<"Float32Array", "Float32Array">>, <<"Float64Array", "Float64Array">>,
  <<"ArrayBufferView", "ArrayBufferView">>,
  <<"BufferSource", "BufferSource">>, <<"Promise", "Promise">>,
  <<"Error", "Error">>, <<"ReadOnly", "readonly">>, <<"Mixin", "mixin">>,
  <<"Implements", "implements">>, <<"LegacyCaller", "legacycaller">>,
  <<"Constructor", "constructor">> >>

Terms == Punct \o Words
TermCount == Len(Terms)
TermNames == {Terms[k][1] : k \in 1..TermCount}
IsWordIx(k) == k > Len(Punct)
\* [name |-> index], bytes and word flag per terminal
TermIx    == [n \in TermNames |-> CHOOSE k \in 1..TermCount : Terms[k][1] = n]
TermBytes == [n \in TermNames |-> Bytes(Terms[TermIx[n]][2])]
TermWord  == [n \in TermNames |-> IsWordIx(TermIx[n])]
TermText  == [n \in TermNames |-> Terms[TermIx[n]][2]]
=============================================================================
