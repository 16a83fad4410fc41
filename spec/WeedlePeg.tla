----------------------------- MODULE WeedlePeg -----------------------------
(***************************************************************************)
(* Big-step semantics: what one public parse call returns.                 *)
(*                                                                         *)
(* Eval(s, x, i) is the outcome of parsing grammar node x on input s at    *)
(* byte position i (1-based): [p |-> q, a |-> ast, l |-> leaf offsets]     *)
(* with q the position after the match, or q = 0 when there is no match.   *)
(***************************************************************************)
EXTENDS WeedleGrammar

Fail == [p |-> 0, a |-> <<>>, l |-> <<>>]

\* ---- lexical layer -------------------------------------------------------
\* character classes as 256-entry tables (tab[c + 1])
DigitTab   == [c \in 1..256 |-> IsDigit(c - 1)]
OctTab     == [c \in 1..256 |-> IsOct(c - 1)]
HexTab     == [c \in 1..256 |-> IsHex(c - 1)]
IdTab      == [c \in 1..256 |-> IsIdCont(c - 1)]
LineTab    == [c \in 1..256 |-> c - 1 # 10]     \* anything but a newline
TriviaTab  == [c \in 1..256 |-> IsBlank(c - 1) \/ c - 1 = 47]
StringTab  == [c \in 1..256 |-> c - 1 # 34]     \* anything but a double quote

\* (Loops are written as recursive functions over TLC's universal set Any, not as
\* recursive operators: TLC evaluates them in a short context, which makes the
\* cost of a step independent of the depth of the recursion.)
SkipF[s \in Any, i \in Any, tab \in Any] ==
  IF i <= Len(s) /\ tab[s[i] + 1] THEN SkipF[s, i + 1, tab] ELSE i
SkipWhile(s, i, tab) == SkipF[s, i, tab]

At(s, i, c) == i <= Len(s) /\ s[i] = c

\* first position q >= i with s[q] = "*" and s[q+1] = "/"; 0 if there is none
FindClose[s \in Any, i \in Any] ==
  IF i + 1 > Len(s) THEN 0
  ELSE IF s[i] = 42 /\ s[i + 1] = 47 THEN i
  ELSE FindClose[s, i + 1]

\* Trivia: blanks, line comments (to the end of the line or of the input) and
\* closed block comments, in any order and number.
SpF[s \in Any, i \in Any] ==
  IF i > Len(s) THEN i
  ELSE IF IsBlank(s[i]) THEN SpF[s, i + 1]
  ELSE IF s[i] = 47 /\ i < Len(s) THEN
    IF s[i + 1] = 47 THEN SpF[s, SkipWhile(s, i + 2, LineTab)]
    ELSE IF s[i + 1] = 42 THEN
      LET q == FindClose[s, i + 2] IN IF q = 0 THEN i ELSE SpF[s, q + 2]
    ELSE i
  ELSE i
Sp(s, i) == IF i <= Len(s) /\ TriviaTab[s[i] + 1] THEN SpF[s, i] ELSE i

\* Each scanner returns <<start, end>> of the token text, or <<0, 0>>.
NoTok == <<0, 0>>
ScanIdentifier(s, i) ==
  LET j == IF At(s, i, 95) THEN i + 1 ELSE i IN
  IF j <= Len(s) /\ IsAlpha(s[j]) THEN <<j, SkipWhile(s, j + 1, IdTab)>> ELSE NoTok

AfterSign(s, i) == IF At(s, i, 45) THEN i + 1 ELSE i
ScanDec(s, i) ==
  LET j == AfterSign(s, i) IN
  IF j <= Len(s) /\ IsDigit(s[j]) /\ s[j] # 48 THEN <<i, SkipWhile(s, j + 1, DigitTab)>> ELSE NoTok
ScanHex(s, i) ==
  LET j == AfterSign(s, i)
      k == SkipWhile(s, j + 2, HexTab)
  IN IF At(s, j, 48) /\ (At(s, j + 1, 120) \/ At(s, j + 1, 88)) /\ k > j + 2
     THEN <<i, k>> ELSE NoTok
ScanOct(s, i) ==
  LET j == AfterSign(s, i) IN
  IF At(s, j, 48) THEN <<i, SkipWhile(s, j + 1, OctTab)>> ELSE NoTok
\* -?(([0-9]+\.[0-9]*|[0-9]*\.[0-9]+)([Ee][+-]?[0-9]+)?|[0-9]+[Ee][+-]?[0-9]+)
ScanExp(s, k) ==   \* position after an exponent part starting at k; 0 if none
  IF At(s, k, 101) \/ At(s, k, 69) THEN
    LET m == IF At(s, k + 1, 43) \/ At(s, k + 1, 45) THEN k + 2 ELSE k + 1
        q == SkipWhile(s, m, DigitTab)
    IN IF q > m THEN q ELSE 0
  ELSE 0
ScanFloat(s, i) ==
  LET j  == AfterSign(s, i)
      d1 == SkipWhile(s, j, DigitTab)                 \* integer digits j..d1-1
      d2 == SkipWhile(s, d1 + 1, DigitTab)            \* fraction digits, if s[d1] = "."
  IN IF At(s, d1, 46) /\ (d1 > j \/ d2 > d1 + 1)
     THEN LET x == ScanExp(s, d2) IN <<i, IF x = 0 THEN d2 ELSE x>>
     ELSE IF d1 > j THEN LET x == ScanExp(s, d1) IN IF x = 0 THEN NoTok ELSE <<i, x>>
     ELSE NoTok
ScanString(s, i) ==
  IF At(s, i, 34) THEN
    LET q == SkipWhile(s, i + 1, StringTab) IN IF q <= Len(s) THEN <<i + 1, q>> ELSE NoTok
  ELSE NoTok

Scan(n, s, i) ==
  CASE n = "Identifier"    -> ScanIdentifier(s, i)
    [] n = "StringLit"     -> ScanString(s, i)
    [] n = "DecLit"        -> ScanDec(s, i)
    [] n = "HexLit"        -> ScanHex(s, i)
    [] n = "OctLit"        -> ScanOct(s, i)
    [] n = "FloatValueLit" -> ScanFloat(s, i)

\* byte offsets are 0-based for observers; the place of an empty text is not
\* observable and is reported as (-1, -1)
Leaf(b, e) == IF b = e THEN <<-1, -1>> ELSE <<b - 1, e - 1>>

EvalLex(s, n, i) ==
  LET k == Sp(s, i)
      t == Scan(n, s, k)
  IN IF t[1] = 0 THEN Fail
     ELSE [p |-> Sp(s, IF n = "StringLit" THEN t[2] + 1 ELSE t[2]),
           a |-> <<n, "@">>, l |-> Leaf(t[1], t[2])]

EvalTerm(s, e, i) ==
  LET k == Sp(s, i)
      q == k + e.len
  IN IF q - 1 <= Len(s) /\ s[k] = e.b[1] /\ SubSeq(s, k, q - 1) = e.b
        /\ ~(e.w /\ q <= Len(s) /\ IsIdCont(s[q]))
     THEN [p |-> Sp(s, q), a |-> <<e.n>>, l |-> <<>>] ELSE Fail

\* ---- the compiled grammar: a table of nodes, children given by index ------
ProdNames == {AllProductions[k][1] : k \in 1..Len(AllProductions)}
ProdIx == [n \in ProdNames |->
             CHOOSE k \in 1..Len(AllProductions) : AllProductions[k][1] = n]

\* Flat(e, tab) appends the nodes of e to tab; the last node is e itself.
RECURSIVE Flat(_, _), FlatList(_, _, _, _)
FlatList(es, k, tab, ids) ==
  IF k > Len(es) THEN [tab |-> tab, ids |-> ids]
  ELSE LET t == Flat(es[k], tab)
       IN FlatList(es, k + 1, t, Append(ids, Len(t)))
Flat(e, tab) ==
  CASE e.op = "term" -> Append(tab, [op |-> "term", n |-> e.n, b |-> TermBytes[e.n],
                                     len |-> Len(TermBytes[e.n]), w |-> TermWord[e.n]])
    [] e.op = "ref"  -> Append(tab, [op |-> "ref", n |-> e.n, ix |-> ProdIx[e.n]])
    [] e.op = "lex"  -> Append(tab, e)
    [] e.op \in {"opt", "many"} ->
         LET t == Flat(e.e, tab) IN Append(t, [op |-> e.op, e |-> Len(t)])
    [] e.op = "node" -> LET r == FlatList(e.f, 1, tab, <<>>)
                        IN Append(r.tab, [op |-> "node", n |-> e.n, f |-> r.ids,
                                          nn |-> IF e.n = "" THEN <<>> ELSE <<e.n>>])
    [] e.op = "alt"  -> LET r == FlatList(e.v, 1, tab, <<>>)
                        IN Append(r.tab, [op |-> "alt", n |-> e.n, t |-> e.t, v |-> r.ids])
    [] e.op = "sep"  -> LET r == FlatList(<<e.e, e.s>>, 1, tab, <<>>)
                        IN Append(r.tab, [op |-> "sep", n |-> e.n, e |-> r.ids[1],
                                          s |-> r.ids[2], sn |-> e.s.n,
                                          min |-> e.min, trail |-> e.trail])
    [] e.op = "guard" -> LET r == FlatList(<<e.o, e.d>> \o e.m, 1, tab, <<>>)
                         IN Append(r.tab, [op |-> "guard", o |-> r.ids[1], d |-> r.ids[2],
                                           m |-> SubSeq(r.ids, 3, Len(r.ids))])
Compiled == FlatList([k \in 1..Len(AllProductions) |-> AllProductions[k][2]], 1, <<>>, <<>>)
NT   == Compiled.tab          \* node table
Root == Compiled.ids          \* node of each production
Node0(n) == Root[ProdIx[n]]   \* node of a named production

\* ---- which bytes can start a node ------------------------------------------
\* The language has no left recursion, so both recursions are well founded.
LexNames == {"Identifier", "StringLit", "DecLit", "HexLit", "OctLit", "FloatValueLit"}
Digits   == 48..57
LexFirst == [n \in LexNames |->
  CASE n = "Identifier" -> (65..90) \cup (97..122) \cup {95}
    [] n = "StringLit"  -> {34}
    [] n = "DecLit"     -> Digits \cup {45}
    [] n = "HexLit"     -> {45, 48}
    [] n = "OctLit"     -> {45, 48}
    [] n = "FloatValueLit" -> Digits \cup {45, 46}]

\* [nul |-> may match without consuming a token, set |-> first bytes]
RECURSIVE First(_), FirstSeq(_, _), FirstAlt(_, _)
FirstSeq(fs, k) ==
  IF k > Len(fs) THEN [nul |-> TRUE, set |-> {}]
  ELSE LET h == First(fs[k])
       IN IF ~h.nul THEN h
          ELSE LET r == FirstSeq(fs, k + 1) IN [nul |-> r.nul, set |-> h.set \cup r.set]
FirstAlt(vs, k) ==
  IF k > Len(vs) THEN [nul |-> FALSE, set |-> {}]
  ELSE LET h == First(vs[k])
           r == FirstAlt(vs, k + 1)
       IN [nul |-> h.nul \/ r.nul, set |-> h.set \cup r.set]
First(x) ==
  LET e == NT[x] IN
  CASE e.op = "term" -> [nul |-> FALSE, set |-> {e.b[1]}]
    [] e.op = "lex"  -> [nul |-> FALSE, set |-> LexFirst[e.n]]
    [] e.op = "ref"  -> First(Root[e.ix])
    [] e.op \in {"opt", "many"} -> [nul |-> TRUE, set |-> First(e.e).set]
    [] e.op = "node" -> FirstSeq(e.f, 1)
    [] e.op = "alt"  -> FirstAlt(e.v, 1)
    [] e.op = "sep"  -> LET h == First(e.e)
                        IN [nul |-> e.min = 0 \/ h.nul, set |-> h.set]
    [] e.op = "guard" -> LET h == First(e.o)
                             r == FirstSeq(e.m, 1)
                         IN [nul |-> r.nul, set |-> h.set \cup r.set]
FirstTab == [x \in 1..Len(NT) |->
               LET f == First(x) IN [c \in 1..257 |-> f.nul \/ (c - 1) \in f.set]]

\* Can node x match at all when the next token starts with byte s[i]?  This only
\* prunes choices that must fail; configurations that check the specification
\* itself replace it by AlwaysPossible (and both must agree).
Possible(s, i, x) ==
  LET k == Sp(s, i) IN FirstTab[x][IF k > Len(s) THEN 257 ELSE s[k] + 1]
AlwaysPossible(s, i, x) == TRUE

\* ---- syntactic layer -----------------------------------------------------
RECURSIVE Eval(_, _, _)
TryEval(s, x, i) == IF Possible(s, i, x) THEN Eval(s, x, i) ELSE Fail

\* fields k.. of fs, starting at i with AST (acc, ls) so far
EvalSeq[s \in Any, fs \in Any, k \in Any, i \in Any, acc \in Any, ls \in Any] ==
  IF k > Len(fs) THEN [p |-> i, a |-> acc, l |-> ls]
  ELSE LET r == Eval(s, fs[k], i)
       IN IF r.p = 0 THEN Fail ELSE EvalSeq[s, fs, k + 1, r.p, acc \o r.a, ls \o r.l]

\* ordered choice: the first alternative that matches wins
EvalAlt[s \in Any, e \in Any, k \in Any, i \in Any] ==
  IF k > Len(e.v) THEN Fail
  ELSE LET r == TryEval(s, e.v[k], i)
       IN IF r.p = 0 THEN EvalAlt[s, e, k + 1, i]
          ELSE [p |-> r.p, a |-> <<e.t[k]>> \o r.a, l |-> r.l]

\* greedy repetition; an item that matches without consuming is an error
EvalMany[s \in Any, x \in Any, i \in Any, acc \in Any, ls \in Any] ==
  LET r == TryEval(s, x, i)
  IN IF r.p = 0 THEN [p |-> i, a |-> acc, l |-> ls]
     ELSE IF r.p = i THEN Fail
     ELSE EvalMany[s, x, r.p, acc \o r.a, ls \o r.l]

\* items after the first one; a separator not followed by an item is not consumed
EvalSep[s \in Any, e \in Any, i \in Any, acc \in Any, ls \in Any] ==
  LET r1 == Eval(s, e.s, i)
  IN IF r1.p = 0 THEN [p |-> i, a |-> acc, l |-> ls]
     ELSE LET r2 == Eval(s, e.e, r1.p)
          IN IF r2.p = 0 THEN [p |-> i, a |-> acc, l |-> ls]
             ELSE EvalSep[s, e, r2.p, acc \o r2.a, ls \o r2.l]

SepMarker(e) == <<"]", e.sn>>

EvalF[s \in Any, x \in Any, i \in Any] ==
  LET e == NT[x] IN
  CASE e.op = "term" -> EvalTerm(s, e, i)
    [] e.op = "ref"  -> EvalF[s, Root[e.ix], i]
    [] e.op = "node" -> EvalSeq[s, e.f, 1, i, e.nn, <<>>]
    [] e.op = "opt"  -> LET r == TryEval(s, e.e, i)
                        IN IF r.p = 0 THEN [p |-> i, a |-> <<"-">>, l |-> <<>>] ELSE r
    [] e.op = "alt"  -> EvalAlt[s, e, 1, i]
    [] e.op = "lex"  -> EvalLex(s, e.n, i)
    [] e.op = "many" -> LET r == EvalMany[s, e.e, i, <<"[">>, <<>>]
                        IN IF r.p = 0 THEN Fail
                           ELSE [p |-> r.p, a |-> Append(r.a, "]"), l |-> r.l]
    [] e.op = "sep"  ->
         LET r1 == Eval(s, e.e, i)
         IN IF r1.p = 0 THEN
              IF e.min > 0 THEN Fail
              ELSE [p |-> i, a |-> <<e.n, "[">> \o SepMarker(e), l |-> <<>>]
            ELSE IF r1.p = i THEN Fail
            ELSE LET r2 == EvalSep[s, e, r1.p, <<e.n, "[">> \o r1.a, r1.l]
                     r3 == IF e.trail THEN Eval(s, e.s, r2.p) ELSE Fail
                 IN [p |-> IF r3.p = 0 THEN r2.p ELSE r3.p,
                     a |-> r2.a \o SepMarker(e), l |-> r2.l]
    [] e.op = "guard" ->
         LET r1 == Eval(s, e.o, i)
             r2 == IF r1.p = 0 THEN EvalSeq[s, e.m, 1, i, <<"-">>, <<>>]
                   ELSE EvalSeq[s, e.m, 1, r1.p, r1.a, r1.l]
         IN IF r2.p = 0 THEN Fail
            ELSE LET r3 == IF r1.p = 0 THEN Fail ELSE Eval(s, e.d, r2.p)
                 IN IF r3.p = 0 THEN [p |-> r2.p, a |-> Append(r2.a, "-"), l |-> r2.l]
                    ELSE [p |-> r3.p, a |-> r2.a \o r3.a, l |-> r2.l \o r3.l]

Eval(s, x, i) == EvalF[s, x, i]

\* ---- the two public entry points ------------------------------------------
\* <T as Parse>::parse(s) for the public type named n
ParseType(n, s) == Eval(s, Node0(n), 1)

\* weedle::parse(s): all definitions up to the end of the input, or an error
\* located at the first definition that does not parse (after its trivia).
ParseDoc(s) ==
  LET r == Eval(s, Node0("Definitions"), 1)
      q == Sp(s, r.p)
  IN [ok |-> q > Len(s), at |-> q - 1, a |-> r.a, l |-> r.l]

\* ---- blocks of words -------------------------------------------------------
\* A block stands for all strings pre \o w \o post with w of length len over the
\* symbols sym, in lexicographic order.
Concat[ws \in Any, k \in Any] == IF k > Len(ws) THEN <<>> ELSE ws[k] \o Concat[ws, k + 1]
Pow[b \in Any, e \in Any] == IF e = 0 THEN 1 ELSE b * Pow[b, e - 1]
Word(b, i) ==   \* i-th word, 0-based
  LET m == Len(b.sym)
  IN b.pre \o Concat[[d \in 1..b.len |-> b.sym[((i \div Pow[m, b.len - d]) % m) + 1]], 1]
     \o b.post
=============================================================================
