----------------------------- MODULE WeedleLaws -----------------------------
(***************************************************************************)
(* The listed properties, stated as laws of the specification itself and   *)
(* checked by TLC on every text of a bounded set, before the library is    *)
(* compared with the specification.  The state machine types one symbol    *)
(* after another; every state is a text, and the law of its task is an     *)
(* invariant.  Most laws are stated declaratively (a longest prefix in a   *)
(* language, a set of reachable positions, a relation between outcomes of  *)
(* different texts), not by repeating how WeedlePeg computes the outcome.  *)
(***************************************************************************)
EXTENDS WeedleTokens, Json, IOUtils, FiniteSets

\* tasks: [law, n, sym, len, pre, post]
Tasks == JsonDeserialize(IOEnv.WEEDLE_PLAN)

VARIABLES vtask, vword

Init == vtask \in 1..Len(Tasks) /\ vword = <<>>
Next == /\ Len(vword) < Tasks[vtask].len
        /\ \E k \in 1..Len(Tasks[vtask].sym) : vword' = Append(vword, k)
        /\ UNCHANGED vtask

TextOf(t, w) == t.pre \o Concat[[k \in 1..Len(w) |-> t.sym[w[k]]], 1] \o t.post
Joined(t, w, sep) == t.pre \o Concat[[k \in 1..Len(w) |-> t.sym[w[k]] \o sep], 1] \o t.post

\* ---- languages, declaratively ---------------------------------------------
Sub(s, i, j) == SubSeq(s, i, j)
All(s, tab) == \A k \in 1..Len(s) : tab[s[k] + 1]
Signed(s, P(_)) == P(s) \/ (Len(s) > 0 /\ s[1] = 45 /\ P(Tail(s)))
DecText(s) == Len(s) > 0 /\ s[1] # 48 /\ All(s, DigitTab)
HexText(s) == Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {88, 120} /\ All(Sub(s, 3, Len(s)), HexTab)
OctText(s) == Len(s) > 0 /\ s[1] = 48 /\ All(s, OctTab)
Digs(s) == All(s, DigitTab)
ExpText(s) == /\ Len(s) > 1 /\ s[1] \in {69, 101}
              /\ \E k \in {2, 3} : /\ Len(s) >= k /\ Digs(Sub(s, k, Len(s)))
                                   /\ k = 3 => s[2] \in {43, 45}
FloatText(s) ==
  \/ \E d \in 1..Len(s) : /\ s[d] = 46 /\ Digs(Sub(s, 1, d - 1))
                          /\ \E x \in d..Len(s) : /\ Digs(Sub(s, d + 1, x))
                                                  /\ x > 1          \* a digit on one side
                                                  /\ x = Len(s) \/ ExpText(Sub(s, x + 1, Len(s)))
  \/ \E x \in 1..Len(s) : Digs(Sub(s, 1, x)) /\ ExpText(Sub(s, x + 1, Len(s)))
IdText(s) ==
  LET b == IF Len(s) > 0 /\ s[1] = 95 THEN Tail(s) ELSE s
  IN Len(b) > 0 /\ IsAlpha(b[1]) /\ All(b, IdTab)
StrText(s) == /\ Len(s) > 1 /\ s[1] = 34 /\ s[Len(s)] = 34 /\ All(Sub(s, 2, Len(s) - 1), StringTab)
InLang(n, s) ==
  CASE n = "Identifier" -> IdText(s)
    [] n = "StringLit" -> StrText(s)
    [] n = "DecLit" -> Signed(s, DecText)
    [] n = "HexLit" -> Signed(s, HexText)
    [] n = "OctLit" -> Signed(s, OctText)
    [] n = "FloatValueLit" -> Signed(s, FloatText)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* length of the longest prefix of s in the language; 0 if there is none
Longest(n, s) == LET L == {k \in 1..Len(s) : InLang(n, Sub(s, 1, k))} IN IF L = {} THEN 0 ELSE Max(L)

\* pieces of trivia starting at i, as the set of positions they can end before
Pieces(s, i) ==
  IF i > Len(s) THEN {}
  ELSE IF IsBlank(s[i]) THEN {i + 1}
  ELSE IF s[i] = 47 /\ At(s, i + 1, 47) THEN
    {j \in (i + 2)..(Len(s) + 1) : /\ \A k \in (i + 2)..(j - 1) : s[k] # 10
                                   /\ j = Len(s) + 1 \/ s[j] = 10}
  ELSE IF s[i] = 47 /\ At(s, i + 1, 42) THEN
    {j + 2 : j \in {k \in (i + 2)..(Len(s) - 1) :
       /\ s[k] = 42 /\ s[k + 1] = 47
       /\ \A m \in (i + 2)..(k - 1) : ~(s[m] = 42 /\ s[m + 1] = 47)}}
  ELSE {}
RECURSIVE Reach(_, _)
Reach(s, S) == LET N == S \cup UNION {Pieces(s, i) : i \in S} IN IF N = S THEN S ELSE Reach(s, N)
\* all positions that trivia can lead to from position i; the outcome uses the last one
TriviaEnds(s, i) == Reach(s, {i})

\* ---- helpers on outcomes ------------------------------------------------------
Texts(s, l) == [j \in 1..(Len(l) \div 2) |-> IF l[2 * j - 1] < 0 THEN <<>> ELSE Sub(s, l[2 * j - 1] + 1, l[2 * j])]
Same(s1, r1, s2, r2) == r1.a = r2.a /\ Texts(s1, r1.l) = Texts(s2, r2.l)
Shift(l, d) == [j \in 1..Len(l) |-> IF l[j] < 0 THEN l[j] ELSE l[j] + d]
Inner(a) == Sub(a, 2, Len(a) - 1)

\* ---- the laws --------------------------------------------------------------------
\* C01: an accepted document is covered by its tree; an error stands at a non-trivia
\* byte where no definition parses, and everything before it is a document of its own
LawDoc(s) ==
  LET r == ParseDoc(s)
  IN IF r.ok THEN Image("doc", s, r, 1, Len(s) + 1)
     ELSE /\ r.at < Len(s) /\ TriviaEnds(s, r.at + 1) = {r.at + 1}
          /\ Eval(s, Node0("Definition"), r.at + 1).p = 0
          /\ LET q == ParseDoc(Sub(s, 1, r.at)) IN q.ok /\ q.a = r.a /\ q.l = r.l
\* C02, C04: what is accepted is the text of a well-formed tree of the grammar
LawImage(n, s) == LET r == ParseType(n, s) IN r.p # 0 => Image(n, s, r, 1, r.p)
\* C03: a tree written out again is accepted as the same tree (see also WeedleDerive)
LawAgain(n, s) ==
  LET r == ParseType(n, s)
  IN r.p # 0 => LET c == Sub(s, 1, r.p - 1)
                    q == ParseType(n, c)
                IN q.p = r.p /\ q.a = r.a /\ q.l = r.l
\* C05: the trivia between tokens does not matter
Seps == {<<32>>, <<10>>, <<13, 10>>, <<47, 42, 42, 47>>, <<47, 47, 120, 10>>, <<9, 47, 42, 42, 120, 47, 42, 47, 32>>}
LawTrivia(t, w) ==
  LET s1 == Joined(t, w, <<32>>)
      r1 == ParseType(t.n, s1)
      d1 == ParseDoc(s1)
  IN \A sep \in Seps : LET s2 == Joined(t, w, sep) IN
       /\ LET r2 == ParseType(t.n, s2) IN (r1.p = 0) <=> (r2.p = 0) /\ Same(s1, r1, s2, r2)
       /\ LET d2 == ParseDoc(s2) IN d1.ok = d2.ok /\ (d1.ok => Same(s1, d1, s2, d2))
LawSp(s) == Sp(s, 1) = Max(TriviaEnds(s, 1))
\* C06: a terminal is its spelling between trivia, and a word ends where it ends
LawTerm(s) ==
  \A k \in 1..TermCount :
    LET b == TermBytes[Terms[k][1]]
        r == ParseType(Terms[k][1], s)
        i == Max(TriviaEnds(s, 1))
        q == i + Len(b)
        yes == /\ q <= Len(s) + 1 /\ Sub(s, i, q - 1) = b
               /\ ~(TermWord[Terms[k][1]] /\ q <= Len(s) /\ IsIdCont(s[q]))
    IN IF yes THEN r.p = Max(TriviaEnds(s, q)) /\ r.a = <<Terms[k][1]>> ELSE r.p = 0
\* no text is two terminals at once, except one punctuation being a prefix of another
LawOneTerm(s) ==
  \A j, k \in 1..TermCount : j # k /\ TermWord[Terms[j][1]] /\ TermWord[Terms[k][1]] =>
    ~(ParseType(Terms[j][1], s).p # 0 /\ ParseType(Terms[k][1], s).p # 0)
\* C07, C08, C09: a token is the longest prefix in its language
Lexes == {"Identifier", "StringLit", "DecLit", "HexLit", "OctLit", "FloatValueLit"}
LawLex(s) ==
  \A n \in Lexes :
    LET k == Longest(n, s)
        r == EvalLex(s, n, 1)
    IN Sp(s, 1) = 1 =>
         IF k = 0 THEN r.p = 0
         ELSE /\ r.p = Sp(s, k + 1)
              /\ LET b == CASE n = "StringLit" -> 1 [] n = "Identifier" -> (IF s[1] = 95 THEN 1 ELSE 0) [] OTHER -> 0
                     e == IF n = "StringLit" THEN k - 1 ELSE k
                 IN r.l = IF b = e THEN <<-1, -1>> ELSE <<b, e>>
\* C07: among the number forms the longest one gives the class; a string is one class only
LawClass(s) ==
  LET k == [n \in Lexes |-> Longest(n, s)]
      i == ParseType("IntegerLit", s)
      f == ParseType("FloatLit", s)
      v == ParseType("ConstValue", s)
      m == Max({k["DecLit"], k["HexLit"], k["OctLit"]})
      len(r) == IF r.l = <<>> THEN 0 ELSE r.l[2] - r.l[1]
  IN Sp(s, 1) = 1 =>
     /\ IF m = 0 THEN i.p = 0 ELSE len(i) = m
     /\ k["FloatValueLit"] > 0 => len(f) = k["FloatValueLit"] /\ f.a[1] = "FloatLit::Value"
     /\ m > 0 /\ k["FloatValueLit"] = 0 => v.a[1] = "ConstValue::Integer"
     /\ k["FloatValueLit"] > 0 => v.a[1] = "ConstValue::Float" /\ len(v) >= m
     /\ Cardinality({n \in {"DecLit", "HexLit", "OctLit"} : k[n] = m /\ m > 0}) <= 1
\* C10: outcomes stay inside the text
LawTotal(n, s) ==
  LET r == ParseType(n, s)
  IN /\ r.p \in 0..(Len(s) + 1)
     /\ \A j \in 1..Len(r.l) : r.l[j] \in -1..Len(s)
     /\ ParseDoc(s).at \in 0..Len(s)
\* C11: accepted halves make an accepted whole, with the lists joined, and conversely
LawConcat(t, w) ==
  LET whole == TextOf(t, w)
      dw == ParseDoc(whole)
  IN \A k \in 0..Len(w) :
       LET s1 == TextOf(t, Sub(w, 1, k))
           s2 == TextOf(t, Sub(w, k + 1, Len(w)))
           d1 == ParseDoc(s1)
           d2 == ParseDoc(s2)
       IN /\ d1.ok /\ d2.ok => /\ dw.ok
                               /\ dw.a = <<"[">> \o Inner(d1.a) \o Inner(d2.a) \o <<"]">>
                               /\ dw.l = d1.l \o Shift(d2.l, Len(s1))
          /\ d1.ok => dw.ok = d2.ok /\ (~d2.ok => dw.at = Len(s1) + d2.at)
\* C12 to C17: the alternative taken is one that reaches furthest, and (for kinds of
\* definitions and members) the only one: order does not decide what a text is
LawFurthest(n, s) ==
  LET e == NT[Root[ProdIx[n]]]
      r == ParseType(n, s)
      P == {k \in 1..Len(e.v) : Eval(s, e.v[k], 1).p # 0}
  IN IF P = {} THEN r.p = 0
     ELSE /\ r.p = Max({Eval(s, e.v[k], 1).p : k \in P})
LawOnly(n, s) ==
  LET e == NT[Root[ProdIx[n]]]
  IN Cardinality({k \in 1..Len(e.v) : Eval(s, e.v[k], 1).p # 0}) <= 1
\* C13: a default only with the mark, an ellipsis only without it
LawDefault(s) ==
  LET r == ParseType("Argument", s)
      has(x) == \E j \in 1..Len(r.a) : r.a[j] = x
  IN r.p # 0 => /\ has("Default") => has("Optional") /\ r.a[1] = "Argument::Single"
                /\ (r.a[1] = "Argument::Variadic") <=> has("Ellipsis")
\* C14: the outermost construct gets the first attribute list
LawAttach(n, s) ==
  LET r == ParseType(n, s)
      i == Sp(s, 1)
  IN r.p # 0 => (r.a[2] # "-") <=> (i <= Len(s) /\ s[i] = 91)
\* C16: what the containers exclude
LawContainer(s) ==
  LET has(r, x) == \E j \in 1..Len(r.a) : r.a[j] = x
      ns == ParseType("NamespaceMember", s)
      mx == ParseType("MixinMember", s)
  IN /\ ns.p # 0 /\ has(ns, "Attribute") => has(ns, "ReadOnly") /\ ns.a[1] = "NamespaceMember::Attribute"
     /\ \A x \in {"Iterable", "Maplike", "Setlike", "Static", "Inherit", "Getter", "Setter", "Deleter", "Constructor"} :
          ~has(ns, x) /\ ~has(mx, x)
\* C18: lists of items (symbol 1) and separators (symbol 2), anything else is noise:
\* the longest alternating prefix
RECURSIVE Alternates(_)
Alternates(w) == IF Len(w) < 3 THEN w = <<1>> ELSE w[Len(w)] = 1 /\ w[Len(w) - 1] = 2 /\ Alternates(Sub(w, 1, Len(w) - 2))
LawList(t, w) ==
  LET s == Joined(t, w, <<32>>)
      r == ParseType(t.n, s)
      L == {k \in 1..Len(w) : Alternates(Sub(w, 1, k))}
      m == IF L = {} THEN 0 ELSE Max(L)
      e == NT[Root[ProdIx[t.n]]]
      used == IF e.trail /\ m > 0 /\ m < Len(w) /\ w[m + 1] = 2 THEN m + 1 ELSE m
  IN IF m = 0 THEN IF e.min > 0 THEN r.p = 0 ELSE r.p = 1 /\ r.l = <<>>
     ELSE /\ r.p = Len(Joined(t, Sub(w, 1, used), <<32>>)) + 1
          /\ Len(r.l) = m + 1
LawMany(t, w) ==
  LET s == Joined(t, w, <<32>>)
      r == ParseType(t.n, s)
      L == {k \in 0..Len(w) : \A j \in 1..k : w[j] = 1}
  IN r.p = Len(Joined(t, Sub(w, 1, Max(L)), <<32>>)) + 1 /\ Len(r.l) = 2 * Max(L)
\* C19: the outcome at a place is the outcome on the tail that starts there, and does not
\* depend on where the tail came from
LawPlace(n, s) ==
  \A i \in 1..(Len(s) + 1) :
    LET r == Eval(s, Node0(n), i)
        q == Eval(Sub(s, i, Len(s)), Node0(n), 1)
    IN IF r.p = 0 THEN q.p = 0 ELSE r.p = q.p + i - 1 /\ r.a = q.a /\ r.l = Shift(q.l, i - 1)
\* C19: the remainder begins at a token
LawRest(n, s) ==
  LET r == ParseType(n, s)
  IN r.p > 1 => TriviaEnds(s, r.p) = {r.p}

\* the pruning of choices by first bytes changes nothing
LawPruned(n, s) ==
  LET e == NT[Root[ProdIx[n]]] IN
  e.op = "alt" => \A k \in 1..Len(e.v) : ~Possible(s, 1, e.v[k]) => Eval(s, e.v[k], 1).p = 0

Holds(t, w) ==
  LET s == TextOf(t, w) IN
  CASE t.law = "doc" -> LawDoc(s)
    [] t.law = "image" -> LawImage(t.n, s)
    [] t.law = "again" -> LawAgain(t.n, s)
    [] t.law = "trivia" -> LawTrivia(t, w)
    [] t.law = "sp" -> LawSp(s)
    [] t.law = "term" -> LawTerm(s)
    [] t.law = "oneterm" -> LawOneTerm(s)
    [] t.law = "lex" -> LawLex(s)
    [] t.law = "class" -> LawClass(s)
    [] t.law = "total" -> LawTotal(t.n, s)
    [] t.law = "concat" -> LawConcat(t, w)
    [] t.law = "furthest" -> LawFurthest(t.n, s)
    [] t.law = "only" -> LawOnly(t.n, s)
    [] t.law = "default" -> LawDefault(s)
    [] t.law = "attach" -> LawAttach(t.n, s)
    [] t.law = "container" -> LawContainer(s)
    [] t.law = "list" -> LawList(t, w)
    [] t.law = "many" -> LawMany(t, w)
    [] t.law = "place" -> LawPlace(t.n, s)
    [] t.law = "rest" -> LawRest(t.n, s)
    [] t.law = "pruned" -> LawPruned(t.n, s)
Law == Holds(Tasks[vtask], vword)
=============================================================================
