---------------------------- MODULE WeedleTokens ----------------------------
(***************************************************************************)
(* The grammar read a third way: as the layout of the syntax tree.  A tree *)
(* is walked from its first to its last field next to the text it was      *)
(* parsed from, and every terminal, name, number and string of the tree    *)
(* has to stand at the place reached so far, with nothing but trivia in    *)
(* between.  This is the losslessness law; it is judged on the recorded    *)
(* tree and text alone and does not use the parsing functions of WeedlePeg *)
(* (only its definition of trivia), so it holds or fails independently of  *)
(* which alternative a parser should have preferred.                       *)
(*                                                                         *)
(* The walk also settles that the tree is well formed: it has exactly the  *)
(* shape of the public type it is a value of.                              *)
(***************************************************************************)
EXTENDS WeedlePeg

\* walking state: ok, next index in the tree, next index in the leaf offsets,
\* next text position
WBad == [ok |-> FALSE, a |-> 0, l |-> 0, p |-> 0]
WState(a, l, p) == [ok |-> TRUE, a |-> a, l |-> l, p |-> p]

\* spelling e at the next token of s: the position after it, or 0
Spelled(s, e, p) ==
  LET k == Sp(s, p)
      q == k + e.len
  IN IF q - 1 <= Len(s) /\ SubSeq(s, k, q - 1) = e.b
        /\ ~(e.w /\ q <= Len(s) /\ IsIdCont(s[q]))
     THEN q ELSE 0

AllIn[s \in Any, b \in Any, e \in Any, tab \in Any] ==
  b >= e \/ (tab[s[b] + 1] /\ AllIn[s, b + 1, e, tab])
NumTab == [c \in 1..256 |-> IsHex(c - 1) \/ (c - 1) \in {43, 45, 46, 88, 120}]

\* a leaf of class n with text at [b, e) (1-based): the position after its token
\* when it stands at the next token of s, or 0
LeafAt(s, n, p, b, e) ==
  LET k == Sp(s, p) IN
  IF n = "StringLit" THEN
    \* the place of an empty text is not observable
    IF b = 0 THEN IF At(s, k, 34) /\ At(s, k + 1, 34) THEN k + 2 ELSE 0
    ELSE IF At(s, k, 34) /\ b = k + 1 /\ At(s, e, 34) /\ AllIn[s, b, e, StringTab] THEN e + 1 ELSE 0
  ELSE IF n = "Identifier" THEN
    IF b > 0 /\ b = (IF At(s, k, 95) THEN k + 1 ELSE k) /\ IsAlpha(s[b]) /\ AllIn[s, b, e, IdTab]
       /\ ~(e <= Len(s) /\ IsIdCont(s[e]))
    THEN e ELSE 0
  ELSE \* numbers
    IF b > 0 /\ b = k /\ AllIn[s, b, e, NumTab] THEN e ELSE 0

RECURSIVE Walk(_, _, _, _)
WSeq[s \in Any, r \in Any, fs \in Any, k \in Any, w \in Any] ==
  IF ~w.ok \/ k > Len(fs) THEN w
  ELSE WSeq[s, r, fs, k + 1, Walk(s, r, fs[k], w)]
WMany[s \in Any, r \in Any, x \in Any, w \in Any] ==
  IF ~w.ok \/ w.a > Len(r.a) THEN WBad
  ELSE IF r.a[w.a] = "]" THEN WState(w.a + 1, w.l, w.p)
  ELSE WMany[s, r, x, Walk(s, r, x, w)]
\* items of a separated list; the separator stands between items
WSep[s \in Any, r \in Any, e \in Any, w \in Any, first \in Any] ==
  IF ~w.ok \/ w.a > Len(r.a) THEN WBad
  ELSE IF r.a[w.a] = "]" THEN
    IF w.a + 1 > Len(r.a) \/ r.a[w.a + 1] # e.sn \/ (first /\ e.min > 0) THEN WBad
    ELSE LET q == IF e.trail THEN Spelled(s, NT[e.s], w.p) ELSE 0
         IN WState(w.a + 2, w.l, IF q = 0 THEN w.p ELSE q)
  ELSE IF first THEN WSep[s, r, e, Walk(s, r, e.e, w), FALSE]
  ELSE LET q == Spelled(s, NT[e.s], w.p)
       IN IF q = 0 THEN WBad
          ELSE WSep[s, r, e, Walk(s, r, e.e, WState(w.a, w.l, q)), FALSE]

WalkF[s \in Any, r \in Any, x \in Any, w \in Any] ==
  LET e == NT[x]
      h == IF w.ok /\ w.a <= Len(r.a) THEN r.a[w.a] ELSE ""
  IN IF ~w.ok THEN WBad ELSE
  CASE e.op = "ref"  -> WalkF[s, r, Root[e.ix], w]
    [] e.op = "term" ->
         LET q == IF h = e.n THEN Spelled(s, e, w.p) ELSE 0
         IN IF q = 0 THEN WBad ELSE WState(w.a + 1, w.l, q)
    [] e.op = "lex"  ->
         IF h = e.n /\ w.a < Len(r.a) /\ r.a[w.a + 1] = "@" /\ w.l < Len(r.l) THEN
           LET b == r.l[w.l]
               q == LeafAt(s, e.n, w.p, b + 1, r.l[w.l + 1] + 1)
           IN IF q = 0 THEN WBad ELSE WState(w.a + 2, w.l + 2, q)
         ELSE WBad
    [] e.op = "node" ->
         IF e.nn = <<>> THEN WSeq[s, r, e.f, 1, w]
         ELSE IF h = e.nn[1] THEN WSeq[s, r, e.f, 1, WState(w.a + 1, w.l, w.p)]
         ELSE WBad
    [] e.op = "opt"  -> IF h = "-" THEN WState(w.a + 1, w.l, w.p) ELSE Walk(s, r, e.e, w)
    [] e.op = "alt"  ->
         IF h # "" /\ \E k \in 1..Len(e.t) : e.t[k] = h
         THEN Walk(s, r, e.v[CHOOSE k \in 1..Len(e.t) : e.t[k] = h], WState(w.a + 1, w.l, w.p))
         ELSE WBad
    [] e.op = "many" ->
         IF h = "[" THEN WMany[s, r, e.e, WState(w.a + 1, w.l, w.p)] ELSE WBad
    [] e.op = "sep"  ->
         IF h = e.n /\ w.a < Len(r.a) /\ r.a[w.a + 1] = "["
         THEN WSep[s, r, e, WState(w.a + 2, w.l, w.p), TRUE] ELSE WBad
    [] e.op = "guard" ->
         LET w1 == IF h = "-" THEN WState(w.a + 1, w.l, w.p) ELSE Walk(s, r, e.o, w)
             w2 == WSeq[s, r, e.m, 1, w1]
         IN IF ~w2.ok \/ w2.a > Len(r.a) THEN WBad
            ELSE IF r.a[w2.a] = "-" THEN WState(w2.a + 1, w2.l, w2.p)
            ELSE IF h = "-" THEN WBad          \* a default only after the mark
            ELSE Walk(s, r, e.d, w2)
Walk(s, r, x, w) == WalkF[s, r, x, w]

\* tree r (fields a, l) of public type n is an image of s from at to upto (1-based)
Image(n, s, r, at, upto) ==
  LET w == Walk(s, r, Node0(IF n = "doc" THEN "Definitions" ELSE n), WState(1, 1, at))
  IN /\ w.ok /\ w.a = Len(r.a) + 1 /\ w.l = Len(r.l) + 1
     \* trivia belongs to the token before or after it; a tree without tokens takes none
     /\ Sp(s, w.p) = upto \/ (w.p = at /\ upto = at)
=============================================================================
