---------------------------- MODULE WeedlePump ----------------------------
(***************************************************************************)
(* Pumping: outcomes for texts far larger than TLC can read.               *)
(*                                                                         *)
(* A record stands for the calls of one entry point on the texts           *)
(*     T(n) = pre \o item \o (sep \o item)^(n-1) \o post                   *)
(* for several n.  The specification evaluates T(4) and T(5) itself and    *)
(* reads off the law of growth: the tree is head \o body^(n-1) \o tail, text   *)
(* offsets grow by a fixed amount per copy, and so does the end.  On       *)
(* T(6) and T(8) the specification confirms its own law (PumpLaw).  The    *)
(* harness records what the library returned for every n, in the same      *)
(* factored form, and the record is accepted when it is the form the law   *)
(* prescribes; an outcome that has no such form is recorded as irregular.  *)
(***************************************************************************)
EXTENDS WeedleTrace

Copies[r \in Any, n \in Any] ==
  IF n = 0 THEN <<>>
  ELSE IF n = 1 THEN r.item
  ELSE Copies[r, n - 1] \o r.sep \o r.item
PText(r, n) == r.pre \o Copies[r, n] \o r.post

\* length of the longest common prefix
LcpF[x \in Any, y \in Any, i \in Any] ==
  IF i > Len(x) \/ i > Len(y) THEN i - 1
  ELSE IF x[i] # y[i] THEN i - 1
  ELSE LcpF[x, y, i + 1]

\* the form of a sequence that has x for 4 copies and y for 5
Form(x, y) ==
  LET b == Len(y) - Len(x)
      h == LcpF[x, y, 1] - 3 * b
  IN IF b < 0 \/ h < 0 THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, h |-> SubSeq(y, 1, h), r |-> SubSeq(y, h + 1, h + b), t |-> SubSeq(y, h + 4 * b + 1, Len(y))]
RepF[x \in Any, n \in Any] == IF n = 0 THEN <<>> ELSE RepF[x, n - 1] \o x
Unform(f, n) == f.h \o RepF[f.r, n - 1] \o f.t

Diffs(l) == [j \in 1..Len(l) |-> IF j = 1 THEN l[1] ELSE l[j] - l[j - 1]]
SumF[d \in Any, j \in Any, acc \in Any] ==
  IF j > Len(d) THEN acc
  ELSE SumF[d, j + 1, Append(acc, d[j] + (IF j = 1 THEN 0 ELSE acc[j - 1]))]
Sums(d) == SumF[d, 1, <<>>]
Affine(x, y, n) == [j \in 1..Len(x) |-> x[j] + (n - 4) * (y[j] - x[j])]

\* the law of growth from the specification's own outcomes
Law(o4, o5) ==
  [ok |-> o4.k = o5.k, k |-> o4.k, p4 |-> o4.p, p5 |-> o5.p,
   a  |-> Form(o4.a, o5.a),
   grow |-> Len(o4.l) # Len(o5.l),
   l  |-> IF Len(o4.l) # Len(o5.l) THEN Form(Diffs(o4.l), Diffs(o5.l)) ELSE [ok |-> TRUE],
   l4 |-> o4.l, l5 |-> o5.l]
LawAt(w, n) ==    \* the outcome it gives for n copies
  [k |-> w.k, p |-> w.p4 + (n - 4) * (w.p5 - w.p4), a |-> Unform(w.a, n),
   l |-> IF w.grow THEN Sums(Unform(w.l, n)) ELSE Affine(w.l4, w.l5, n)]
PumpLaw(r, w) ==
  /\ w.ok /\ w.a.ok /\ w.l.ok
  /\ \A n \in {6, 8} : LawAt(w, n) = Outcome(r.n, PText(r, n), 1)

RunOk(n, w, x) ==
  /\ x.k = w.k
  /\ IF x.k = "ok" \/ n = "doc" THEN x.p = w.p4 + (x.n - 4) * (w.p5 - w.p4) ELSE x.p >= 0
  /\ x.a = [h |-> w.a.h, r |-> w.a.r, t |-> w.a.t]
  /\ x.l = IF w.grow THEN [h |-> w.l.h, r |-> w.l.r, t |-> w.l.t]
           ELSE [h |-> Affine(w.l4, w.l5, x.n), r |-> <<>>, t |-> <<>>]

JudgePump(i, r) ==
  \E o4 \in {Outcome(r.n, PText(r, 4), 1)}, o5 \in {Outcome(r.n, PText(r, 5), 1)} :
  \E w \in {Law(o4, o5)} :
    /\ IF PumpLaw(r, w) THEN TRUE
       ELSE PrintT(ToJson([selfbad |-> i[2], chunk |-> i[1], want |-> "a law of growth"]))
    /\ \A j \in 1..Len(r.runs) :
         IF RunOk(r.n, w, r.runs[j]) THEN TRUE
         ELSE PrintT(ToJson([bad |-> i[2], chunk |-> i[1], copies |-> r.runs[j].n, want |-> [k |-> w.k, law |-> w]]))
NextPumps == Consume(JudgePump)
=============================================================================
