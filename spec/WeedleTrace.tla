---------------------------- MODULE WeedleTrace ----------------------------
(***************************************************************************)
(* Trace validation: the harness calls the real library and records, for   *)
(* every public call, its name, input and outcome.  The records are cut    *)
(* into chunks; each behaviour of this specification consumes one chunk,   *)
(* and a record is accepted when its outcome is the one WeedlePeg allows.  *)
(* Rejected records are printed with the outcome the specification         *)
(* requires, and every consumed chunk reports its number of records, so    *)
(* that a trace that is not consumed completely cannot pass.               *)
(* (Chunks are read inside the action, which lets TLC's workers load and   *)
(* judge them in parallel.)                                                *)
(*                                                                         *)
(* Kinds of records: single calls, exhaustive blocks of calls, chains of   *)
(* calls each continuing on the previous remainder, groups of trees with   *)
(* their comparison matrices, and enum conversions.                        *)
(***************************************************************************)
EXTENDS WeedleTokens, Json, IOUtils

VARIABLES vchunk, vdone
Chunks == atoi(IOEnv.WEEDLE_CHUNKS)
ReadChunk == ndJsonDeserialize(IOEnv.WEEDLE_TRACE \o "/" \o ToString(vchunk) \o ".ndjson")
Init == vchunk \in 1..Chunks /\ vdone = 0
\* consume one chunk, judging every record of it with J
Consume(J(_, _)) ==
  /\ vdone = 0
  /\ \E rs \in {ReadChunk}, ch \in {vchunk} :      \* (bound, not LET: read once)
        /\ \A i \in 1..Len(rs) : J(<<ch, i>>, rs[i])
        /\ vdone' = Len(rs)
        /\ PrintT(ToJson([chunk |-> vchunk, n |-> Len(rs)]))
  /\ vchunk' = vchunk

\* ---- what an outcome must be -------------------------------------------------
Outcome(n, s, at) ==      \* of a call on the tail of s that starts at `at`
  IF n = "doc" THEN
    LET d == ParseDoc(s)
    IN IF d.ok THEN [k |-> "ok", p |-> Len(s), a |-> d.a, l |-> d.l]
       ELSE [k |-> "err", p |-> d.at, a |-> <<>>, l |-> <<>>]
  ELSE LET r == Eval(s, Node0(n), at)
       IN IF r.p = 0 THEN [k |-> "err", p |-> 0, a |-> <<>>, l |-> <<>>]
          ELSE [k |-> "ok", p |-> r.p - 1, a |-> r.a, l |-> r.l]

\* The position of a single construct's error is any place in the caller's
\* input; that of a document is exactly where parsing stopped.
Agrees(n, o, r) ==
  /\ o.k = r.k
  /\ IF o.k = "ok" \/ n = "doc" THEN r.p = o.p ELSE r.p >= 0
  /\ o.a = r.a
  /\ o.l = r.l

\* at = <<chunk, record>>
Report(at, what) == PrintT(ToJson([bad |-> at[2], chunk |-> at[1], want |-> what]))

\* ---- single calls ------------------------------------------------------------
\* A record may carry the tree of the derivation its input was generated from
\* (field xa); the specification then has to agree with that as well.
JudgeCase(i, r) ==
  LET o == Outcome(r.n, r.s, 1)
  IN /\ IF Agrees(r.n, o, r) THEN TRUE ELSE Report(i, o)
     /\ IF "xa" \in DOMAIN r
        THEN IF o.k = "ok" /\ o.a = r.xa THEN TRUE
             ELSE PrintT(ToJson([selfbad |-> i[2], chunk |-> i[1], want |-> o]))
        ELSE TRUE
NextCases == Consume(JudgeCase)

\* ---- the losslessness law of WeedleTokens, on the recorded tree and text ------
JudgeYield(i, r) ==
  IF r.k = "ok" => Image(r.n, r.s, r, 1, r.p + 1) THEN TRUE
  ELSE Report(i, "a tree that reads as the consumed text")
NextYields == Consume(JudgeYield)

\* ---- chained calls -----------------------------------------------------------
ChainOk[r \in Any, j \in Any, at \in Any] ==
  IF j > Len(r.c) THEN TRUE
  ELSE LET c == r.c[j]
           o == Outcome(c.n, r.s, at)
       IN Agrees(c.n, o, c) /\ (o.k = "ok" => ChainOk[r, j + 1, o.p + 1])
JudgeChain(i, r) == IF ChainOk[r, 1, 1] THEN TRUE ELSE Report(i, "chain")
NextChains == Consume(JudgeChain)

\* ---- exhaustive blocks -------------------------------------------------------
\* A block stands for all strings pre \o w \o post with w of length len over the
\* symbols sym, in lexicographic order, or for the part of them with 0-based
\* indices from..(from + Len(r) - 1); r[k] is the index in tab of an outcome.
JudgeWord(i, b, k) ==
  LET w == Word(b, b.from + k - 1)
      o == Outcome(b.n, w, 1)
      r == b.tab[b.r[k]]
  IN IF Agrees(b.n, o, r) THEN TRUE
     ELSE PrintT(ToJson([bad |-> i[2], chunk |-> i[1], n |-> b.n, w |-> w, got |-> r, want |-> o]))
JudgeBlock(i, b) ==
  /\ b.from + Len(b.r) <= Pow[Len(b.sym), b.len]
  /\ \A k \in 1..Len(b.r) : JudgeWord(i, b, k)
NextBlocks == Consume(JudgeBlock)

\* ---- returning at all ---------------------------------------------------------
\* (used for arbitrary text: the call returns success or the recoverable error,
\* and what it returns lies inside the caller's input)
Total(r) == r.k \in {"ok", "err"} /\ r.p >= 0
JudgeTotal(i, r) == IF Total(r) THEN TRUE ELSE Report(i, "ok or err, inside the input")
NextTotals == Consume(JudgeTotal)

\* ---- comparison matrices -----------------------------------------------------
\* Judged on the recorded trees themselves, independently of the grammar.
Texts(s, l) == [j \in 1..(Len(l) \div 2) |->
                  IF l[2 * j - 1] < 0 THEN <<>> ELSE SubSeq(s, l[2 * j - 1] + 1, l[2 * j])]
Content(s, r) == <<r.a, Texts(s, r.l)>>
GroupOk(g) ==
  /\ g.k = "ok"
  /\ \E ok \in {SelectSeq([j \in 1..Len(g.s) |-> j], LAMBDA j : g.res[j].k = "ok")} :
     \E m \in {Len(ok)} :
     \E cs \in {[j \in 1..m |-> Content(g.s[ok[j]], g.res[ok[j]])]} :
     \E same \in {[x \in 1..m |-> [y \in 1..m |-> cs[x] = cs[y]]]} :
        /\ Len(g.eq) = m
        /\ \A x, y \in 1..m :
             /\ (g.eq[x][y] = 1) <=> same[x][y]
             /\ (g.cmp[x][y] = 0) <=> same[x][y]
             /\ g.cmp[x][y] = -g.cmp[y][x]
             /\ same[x][y] => g.heq[x][y] = 1
             /\ g.ops[x][y] = 1
        /\ \A x, y, z \in 1..m :
             g.cmp[x][y] <= 0 /\ g.cmp[y][z] <= 0 => g.cmp[x][z] <= 0
        /\ \A x \in 1..m : g.clone[x] = 1
JudgeGroup(i, r) == IF GroupOk(r) THEN TRUE ELSE Report(i, "group")
NextGroups == Consume(JudgeGroup)

\* ---- conversions into an enclosing enum --------------------------------------
ConvOk(r) ==
  \/ r.k = "err"
  \/ /\ r.k = "ok"
     /\ r.value.a = <<r.e \o "::" \o r.v>> \o r.payload.a
     /\ r.value.l = r.payload.l
     /\ r.same = 1
     /\ IF r.parsed.k = "ok"
        THEN /\ (r.eq = 1) <=> (Content(r.s, r.parsed) = Content(r.s, r.value))
             /\ r.parsed.a[1] = r.value.a[1] => r.eq = 1
        ELSE r.eq = 0
JudgeConv(i, r) == IF ConvOk(r) THEN TRUE ELSE Report(i, "conv")
NextConvs == Consume(JudgeConv)

\* ---- concatenation -------------------------------------------------------------
\* r.d: the parts and their outcomes when parsed alone; r.w: the outcome of the
\* whole, made of the parts in the order r.o (indices into d), each followed by
\* trivia r.g.  Judged on recorded outcomes only: if all parts are accepted, the
\* whole is, and its list is the parts' lists joined, texts shifted.
Shift(l, by) == [j \in 1..Len(l) |-> IF l[j] < 0 THEN l[j] ELSE l[j] + by]
Inner(a) == SubSeq(a, 2, Len(a) - 1)
JoinParts[r \in Any, j \in Any, at \in Any, a \in Any, l \in Any] ==
  IF j > Len(r.o) THEN [a |-> Append(a, "]"), l |-> l, p |-> at]
  ELSE LET d == r.d[r.o[j]]
       IN JoinParts[r, j + 1, at + Len(d.s) + r.g[j], a \o Inner(d.a), l \o Shift(d.l, at)]
ConcatOk(r) ==
  (\A j \in 1..Len(r.o) : r.d[r.o[j]].k = "ok" /\ r.d[r.o[j]].p = Len(r.d[r.o[j]].s)) =>
    LET x == JoinParts[r, 1, 0, <<"[">>, <<>>]
    IN r.w.k = "ok" /\ r.w.p = x.p /\ r.w.a = x.a /\ r.w.l = x.l
JudgeConcat(i, r) == IF ConcatOk(r) THEN TRUE ELSE Report(i, "concat")
NextConcats == Consume(JudgeConcat)
=============================================================================
