------------------------------- MODULE Dedup --------------------------------
(***************************************************************************)
(* Writing and reading objects that share others (P17).                    *)
(*                                                                         *)
(* An object is [k, id, c, ser, kids]: of kind "ccy" or "ins", with a name, *)
(* content, a serial number that tells it from others like it, and the      *)
(* objects it refers to, in the order in which they are written.  A         *)
(* document is a tree of [k, id, full, c, kids]: at each place a name or,   *)
(* in full, an object.                                                     *)
(*                                                                         *)
(* A scope has a mode and the objects it knows by name; one is current per  *)
(* thread and kind, the last entered that has not been left, or else inline *)
(* with nothing known.  What is known lasts from one use of a scope to the  *)
(* next.                                                                   *)
(*   inline  everything is written in full                                  *)
(*   missing only names are written, of what is known                       *)
(*   once    in full the first time, by name when known; what is written or *)
(*           read becomes known                                            *)
(* Names can be read in any mode, if known.                                *)
(*                                                                         *)
(* World: objs [k, id, kids (places in the list)], scopes [k, mode, has     *)
(* (places)], docs.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxActs, Threads
Worlds == JsonDeserialize(IOEnv.WORLD)

VARIABLES w, known, stack, objs, docs, next, murky, hist
vars == <<w, known, stack, objs, docs, next, murky, hist>>
W == Worlds.worlds[w]

RECURSIVE ObjectAt(_, _)
ObjectAt(ww, i) == LET o == ww.objs[i] IN
  [k |-> o.k, id |-> o.id, c |-> i, ser |-> i, kids |-> [a \in 1 .. Len(o.kids) |-> ObjectAt(ww, o.kids[a])]]
Empty == [x \in {} |-> 0]
Put(map, o) == [x \in DOMAIN map \cup {o.id} |-> IF x = o.id THEN o ELSE map[x]]
RECURSIVE Supplied(_, _, _)
Supplied(ww, has, a) == IF a = 0 THEN Empty ELSE Put(Supplied(ww, has, a - 1), ObjectAt(ww, has[a]))

Init == /\ w \in 1 .. Len(Worlds.worlds)
        /\ known = [d \in 1 .. Len(W.scopes) |-> Supplied(W, W.scopes[d].has, Len(W.scopes[d].has))]
        /\ stack = [t \in Threads |-> <<>>]
        /\ objs = [i \in 1 .. Len(W.objs) |-> ObjectAt(W, i)]
        /\ docs = W.docs
        /\ next = Len(W.objs) + 1
        /\ murky = {} /\ hist = <<>>

InUse == UNION { { stack[t][a] : a \in 1 .. Len(stack[t]) } : t \in Threads }
RECURSIVE Innermost(_, _, _)
Innermost(s, k, a) == IF a = 0 THEN 0 ELSE IF W.scopes[s[a]].k = k THEN s[a] ELSE Innermost(s, k, a - 1)
Current(st, t, k) == Innermost(st[t], k, Len(st[t]))
ScopeOf(kn, st, t, k) == LET d == Current(st, t, k) IN
  IF d = 0 THEN [mode |-> "inline", map |-> Empty] ELSE [mode |-> W.scopes[d].mode, map |-> kn[d]]
Here(t) == [ccy |-> ScopeOf(known, stack, t, "ccy"), ins |-> ScopeOf(known, stack, t, "ins")]
(* what is known after s, of the scopes current for t *)
Kept(t, s) == [d \in DOMAIN known |-> IF d = Current(stack, t, "ccy") THEN s.ccy.map
                                      ELSE IF d = Current(stack, t, "ins") THEN s.ins.map ELSE known[d]]

----------------------------------------------------------------------------
Learn(s, o) == IF o.k = "ccy" THEN [s EXCEPT !.ccy.map = Put(s.ccy.map, o)] ELSE [s EXCEPT !.ins.map = Put(s.ins.map, o)]
Node(o, full, kids) == [k |-> o.k, id |-> o.id, full |-> full, c |-> IF full THEN o.c ELSE 0, kids |-> kids]

RECURSIVE Written(_, _), WrittenAll(_, _)
WrittenAll(s, os) ==
  IF os = <<>> THEN [ok |-> TRUE, s |-> s, ts |-> <<>>]
  ELSE LET x == Written(s, Head(os)) IN
       IF ~ x.ok THEN [ok |-> FALSE, s |-> s, ts |-> <<>>]
       ELSE LET y == WrittenAll(x.s, Tail(os)) IN [ok |-> y.ok, s |-> y.s, ts |-> <<x.t>> \o y.ts]
Written(s, o) ==
  LET h == s[o.k]
      there == o.id \in DOMAIN h.map
      name(z) == [ok |-> TRUE, s |-> z, t |-> Node(o, FALSE, <<>>)]
      full(z) == LET y == WrittenAll(z, o.kids) IN [ok |-> y.ok, s |-> y.s, t |-> Node(o, TRUE, y.ts)]
  IN CASE h.mode = "inline" -> full(s)
       [] h.mode = "missing" -> IF there THEN name(s) ELSE [ok |-> FALSE, s |-> s, t |-> Node(o, FALSE, <<>>)]
       [] h.mode = "once" -> IF there THEN name(Learn(s, o)) ELSE full(Learn(s, o))

RECURSIVE Got(_, _, _), GotAll(_, _, _)
GotAll(s, n, ts) ==
  IF ts = <<>> THEN [ok |-> TRUE, s |-> s, n |-> n, os |-> <<>>]
  ELSE LET x == Got(s, n, Head(ts)) IN
       IF ~ x.ok THEN [ok |-> FALSE, s |-> s, n |-> n, os |-> <<>>]
       ELSE LET y == GotAll(x.s, x.n, Tail(ts)) IN [ok |-> y.ok, s |-> y.s, n |-> y.n, os |-> <<x.o>> \o y.os]
Got(s, n, t) ==
  LET h == s[t.k]
      nil == [k |-> t.k, id |-> t.id, c |-> 0, ser |-> 0, kids |-> <<>>]
  IN IF ~ t.full
     THEN IF t.id \in DOMAIN h.map THEN [ok |-> TRUE, s |-> s, n |-> n, o |-> h.map[t.id]] ELSE [ok |-> FALSE, s |-> s, n |-> n, o |-> nil]
     ELSE LET y == GotAll(s, n, t.kids)
              o == [k |-> t.k, id |-> t.id, c |-> t.c, ser |-> y.n, kids |-> y.os]
          IN IF ~ y.ok THEN [ok |-> FALSE, s |-> s, n |-> n, o |-> nil]
             ELSE [ok |-> TRUE, s |-> IF y.s[t.k].mode = "once" THEN Learn(y.s, o) ELSE y.s, n |-> y.n + 1, o |-> o]

----------------------------------------------------------------------------
(* What a thread can tell about where it is. *)
Seen(kn, st, mk, t) == [k \in {"ccy", "ins"} |->
   LET z == ScopeOf(kn, st, t, k) d == Current(st, t, k) IN [mode |-> z.mode, has |-> DOMAIN z.map, sure |-> d \notin mk]]
View(kn, st, mk) == [t \in Threads |-> Seen(kn, st, mk, t)]
Did(t, a, i, j, r) == hist' = Append(hist, [t |-> t, a |-> a, i |-> i, j |-> j, r |-> r, view |-> View(known', stack', murky')])

Enter(t) == \E d \in DOMAIN W.scopes :
  /\ d \notin InUse /\ Len(stack[t]) < 4
  /\ stack' = [stack EXCEPT ![t] = Append(stack[t], d)]
  /\ UNCHANGED <<known, objs, docs, next, murky>>
  /\ Did(t, "enter", d, 0, <<>>)
(* by returning, by an error or by a panic that passes through n scopes *)
Leave(t) == \E how \in {"return", "error", "panic"}, n \in 1 .. 3 :
  /\ n <= Len(stack[t])
  /\ stack' = [stack EXCEPT ![t] = SubSeq(stack[t], 1, Len(stack[t]) - n)]
  /\ UNCHANGED <<known, objs, docs, next, murky>>
  /\ Did(t, how, n, 0, <<>>)

(* how much was written or read before an error is nobody's business *)
Sure(t) == {Current(stack, t, "ccy"), Current(stack, t, "ins")} \cap murky = {}
Muddied(t) == { d \in {Current(stack, t, "ccy"), Current(stack, t, "ins")} : d # 0 /\ W.scopes[d].mode = "once" }
Write(t) == \E i \in 1 .. Len(objs) :
  LET x == Written(Here(t), objs[i]) IN
  /\ Sure(t) /\ Len(docs) < Len(W.docs) + 3
  /\ known' = IF x.ok THEN Kept(t, x.s) ELSE known
  /\ docs' = IF x.ok THEN Append(docs, x.t) ELSE docs
  /\ murky' = IF x.ok THEN murky ELSE murky \cup Muddied(t)
  /\ UNCHANGED <<stack, objs, next>>
  /\ Did(t, "write", i, 0, IF x.ok THEN <<x.t>> ELSE <<>>)
Read(t) == \E j \in 1 .. Len(docs) :
  LET x == Got(Here(t), next, docs[j]) IN
  /\ Sure(t) /\ Len(objs) < Len(W.objs) + 3
  /\ known' = IF x.ok THEN Kept(t, x.s) ELSE known
  /\ objs' = IF x.ok THEN Append(objs, x.o) ELSE objs
  /\ next' = IF x.ok THEN x.n ELSE next
  /\ murky' = IF x.ok THEN murky ELSE murky \cup Muddied(t)
  /\ UNCHANGED <<stack, docs>>
  /\ Did(t, "read", j, 0, IF x.ok THEN <<x.o>> ELSE <<>>)
(* With modes and objects of its own, whatever is current. *)
ReadWith(t) == \E j \in 1 .. Len(docs), c \in DOMAIN W.scopes, d \in DOMAIN W.scopes :
  LET fresh(e) == [mode |-> W.scopes[e].mode, map |-> Supplied(W, W.scopes[e].has, Len(W.scopes[e].has))]
      x == Got([ccy |-> fresh(c), ins |-> fresh(d)], next, docs[j]) IN
  /\ docs[j].k = "ins" /\ W.scopes[c].k = "ccy" /\ W.scopes[d].k = "ins"
  /\ Len(objs) < Len(W.objs) + 3
  /\ objs' = IF x.ok THEN Append(objs, x.o) ELSE objs
  /\ next' = IF x.ok THEN x.n ELSE next
  /\ UNCHANGED <<known, stack, docs, murky>>
  /\ Did(t, "with", j, <<c, d>>, IF x.ok THEN <<x.o>> ELSE <<>>)

Go == Len(hist) < MaxActs /\ UNCHANGED w
Next == \/ Go /\ \E t \in Threads : Enter(t)
        \/ Go /\ \E t \in Threads : Leave(t)
        \/ Go /\ \E t \in Threads : Write(t)
        \/ Go /\ \E t \in Threads : Read(t)
        \/ Go /\ \E t \in Threads : ReadWith(t)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Of the specification itself. *)
RECURSIVE Occurs(_, _, _)
RECURSIVE Count(_, _)
Count(ts, f) == IF ts = <<>> THEN 0 ELSE Count(Tail(ts), f) + Occurs(Head(ts), f[1], f[2])
Occurs(t, k, id) == (IF t.full /\ t.k = k /\ t.id = id THEN 1 ELSE 0) + Count(t.kids, <<k, id>>)
LastAct == hist[Len(hist)]
(* write-once writes nothing twice; writing by name only writes names *)
OnceOnly == Len(hist) > 0 /\ LastAct.a = "write" /\ LastAct.r # <<>> =>
  LET t == LastAct.t o == objs[LastAct.i] doc == LastAct.r[1] IN
  /\ \A k \in {"ccy", "ins"} : Here(t)[k].mode = "once" => \A x \in { objs[i] : i \in 1 .. Len(objs) } : x.k = k => Occurs(doc, k, x.id) <= 1
  /\ Here(t)[o.k].mode = "missing" => ~ doc.full
(* what is written in full is read back as something of the same shape *)
RECURSIVE Shape(_)
Shape(o) == <<o.k, o.id, [a \in 1 .. Len(o.kids) |-> Shape(o.kids[a])]>>
RoundTrip == Len(hist) > 1 =>
  LET a == hist[Len(hist) - 1] b == hist[Len(hist)] IN
  a.a = "write" /\ a.r # <<>> /\ b.a = "read" /\ b.t = a.t /\ b.i = Len(docs) /\ b.r # <<>>
  => Shape(b.r[1]) = Shape(objs[a.i])

Emit == Len(hist) = MaxActs => CSVWrite("%1$s", << ToJson([w |-> w, hist |-> hist]) >>, IOEnv.OUT)
=============================================================================
