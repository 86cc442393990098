------------------------------ MODULE Handles -------------------------------
(***************************************************************************)
(* The C interface: handles, what they hold and what calls make of them     *)
(* (P18).                                                                  *)
(*                                                                         *)
(* A handle is [kind, text, live, msg]: a kind of thing, which of the       *)
(* World's texts it was read from (0 if it was not), whether it still may   *)
(* be used, and for an error which earlier error it repeats (0 if it is     *)
(* one of its own).  Every call yields a handle or a string, whatever it is *)
(* given; only Free and Compare use handles up.                            *)
(*                                                                         *)
(* World: texts [kind, ok, id, wants (of ids, to be supplied by name),      *)
(* needs (of data), has (data), mc (can be, or is, priced so)].            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

(* Narrow: for long walks, consider only some of the texts at each step *)
CONSTANTS MaxActs, MaxLive, Narrow
World == JsonDeserialize(IOEnv.WORLD)
Texts == 1 .. Len(World.texts)
X(i) == World.texts[i]
Set(s) == { s[a] : a \in 1 .. Len(s) }

VARIABLES hs, hist, done
vars == <<hs, hist, done>>

(* some handles to begin with, one for each of the starting texts *)
Loaded(t) == IF X(t).ok THEN [kind |-> X(t).kind, text |-> t, live |-> TRUE, msg |-> 0] ELSE [kind |-> "error", text |-> 0, live |-> TRUE, msg |-> 0]
Init == /\ done = FALSE
        /\ \E s \in 1 .. Len(World.starts) :
             /\ hs = [a \in 1 .. Len(World.starts[s]) |-> Loaded(World.starts[s][a])]
             /\ hist = << [a |-> "start", args |-> World.starts[s], how |-> "", r |-> [a \in 1 .. Len(World.starts[s]) |-> Loaded(World.starts[s][a]).kind], like |-> 0] >>

Live == { h \in DOMAIN hs : hs[h].live }
Room == Cardinality(Live) < MaxLive
Error(like) == [kind |-> "error", text |-> 0, live |-> TRUE, msg |-> like]

(* The handles given where handles of a kind are wanted: what is wrong?  Nothing, or one   *)
(* error handed on, or something else.                                                      *)
Wrong(args, kinds) == { a \in DOMAIN args : hs[args[a]].kind # kinds[a] }
Blame(args, kinds) == LET z == Wrong(args, kinds) IN
  IF Cardinality(z) = 1 /\ hs[args[CHOOSE a \in z : TRUE]].kind = "error" THEN args[CHOOSE a \in z : TRUE] ELSE 0
Act(a, args, how, new) ==
  /\ hs' = Append(hs, new)
  /\ hist' = Append(hist, [a |-> a, args |-> args, how |-> how, r |-> <<new.kind>>, like |-> new.msg])

Kinds == {"currency", "market", "fixings", "factory", "generator", "reports"}
(* Reading text of one kind where another is wanted gives an error, too. *)
Load == \E t \in Texts, k \in Kinds, how \in {"string", "file"} :
  /\ Room /\ (X(t).kind = k \/ (X(t).odd /\ how = "string"))
  /\ Act("load", <<t>>, [kind |-> k, via |-> how], IF X(t).kind = k THEN Loaded(t) ELSE Error(0))
NoFile == \E k \in Kinds \cup {"instrument"} : Room /\ Act("nofile", <<>>, k, Error(0))

Modes == {"inline", "missing", "once"}
Ids(args) == { X(hs[args[a]].text).id : a \in DOMAIN args }
(* An instrument, given currencies and instruments it may refer to by name. *)
Of(k) == { h \in Live : hs[h].kind = k }
Pick == {<<>>} \cup { <<h>> : h \in Live }
Pairs(k) == { <<h, g>> : h \in Of(k), g \in Of(k) }
Some(S) == IF Narrow THEN {RandomElement(S), RandomElement(S), RandomElement(S)} ELSE S
Instrument == \E t \in Some({ t \in Texts : X(t).kind = "instrument" \/ X(t).odd }), cs \in Pick \cup Pairs("currency"), is \in Pick \cup Pairs("instrument"), how \in {"string", "file"}, m \in Some(Modes) :
  LET args == cs \o is
      kinds == [a \in DOMAIN args |-> IF a <= Len(cs) THEN "currency" ELSE "instrument"]
      fine == Wrong(args, kinds) = {}
  IN /\ Room /\ Cardinality(Wrong(args, kinds)) <= 1
     /\ (how = "file" => m = "once")
     /\ Act("instrument", args, [text |-> t, ccys |-> Len(cs), mode |-> m, via |-> how],
            IF ~ fine THEN Error(Blame(args, kinds))
            ELSE IF X(t).kind = "instrument" /\ X(t).ok /\ Set(X(t).wants) \subseteq Ids(args) THEN Loaded(t) ELSE Error(0))

Worth(f, i, x, m) == LET g(h) == X(hs[h].text) IN
  /\ Set(g(i).needs) \subseteq Set(g(x).has) \cup Set(g(m).has)
  /\ g(f).works /\ (g(f).mc => g(i).mc)
CalcKinds(n) == <<"factory", "instrument", "fixings", "market">> \o [a \in 1 .. n |-> "generator"]
Best(k) == IF Of(k) = {} THEN Live ELSE Of(k)
(* one handle of the four may be replaced by any other *)
Calculate == \E f \in Best("factory"), i \in Best("instrument"), x \in Best("fixings"), m \in Best("market"), p \in 0 .. 4, o \in Live,
                gs \in {<<>>} \cup { <<g>> : g \in Of("generator") } \cup { <<g, e>> : g \in Of("generator"), e \in Of("generator") } :
  LET four == <<f, i, x, m>>
      args == [a \in 1 .. 4 |-> IF a = p THEN o ELSE four[a]] \o gs
      wrong == Wrong(args, CalcKinds(Len(gs)))
  IN /\ Room /\ (p = 0 => o = f) /\ (p > 0 => four[p] # o /\ hs[o].kind # CalcKinds(0)[p] /\ four[p] = CHOOSE h \in Best(CalcKinds(0)[p]) : TRUE)
     /\ Cardinality(wrong) <= 1
     /\ Act("calculate", args, "", IF wrong # {} THEN Error(Blame(args, CalcKinds(Len(gs))))
            ELSE IF Worth(f, i, x, m) THEN [kind |-> "reports", text |-> 0, live |-> TRUE, msg |-> 0] ELSE Error(0))
CalculateOdd == \E f \in Of("factory"), i \in Of("instrument"), x \in Of("fixings"), m \in Of("market"), g \in Live :
  /\ Room /\ hs[g].kind # "generator"
  /\ Act("calculate", <<f, i, x, m, g>>, "", Error(IF hs[g].kind = "error" THEN g ELSE 0))

(* Uses both handles up.  Whether results are the same is ReportCompare's business. *)
Compare == \E a, b \in Live :
  LET bad == Wrong(<<a, b>>, <<"reports", "reports">>) IN
  /\ a # b /\ (hs[a].kind = "reports" \/ hs[b].kind = "reports")
  /\ hs' = Append([hs EXCEPT ![a].live = FALSE, ![b].live = FALSE],
                  IF bad # {} THEN Error(Blame(<<a, b>>, <<"reports", "reports">>)) ELSE [kind |-> "verdict", text |-> 0, live |-> TRUE, msg |-> 0])
  /\ hist' = Append(hist, [a |-> "compare", args |-> <<a, b>>, how |-> "",
                           r |-> << IF bad # {} THEN "error" ELSE "verdict" >>, like |-> IF bad # {} THEN Blame(<<a, b>>, <<"reports", "reports">>) ELSE 0])

(* A verdict is an error or nothing; all kinds can be copied but reports. *)
Clone == \E h \in Live : Room /\ Act("clone", <<h>>, "",
  IF hs[h].kind = "reports" THEN Error(0) ELSE [hs[h] EXCEPT !.msg = IF hs[h].kind = "error" THEN h ELSE 0])
Free == \E h \in Live :
  /\ hs' = [hs EXCEPT ![h].live = FALSE]
  /\ hist' = Append(hist, [a |-> "free", args |-> <<h>>, how |-> "", r |-> <<>>, like |-> 0])
Look == \E h \in Live :
  /\ hs' = hs
  /\ hist' = Append(hist, [a |-> "look", args |-> <<h>>, how |-> "", r |-> <<hs[h].kind>>, like |-> 0])

Go == Len(hist) <= MaxActs /\ UNCHANGED done
Stop == Len(hist) = MaxActs + 1 /\ ~ done /\ done' = TRUE /\ UNCHANGED <<hs, hist>>
Next == \/ Stop
        \/ Go /\ (Load \/ NoFile)
        \/ Go /\ Instrument
        \/ Go /\ Calculate
        \/ Go /\ CalculateOdd
        \/ Go /\ Compare
        \/ Go /\ Clone
        \/ Go /\ Free
        \/ Go /\ Look
Spec == Init /\ [][Next]_vars

(* errors only repeat errors *)
Traced == \A h \in DOMAIN hs : hs[h].msg # 0 => hs[h].kind = "error" /\ hs[hs[h].msg].kind = "error"
Emit == done => CSVWrite("%1$s", << ToJson([hist |-> hist]) >>, IOEnv.OUT)
=============================================================================
