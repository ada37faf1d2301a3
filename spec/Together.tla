------------------------------ MODULE Together ------------------------------
(***************************************************************************)
(* Two users code items at the same time, each of them one after the       *)
(* other.  A user does a part of its item, then the other may be on, or,   *)
(* in the middle of an item, the stream of the one has the other do all it *)
(* has to (one thread then does both).  What becomes of an item depends on *)
(* its own bytes: not on what was coded, or refused, before or meanwhile.  *)
(***************************************************************************)
EXTENDS Catalogue, SequencesExt

CONSTANTS Kinds, N, Seed

VARIABLES plan,        \* number of the plan
          jobs,        \* what each user has to do, in order
          step,        \* steps each user made
          moved,       \* bytes of the current item of each user that were moved
          out,         \* what became of the items of each user
          sched        \* who was on
vars == <<plan, jobs, step, moved, out, sched>>

Users == {1, 2}
Jobs == 2              \* items of a user
Steps == 2 * Jobs      \* each in two parts
KindSeq == SetToSeq(Kinds)

Ops == <<"rd", "wr", "rd", "wr", "tx", "cut", "full">>
\* the bytes an operation gets to move
Share(j) == IF j.op \in {"cut", "full"} THEN SubSeq(j.b, 1, j.cut) ELSE j.b

Item(s, text) ==
  LET r == Rnd(Mix(s, 1), 5)
      t == IF text THEN "Command" ELSE IF r = 0 /\ "Action" \in Kinds THEN "Action" ELSE IF r < 3 /\ "Command" \in Kinds THEN "Command"
           ELSE KindSeq[1 + Rnd(Mix(s, 2), Len(KindSeq))]
      x == 1 + Rnd(Mix(s, 3), Variants(t))
      v == GenItem(t, x, Mix(s, 4))
  IN [t |-> t, id |-> IdOf(t, x), v |-> v, b |-> EncItem(t, v)]
\* another item of the same kind
Sibling(i, s) == LET v == IF i.t \in {"Action", "Query", "File", "InterfaceConfiguration", "IndirectInterface"}
                          THEN LET w == GenItem(i.t, 1 + Rnd(Mix(s, 5), Variants(i.t)), Mix(s, 6))
                               IN IF i.t = "File" THEN i.v ELSE w
                          ELSE GenItem(i.t, 1, Mix(s, 7))
                 IN [i EXCEPT !.v = v, !.b = EncItem(i.t, v)]
\* an item that differs in a byte only
Near(i, s) ==
  LET n == Len(i.b)
      alt(k) == LET p == 1 + Rnd(Mix(s, 20 + k), n)
                    x == i.b[p]
                    y == CASE k % 3 = 0 -> (x + 1) % 256 [] k % 3 = 1 -> (x + 128) % 256 [] OTHER -> Rnd(Mix(s, 30 + k), 256)
                    b == [i.b EXCEPT ![p] = y]
                    d == DecItem(i.t, i.id, b)
                IN IF IsOk(d) /\ d[3] = n /\ EncItem(i.t, d[2]) = b THEN <<d[2], b>> ELSE <<>>
      good == IF n = 0 THEN {} ELSE {k \in 1..6 : alt(k) # <<>>}
  IN IF good = {} THEN i ELSE LET a == alt(CHOOSE k \in good : \A l \in good : k <= l) IN [i EXCEPT !.v = a[1], !.b = a[2]]
Job(i, s, text) ==
  LET o == IF text THEN "tx" ELSE Ops[1 + Rnd(Mix(s, 8), Len(Ops))]
      n == Len(i.b)
      op == CASE o = "tx" -> IF i.t = "Command" THEN "tx" ELSE "wr"
              [] o = "cut" -> IF n = 0 \/ Greedy(i.t, i.id) THEN "rd" ELSE "cut"
              [] o = "full" -> IF n = 0 THEN "wr" ELSE "full"
              [] OTHER -> o
      cut == IF n = 0 THEN 0 ELSE Rnd(Mix(s, 9), n)
      share == IF op \in {"cut", "full"} THEN cut ELSE n
  IN [op |-> op, cut |-> cut, bound |-> Rnd(Mix(s, 10), IF op = "tx" THEN 30 * n + 40 ELSE share + 1)] @@ i

\* kinds of items often return, so do items themselves
PlanOf(p) ==
  LET s == Mix(Seed * 47 + p, 12)
      \* all of them show commands
      text == p % 7 = 6
      a == Item(Mix(s, 1), text)
      b == IF p % 3 = 0 THEN a ELSE IF p % 3 = 1 THEN Sibling(a, Mix(s, 2)) ELSE Near(a, Mix(s, 3))
      c == CASE p % 4 = 0 -> Sibling(b, Mix(s, 4)) [] p % 4 = 1 -> Near(a, Mix(s, 4)) [] OTHER -> Item(Mix(s, 5), text)
      d == IF p % 5 = 0 THEN a ELSE IF p % 5 = 1 THEN Sibling(c, Mix(s, 6)) ELSE Item(Mix(s, 7), text)
  IN << <<Job(a, Mix(s, 11), text), Job(c, Mix(s, 12), text)>>, <<Job(b, Mix(s, 13), text), Job(d, Mix(s, 14), text)>> >>

Init == /\ plan \in 1..N /\ jobs = <<>> /\ step = <<0, 0>> /\ moved = << <<>>, <<>> >>
        /\ out = << <<>>, <<>> >> /\ sched = <<>>
Make == jobs = <<>> /\ jobs' = PlanOf(plan) /\ UNCHANGED <<plan, step, moved, out, sched>>

Outcome(j, seen) ==
  CASE j.op \in {"rd", "cut"} -> LET d == DecItem(j.t, j.id, seen) IN IF IsOk(d) THEN <<"value", d[2], d[3]>> ELSE <<"error">>
    [] j.op = "wr" -> <<"bytes", seen>>
    [] j.op = "full" -> IF seen = j.b THEN <<"bytes", seen>> ELSE <<"error">>
    [] j.op = "tx" -> <<"text", seen>>

On(u) ==
  /\ jobs # <<>> /\ step[u] < Steps
  /\ LET j == jobs[u][1 + step[u] \div 2]
         all == Share(j)
     IN IF step[u] % 2 = 0
        THEN /\ moved' = [moved EXCEPT ![u] = SubSeq(all, 1, Min(j.bound, Len(all)))]
             /\ out' = out
        ELSE LET seen == moved[u] \o SubSeq(all, Len(moved[u]) + 1, Len(all)) IN
             /\ moved' = [moved EXCEPT ![u] = <<>>]
             /\ out' = [out EXCEPT ![u] = Append(@, Outcome(j, seen))]
  /\ step' = [step EXCEPT ![u] = @ + 1]
  /\ sched' = Append(sched, u)
  /\ UNCHANGED <<plan, jobs>>
Next == Make \/ \E u \in Users : On(u)

-----------------------------------------------------------------------------
Alone(j) == CASE j.op = "rd" -> <<"value", j.v, Len(j.b)>>
              [] j.op = "wr" -> <<"bytes", j.b>>
              [] j.op = "tx" -> <<"text", j.b>>
              [] OTHER -> <<"error">>
\* whoever else was on: the same as alone
Isolated == \A u \in Users : \A i \in 1..Len(out[u]) : out[u][i] = Alone(jobs[u][i])
\* nobody waits for anybody
Ready == jobs # <<>> => \A u \in Users : step[u] < Steps => ENABLED On(u)
Progress_ == Len(sched) = step[1] + step[2] /\ \A u \in Users : Len(out[u]) = step[u] \div 2

Done == Len(sched) = 2 * Steps
\* one is on from its first step to its last while the other is in the middle of an item
Inside(u) == \E k \in {1, 3} : /\ \A i \in 1..k : sched[i] = 3 - u
                               /\ \A i \in (k + 1)..(k + Steps) : sched[i] = u
Emitted == Done => Emit([k |-> "hist", users |-> jobs, sched |-> sched, nest |-> \E u \in Users : Inside(u)])
=============================================================================
