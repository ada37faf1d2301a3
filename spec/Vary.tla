-------------------------------- MODULE Vary --------------------------------
(***************************************************************************)
(* One byte of an item varies over its values, all others stay: whatever   *)
(* is then still an item has exactly the fields the format gives it, in    *)
(* both directions.  This reaches every code of every coded field.         *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS Kinds, N, Seed,
          Front, Stride,  \* positions that vary: the first ones, and a share of the others
          Step,           \* values that are tried: every Step-th, and those near a power of two
          Pairs           \* of so many first bytes any two vary together, over few values

VARIABLES phase, job, wire, pos,
          pos2,           \* the other byte that varies, 0 if there is none
          met
vars == <<phase, job, wire, pos, pos2, met>>

JobSeed(j) == Mix(Mix(Seed * 37 + j[3], j[2]), 9)
Jobs == UNION {{t} \X (1..Variants(t)) \X (1..N) : t \in Kinds}
Id == IdOf(job[1], job[2])

Init == /\ phase = "idle" /\ job \in Jobs
        /\ wire = <<>> /\ pos = 0 /\ pos2 = 0 /\ met = <<>>

Make == /\ phase = "idle"
        /\ wire' = EncItem(job[1], GenItem(job[1], job[2], JobSeed(job)))
        /\ phase' = "made" /\ UNCHANGED <<job, pos, pos2, met>>

Pick == /\ phase = "made"
        /\ \/ \E p \in 1..Len(wire) : /\ p <= Front \/ (p + Seed) % Stride = 0
                                      /\ pos' = p /\ pos2' = 0
           \/ \E p, q \in 1..Min(Pairs, Len(wire)) : p < q /\ pos' = p /\ pos2' = q
        /\ phase' = "picked" /\ UNCHANGED <<job, wire, met>>

Corner(x) == x \in {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 192, 254, 255}
Chosen(x) == Step = 1 \/ Corner(x) \/ x \in HintBytes \/ (x + pos + job[2] + Seed) % Step = 0

\* what altered bytes mean, if they mean something
Meaning(b) == LET d == DecItem(job[1], Id, b)
              IN IF ~IsOk(d) THEN <<>>
                 ELSE LET e == EncItem(job[1], d[2])
                          back == DecItem(job[1], Id, e)
                      \* the length of a frame also counts what precedes the command: altered, it may fit no longer
                      IN IF job[1] = "ForegroundFrame" /\ back # Ok(d[2], Len(e)) THEN <<>>
                         ELSE << [v |-> d[2], b |-> e, back |-> back] >>
One(x) == IF Chosen(x) THEN Meaning([wire EXCEPT ![pos] = x]) ELSE <<>>

\* few values, among them changes of a single bit
Few == LET few == InOrderOf(HintBytes \ {0, 1, 64, 127, 128, 255})
       IN <<0, 1, 64, 127, 128, 255>> \o SubSeq(few, 1, Min(Len(few), 6))
AtPos(i, p) == IF i <= Len(Few) THEN Few[i] ELSE IF i = Len(Few) + 1 THEN (IF wire[p] % 2 = 0 THEN wire[p] + 1 ELSE wire[p] - 1)
               ELSE (wire[p] + 128) % 256
Both == LET n == Len(Few) + 2 IN
        Flatten([k \in 1..(n * n) |->
                   Meaning([wire EXCEPT ![pos] = AtPos(1 + ((k - 1) % n), pos), ![pos2] = AtPos(1 + ((k - 1) \div n), pos2)])])
Try == /\ phase = "picked"
       /\ met' = IF pos2 > 0 THEN Both ELSE Flatten([x \in 1..256 |-> One(x - 1)])
       /\ phase' = "tried" /\ UNCHANGED <<job, wire, pos, pos2>>

Next == Make \/ Pick \/ Try

\* whatever is read is written so that it is read again
Back == phase = "tried" => \A i \in 1..Len(met) : met[i].back = Ok(met[i].v, Len(met[i].b))
Kb(r) == LET kb == IF job[1] \in KnownIn THEN KnownItem(job[1], r.v) ELSE r.b IN IF kb = r.b THEN r ELSE [kb |-> kb] @@ r
Emitted == phase = "tried" =>
   \A i \in 1..Len(met) : Emit(Kb([k |-> "rt", t |-> job[1], id |-> Id, v |-> met[i].v, b |-> met[i].b]))
=============================================================================
