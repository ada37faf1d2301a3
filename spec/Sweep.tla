-------------------------------- MODULE Sweep -------------------------------
(***************************************************************************)
(* A valid item in which one byte takes each of its 256 values: which of   *)
(* them are defined, how far the item then reaches and how it is written   *)
(* again.  Undefined codes must be refused, defined ones accepted.         *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS Kinds, N, Seed,
          Front, Stride,  \* positions that are tried: the first ones, and a share of the others
          Judge           \* what is looked at: "codes", "incomplete", "count", "again"

VARIABLES phase, job, wire, pos, res
vars == <<phase, job, wire, pos, res>>

JobSeed(j) == Mix(Mix(Seed * 19 + j[3], j[2]), 6)
Jobs == UNION {{t} \X (1..Variants(t)) \X (1..N) : t \in Kinds}
Id == IdOf(job[1], job[2])

Init == /\ phase = "idle" /\ job \in Jobs
        /\ wire = <<>> /\ pos = 0 /\ res = <<>>

Make == /\ phase = "idle"
        /\ wire' = EncItem(job[1], GenItem(job[1], job[2], JobSeed(job)))
        /\ phase' = "made" /\ UNCHANGED <<job, pos, res>>

\* positions near the start, where the codes are, and a share of the others
Pick == /\ phase = "made"
        /\ \E p \in 1..Len(wire) : /\ p <= Front \/ (p + Seed) % Stride = 0
                                   /\ pos' = p
        /\ phase' = "picked" /\ UNCHANGED <<job, wire, res>>

Altered(x) == [wire EXCEPT ![pos] = x]
Entry(x) == LET b == Altered(x)
                d == DecItem(job[1], Id, b)
            IN IF ~IsOk(d) THEN [n |-> IF d = Inc THEN -2 ELSE -1, c |-> <<>>, kb |-> <<>>, same |-> TRUE]
               ELSE LET e == EncItem(job[1], d[2])
                        ke == IF job[1] \in KnownIn THEN KnownItem(job[1], d[2]) ELSE e
                        kb == IF ke = e THEN <<>> ELSE << <<x, ke>> >>
                        d2 == IF e = b THEN d ELSE DecItem(job[1], Id, e)
                    IN [n |-> d[3], kb |-> kb,
                        c |-> IF e = SubSeq(b, 1, d[3]) THEN <<>> ELSE << <<x, e>> >>,
                        \* its encoding means the same again
                        same |-> (job[1] \in {"ForegroundFrame"}) \/ (IsOk(d2) /\ d2[2] = d[2])]
Try == /\ phase = "picked"
       /\ res' = [x \in 1..256 |-> Entry(x - 1)]
       /\ phase' = "tried" /\ UNCHANGED <<job, wire, pos>>

Next == Make \/ Pick \/ Try

Bounded_ == phase = "tried" => \A x \in 1..256 : res[x].n <= Len(wire)
Canonical == phase = "tried" => \A x \in 1..256 : res[x].same
\* the byte as it was is valid
OriginalOk == phase = "tried" => res[wire[pos] + 1].n = Len(wire)

Emitted == phase = "tried" =>
  Emit([k |-> "sweep", t |-> job[1], id |-> Id, b |-> wire, pos |-> pos - 1, judge |-> Judge,
        cls |-> [x \in 1..256 |-> res[x].n],
        canon |-> Flatten([x \in 1..256 |-> res[x].c]),
        kb |-> Flatten([x \in 1..256 |-> res[x].kb])])
=============================================================================
