-------------------------------- MODULE Items -------------------------------
(***************************************************************************)
(* One item travels: it is made, put on the wire, the wire may be cut, go  *)
(* on with other bytes or carry another encoding of the item, and it is    *)
(* read.  The invariants are the guarantees of the protocol on this path;  *)
(* every behaviour that ends is replayed in the implementation.            *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS Kinds,          \* names of the items
          N,              \* number of items per variant
          Seed,
          Mode            \* "rt", "new", "cut", "tail" or "stable": what befalls the wire

VARIABLES phase, job, val, wire, seen, got
vars == <<phase, job, val, wire, seen, got>>

JobSeed(j) == Mix(Mix(Seed * 17 + j[3], j[2]), 5)
Jobs == UNION {{t} \X (1..Variants(t)) \X (1..N) : t \in Kinds}

Init == /\ phase = "idle"
        /\ job \in Jobs
        /\ val = <<>> /\ wire = <<>> /\ seen = <<>> /\ got = <<>>

Id == IdOf(job[1], job[2])

Make == /\ phase = "idle"
        /\ val' = GenItem(job[1], job[2], JobSeed(job))
        /\ wire' = EncItem(job[1], val')
        /\ phase' = "sent"
        /\ UNCHANGED <<job, seen, got>>

Tails == << <<>>, <<0>>, <<255>>, <<34, 215, 0>>, GenBytes(Mix(JobSeed(job), 71), 9), wire >>

\* what the reader gets to see
Transmit ==
  /\ phase = "sent"
  /\ \/ Mode \in {"rt", "new"} /\ seen' = wire
     \/ Mode = "cut" /\ \E k \in 0..(Len(wire) - 1) : seen' = SubSeq(wire, 1, k)
     \/ Mode = "tail" /\ \E i \in 1..Len(Tails) : seen' = wire \o Tails[i]
     \/ Mode = "stable" /\ \E i \in 1..3 : seen' = LooseItem(job[1], val, Mix(JobSeed(job), 80 + i))
  /\ phase' = "arrived"
  /\ UNCHANGED <<job, val, wire, got>>

Read == /\ phase = "arrived"
        /\ got' = DecItem(job[1], Id, seen)
        /\ phase' = "read"
        /\ UNCHANGED <<job, val, wire, seen>>

Next == Make \/ Transmit \/ Read

-----------------------------------------------------------------------------
TypeOK == /\ \A i \in 1..Len(wire) : wire[i] \in Byte
          /\ phase = "read" => got[1] \in {"ok", "inc", "bad"}

\* what was sent is what is read, and all of it
RoundTrip == (phase = "read" /\ Mode \in {"rt", "new"}) => got = Ok(val, Len(wire))
\* a part of an item is not an item
CutRejected == (phase = "read" /\ Mode = "cut") => got = Inc
\* what follows an item is not part of it
TailUntouched == (phase = "read" /\ Mode = "tail") => got = Ok(val, Len(wire))
\* other encodings mean the same and are written in the one canonical way
Stable == (phase = "read" /\ Mode = "stable") =>
             got = Ok(val, Len(seen)) /\ EncItem(job[1], got[2]) = wire
NoOverread == (phase = "read" /\ IsOk(got)) => got[3] <= Len(seen)

Kb(r) == LET kb == KnownItem(job[1], val) IN IF kb = wire THEN r ELSE [kb |-> kb] @@ r
\* one case per item, or per alternative encoding
Case ==
  CASE Mode = "rt" -> Kb([k |-> "rt", t |-> job[1], id |-> Id, v |-> val, b |-> wire])
    [] Mode = "new" -> [k |-> "new", t |-> job[1], id |-> Id, v |-> val, b |-> wire]
    [] Mode = "cut" -> [k |-> "cut", t |-> job[1], id |-> Id, b |-> wire]
    [] Mode = "tail" -> [k |-> "tail", t |-> job[1], id |-> Id, v |-> val, b |-> wire, tails |-> Tails,
                         totals |-> Totals(Len(wire), Mix(JobSeed(job), 72))]
    [] Mode = "stable" -> Kb([k |-> "stable", t |-> job[1], id |-> Id, in |-> seen, b |-> wire])
Emitted == IF Mode = "new" /\ phase = "idle" /\ job[2] = 1 /\ job[3] = 1 THEN Emit([k |-> "nil", t |-> job[1]])
           ELSE IF Mode = "stable" THEN (phase = "arrived" => Emit(Case))
           ELSE (phase = "sent" => Emit(Case))
=============================================================================
