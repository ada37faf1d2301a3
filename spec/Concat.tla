------------------------------- MODULE Concat -------------------------------
(***************************************************************************)
(* Two senders, one receiver: the bytes of one command directly follow     *)
(* those of another.  They are one command to the receiver, unless the     *)
(* first hands over with an indirect forward or a frame keeps them apart.  *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS N, Seed,
          Again            \* number of commands that are sent over and over

VARIABLES phase, job, one, two, wire, got
vars == <<phase, job, one, two, wire, got>>

\* how the first command ends, and what follows
Jobs == (1..N) \X {"plain", "forward", "frame"} \cup (1..Again) \X {"again"}
JSeed == Mix(Mix(Seed * 67 + job[1], 3), 11)
IndirectCase == CHOOSE i \in 1..Len(ActionCases) : ActionCases[i][2] = "IndirectForward"

Init == phase = "idle" /\ job \in Jobs /\ one = <<>> /\ two = <<>> /\ wire = <<>> /\ got = <<>>

First == /\ phase = "idle"
         /\ LET a == SelectSeq(GenActions(JSeed, 1 + Rnd(JSeed, 4), <<>>), LAMBDA x : x[1] # "IndirectForward")
            IN one' = IF job[2] = "forward" THEN Append(a, GenCase(ActionCases, IndirectCase, Mix(JSeed, 2))) ELSE a
         /\ wire' = EncCommand(one') /\ phase' = "first" /\ UNCHANGED <<job, two, got>>
Second == /\ phase = "first"
          /\ two' = IF job[2] = "again" THEN one \o one ELSE GenActions(Mix(JSeed, 3), Rnd(Mix(JSeed, 4), 4), <<>>)
          /\ wire' = wire \o EncCommand(two') /\ phase' = "second" /\ UNCHANGED <<job, one, got>>

Frame == LET f == GenForeground(Mix(JSeed, 5))
             g == [f EXCEPT !.frame.frame.command = one]
             body == Len(Enc(ForegroundFrame, [g EXCEPT !.length = 1], g)) - 3
             l == IF 1 + body < 64 THEN 1 + body ELSE 2 + body
         IN [g EXCEPT !.length = l]
Receive == /\ phase = "second"
           /\ got' = IF job[2] = "frame" THEN Decode(ForegroundFrame, Enc(ForegroundFrame, Frame, Frame) \o EncCommand(two))
                     ELSE DecCommand(wire)
           /\ phase' = "received" /\ UNCHANGED <<job, one, two, wire>>
Next == First \/ Second \/ Receive

-----------------------------------------------------------------------------
Done == phase = "received"
Own == Len(EncCommand(one))
Terminated(as) == as # <<>> /\ as[Len(as)][1] = "IndirectForward"
Appends == (Done /\ job[2] \in {"plain", "again"}) => got = Ok(one \o two, Len(wire))
ForwardStops == (Done /\ job[2] = "forward") => got = Ok(one, Own)
InFrame == (Done /\ job[2] = "frame") =>
   got = Ok(Frame, Len(Enc(ForegroundFrame, Frame, Frame)))

\* sending something again and again is sending so many copies of it
Repeats == (Done /\ job[2] = "again") => got[2] = one \o one \o one /\ wire = EncCommand(one) \o EncCommand(one) \o EncCommand(one)

\* as many as make more than 65536 actions or bytes
Times == 1 + 66000 \div Max(1, IF job[1] % 2 = 0 THEN Len(one) ELSE Own)
EndsOf(as) == [i \in 1..Len(as) |-> Len(EncCommand(SubSeq(as, 1, i)))]
Emitted == Done =>
  CASE job[2] = "plain" -> Emit([k |-> "cmd", in |-> wire, v |-> one \o two, n |-> Len(wire), ends |-> EndsOf(one \o two), canon |-> TRUE])
    [] job[2] = "forward" -> Emit([k |-> "cmd", in |-> wire, v |-> one, n |-> Own, ends |-> EndsOf(one), canon |-> TRUE])
                              /\ Emit([k |-> "tail", t |-> "Command", id |-> 0, v |-> one, b |-> EncCommand(one), series |-> 0,
                                       tails |-> << EncCommand(two) >>, totals |-> Totals(Own, Mix(JSeed, 6))])
    [] job[2] = "again" -> (one # <<>>) => Emit([k |-> "many", v |-> one, b |-> EncCommand(one), times |-> Times])
    [] OTHER -> LET e == Enc(ForegroundFrame, Frame, Frame) IN
                Emit([k |-> "tail", t |-> "ForegroundFrame", id |-> 0, v |-> Frame, b |-> e, tails |-> << <<>>, EncCommand(two) >>])
=============================================================================
