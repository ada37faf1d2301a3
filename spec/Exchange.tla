------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* A sender appends actions to a command, the link hands its bytes over,   *)
(* possibly followed by other bytes or cut short, and a receiver takes one *)
(* action after the other until the bytes end or an indirect forward hands *)
(* the rest to someone else.                                               *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS MaxLen,         \* actions per command when kinds are chosen freely
          Planned,        \* number of commands of random length and contents
          LongLens,       \* lengths of long commands
          Seed,
          Emission        \* "cmd", "cut" or "none"

VARIABLES phase,          \* "sending", "receiving", "done", "failed"
          plan,           \* <<"free">> or <<"fixed", length, seed>>
          sent, wire, ends, \* actions, their bytes, where each of them ends
          own,            \* bytes of the command itself, the others follow
          pos, received
vars == <<phase, plan, sent, wire, ends, own, pos, received>>

K == Len(ActionCases)
Terminal(as) == as # <<>> /\ as[Len(as)][1] = "IndirectForward"
IndirectCase == CHOOSE i \in 1..K : ActionCases[i][2] = "IndirectForward"

PlanLen(i) == 3 + Rnd(Mix(Seed * 23 + i, 1), 6)
Plans == {<<"free", MaxLen, 0>>} \cup {<<"fixed", PlanLen(i), i>> : i \in 1..Planned}
         \cup {<<"fixed", l, 100000 + l>> : l \in LongLens}

Init == /\ plan \in Plans
        /\ phase = "sending" /\ sent = <<>> /\ wire = <<>> /\ ends = <<>> /\ own = 0
        /\ pos = 0 /\ received = <<>>

Append1(a) == LET e == Enc(Action, a, a) IN
  /\ sent' = Append(sent, a)
  /\ wire' = wire \o e
  /\ ends' = Append(ends, Len(wire) + Len(e))
  /\ UNCHANGED <<phase, plan, own, pos, received>>

\* any kind of action may follow
SendFree == /\ phase = "sending" /\ plan[1] = "free" /\ Len(sent) < plan[2] /\ ~Terminal(sent)
            /\ \E c \in 1..K : Append1(GenCase(ActionCases, c, Mix(Seed * 29 + c, Len(sent))))

\* or the same one again
SendAgain == /\ phase = "sending" /\ plan[1] = "free" /\ Len(sent) < plan[2] /\ ~Terminal(sent)
             /\ sent # <<>> /\ Append1(sent[Len(sent)])

\* the next action of a plan; indirect forwards only at the end
SendFixed == /\ phase = "sending" /\ plan[1] = "fixed" /\ Len(sent) < plan[2]
             /\ LET s == Mix(Mix(Seed * 31 + plan[3], Len(sent)), 3)
                    c == 1 + Rnd(Mix(s, 1), K)
                    d == IF c = IndirectCase /\ Len(sent) + 1 < plan[2] THEN 1 ELSE c
                    old == 1 + Rnd(Mix(s, 3), Max(1, Len(sent)))
                \* some were there before
                IN IF sent # <<>> /\ Rnd(Mix(s, 4), 6) = 0 THEN Append1(sent[old])
                   ELSE Append1(GenCase(ActionCases, d, Mix(s, 2)))

\* bytes that come after the command: they only matter behind an indirect forward
Others == << <<>>, <<255>>, GenBytes(Mix(Seed + Len(wire), 4), 7),
             EncCommand(GenActions(Mix(Seed + Len(wire), 5), 2, <<>>)) >>
HandOver == /\ phase = "sending"
            /\ plan[1] = "fixed" => Len(sent) = plan[2]
            /\ own' = Len(wire)
            /\ \E i \in 1..Len(Others) : /\ i > 1 => Terminal(sent)
                                         /\ wire' = wire \o Others[i]
            /\ phase' = "receiving"
            /\ UNCHANGED <<plan, sent, ends, pos, received>>

Receive == /\ phase = "receiving" /\ pos < Len(wire) /\ ~Terminal(received)
           /\ LET d == Dec(Action, wire, pos, Len(wire), <<>>, -1) IN
              IF IsOk(d) THEN /\ received' = Append(received, d[2]) /\ pos' = d[3] /\ phase' = phase
              ELSE /\ phase' = "failed" /\ UNCHANGED <<received, pos>>
           /\ UNCHANGED <<plan, sent, wire, ends, own>>

Stop == /\ phase = "receiving" /\ (pos = Len(wire) \/ Terminal(received))
        /\ phase' = "done"
        /\ UNCHANGED <<plan, sent, wire, ends, own, pos, received>>

Next == SendFree \/ SendAgain \/ SendFixed \/ HandOver \/ Receive \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
NeverFails == phase # "failed"
\* at any time the receiver holds a prefix of what was sent, and stands behind it
InOrder == /\ Len(received) <= Len(sent)
           /\ \A i \in 1..Len(received) : received[i] = sent[i]
           /\ phase = "receiving" /\ received # <<>> => pos = ends[Len(received)]
\* in the end it has everything, and what is not its own is untouched
Complete == phase = "done" => received = sent /\ pos = own
OnlyLastForwards == \A i \in 1..(Len(sent) - 1) : sent[i][1] # "IndirectForward"

\* all at once is the same as one by one
AllAtOnce == (phase = "done" /\ Len(sent) < 20) => DecCommand(wire) = Ok(sent, own)
\* a cut between actions gives those before it, any other cut nothing
Cuts == (phase = "done" /\ Len(sent) < 20 /\ Emission = "cut") =>
  \A k \in 0..(own - 1) :
    LET d == DecCommand(SubSeq(wire, 1, k)) IN
    IF k = 0 THEN d = Ok(<<>>, 0)
    ELSE IF \E i \in 1..Len(ends) : ends[i] = k
         THEN d = Ok(SubSeq(sent, 1, CHOOSE i \in 1..Len(ends) : ends[i] = k), k)
         ELSE d = Inc

\* the receiver gets to its end
Ends == <>(phase = "done")

Kb(r) == IF \E i \in 1..Len(sent) : StrangeStatus(sent[i]) THEN [kb |-> KnownCommand(sent)] @@ r ELSE r
Emitted == phase = "done" =>
  CASE Emission = "cmd" -> Emit(Kb([k |-> "cmd", in |-> wire, v |-> sent, n |-> own, ends |-> ends, canon |-> TRUE]))
    [] Emission = "cut" -> (own = Len(wire)) => Emit([k |-> "cut", t |-> "Command", b |-> wire, v |-> sent, ends |-> ends])
    [] OTHER -> TRUE
=============================================================================
