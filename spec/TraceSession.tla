----------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* A recorded session is a behaviour of the receiver: actions arrive one   *)
(* after the other from a stream, until it ends, fails or an indirect      *)
(* forward hands the rest to someone else.  The trace drives the receiver; *)
(* an event the receiver cannot take is reported.                          *)
(***************************************************************************)
EXTENDS Catalogue, IOUtils

CONSTANT Aspects          \* "steps": every event is a step of the receiver; "crash": it only must not crash

Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Trace) : Trace[i].e = "start"}

VARIABLES at,             \* line last taken
          first,          \* line the session starts with
          pos,            \* bytes received so far
          phase,          \* "receiving", "ended", "failed", "astray"
          last,           \* name of the last action
          why
vars == <<at, first, pos, phase, last, why>>

Init == /\ first \in Starts /\ at = first
        /\ pos = 0 /\ phase = "receiving" /\ last = "" /\ why = "fine"

Stream == Trace[first].stream
Fault == Trace[first].fault
Line == Trace[at + 1]
More == at < Len(Trace) /\ Line.e # "start"
Next1 == Dec(Action, Stream, pos, Len(Stream), <<>>, -1)
Reaches(p) == Fault < 0 \/ p <= Fault          \* the stream can be read up to p

\* the receiver takes the next action
Receive == LET d == Next1 IN
  /\ Line.e = "action" /\ phase = "receiving" /\ pos < Len(Stream) /\ last # "IndirectForward"
  /\ IsOk(d) /\ (IF IsOk(d) THEN Reaches(d[3]) ELSE FALSE)
  /\ Line.pos = d[3] /\ Line.odd = 0 /\ Line.name = d[2][1] /\ Line.enc
  /\ Line.rb \in {Enc(Action, d[2], d[2]), KnownAction(d[2])}
  /\ pos' = d[3] /\ last' = d[2][1] /\ phase' = phase
  /\ why' = IF Line.rb = Enc(Action, d[2], d[2]) THEN "fine" ELSE "K1"

\* there is no next action, or it cannot be read
Fail == LET d == Next1 IN
  /\ Line.e = "fail" /\ phase = "receiving" /\ pos < Len(Stream) /\ last # "IndirectForward"
  /\ (IF IsOk(d) THEN ~Reaches(d[3]) ELSE TRUE)
  /\ Line.pos = pos
  /\ phase' = "failed" /\ UNCHANGED <<pos, last>> /\ why' = "fine"

End == /\ Line.e = "end" /\ phase = "receiving"
       /\ pos = Len(Stream) \/ last = "IndirectForward"
       /\ Line.pos = pos
       /\ phase' = "ended" /\ UNCHANGED <<pos, last>> /\ why' = "fine"

Take == Receive \/ Fail \/ End
Astray == /\ ~ENABLED Take /\ phase' = "astray" /\ UNCHANGED <<pos, last>>
          /\ why' = IF Line.e = "panic" THEN "panics" ELSE "not a step of the receiver"
Next == /\ More /\ phase # "astray"
        /\ Take \/ Astray
        /\ at' = at + 1 /\ UNCHANGED first

Judged == why \in {"fine", "K1"} \/ (why # "panics" /\ "steps" \notin Aspects) \/ Emit([line |-> at, why |-> why])
\* every session comes to its end
Finished == (~More /\ phase = "receiving") => Emit([line |-> at, why |-> "crash or hang"])
=============================================================================
