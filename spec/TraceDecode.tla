----------------------------- MODULE TraceDecode -----------------------------
(***************************************************************************)
(* Judges what the implementation made of arbitrary inputs: each recorded  *)
(* observation must be the one the specification allows for that input.    *)
(* A line is [t, id, in, r] with r one of "ok", "err", "panic",            *)
(* "remainder" or "crash"; "ok" has the number n of bytes taken and the    *)
(* encoding rb of the value.                                               *)
(***************************************************************************)
EXTENDS Catalogue, IOUtils

CONSTANTS Chunks,         \* independent parts of the trace
          Aspects         \* what is judged: "crash", "codes", "incomplete", "count", "again"

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES at              \* line being judged
vars == <<at>>

Init == at \in 1..Min(Chunks, Len(Trace))
Next == at + Chunks <= Len(Trace) /\ at' = at + Chunks

\* verdicts <<aspect, what>>; a panic is nobody else's business than "crash", and so on
Allowed(o) ==
  LET d == DecItem(o.t, o.id, o.in) IN
  CASE o.r = "panic" -> <<"crash", "panics">>
    [] o.r = "remainder" -> <<"count", "misreports the remainder">>
    [] o.r = "err" -> IF IsOk(d) THEN <<"codes", "refuses a valid item">> ELSE <<"", "fine">>
    [] o.r = "ok" ->
         IF ~IsOk(d) THEN (IF d = Inc THEN <<"incomplete", "accepts an incomplete item">>
                           ELSE <<"codes", "accepts an undefined code">>)
         ELSE IF o.n # d[3] THEN <<"count", "takes the wrong number of bytes">>
         ELSE IF "again" \notin Aspects THEN <<"", "fine">>
         ELSE IF ~o.enc THEN <<"again", "cannot encode what it decoded">>
         ELSE IF o.rb = EncItem(o.t, d[2]) THEN <<"", "fine">>
         ELSE IF o.t \in KnownIn /\ o.rb = KnownItem(o.t, d[2]) THEN <<"again", "K1">>
         ELSE <<"again", "encodes what it decoded differently">>
    [] OTHER -> <<"", "fine">>

\* every line of the trace is one the specification allows; the others are reported
Judged == LET v == Allowed(Trace[at])
          IN v[1] \notin Aspects \/ Emit([line |-> at, why |-> v[2]])
Counted_ == LET o == Trace[at] IN
  (o.r = "ok" /\ "crash" \in Aspects) => (o.n <= Len(o.in) \/ Emit([line |-> at, why |-> "reads past the input"]))
=============================================================================
