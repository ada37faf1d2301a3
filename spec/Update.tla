------------------------------- MODULE Update -------------------------------
(***************************************************************************)
(* Values with derived fields: an owner constructs one, changes its        *)
(* contents any number of times and has it updated.  Updating recomputes   *)
(* flags, kinds and lengths from the contents and changes nothing else.    *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS MaxOps, N, Seed

VARIABLES phase, job, val0, val, ops, synced
vars == <<phase, job, val0, val, ops, synced>>

Kinds == {"Addressee", "IndirectForward", "PhyStatus"} \cup
         {"ComparisonWithZero", "ComparisonWithValue", "ComparisonWithOtherFile", "BitmapRangeComparison",
          "StringTokenSearch", "NonVoid"}
QueryKind(t) == t \in DOMAIN Query.ni
Item(t) == IF QueryKind(t) THEN "Query" ELSE IF t = "IndirectForward" THEN "Action" ELSE t

S == Mix(Mix(Seed * 37 + job[2], 1 + Len(ops)), 8)
Fresh(t, s) ==
  CASE t = "Addressee" -> LET a == Gen(Addressee, s, <<>>)     \* contents go with their kind
                          IN [a EXCEPT !.address = <<a.address_type, @>>, !.nls_state = <<a.nls_method, @>>]
    [] t = "IndirectForward" -> GenCase(ActionCases, NameIdx(ActionCases)["IndirectForward"], s)[2]
    [] t = "PhyStatus" -> Gen(PhyStatus, s, <<>>)
    [] OTHER -> LET q == GenCase(Query.cs, Query.ni[t], s)[2]
                    \* a present mask is never empty in a constructed value
                    m == IF "mask_present" \in DOMAIN q /\ t # "BitmapRangeComparison" /\ q.length = 0
                         THEN [q EXCEPT !.mask_present = FALSE, !.mask = <<>>] ELSE q
                IN IF t = "BitmapRangeComparison" THEN [m EXCEPT !.mask_present = (m.length > 0)]
                   ELSE IF t = "ComparisonWithZero" /\ m.mask = <<>> THEN [m EXCEPT !.length = 0]
                   ELSE m

Init == /\ job \in Kinds \X (1..N)
        /\ phase = "start" /\ val0 = <<>> /\ val = <<>> /\ ops = <<>> /\ synced = TRUE
Construct == /\ phase = "start"
             /\ val0' = Fresh(job[1], S) /\ val' = val0' /\ phase' = "live"
             /\ UNCHANGED <<job, ops, synced>>

Do(name, payload, v) == /\ ops' = Append(ops, <<name, payload>>) /\ val' = v /\ synced' = FALSE
                        /\ UNCHANGED <<phase, job, val0>>

\* contents change; the derived fields stay as they are until the update
ChangeAddressee ==
  /\ job[1] = "Addressee"
  /\ \/ \E i \in 1..4 : LET ty == AddressType.seq[i][2]
                            a == Gen(SelNode(Address(<<"x">>), ty), Mix(S, i), <<>>)
                        IN Do("address", <<ty, a>>, [val EXCEPT !.address = <<ty, a>>])
     \/ \E i \in 1..8 : LET m == NlsMethod.seq[i][2]
                            a == IF m = "None" THEN <<>> ELSE GenBytes(Mix(S, 20 + i), 5)
                        IN Do("nls", <<m, a>>, [val EXCEPT !.nls_state = <<m, a>>])
     \/ LET c == Gen(AccessClass, Mix(S, 40), <<>>) IN Do("access_class", c, [val EXCEPT !.access_class = c])
ChangeForward ==
  /\ job[1] = "IndirectForward"
  /\ \/ Do("configuration", <<>>, [val EXCEPT !.configuration = <<>>])
     \/ \E x \in 1..Variants("IndirectInterface") :
          LET c == GenItem("IndirectInterface", x, Mix(S, x)) IN
          Do("configuration", <<c>>, [val EXCEPT !.configuration = <<c>>])
     \/ Do("response", ~val.response, [val EXCEPT !.response = ~val.response])
ChangePhy ==
  /\ job[1] = "PhyStatus"
  /\ \/ Len(val.channel_status) < 255 /\ LET c == Gen(ChannelStatus, S, <<>>) IN Do("push", c, [val EXCEPT !.channel_status = Append(@, c)])
     \/ val.channel_status # <<>> /\
          Do("pop", <<>>, [val EXCEPT !.channel_status = SubSeq(@, 1, Len(@) - 1)])
     \/ \E n \in {0, 1, 255} : LET l == [i \in 1..n |-> Gen(ChannelStatus, Mix(S, i), <<>>)]
                               IN Do("list", l, [val EXCEPT !.channel_status = l])
     \/ LET u == GenBytes(S, 4) IN Do("up_time", u, [val EXCEPT !.up_time = u])

Sizes == {0, 1, 5, 63, 64, 300}
\* mask and value of a query agree in size when both are there
ChangeQuery ==
  /\ QueryKind(job[1]) /\ job[1] # "NonVoid"
  /\ LET both == job[1] \in {"ComparisonWithValue", "StringTokenSearch"}
         wrap(m) == IF job[1] = "BitmapRangeComparison" THEN m ELSE IF m = <<>> THEN <<>> ELSE <<m>>
     IN \/ \E n \in (IF both THEN {0, Len(val.value)} ELSE Sizes) :
             LET m == GenBytes(Mix(S, n), n) IN Do("mask", m, [val EXCEPT !.mask = wrap(m)])
        \/ both /\ \E n \in (IF val.mask = <<>> THEN Sizes ELSE {Len(val.value)}) :
             LET x == GenBytes(Mix(S, n + 1), n) IN Do("value", x, [val EXCEPT !.value = x])

Change == phase = "live" /\ Len(ops) < MaxOps /\ (ChangeAddressee \/ ChangeForward \/ ChangePhy \/ ChangeQuery)

\* what updating means
Sync(v) ==
  CASE job[1] = "Addressee" -> [v EXCEPT !.address_type = v.address[1], !.nls_method = v.nls_state[1]]
    [] job[1] = "IndirectForward" -> [v EXCEPT !.overloaded = (v.configuration # <<>>)]
    [] job[1] = "PhyStatus" -> [v EXCEPT !.channel_status_list_length = Len(v.channel_status)]
    [] job[1] = "NonVoid" -> v
    [] job[1] = "ComparisonWithZero" ->
         [v EXCEPT !.mask_present = (v.mask # <<>>), !.length = IF v.mask = <<>> THEN 0 ELSE Len(v.mask[1])]
    [] job[1] = "ComparisonWithOtherFile" ->
         [v EXCEPT !.mask_present = (v.mask # <<>>), !.length = IF v.mask = <<>> THEN @ ELSE Len(v.mask[1])]
    [] job[1] = "BitmapRangeComparison" ->
         [v EXCEPT !.mask_present = (v.mask # <<>>), !.length = Len(v.mask)]
    [] OTHER -> [v EXCEPT !.mask_present = (v.mask # <<>>), !.length = Len(v.value)]

DoUpdate == /\ phase = "live" /\ Len(ops) < MaxOps + 2
            /\ IF ops = <<>> THEN TRUE ELSE ops[Len(ops)][1] # "update"
            /\ val' = Sync(val) /\ ops' = Append(ops, <<"update", <<>>>>) /\ synced' = TRUE
            /\ UNCHANGED <<phase, job, val0>>
Finish == /\ phase = "live" /\ synced
          /\ phase' = "done" /\ UNCHANGED <<job, val0, val, ops, synced>>
Next == Construct \/ Change \/ DoUpdate \/ Finish

-----------------------------------------------------------------------------
Whole(v) == IF QueryKind(job[1]) THEN <<job[1], v>>
            ELSE IF job[1] = "IndirectForward" THEN <<"IndirectForward", v>>
            ELSE IF job[1] = "Addressee" THEN [v EXCEPT !.address = @[2], !.nls_state = @[2]] ELSE v
\* a synced value encodes and comes back as itself
InSync == (phase = "done") =>
  LET b == EncItem(Item(job[1]), Whole(val)) IN DecItem(Item(job[1]), 0, b) = Ok(Whole(val), Len(b))
Idempotent == (phase = "live" /\ synced) => Sync(val) = val
FreshIsSynced == (phase = "live" /\ ops = <<>>) => Sync(val) = val

Emitted == phase = "done" =>
  Emit([k |-> "upd", t |-> IF QueryKind(job[1]) THEN "Query" ELSE job[1],
        v0 |-> Whole(val0), b0 |-> EncItem(Item(job[1]), Whole(val0)), ops |-> ops,
        v |-> Whole(val), b |-> EncItem(Item(job[1]), Whole(val))])
=============================================================================
