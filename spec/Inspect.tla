------------------------------- MODULE Inspect ------------------------------
(***************************************************************************)
(* What a client gets to know about a command: its tags, whether it is the *)
(* last response, its interface status and its other actions, and the text *)
(* that shows all of it.  A command is built action by action; what is     *)
(* known is kept along and must agree with the definition over the whole.  *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS MaxLen, Planned, Seed, Emission     \* "insp", "show" or "both"

VARIABLES phase, plan, acts, known
vars == <<phase, plan, acts, known>>

H(g, r) == [group |-> g, response |-> r]
Req(i, e) == <<"RequestTag", [id |-> i, end_of_packet |-> e]>>
Rsp(i, e, x) == <<"ResponseTag", [id |-> i, end_of_packet |-> e, error |-> x]>>
IfStatus(i, s) == <<"Status", [status_type |-> "Interface", status |-> [interface_type |-> i, status |-> s]]>>
ActStatus(i, c) == <<"Status", [status_type |-> "Action", status |-> [action_id |-> i, status |-> c]]>>
D7(s) == IfStatus(215, Gen(Dash7Status, s, <<>>))

\* letters; the ids depend on the place so that first and later ones can be told apart
Letters == 16
Letter(l, p) ==
  CASE l = 1 -> <<"Nop", H(p % 2 = 0, FALSE)>>
    [] l = 2 -> Req(10 + p, TRUE)
    [] l = 3 -> Req(20 + p, FALSE)
    [] l = 4 -> Rsp(30 + p, TRUE, FALSE)
    [] l = 5 -> Rsp(40 + p, TRUE, TRUE)
    [] l = 6 -> Rsp(50 + p, FALSE, FALSE)
    [] l = 7 -> D7(Mix(Seed + p, 7))
    [] l = 8 -> IfStatus(p % 2, <<>>)
    [] l = 9 -> ActStatus(p, 128)
    [] l = 10 -> GenCase(ActionCases, NameIdx(ActionCases)["ReturnFileData"], Mix(Seed + p, 10))
    [] l = 11 -> Rsp(60 + p, FALSE, TRUE)
    [] l = 12 -> IF StatusHasLength THEN IfStatus(66 + p, GenBytes(Mix(Seed + p, 11), p)) ELSE IfStatus(p % 2, <<>>)
    [] l = 13 -> GenCase(ActionCases, 1 + Rnd(Mix(Seed + p, 12), Len(ActionCases)), Mix(Seed + p, 13))
    [] l = 14 -> Rsp(0, TRUE, TRUE)
    \* the same once more: as the one before, or as the very first
    [] l = 15 -> IF acts = <<>> THEN Req(0, FALSE) ELSE acts[Len(acts)]
    [] l = 16 -> IF acts = <<>> THEN Rsp(0, FALSE, FALSE) ELSE acts[1]

Plans == {<<"free", MaxLen, 0>>} \cup {<<"fixed", 4 + Rnd(Mix(Seed + i, 2), 6), i>> : i \in 1..Planned}

Nothing == [req |-> 0, resp |-> 0, ifs |-> 0, rest |-> <<>>]
Init == /\ plan \in Plans /\ phase = "building" /\ acts = <<>> /\ known = Nothing

IsIfStatus(a) == a[1] = "Status" /\ a[2].status_type = "Interface"
Learn(k, a, i) == [req |-> IF k.req = 0 /\ a[1] = "RequestTag" THEN i ELSE k.req,
                   resp |-> IF k.resp = 0 /\ a[1] = "ResponseTag" THEN i ELSE k.resp,
                   ifs |-> IF k.ifs = 0 /\ IsIfStatus(a) THEN i ELSE k.ifs,
                   rest |-> IF IsIfStatus(a) THEN k.rest ELSE Append(k.rest, i)]
Add(a) == /\ acts' = Append(acts, a)
          /\ known' = Learn(known, a, Len(acts) + 1)
          /\ UNCHANGED <<phase, plan>>
AddFree == /\ phase = "building" /\ plan[1] = "free" /\ Len(acts) < plan[2]
           /\ \E l \in 1..Letters : Add(Letter(l, Len(acts) + 1))
AddFixed == /\ phase = "building" /\ plan[1] = "fixed" /\ Len(acts) < plan[2]
            /\ LET s == Mix(Mix(Seed * 3 + plan[3], Len(acts)), 4)
                   a == Letter(1 + Rnd(s, Letters), Len(acts) + 1 + (plan[3] % 100))
               IN Add(a)
Done == /\ phase = "building" /\ (plan[1] = "fixed" => Len(acts) = plan[2])
        /\ phase' = "done" /\ UNCHANGED <<plan, acts, known>>
Next == AddFree \/ AddFixed \/ Done

-----------------------------------------------------------------------------
First(P(_)) == IF \E i \in 1..Len(acts) : P(acts[i])
               THEN CHOOSE i \in 1..Len(acts) : P(acts[i]) /\ \A j \in 1..(i - 1) : ~P(acts[j])
               ELSE 0
IsReq(a) == a[1] = "RequestTag"
IsRsp(a) == a[1] = "ResponseTag"
Other(a) == ~IsIfStatus(a)
\* the first of each kind, whatever comes later
FirstOfKind == /\ known.req = First(IsReq) /\ known.resp = First(IsRsp) /\ known.ifs = First(IsIfStatus)
RECURSIVE Filter(_)
Filter(i) == IF i > Len(acts) THEN <<>> ELSE (IF Other(acts[i]) THEN <<i>> ELSE <<>>) \o Filter(i + 1)
RestInOrder == known.rest = Filter(1)
\* nothing gets lost: actions are in the rest or interface statuses
NothingLost == Len(known.rest) + Cardinality({i \in 1..Len(acts) : IsIfStatus(acts[i])}) = Len(acts)

Tag == IF known.req # 0 THEN acts[known.req][2].id ELSE IF known.resp # 0 THEN acts[known.resp][2].id ELSE -1
Last == known.resp # 0 /\ acts[known.resp][2].end_of_packet
State == IF ~Last THEN "executing" ELSE IF acts[known.resp][2].error THEN "error" ELSE "completed"
\* once the last response is known it stays so: what is appended later cannot change what is known
Monotone == [][/\ known.req # 0 => known'.req = known.req
               /\ known.resp # 0 => known'.resp = known.resp
               /\ known.ifs # 0 => known'.ifs = known.ifs]_vars
Spec == Init /\ [][Next]_vars

StatusFields == <<"channel", "rx_level", "link_budget", "target_rx_level", "nls", "missed", "retry", "unicast",
                  "fifo_token", "sequence_number", "response_timeout", "addressee">>
Parts == [i \in 1..Len(acts) |-> Enc(Action, acts[i], acts[i])]
Emitted == phase = "done" =>
  /\ Emission \in {"insp", "both"} =>
       Emit([k |-> "insp", v |-> acts, bs |-> Parts, req |-> known.req, resp |-> known.resp, tag |-> Tag, ifs |-> known.ifs,
             last |-> Last, rest |-> known.rest])
  /\ Emission \in {"show", "both"} =>
       Emit([k |-> "show", v |-> acts, bs |-> Parts, tag |-> Tag, state |-> State, lines |-> known.rest, ifs |-> known.ifs,
             fields |-> StatusFields])
\* status codes from 128 up are errors
Codes_ == (phase = "building" /\ acts = <<>> /\ plan[1] = "free" /\ Emission \in {"insp", "both"}) =>
  \A c \in 0..255 : Emit([k |-> "code", n |-> c, err |-> (c >= 128)])
=============================================================================
