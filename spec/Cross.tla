-------------------------------- MODULE Cross --------------------------------
(***************************************************************************)
(* Devices of different protocol flavours on one link: what one of them    *)
(* sends reaches all others.  What is common to the flavours has one       *)
(* encoding and one meaning; what exists in one flavour only is refused by *)
(* the others; what differs is read by each as its own flavour says.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Kinds,          \* names of items without flavour-specific parts, "Action" or "Command"
          N, Seed, Hints

S == INSTANCE Catalogue WITH Flavour <- "spec", Strange <- FALSE, Hints <- Hints
B == INSTANCE Catalogue WITH Flavour <- "subiot", Strange <- FALSE, Hints <- Hints
W == INSTANCE Catalogue WITH Flavour <- "wizzilab", Strange <- FALSE, Hints <- Hints
O == INSTANCE Catalogue WITH Flavour <- "subiot_v0_0", Strange <- FALSE, Hints <- Hints
Old == "subiot_v0_0"
Flavours == {"spec", "subiot", "wizzilab", Old}

Variants(fl, t) == CASE fl = "spec" -> S!Variants(t) [] fl = "subiot" -> B!Variants(t) [] fl = Old -> O!Variants(t) [] OTHER -> W!Variants(t)
GenItem(fl, t, x, s) == CASE fl = "spec" -> S!GenItem(t, x, s) [] fl = "subiot" -> B!GenItem(t, x, s) [] fl = Old -> O!GenItem(t, x, s)
                          [] OTHER -> W!GenItem(t, x, s)
EncItem(fl, t, v) == CASE fl = "spec" -> S!EncItem(t, v) [] fl = "subiot" -> B!EncItem(t, v) [] fl = Old -> O!EncItem(t, v)
                       [] OTHER -> W!EncItem(t, v)
DecItem(fl, t, id, b) == CASE fl = "spec" -> S!DecItem(t, id, b) [] fl = "subiot" -> B!DecItem(t, id, b) [] fl = Old -> O!DecItem(t, id, b)
                           [] OTHER -> W!DecItem(t, id, b)

VARIABLES phase, from, job, val, wire, got
vars == <<phase, from, job, val, wire, got>>

JobSeed(j) == S!Mix(S!Mix(Seed * 37 + j[3], j[2]), 8)
Id == S!IdOf(job[1], job[2])

Init == /\ phase = "idle" /\ from \in Flavours
        /\ job \in UNION {{t} \X (1..Variants(from, t)) \X (1..N) : t \in Kinds}
        /\ val = <<>> /\ wire = <<>> /\ got = <<>>

Send == /\ phase = "idle"
        /\ val' = GenItem(from, job[1], job[2], JobSeed(job))
        /\ wire' = EncItem(from, job[1], val')
        /\ phase' = "sent" /\ UNCHANGED <<from, job, got>>

Receive == /\ phase = "sent"
           /\ got' = [fl \in Flavours |-> DecItem(fl, job[1], Id, wire)]
           /\ phase' = "received" /\ UNCHANGED <<from, job, val, wire>>

Next == Send \/ Receive

-----------------------------------------------------------------------------
\* parts that differ between the flavour of the sender and fl
IfStatus(x, fl) == x.interface_type = 215 \/ (from # fl /\ Old \in {from, fl})
OwnAction(a, fl) ==
  \/ a[1] = "TxStatus"
  \/ a[1] = "Status" /\ a[2].status_type = "InterfaceFinal"
  \/ a[1] = "Status" /\ a[2].status_type = "Interface" /\ IfStatus(a[2].status, fl)
  \/ a[1] = "Forward" /\ a[2].configuration[1] = "Dash7"
  \/ a[1] = "IndirectForward" /\ a[2].configuration # <<>> /\ a[2].configuration[1][1] = "Dash7"
Own(fl) == CASE job[1] = "Action" -> OwnAction(val, fl)
             [] job[1] = "Command" -> \E i \in 1..Len(val) : OwnAction(val[i], fl)
             [] job[1] = "TransportFrame" -> \E i \in 1..Len(val.command) : OwnAction(val.command[i], fl)
             [] job[1] \in {"InterfaceConfiguration", "IndirectInterface"} -> val[1] = "Dash7"
             [] job[1] = "InterfaceStatus" -> IfStatus(val, fl)
             [] OTHER -> FALSE
OnlyWizzilab(a) == a[1] = "TxStatus" \/ (a[1] = "Status" /\ a[2].status_type = "InterfaceFinal")

SenderUnderstood == phase = "received" => got[from] = <<"ok", val, Len(wire)>>
SameMeaning == phase = "received" => \A fl \in Flavours : ~Own(fl) => got[fl] = <<"ok", val, Len(wire)>>
SameBytes == phase = "received" => \A fl \in Flavours : ~Own(fl) => EncItem(fl, job[1], val) = wire
Refused == (phase = "received" /\ job[1] = "Action" /\ OnlyWizzilab(val)) =>
             \A fl \in Flavours \ {"wizzilab"} : got[fl] = <<"bad">>

Case(fl) ==
  IF ~Own(fl) THEN [fl |-> fl, k |-> "rt", t |-> job[1], id |-> Id, v |-> val, b |-> wire]
  ELSE LET g == got[fl] IN
       IF g[1] = "ok"
       THEN [fl |-> fl, k |-> "dec", t |-> job[1], id |-> Id, in |-> wire, r |-> "ok", n |-> g[3], v |-> g[2]]
       ELSE [fl |-> fl, k |-> "dec", t |-> job[1], id |-> Id, in |-> wire, r |-> "err"]
Emitted == phase = "received" => \A fl \in Flavours : PrintT(ToJson(Case(fl)))
=============================================================================
