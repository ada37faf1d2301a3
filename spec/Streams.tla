------------------------------- MODULE Streams ------------------------------
(***************************************************************************)
(* An item inside a longer stream that hands its bytes out in chunks of    *)
(* any size, may be interrupted and may fail.  What is read depends on the *)
(* bytes alone; a failure before the last byte of the item is an error.    *)
(* Likewise a writer that takes bytes in chunks and may fail.              *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS Kinds, N, Seed, Faults      \* number of fault positions per item

VARIABLES phase, job, val, wire, env, avail, turn, got, out
vars == <<phase, job, val, wire, env, avail, turn, got, out>>

JobSeed(j) == Mix(Mix(Seed * 43 + j[3], j[2]), 10)
Jobs == UNION {{t} \X (1..Variants(t)) \X (1..N) : t \in Kinds}
Id == IdOf(job[1], job[2])

Init == /\ phase = "idle" /\ job \in Jobs /\ val = <<>> /\ wire = <<>> /\ env = <<>>
        /\ avail = 0 /\ turn = 1 /\ got = <<>> /\ out = <<>>
Make == /\ phase = "idle"
        /\ val' = GenItem(job[1], job[2], JobSeed(job))
        /\ wire' = EncItem(job[1], val')
        /\ phase' = "made" /\ UNCHANGED <<job, env, avail, turn, got, out>>

ChunkPlans == << <<>>, <<1>>, <<2, 1>>, <<3, 5, 1>>, <<7>>, <<64, 1>> >>
Kind(i) == <<"BrokenPipe", "TimedOut", "Other", "PermissionDenied", "ConnectionReset", "WouldBlock", "InvalidData",
             "NotConnected">>[1 + (i % 8)]
\* a writer may also be full: it takes nothing more
KindW(i) == IF i % 2 = 0 THEN "WriteZero" ELSE Kind(i \div 2)
Before == << <<>>, <<170>>, GenBytes(Mix(JobSeed(job), 1), 13) >>
\* a command goes on to the end of its stream
Behind == IF Greedy(job[1], Id) /\ ~(job[1] = "Command" /\ val # <<>> /\ val[Len(val)][1] = "IndirectForward")
          THEN <<>> ELSE GenBytes(Mix(JobSeed(job), 2), 6)

Open(e) == /\ env' = e /\ phase' = "reading" /\ UNCHANGED <<job, val, wire, avail, turn, got, out>>
Env(p, c, i, f, k) == [pre |-> Before[p], post |-> Behind, chunks |-> ChunkPlans[c], intr |-> i, fault |-> f, kind |-> k]
OpenSound == /\ phase = "made"
             /\ \E c \in 1..Len(ChunkPlans) : Open(Env(1 + (c % 3), c, c % 2 = 0, -1, "Other"))
\* what goes on to the end of its stream has to see that end, so it asks for one byte more than it has
Actions0 == CASE job[1] = "Command" -> val [] job[1] = "NetworkFrame" -> val.frame.command
              [] job[1] = "TransportFrame" -> val.command [] OTHER -> <<>>
Asks == job[1] \in {"Command", "NetworkFrame", "TransportFrame"}
        /\ ~(Actions0 # <<>> /\ Actions0[Len(Actions0)][1] = "IndirectForward")
Need == Len(wire) + (IF Asks THEN 1 ELSE 0)
\* between two actions it asks whether there is more
Starts == IF job[1] # "Command" THEN {} ELSE {Len(EncCommand(SubSeq(val, 1, i))) : i \in 1..(Len(val) - 1)}
\* failures at some of the positions the item needs, always the first and the last
FaultSet == LET n == Need IN
  (IF n <= Faults THEN 0..(n - 1)
   ELSE {0, n - 2, n - 1} \cup {Rnd(Mix(JobSeed(job), 30 + i), n) : i \in 1..(Faults - 2)}) \cup Starts
OpenFailing == /\ phase = "made"
               /\ \E f \in FaultSet : Open(Env(1 + (f % 3), 1 + (f % 4), f % 5 = 1, f, Kind(f + job[3])))

Stream == wire \o env.post
Limit == IF env.fault >= 0 THEN env.fault ELSE Len(Stream)
Chunk == IF env.chunks = <<>> THEN Len(Stream) ELSE env.chunks[1 + (turn % Len(env.chunks))]
\* the stream hands out more
Deliver == /\ phase = "reading" /\ avail < Min(Limit, Len(wire))
           /\ avail' = Min(avail + Chunk, Limit) /\ turn' = turn + 1
           /\ UNCHANGED <<phase, job, val, wire, env, got, out>>
\* the reader has its item, or the stream has nothing more to give
Finish == /\ phase = "reading" /\ avail >= Min(Limit, Len(wire))
          /\ got' = IF avail >= Len(wire) /\ ~(env.fault >= 0 /\ env.fault < Need)
                    THEN LET d == DecItem(job[1], Id, IF Greedy(job[1], Id) THEN Stream ELSE SubSeq(Stream, 1, avail))
                         IN d
                    ELSE <<"error">>
          /\ phase' = "read" /\ UNCHANGED <<job, val, wire, env, avail, turn, out>>

\* writing: bytes leave in order; after a failure nothing more does
Write == /\ phase = "made"
         /\ \E c \in 1..Len(ChunkPlans) :
              env' = [chunks |-> ChunkPlans[c], kind |-> KindW(c + job[3]),
                      limits |-> <<-1, Len(wire)>> \o
                        [i \in 1..Min(Len(wire), Faults) |-> IF i = 1 THEN Len(wire) - 1 ELSE i - 2]]
         /\ phase' = "written" /\ UNCHANGED <<job, val, wire, avail, turn, got, out>>

Next == Make \/ OpenSound \/ OpenFailing \/ Deliver \/ Finish \/ Write

-----------------------------------------------------------------------------
\* whatever the chunks: the same item
OnlyBytesCount == (phase = "read" /\ env.fault < 0) => got = Ok(val, Len(wire))
\* a failure is never taken for the end
FailureSurfaces == (phase = "read" /\ env.fault >= 0) => got = <<"error">>
\* the reader takes no more than its item
NoMore == phase = "reading" => avail <= Len(Stream)

Case == [k |-> "io", t |-> job[1], id |-> Id, v |-> val, b |-> wire, pre |-> env.pre, post |-> env.post,
         chunks |-> env.chunks, intr |-> env.intr, fault |-> env.fault, kind |-> env.kind,
         r |-> IF got[1] = "ok" THEN "ok" ELSE "err", n |-> Len(wire)]
Emitted == /\ phase = "read" => Emit(Case)
           /\ phase = "written" => Emit([k |-> "wr", t |-> job[1], id |-> Id, v |-> val, b |-> wire,
                                         limits |-> env.limits, chunks |-> env.chunks, kind |-> env.kind])
=============================================================================
