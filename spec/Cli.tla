--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line tool: a payload arrives as hexadecimal text, with or   *)
(* without a requested type and file id.  It prints one item or fails.     *)
(***************************************************************************)
EXTENDS Catalogue

CONSTANTS N, Seed

VARIABLES phase, ask, src, text, tries, out
vars == <<phase, ask, src, text, tries, out>>

\* requested type (by one of its names) and file id, -1 for none
Types == { <<"", -1>>, <<"foreground", -1>>, <<"fg", -1>>, <<"background", -1>>, <<"bg", -1>>, <<"alp", -1>>,
           <<"a", -1>>, <<"serial", -1>>, <<"e", -1>>, <<"systemfile", -1>>, <<"s", -1>> }
         \cup {<<"systemfile", i>> : i \in {0, 1, 2, 3, 5, 6, 7, 9, 10, 11, 14, 26, 29, 32, 46, 47, 255}}
         \cup {<<"alp", 3>>, <<"fg", 0>>, <<"frame", -1>>, <<"systemfile", 256>>, <<"", 9>>}
Kind(ty) == CASE ty \in {"foreground", "fg"} -> "fg" [] ty \in {"background", "bg"} -> "bg"
              [] ty \in {"alp", "a"} -> "alp" [] ty \in {"serial", "e"} -> "serial"
              [] ty \in {"systemfile", "s"} -> "file" [] ty = "" -> "any" [] OTHER -> "none"

\* where payloads come from; commands with much data and many bytes of nothing in particular are among them
LongCommands == <<100, 200, 300, 600, 1100, 5000>>
Blobs == <<100, 300, 1100, 5000>>
LongCommand(s, n) == <<GenCase(ActionCases, 1, s),
                       <<"ReturnFileData", [group |-> FALSE, response |-> TRUE, offset |-> [file_id |-> 64, offset |-> n],
                                            data |-> <<"Other", GenBytes(s, n)>>]>>,
                       GenCase(ActionCases, 2, s)>> \o GenActions(s, 12, <<>>)
Sources == ({"Action", "Command", "BackgroundFrame", "ForegroundFrame", "File"} \X (1..N) \X {"whole", "short", "long"})
           \cup ({"junk"} \X (1..N) \X {"whole"})
           \cup ({"Long"} \X (1..Len(LongCommands)) \X {"whole", "short", "long"})
           \cup ({"blob"} \X (1..Len(Blobs)) \X {"whole"})
SrcSeed(s) == Mix(Mix(Seed * 41 + s[2], Len(s[1])), 9)
SrcVariant(s) == CASE s[1] = "Action" -> 1 + Rnd(SrcSeed(s), Len(ActionCases))
                   [] s[1] = "File" -> 1 + Rnd(SrcSeed(s), Len(FileIds))
                   [] OTHER -> 1
Original(s) == IF s[1] = "junk" THEN GenBytes(SrcSeed(s), Rnd(Mix(SrcSeed(s), 2), 20))
               ELSE IF s[1] = "blob" THEN GenBytes(SrcSeed(s), Blobs[s[2]])
               ELSE IF s[1] = "Long" THEN EncCommand(LongCommand(SrcSeed(s), LongCommands[s[2]]))
               ELSE EncItem(s[1], GenItem(s[1], SrcVariant(s), SrcSeed(s)))
Payload(s) == LET b == Original(s) IN
  CASE s[3] = "short" -> SubSeq(b, 1, Len(b) - Min(1, Len(b)))
    [] s[3] = "long" -> Append(b, Rnd(Mix(SrcSeed(s), 3), 256))
    [] OTHER -> b
\* how it is written: plain, upper case, with blanks, with a digit too many, with a letter that is no digit
Styles == {"lower", "upper", "blanks", "odd", "letter"}

Init == /\ phase = "asked"
        /\ src \in Sources
        /\ ask \in {t \in Types : t[2] <= 0 \/ src[1] = "File" \/ src[2] = 1}
        /\ text = <<>> /\ tries = <<>> /\ out = <<>>

StyleOf == LET k == Rnd(Mix(SrcSeed(src), 4 + ask[2] + Len(ask[1])), 10) IN
  CASE k = 0 -> "odd" [] k = 1 -> "letter" [] k \in 2..4 -> "blanks" [] k \in 5..6 -> "upper" [] OTHER -> "lower"

Understand ==
  /\ phase = "asked"
  /\ text' = [b |-> Payload(src), style |-> StyleOf]
  /\ IF StyleOf \in {"odd", "letter"} \/ Kind(ask[1]) = "none" \/ ask[2] > 255
     THEN phase' = "done" /\ out' = <<"fail">> /\ tries' = <<>>
     ELSE /\ phase' = "trying" /\ out' = out
          /\ tries' = CASE Kind(ask[1]) = "any" -> << <<"fg", 0>>, <<"bg", 0>>, <<"alp", 0>>, <<"serial", 0>>, <<"file", -1>> >>
                        [] Kind(ask[1]) = "file" -> << <<"file", ask[2]>> >>
                        [] OTHER -> << <<Kind(ask[1]), 0>> >>
  /\ UNCHANGED <<ask, src>>

Whole(d) == IsOk(d) /\ d[3] = Len(text.b)
ItemOf(k) == CASE k = "fg" -> "ForegroundFrame" [] k = "bg" -> "BackgroundFrame" [] OTHER -> "Command"
FileFits(id) == IsOk(DecFile(id, text.b))
\* the next thing to try either is what was given or not
Try ==
  /\ phase = "trying"
  /\ LET t == Head(tries) IN
     CASE t[1] \in {"fg", "bg", "alp"} ->
            LET d == DecItem(ItemOf(t[1]), 0, text.b) IN
            IF Whole(d) THEN phase' = "done" /\ out' = <<t[1], 0>> /\ tries' = tries
            ELSE tries' = Tail(tries) /\ UNCHANGED <<phase, out>>
       [] t[1] = "file" /\ t[2] >= 0 ->
            IF FileFits(t[2]) THEN phase' = "done" /\ out' = <<"file", t[2]>> /\ tries' = tries
            ELSE tries' = Tail(tries) /\ UNCHANGED <<phase, out>>
       [] t[1] = "file" ->              \* the first file that fits
            IF \E id \in 0..46 : FileFits(id)
            THEN /\ phase' = "done" /\ tries' = tries
                 /\ out' = <<"file", CHOOSE id \in 0..46 : FileFits(id) /\ \A j \in 0..(id - 1) : ~FileFits(j)>>
            ELSE tries' = Tail(tries) /\ UNCHANGED <<phase, out>>
       [] OTHER -> tries' = Tail(tries) /\ UNCHANGED <<phase, out>>
  /\ UNCHANGED <<ask, src, text>>

GiveUp == phase = "trying" /\ tries = <<>> /\ phase' = "done" /\ out' = <<"fail">> /\ UNCHANGED <<ask, src, text, tries>>

Next == Understand \/ (tries # <<>> /\ Try) \/ GiveUp

-----------------------------------------------------------------------------
\* what is printed is of the requested type, or any when none was requested
RightType == (phase = "done" /\ out[1] # "fail") =>
   Kind(ask[1]) \in {out[1], "any"}
\* frames before commands before files
Order == (phase = "done" /\ Kind(ask[1]) = "any") =>
   /\ out[1] \in {"bg", "alp", "file"} => ~Whole(DecItem("ForegroundFrame", 0, text.b))
   /\ out[1] \in {"alp", "file"} => ~Whole(DecItem("BackgroundFrame", 0, text.b))
   /\ out[1] = "file" => ~Whole(DecItem("Command", 0, text.b))
\* what was made as an item is printed as one
WholeItems == (phase = "done" /\ src[3] = "whole" /\ text.style \notin {"odd", "letter"}) =>
   /\ (src[1] \in {"Command", "Long"} /\ Kind(ask[1]) = "alp") => out[1] = "alp"
   /\ (src[1] = "ForegroundFrame" /\ Kind(ask[1]) \in {"fg", "any"}) => out[1] = "fg"
   /\ (src[1] = "BackgroundFrame" /\ Kind(ask[1]) = "bg") => out[1] = "bg"
BadTextFails == (phase = "done" /\ text.style \in {"odd", "letter"}) => out = <<"fail">>

Emitted == phase = "done" =>
  Emit([type |-> ask[1], f |-> ask[2], in |-> text.b, style |-> text.style, kind |-> out[1],
        id |-> IF Len(out) > 1 THEN out[2] ELSE 0])
=============================================================================
