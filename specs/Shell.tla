-------------------------------- MODULE Shell --------------------------------
(* How a POSIX shell splits a script into simple commands and their words,    *)
(* as far as printed commands may need it: blanks, line breaks, comments,     *)
(* single quotes, double quotes and backslashes. Whatever else means          *)
(* something to a shell (expansions, operators, patterns, assignments) makes  *)
(* a script bad: what it does then is not what its words say.                 *)
(*                                                                            *)
(* A text is a sequence of symbols: one-character strings, or longer strings  *)
(* of characters that never mean anything to a shell.                         *)
EXTENDS Naturals, Sequences, SequencesExt

Blank     == {" ", "\t"}
Newline   == "\n"
SQ        == "'"
DQ        == "\""
BS        == "\\"
Active    == {"$", "`", ";", "&", "|", "<", ">", "(", ")", "*", "?", "[", "]", "{", "}", "~", "!", "=", "%", "^", "\r"}
InDouble  == {"$", "`"}

(* m: what the next symbol is part of; w: the word so far; ws: the words of   *)
(* this command; out: the commands                                            *)
Start == [m |-> "gap", w |-> "", ws |-> <<>>, out |-> <<>>, bad |-> FALSE]

EndWord(s)    == [s EXCEPT !.ws = Append(@, s.w), !.w = "", !.m = "gap"]
EndCommand(s) == [s EXCEPT !.out = IF s.ws = <<>> THEN @ ELSE Append(@, s.ws), !.ws = <<>>, !.m = "gap"]
Add(s, c)     == [s EXCEPT !.w = @ \o c]

Unquoted(s, c) ==
  LET add == [Add(s, c) EXCEPT !.m = "word"] IN
  CASE c = SQ -> [s EXCEPT !.m = "sq"]
    [] c = DQ -> [s EXCEPT !.m = "dq"]
    [] c = BS -> [s EXCEPT !.m = "bs"]
    [] c \in Active -> [s EXCEPT !.bad = TRUE]
    [] c \in Blank -> IF s.m = "word" THEN EndWord(s) ELSE s
    [] c = Newline -> EndCommand(IF s.m = "word" THEN EndWord(s) ELSE s)
    [] c = "#" /\ s.m = "gap" -> [s EXCEPT !.m = "cmt"]
    [] OTHER -> add

Step(s, c) ==
  CASE s.m \in {"gap", "word"} -> Unquoted(s, c)
    [] s.m = "sq" -> IF c = SQ THEN [s EXCEPT !.m = "word"] ELSE Add(s, c)
    [] s.m = "dq" -> CASE c = DQ -> [s EXCEPT !.m = "word"]
                       [] c = BS -> [s EXCEPT !.m = "dqbs"]
                       [] c \in InDouble -> [s EXCEPT !.bad = TRUE]
                       [] OTHER -> Add(s, c)
    [] s.m = "dqbs" -> CASE c = Newline -> [s EXCEPT !.m = "dq"]
                         [] c \in {DQ, BS} \cup InDouble -> [Add(s, c) EXCEPT !.m = "dq"]
                         [] OTHER -> [Add(s, BS \o c) EXCEPT !.m = "dq"]
    [] s.m = "bs" -> IF c = Newline THEN [s EXCEPT !.m = IF s.w = "" THEN "gap" ELSE "word"]
                     ELSE [Add(s, c) EXCEPT !.m = "word"]
    [] s.m = "cmt" -> IF c = Newline THEN EndCommand(s) ELSE s
    [] OTHER -> s

(* The commands of a script, or <<"bad">> if it does more than run commands. *)
Commands(text) ==
  LET e == FoldLeft(Step, Start, text)
      f == EndCommand(IF e.m = "word" THEN EndWord(e) ELSE e)
  IN IF e.bad \/ e.m \in {"sq", "dq", "bs", "dqbs"} THEN <<"bad">> ELSE f.out

(* ---- How maike2 writes a command                                          *)
CONSTANT Mutant

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Quote(word) ==
  <<SQ>> \o Concat([i \in DOMAIN word |->
     IF word[i] = SQ
     THEN CASE Mutant = "backslash" -> <<BS, SQ>>
            [] Mutant = "drop" -> <<>>
            [] OTHER -> <<SQ, BS, SQ, SQ>>
     ELSE IF Mutant = "double_backslash" /\ word[i] = BS THEN <<BS, BS>>
     ELSE <<word[i]>>]) \o <<SQ>>

(* The entry of a log: the command, and the rest as a comment. *)
Entry(words) == Quote(words[1]) \o Concat([i \in 1..(Len(words) - 1) |-> <<" ">> \o Quote(words[i + 1])])
                \o <<" ", "#", " ", "x", " ", "|", " ", SQ, "\n">>
Text(word) == FoldLeft(LAMBDA a, b : a \o b, "", word)

(* ---- Every short list of commands comes back                              *)
CONSTANTS MaxLen, MaxShort
VARIABLE cmds

Alphabet == {"a", SQ, DQ, BS, "$", " ", Newline, "#"}
Words(k) == UNION {[1..n -> Alphabet] : n \in 0..k}
Init == cmds \in {<< <<a>> >> : a \in Words(MaxLen)} \cup {<< <<a>>, <<b, c>> >> : a, b, c \in Words(MaxShort)}
Next == UNCHANGED cmds
Spec == Init /\ [][Next]_cmds

RoundTrip == Commands(Concat([i \in DOMAIN cmds |-> Entry(cmds[i])]))
             = [i \in DOMAIN cmds |-> [j \in DOMAIN cmds[i] |-> Text(cmds[i][j])]]
=============================================================================
