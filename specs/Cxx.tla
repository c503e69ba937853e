--------------------------------- MODULE Cxx --------------------------------
(* Include directives and tags of a C++ source, by the rules of the language  *)
(* (translation phase 3, no line splices). A text is a sequence of symbols:   *)
(* single characters, or words that stand for themselves. The specification   *)
(* works token by token; it knows nothing of how maike2 reads files.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Digits, Letters    \* the symbols that words are made of

NL == "\n"
JsonWhite == {" ", "\t", "\r"}
White == JsonWhite \cup {"FF", "VT"}
(* Bytes that are no characters of the basic character set. They may be part  *)
(* of comments and literals.                                                  *)
Bytes == {"B00", "B01", "B1A", "B7F", "B80", "B84", "BC3", "BFE", "BFF"}
Ident == Digits \cup Letters
RawPrefix == {"R", "LR", "uR", "UR", "u8R"}

At(s, i) == IF i <= Len(s) THEN s[i] ELSE "end"

RECURSIVE Find(_, _, _)   \* first position from i on with a symbol in set, or Len(s)+1
Find(s, i, set) == IF i > Len(s) \/ s[i] \in set THEN i ELSE Find(s, i + 1, set)

RECURSIVE Glue(_, _, _)   \* s[i..j-1] as a string
Glue(s, i, j) == IF i >= j THEN "" ELSE s[i] \o Glue(s, i + 1, j)

RECURSIVE BlockEnd(_, _)  \* position after */, or 0
BlockEnd(s, i) == IF i + 1 > Len(s) THEN 0
                  ELSE IF s[i] = "*" /\ s[i + 1] = "/" THEN i + 2 ELSE BlockEnd(s, i + 1)

RECURSIVE QuoteEnd(_, _, _)  \* position after the closing quote, or 0
QuoteEnd(s, i, q) == IF i > Len(s) \/ s[i] = NL THEN 0
                     ELSE IF s[i] = q THEN i + 1
                     ELSE IF s[i] = "\\" THEN IF At(s, i + 1) \in {NL, "end"} THEN 0 ELSE QuoteEnd(s, i + 2, q)
                     ELSE QuoteEnd(s, i + 1, q)

(* A raw string: i is the position after the first quote. *)
Starts(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A k \in DOMAIN w : s[i + k - 1] = w[k]
RECURSIVE RawClose(_, _, _)
RawClose(s, i, w) == IF i > Len(s) THEN 0 ELSE IF Starts(s, i, w) THEN i + Len(w) ELSE RawClose(s, i + 1, w)
RawEnd(s, i) ==
  LET p == Find(s, i, {"(", ")", "\\", " ", "\t", "\r", NL, "\""} \cup Bytes)
  IN IF At(s, p) # "(" \/ p - i > 16 THEN 0
     ELSE RawClose(s, p + 1, <<")">> \o SubSeq(s, i, p - 1) \o <<"\"">>)

RECURSIVE WordEnd(_, _, _)   \* a word, or a number with digit separators
WordEnd(s, i, num) == IF At(s, i) \in Ident THEN WordEnd(s, i + 1, num)
                      ELSE IF num /\ At(s, i) = "'" /\ At(s, i + 1) \in Ident THEN WordEnd(s, i + 2, num)
                      ELSE i

(* bol: nothing but white space and comments since the beginning of the line; *)
(* blank: nothing but white space; dir: "" outside directives, "#" after the  *)
(* mark, "include", or "other".                                               *)
R0 == [ok |-> TRUE, inc |-> {}, tags |-> <<>>]
RECURSIVE Scan(_, _, _, _, _, _)
Scan(s, i, bol, blank, dir, r) ==
  LET c == At(s, i)
      d == At(s, i + 1)
      bad == [r EXCEPT !.ok = FALSE]
      rest == IF dir = "" THEN "" ELSE "other"
  IN
  IF c = "end" THEN r
  ELSE IF c = NL THEN Scan(s, i + 1, TRUE, TRUE, "", r)
  ELSE IF c \in White THEN Scan(s, i + 1, bol, blank, dir, r)
  ELSE IF c = "/" /\ d = "/"
  THEN LET e == Find(s, i, {NL})
           \* a line comment ends the line, and a directive with it
           t == IF blank /\ At(s, i + 2) = "@" THEN SubSeq(s, i + 3, e - 1) ELSE <<>>
       IN  Scan(s, e, bol, FALSE, dir, [r EXCEPT !.tags = @ \o SelectSeq(t, LAMBDA x : x \notin JsonWhite)])
  ELSE IF c = "/" /\ d = "*"
  THEN LET e == BlockEnd(s, i + 2) IN IF e = 0 THEN bad ELSE Scan(s, e, bol, FALSE, dir, r)
  ELSE IF dir = "include" /\ c \in {"<", "\""}
  THEN LET close == IF c = "<" THEN ">" ELSE "\""
           e == Find(s, i + 1, {close, NL})
       IN  IF At(s, e) # close \/ e = i + 1 THEN bad
           ELSE Scan(s, e + 1, FALSE, FALSE, "other",
                     [r EXCEPT !.inc = @ \cup {<<IF c = "<" THEN "s" ELSE "q", Glue(s, i + 1, e)>>}])
  ELSE IF c \in {"\"", "'"}
  THEN LET e == QuoteEnd(s, i + 1, c) IN IF e = 0 \/ dir = "#" THEN bad ELSE Scan(s, e, FALSE, FALSE, rest, r)
  ELSE IF c \in Ident
  THEN LET e == WordEnd(s, i, c \in Digits)
           w == Glue(s, i, e)
       IN  IF w \in RawPrefix /\ At(s, e) = "\""
           THEN LET x == RawEnd(s, e + 1) IN IF x = 0 \/ dir = "#" THEN bad ELSE Scan(s, x, FALSE, FALSE, rest, r)
           ELSE IF c \in Digits /\ At(s, e) = "'" THEN bad
           ELSE Scan(s, e, FALSE, FALSE, IF dir = "#" /\ w = "include" THEN "include" ELSE rest, r)
  ELSE IF c = "#" /\ bol /\ dir = "" THEN Scan(s, i + 1, FALSE, FALSE, "#", r)
  ELSE IF (c = "\\" /\ d \in {NL, "end"}) \/ c \in Bytes THEN bad
  ELSE Scan(s, i + 1, FALSE, FALSE, rest, r)

(* ---- the other kinds of files: a rule is a tag as a whole; in a script, the *)
(* tags are what follows #@ at the beginning of lines.                         *)
NotWhite(t) == SelectSeq(t, LAMBDA x : x \notin JsonWhite \cup {NL})
RECURSIVE ExtTags(_, _)
ExtTags(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET e == Find(s, i, {NL})
           b == Find(s, i, {s[k] : k \in i..(e - 1)} \ White)
       IN (IF b + 1 < e /\ s[b] = "#" /\ s[b + 1] = "@" THEN NotWhite(SubSeq(s, b + 2, e - 1)) ELSE <<>>) \o ExtTags(s, e + 1)
MeaningRule(s) == [ok |-> TRUE, inc |-> {}, tags |-> NotWhite(s)]
MeaningExt(s) == [ok |-> TRUE, inc |-> {}, tags |-> ExtTags(s, 1)]

Meaning(s) == Scan(s, 1, TRUE, TRUE, "", R0)
=============================================================================
