-------------------------------- MODULE Str --------------------------------
(* Operators on strings.  TLC evaluates Len, SubSeq and \o on strings.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

At(s, i) == SubSeq(s, i, i)

Chars(s) == [i \in 1..Len(s) |-> At(s, i)]

LowerMap == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h", I |-> "i", J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r", S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]

Uppers == {At(UpperS, i) : i \in 1..26}
LowerChar(c) == IF c \in Uppers THEN LowerMap[c] ELSE c

RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LowerChar(At(s, i)) \o LowerFrom(s, i + 1)
Lower(s) == IF \E i \in 1..Len(s) : At(s, i) \in Uppers THEN LowerFrom(s, 1) ELSE s

(* The positions at which sub occurs in s. *)
Occurrences(s, sub) == {i \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, i, i + Len(sub) - 1) = sub}

Contains(s, sub) == IF Len(sub) > Len(s) THEN FALSE ELSE Occurrences(s, sub) # {}

HasPrefix(s, p) == IF Len(p) > Len(s) THEN FALSE ELSE SubSeq(s, 1, Len(p)) = p

HasSuffix(s, p) == IF Len(p) > Len(s) THEN FALSE ELSE SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* Split s at each occurrence of the one character separator. *)
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, sep, start, i) ==
    IF i > Len(s) THEN <<SubSeq(s, start, Len(s))>>
    ELSE IF At(s, i) = sep
         THEN <<SubSeq(s, start, i - 1)>> \o SplitFrom(s, sep, i + 1, i + 1)
         ELSE SplitFrom(s, sep, start, i + 1)
Split(s, sep) == SplitFrom(s, sep, 1, 1)

RECURSIVE Join(_, _)
Join(parts, sep) ==
    IF Len(parts) = 0 THEN ""
    ELSE IF Len(parts) = 1 THEN parts[1]
    ELSE parts[1] \o sep \o Join(Tail(parts), sep)
=============================================================================
