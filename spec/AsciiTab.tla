------------------------------ MODULE AsciiTab ------------------------------
(***************************************************************************)
(* ASCII.  TLC computes the constants of a module from the last one to the *)
(* first one and remembers them: a constant that is built on another one   *)
(* goes into a module of its own, or it is computed over and over again.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* Printable ASCII, used to write literals of the algorithms as TLA+ strings.
Ascii == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiCode ==
  [ch \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
     LET i == CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch
     IN  IF i <= 2 THEN 31 + i ELSE IF i <= 59 THEN 32 + i ELSE 33 + i]

=============================================================================
