------------------------------- MODULE Bytes -------------------------------
(* Little helpers on byte values and byte strings. *)
EXTENDS Integers, Sequences, SequencesExt

LE16(a, b) == a + 256 * b

(* n-th bit (0 = least significant) of byte b *)
Bit(b, n) == (b \div (2 ^ n)) % 2 = 1

(* bits n .. n+k-1 of b as a number *)
Bits(b, n, k) == (b \div (2 ^ n)) % (2 ^ k)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* The only element of S.  The({f(x) : x \in {e}}) makes TLC evaluate e just once. *)
The(S) == CHOOSE x \in S : TRUE

(* n copies of x *)
Rep(n, x) == [i \in 1..n |-> x]

Concat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

(* "NETSCAPE2.0" followed by sub-block id 1 *)
Netscape == <<78, 69, 84, 83, 67, 65, 80, 69, 50, 46, 48>>

GIF87a == <<71, 73, 70, 56, 55, 97>>
GIF89a == <<71, 73, 70, 56, 57, 97>>

(* Block introducers and extension labels *)
Image == 44          \* 0x2C
Extension == 33      \* 0x21
Trailer == 59        \* 0x3B
TextLabel == 1
ControlLabel == 249  \* 0xF9
CommentLabel == 254  \* 0xFE
AppLabel == 255      \* 0xFF
KnownLabels == {TextLabel, ControlLabel, CommentLabel, AppLabel}

=============================================================================
