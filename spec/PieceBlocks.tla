----------------------------- MODULE PieceBlocks ----------------------------
(* All files of a few blocks, arriving byte by byte *)
EXTENDS MCStream, BlockFiles

ByByte(f) == The({MkCase(x, Len(f), [i \in 1..Len(f) |-> i]) : x \in {Known(f)}})
Of(b, s, gct) == The({ByByte(f) : f \in {FileOf(b, s, gct)}})

ByByte2 == The({[i \in 1..(2 * Len(upto)) |-> Of(b, upto[(i + 1) \div 2], i % 2 = 0)] : upto \in {TLCEval(UpTo2)}, b \in {TLCEval(B)}})
=============================================================================
