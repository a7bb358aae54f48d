---------------------------- MODULE PieceBlocks3 ----------------------------
EXTENDS PieceBlocks

ByByte3 ==
  The({[i \in 1..(M * M * M) |->
     LET k == i - 1 IN
     Of(b, <<(k % M) + 1, ((k \div M) % M) + 1, (k \div (M * M)) + 1>>, (k + k \div M + k \div (M * M)) % 2 = 0)] : b \in {TLCEval(B)}})
=============================================================================
