----------------------------- MODULE BlockCases ----------------------------
(* All files of a few blocks out of an alphabet, each read in two ways *)
EXTENDS MCDecoder, BlockFiles

Strict == [NoOpt EXCEPT !.cons = TRUE, !.endc = TRUE]
Opts == << NoOpt, [Strict EXCEPT !.rgba = TRUE], [NoOpt EXCEPT !.skip = TRUE, !.unk = TRUE],
           [NoOpt EXCEPT !.rgba = TRUE, !.unk = TRUE] >>

Script(cs) == [i \in 1..Len(cs) |-> {cs[i]}]
Scripts ==
  << Script(<<C("acc"), C("rnf"), C("acc"), C("rnf"), C("acc"), C("rnf"), C("rnf"), C("fin")>>),
     Script(<<C("nfi"), C("acc"), C("nfi"), N("rib", 0), C("nfi"), N("fill", 1), C("acc"), C("nfi"), C("fin")>>) >>

Case1(b, s, gct, o, p) == The({MkCase(f, f, Opts[o], <<>>, Scripts[p]) : f \in {FileOf(b, s, gct)}})

(* Every sequence of up to two blocks, with everything *)
Blocks2 ==
  The({[i \in 1..(Len(upto) * 16) |->
     LET k == i - 1 IN
     Case1(b, upto[(k \div 16) + 1], k % 2 = 0, ((k \div 2) % 4) + 1, ((k \div 8) % 2) + 1)] : upto \in {TLCEval(UpTo2)}, b \in {TLCEval(B)}})

(* The same with every fourth combination *)
Blocks2q ==
  The({[i \in 1..(Len(upto) * 4) |->
     LET k == (i - 1) \div 4  z == (i - 1) % 4 IN
     Case1(b, upto[k + 1], z % 2 = 0, ((k + k \div M + z) % 4) + 1, (z \div 2) + 1)]
     : upto \in {TLCEval(UpTo2)}, b \in {TLCEval(B)}})

(* Every sequence of three *)
Blocks3 ==
  The({[i \in 1..(M * M * M * 2) |->
     LET k == (i - 1) \div 2
         s == <<(k % M) + 1, ((k \div M) % M) + 1, ((k \div (M * M)) % M) + 1>> IN
     Case1(b, s, (k + i) % 3 # 0, ((k + (k \div M)) % 4) + 1, (i % 2) + 1)] : b \in {TLCEval(B)}})

=============================================================================
