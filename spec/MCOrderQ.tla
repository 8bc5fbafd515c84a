------------------------------- MODULE MCOrderQ -------------------------------
EXTENDS MCOrder
QuickCases == {<<1, 5>>, <<2, 3>>, <<3, 2>>, <<12, 1>>}
DeepCases  == {<<1, 9>>, <<2, 4>>, <<3, 3>>, <<5, 2>>, <<7, 2>>, <<16, 1>>}
ASSUME Capacity0 == \A k \in 1..1050 :
    /\ 2^BitsPerLetter(k) > k
    /\ 2^(BitsPerLetter(k) - 1) <= k
    /\ BitsPerLetter(k) * MaxDepth(k) + SizeBits(k) <= 64
    /\ BitsPerLetter(k) * (MaxDepth(k) + 1) + SizeBits(k) > 64
=============================================================================
