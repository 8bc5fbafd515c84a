------------------------------- MODULE MCTensorQ ------------------------------
EXTENDS MCTensor
QuickCases == {<<2, 5, 2, 1>>, <<1, 5, 3, 1>>, <<3, 7, 1, 1>>}
DeepCases  == {<<2, 46337, 2, 1>>, <<1, 3, 3, 2>>, <<2, 5, 1, 3>>, <<3, 5, 2, 1>>, <<2, 5, 3, 1>>}
=============================================================================
