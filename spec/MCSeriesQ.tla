------------------------------- MODULE MCSeriesQ ------------------------------
EXTENDS MCSeries
QuickCases == {<<1, 5, 4>>, <<2, 3, 2>>, <<3, 2, 1>>, <<1, 7, 3>>}
DeepCases  == {<<1, 7, 4>>, <<2, 5, 2>>, <<3, 5, 1>>, <<4, 3, 1>>}
=============================================================================
