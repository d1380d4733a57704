------------------------------- MODULE Header -------------------------------
(* labels of channels, rows and columns (flut::data_header): a sequence      *)
(* with <<label>> for a labelled entry and <<>> for one without             *)
EXTENDS Base
FindLabel(h, l)  == First(h, LAMBDA e : e = <<l>>) - 1       \* index, -1 when absent
HasLabel(h, l)   == FindLabel(h, l) >= 0
LabelText(e)     == IF e = <<>> THEN <<>> ELSE e[1]
Texts(h)         == [i \in DOMAIN h |-> LabelText(h[i])]
Unlabelled(n)    == [i \in 1..n |-> <<>>]
Grown(h, n)      == h \o Unlabelled(n - Len(h))
CanSet(h, i, l)  == i < Len(h) /\ ~HasLabel(h, l)
SetLabel(h, i, l) == [h EXCEPT ![i + 1] = <<l>>]
NoTwoLabelsEqual(h) == \A i, j \in DOMAIN h : (h[i] = h[j] /\ h[i] # <<>>) => i = j
=============================================================================
