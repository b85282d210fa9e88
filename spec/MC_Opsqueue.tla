---- MODULE MC_Opsqueue ----
EXTENDS Opsqueue
A(k, sm) == [contents |-> [j \in 1 .. k |-> "c"], pfx |-> "~", md |-> "m", cs |-> 1, car |-> "t", sm |-> sm]
MC_Profiles == {A(0, {}), A(1, {[k |-> "a", v |-> "1"]}), A(2, {[k |-> "a", v |-> "1"]})}
MC_Profiles12 == {A(1, {}), A(2, {})}
MC_Oldest == {[keys |-> <<>>, base |-> "Oldest"]}
MC_Strats == {[keys |-> <<>>, base |-> "Oldest"], [keys |-> <<"a">>, base |-> "Newest"]}
====
