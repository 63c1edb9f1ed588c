-------------------------------- MODULE Calls --------------------------------
(* Prints the calls of the exhaustive history model, for the replay of every *)
(* transition of its small worlds into the real code.                        *)
EXTENDS MCHist, Json
L(S) == {<<e.op, e.a>> : e \in S}
ASSUME PrintT("UNARY " \o ToJson(L(Unary(1))))
ASSUME PrintT("CREATE " \o ToJson(L(Create(1))))
ASSUME PrintT("PAIR " \o ToJson(L(PairD(2, 3, {2, 3}))))
CInit == world = <<>>
CNext == FALSE /\ UNCHANGED world
=============================================================================
