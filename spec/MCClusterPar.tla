--------------------------- MODULE MCClusterPar ---------------------------
EXTENDS ClusterPar
One3 == <<<<1, 2, 3>>>>
One4 == <<<<3, 1, 4, 2>>>>
Two2 == <<<<1>>, <<2>>>>
Two3 == <<<<1, 2>>, <<3>>>>
Two4 == <<<<1, 2>>, <<3, 4>>>>
Three3 == <<<<1>>, <<2>>, <<3>>>>
Three4 == <<<<1>>, <<2>>, <<3, 4>>>>
Four4 == <<<<1>>, <<2>>, <<3>>, <<4>>>>
=============================================================================
