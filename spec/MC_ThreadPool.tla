---------------------------- MODULE MC_ThreadPool ----------------------------
EXTENDS ThreadPoolImpl
MCChild == [t \in Tasks |-> IF t = 1 THEN 3 ELSE 0]
MCCanceller == {2}
=============================================================================
