------------------------------ MODULE Session -------------------------------
\* The life of a session and its options, per rank:
\*   none -> init -> open -> closed -> init -> ...
\* Options can only be changed between Init and Open. Rejected calls change nothing.
EXTENDS Config

Alive(s) == s \in {"init", "open"}

\* what a lifecycle call reports, and the state after it
InitOk(s) == s \in {"none", "closed"}           \* (initialising a live session loses it)
OpenOk(s) == s = "init"
CloseOk(s) == Alive(s)

HashName(n) == CASE n = "SUM" -> "SUM_MOD_DATASTORES" [] n = "ZERO" -> "DATASTORE_0" [] n = "FNV" -> "UTHASH_FNV" [] OTHER -> n
UserHashes == {"minus", "ssum", "psum", "err", "arg0", "arg1", "SUM", "ZERO", "FNV"}

\* Setting option k with arguments a (texts) and n (as numbers, where they are): the new options, or <<>> if it is refused.
\* (eps and names are sets here)
Set_(O, k, a, n, size) ==
    CASE k = "client" -> IF n[1] >= 1 THEN <<[O EXCEPT !.client = n[1]]>> ELSE <<>>
      [] k = "server" -> IF n[1] >= 1 THEN <<[O EXCEPT !.server = n[1]]>> ELSE <<>>
      [] k = "dsper" -> IF n[1] >= 1 THEN <<[O EXCEPT !.per = n[1]]>> ELSE <<>>
      [] k = "openinit" -> <<[O EXCEPT !.openinit = n[1] # 0]>>
      [] k = "hists" -> <<[O EXCEPT !.read = n[1] # 0, !.write = n[2] # 0]>>
      [] k = "name" -> <<[O EXCEPT !.prefix = a[1], !.basename = a[2], !.postfix = IF Len(a) > 2 THEN a[3] ELSE ""]>>
      [] k = "mem" -> <<[O EXCEPT !.type = "IN_MEMORY", !.create = FALSE]>>
      [] k = "level" -> <<[O EXCEPT !.type = "LEVELDB", !.create = n[1] # 0]>>
      [] k = "rocks" -> <<[O EXCEPT !.type = "ROCKSDB", !.create = n[1] # 0]>>
      [] k = "hash" -> IF a[1] \in Hashes THEN <<[O EXCEPT !.hash = a[1], !.hashfn = a[1]]>> ELSE <<>>
      [] k = "hashfn" -> IF a[1] \in UserHashes THEN <<[O EXCEPT !.hash = a[1], !.hashfn = HashName(a[1])]>> ELSE <<>>
      [] k = "xform" -> <<[O EXCEPT !.neg = n[1], !.pos = n[2], !.fp = n[3], !.dp = n[4]]>>
      [] k = "xfn" -> <<[O EXCEPT !.xf = [@ EXCEPT ![n[1]] = a[2]]]>>
      [] k = "null" -> <<[O EXCEPT !.transport = "NULL", !.listeners = 0]>>
      [] k = "mpi" -> <<[O EXCEPT !.transport = "MPI", !.listeners = n[1]]>>
      [] k = "ep" -> IF a[1] = "all" THEN <<[O EXCEPT !.eps = @ \cup 0..(size - 1)]>>
                     ELSE IF n[1] >= 0 THEN <<[O EXCEPT !.eps = @ \cup {n[1]}]>> ELSE <<>>
      [] k = "epclear" -> <<[O EXCEPT !.eps = {}]>>
      [] k = "async" -> <<[O EXCEPT !.async = n[1] # 0, !.asyncn = n[1]]>>
      [] k = "maxops" -> IF n[1] >= 1 THEN <<[O EXCEPT !.ops = n[1]]>> ELSE <<>>
      [] k = "maxsize" -> <<[O EXCEPT !.size = n[1]]>>
      [] k = "firstn" -> <<[O EXCEPT !.firstn = n[1]]>>
      [] k = "gen" -> IF a[1] \in Generators THEN <<[O EXCEPT !.gen = a[1]]>> ELSE <<>>
      [] k = "genfn" -> IF a[1] \in {"tens", "tens3", "fail"} THEN <<[O EXCEPT !.gen = a[1]]>> ELSE <<>>
      [] k = "track" -> <<[O EXCEPT !.names = @ \cup {SubSeq(a[1], 2, Len(a[1]))}]>>
      [] k = "debug" -> <<[O EXCEPT !.debug = n[1]]>>
      [] k = "boot" -> IF a = <<>> THEN <<O>> ELSE <<>>

\* options as recorded
Norm(c) == [c EXCEPT !.eps = {@[i] : i \in 1..Len(@)}, !.names = {@[i] : i \in 1..Len(@)}]
=============================================================================
