-------------------------------- MODULE Inspect --------------------------------
(* Opening whatever archive is stored at a path, knowing only the path (and perhaps the archive's name).  *)
(* The files at the path are all there is; the archive describes itself.                                *)
EXTENDS Format
SignatureOf(a) == a \o ".archive"
Found(files) == {a \in DOMAIN Archives : SignatureOf(a) \in DOMAIN files}
\* the archive meant, or "" if there is none or it is not clear which
Meant(files, want) ==
    LET f == Found(files) IN
    IF want # "" THEN (IF want \in f THEN want ELSE "")
    ELSE IF Cardinality(f) = 1 THEN CHOOSE a \in f : TRUE ELSE ""
\* the errors opening may raise (empty = it opens)
OpenErr(files, want) == LET a == Meant(files, want) IN IF a = "" THEN {"other:RuntimeError"} ELSE PyErr(files, a, "")
Opened(files, want) == PyDump(files, Meant(files, want), "")
=============================================================================
