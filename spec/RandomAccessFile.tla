-------------------------- MODULE RandomAccessFile --------------------------
(* A plain random-access file, as seen through positioned reads and writes.  *)
(* This is the abstract object that the append-optimised file (F02), the     *)
(* memory-held copy and the memory-mapped view (F03) must be equal to.       *)
(* One element of `file` stands for a block of K bytes (K is a harness       *)
(* parameter), so that small models exercise buffers larger than 4096 bytes. *)
EXTENDS Integers, Sequences

VARIABLES file,      \* sequence of blocks: what a reader must see
          synced     \* what is guaranteed to be on disk (after the last sync or close)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* The file after writing data d at offset off: a write beyond the end leaves a hole of zeros.
Overlay(f, off, d) ==
  IF d = <<>> THEN f ELSE
  [k \in 1 .. Max(Len(f), off + Len(d)) |->
     IF k > off /\ k <= off + Len(d) THEN d[k - off]
     ELSE IF k <= Len(f) THEN f[k] ELSE 0]

\* Result of reading n blocks at off.
ReadData(f, off, n) == IF off >= Len(f) THEN <<>> ELSE SubSeq(f, off + 1, Min(off + n, Len(f)))
ReadErr(f, off, n)  == IF Len(ReadData(f, off, n)) < n THEN "EOF" ELSE ""

FInit(content) == file = content /\ synced = content

FWrite(off, d) == file' = Overlay(file, off, d) /\ UNCHANGED synced
FRead          == UNCHANGED <<file, synced>>
FSync          == synced' = file /\ UNCHANGED file
=============================================================================
