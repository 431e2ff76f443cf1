CONSTANTS BINS = 2  THREADS = 2  MaxLen = 3  CHAN = 1
SPECIFICATION Spec
INVARIANT Right
PROPERTY Ends
