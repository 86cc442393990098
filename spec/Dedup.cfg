SPECIFICATION Spec
CONSTANTS MaxActs = 3
          Threads = {1, 2}
INVARIANTS OnceOnly RoundTrip Emit
CHECK_DEADLOCK FALSE
