-------------------------------- MODULE Scope --------------------------------
(* The scope of an exploration. *)
EXTENDS Detect, Lexicon
CONSTANTS Tier,     \* "quick" or "thorough"
          Seed      \* selects the samples

Thorough == Tier = "thorough"
\* Deterministic sampling: one in n of the numbers x.
Sampled(x, n) == ((x % 65536) * 31 + (x \div 65536) * 17 + Seed * 13) % n = 0
=============================================================================
