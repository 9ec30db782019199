------------------------------- MODULE GenLib -------------------------------
(* Scenario generation with TLC's simulator: a generator module builds a scenario in a history variable and
   prints it with Emit when it is complete.  Pick draws from a set with TLC's (seeded) generator. *)
EXTENDS Integers, Sequences, TLC, Json
Pick(S) == RandomElement(S)
Emit(x) == PrintT("SCEN " \o ToJson(x))
=============================================================================
