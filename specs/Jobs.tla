-------------------------------- MODULE Jobs --------------------------------
(* A list of jobs run with retries.                                          *)
(*                                                                           *)
(* All jobs are started once, in rounds; a round runs every job that failed  *)
(* in the round before.  Jobs of a round may finish in any order; a round    *)
(* begins when the one before is over.  There are at most MaxTry rounds, and *)
(* no second one if everything failed in the first.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, MaxTry, Emit
ASSUME N \in Nat /\ MaxTry \in Nat \ {0}

VARIABLES todo,    \* jobs of this round that have not run
          bad,     \* jobs of this round that failed
          round, calls, \* calls : sequence of <<job, round, failed>>, in order of completion
          result   \* <<"running">>, <<"raised">> or <<"failures", set>>
vars == <<todo, bad, round, calls, result>>
Jobs == 1..N

Init == todo = Jobs /\ bad = {} /\ round = 1 /\ calls = <<>> /\ result = <<"running">>

Finish(j, failed) ==
  /\ result = <<"running">> /\ j \in todo
  /\ todo' = todo \ {j}
  /\ bad' = IF failed THEN bad \cup {j} ELSE bad
  /\ calls' = Append(calls, <<j, round, failed>>)
  /\ UNCHANGED <<round, result>>

EndRound ==
  /\ result = <<"running">> /\ todo = {}
  /\ IF round = 1 /\ bad = Jobs THEN result' = <<"raised">> /\ UNCHANGED <<todo, bad, round>>
     ELSE IF bad = {} \/ round = MaxTry THEN result' = <<"failures", bad>> /\ UNCHANGED <<todo, bad, round>>
     ELSE result' = result /\ todo' = bad /\ bad' = {} /\ round' = round + 1
  /\ UNCHANGED calls

Next == EndRound \/ \E j \in Jobs, f \in BOOLEAN : Finish(j, f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---------------------------------------------------------------- properties *)
Tries(j) == {i \in DOMAIN calls : calls[i][1] = j}
Latest(j) == CHOOSE i \in Tries(j) : \A k \in Tries(j) : k <= i
Done == result[1] # "running"
Bounded == \A j \in Jobs : Cardinality(Tries(j)) <= MaxTry
OnceEach == Done => \A j \in Jobs : Tries(j) # {}
OnlyFailed == \A j \in Jobs : \A i, k \in Tries(j) : i < k => calls[i][3]     \* never again after success
Exact == result[1] = "failures" => result[2] = {j \in Jobs : calls[Latest(j)][3]}
Persistent == result[1] = "failures" => \A j \in result[2] : Cardinality(Tries(j)) = MaxTry
Raised == result[1] = "raised" <=> (Done /\ \A j \in Jobs : \A i \in Tries(j) : calls[i][2] = 1 => calls[i][3])
Ends == <>Done
Shown == ~Emit \/ ~Done \/ PrintT("@@" \o ToJson([calls |-> calls, result |-> result, n |-> N, max |-> MaxTry]))
=============================================================================
