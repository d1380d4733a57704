------------------------------- MODULE TestFw -------------------------------
(* The test framework: counters of a framework object (1: a local one, 2:   *)
(* the global one behind the macros) and what it logs.                      *)
EXTENDS Text
CONSTANT ResetKnown   \* TRUE while the defect of reset() listed in known_findings.txt is accepted
VARIABLES fw,         \* number -> <<performed, passed, failed, show>>
          msgs,       \* messages logged by the last call: <<level, text>>
          res
vars == <<fw, msgs, res>>
Objs == 1..2
Init == fw = [i \in Objs |-> <<0, 0, 0, 0>>] /\ msgs = <<>> /\ res = Ok
TEST == <<84, 69, 83, 84, 32>>
PASSED == <<58, 32, 112, 97, 115, 115, 101, 100, 46, 32>>
FAILED == <<58, 32, 70, 65, 73, 76, 69, 68, 33, 32>>
RESULTS == <<84, 101, 115, 116, 32, 114, 101, 115, 117, 108, 116, 115, 58, 32>>
PERFORMED == <<32, 112, 101, 114, 102, 111, 114, 109, 101, 100, 44, 32>>
NFAILED == <<32, 102, 97, 105, 108, 101, 100, 44, 32>>
NPASSED == <<32, 112, 97, 115, 115, 101, 100>>
INFO == 3
ERROR == 5
\* object i gets result ok for the test called name
Test(i, name, ok, msg) ==
  LET s == fw[i] n == s[1] + 1 t == TEST \o IntText(n) \o <<32>> \o name IN
  /\ fw' = [fw EXCEPT ![i] = <<n, s[2] + ok, s[3] + 1 - ok, s[4]>>]
  /\ msgs' = IF ok = 0 THEN <<<<ERROR, t \o FAILED \o msg>>>> ELSE IF s[4] = 1 THEN <<<<INFO, t \o PASSED \o msg>>>> ELSE <<>>
  /\ res' = OkV(ok)
Fresh(i, k) == fw' = [fw EXCEPT ![i] = <<k, k, k, @[4]>>] /\ msgs' = <<>> /\ res' = Ok
Call(c) ==
  \/ c[1] = "test" /\ Test(c[2], c[3], c[4], c[5])
  \/ c[1] = "macro" /\ Test(2, <<98, 32, 33, 61, 32, 48>>, c[2], <<>>)                        \* FLUT_TEST( b != 0 )
  \/ c[1] = "macromsg" /\ Test(2, <<98, 32, 33, 61, 32, 48>>, c[2], c[3])
  \/ c[1] = "show" /\ fw' = [fw EXCEPT ![c[2]][4] = c[3]] /\ msgs' = <<>> /\ res' = Ok
  \/ c[1] = "reset" /\ Fresh(c[2], 0)
  \/ c[1] = "reset" /\ ResetKnown /\ fw[c[2]][3] > 0 /\ Fresh(c[2], fw[c[2]][3])           \* the listed defect, exactly
  \/ c[1] = "report" /\ LET s == fw[c[2]] IN
        /\ msgs' = <<<<IF s[3] > 0 THEN ERROR ELSE INFO, RESULTS \o IntText(s[1]) \o PERFORMED \o IntText(s[3]) \o NFAILED \o IntText(s[2]) \o NPASSED>>>>
        /\ res' = OkV(B(s[3] > 0)) /\ UNCHANGED fw
Observed == <<[i \in Objs |-> Upto(fw'[i], 3)], msgs'>>
-----------------------------------------------------------------------------
Sums == \A i \in Objs : fw[i][1] = fw[i][2] + fw[i][3]
=============================================================================
