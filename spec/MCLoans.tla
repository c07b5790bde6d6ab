------------------------------ MODULE MCLoans ------------------------------
EXTENDS Loans, Json
CONSTANTS Emit
MyRows == {r \in [excl : BOOLEAN, copy : BOOLEAN, glue : BOOLEAN, own : BOOLEAN, tied : BOOLEAN, dexcl : BOOLEAN, dglue : BOOLEAN, derives : BOOLEAN] :
  /\ (r.excl => ~r.copy) /\ (r.copy => ~r.glue /\ ~r.own /\ ~r.tied) /\ (r.own => ~r.tied)
  /\ (r.dexcl => r.excl /\ (r.tied \/ r.own)) /\ (r.excl => (r.tied \/ r.own \/ ~r.derives))
  /\ (~r.derives => ~r.own /\ ~r.tied /\ ~r.dexcl /\ ~r.dglue)}
Tell == ~Emit \/ PrintT(ToJson(<<row, script, Verdict>>))
=============================================================================
