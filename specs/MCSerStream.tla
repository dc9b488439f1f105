----------------------------- MODULE MCSerStream -----------------------------
EXTENDS SerStream, TLC, Json
CONSTANTS MAXOBJ, SIZES, DEPTH
VARIABLES hist
S(n) == ToString(n)
H(x) == hist' = Append(hist, x)
Init == file = [f \in FILES |-> None] /\ wr = [d \in DIRS |-> -1] /\ rd = [d \in DIRS |-> Idle] /\ res = Ok(<<>>) /\ hist = <<>>
Next ==
    \E d \in DIRS :
      \/ \E f \in FILES : OpenWriter(d, f) /\ H("openw " \o S(d) \o " " \o S(f))
      \/ \E b \in SIZES : wr[d] # -1 /\ Len(file[wr[d]].objs) < MAXOBJ /\ Ser(d, [id |-> Len(file[wr[d]].objs) + 1, b |-> b])
                          /\ H("serb " \o S(d) \o " " \o S(b))
      \/ CloseWriter(d) /\ wr[d] # -1 /\ H("closew " \o S(d))
      \/ \E f \in FILES : OpenReader(d, f) /\ H("openr " \o S(d) \o " " \o S(f))
      \/ Unser(d) /\ H("unser " \o S(d))
      \/ CloseReader(d) /\ Reading(d) /\ H("closer " \o S(d))
      \/ d = 0 /\ \E f \in FILES : file[f].st = "clean" /\ Damage(f) /\ H("damage " \o S(f) \o " magic")
Spec == Init /\ [][Next]_<<vars, hist>>
View == <<file, wr, rd>>
Emit == Len(hist) # DEPTH \/ PrintT("VGEN " \o ToJson(hist))
=============================================================================
