------------------------------ MODULE XmlTrace ------------------------------
(* C03: recorded runs, whose output must also be well-formed XML.           *)
EXTENDS RenderTrace, XmlRead

Body_ == LET o == J.obs.out d == Doctype(T(1)) IN SubSeq(o, Len(d) + 1, Len(o))
WhyXml == IF Why # "" THEN Why
          ELSE IF J.obs.k = "ok" /\ ~WellFormed(Body_) THEN "the output is not well-formed XML"
          ELSE ""
VerdictXml ==
  Done => TLCSet(1, Append(TLCGet(1),
            IF WhyXml = "" THEN [j |-> job, why |-> ""]
            ELSE [j |-> job, why |-> WhyXml, status |-> st.status, out |-> Result]))
=============================================================================
