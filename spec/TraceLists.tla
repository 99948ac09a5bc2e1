------------------------------ MODULE TraceLists ------------------------------
EXTENDS TraceBase, Integers
VARIABLES items, rc, was
S == INSTANCE Lists WITH Items <- {}, MaxLen <- 0, NoVal <- "NULL"
lv == <<items, rc, was>>
Step(e) ==
  CASE e.op = "push" -> S!Push(e.x) /\ e.rc = 0
    [] e.op = "bad"  -> S!Refuse /\ e.rc < 0
    [] e.op = "len"  -> S!Observe /\ e.v = Len(items)
    [] e.op = "first" -> S!Observe /\ e.v = IF items = <<>> THEN "NULL" ELSE items[1][1]
    [] e.op = "last" -> S!Observe /\ e.v = IF items = <<>> THEN "NULL" ELSE items[Len(items)][1]
    [] e.op = "dump" -> S!Observe /\ e.v = items
    [] e.op = "json" -> S!Observe /\ e.v = IF items = <<>> THEN "NULL" ELSE S!Json_(items)
    [] e.op = "array" -> /\ S!Observe
                         /\ e.cmp = S!Compare(e.a, e.b) /\ e.cmp2 = S!Compare(e.a, e.b)
                         /\ e.copynull < 0 /\ e.freed /\ e.shared = FALSE
                         /\ IF e.a = "NULL" THEN e.copy < 0 /\ e.dst = ""
                            ELSE e.copy = 0 /\ e.dst = e.a
    [] OTHER -> FALSE
TraceInit == BaseInit /\ S!Init
TraceNext == Consume /\ Step(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l, lv>>
================================================================================
