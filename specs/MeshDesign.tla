----------------------------- MODULE MeshDesign -----------------------------
(***************************************************************************)
(* How calls can find their way without going through all loads: a cell    *)
(* for every exported operation that names the latest exporter, imports    *)
(* linked to cells, and a list of imports waiting for a cell. Every        *)
(* history of loads leads to the same destinations as in Mesh.             *)
(***************************************************************************)
EXTENDS Mesh
CONSTANTS Files, Modules, Limit   \* Modules is a set of [ex, im]
VARIABLES loads, cells, links, waiting
vars == <<loads, cells, links, waiting>>

Keys == {<<e.t, e.n>> : e \in UNION {{m.ex[j] : j \in 1..Len(m.ex)} \cup {m.im[j] : j \in 1..Len(m.im)} : m \in Modules}}
NoCell == [k |-> 0, i |-> 0]
Init == loads = <<>> /\ cells = [x \in Keys |-> NoCell] /\ links = {} /\ waiting = {}

Load(f, m) ==
  LET k == Len(loads) + 1
      at(x) == {j \in 1..Len(m.ex) : <<m.ex[j].t, m.ex[j].n>> = x}
      new == [x \in Keys |-> IF at(x) = {} THEN cells[x] ELSE [k |-> k, i |-> m.ex[Max(at(x))].i]]
      ims == waiting \cup {<<k, m.im[j].t, m.im[j].i, m.im[j].n>> : j \in 1..Len(m.im)}
      found == {w \in ims : new[<<w[2], w[4]>>] # NoCell}
  IN /\ loads' = Append(loads, [file |-> f, ex |-> m.ex, im |-> m.im])
     /\ cells' = new
     /\ links' = links \cup found
     /\ waiting' = ims \ found
Next == Len(loads) < Limit /\ \E f \in Files, m \in Modules : Load(f, m)
Spec == Init /\ [][Next]_vars

Agrees(c, d) == CASE d.s = "none" -> c = NoCell
                  [] d.s = "free" -> TRUE
                  [] OTHER -> c.k = d.k /\ c.i \in d.i
ByName == \A x \in Keys : Agrees(cells[x], Dest(loads, x[1], x[2]))
Through(k, t, i) == LET S == {w \in links : w[1] = k /\ w[2] = t /\ w[3] = i}
                    IN IF S = {} THEN NoCell ELSE LET w == CHOOSE w \in S : TRUE IN cells[<<w[2], w[4]>>]
ByImport == \A k \in 1..Len(loads) : \A j \in 1..Len(loads[k].im) :
              Agrees(Through(k, loads[k].im[j].t, loads[k].im[j].i), Via(loads, k, loads[k].im[j].t, loads[k].im[j].i))
\* Nothing waits for what is there.
Linked == \A w \in waiting : Exporters(loads, w[2], w[4]) = {}
=============================================================================
