---------------------------- MODULE TraceC20 ----------------------------
(* Observed traversals, parents and reference arithmetic.  ses.doc is the   *)
(* document; a traversal is a list of <<pointer, class>> per visitor.        *)
EXTENDS Swagger20, TraceBase
SubRoot(doc, cls, toks) == [ptr |-> "#", cls |-> cls, node |-> Walk(doc, toks), up |-> "none"]
Init20(ses) == TLCEval(Objects(ses.doc))
(* a visitor is called once for each object of each class it is for *)
Wanted(os, reg) == {<<o.ptr, o.cls>> : o \in {x \in os : \E c \in Range(reg) : IsA(x.cls, c)}}
Verdict(ses, x, e) ==
  CASE e.ev = "load" -> Clause("loading must succeed", e.r = "ok", "ok")
    [] e.ev = "visit" ->
         IF e.r # "ok" THEN {"traversal must succeed: specified ok"}
         ELSE LET os == TLCEval(IF e.at = <<>> /\ e.leaves = <<>> THEN x ELSE Under({SubRoot(ses.doc, e.cls, e.at)}, Range(e.leaves)))
              IN UNION {LET w == TLCEval(Wanted(os, e.reg[i]))
                            g == e.seen[i]
                        IN Clause("each object visited exactly once by each visitor for it", Len(g) = Cardinality(w) /\ Range(g) = w, <<e.reg[i], w \ Range(g), Range(g) \ w>>) : i \in 1..Len(e.reg)}
                 \cup Clause("the result of each visitor call is passed on", e.results = e.returned, e.returned)
    [] e.ev = "tree" ->     \* parent and way back of every object
         UNION {LET o == e.objs[i]
                    w == {y \in x : y.ptr = o.ptr}
                IN IF w = {} THEN {"an object under a pointer that is not in the document: specified none, was " \o o.ptr}
                   ELSE Clause("its parent is the object containing it", \A y \in w : o.up = y.up, <<o.ptr, {y.up : y \in w}>>)
                        \cup Clause("its pointer resolves back to it", o.back = o.ptr, o.ptr)
                : i \in 1..Len(e.objs)}
    [] e.ev = "compose" -> Clause("composing a pointer", e.r = PtrCompose(e.toks, e.base), PtrCompose(e.toks, e.base))
                           \cup (IF e.toks = <<>> THEN {} ELSE Clause("splitting a composed pointer gives back its tokens", e.back = (IF e.base = "" THEN <<>> ELSE PtrSplit(e.base)) \o e.toks, e.toks))
    [] e.ev = "split" -> Clause("splitting a pointer", e.r = PtrSplit(e.p), PtrSplit(e.p))
    [] e.ev = "jrsplit" -> LET u == RefUrl(e.jr)
                               a == IF u # "" /\ ~HasScheme(u) THEN "file://" \o u ELSE u
                           IN Clause("splitting a reference", e.r = <<a, "#" \o RefFrag(e.jr)>>, <<a, "#" \o RefFrag(e.jr)>>)
    [] e.ev = "norm" -> Clause("normalizing a reference", e.r = NormRef(e.jr, e.base), NormRef(e.jr, e.base))
    [] e.ev = "normurl" -> LET w == IF HasScheme(e.u) THEN e.u ELSE "file://" \o e.u IN Clause("normalizing a URL", e.r = w, w)
    [] e.ev = "derel" -> LET w == Origin(e.u) \o AbsPath(UPath(e.u)) IN Clause("removing dot segments", e.r = w, w)
    [] e.ev = "dirname" -> LET f == EndsWith(e.u, ".json") \/ EndsWith(e.u, ".yaml")
                               w == IF ~f THEN e.u ELSE Origin(e.u) \o (IF DirOf(UPath(e.u)) = "" THEN "/" ELSE DirOf(UPath(e.u)))
                           IN Clause("the folder of a document", e.r = w, w)
    [] e.ev = "join" -> LET a == IF EndsWith(e.u, "/") THEN Upto(e.u, Len(e.u) - 1) ELSE e.u
                            b == IF StartsWith(e.p, "/") THEN From(e.p, 2) ELSE e.p
                        IN Clause("joining a URL and a path", e.r = a \o "/" \o b, a \o "/" \o b)
    [] OTHER -> {"unknown event"}
=========================================================================
