----------------------------- MODULE MC_C15 -----------------------------
(* A description is prepared, written down, and what was written is loaded  *)
(* in its place, again and again: it means the same and is written the same. *)
EXTENDS MC_C04, Dump
VARIABLES root, rounds
Init15 == /\ Init /\ root = doc /\ rounds = 0
DocsNow == Docs(root)
Rewrite == /\ rounds < 2 /\ rounds' = rounds + 1
           /\ root' = Written(DocsNow, Root)
           /\ UNCHANGED vars
Spec15 == Init15 /\ [][Rewrite]_<<vars, root, rounds>>
Meaning == rounds = 0 \/ SameMeaning(Docs(doc), Root, root)
Again == rounds = 0 \/ Written(DocsNow, Root) = root
Emit15 == rounds # 0 \/ PrintT(<<"@T@", ToJson(Docs(doc))>>)
NothingNew == rounds = 0 \/ Unknown(root) = {}
=========================================================================
