--------------------------- MODULE MC_MdAssembly3 ---------------------------
(* As MC_MdAssembly, for three members with smaller tables. *)
EXTENDS MC_MdAssembly
=============================================================================
