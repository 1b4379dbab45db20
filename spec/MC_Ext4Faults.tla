---------------------------- MODULE MC_Ext4Faults ----------------------------
(* The same with failing reads, see MC_Ext4Handles.                            *)
EXTENDS MC_Ext4Handles
=============================================================================
