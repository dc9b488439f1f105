---------------------------- MODULE MCMergeDesign ----------------------------
EXTENDS MergeDesign
=============================================================================
