----------------------------- MODULE MCRootDesc ------------------------------
EXTENDS RootDesc
RootsQ == {-2, 0, 1, 3}
RootsT == {-3, -1, 0, 1, 4}
ExtraSet == {<<1>>, <<1, 0, 1>>, <<-2, 0, 1>>}
=============================================================================
