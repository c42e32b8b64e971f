------------------------------ MODULE MCMuchnik ------------------------------
EXTENDS Muchnik
CoefsA == {<< >>, <<1>>, <<-1>>, <<0, 1>>, <<-1, 1>>}
CoefsB == {<< >>, <<1>>, <<-1>>, <<0, 1>>}
CoefsC == {<< >>, <<1>>, <<-1>>, <<2>>}
CoefsD == {<< >>, <<1>>, <<-1>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<-1, 1>>, <<0, 0, 1>>}
ParsA == {<<-1, 1>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<1, 2>>}
ParsB == {<<0, 1>>, <<1, 1>>, <<-2, 1>>}
ParsC == {<<0, 1>>}
=============================================================================
