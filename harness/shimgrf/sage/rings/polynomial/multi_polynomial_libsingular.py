"""Stand-in for Sage's interface to Singular."""
from minisage import Poly as MPolynomial_libsingular
