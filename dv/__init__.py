"""Contract-based deductive verification of the real spectrocrunch code.

The functions of /repo/src are executed in CPython on symbolic values (dv.sym);
every path yields verification conditions that are discharged by a ring
normaliser (dv.ring) or an SMT solver.  See /verif/DESIGN.md.
"""
