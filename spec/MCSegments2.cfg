CONSTANTS
  Earlies = {0, 3}
  Widths = {0, 2, 100000000}
  Servs = {1}
  Legs = {0, 2}
  Rels = {0, 3, 5}
  Slates = {2, 7}
  Shape <- ShapeCDC
INIT Init
NEXT Next
INVARIANTS CutsAgree Assoc
CHECK_DEADLOCK FALSE
