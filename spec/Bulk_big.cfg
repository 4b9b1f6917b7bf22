SPECIFICATION Spec
CONSTANTS MaxRows = 4
          HalfCols = 3
INVARIANTS Shape Provenance Bins Slices
