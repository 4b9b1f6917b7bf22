SPECIFICATION Spec
CONSTANTS MaxRows = 2
          HalfCols = 2
INVARIANTS Shape Provenance Bins Slices
