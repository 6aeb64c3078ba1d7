SPECIFICATION Spec
CONSTANTS MaxWidth = 4
          MaxValue = 17
INVARIANTS WidthKept Padding Denotes Precision FixedNearest ExpNearest GeneralIs
