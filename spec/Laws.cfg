SPECIFICATION LawSpec
INVARIANT LawHolds
