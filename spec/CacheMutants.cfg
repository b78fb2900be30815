SPECIFICATION MutantSpec
INVARIANT OnlyNeeded
CONSTRAINT Explore
POSTCONDITION AllNeeded
