SPECIFICATION GenSpec
INVARIANT InvTypes InvC05a InvC05b InvC08 InvC09
PROPERTY GenActions
