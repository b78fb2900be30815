SPECIFICATION CtSpec
VIEW CtView
INVARIANT CtCoherent
