SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT AliasTransparent
INVARIANT ManyIsRepeated
PROPERTY AccessValidity
PROPERTY StoreExact
PROPERTY OnlyStoresStore
PROPERTY ReadOnlyForever
PROPERTY WatchpointsAreASet
PROPERTY CountsExact
PROPERTY OOMAtomic
PROPERTY XmlPure
CHECK_DEADLOCK FALSE
