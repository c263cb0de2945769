SPECIFICATION Spec
CONSTANTS
  Strats <- QStrats
  Flags <- TFlags
  MaxAges <- TMaxAges
  Exps <- TExps
  MinFresh <- TFresh
  MaxStale <- TStale
  ReqAges <- TReqAges
  Ages <- TAges
  Answers <- TAnswers
INVARIANT Out
CHECK_DEADLOCK FALSE
