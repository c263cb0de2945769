SPECIFICATION Spec
CONSTANTS
  Strats <- QStrats
  Flags <- QFlags
  MaxAges <- QMaxAges
  Exps <- QExps
  MinFresh <- QFresh
  MaxStale <- QStale
  ReqAges <- QReqAges
  Ages <- QAges
  Answers <- QAnswers
INVARIANT Out
CHECK_DEADLOCK FALSE
