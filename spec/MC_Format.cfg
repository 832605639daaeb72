SPECIFICATION MSpec
CONSTANTS
  B = 4
  W = 4
  MaxIdLists = 2
  MaxIds = 3
  MaxTileLists = 2
  MaxTiles = 2
  MaxGroups = 2
  Extras = {0}
  Emit = FALSE
INVARIANTS EveryListReadsBack RecordReadsBack PrintScenario
PROPERTY Grows
CHECK_DEADLOCK FALSE
