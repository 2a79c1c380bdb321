SPECIFICATION TSpec
CONSTANTS Threads = {1, 2, 3}
 Accepts <- Takes
 Creators = Creators
 Spoilt = Spoilt
 Nothing = Nothing
INVARIANTS Once Gone
