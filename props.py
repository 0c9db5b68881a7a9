"""Which contracts decide which property."""
STO = ["storage_dict.cc", "storage_o2o.cc", "storage_o2m.cc", "storage_m2m.cc"]
PROPS = {
 "S01": dict(specs=[(s, "_state$|^bounded") for s in STO]),
 "S02": dict(specs=[(s, "_undo$|^bounded") for s in STO]),
 "S03": dict(specs=[(s, "_replay$|^bounded") for s in STO]),

 "S04": dict(specs=["storage_txn.cc"]),
 "P01": dict(specs=["persist_memory.cc"]),
 "T01": dict(specs=["clock.cc", "clock_mock.cc"]),
 "W01": dict(specs=["waitable.cc"]),
 "O01": dict(specs=["owned.cc"]),
 "U01": dict(specs=["url.cc"]),
}
