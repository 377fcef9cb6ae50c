REGISTRY = {
    "S01": ("cache", "s01"),
    "S02": ("cache", "s02"),
}
for _p in ("S10", "S11", "S12", "S13", "S14", "S15", "S20"):
    REGISTRY[_p] = ("structq", _p.lower())
for _p in ("S04", "S05", "S06"):
    REGISTRY[_p] = ("structm", _p.lower())
REGISTRY["S07"] = ("device", "s07")
for _p in ("S08", "S09", "S16", "S17", "S21"):
    REGISTRY[_p] = ("edges", _p.lower())
REGISTRY["S18"] = ("convert", "s18")
for _p in ("R01", "R02", "R03"):
    REGISTRY[_p] = ("rand", _p.lower())
for _p in ("M01", "M02", "M03"):
    REGISTRY[_p] = ("metrics", _p.lower())
for _p in ("D01", "D02", "D03"):
    REGISTRY[_p] = ("data", _p.lower())
for _p in ("D04", "D05", "D06", "D07", "D08"):
    REGISTRY[_p] = ("util", _p.lower())
for _p in ("N01", "N02", "N03", "N04", "N05", "N06"):
    REGISTRY[_p] = ("nn", _p.lower())
for _p in ("E01", "E02", "E03", "E04"):
    REGISTRY[_p] = ("exp", _p.lower())
for _p in ("E05", "E06"):
    REGISTRY[_p] = ("study", _p.lower())
for _p in ("W01", "W02", "W04"):
    REGISTRY[_p] = ("names", _p.lower())
REGISTRY["N07"] = ("exp", "n07")
REGISTRY["W06"] = ("feat", "w06")
REGISTRY["R04"] = ("feat", "r04")
REGISTRY["W03"] = ("draw", "w03")
REGISTRY["W05"] = ("draw", "w05")
