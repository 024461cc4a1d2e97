"""Which harness crate runs which property."""
HARNESS = {}
for crate, ids in {
    "base": "K01 K02 S01 S02 L04 L05 L06 R01 R02 R03 H01 H02 H03 M01 M02 M03",
    "log": "L01 L02 L03 L07",
    "flow": "W01 W02 W03 W04 W05 W06",
    "net": "T01 F02",
    "pgv": "V01",
    "grpc": "N01 N02 N03 N04",
    "stats": "C01 C02",
    "api": "T02 T03",
    "logger": "G01 G02 G03 G04 G05 G06 G07 G08 G09 E01 F01",
    "buf": "B01 B02 B03 B04 B05 B06 B07 B08",
}.items():
    for i in ids.split():
        HARNESS[i] = crate

# Properties that are run once under each of these instead.
SANITIZED = {"B07": ["address", "thread"]}
