"""Histories of concurrent operations and of operations interrupted by signals (driver conc)."""

ATTRS = {  # kind -> (type, properties)
    1: ("string", "nested"),
    2: ("int", "asvalue"),
    3: ("int", "process"),
    4: ("int", "process,asvalue"),
    5: ("string", "process,unaligned"),
    6: ("string", "process,nested"),
    7: ("int", "process,asvalue"),
    8: ("string", "unaligned"),
}


def decl(ids):
    return ["attr %d %s %s" % (i, ATTRS[i][0], ATTRS[i][1]) for i in ids]
