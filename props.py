"""Which harness decides which property."""

ARF = ["arf"]
ARB = ["arf", "arb"]

# sources: the library sources that need to be linked (default: all)
HARNESSES = {
    "arf": {"files": ["arf"], "sources": ARF},
    "arfexpr": {"files": ["arfexpr"], "sources": ARF, "generate": ["gen_expr.py", "arf", "8", "6"]},
    "arb": {"files": ["arb"], "sources": ARB},
    "real": {"files": ["real"]},
    "rings": {"files": ["rings"]},
    "modules": {"files": ["modules"]},
    "elements": {"files": ["elements"]},
    "serial": {"files": ["serial"]},
    "arbexpr": {"files": ["arbexpr"], "sources": ARB, "generate": ["gen_expr.py", "arb", "8", "6"]},
}

# scale: multiplies the number of cases of every relation
PROPERTIES = {
    "A01": {"harness": ["arf"], "scale": 10},
    "A02": {"harness": ["arf"], "scale": 10},
    "A03": {"harness": ["arf"], "scale": 10},
    "A04": {"harness": ["arf"], "scale": 10},
    "A05": {"harness": ["arfexpr"], "scale": 5},
    "A06": {"harness": ["arfexpr"], "scale": 5},
    "B01": {"harness": ["arb"], "scale": 5},
    "B02": {"harness": ["arb"], "scale": 5},
    "B03": {"harness": ["arbexpr"], "scale": 3},
    "B04": {"harness": ["arb"], "scale": 5},
    "S01": {"harness": ["real"], "scale": 8},
    "R01": {"harness": ["real"], "scale": 6},
    "R02": {"harness": ["real"], "scale": 5},
    "R03": {"harness": ["real"], "scale": 3},
    "R04": {"harness": ["real"], "scale": 6},
    "R05": {"harness": ["real"], "scale": 4},
    "R06": {"harness": ["real"], "scale": 6},
    "R07": {"harness": ["real"], "scale": 12},
    "R08": {"harness": ["real"], "scale": 8},
    "G01": {"harness": ["rings"], "scale": 5},
    "M01": {"harness": ["modules"], "scale": 6},
    "E01": {"harness": ["modules"], "scale": 7},
    "E02": {"harness": ["modules"], "scale": 8},
    "E03": {"harness": ["modules"], "scale": 6},
    "E04": {"harness": ["elements"], "scale": 4},
    "E05": {"harness": ["elements"], "scale": 5},
    "E06": {"harness": ["elements"], "scale": 15},
    "C01": {"harness": ["serial"], "scale": 7},
    "C02": {"harness": ["serial"], "scale": 12},
    "P01": {"harness": ["serial"], "scale": 6},
}
