"""Which module decides which property."""

PROPERTIES = {
    "D01": "designs", "D02": "designs", "D03": "designs", "D04": "designs",
    "R01": "randomise", "R02": "randomise", "R03": "randomise",
    "P01": "preparation", "P02": "preparation", "P03": "preparation",
    "P04": "pipelines", "P05": "pipelines",
    "P06": "validation", "P07": "validation", "P08": "validation",
    "P09": "preparation", "P10": "immutability",
    "P11": "synthetic", "P12": "synthetic", "P13": "synthetic", "P14": "preparation",
    "S01": "trimmed", "S02": "trimmed",
    "S03": "ttests", "S04": "ttests", "S05": "ttests", "S06": "ttests",
    "S07": "ttests", "S08": "ttests", "S09": "calibration",
    "A01": "analysis", "A02": "analysis", "A03": "analysis", "A04": "analysis",
    "A05": "analysis", "A06": "display",
    "M01": "simulations", "M02": "simulations", "M03": "simulations",
    "M04": "simulations", "M05": "simulations", "M06": "display", "M07": "simulations",
    "V01": "plots", "V02": "plots", "V03": "plots",
    "E01": "lifecycle", "E02": "notebooks",
}
