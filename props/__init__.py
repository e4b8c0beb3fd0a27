"""Which module implements which property (modules are imported lazily)."""
REGISTRY = {
    "H01": ("hist", "H01"), "H02": ("hist", "H02"), "H03": ("hist", "H03"), "H04": ("hist", "H04"),
    "H05": ("hist", "H05"), "H06": ("hist", "H06"), "H07": ("hist", "H07"), "H08": ("cache", "H08"),
    "H09": ("hist", "H09"), "H10": ("route", "H10"), "H11": ("route", "H11"), "H12": ("select", "H12"),
    "C01": ("conc", "C01"), "C02": ("conc", "C02"), "C03": ("conc", "C03"), "C04": ("conc", "C04"),
    "C05": ("conc", "C05"),
    "F01": ("fetch", "F01"), "F02": ("fetch", "F02"), "F03": ("fetch", "F03"), "F04": ("fetch", "F04"),
    "D01": ("dsets", "D01"),
    "T01": ("deep", "T01"), "T02": ("deep", "T02"), "T03": ("deep", "T03"), "T04": ("deep", "T04"),
    "T05": ("deep", "T05"), "T06": ("weights", "T06"),
}
