"""property -> (module, function, arguments)"""
CHECKS = {
    "C01": ("ctor_cache", "c01"),
    "C02": ("ctor_cache", "c02"),
    "C03": ("ctor_cache", "c03"),
    "C04": ("ctor_cache", "c04"),
    "C05": ("ctor_cache", "c05"),
    "C06": ("ctor_cache", "c06"),
    "C07": ("ctor_window", "c07"),
    "C08": ("ctor_window", "c08"),
    "C09": ("ctor_scope", "c09"),
    "P01": ("ctor_parse", "p01"),
    "P02": ("ctor_parse", "p02"),
    "P03": ("ctor_parse", "p03"),
    "P04": ("ctor_parse", "p04"),
    "P05": ("ctor_parse", "p05"),
    "R01": ("registry", "r01"),
    "R02": ("effects", "r02"),
    "R03": ("effects", "r03"),
    "R04": ("effects", "r04"),
    "T01": ("command", "t01"),
    "E01": ("names", "e01"),
    "D01": ("order", "d01"),
    "G01": ("algebra", "g01"),
    "Q01": ("query", "q01"),
    "Q02": ("query", "q02"),
    "Q03": ("query", "q03"),
    "F01": ("fill", "f01"),
    "V01": ("page", "v01"),
    "V02": ("page", "v02"),
    "V03": ("resources", "v03"),
    "V05": ("static", "v05"),
    "V04": ("export", "v04"),
}
