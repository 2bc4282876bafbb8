"""property id -> (module, function)"""
REG = {}
for i, f in (("C01", "c01"), ("C02", "c02"), ("C03", "c03"), ("C10", "c10"), ("C11", "c11"), ("C12", "c12"),
             ("C13", "c13"), ("C15", "c15"), ("C18", "c18")):
    REG[i] = ("api", f)
for i in ("C04", "C05", "C06"): REG[i] = ("codec", i.lower())
for i in ("C08", "C09", "C19"): REG[i] = ("ring", i.lower())
for i in ("C07", "C14", "C16", "C20"): REG[i] = ("hash", i.lower())
for i in ("Y03", "Y06"): REG[i] = ("pyref", i.lower())
for i in ("Y01", "Y02", "Y04", "Y07"): REG[i] = ("pysign", i.lower())
REG["Y05"] = ("pycli", "y05")
for i in ("S01", "S02", "S03", "S05", "S06", "S07"): REG[i] = ("sol", i.lower())
for i in ("G01", "G02", "G03"): REG[i] = ("gobind", i.lower())
REG["C17"] = ("consts", "c17")
REG["C21"] = ("perm", "c21")
REG["Y08"] = ("perm", "y08")
