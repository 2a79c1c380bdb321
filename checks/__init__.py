# property -> (module, function)
REGISTRY = {
    "C01": ("hash", "c01"),
    "C02": ("hash", "c02"),
    "C03": ("hash", "c03"),
    "C04": ("hash", "c04"),
    "C05": ("refs", "c05"),
    "C10": ("lists", "c10"),
    "C11": ("prio", "c11"),
    "C12": ("function", "c12"),
    "C13": ("maybe", "c13"),
    "C14": ("fixedarray", "c14"),
    "C06": ("threads", "c06"),
    "C07": ("threads", "c07"),
    "C08": ("threads", "c08"),
    "C09": ("threads", "c09"),
    "C15": ("args", "c15"),
    "C16": ("args", "c16"),
    "C17": ("args", "c17"),
    "C18": ("strings", "c18"),
    "C19": ("strings", "c19"),
    "C20": ("strings", "c20"),
    "C21": ("words", "c21"),
    "C22": ("words", "c22"),
    "C23": ("raii", "c23"),
    "C24": ("seqs", "c24"),
    "C25": ("flags", "c25"),
    "C26": ("sharedlib", "c26"),
    "C27": ("fsutil", "c27"),
    "C28": ("misc", "c28"),
    "C29": ("misc", "c29"),
    "C30": ("misc", "c30"),
    "C31": ("misc", "c31"),
    "C32": ("failstop", "c32"),
    "C33": ("helpers", "c33"),
    "C34": ("contracts", "c34"),
}
