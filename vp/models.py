"""The exhaustively checked models behind each property, and their bounds per tier."""
ALL = ["append", "panic", "try", "truncate", "reserve"]


def ops(*x):
    return "= {" + ", ".join(f'"{o}"' for o in x) + "}"


def impl(tag, ops_, cfg="Flat1", **c):
    c = {k: ("= " + str(v) if not str(v).startswith(("=", "<-")) else v) for k, v in c.items()}
    return ("ArrayImpl" + tag, "MCArrayImpl", f"MC_{cfg}.cfg", {"Ops": ops(*ops_), **c})


FLAT = {"W": 2, "MaxLen": 3, "MaxBatch": 3, "MaxGrow": 4}
NEST = {"W": 2, "MaxLen": 2, "MaxBatch": 2, "MaxGrow": 5}


def array(cid, *o):
    return {"quick": [impl(cid + "f", o, **FLAT), impl(cid + "n", o, "Nest1", **NEST)],
            "thorough": [impl(cid + "f", o), impl(cid + "n", o, "Nest1", MaxLen=3, MaxGrow=6),
                         impl(cid + "d", o, "Nest2", MaxLen=2, MaxGrow=6)]}


BITS = {"quick": [("Bits", "MCBits", "MC_Bits.cfg")],
        "thorough": [("Bits", "MCBits", "MC_Bits.cfg", {"Bytes": "= {0, 1, 2, 3, 4, 5, 6, 7}",
                                                        "Skips": "= {0, 1, 2, 3, 4, 5, 7, 9, 12}"}),
                     ("Bits4", "MCBits", "MC_Bits.cfg", {"W": "= 4", "Bytes": "= {0, 6, 9, 15}"})]}
FFI = {"quick": [("Ffi", "MCFfi", "MC_Ffi.cfg", {"MaxItems": "= 1"})],
       "thorough": [("Ffi", "MCFfi", "MC_Ffi.cfg"), ("Ffi2", "MCFfi", "MC_Ffi2.cfg")]}
CAP = {"quick": [("Capacity", "Capacity", "MC_Capacity.cfg", {"Ns": "= {0, 2}"})],
       "thorough": [("Capacity", "Capacity", "MC_Capacity.cfg"), ("CapacityDeep", "Capacity", "MC_CapacityDeep.cfg")]}

MODELS = {
    "C01": array("C01", "append"),
    "C03": array("C03", "append", "truncate", "reserve"),
    "C04": array("C04", "append", "panic", "truncate"),
    "C05": array("C05", "append", "try", "truncate"),
    "C06": array("C06", *ALL),
    "C02": BITS, "C08": BITS, "C10": BITS,
    "C09": {t: BITS[t] + [impl("C09", ALL, Layouts="<- Bools", **(FLAT if t == "quick" else {}))] for t in BITS},
    "C07": {"quick": [("Raw", "MCRaw", "MC_Raw.cfg")],
            "thorough": [("Raw", "MCRaw", "MC_Raw.cfg"), ("RawDeep", "MCRaw", "MC_RawDeep.cfg")]},
    "C11": CAP, "C18": CAP,
    "C12": {"quick": [("Source", "Source", "MC_Source.cfg", {"MaxScript": "= 5"})],
            "thorough": [("Source", "Source", "MC_Source.cfg")]},
    "C13": FFI, "C15": FFI, "C16": FFI, "C17": FFI,
    "C19": {"quick": [("Copies", "Copies", "MC_Copies.cfg")],
            "thorough": [("Copies", "Copies", "MC_Copies.cfg"), ("Copies3", "Copies", "MC_Copies.cfg", {"MaxRows": "= 3", "MaxRow": "= 1", "MaxSlack": "= 3"})]},
    "C14": {"quick": [("FfiLife", "MCFfiLife", "MC_FfiLife.cfg")],
            "thorough": [("FfiLife6", "MCFfiLife", "MC_FfiLife6.cfg")]},
}
