from hist import *


class C(Hist):
    pid = "D01"
    technique = "model-based round-trip testing of typed values (stateful generation, exact comparison of type and payload)"
    rule = ("a case is a history of 60-500 statements over 1-4 generated models (every scalar type, nullable columns, lists nested up to "
            "9 deep, up to 130 columns, cells up to 300 kB) in which every stored value is read back through SELECT, projections and "
            "SELECT ALL and compared with type and payload. Non-trivial: at least one INSERT, one UPDATE and one SELECT ALL were compared")
    weights = {"ins": 10, "upd": 7, "sel": 4, "all": 4, "del": 1, "reinsert": 2, "big": 1.2, "pushmany": 0.8, "cmodel": 2, "dmodel": 0.6,
               "cwide": 0.3, "bulk": 0.3}
    need = ("insert", "update", "select-all|select-all-limit")
    quick = 1500
    thorough = 120000


CHECK = C()
