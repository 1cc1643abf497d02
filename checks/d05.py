from hist import *


class C(Hist):
    pid = "D05"
    technique = "stateful model-based testing of SELECT ALL (row set, limit and projection) against the set of live rows"
    rule = ("a case is a history of 50-300 statements in which models grow to thousands of rows and shrink again by bulk inserts and deletes, "
            "with SELECT ALL issued throughout with limits 0, 1, n-1, n, n+1, huge and random projections (with repeated columns and without the "
            "key). Non-trivial: SELECT ALL with and without an effective limit on models that had deletes")
    weights = {"ins": 5, "all": 14, "del": 3, "upd": 3, "reinsert": 1, "bulk": 2, "bulkdel": 1.2, "key": 3, "sel_unknown_field": 1, "add": 0.4,
               "remove": 0.4, "cmodel": 0.6, "dmodel": 0.2, "ins_bad": 0.5, "ins_dup": 0.5}
    lens = (50, 80)
    long_len = 300
    need = ("select-all", "select-all-limit", "delete|bulk-delete")
    quick = 1600
    thorough = 50000


CHECK = C()
