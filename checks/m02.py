from hist import *


class C(Hist):
    pid = "M02"
    technique = "stateful model-based testing of ALTER MODEL interleaved with row writes"
    rule = ("a case is a history of 60-500 statements in which ALTER MODEL ADD/REMOVE/UPDATE (valid and invalid, one or several columns, columns "
            "removed and added again) alternate with INSERT/UPDATE/DELETE/SELECT on populated models; declarations and all rows are compared "
            "after each. Non-trivial: columns were added to and removed from a populated model and rows were updated afterwards")
    weights = {**ALTER, "ins": 6, "upd": 6, "sel": 2, "all": 2, "del": 2, "reinsert": 1, "sel_unknown_field": 1.5, "ins_bad": 1, "ins_dup": 1,
               "cmodel": 0.6, "dmodel": 0.3, "bulk": 0.15, "pushmany": 0.3}
    need = ("alter-add-populated", "alter-remove-populated", "update")
    quick = 2600
    thorough = 100000


CHECK = C()
