from hist import *


class C(Hist):
    pid = "M01"
    technique = "stateful model-based testing of the catalogue (spaces and models) with INSPECT cross-checks"
    rule = ("a case is a history of 60-500 CREATE/ALTER/DROP SPACE/MODEL statements (plain, IF [NOT] EXISTS, ALLOW NOT EMPTY, duplicate, absent, "
            "invalid) mixed with row writes; each answer is predicted and INSPECT GLOBAL/SPACE/MODEL plus the rows are compared. Non-trivial: "
            "something was dropped, something re-created under a used name, and something was refused")
    weights = {**DDL, "ins": 6, "del": 1, "bulk": 0.15, "bulkdel": 0.15, "cwide": 0.3, "mixed": 0.8, "inspect": 2, "add": 0.6, "remove": 0.6, "unknown_model": 1}
    need = ("drop-model|drop-model-force|drop-space|drop-space-force", "recreate-model|recreate-space",
            "drop-model-nonempty-refused|drop-space-nonempty-refused|create-model-refused|create-model-duplicate")
    quick = 2600
    thorough = 100000


CHECK = C()
