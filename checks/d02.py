from hist import *


class C(Hist):
    pid = "D02"
    technique = "model-based negative testing: generated ill-typed, out-of-range, null and mis-shaped writes against a reference model"
    rule = ("a case is a history of 60-500 statements, about half of them writes with exactly one defect (wrong class, out of range, null, "
            "missing/extra/unknown/repeated column, nested list of the wrong depth or element) placed at a random position; the refusal "
            "code is predicted and the model is compared afterwards. Non-trivial: refused inserts and refused updates both occurred")
    weights = {"ins": 6, "ins_bad": 12, "upd": 12, "del": 1, "all": 1, "cmodel": 2, "dmodel": 0.8, "bulk": 0.1}
    need = ("insert-refused:class|insert-refused:range|insert-refused:null", "update-refused")
    quick = 4000
    thorough = 150000


CHECK = C()
