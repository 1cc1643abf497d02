from hist import *


class C(Hist):
    pid = "D04"
    technique = "model-based testing of UPDATE against exact (unbounded-integer / IEEE-double) reference arithmetic"
    rule = ("a case is a history of 60-500 statements, mostly UPDATEs with 1-5 (sometimes 100) assignments using =, +=, -=, *=, /= and list "
            "append, operands biased so that results land on or next to the limits of the declared type; the row is re-read after each. "
            "Non-trivial: at least one applied and one refused UPDATE that had several assignments")
    weights = {"ins": 3, "upd": 26, "upd_absent": 1, "del": 0.6, "all": 0.6, "pushmany": 1.2, "big": 0.3, "cmodel": 1, "dmodel": 0.4}
    need = ("update", "update-refused-multi")
    quick = 3500
    thorough = 150000


CHECK = C()
