from hist import *


class C(Hist):
    pid = "D06"
    technique = "model-based testing of WHERE: generated clauses with exactly one admissible form, all rows compared after each"
    rule = ("a case is a history over models with several rows in which SELECT/UPDATE/DELETE are issued with the primary-key equality and with "
            "every kind of other clause (other operator, other column, extra conjunct in either order, other value class, unknown column, "
            "no clause); after each statement all rows of the model are compared with the reference. Non-trivial: at least three refused "
            "clauses and one applied UPDATE or DELETE while two or more rows were stored")
    weights = {"ins": 5, "upd": 5, "del": 3, "where_bad": 12, "sel": 1, "sel_absent": 1, "upd_absent": 1, "del_absent": 1, "reinsert": 1,
               "cmodel": 0.6, "dmodel": 0.3}
    lens = (40, 60, 100)
    quick = 3000
    thorough = 100000

    def after(self, w, op):
        if op["o"] in ("upd", "del", "where_bad", "reinsert", "upd_absent", "del_absent"):
            for k in sorted(w.models):
                m = w.models[k]
                if len(m.rows) >= 2:
                    w.nontriv["many"] = 1
                w.check_all(m)

    need = ("where-refused:op|where-refused:other|where-refused:both|where-refused:class", "update|delete", "many")


CHECK = C()
