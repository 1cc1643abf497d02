from hist import *


class C(Hist):
    pid = "D07"
    technique = "stateful model-based testing of refused statements: full state comparison after each refusal, and across a restart"
    rule = ("a case is a history of 30-60 statements, most of them refused ones of every kind (DML, DDL, ALTER, USE of unknown names, bad types, "
            "partially valid multi-column statements); the complete catalogue and all rows are compared after every refusal, and in one case of "
            "four again after the server was restarted. Non-trivial: refused DML and refused DDL both occurred while rows were stored")
    weights = {"ins": 6, "ins_bad": 8, "ins_dup": 3, "upd": 6, "upd_absent": 2, "del": 1, "del_absent": 2, "where_bad": 4, "alter_bad": 8,
               "cmodel": 2, "cmodel_bad": 5, "cmodel_dup": 3, "cspace_bad": 2, "cspace_dup": 2, "dspace_absent": 1, "dmodel_absent": 1,
               "sel_unknown_field": 2, "unknown_model": 2, "dmodel": 2, "dspace": 1, "aspace": 1}
    lens = (30, 45, 60)
    long_len = 150
    need = ("insert-refused:class|insert-refused:range|insert-refused:null|insert-refused:extra|update-refused",
            "alter-refused:add-mixed|alter-refused:remove-mixed|create-model-refused|create-model-duplicate", "insert")
    quick = 4000
    thorough = 120000

    def gen(self, r, i, tier):
        ops = self.ops(r, tier)
        if i % 4 == 1:
            ops.append({"o": "restart", "s": 1})
            ops += [{"o": o, "s": r.getrandbits(32)} for o in ("ins", "upd", "sel")]
        return {"ops": ops}

    BADS = {"ins_bad", "ins_dup", "upd", "upd_absent", "del_absent", "where_bad", "alter_bad", "cmodel_bad", "cmodel_dup", "cspace_bad",
            "cspace_dup", "dspace_absent", "dmodel_absent", "sel_unknown_field", "unknown_model", "dmodel", "dspace"}

    def after(self, w, op):
        if op["o"] in self.BADS:
            w.op_inspect(Random(0))
            w.op_mixed(None)


CHECK = C()
