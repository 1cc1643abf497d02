from hist import *


class C(Hist):
    pid = "D03"
    technique = "stateful model-based testing of each model as a map over dense pools of easily confused primary keys"
    rule = ("a case is a history of 80-600 statements on models of every key type; keys come from a small pool of near-equal values (prefixes, "
            "case and normalisation variants, NUL bytes, 255/256/257/5000-byte keys that differ in one byte, integer boundaries) plus bulk "
            "inserts/deletes of up to 300 keys; presence of each key is predicted for INSERT/SELECT/UPDATE/DELETE. Non-trivial: duplicate "
            "inserts, deletes of present keys, re-inserts and operations on absent keys all occurred")
    weights = {"key": 40, "ins_dup": 2, "reinsert": 3, "del": 1, "all": 1.5, "sel": 2, "bulk": 0.6, "bulkdel": 0.6, "cmodel": 1, "dmodel": 0.3}
    lens = (80, 150)
    long_len = 600
    need = ("key-ins-present|insert-duplicate", "key-del-present", "key-ins-absent", "key-sel-absent|key-upd-absent|key-del-absent")
    quick = 2500
    thorough = 80000

    def make(self, env):
        w = World(env, env.conn(), env.name("t"))
        w.near = True
        return w


CHECK = C()
