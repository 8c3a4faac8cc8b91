"""What each check runs."""

ASSUMPTIONS = [
    "the Go runtime and compiler are correct; goroutine states reported by runtime.Stack are accurate",
    "user callbacks are those of the harness: deterministic outcomes, no runtime.Goexit, no panic(nil)",
    "specification instances are bounded (see coverage); executions explored are generated or random, not all",
]

FJ_GEN = dict(module="FJGen", quick=dict(FullN=3, MaxN=4, MaxSpecial=1), thorough=dict(FullN=4, MaxN=5, MaxSpecial=2))
FJ_DEFECTS = [("Defect", d) for d in ("seqRight", "noWait", "eagerRight", "rightPanic", "swapJoin")]


def fj_design(kinds, classes, defects):
    return dict(module="FJImpl", quick=dict(MaxN=4, Kinds=kinds, Classes=classes, Defect="none"),
                thorough=dict(MaxN=5, Kinds=kinds, Classes=classes, Defect="none"),
                defect_consts=dict(MaxN=3, Kinds=kinds, Classes=classes, Defect="none"),
                inv=["Safe", "Progress", "NoHang"], defects=[("Defect", d) for d in defects])


PAR = {"do", "and", "or", "red", "sum"}
SPEC = {"and", "or", "sred"}
FJ = dict(suite="fj", gen=FJ_GEN, trace="FJTrace")
MAP_OPS = {"load", "del", "ls", "ds", "loc", "locp", "doc", "docp", "mod", "modd", "modp"}


def map_design(defects):
    base = dict(NClients=2, NKeys=1, NSplits=1, OpKinds=MAP_OPS, IterKinds={"none"}, Defect="none")
    return dict(module="MapImpl", quick=base, defect_consts=base,
                thorough=dict(base, NClients=3, OpKinds={"load", "del", "ls", "loc", "doc", "docp", "mod", "ds"}),
                inv=["Safe", "Progress", "NoHang"], defects=[("Defect", d) for d in defects])


def split_design(defects, ops, iters, clients=2):
    base = dict(NClients=clients, NKeys=2, NSplits=2, OpKinds=ops, IterKinds=iters, Defect="none")
    return dict(module="MapImpl", quick=base, defect_consts=base, thorough=dict(base, NClients=clients + 1, NKeys=2 if len(ops) < 6 else 1, NSplits=2 if len(ops) < 6 else 1),
                inv=["Safe", "Progress", "NoHang"], defects=[("Defect", d) for d in defects])


KINDS = {"ord", "strict", "seq", "par", "lpar"}


def pipe_design(quick, thorough, defects=()):
    base = dict(Kinds=KINDS, Filters={"r"}, MaxNodes=2, MaxBatches=2, Trouble={"none"}, Defect="none")
    return dict(module="PipeImpl", quick=dict(base, **quick), thorough=dict(base, **thorough), inv=["Safe", "Progress", "NoHang"],
                defects=[("Defect", d) for d, _ in defects], defect_each={d: dict(base, **c) for d, c in defects})




def sort_design(fns, defects, sizes={6, 8}, keys={1, 2}):
    base = dict(Fns=fns, Sizes=sizes, Keys=keys, QGrain=3, MGrain=4, Cutoff=2, Defect="none")
    tk, ts = ({1, 2}, {5, 6, 7, 8}) if fns == {"stable"} else ({1, 2, 3}, {5, 6, 7, 8})
    return dict(module="SortImpl", quick=base, thorough=dict(base, Sizes=ts, Keys=tk), defect_consts=base,
                inv=["Isolated", "Right", "Progress"], defects=[("Defect", d) for d in defects])


SORT = dict(suite="sort", trace="SortTrace")
SORT_RACE = dict(suite="sortrace", trace="SortTrace", build="race", procs=4)
PIPE = dict(suite="pipe", gen=dict(module="PipeGen", quick=dict(Full=2, Long=3), thorough=dict(Full=2, Long=4)), trace="PipeTrace")
PIPE_RACE = dict(suite="piperace", trace="PipeTrace", build="race", procs=4)
MAP = dict(suite="map", gen=dict(module="MapGen", quick=dict(MaxClients=3), thorough=dict(MaxClients=3)), trace="MapTrace")
SRC = dict(suite="src", trace="SourceTrace")


def filt_design(kinds, arg, quick, thorough, defects):
    base = dict(Kinds=kinds, MaxStages=2, MaxArg=arg, MaxBatches=2, MaxPer=2, Can={True, False}, Defect="none")
    return dict(module="FilterImpl", quick=dict(base, **quick), thorough=dict(base, **thorough), defect_consts=dict(base, **quick),
                inv=["Safe", "NoHang"], defects=[("Defect", d) for d in defects])


FILT = dict(suite="filt", trace="FilterTrace", gen=dict(module="FilterGen", quick=dict(MaxN=3, Long=False), thorough=dict(MaxN=3, Long=True)))
FILT_RACE = dict(suite="filtrace", trace="FilterTrace", build="race", procs=4)
PLAN = {
    "C01": dict(design=[fj_design({"par"}, PAR, ["noWait"])], jobs=[FJ]),
    "C02": dict(design=[fj_design({"par", "spec"}, {"and", "or", "red", "sum", "sred"}, ["swapJoin"])], jobs=[FJ]),
    "C03": dict(design=[fj_design({"par", "spec"}, {"do", "or", "sred"}, ["seqRight"])], jobs=[FJ]),
    "C04": dict(design=[dict(module="RangeImpl", quick=dict(MaxSize=64, MaxN=70, Defect="none"),
                             thorough=dict(MaxSize=150, MaxN=160, Defect="none"), inv=["OK"],
                             defects=[("Defect", "floor"), ("Defect", "half")])],
                jobs=[dict(suite="rng", trace="RangeTrace")]),
    "C05": dict(design=[fj_design({"par", "spec"}, {"do", "or", "red", "sred"}, ["rightPanic"])], jobs=[FJ]),
    "C06": dict(design=[fj_design({"spec"}, SPEC, ["eagerRight"])], jobs=[FJ]),
    "C07": dict(design=[fj_design({"spec"}, SPEC, [])], jobs=[FJ]),
    "C08": dict(design=[sort_design({"sort"}, ["overlap"], {6}, {1, 2, 3}), sort_design({"stable"}, [])], jobs=[SORT]),
    "C09": dict(design=[sort_design({"stable"}, ["ties", "search"])], jobs=[SORT]),
    "C10": dict(design=[sort_design({"is"}, ["border"], {6, 8})], jobs=[SORT]),
    "C11": dict(design=[sort_design({"sort", "is"}, ["overlap"]), sort_design({"stable"}, ["noJoin"])], jobs=[SORT, SORT_RACE]),
    "C12": dict(design=[map_design(["noRecheck", "delNoLock"])],
                jobs=[MAP, dict(suite="maprace", trace="MapTrace", build="race", procs=4)]),
    "C13": dict(design=[map_design(["computeLocked", "noUnlock"])], jobs=[MAP]),
    "C14": dict(design=[dict(module="MapImpl", quick=dict(NClients=1, NKeys=3, NSplits=2, OpKinds={"load", "ls", "ds", "mod", "del"},
                                                          IterKinds={"range", "prange", "srange"}, Defect="none"),
                             thorough=dict(NClients=2, NKeys=2, NSplits=2, OpKinds={"load", "ls", "ds", "doc", "mod", "del"},
                                           IterKinds={"range", "prange", "srange"}, Defect="none"),
                             inv=["Safe", "Progress", "NoHang"], defects=[("Defect", d) for d in ("iterNoLock", "skipLast", "noStop", "iterRelease")])],
                jobs=[dict(suite="mapiter", trace="MapTrace")]),
    "C15": dict(design=[fj_design({"par", "spec"}, {"and", "or", "red", "sum", "sred"}, ["noWait", "eagerRight", "swapJoin"]),
                        split_design(["aggNoLock"], {"mod", "del", "ls"}, {"agg"}, 1)],
                jobs=[dict(suite="mapagg", gen=FJ_GEN, trace="FJTrace"), dict(suite="mapsplit", trace="MapTrace")]),
    "C16": dict(design=[pipe_design(dict(Filters={"r", "n"}), dict(Filters={"r", "rz", "z", "n"}, MaxNodes=3),
                                    [("staleIndex", dict(Filters={"r", "n"}, Kinds={"lpar", "seq"}, MaxNodes=5, MaxBatches=1))])], jobs=[PIPE, PIPE_RACE]),
    "C17": dict(design=[pipe_design(dict(), dict(MaxNodes=3), [("noStash", dict()),
                                    ("lateOrder", dict(MaxNodes=3, Kinds={"par", "seq", "strict"}))])], jobs=[PIPE]),
    "C18": dict(design=[pipe_design(dict(MaxBatches=3, MaxNodes=1), dict(MaxBatches=3), [("limit", dict(MaxBatches=3, MaxNodes=1))])], jobs=[PIPE, PIPE_RACE]),
    "C19": dict(design=[pipe_design(dict(Trouble={"none", "cancel"}, Kinds={"ord", "strict", "par", "lpar"}), dict(MaxNodes=3, Trouble={"none", "cancel"}),
                                    [("lostWakeup", dict(Trouble={"cancel"}))])], jobs=[PIPE, SRC]),
    "C20": dict(design=[pipe_design(dict(Filters={"rz", "z", "n"}), dict(Filters={"r", "rz", "z", "n"}, Trouble={"none", "cancel"}),
                                    [("endEarly", dict(Filters={"rz"}))])], jobs=[PIPE, PIPE_RACE]),
    "C21": dict(design=[pipe_design(dict(Trouble={"cancel", "err", "serr"}, Kinds={"ord", "par", "lpar"}), dict(Trouble={"cancel", "err", "serr"}),
                                    [("fetchOn", dict(Trouble={"cancel"}, MaxBatches=3, Kinds={"par", "ord"}))])], jobs=[PIPE, SRC, PIPE_RACE]),
    "C22": dict(design=[dict(module="SourceImpl", quick=dict(MaxLen=14, MaxNB=16, MaxInc=5, MaxMax=8, Defect="none"),
                             thorough=dict(MaxLen=40, MaxNB=42, MaxInc=12, MaxMax=20, Defect="none"), inv=["Safe", "Progress"],
                             defects=[("Defect", d) for d in ("floor", "noMax", "skip")])], jobs=[SRC]),
    "C23": dict(design=[filt_design({"limit", "skip", "count", "slice", "dup", "odd"}, 3, dict(), dict(MaxStages=3, MaxArg=2),
                                    ["limitSize", "skipSize", "lostCount", "earlyCancel", "noWait"])], jobs=[FILT, FILT_RACE]),
    "C28": dict(design=[pipe_design(dict(Kinds={"own", "par", "seq"}, Filters={"r", "z", "n"}, Trouble={"none", "cancel", "err"}, MaxBatches=2),
                                    dict(Kinds={"own", "par", "seq", "strict"}, Filters={"r", "z", "n"}, Trouble={"none", "cancel"}, MaxNodes=3),
                                    [("noDrop", dict(Kinds={"own", "par"}, Filters={"r", "n"})), ("endEarly", dict(Kinds={"own", "par"}, Filters={"r"}))])], jobs=[PIPE]),
    "C27": dict(design=[split_design(["loadNoLock", "delNoLock"], {"own", "ownd", "rown", "load", "del", "loc"}, {"none"}),
                        split_design(["aggNoLock"], {"own", "rown", "load"}, {"agg"}, 1),
                        split_design(["iterPeek"], {"own", "ownd"}, {"range", "prange", "srange"}, 1)],
                jobs=[dict(suite="mapsplit", trace="MapTrace"), dict(suite="maprace", trace="MapTrace", build="race", procs=4)]),
    "C26": dict(design=[fj_design({"seq"}, PAR, ["rightFirst"])], jobs=[FJ]),
    "C25": dict(design=[dict(fj_design({"par", "spec"}, {"and", "or", "red", "sred"}, ["handover"]), inv=["NoLeak", "NoHang"])],
                jobs=[FJ, dict(suite="mapagg", gen=FJ_GEN, trace="FJTrace"), dict(suite="mapiter", trace="MapTrace"), SORT]),
    "C24": dict(design=[filt_design({"every", "notevery", "some", "notany", "pass"}, 0, dict(MaxPer=1), dict(MaxPer=1, MaxBatches=3),
                                    ["noCancel", "noWait"])], jobs=[FILT, FILT_RACE]),
}
