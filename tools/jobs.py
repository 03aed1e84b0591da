"""What every check runs: see check.py for the meaning of the job types."""

ALLK = {"p1", "p2", "p3", "p4", "p0", "q1", "q2", "r1", "s0", "dp", "ds"}


# ---------------------------------------------------------------- account store
def store_mc(name, tier, kinds, props, invs, max_slot=2, max_wv=0, cfg="P", depth=(4, 6), accts=("a",), spec="MCSpec", extra="-"):
    return dict(type="mc", name=name, module="MCStore", spec=spec,
                consts=dict(Accts=set(accts), MaxSlot=max_slot, MaxWv=max_wv, Kinds=set(kinds), FilterCfg=cfg, Extra=extra,
                            MaxDepth=depth[0] if tier == "quick" else depth[1]),
                invariants=invs, properties=props, view="View", constraint="DepthBound", workers=2)


def store_sim(name, tier, cfg, nxt, num, depth=30, slots=6, wvs=2, accts=("a", "b", "c"), kinds=ALLK, snap=False,
              gpa=True, seed=0, params=None, sel=None, must=(), extra="-"):
    num = num * (2 if tier == "quick" else 40)
    return dict(type="replay", name=name, module="GenStore", mode="store", next=nxt, num=num, seed=seed,
                consts=dict(Accts=set(accts), MaxSlot=slots, MaxWv=wvs, Kinds=set(kinds), FilterCfg=cfg, Extra=extra, Depth=depth,
                            Mode="sim", ObsGpa=gpa, WithSnap=snap),
                constraint="EmitEnd", params=params or {}, must=must, **({"kinds": sel} if sel else {}))


def store_long(name, tier, cfg="P", slots=300, depth=520, seed=0, **kw):
    """hundreds of slots which are not finalized, chains of them, and many versions of an account"""
    kw = {"wvs": 0, "accts": ("a", "b"), "kinds": ("p1", "p2", "ds"), "gpa": False, **kw}
    j = store_sim(name, tier, cfg, "GNextLong", 5, depth=depth, slots=slots, seed=seed + 60, **kw)
    j["consts"]["Mode"] = "long"
    return j


def store_wide(name, tier, cfg="P", n=150, depth=600, slots=5, seed=0, **kw):
    """many accounts in a slot"""
    kw = {"wvs": 1, "kinds": ("p1", "p2", "ds"), "gpa": False, **kw}
    j = store_sim(name, tier, cfg, "GNextWide", 4, depth=depth, slots=slots, accts=["a%d" % i for i in range(n)], seed=seed + 70, **kw)
    j["consts"]["Mode"] = "long"
    return j


def store_bfs(name, tier, cfg, kinds, slots=2, wvs=1, depth=(3, 4), accts=("a",), snap=False, gpa=False, sel=None, extra="-"):
    return dict(type="replay", name=name, module="GenStore", mode="store", next="GNextAll",
                consts=dict(Accts=set(accts), MaxSlot=slots, MaxWv=wvs, Kinds=set(kinds), FilterCfg=cfg, Extra=extra,
                            Depth=depth[0] if tier == "quick" else depth[1], Mode="all", ObsGpa=gpa, WithSnap=snap),
                view="View", constraint="EmitAll", min_traces=1000, **({"kinds": sel} if sel else {}))


STORE_ASSUME = [
    "slots 0..MaxSlot, write versions 0..MaxWv and the contents of the specification are mapped to random increasing "
    "u64 values and random account contents",
    "the parent of a notified slot is a smaller slot",
]


def s01(t):
    k = ("get", "get_content", "order")
    return [
        store_mc("mc", t, {"p1", "ds"}, ["NeverBack"], ["TypeOK", "LevelsOrdered", "ReadsNewestReached"], max_wv=1, depth=(4, 5)),
        store_bfs("all-short", t, "P", {"p1", "p2", "ds"}, depth=(3, 4), sel=k),
        store_sim("any-P", t, "P", "GNextAny", 700, gpa=False, sel=k, must=["get"]),
        store_sim("any-ex", t, "exQ", "GNextAny", 500, gpa=False, seed=1, sel=k),
        store_sim("chain-acc", t, "acc", "GNextChain", 400, depth=40, gpa=False, seed=2, sel=k),
        store_sim("chain-P-many-writes", t, "P", "GNextChain", 400, depth=40, slots=4, wvs=3, kinds={"p1", "p2", "dp"},
                  accts=("a",), gpa=False, seed=3, sel=k),
        store_sim("load", t, "P", "GNextChain", 200, depth=40, slots=5, snap=True, gpa=False, seed=4, sel=k,
                  kinds={"p1", "p2", "ds"}),
        store_conc("concurrent", t, "P", "GNextChain", 200, seed=10, of="g"),
        store_long("long", t, sel=k, accts=("a",)),
        store_wide("wide", t, sel=k),
    ]


def s02(t):
    k = ("get", "get_content", "notif")
    return [
        store_mc("mc", t, {"p1"}, [], ["TypeOK", "ReadsNewestReached", "LevelByLevel"], max_slot=3, depth=(5, 7)),
        store_bfs("all-short", t, "P", {"p1"}, slots=3, wvs=0, depth=(4, 5), sel=k),
        store_sim("any", t, "P", "GNextAny", 700, slots=7, wvs=1, kinds={"p1", "p2"}, accts=("a", "b"), gpa=False, sel=k),
        store_sim("chain", t, "P", "GNextChain", 600, depth=45, slots=9, wvs=1, kinds={"p1", "p2"}, accts=("a", "b"),
                  gpa=False, seed=1, sel=k),
        store_sim("notify", t, "P", "GNextFork", 800, depth=30, slots=8, wvs=0, kinds={"p1"}, accts=("a", "b"),
                  gpa=False, seed=2, sel=k),
        store_sim("notify-dead", t, "PQ", "GNextFork", 400, depth=40, slots=8, wvs=1, kinds={"p1", "q1", "dp"}, accts=("a", "b"),
                  gpa=False, seed=3, sel=k),
        store_long("long", t, sel=k, seed=1),
        store_wide("wide", t, sel=k, seed=1),
    ]


def s03(t):
    k = ("get", "get_content", "order", "back")
    return [
        store_mc("mc", t, {"p1", "ds"}, ["NeverBack"], ["TypeOK", "LevelsOrdered"], max_slot=2, depth=(5, 6)),
        store_sim("any", t, "P", "GNextAny", 700, wvs=2, accts=("a",), kinds={"p1", "p2", "dp"}, depth=45, gpa=False, sel=k),
        store_sim("chain", t, "PQ", "GNextChain", 600, depth=45, slots=8, wvs=2, kinds={"p1", "p2", "q1", "ds"},
                  accts=("a", "b"), gpa=False, seed=1, sel=k),
        store_sim("fork", t, "P", "GNextFork", 600, depth=40, slots=8, wvs=1, kinds={"p1", "p2"}, accts=("a",), gpa=False,
                  seed=2, sel=k),
        store_sim("load", t, "P", "GNextAny", 400, depth=40, slots=5, snap=True, gpa=False, seed=3, sel=k),
        store_long("long", t, sel=k, seed=2),
        store_wide("wide", t, sel=k, seed=2, n=60, snap=True),
    ]


def s04(t):
    k = ("notif",)
    return [
        store_mc("mc", t, {"p1", "ds"}, ["NotifyReports", "NotifyComplete", "ProcessedReportsNothing"], ["TypeOK"], max_slot=3, depth=(4, 5)),
        store_bfs("all-short", t, "P", {"p1", "dp"}, slots=2, wvs=0, depth=(4, 5), sel=k),
        store_sim("any", t, "PQ", "GNextAny", 600, gpa=False, sel=k),
        store_sim("chain", t, "P", "GNextChain", 600, depth=45, slots=9, wvs=1, gpa=False, seed=1, sel=k),
        store_sim("fork", t, "P", "GNextFork", 700, depth=40, slots=8, wvs=1, kinds={"p1", "p2", "dp"}, accts=("a", "b", "c", "d"),
                  gpa=False, seed=2, sel=k),
        store_sim("chain-ex", t, "exQc", "GNextChain", 400, depth=45, slots=8, wvs=2, gpa=False, seed=3, sel=k),
        store_conc("concurrent", t, "PQ", "GNextChain", 200, seed=11, of="n"),
        store_long("long", t, sel=k, seed=3),
        store_wide("wide", t, sel=k, seed=3),
    ]


def s05(t):
    k = ("gpa", "gpa_content")
    return [
        store_mc("mc", t, {"p1", "q1", "ds"}, [], ["TypeOK", "LevelByLevel"], max_slot=2, depth=(4, 5), cfg="PQ"),
        store_bfs("all-short", t, "PQ", {"p1", "q1", "r1", "ds"}, slots=2, wvs=0, depth=(3, 4), gpa=True, sel=k),
        store_sim("any-PQ", t, "PQ", "GNextAny", 300, sel=k, must=["gpa"]),
        store_sim("chain-PQ", t, "PQ", "GNextChain", 300, depth=40, seed=1, sel=k),
        store_sim("chain-Pcc", t, "Pcc", "GNextChain", 250, depth=40, seed=2, sel=k),
        store_sim("any-exQ", t, "exQ", "GNextAny", 250, seed=3, sel=k),
        store_sim("chain-exQc", t, "exQc", "GNextChain", 200, depth=40, seed=4, sel=k),
        store_sim("owners", t, "all", "GNextChain", 250, depth=40, slots=8, accts=("a", "b"), wvs=0,
                  kinds={"p1", "q1", "r1", "ds"}, seed=5, sel=k),
        store_conc("concurrent-PQ", t, "PQ", "GNextAny", 200, seed=12, of="q"),
        store_conc("concurrent-Pcc", t, "Pcc", "GNextChain", 200, seed=13, of="q"),
        store_wide("wide", t, "PQ", sel=k, seed=4, gpa=True, kinds=("p1", "p2", "q1", "ds")),
    ]


def s06(t):
    k = ("refuse", "gpa")
    r = [dict(store_mc("mc-" + c, t, ALLK, [], ["CoverageSound"], max_slot=1, depth=(1, 1), cfg=c, accts=("a", "b")), min_states=1)
         for c in ("P", "PQ", "Pc", "Pcc", "acc", "exQ", "exQc")]
    r += [store_sim("sim-" + c, t, c, "GNextAny", 150, depth=20, seed=i, sel=k, must=["refused"])
          for i, c in enumerate(("P", "PQ", "Pc", "Pcc", "acc", "exQ", "exQc"))]
    r += [store_mc("mc-grow", t, {"p1", "p2", "p3", "q1", "q2"}, ["GrowOnlyAdds"], ["CoverageSound"], max_slot=1, depth=(3, 4), cfg="Pc", extra="P2Q"),
          store_sim("grow-Pc", t, "Pc", "GNextAny", 200, depth=30, seed=7, sel=k, must=["refused", "grown"], extra="P2Q"),
          store_sim("grow-acc", t, "acc", "GNextChain", 200, depth=30, seed=8, sel=k, must=["refused", "grown"], extra="Q64P")]
    return r


def s07(t):
    k = ("get", "get_content", "gpa", "gpa_content")
    return [
        store_mc("mc", t, {"p1", "r1", "ds"}, ["DropOnlyFinalizedGone"], ["TypeOK", "LevelByLevel"], max_slot=2, depth=(4, 5)),
        store_bfs("all-short", t, "P", {"p1", "dp", "ds"}, slots=2, wvs=0, depth=(4, 5), gpa=False, sel=k),
        store_bfs("all-owner", t, "P", {"p1", "r1", "q1"}, slots=2, wvs=0, depth=(3, 4), gpa=True, sel=k),
        store_sim("delete", t, "P", "GNextChain", 300, depth=45, slots=9, kinds={"p1", "ds", "dp"}, accts=("a", "b"), wvs=1, sel=k),
        store_sim("owner", t, "PQ", "GNextChain", 300, depth=45, slots=9, kinds={"p1", "q1", "q2", "r1", "s0"}, accts=("a", "b"), wvs=1,
                  seed=1, sel=k),
        store_sim("both", t, "exQc", "GNextChain", 250, depth=45, slots=8, seed=2, sel=k),
        store_sim("any", t, "Pc", "GNextAny", 250, depth=45, kinds={"p1", "p2", "p3", "dp", "ds", "r1"}, accts=("a", "b"), seed=3, sel=k),
        store_sim("fork", t, "P", "GNextFork", 300, depth=45, slots=8, wvs=0, kinds={"p1", "ds", "r1"}, accts=("a", "b"), seed=4, sel=k),
        store_sim("grow", t, "P", "GNextChain", 300, depth=45, slots=8, kinds={"p1", "q1", "q2", "ds"}, accts=("a", "b"), wvs=1, seed=5, sel=k,
                  extra="Q64P"),
        store_long("long", t, sel=k, seed=5, kinds=("p1", "r1", "ds"), accts=("a", "b", "c")),
    ]


def s08(t):
    k = ("ret", "get", "get_content")
    return [
        store_mc("mc", t, {"p1", "r1", "ds"}, ["UpdateTruth", "Admission"], ["TypeOK"], max_slot=2, depth=(4, 5)),
        store_bfs("all-short", t, "P", {"p1", "r1", "ds"}, slots=2, wvs=1, depth=(2, 3), sel=k),
        store_bfs("all-cond", t, "Pc", {"p1", "p2", "p3", "dp"}, slots=1, wvs=1, depth=(3, 4), sel=k),
        store_sim("any-acc", t, "acc", "GNextAny", 400, gpa=False, sel=k),
        store_sim("any-Pcc", t, "Pcc", "GNextAny", 400, gpa=False, seed=1, sel=k),
        store_sim("any-exQc", t, "exQc", "GNextAny", 400, gpa=False, seed=2, sel=k),
        store_sim("chain-Pc", t, "Pc", "GNextChain", 300, depth=40, gpa=False, seed=3, sel=k),
        store_sim("dup", t, "P", "GNextAny", 500, depth=40, slots=3, wvs=2, accts=("a",), kinds={"p1", "dp"}, gpa=False, seed=4, sel=k),
        store_mc("mc-grow", t, {"p1", "q1", "ds"}, ["UpdateTruth", "Admission", "GrowOnlyAdds"], ["TypeOK"], max_slot=1, depth=(4, 5), extra="Q"),
        store_bfs("all-grow", t, "P", {"p1", "q1", "ds"}, slots=1, wvs=1, depth=(3, 4), sel=k, extra="Q"),
        store_sim("grow-acc", t, "acc", "GNextChain", 300, depth=40, gpa=False, seed=5, sel=k, extra="Q64P", must=["grown"]),
        store_sim("grow-Pcc", t, "Pc", "GNextAny", 300, depth=40, gpa=False, seed=6, sel=k, extra="P2Q", must=["grown"]),
        store_conc("concurrent", t, "P", "GNextAny", 200, seed=14, of="u", accts=("a",), slots=3),
        store_wide("wide", t, "Pc", sel=k, seed=6, kinds=("p1", "p2", "p3", "ds")),
    ]


def s09(t):
    k = ("snapshot", "snapshot_content", "truncated", "get", "get_content", "gpa", "gpa_content")
    return [
        store_mc("mc", t, {"p1", "ds"}, ["SnapshotExact", "RestartRestores", "LoadNeverBack", "LoadReaches"], ["TypeOK"],
                 max_slot=1, depth=(5, 7), spec="SnapSpec"),
        store_bfs("all-short", t, "P", {"p1", "ds"}, slots=1, wvs=0, depth=(4, 5), snap=True, sel=k),
        store_sim("chain-P", t, "P", "GNextChain", 300, depth=40, snap=True, sel=k, must=["snapshot", "truncated"]),
        store_sim("chain-PQ", t, "Pcc", "GNextChain", 300, depth=40, snap=True, seed=1, sel=k),
        store_sim("any-exQ", t, "exQ", "GNextAny", 300, depth=40, snap=True, seed=2, sel=k),
        store_sim("any-all", t, "all", "GNextAny", 250, depth=40, snap=True, seed=3, sel=k),
        store_sim("owners", t, "P", "GNextChain", 300, depth=40, snap=True, kinds={"p1", "q1", "r1", "dp"}, wvs=1, seed=4, sel=k),
        store_sim("grow", t, "Pc", "GNextChain", 250, depth=40, snap=True, seed=5, sel=k, extra="P2Q"),
        store_conc("concurrent", t, "PQ", "GNextChain", 200, seed=15, of=("snapshot", "q")),
        store_wide("wide", t, "PQ", sel=k, seed=7, gpa=True, snap=True, kinds=("p1", "p2", "q1", "ds")),
    ]


def d01(t):
    def mc(name, topo, kinds, slots, depth):
        return dict(type="mc", name=name, module="Dispatch", spec="DSpec", workers=3,
                    consts=dict(Accts={"a"}, MaxSlot=slots, MaxWv=0, Kinds=set(kinds), FilterCfg="all", Extra="-", Topo=topo,
                                MaxDepth=depth[0] if t == "quick" else depth[1]),
                    invariants=["SameReads", "SameQueries"], properties=["SameResults"], view="View", constraint="DepthBound")
    r = [mc("mc-P", "P", ("p1", "q1"), 2, (4, 6)), mc("mc-P-Q", "P+Q", ("p1", "q1", "ds"), 2, (3, 5)),
         mc("mc-PQ", "PQ", ("p1", "q1", "r1"), 2, (3, 5))]
    for i, topo in enumerate(("P", "P+Q", "PQ")):
        par = dict(dispatch=topo)
        r.append(store_sim("sim-%d" % i, t, "all", "GNextOrd", 350, depth=40, slots=8, wvs=1, snap=True, seed=i, params=par,
                           must=["get", "gpa", "notif", "snapshot"]))
        r.append(store_sim("moves-%d" % i, t, "all", "GNextOrd", 350, depth=40, slots=9, wvs=0, accts=("a", "b"), seed=i + 5,
                           params=par, kinds={"p1", "q1", "r1", "dp", "ds"}))
        r.append(store_sim("still-%d" % i, t, "all", "GNextAny", 200, depth=30, kinds={"p1", "p2", "p4"}, seed=i + 10, params=par))
        r.append(store_sim("other-%d" % i, t, "all", "GNextAny", 150, depth=30, kinds={"r1"}, accts=("a", "b"), seed=i + 20, params=par))
        # late updates of a previous owner: the answers of the single store, or those of the storages which know less (known finding)
        for j, (nxt, kinds, accts) in enumerate((("DNextAny", {"p1", "p2", "q1"}, ("a",)), ("DNextChain", {"p1", "q1", "r1", "dp", "ds"}, ("a", "b")),
                                                 ("DNextOrd", ALLK, ("a", "b")))):
            x = store_sim("late-%d-%d" % (i, j), t, "all", nxt, 200, depth=25, slots=5, wvs=1, accts=accts, kinds=kinds, snap=True,
                          seed=i + 40 + 10 * j, params=par, must=["get", "gpa", "notif", "ret"])
            x.update(module="GenDispatch", init="DGInit", constraint="EmitD")
            x["consts"]["Topo"] = topo
            if topo == "PQ":
                # updates reach a shared storage twice, the second one tracks a finalized deletion again
                x["consts"]["Kinds"] = kinds - {"dp"}
            r.append(x)
        if topo != "PQ":
            r.append(store_conc("concurrent-%d" % i, t, "all", "GNextChain", 200, accts=("a", "b", "c"), kinds={"p1", "p2", "dp", "q1", "q2", "r1"},
                                seed=20 + i, dispatch=topo))
    # the token programs dispatched to a token storage
    for i, (nxt, kinds) in enumerate((("GNextChain", TALLK), ("GNextAny", TALLK), ("GNextFork", {"t11", "t22", "x11", "ds", "ro", "mi"}))):
        x = token_sim("token-%d" % i, t, nxt, 150, depth=35, kinds=kinds, snap=True, seed=80 + i, must=["get", "gpa", "notif", "ret", "other"])
        r.append(dict(x, params=dict(dispatch="token")))
    return r


PLANS = dict(S01=s01, S02=s02, S03=s03, S04=s04, S05=s05, S06=s06, S07=s07, S08=s08, S09=s09, D01=d01)
ASSUME = dict.fromkeys(("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "D01"), STORE_ASSUME)




# ---------------------------------------------------------------- filters
def filter_sim(name, tier, num, sel, seed=0, depth=4, nprobe=14, maxlen=3, must=()):
    if tier != "quick":
        num = num * 15
    return dict(type="replay", name=name, module="GenFilters", mode="filters", next="GNext", num=num, seed=seed,
                consts=dict(MaxLen=maxlen, Pks={"k1", "k2", "k3"}, Depth=depth, NProbe=nprobe),
                constraint="EmitEnd", kinds=sel, must=must)


def filter_mc(tier, props, invs):
    return dict(type="mc", name="mc", module="Filters", spec="MCSpec", consts=dict(MaxLen=3, Pks={"k1", "k2"}),
                invariants=invs, properties=props, workers=2)


def filter_json(tier, sel):
    return dict(type="replay", name="json", module="FilterJson", mode="filters", init="Init", next="Next", consts={},
                action_constraint="Emit", min_traces=2000, kinds=sel)


def f01(t):
    k = ("sat", "cond", "json", "store")
    return [filter_mc(t, [], ["AccountsCovered"])] + [
        filter_sim("sim%d" % i, t, 1500, k, seed=i, depth=3 + i, nprobe=20, maxlen=3 + i % 2, must=["sat", "cond", "json"])
        for i in range(3)]


def f02(t):
    k = ("con", "store")
    return [filter_mc(t, ["CoverageMonotone"], ["CoverageSound", "AccountsCovered", "QueryMonotone"])] + [
        filter_sim("sim%d" % i, t, 1500, k, seed=10 + i, depth=2 + i, nprobe=25, must=["con"]) for i in range(4)]


def f03(t):
    k = ("exsat", "excon")
    return [filter_mc(t, [], ["ExSound"])] + [
        filter_sim("sim%d" % i, t, 1200, k, seed=20 + i, depth=2 + i, nprobe=25, must=["excon"]) for i in range(4)]


def f04(t):
    k = ("parse", "cond")
    return [filter_json(t, k)] + [filter_sim("sim%d" % i, t, 1000, k, seed=30 + i, must=["cond"]) for i in range(3)]


PLANS.update(F01=f01, F02=f02, F03=f03, F04=f04)


# ---------------------------------------------------------------- token storage
TOK = {"t11", "t12", "t21", "t22", "x11", "x22", "e11", "e12"}
TALLK = TOK | {"mi", "mx", "me", "sg", "sx", "dt", "ds", "ro", "bd"}
TACCTS = ("a", "b", "c", "m1", "m2")


def token_mc(name, tier, kinds, props, invs, accts=("a",), slots=3, wvs=0, depth=(5, 6), spec="MCSpec", workers=3):
    return dict(type="mc", name=name, module="MCToken", spec=spec,
                consts=dict(Accts=set(accts), MaxSlot=slots, MaxWv=wvs, Kinds=set(kinds),
                            MaxDepth=depth[0] if tier == "quick" else depth[1]),
                invariants=invs, properties=props, view="View", constraint="DepthBound", workers=workers)


def token_sim(name, tier, nxt, num, depth=35, slots=8, wvs=1, accts=TACCTS, kinds=TALLK, snap=False, gpa=True, seed=0, sel=None, must=()):
    num = num * (2 if tier == "quick" else 30)
    return dict(type="replay", name=name, module="GenToken", mode="token", next=nxt, num=num, seed=seed + 50,
                consts=dict(Accts=set(accts), MaxSlot=slots, MaxWv=wvs, Kinds=set(kinds), Depth=depth, Mode="sim", ObsGpa=gpa,
                            WithSnap=snap),
                constraint="EmitEnd", must=must, **({"kinds": sel} if sel else {}))


def token_long(name, tier, slots=250, depth=450, seed=0, **kw):
    kw = {"wvs": 0, "accts": ("a", "b"), "kinds": ("t11", "t12", "ds"), "gpa": False, **kw}
    j = token_sim(name, tier, "GNextLong", 5, depth=depth, slots=slots, seed=seed + 60, **kw)
    j["consts"]["Mode"] = "long"
    return j


def token_wide(name, tier, n=100, depth=500, slots=7, seed=0, **kw):
    kw = {"wvs": 1, "kinds": ("t11", "t12", "t21", "x22", "ds"), "gpa": False, **kw}
    j = token_sim(name, tier, "GNextWide", 4, depth=depth, slots=slots, accts=["a%d" % i for i in range(n)], seed=seed + 70, **kw)
    j["consts"]["Mode"] = "long"
    return j


def token_bfs(name, tier, kinds, slots=2, wvs=0, depth=(4, 5), accts=("a",), snap=False, gpa=False, sel=None, extra="-"):
    return dict(type="replay", name=name, module="GenToken", mode="token", next="GNextAll",
                consts=dict(Accts=set(accts), MaxSlot=slots, MaxWv=wvs, Kinds=set(kinds),
                            Depth=depth[0] if tier == "quick" else depth[1], Mode="all", ObsGpa=gpa, WithSnap=snap),
                view="View", constraint="EmitAll", min_traces=1000, **({"kinds": sel} if sel else {}))


def codec(tier, seed=0):
    n = 1 if tier == "quick" else 8
    return [dict(type="replay", name="codec%d" % i, module="TokenCodec", mode="codec", spec="Spec", consts={}, seed=seed + i,
                 invariants=["RoundTrip", "KindRecognized"], action_constraint="Emit", min_traces=18000, kinds=("content",))
            for i in range(n)]


def t01(t):
    k = ("get", "get_content", "get_slot")
    return [
        token_mc("mc", t, {"t11", "ds"}, [], ["ConfirmedRead", "ProcessedRead", "LevelsOrdered"], depth=(5, 7)),
        token_bfs("all-short", t, {"t11", "ds"}, slots=2, wvs=1, depth=(3, 4), sel=k),
        token_bfs("all-links", t, {"t11"}, slots=3, wvs=0, depth=(4, 5), sel=k),
        token_sim("any", t, "GNextAny", 500, gpa=False, sel=k, must=["get"]),
        token_sim("chain", t, "GNextChain", 500, depth=45, gpa=False, seed=1, sel=k),
        token_sim("fork", t, "GNextFork", 700, depth=40, slots=9, accts=("a", "b"), kinds={"t11", "t12", "ds"}, gpa=False, seed=2, sel=k),
        token_sim("writes", t, "GNextChain", 400, depth=40, slots=4, wvs=3, accts=("a", "m1"), kinds={"t11", "t21", "mi", "dt"}, gpa=False,
                  seed=3, sel=k),
        token_conc("concurrent", t, "GNextChain", 100, accts=("a", "b"), seed=10, of="g"),
        token_long("long", t, sel=k),
        token_wide("wide", t, sel=k),
    ]


def t02(t):
    k = ("get", "get_content", "get_slot", "notif", "notif_content", "notif_slot")
    return [
        token_mc("mc", t, {"t11", "ds"}, ["FinalNeverBack", "FinalizedReported", "RepeatNothing"], ["FinalizedRead", "NothingLeft"], depth=(5, 7)),
        token_bfs("all-short", t, {"t11", "ds"}, slots=2, wvs=0, depth=(4, 5), sel=k),
        token_bfs("all-forks", t, {"t11"}, slots=3, wvs=0, depth=(4, 5), sel=k),
        token_sim("any", t, "GNextAny", 500, gpa=False, seed=10, sel=k, must=["notif"]),
        token_sim("chain", t, "GNextChain", 600, depth=50, slots=10, gpa=False, seed=11, sel=k),
        token_sim("fork", t, "GNextFork", 800, depth=45, slots=10, accts=("a", "b", "m1"), kinds={"t11", "t22", "mi", "ds", "sg"}, gpa=False,
                  seed=12, sel=k),
        token_sim("late", t, "GNextAny", 400, depth=40, slots=4, wvs=1, accts=("a", "b"), kinds={"t11", "ds"}, gpa=False, seed=13, sel=k),
        token_conc("concurrent", t, "GNextFork", 100, accts=("a", "b"), kinds={"t11", "t21", "ds"}, seed=11, of="n"),
        token_long("long", t, sel=k, seed=1),
        token_wide("wide", t, sel=k, seed=1),
    ]


def t03(t):
    k = ("gpa", "gpa_content", "gpa_slot", "refuse")
    return [
        token_mc("mc", t, {"t11", "x22", "mi"}, [], ["QueriesExact"], slots=2, depth=(4, 6)),
        token_bfs("all-short", t, {"t11", "t22", "ds"}, slots=2, wvs=0, depth=(3, 4), gpa=True, sel=k),
        token_sim("chain", t, "GNextChain", 300, depth=40, seed=20, sel=k, must=["gpa", "refused"]),
        token_sim("any", t, "GNextAny", 250, depth=40, seed=21, sel=k),
        token_sim("fin", t, "GNextFin", 300, depth=40, seed=22, sel=k),
        token_sim("moves", t, "GNextFin", 300, depth=40, slots=9, accts=("a", "b", "c", "d"), kinds={"t11", "t12", "t21", "t22", "ds"}, seed=23,
                  sel=k),
        token_sim("ext", t, "GNextChain", 250, depth=40, accts=("a", "b", "c", "m1"), kinds={"x11", "x22", "e11", "e12", "mx", "me", "dt", "t11"},
                  seed=24, sel=k),
        token_sim("fork", t, "GNextFork", 250, depth=40, accts=("a", "b"), kinds={"t11", "t12", "ds"}, seed=25, sel=k),
        token_conc("concurrent", t, "GNextFin", 100, accts=("a", "b"), kinds={"t11", "t21", "t12", "ds"}, seed=12, of="q"),
        token_wide("wide", t, sel=k, seed=2, gpa=True),
    ]


def t04(t):
    k = ("get_content", "gpa_content", "notif_content", "snapshot_content")
    return codec(t) + [
        token_sim("chain", t, "GNextChain", 200, depth=30, seed=30, sel=k),
        token_sim("fin", t, "GNextFin", 200, depth=30, seed=31, sel=k),
        token_sim("snap", t, "GNextFin", 200, depth=30, snap=True, seed=32, sel=k),
    ]


def t05(t):
    k = ("get", "get_content", "gpa", "gpa_content", "noise")
    return [
        token_mc("mc", t, {"t11", "ds"}, ["OnlyItsAccount"], ["FinalizedRead"], accts=("a", "b"), slots=2, depth=(4, 5)),
        token_sim("fin", t, "GNextFin", 350, depth=45, accts=("a", "b", "c", "d", "m1"), slots=9, seed=40, sel=k, must=["noise"]),
        token_sim("reuse", t, "GNextFin", 350, depth=45, accts=("a", "b", "c"), slots=9, kinds={"t11", "t12", "t21", "dt", "ds"}, seed=41, sel=k),
        token_sim("kinds", t, "GNextFin", 350, depth=45, accts=("a", "b", "m1"), slots=9, kinds={"t11", "x11", "e11", "mi", "mx", "sg", "sx", "ds"},
                  seed=42, sel=k),
        token_sim("chain", t, "GNextChain", 300, depth=45, slots=9, seed=43, sel=k),
        token_wide("wide", t, sel=k, seed=3, n=60, kinds=("t11", "t12", "e11", "mi", "sg", "ds"), gpa=True),
    ]


def t06(t):
    k = ("snapshot", "snapshot_content", "truncated", "wrong", "get", "get_content", "gpa", "gpa_content")
    return [
        token_mc("mc", t, {"t11", "x11"}, ["RestoresAll", "RestoresOnly"], ["OtherProgramNot"], slots=1, depth=(5, 7), spec="SnapSpec"),
        token_bfs("all-short", t, {"t11", "x11", "ds"}, slots=1, depth=(5, 6), snap=True, sel=k),
        token_sim("chain", t, "GNextChain", 250, depth=40, snap=True, seed=50, sel=k, must=["snapshot", "truncated", "wrong"]),
        token_sim("fin", t, "GNextFin", 350, depth=40, snap=True, seed=51, sel=k),
        token_sim("fin-two", t, "GNextFin", 300, depth=40, accts=("a", "b", "m1", "m2"), snap=True, kinds={"t11", "t12", "x22", "e11", "mi", "mx", "ds"},
                  seed=52, sel=k),
        token_sim("any", t, "GNextAny", 200, depth=40, snap=True, seed=53, sel=k),
        token_conc("concurrent", t, "GNextFin", 100, accts=("a", "m1"), kinds={"t11", "t21", "mi", "ds"}, seed=13, of=("snapshot", "q")),
        token_wide("wide", t, sel=k, seed=4, snap=True),
    ]


def t07(t):
    k = ("get", "get_content", "gpa", "gpa_content", "notif", "snapshot", "snapshot_content")
    kk = {"t11", "t12", "t22", "x11", "e12", "mi", "mx", "me", "ds", "dt", "sg"}
    return [
        token_mc("mc", t, {"t11", "mi", "ds"}, ["OnlyItsAccount"], ["FinalizedRead", "ConfirmedRead"], accts=("a", "m1"), slots=1, depth=(5, 6)),
        token_bfs("all-short", t, {"t11", "mi", "ds"}, slots=1, accts=("a", "m1"), depth=(3, 4), gpa=True, sel=k),
        token_sim("chain", t, "GNextChain", 350, depth=45, accts=("a", "m1", "m2"), kinds=kk, seed=60, sel=k),
        token_sim("fin", t, "GNextFin", 350, depth=45, accts=("a", "b", "m1", "m2"), kinds=kk, snap=True, seed=61, sel=k),
        token_sim("nomint", t, "GNextChain", 250, depth=40, accts=("a", "b"), kinds=kk, snap=True, seed=62, sel=k),
        token_sim("any", t, "GNextAny", 300, depth=40, accts=("a", "m1", "m2"), kinds=kk, seed=63, sel=k),
    ]


def t09(t):
    k = ("ret", "get", "get_content")
    return [
        token_mc("mc", t, {"t11", "ds", "bd"}, ["TokenOnly", "FalseNothing"], ["FinalizedRead"], slots=2, depth=(5, 6)),
        token_bfs("all-short", t, {"t11", "mi", "ds", "ro"}, slots=1, accts=("a", "m1"), depth=(3, 4), sel=k),
        token_bfs("all-late", t, {"t11", "ds", "bd"}, slots=2, wvs=1, depth=(3, 4), sel=k),
        token_sim("any", t, "GNextAny", 500, gpa=False, seed=70, sel=k, must=["ret"]),
        token_sim("chain", t, "GNextChain", 400, depth=40, gpa=False, snap=True, seed=71, sel=k),
        token_sim("dup", t, "GNextAny", 500, depth=40, slots=3, wvs=2, accts=("a", "m1"), kinds={"t11", "mi", "sg", "ro", "ds", "bd"}, gpa=False,
                  seed=72, sel=k),
        token_sim("fin", t, "GNextFin", 400, depth=40, gpa=False, kinds={"t11", "x22", "mi", "sx", "ro", "ds", "bd"}, seed=73, sel=k),
        token_conc("concurrent", t, "GNextAny", 100, accts=("a",), slots=3, seed=14, of="u"),
        token_long("long", t, sel=k, seed=2, kinds=("t11", "ro", "bd", "ds")),
    ]


PLANS.update(T01=t01, T02=t02, T03=t03, T04=t04, T05=t05, T06=t06, T07=t07, T09=t09)


# ---------------------------------------------------------------- on demand
OREQ = {"acc_a", "acc_b", "acc_n", "acc_q", "P", "Pd", "Ph", "Pdh", "Q", "Qd"}
OACC = {"a", "b", "c", "d", "q", "n"}
OVAL = dict(module="OnDemandTrace", consts=dict(Accts=OACC, Callers={1, 2, 3, 4, 9}), workers=2)


def od_mc(name, tier, reqs, accts=("a", "b"), callers=(1, 2), calls=2, ups=1, fails=1, cfg=(), **kw):
    if tier != "quick":
        callers = (1, 2, 3)
        kw["timeout"] = 700
        kw["heap"] = "8g"
    return dict(type="mc", name=name, module="OnDemandImpl", spec="Spec",
                consts=dict(Accts=set(accts), Callers=set(callers), Requests=set(reqs), Configured=set(cfg), MaxCalls=calls,
                            MaxUpdates=ups, MaxFails=fails, Mode="mc", Depth=0),
                invariants=["NoObjection", "NobodyStuck", "OneLoader", "NeverForgotten", "NothingLeft"], view="View", workers=3,
                **kw)


def od_sim(name, tier, num, reqs=OREQ, callers=(1, 2, 3), depth=20, cfg=(), fails=3, seed=0, ups=6):
    num = num * (1 if tier == "quick" else 20)
    return dict(type="replay", name=name, module="OnDemandImpl", mode="ondemand", next="GNext", init="Init", num=num, seed=seed + 90,
                consts=dict(Accts=OACC, Callers=set(callers), Requests=set(reqs), Configured=set(cfg), MaxCalls=100, MaxUpdates=ups,
                            MaxFails=fails, Mode="sim", Depth=depth),
                sim_depth=400, constraint="EmitEnd", min_traces=num // 4, validate=OVAL, threads=4)


def okey(name):
    if name.startswith("acc_"):
        return dict(k="a", a=name[4:], o="-", c=[])
    return dict(k="g", a="-", o=name[0], c=[x + "1" for x in name[1:]])


def ocall(c, name, lvl="p", q=True):
    return dict(op=dict(t="call", c=c, k=okey(name), l=lvl), q=q)


def osub(name, ok=True):
    return dict(op=dict(t="sub", k=okey(name), ok=ok), q=True)


def oload(name, ok=True):
    return dict(op=dict(t="load", k=okey(name), ok=ok), q=True)


def odel(name, a):
    return dict(op=dict(t="del", k=okey(name), a=a), q=True)


OLATE = dict(op=dict(t="late"), q=True)


def od_late(t):
    """loads slower than the time limit of the callers"""
    lines = [
        [ocall(1, "acc_a"), osub("acc_a"), ocall(2, "acc_a"), ocall(3, "acc_a", "f"), OLATE, oload("acc_a"), ocall(2, "acc_a")],
        [ocall(1, "acc_n"), osub("acc_n"), ocall(2, "acc_n"), OLATE, oload("acc_n"), ocall(2, "acc_n")],
        [ocall(1, "P"), osub("P"), odel("P", "a"), ocall(2, "P"), ocall(3, "Pd"), ocall(4, "Pdh", "f"), OLATE, oload("P"), ocall(2, "Pd")],
        [ocall(1, "Pd"), osub("Pd"), ocall(2, "Pd"), ocall(3, "acc_c"), osub("acc_c"), OLATE, oload("Pd", False), ocall(2, "Pd"), osub("Pd"),
         oload("Pd"), oload("acc_c")],
        [ocall(1, "acc_b"), osub("acc_b"), ocall(2, "acc_b"), OLATE, oload("acc_b", False), ocall(3, "acc_b"), osub("acc_b"), odel("acc_b", "b")],
        [ocall(1, "Q"), osub("Q"), ocall(2, "Qd"), OLATE, oload("Q", False), ocall(2, "Qd"), osub("Qd"), ocall(3, "Q"), osub("Q"), oload("Q")],
    ]
    return dict(type="direct", name="late", mode="ondemand", threads=len(lines), lines=[dict(cfg=[], h=h) for h in lines], validate=OVAL)


GPA = ("P", "Pd", "Ph", "Pdh")
ACC = ("acc_a", "acc_b", "acc_n")


def o01(t):
    return [
        od_mc("mc-acc", t, ("acc_a", "acc_n"), accts=("a", "n"), calls=3, ups=0 if t == "quick" else 1),
        od_mc("mc-gpa", t, ("P", "Pd"), calls=3, ups=0),
        od_sim("any", t, 400, seed=0),
        od_sim("same", t, 400, reqs=("acc_a", "acc_n", "P"), callers=(1, 2, 3, 4), fails=1, seed=1),
        od_sim("cover", t, 400, reqs=GPA, callers=(1, 2, 3, 4), fails=1, seed=2),
        od_sim("conf", t, 300, cfg=("Pd", "acc_a"), fails=2, seed=3),
    ]


def o02(t):
    return [
        od_mc("mc-acc", t, ("acc_a",), accts=("a",), calls=3, ups=0, fails=2),
        od_mc("mc-gpa", t, ("P", "Pd"), calls=3, ups=0, fails=2),
        od_sim("any", t, 400, fails=9, seed=10),
        od_sim("acc", t, 400, reqs=ACC, callers=(1, 2, 3, 4), fails=9, seed=11),
        od_sim("gpa", t, 400, reqs=GPA, callers=(1, 2, 3, 4), fails=9, seed=12, depth=24),
        od_sim("same", t, 400, reqs=("acc_a", "P"), callers=(1, 2, 3, 4), fails=9, ups=1, seed=13),
    ]


def o03(t):
    return [
        od_mc("mc-acc", t, ("acc_a",), accts=("a",), calls=3, ups=1, fails=1),
        od_mc("mc-gpa", t, ("P", "Pd"), calls=3, ups=0),
        od_late(t),
        od_sim("gpa", t, 400, reqs=GPA, callers=(1, 2, 3, 4), fails=2, seed=20, depth=24),
        od_sim("any", t, 400, fails=2, seed=21),
        od_sim("acc", t, 300, reqs=ACC + ("P",), callers=(1, 2, 3, 4), fails=2, seed=22),
    ]


def o04(t):
    r = [
        od_mc("mc-acc", t, ("acc_a",), accts=("a",), calls=2, ups=2, fails=1),
        od_mc("mc-gpa", t, ("Pd",), calls=2, ups=1 if t == "quick" else 2),
        od_sim("any", t, 400, ups=20, depth=26, seed=30),
        od_sim("conf", t, 300, cfg=("Ph", "acc_b", "Q"), ups=20, depth=26, seed=31),
        od_sim("gpa", t, 300, reqs=GPA, ups=20, depth=26, seed=32),
        od_sim("acc", t, 300, reqs=ACC, ups=20, depth=26, seed=33),
    ]
    # everything else is passed through to the storage
    r += [store_sim("through-" + n.lower(), t, "all", "GNext" + n, 60, depth=30, snap=True, seed=i, params=dict(dispatch="ondemand"))
          for i, n in enumerate(("Any", "Chain"))]
    return r


PLANS.update(O01=o01, O02=o02, O03=o03, O04=o04)


# ---------------------------------------------------------------- concurrent use of the account store
def called(of):
    """histories in which the result of such a call is not explained"""
    return {"kinds": ["%s_%s" % (w, t) for w in ("unexplained", "conc_result") for t in of]} if of else {}


def store_conc(name, tier, cfg, nxt, num, depth=16, slots=5, wvs=1, accts=("a", "b"), kinds=("p1", "p2", "q1", "r1", "dp", "ds"), seed=0,
               reps=1, of=None, dispatch=None):
    num = num * (1 if tier == "quick" else 20)
    c = dict(Accts=set(accts), MaxSlot=slots, MaxWv=wvs, Kinds=set(kinds), FilterCfg=cfg, Extra="-")
    return dict(type="replay", name=name, module="GenStore", mode="conc-store", next=nxt, num=num, seed=seed + 200,
                consts=dict(c, Depth=depth, Mode="sim", ObsGpa=False, WithSnap=False), constraint="EmitEnd", threads=1,
                params=dict(reps=reps, **({"dispatch": dispatch} if dispatch else {})), must=["histories", "overlapping", "snapshots"],
                **called(of),
                validate=dict(module="StoreConcTrace", spec="TraceSpec", consts=dict(c, Threads={1, 2, 3, 4, 5}, Ops=set(), MaxOps=0), workers=1,
                              constraint="Track", postcondition="Report", batch=500))


def conc_mc(name, tier, ops, threads=(1, 2), n=(5, 6), accts=("a",), cfg="P"):
    return dict(type="mc", name=name, module="StoreConc", spec="MCSpec", workers=2,
                consts=dict(Accts=set(accts), MaxSlot=2, MaxWv=1, Kinds={"p1", "p2", "r1", "ds"}, FilterCfg=cfg, Extra="-", Threads=set(threads),
                            Ops=set(ops), MaxOps=n[0] if tier == "quick" else n[1]),
                invariants=["CTypeOK", "LevelsOrdered", "NothingLost", "NothingGone"], properties=["CNeverBack"])


def s10(t):
    return [
        conc_mc("mc-promote", t, ("u10", "u11", "u20", "n1c", "n2c", "n1f", "n2f")),
        conc_mc("mc-gone", t, ("u10", "d20", "d1f", "r2f", "n1f", "n2f", "n2c")),
        conc_mc("mc-three", t, ("u10", "d20", "n1f", "n2f"), threads=(1, 2, 3), n=(4, 5)),
        conc_mc("mc-two", t, ("u10", "b10", "b2f", "n1c", "n2f"), accts=("a", "b"), n=(4, 5)),
        store_conc("any-P", t, "P", "GNextAny", 400),
        store_conc("chain-P", t, "P", "GNextChain", 500, seed=1),
        store_conc("chain-PQ", t, "PQ", "GNextChain", 400, seed=2, accts=("a", "b", "c")),
        store_conc("chain-exQ", t, "exQ", "GNextChain", 400, seed=3),
        store_conc("fork-P", t, "P", "GNextFork", 400, seed=4, slots=6),
        store_conc("one-account", t, "P", "GNextChain", 400, seed=5, accts=("a",), slots=4, depth=14),
    ]


PLANS.update(S10=s10)


# ---------------------------------------------------------------- concurrent use of the token storage
def token_conc(name, tier, nxt, num, depth=16, slots=5, wvs=1, accts=("a", "m1"), kinds=TALLK, seed=0, reps=1, of=None):
    num = num * (1 if tier == "quick" else 20)
    c = dict(MaxSlot=slots, MaxWv=wvs, Kinds=set(kinds))
    return dict(type="replay", name=name, module="GenToken", mode="conc-token", next=nxt, num=num, seed=seed + 300,
                consts=dict(c, Accts=set(accts), Depth=depth, Mode="conc", ObsGpa=False, WithSnap=False), constraint="EmitEnd", threads=1,
                params=dict(reps=reps, accts=','.join(sorted(set(accts) | {"m1", "m2"}))), must=["histories", "overlapping", "snapshots"], **called(of),
                validate=dict(module="TokenConcTrace", spec="TraceSpec", workers=1, constraint="Track", postcondition="Report", batch=500,
                              consts=dict(c, Accts=set(accts) | {"m1", "m2"}, Threads={1, 2, 3, 4, 5}, Ops=set(), MaxOps=0, Linked=False,
                                          LateCheck="inside", ConfLoad="inside")))


def tconc_mc(name, tier, ops, threads=(1, 2), n=(4, 5), accts=("a",), linked=True, slots=3):
    return dict(type="mc", name=name, module="TokenConc", spec="MCSpec", workers=2,
                consts=dict(Accts=set(accts) | {"m1"}, MaxSlot=slots, MaxWv=0, Kinds={"t11"}, Threads=set(threads), Ops=set(ops),
                            MaxOps=n[0] if tier == "quick" else n[1], Linked=linked, LateCheck="inside", ConfLoad="inside"),
                invariants=["ReadsCurrent", "NotOlder", "LockHeld", "NothingLeft"], properties=["FinNeverBack", "ConfNeverBack"])


def t08(t):
    return [
        tconc_mc("mc-conf", t, ("u1", "u2", "u3", "n1c", "n2c", "n3c", "ga0", "ga1"), n=(4, 6)),
        tconc_mc("mc-fin", t, ("u1", "u2", "n1f", "n2f", "n1c", "ga1", "ga2"), n=(4, 6), slots=2),
        tconc_mc("mc-fork", t, ("u1", "u2", "n2c", "n3y", "n3z", "n2f", "ga0", "ga1"), linked=False, n=(4, 5)),
        tconc_mc("mc-query", t, ("u1", "d2", "u2", "n1f", "n2f", "q0", "q1"), n=(4, 5), slots=2),
        token_conc("any", t, "GNextAny", 220, accts=("a", "m1", "g")),
        token_conc("chain", t, "GNextChain", 240, accts=("a", "b", "m1"), seed=1),
        token_conc("fin", t, "GNextFin", 220, accts=("a", "b"), kinds={"t11", "t21", "t12", "ds"}, seed=2),
        token_conc("fork", t, "GNextFork", 280, accts=("a", "b"), kinds={"t11", "t21", "ds"}, seed=3, slots=6),
        token_conc("one-account", t, "GNextChain", 240, accts=("a",), kinds={"t11", "t22", "x11", "ds"}, slots=4, depth=14, seed=4),
    ]


PLANS.update(T08=t08)


def plan(prop, tier):
    return dict(jobs=PLANS[prop](tier), assumptions=ASSUME.get(prop, []))


NOTES = {}
