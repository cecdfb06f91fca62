"""What each property's check runs: see check.py and DESIGN.md."""

SUBJECTS = {  # recorded subjects of harness/src/bin/{rec,alg}.rs: (N, Dense, judge)
    "iv-u8": (256, False, "RegTrace"), "iv-i8": (256, False, "RegTrace"), "iv-P1": (1, False, "RegTrace"), "iv-P2": (2, False, "RegTrace"),
    "iv-P40": (40, False, "RegTrace"), "iv-Back": (17, False, "RegTrace"), "iv-Word": (9, False, "RegTrace"), "iv-Pair": (14, False, "RegTrace"),
    "raw-i32": (5, True, "RegTrace"), "raw-u8": (14, True, "RegTrace"), "raw-float": (24, True, "RegTrace"),
    "raw-string": (10, True, "RegTrace"), "raw-pair": (40, True, "RegTrace"), "raw-vast": (5000, True, "RegTrace"),
    "u8": (256, False, "PoolTrace"), "i8": (256, False, "PoolTrace"), "P1": (1, False, "PoolTrace"), "P2": (2, False, "PoolTrace"),
    "P40": (40, False, "PoolTrace"), "P12": (12, False, "PoolTrace"), "Back": (17, False, "PoolTrace"), "Word": (9, False, "PoolTrace"),
    "Pair": (14, False, "PoolTrace"),
    "tree-i32": (5, True, "PoolTrace"), "tree-u8": (14, True, "PoolTrace"), "tree-float": (24, True, "PoolTrace"),
    "tree-string": (10, True, "PoolTrace"), "tree-pair": (40, True, "PoolTrace"), "tree-wide": (100, True, "PoolTrace"),
    "tree-huge": (400, True, "WideTrace"),
    # whole 16-bit types, value by value, and trees over thousands of values
    "u16": (65536, False, "WideTrace"), "i16": (65536, False, "WideTrace"), "tree-vast": (5000, True, "WideTrace"),
    "iv-u16": (65536, False, "RegTrace"), "iv-i16": (65536, False, "RegTrace"),
    # four clusters of values of the wider types, the values between two clusters taken as one
    **{"iv-" + x: (803, False, "RegTrace") for x in ("u32", "u64", "u128", "usize", "i32", "i64", "i128", "isize")},
    # whole integer types in clusters of single values and blocks between them
    "b-u16": (300, False, "WideTrace"), "b-i32": (300, False, "WideTrace"),
    **{"b-" + x: (60, False, "PoolTrace") for x in ("u32", "u64", "u128", "usize", "i16", "i64", "i128", "isize")},
}
SELS = ["u8", "i8", "P1", "P2", "P40", "P12", "Back", "Word", "Pair"]
BLOCKS = ["b-u16", "b-u32", "b-u64", "b-u128", "b-usize", "b-i16", "b-i32", "b-i64", "b-i128", "b-isize"]
SELS_FEW = ["u8", "P40", "P12", "Pair"]
TREES = ["tree-i32", "tree-u8", "tree-float", "tree-string", "tree-pair", "tree-wide"]
IVS = ["iv-u8", "iv-i8", "iv-P1", "iv-P2", "iv-P40", "iv-Back", "iv-Word", "iv-Pair"]
RAWS = ["raw-i32", "raw-u8", "raw-float", "raw-string", "raw-pair"]
WIDE = ["u16", "i16"]
IVS_WIDE = ["iv-u16", "iv-i16"]
FAR = ["u32", "u64", "u128", "usize", "i32", "i64", "i128", "isize"]
IVS_FAR = ["iv-" + x for x in FAR]
KS = [1, 2, 3, 4, 5, 9]
NS = [1, 2, 3, 4]
ODD = [3, 5, 7, 9]

_tables = {}


def TABLES(name):
    kind, _, n = name.partition("_")
    n = int(n) if n else 0
    if kind == "regions":
        return dict(module="EmitRegions", consts={"K": n, "Pairs": True}, spec="Spec", invs=["TypeOK", "RunsExact", "EmitEdits", "EmitPairs"])
    if kind == "tree":
        return dict(module="EmitTree", consts={"N": n}, spec="Spec", invs=["Obs"])
    if kind == "selection":
        return dict(module="EmitSelection", consts={"K": n}, spec="Spec", invs=["Obs", "Tight"])
    if kind == "cursor":
        return dict(module="EmitCursor", consts={"MaxItems": n}, spec="Spec", invs=["CursorOK", "Emit"], props=["Fused"])
    if kind == "chain":
        return dict(module="EmitChain", consts={"N": n})
    if kind == "raw":
        return dict(module="EmitRaw", consts={"N": n})
    if kind == "tines":
        return dict(module="EmitTines", consts={"N": n})
    if kind == "bulk":
        return dict(module="Bulk", consts={"N": n, "MaxLen": {1: 4, 2: 2, 3: 2}[n]}, spec="Spec", invs=["Agree", "Emit"])
    if kind == "notation":
        return dict(module="Notation", consts={"N": n, "MaxEdits": 2, "MaxLen": 7}, spec="Spec", invs=["ParserAgrees", "Emit"], view="View")
    raise KeyError(name)


# --------------------------------------------------------------------------- models
def sel_machine(n, binary=True):
    return dict(module="SelectionMachine", consts={"N": n}, invs=["NoPanic", "Canonical", "DecompositionOK", "QueriesOK"] + (["BinaryOK"] if binary else []))


def tree_machine(n, binary=True):
    return dict(module="TreeMachine", consts={"N": n}, heap="6g", workers=4 if n > 3 else 1,
                invs=["NoPanic", "Canonical", "Faithful", "LocalOK", "QueriesOK"] + (["BinaryOK"] if binary else ["OneFormPerSet"]))


def edges():
    return dict(module="EdgeMachine", consts={}, invs=["NoPanic", "EndsOK"])


def laws(k):
    return dict(module="RegionLaws", consts={"K": k}, invs=["TypeOK", "RunsExact", "RunsInjective", "Laws"])


def pool(k, slots="{1, 2}"):
    return dict(module="Pool", consts={"K": k, "Slots": slots}, invs=["TypeOK", "Observable"], props=["OneAtATime"])


def run_pool(k):
    return dict(module="RunPoolMachine", consts={"K": k, "Slots": "{1, 2}"}, invs=["TypeOK", "Faithful", "AnswersOK", "MeetOK", "Steps"], props=["Refines"])


def range_regs(k, dense):
    return dict(module="RangeRegsMachine", consts={"K": k, "Slots": "{1, 2}", "Dense": dense}, invs=["AnswersOK"], props=["Refines"])


def unbounded(part):
    """Apalache: any number of values"""
    init, nxt, length = {"Raw": ("InitRaw", "NextRaw", 1), "Form": ("Init", "NextForm", 2), "Iv": ("InitIv", "NextIv", 4)}[part]
    return dict(module="Unbounded", init=init, next=nxt, inv=part + "Inv", length=length)


def tine_iter(n):
    return dict(module="TineIter", consts={"N": n}, invs=["NoPanic", "Refines", "CursorOK"], props=["Fused"])


def point_iter(n):
    return dict(module="PointIter", consts={"N": n}, invs=["Refines", "CursorOK"], props=["Fused"])


def traversal_machine(n, calls, skip):
    return dict(module="TraversalMachine", consts={"MaxItems": n, "MaxCalls": calls, "MaxSkip": skip}, invs=["Agrees", "NthOK", "LastOK", "CursorOK"], props=["Fused"])


def raw_machine(n):
    return dict(module="RawMachine", consts={"N": n}, invs=["Faithful", "Formed", "AnswersOK"])


def interval_machine(n):
    return dict(module="IntervalMachine", consts={"N": n}, invs=["Faithful", "Formed", "LooseOK", "AnswersOK"])


def registers(k, dense):
    return dict(module="Registers", consts={"K": k, "Slots": "{1, 2}", "Dense": dense}, invs=["TypeOK", "PieceLaws", "ClosureLaws"])


def tine_machine():
    return dict(module="TineMachine", consts={}, invs=["Faithful", "Unmarked", "Laws"])


def bound_machine(n):
    return dict(module="BoundMachine", consts={"N": n}, invs=["AdmitOK", "Chosen"])


def word_machine(base, width, signed):
    return dict(module="WordMachine", consts={"Base": base, "Width": width, "Signed": signed}, invs=["ValueOK", "EndsOK", "InverseOK", "RangeOK"])


def t(kind, ns):
    return ["%s_%d" % (kind, n) for n in ns]


def rec(mix, lines, subjects, reps=1):
    return dict(bin="rec", mix=mix, lines=lines, subjects=subjects, reps=reps)


def alg(mix, lines, subjects, reps=1):
    return dict(bin="alg", mix=mix, lines=lines, subjects=subjects, reps=reps)


COMMON = [
    "the harness translates faithfully between the code's values and the specification's positions (it computes no expected result)",
    "element types have a total order, and a Clone, Hash, succ and pred consistent with it",
]


def PLAN(pid, th):
    q = lambda quick, thorough: thorough if th else quick  # noqa: E731
    lines = q(6000, 20000)
    reps = q(2, 10)
    # runs on very long lines, judged by run lists
    wl, wr = q(1500, 4000), q(1, 5)
    rp, rr, rd = run_pool(q(4, 5)), range_regs(q(5, 6), False), range_regs(q(5, 7), True)
    p = dict(bin=pid.lower(), features=[], models=[], tables=[], record=[], traces=[], bounds="", assumptions=list(COMMON))
    if pid == "C01":
        p.update(models=[sel_machine(q(5, 7)), laws(q(5, 7)), rp], tables=t("regions", KS), record=[rec("binary", lines, SELS + BLOCKS, reps), rec("binary", wl, WIDE, wr)],
                 bounds="all pairs of subsets of up to 9 positions; recorded runs over whole types of up to 65,536 values, and over up to 300 blocks of the wider integer types")
    elif pid == "C02":
        p.update(models=[sel_machine(q(7, 9), False), rp], tables=t("regions", KS), record=[rec("edit", lines, SELS + BLOCKS, reps), rec("edit", wl, WIDE, wr)],
                 bounds="every edit in every state of up to 9 positions, all histories up to depth 3-5, random walks; recorded runs over whole types of up to 65,536 values, and over up to 300 blocks of the wider integer types")
    elif pid == "C03":
        p.update(models=[sel_machine(q(5, 7)), laws(q(5, 7)), rp], tables=t("regions", KS) + t("selection", KS),
                 record=[rec("all", lines, SELS_FEW + ["b-u64", "b-i32"], reps), rec("all", wl, ["i16", "tree-vast"], wr)],
                 bounds="all pairs of states of up to 9 positions reached by several histories each")
    elif pid == "C04":
        p.update(models=[sel_machine(q(7, 9), False), rp], tables=t("regions", KS) + t("selection", KS), record=[rec("look", lines, SELS + BLOCKS, reps), rec("look", wl, WIDE, wr)],
                 bounds="every state of up to 9 positions; recorded runs over whole types of up to 65,536 values, and over up to 300 blocks of the wider integer types")
    elif pid == "C05":
        p.update(models=[tine_iter(q(3, 4)), traversal_machine(4, q(4, 5), 2), rp], tables=t("regions", KS + [7]) + t("tree", NS) + ["cursor_9"],
                 record=[rec("walk", lines, SELS_FEW + ["b-u16", "b-i128"] + TREES, reps), rec("walk", q(2000, 10000), ["tree-huge"], reps), rec("walk", wl, ["u16", "tree-vast"], wr)],
                 bounds="every interleaving over every decomposition of up to 9 positions; recorded runs over up to 65,536 positions")
    elif pid == "C06":
        p.update(models=[point_iter(q(6, 8)), traversal_machine(4, q(4, 5), 2), rp, rr], tables=t("regions", KS) + ["cursor_9"],
                 record=[rec("points", lines, SELS, reps), alg("points", lines, IVS, reps), rec("points", wl, WIDE, wr), alg("points", q(300, 1500), IVS_WIDE, wr),
                         alg("points", wl, IVS_FAR, wr), rec("points", wl, ["b-u16", "b-i32", "b-u64", "b-i128"], wr)],
                 bounds="every interleaving over every set of up to 6 (thorough 9) points; recorded runs over up to 65,536 points, and from both ends into larger sets")
    elif pid in ("C07", "C08", "C09", "C10"):
        mix = {"C07": "build", "C08": "ops", "C09": "look", "C10": "norm"}[pid]
        p.update(models=[interval_machine(q(3, 4)), registers(q(5, 6), False), rr, unbounded("Iv" if pid == "C08" else "Form")], tables=t("chain", range(1, q(7, 8))), record=[alg(mix, lines, IVS, reps), alg(mix, wl, IVS_WIDE + IVS_FAR, wr)],
                 bounds="any number of values for the algorithms (Apalache); all raw intervals, bounds and pairs of intervals over chains of up to %d positions; recorded programs over whole types of up to 65,536 values and clusters of the wider integer types" % q(6, 7))
    elif pid == "C11":
        p.update(models=[word_machine(*w) for w in [(2, 8, True), (2, 8, False), (4, 3, True), (6, 3, True), (16, 2, False), (16, 2, True)]],
                 traces=[dict(files=r"word_.*\.ndjson", module="WordTrace", consts={})],
                 bounds="every value of the 8-bit types (thorough: 16-bit), the ends, powers of two and random values of the others")
    elif pid in ("C12", "C13"):
        p.update(models=[raw_machine(q(3, 4)), registers(q(5, 7), True), rd, unbounded("Raw")], tables=t("raw", range(1, q(5, 6))),
                 record=[alg(m, lines, RAWS, reps) for m in (["build", "look"] if pid == "C12" else ["ops"])],
                 bounds="any number of values for the algorithms (Apalache); all raw intervals and bounds (and pairs of them) over up to %d values and the gaps between them; recorded programs over up to 40 values" % q(4, 5))
    elif pid == "C19":
        p.update(models=[bound_machine(q(3, 5)), unbounded("Raw")], tables=t("raw", range(1, q(5, 6))), record=[alg("bound", lines, RAWS, reps)],
                 bounds="any number of values for the algorithms (Apalache); all pairs of bounds over up to %d values; recorded calls over up to 40 values" % q(4, 5))
    elif pid == "C14":
        p.update(models=[registers(5, True), rd], tables=t("bulk", q([1, 2], [1, 2, 3])) + t("regions", [5, 7, 9]) + t("tree", [2, 3, 4]),
                 record=[alg("bulk", q(1500, 8000), RAWS, reps), alg("bulk", q(600, 2500), ["raw-vast"], q(2, 6))],
                 bounds="all sequences of up to 4 (1 value) or 2 (2 values; thorough also 3) raw intervals; random sequences of up to 12 over 4 values; recorded sequences of up to 40 over up to 40 values and of up to 1,500 over 5,000 values")
    elif pid == "C15":
        p.update(models=[tree_machine(q(3, 4)), rp], tables=t("regions", ODD) + t("tree", NS), record=[rec("binary", lines, TREES, reps), rec("binary", q(2000, 10000), ["tree-huge"], reps), rec("binary", wl, ["tree-vast"], wr)],
                 bounds="all pairs of sets over up to 4 values and the gaps between them; recorded runs over up to 5,000 values")
    elif pid == "C16":
        p.update(models=[tree_machine(q(4, 5), False), edges(), rp], tables=t("regions", ODD) + t("tree", NS), record=[rec("edit", lines, TREES, reps), rec("edit", q(2000, 10000), ["tree-huge"], reps), rec("edit", wl, ["tree-vast"], wr)],
                 bounds="trees of any size for the ends of an edit (by the regions next to them); every edit in every state over up to 4 values, all histories up to depth 2-4, random walks; recorded runs over up to 5,000 values")
    elif pid == "C17":
        p.update(models=[tree_machine(q(4, 5), False), rp], tables=t("regions", ODD) + t("tree", NS), record=[rec("look", lines, TREES, reps), rec("look", q(2000, 10000), ["tree-huge"], reps), rec("look", wl, ["tree-vast"], wr)],
                 bounds="all pairs of states over up to 4 values, several histories each; recorded runs over up to 5,000 values")
    elif pid == "C18":
        p.update(models=[tine_machine(), edges()], tables=t("tines", NS), record=[alg("tine", lines, RAWS, reps)],
                 bounds="all pairs of markers over up to 4 values and both infinities; recorded calls over up to 40 values")
    elif pid == "C20":
        p.update(tables=t("notation", q([2], [2, 3])), traces=[dict(files=r"notation\.ndjson", module="NotationTrace", spec="TSpec", consts={"N": 3, "MaxEdits": 0, "MaxLen": 9})],
                 bounds="all texts of up to 7 tokens within 2 edits of a printed interval, on 16 value types; recorded random texts")
    elif pid == "C21":
        p.update(features=["serde"], models=[pool(3), laws(5), rp],
                 tables=t("regions", KS + [7]) + t("chain", range(1, q(6, 7))) + t("tree", NS) + t("raw", NS) + t("tines", NS),
                 bounds="every state of up to 9 positions, every interval, raw interval, bound and marker over up to 4-6 positions; reloads after every step of random and enumerated histories, JSON and bincode; recorded runs with reloads over up to 65,536 values",
                 record=[rec("save", q(2000, 10000), SELS + ["b-u16", "b-u128", "b-i64"] + TREES, reps), rec("save", wl, ["i16", "tree-vast"], wr)])
    elif pid == "C22":
        p.update(models=[sel_machine(n, False) for n in (1, 2, 3, 4, 5, 6)] + [pool(3), rp],
                 tables=t("regions", KS) + t("selection", KS) + ["cursor_9"] + t("chain", range(1, 6)),
                 record=[rec("all", q(3000, 10000), SELS + BLOCKS, q(1, 6)), rec("all", wl, WIDE, wr), alg("ops", wl, IVS_FAR, wr)],
                 bounds="7 layouts of every table on each of the 12 integer types and on user-defined types of 1, 2, 9 and 14 values")
    else:
        raise KeyError(pid)
    return p
