"""The jobs of each property's check."""


def trace(name, binary, quick, thorough, module, cfg=None, **kw):
    return dict(name=name, bin=binary, quick=quick, thorough=thorough, module=module, cfg=cfg or module + ".cfg", **kw)


def model(name, module, cfg, **kw):
    return dict(name=name, module=module, cfg=cfg, **kw)


def behaviours(module, cfg, num=None, depth=None, **kw):
    """Behaviours the specification generates: all of them, or `num` random ones."""
    args = ["-simulate", "num=%d" % num, "-depth", str(depth)] if num else []
    return dict(module=module, cfg=cfg, tlc_args=args, workers=1 if num else 8, **kw)


LP_RESULTS = trace("results", "lp", ["results", 6000], ["results", 60000], "Results")
LP_TRACES = trace("traces", "lp", ["traces", 5000], ["traces", 25000], "SimplexTrace")
LP_BFS = trace("bfs", "lp", ["bfs", 4000], ["bfs", 25000], "SimplexTrace")
PROGRAMS = [behaviours("Programs", "Programs%s.cfg" % x) for x in ("2", "3", "33", "43")] \
    + [behaviours("Programs", "Programs%s.cfg" % x, thorough_only=True) for x in ("23", "44", "54")]


def programs(mode, module):
    """Programs of the specification, solved by the code."""
    return trace("programs", "lp", ["replay", mode], ["replay", mode], module, gen=PROGRAMS)


SIMPLEX_MC = model("simplex", "SimplexMC", "SimplexMC.cfg", cfg_thorough="SimplexMC3.cfg")
SIMPLEX_BLAND = model("bland", "SimplexMC", "SimplexBland.cfg", cfg_thorough="SimplexBland3.cfg")
SIMPLEX_PATIENCE = model("patience", "SimplexMC", "SimplexPatience.cfg", cfg_thorough="SimplexPatience3.cfg")

BI_MC = model("exchange", "BasisInverseMC", "BasisInverseMC.cfg", cfg_thorough="BasisInverseMC3.cfg")


BI_REPLAY = trace("replay", "bi", ["replay"], ["replay"], "BasisInverseTrace", gen=[
    behaviours("BasisInverseMC", "BasisInverseGen2.cfg"),
    behaviours("BasisInverseMC", "BasisInverseGen3.cfg", 60, 38),
    behaviours("BasisInverseMC", "BasisInverseGen3.cfg", 600, 38, thorough_only=True),
    behaviours("BasisInverseMC", "BasisInverseGen4.cfg", 300, 42, thorough_only=True),
])
BI_RANDOM = trace("histories", "bi", ["random", 2500], ["random", 40000], "BasisInverseTrace")

TAB = trace("tableau", "tab", [1500], [25000], "SimplexTrace")

LP_CYCLE = trace("cycling", "lp", ["cycle", 120000], ["cycle", 2000000], "Results")

MD_DATA = trace("data", "md", ["data", 2500], ["data", 40000], "MatrixData")
MD_ROWS = trace("rows", "md", ["rows", 2500], ["rows", 40000], "MatrixData")
MD_ROWS_CHECKED = trace("rows-checked", "md", ["rows", 800], ["rows", 8000], "MatrixData", profile="checked")
MD_SOLVE = trace("solve", "md", ["solve", 2500], ["solve", 30000], "Results")

SV_REPLAY = trace("operations", "sv", ["replay"], ["replay"], "AlgebraTrace", gen=[
    behaviours("AlgebraMC", "AlgebraGen.cfg"),
    behaviours("AlgebraMC", "AlgebraGen4.cfg", thorough_only=True),
])
SV_VECTORS = trace("vectors", "sv", ["vectors", 3000], ["vectors", 40000], "AlgebraTrace")
SV_MATRICES = trace("matrices", "sv", ["matrices", 2500], ["matrices", 30000], "AlgebraTrace")

NET_MC = model("networks", "NetworkMC", "NetworkMC.cfg", cfg_thorough="NetworkMC4.cfg")
NET_INC = trace("incidence", "net", ["inc", 2500], ["inc", 40000], "NetworkTrace")
NET_SOLVE = trace("solve", "net", ["solve", 4000], ["solve", 60000], "NetworkTrace")

GF_STD = trace("standardise", "gf", ["std", 10000], ["std", 50000], "GeneralFormTrace")
GF_WIDE = trace("wide", "gf", ["wide", 1500], ["wide", 20000], "GeneralFormTrace")
GF_WIDESCALE = trace("wide", "gf", ["widescale", 1200], ["widescale", 20000], "GeneralFormTrace")
GF_PRE = trace("presolve", "gf", ["pre", 20000], ["pre", 60000], "GeneralFormTrace")
GF_SCALE = trace("scale", "gf", ["scale", 10000], ["scale", 40000], "GeneralFormTrace")
GF_SOLVE = trace("pipeline", "gf", ["solve", 12000], ["solve", 50000], "GeneralFormTrace")
PRESOLVE_MC = model("rules", "PresolveMC", "PresolveMC.cfg", cfg_thorough="PresolveMC3.cfg")
PROBLEMS = [behaviours("PresolveMC", "PresolveGen.cfg"), behaviours("PresolveMC", "PresolveGen33.cfg"),
            behaviours("PresolveMC", "PresolveGen3.cfg", thorough_only=True)]


def replay(mode):
    """Problems of the specification, taken by the code through the stages of a mode."""
    return trace("replay", "gf", ["replay", mode], ["replay", mode], "GeneralFormTrace", gen=PROBLEMS)


MPS_MC = trace("documents", "mps", ["replay"], ["replay"], "MpsTrace", gen=[
    behaviours("MpsMC", "MpsMC.cfg"),
    behaviours("MpsMC", "MpsMC3.cfg", thorough_only=True),
])
MPS_FREE = trace("free", "mps", ["free", 10000], ["free", 60000], "MpsTrace")
MPS_FIXED = trace("fixed", "mps", ["fixed", 6000], ["fixed", 50000], "MpsTrace")
MPS_CORRUPT = trace("corrupt", "mps", ["corrupt", 20000], ["corrupt", 120000], "MpsTrace")
MPS_CORRUPT_CHECKED = trace("corrupt-checked", "mps", ["corrupt", 5000, "plain"], ["corrupt", 60000, "plain"], "MpsTrace", profile="checked")
MPS_GARBAGE = trace("garbage", "mps", ["garbage", 20000], ["garbage", 150000], "MpsTrace", profile="checked")
MPS_NUM = trace("numerals", "mps", ["num", 20000], ["num", 150000], "MpsTrace")
MPS_PATH = trace("paths", "mps", ["path", 600], ["path", 4000], "MpsTrace")
MPS_SOLVE = trace("files", "mps", ["solve", 4000], ["solve", 60000], "MpsTrace")

RATIONALS = model("rationals", "RatSelfTest", "RatSelfTest.cfg")

# With the library's own assertions on
LP_RESULTS_CHECKED = trace("results-checked", "lp", ["results", 1500], ["results", 30000], "Results", profile="checked")
LP_TRACES_CHECKED = trace("traces-checked", "lp", ["traces", 1000], ["traces", 10000], "SimplexTrace", profile="checked")
LP_BFS_CHECKED = trace("bfs-checked", "lp", ["bfs", 1000], ["bfs", 10000], "SimplexTrace", profile="checked")
BI_RANDOM_CHECKED = trace("histories-checked", "bi", ["random", 600], ["random", 6000], "BasisInverseTrace", profile="checked")
TAB_CHECKED = trace("tableau-checked", "tab", [400], [4000], "SimplexTrace", profile="checked")
GF_PRE_CHECKED = trace("presolve-checked", "gf", ["pre", 3000], ["pre", 30000], "GeneralFormTrace", profile="checked")
GF_SOLVE_CHECKED = trace("pipeline-checked", "gf", ["solve", 2000], ["solve", 20000], "GeneralFormTrace", profile="checked")

CHECKS = {
    "C01": [RATIONALS, programs("results", "Results"), LP_RESULTS, LP_RESULTS_CHECKED, MD_SOLVE],
    "C02": [SIMPLEX_MC, programs("traces", "SimplexTrace"), LP_TRACES, LP_TRACES_CHECKED],
    "C03": [programs("bfs", "SimplexTrace"), LP_BFS, LP_BFS_CHECKED, LP_TRACES],
    "C04": [BI_MC, BI_REPLAY, BI_RANDOM, BI_RANDOM_CHECKED],
    "C05": [TAB, TAB_CHECKED, LP_TRACES],
    "C06": [PRESOLVE_MC, replay("pre"), GF_PRE, GF_PRE_CHECKED],
    "C07": [replay("std"), GF_STD, GF_WIDE],
    "C08": [replay("solve"), GF_SOLVE, GF_SOLVE_CHECKED, MPS_SOLVE],
    "C09": [replay("scale"), GF_SCALE, GF_WIDESCALE],
    "C10": [MD_DATA],
    "C11": [MD_DATA, MD_ROWS, MD_ROWS_CHECKED, NET_INC],
    "C12": [MPS_MC, MPS_FREE, MPS_PATH],
    "C13": [MPS_MC, MPS_FIXED],
    "C14": [MPS_CORRUPT, MPS_CORRUPT_CHECKED, MPS_GARBAGE, MPS_PATH],
    "C15": [RATIONALS, MPS_NUM],
    "C16": [TAB, TAB_CHECKED, programs("traces", "SimplexTrace"), LP_TRACES, LP_TRACES_CHECKED],
    "C17": [SIMPLEX_BLAND, SIMPLEX_PATIENCE, LP_CYCLE, LP_RESULTS, TAB, LP_TRACES],
    "C19": [NET_MC, NET_SOLVE],
    "C20": [NET_INC],
    "C18": [SV_REPLAY, SV_VECTORS, SV_MATRICES],
}
