"""Optimizer catalogue: which registered optimizers can be exercised here, and how."""
import typing as tp
import warnings
import numpy as np

# too slow for a monitored execution here (gaussian processes, forests, inner optimisations), or nondeterministic stalls
SLOW = {
    "AXP", "BO", "BOSplit", "BayesOptimBO", "NGOptF", "NGOptF2", "NGOptF3", "PCABO", "PCABO80", "PCABO95DoE20", "PolyCMA",
    "PolyLN", "RF1MetaModel", "RF1MetaModelD", "RF1MetaModelE", "RF1MetaModelLogNormal", "RF1MetaModelOnePlusOne",
    "RFMetaModel", "RFMetaModelDE", "RFMetaModelLogNormal", "RFMetaModelOnePlusOne", "RFMetaModelPSO",
    "RFMetaModelTwoPointsDE", "SMAC3", "SQOPSODCMA20bar", "PCABO80", "BAYESOPTIMBO",
}  # fmt: skip
# rely on third-party packages which are missing or incompatible in this sandbox
UNUSABLE = {"AX", "NGOptF5", "pysot", "NLOPT_LN_NEWUOA_BOUND", "SplitCSEC11"}  # the last one: see known finding T01
# third-party algorithms which are not defined in dimension 1
# several Cobyla instances in one process deadlock (scipy holds a module-level lock): see known finding T01
SEVERAL_COBYLA = {"Carola3"}
NOT_1D = {"PymooCMAES", "PymooBIPOP"}
ONE_DIM = {"one", "int", "log"}

CORE = [
    "OnePlusOne", "DE", "TwoPointsDE", "PSO", "CMA", "DiagonalCMA", "NGOpt", "TBPSA", "EDA", "cGA", "NaiveTBPSA",
    "RandomSearch", "ScrHammersleySearch", "LHSSearch", "DiscreteOnePlusOne", "DoubleFastGADiscreteOnePlusOne",
    "PortfolioDiscreteOnePlusOne", "NoisyOnePlusOne", "OptimisticNoisyOnePlusOne", "NoisyDE", "ES", "RecES", "MixES",
    "NonNSGAIIES", "RecMixES", "Portfolio", "ParaPortfolio", "CMandAS2", "MultiCMA", "MutDE", "NoisyBandit",
    "RescaledCMA", "MetaModel", "SplitCMAAuto", "SplitDE", "NelderMead", "Powell", "SQP", "Cobyla", "ChainMetaModelSQP",
    "HullCenterHullAvgCauchyLHSSearch", "SPSA", "MiniQrDE", "FCMA", "NgIohTuned", "Shiwa", "LhsDE", "QrDE", "QODE",
    "RotatedTwoPointsDE", "VLPCMA", "MetaTuneRecentering", "Zero", "StupidRandom", "MultiDiscrete", "SQOPSO",
    "CauchyOnePlusOne", "SADiscreteLenglerOnePlusOneExp09", "TripleCMA", "PolyCMA", "ManyCMA", "ASCMADEthird",
    "BigLognormalDiscreteOnePlusOne", "SmoothDiscreteOnePlusOne", "ParametrizationDE", "MiniDE", "NGOptSingle16",
    "NgIoh11", "CSEC11", "AlmostRotationInvariantDE", "AvgMetaRecenteringNoHull", "MetaCauchyRecentering",
    "HammersleySearchPlusMiddlePoint", "ORandomSearch", "QORandomSearch", "RCobyla", "CM", "ChoiceBase", "NGO",
    "GeneticDE", "OnePointDE", "DiscreteBSOOnePlusOne", "AdaptiveDiscreteOnePlusOne", "CrossoverDiscreteOnePlusOne",
    "RecombiningPortfolioOptimisticNoisyDiscreteOnePlusOne", "EDCMA", "RandRecES", "RotationInvariantDE", "pCarola3",
    "Carola2", "SDiagonalCMA", "LogBFGSCMA", "NLOPT_LN_SBPLX", "PymooNSGA2", "DSproba", "NeldermeadLDA", "Wiz",
]  # fmt: skip

# small/cheap and structurally different: used when many runs per optimizer are needed
BASIC = [
    "OnePlusOne", "DE", "TwoPointsDE", "PSO", "CMA", "DiagonalCMA", "NGOpt", "TBPSA", "EDA", "cGA", "NaiveTBPSA",
    "RandomSearch", "ScrHammersleySearch", "LHSSearch", "DiscreteOnePlusOne", "PortfolioDiscreteOnePlusOne",
    "OptimisticNoisyOnePlusOne", "NoisyDE", "ES", "RecES", "NonNSGAIIES", "Portfolio", "ParaPortfolio", "MultiCMA",
    "NoisyBandit", "RescaledCMA", "MetaModel", "SplitCMAAuto", "NelderMead", "SQP", "SPSA", "QrDE", "NgIohTuned",
    "ParametrizationDE", "DoubleFastGADiscreteOnePlusOne", "CMandAS2", "SQOPSO", "MetaCauchyRecentering",
]  # fmt: skip


def registered() -> tp.List[str]:
    import nevergrad as ng

    return sorted(ng.optimizers.registry)


def usable() -> tp.List[str]:
    return [n for n in registered() if n not in SLOW and n not in UNUSABLE]


def core() -> tp.List[str]:
    have = set(registered())
    return [n for n in dict.fromkeys(CORE) if n in have and n not in SLOW and n not in UNUSABLE]


def basic() -> tp.List[str]:
    have = set(registered())
    return [n for n in dict.fromkeys(BASIC) if n in have]


_NOPAR: tp.Dict[str, bool] = {}


def no_parallel(name: str) -> bool:
    """whether it refuses num_workers > 1"""
    import nevergrad as ng

    if name not in _NOPAR:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                ng.optimizers.registry[name](ng.p.Array(shape=(2,)), budget=20, num_workers=2)
                _NOPAR[name] = False
            except (ValueError, AssertionError) as e:
                if "parallel" not in str(e) and "sequential" not in str(e):
                    raise
                _NOPAR[name] = True
    return _NOPAR[name]


def is_recast(name: str) -> bool:
    import nevergrad as ng

    return bool(getattr(ng.optimizers.registry[name], "recast", False))


def build_opt(name: str, param_fn: tp.Callable[[], tp.Any], budget: tp.Optional[int], workers: int, seed: int) -> tp.Any:
    """falls back to fewer workers when the optimizer refuses that many"""
    if name in SEVERAL_COBYLA:
        workers = 1
    for w in range(workers, 0, -1):
        try:
            return make(name, param_fn(), budget, w, seed)
        except (ValueError, AssertionError) as e:
            if w == 1 or ("parallel" not in str(e) and "sequential" not in str(e)):
                raise
    raise RuntimeError


def make(name: str, param: tp.Any, budget: tp.Optional[int], workers: int, seed: tp.Optional[int] = None) -> tp.Any:
    import nevergrad as ng

    if seed is not None:
        param.random_state.seed(seed % 2**32)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ng.optimizers.registry[name](param, budget=budget, num_workers=workers)


# a few fixed, simple search spaces (specs of vh.spaces)
SPACES: tp.Dict[str, tp.Dict[str, tp.Any]] = {
    "arr3": {"t": "array", "shape": [3]},
    "arr2x2": {"t": "array", "shape": [2, 2], "init": [[1.0, 2.0], [3.0, -1.0]]},
    "bnd2": {"t": "array", "shape": [2], "init": [0.5, 0.5], "lower": 0.0, "upper": 1.0, "method": "init"},
    "one": {"t": "scalar", "init": 0.0},
    "int": {"t": "scalar", "lower": -3.0, "upper": 9.0, "method": "init", "int": True},
    "log": {"t": "log", "lower": 1e-3, "upper": 10.0},
    "tch": {"t": "transition", "opts": [{"t": "const", "v": v} for v in "abcde"], "rep": 2, "ordered": True},
    "cho": {"t": "choice", "opts": [{"t": "const", "v": v} for v in "abcd"], "rep": None, "det": False},
    "mix": {
        "t": "instru",
        "args": [
            {"t": "choice", "opts": [{"t": "const", "v": v} for v in "abc"], "rep": None, "det": False},
            {"t": "scalar", "lower": -1.0, "upper": 3.0, "method": "init", "int": True},
        ],
        "kwargs": {
            "x": {"t": "log", "lower": 1e-3, "upper": 10.0},
            "t": {"t": "transition", "opts": [{"t": "const", "v": v} for v in "pqrs"], "rep": None, "ordered": True},
        },
    },
    "dct": {
        "t": "dict",
        "items": {
            "u": {"t": "scalar", "init": 1.0, "lower": 0.0, "upper": 4.0, "method": "clipping"},
            "v": {"t": "array", "shape": [2], "init": [0.0, 0.0]},
        },
    },
}  # fmt: skip
CONTINUOUS = ["arr3", "arr2x2", "bnd2", "one", "log", "dct"]


def rand_loss_seq(r: tp.Any, n: int, kind: str) -> tp.List[float]:
    if kind == "ties":
        return [float(r.randint(0, 3)) for _ in range(n)]
    if kind == "incr":
        return [float(k) for k in range(n)]
    if kind == "decr":
        return [float(-k) for k in range(n)]
    return [r.gauss(0, 10) for _ in range(n)]


def np_int(x: tp.Any) -> int:
    return int(np.asarray(x))
