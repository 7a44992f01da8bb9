"""What a user is told about each indicator: required columns, parameters, columns, minimum data."""
import numpy as np

OHLCV = ("open", "high", "low", "close", "volume")


class Spec:
    def __init__(self, name, req, out, params=None, need=None, digits=4, causal=True,
                 ints=(), enums=None, extra=None):
        self.name = name
        self.req = tuple(req.split())
        self._out = out
        self.defaults = dict(params or {})
        self._need = need or (lambda p: 1)
        self.digits = digits
        self.causal = causal
        self.ints = ints          # (name, smallest accepted value)
        self.enums = enums or {}  # name -> accepted values
        self.extra = extra        # post-processing of sampled params

    def full(self, params):
        q = dict(self.defaults)
        q.update(params)
        return q

    def need(self, params):
        return self._need(self.full(params))

    def out(self, params):
        o = self._out
        return tuple((o(self.full(params)) if callable(o) else o).split())

    def sample(self, rng, big=40, default_p=0.3, far=0.0):
        """A valid parameter set; with probability far one of long windows."""
        away = far and rng.random() < far
        if away:
            default_p = 0.0
        if not self.defaults or rng.random() < default_p:
            p = {}
        else:
            p = {}
            for k, lo in self.ints:
                u = rng.random()
                if away and u < 0.75:
                    p[k] = int(rng.integers(40, 320))
                elif u < 0.25:
                    p[k] = int(lo + rng.integers(0, 2))
                elif u < 0.8:
                    p[k] = int(rng.integers(lo, max(lo + 2, 16)))
                else:
                    p[k] = int(rng.integers(lo, big))
            for k, vals in self.enums.items():
                p[k] = vals[int(rng.integers(len(vals)))]
        if self.extra:
            p = self.extra(p, rng)
        return p


def _p(q):
    return q["period"]


SPECS = {}


def add(*a, **k):
    s = Spec(*a, **k)
    SPECS[s.name] = s


def per(name, req, out, period, lo=1, need=_p, **k):
    add(name, req, out, {"period": period}, need, ints=(("period", lo),), **k)


HLC, HLCV = "high low close", "high low close volume"
add("AccumulationDistributionLine", HLCV, "adl")
add("AverageTrueRange", HLC, "atr", need=lambda p: 14)


def _bb(p, rng):
    if p:
        p["std_number"] = [1, 2, 3, 0.5, 2.5, 1.75][int(rng.integers(6))]
    return p


add("BollingerBands", "close", "middle_band upper_band lower_band", {"period": 20, "std_number": 2},
    _p, ints=(("period", 1),), extra=_bb)
per("ChaikinMoneyFlow", HLCV, "cmf", 5)
add("ChaikinOscillator", HLCV, "co", need=lambda p: 10)
per("ChandeMomentumOscillator", "close", "cmo", 5)
per("CommodityChannelIndex", HLC, "cci", 5)
per("DetrendedPriceOscillator", "close", "dpo", 6, causal=False)
add("DirectionalMovementIndex", HLC, "+di -di dx adx adxr", need=lambda p: 28)
per("DoubleExponentialMovingAverage", "close", "dema", 5)
per("EaseOfMovement", "high low volume", "emv emv_ma", 40, need=lambda p: max(p["period"], 2))


def _env(p, rng):
    if p:
        p["shift"] = [0.1, 0.01, 0.5, 0.999, 0.05, 0.001][int(rng.integers(6))]
    return p


add("Envelopes", "close", "upper_band lower_band", {"period": 20, "shift": 0.10}, _p,
    ints=(("period", 1),), extra=_env)
add("FibonacciRetracement", "close", "rl_0.0 rl_23.6 rl_38.2 rl_50.0 rl_61.8 rl_100.0", causal=False)
per("ForecastOscillator", "close", "fosc", 14, lo=2)
add("IchimokuCloud", HLC, "tenkan_sen kijun_sen senkou_a senkou_b")
per("IntradayMomentumIndex", "open close", "imi", 14)
add("KlingerOscillator", HLCV, "ko", need=lambda p: 55)
per("LinearRegressionIndicator", "close", "lri", 14, lo=2)
per("LinearRegressionSlope", "close", "lrs", 14)
add("MarketFacilitationIndex", "high low volume", "mfi", digits=10)
add("MassIndex", HLC, "mi", need=lambda p: 25)
per("MedianPrice", HLC, "mp", 20, need=lambda p: 1)
per("Momentum", "close", "mom", 12)


def _ma(p, rng):
    if p and p.get("ma_type") == "time_series":
        p["period"] = max(2, p["period"])
    return p


add("MovingAverage", "close", lambda p: "ma-" + p["ma_type"], {"period": 20, "ma_type": "simple"},
    lambda p: 22 if p["ma_type"] == "variable" else p["period"], ints=(("period", 1),),
    enums={"ma_type": ["simple", "exponential", "time_series", "triangular", "variable"]}, extra=_ma)
add("MovingAverageConvergenceDivergence", "close", "macd signal_line", need=lambda p: 26)
add("NegativeVolumeIndex", "close volume", "nvi", need=lambda p: 2)
add("OnBalanceVolume", "close volume", "obv")
add("ParabolicSAR", HLC, "sar", need=lambda p: 2)


def _perf(p, rng):
    if p:
        p["target"] = [0.05, 0.0, 0.5, 1, 0.001][int(rng.integers(5))] * (1 if p["mode"] == "LONG" else -1)
    return p


add("Performance", "close", lambda p: "prf target_" + p["mode"], {"mode": "LONG", "target": 0.05},
    enums={"mode": ["LONG", "SHORT"]}, extra=_perf)
add("PositiveVolumeIndex", "close volume", "pvi", need=lambda p: 2)
add("PriceAndVolumeTrend", "close volume", "pvt", need=lambda p: 2)
per("PriceChannel", HLC, "highest_high lowest_low", 5)


def _posc(p, rng):
    if p and p["short_ma"] >= p["long_ma"]:
        p["short_ma"], p["long_ma"] = p["long_ma"], p["short_ma"] + 1
    return p


add("PriceOscillator", "close", "posc", {"long_ma": 30, "short_ma": 10}, lambda p: p["long_ma"],
    ints=(("long_ma", 2), ("short_ma", 1)), extra=_posc)
per("PriceRateOfChange", "close", "prc", 25)
per("ProjectionBands", HLC, "upper_band lower_band", 14, lo=2)
per("ProjectionOscillator", HLC, "posc trigger_line", 14, lo=2)
per("Qstick", "open close", "qstick", 8)
add("RangeIndicator", HLCV, "ri", {"range_period": 5, "smoothing_period": 3},
    lambda p: max(p["range_period"], p["smoothing_period"]),
    ints=(("range_period", 1), ("smoothing_period", 1)))
add("RelativeMomentumIndex", "close", "rmi", {"period": 8, "momentum_period": 4},
    lambda p: p["period"] + p["momentum_period"], ints=(("period", 1), ("momentum_period", 1)))
per("RelativeStrengthIndex", "close", "rsi", 14, need=lambda p: p["period"] + 1)
per("RelativeVolatilityIndex", "high low", "rvi", 5, need=lambda p: p["period"] + 10)
per("StandardDeviation", "close", "sd", 20)
add("StochasticMomentumIndex", HLC, "smi",
    {"period": 5, "smoothing_period": 3, "double_smoothing_period": 3}, _p,
    ints=(("period", 1), ("smoothing_period", 1), ("double_smoothing_period", 1)))
add("StochasticOscillator", HLC, "%K %D",
    {"k_periods": 14, "k_slowing_periods": 1, "d_periods": 3, "d_method": "simple"},
    lambda p: p["k_periods"], ints=(("k_periods", 1), ("d_periods", 1)),
    enums={"k_slowing_periods": [1, 3], "d_method": ["simple", "exponential"]})
add("SwingIndex", "open high low close", "swi")
per("TimeSeriesForecast", "close", "tsf", 14, lo=2)
per("TripleExponentialMovingAverage", "close", "tema", 5)
per("TypicalPrice", HLC, "tp", 200, need=lambda p: 1)
add("UltimateOscillator", HLC, "uosc", need=lambda p: 28)
per("VerticalHorizontalFilter", "close", "vhf", 5)
add("VolatilityChaikins", "high low", "vch", {"ema_period": 10, "change_period": 10},
    lambda p: max(p["ema_period"], p["change_period"]), ints=(("ema_period", 1), ("change_period", 1)))


def _vosc(p, rng):
    if p and p["short_period"] >= p["long_period"]:
        p["short_period"], p["long_period"] = p["long_period"], p["short_period"] + 1
    return p


add("VolumeOscillator", "volume", "vosc", {"long_period": 5, "short_period": 2},
    lambda p: p["long_period"], ints=(("long_period", 2), ("short_period", 1)), extra=_vosc)
per("VolumeRateOfChange", "volume", "vrc", 5)
add("WeightedClose", HLC, "wc")
per("WildersSmoothing", "close", "ws", 5)
add("WilliamsAccumulationDistribution", HLC, "wad")
per("WilliamsR", HLC, "wr", 5)

NAMES = tuple(SPECS)

FAMILY = {
    "averages": ("MovingAverage", "DoubleExponentialMovingAverage", "TripleExponentialMovingAverage",
                 "WildersSmoothing", "MovingAverageConvergenceDivergence", "PriceOscillator",
                 "DetrendedPriceOscillator", "TypicalPrice", "WeightedClose", "MedianPrice"),
    "bands": ("BollingerBands", "Envelopes", "StandardDeviation", "PriceChannel", "IchimokuCloud",
              "FibonacciRetracement"),
    "regression": ("LinearRegressionSlope", "LinearRegressionIndicator", "TimeSeriesForecast",
                   "ForecastOscillator", "ProjectionBands", "ProjectionOscillator"),
    "momentum": ("ChandeMomentumOscillator", "RelativeStrengthIndex", "RelativeMomentumIndex",
                 "IntradayMomentumIndex", "Momentum", "PriceRateOfChange", "StochasticOscillator",
                 "StochasticMomentumIndex", "WilliamsR", "UltimateOscillator", "CommodityChannelIndex",
                 "VerticalHorizontalFilter", "Qstick", "RangeIndicator", "SwingIndex", "Performance"),
    "volume": ("AccumulationDistributionLine", "ChaikinOscillator", "ChaikinMoneyFlow",
               "EaseOfMovement", "KlingerOscillator", "MarketFacilitationIndex",
               "NegativeVolumeIndex", "PositiveVolumeIndex", "OnBalanceVolume",
               "PriceAndVolumeTrend", "VolumeOscillator", "VolumeRateOfChange"),
    "range": ("AverageTrueRange", "DirectionalMovementIndex", "ParabolicSAR", "MassIndex",
              "RelativeVolatilityIndex", "VolatilityChaikins", "WilliamsAccumulationDistribution"),
}
assert sorted(n for f in FAMILY.values() for n in f) == sorted(NAMES), "family partition"


def pick_n(rng, need, tier="quick", short=False):
    """Number of rows: the exact minimum, around the windows, and long histories."""
    u = rng.random()
    if u < 0.15:
        return need + int(rng.integers(0, 4))
    if u < 0.45:
        return need + int(rng.integers(4, 45))
    if u < 0.9 or short:
        return need + int(rng.integers(45, 160))
    return need + int(rng.integers(160, 420 if tier == "quick" else 1500))
