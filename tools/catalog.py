"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""
IND = "tti/indicators/"
BASE = IND + "_technical_indicator.py"
VAL = "tti/utils/data_validation.py"
SIM = "tti/utils/trading_simulation.py"
PRE = "tti/utils/data_preprocessing.py"
PLOT = "tti/utils/plot.py"
PROPS_PY = IND + "properties/indicators_properties.py"

SAMPLE = ("The tests compare a fixed set of sample files (one stock, one or a few parameter values each) "
          "with stored results")

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None,
                               **({"state": state} if state else {})),
                  technique=technique, note=note))


def ind(*names):
    return [IND + "_%s.py" % n for n in names]


CALC = "the indicator's calculated data returned to the caller (getTiData)"
REFTECH = ("runtime monitoring: reference-model oracle with tracked rounding-error bounds over generated market "
           "histories")
REFNOTE = ("Held on the executions generated for this seed. Trusts the reference formulas in ttimon/ref.py "
           "(written from the published definitions, window by window, without pandas) and its float error "
           "bounds; rows where float64 itself cannot decide (counted in evidence) are not judged.")

prop("F01", "Averages and aggregated prices equal their published formulas",
     "For every valid price history and every accepted parameter set, each value reported by the moving averages "
     "(simple, exponential, time-series, triangular, variable, double and triple exponential, Wilder's smoothing), "
     "MACD, Price Oscillator, Detrended Price Oscillator, Typical Price, Median Price and Weighted Close equals "
     "the indicator's definition applied to the input, up to rounding at four decimals. A value is missing "
     "exactly where the definition is undefined (the warm-up rows).",
     ["inputs", "configurations"],
     "all OHLCV histories (any length from the minimum, any price pattern incl. ties, flat stretches, gaps, very "
     "small and very large prices) x all accepted parameter values",
     SAMPLE + "; a defect that needs another window length, a tie, a flat stretch or a long history is invisible.",
     ind("moving_average", "double_exponential_moving_average", "triple_exponential_moving_average",
         "wilders_smoothing", "moving_average_convergence_divergence", "price_oscillator",
         "detrended_price_oscillator", "typical_price", "median_price", "weighted_close"),
     [("per-indicator calculation", "_calculateTi of each file")], [CALC], REFTECH, REFNOTE)
prop("F02", "Bands, channels and levels equal their published formulas",
     "For every valid price history and every accepted parameter set, Bollinger Bands, Envelopes, Standard "
     "Deviation, Price Channel, Ichimoku Cloud and Fibonacci Retracement report exactly the lines given by their "
     "definitions (window, shift, deviation multiple, displacement), up to rounding at four decimals. A value is "
     "missing exactly where the definition is undefined.",
     ["inputs", "configurations"], "all OHLCV histories x all accepted parameter values",
     SAMPLE + "; other window lengths, multiples, shifts and price patterns are never compared.",
     ind("bollinger_bands", "envelopes", "standard_deviation", "price_channel", "ichimoku_cloud",
         "fibonacci_retracement"),
     [("per-indicator calculation", "_calculateTi of each file")], [CALC], REFTECH, REFNOTE)
prop("F03", "Linear-regression indicators equal the least-squares line of their window",
     "For every valid price history and every accepted period, the Linear Regression Slope and Indicator, Time "
     "Series Forecast, Forecast Oscillator, Projection Bands and Projection Oscillator report the slope, end point "
     "and one-step forecast of the least-squares line through the last period prices, and the values derived "
     "from them, up to rounding. Rows before the first full window are missing.",
     ["inputs", "configurations"], "all OHLCV histories x all accepted periods",
     SAMPLE + "; recursively summed regressions can drift or misalign only for some lengths and periods.",
     ind("linear_regression_slope", "linear_regression_indicator", "time_series_forecast", "forecast_oscillator",
         "projection_bands", "projection_oscillator"),
     [("per-indicator calculation", "_calculateTi of each file")], [CALC], REFTECH, REFNOTE)
prop("F04", "Momentum indicators and oscillators equal their published formulas",
     "For every valid price history and every accepted parameter set, the momentum indicators and oscillators "
     "(Chande Momentum, RSI, Relative and Intraday Momentum, Momentum, Price Rate of Change, Stochastic, Stochastic "
     "Momentum, Williams %R, Ultimate Oscillator, CCI, Vertical Horizontal Filter, Qstick, Range Indicator, Swing "
     "Index, Performance) report the value of their definition on every row, up to rounding. A value is missing "
     "exactly where the definition is undefined, including windows without any price movement.",
     ["inputs", "configurations"], "all OHLCV histories x all accepted parameter values",
     SAMPLE + "; monotone runs, flat windows, ties and zero denominators hardly occur in it.",
     ind("chande_momentum_oscillator", "relative_strength_index", "relative_momentum_index",
         "intraday_momentum_index", "momentum", "price_rate_of_change", "stochastic_oscillator",
         "stochastic_momentum_index", "williams_r", "ultimate_oscillator", "commodity_channel_index",
         "vertical_horizontal_filter", "qstick", "range_indicator", "swing_index", "performance"),
     [("per-indicator calculation", "_calculateTi of each file")], [CALC], REFTECH, REFNOTE)
prop("F05", "Volume indicators equal their published formulas",
     "For every valid price and volume history and every accepted parameter set, Accumulation Distribution Line, "
     "Chaikin Oscillator and Money Flow, Ease of Movement, Klinger Oscillator, Market Facilitation Index, Negative "
     "and Positive Volume Index, On Balance Volume, Price and Volume Trend, Volume Oscillator and Volume Rate of "
     "Change report the value of their definition on every row, up to the documented rounding. A value is "
     "missing exactly where the definition is undefined (warm-up rows, bars without range or without volume).",
     ["inputs", "configurations"], "all OHLCV histories (incl. zero, constant, tied, huge and fractional volumes) x "
     "all accepted parameter values",
     SAMPLE + "; zero or tied volume, bars without range and long accumulations are not in it.",
     ind("accumulation_distribution_line", "chaikin_oscillator", "chaikin_money_flow", "ease_of_movement",
         "klinger_oscillator", "market_facilitation_index", "negative_volume_index", "positive_volume_index",
         "on_balance_volume", "price_and_volume_trend", "volume_oscillator", "volume_rate_of_change"),
     [("per-indicator calculation", "_calculateTi of each file")], [CALC], REFTECH, REFNOTE)
prop("F06", "Volatility and directional indicators equal their published formulas",
     "For every valid price history and every accepted parameter set, Average True Range, Directional Movement "
     "Index, Parabolic SAR, Mass Index, Relative Volatility Index, Chaikin's Volatility and Williams' "
     "Accumulation/Distribution report the value of their definition on every row, up to rounding, including "
     "across trend reversals and periods without movement. A value is missing exactly where the definition is "
     "undefined.",
     ["inputs", "configurations", "histories"], "all OHLCV histories x all accepted parameter values; state machines "
     "(reversals, acceleration, recursive smoothing) over any sequence of bars",
     SAMPLE + "; the SAR and directional state machines visit only the transitions of that one history.",
     ind("average_true_range", "directional_movement_index", "parabolic_sar", "mass_index",
         "relative_volatility_index", "volatility_chaikins", "williams_accumulation_distribution"),
     [("per-indicator calculation", "_calculateTi of each file")], [CALC], REFTECH, REFNOTE)

prop("D01", "The caller's data is never modified",
     "No use of the library - constructing any indicator, successfully or not, reading data, values, signals or "
     "graphs, running simulations, filling missing values - changes any DataFrame passed in by the caller: "
     "values, missing values, column labels and order, dtypes, index and its order all stay as they were. "
     "Modifying the caller's DataFrame afterwards does not change what an existing indicator reports. Filling missing "
     "values returns a DataFrame of its own: changing it leaves the caller's unchanged.",
     ["inputs", "histories"], "all input frames (any column order/case, gaps, extra columns, dtypes, unsorted) x all "
     "sequences of API calls, including calls that raise",
     "The tests never look at the input frame after a call (a column rename in place went unnoticed).",
     [VAL, PRE, BASE, SIM], [("copies before preprocessing", VAL + ": validateInputData"),
                             ("copy of the close values", SIM + ": __init__")],
     ["deep snapshots of the caller's frames before and after every call"],
     "runtime monitoring: deep-snapshot invariant monitor around every API call",
     "Held on the call sequences generated for this seed; snapshots compare values bit for bit.")
prop("D02", "Results do not depend on how the same data is presented",
     "The same market history gives the same indicator values, signal and simulation whatever the order of the "
     "rows, the order and letter case of the columns, the numeric types of the columns (integer or floating "
     "point) and whatever additional columns exist. Additional columns are ignored even if non numeric or with "
     "missing values.",
     ["inputs", "configurations"], "all histories x all row/column permutations, letter cases, numeric dtypes, sets "
     "of additional columns",
     "The tests feed one presentation per file; signals that read the first column by position passed them.",
     [VAL, BASE] + ind("average_true_range", "typical_price", "standard_deviation", "median_price"),
     [("lower-casing, column selection, sorting", VAL + ": validateInputData")],
     [CALC, "signals, simulation data of every presentation of one history"],
     "runtime monitoring: metamorphic twin-execution monitor (permuted presentation)",
     "Held on the presentations generated for this seed. Unique timestamps assumed. Bit-for-bit comparison, "
     "except one unit in the last reported decimal where the order of float additions may differ.")
prop("D03", "Calendar labels do not influence values; results keep the input's dates",
     "Relabelling the dates of a history, keeping the order (other calendars, weekends, intraday steps, irregular "
     "gaps, time zones, other years), leaves every indicator value, signal and simulation figure unchanged. "
     "Results are indexed by exactly the input's dates, ascending (a leading part of them for the Detrended "
     "Price Oscillator).",
     ["inputs", "configurations"], "all histories x all strictly increasing date labelings",
     "All sample files use one daily calendar without time zone.",
     [BASE, VAL, SIM], [("positional calculation on the sorted index", VAL)],
     [CALC, "signals, simulation data of relabelled twins"],
     "runtime monitoring: metamorphic twin-execution monitor (date relabelling)",
     "Held on the labelings generated for this seed; timestamps are unique.")
prop("D04", "Missing input values are carried forward, then backward",
     "With the default settings an indicator, its signal and its simulation (including gaps in the simulation's "
     "close prices) on data with missing values are the same as on the data in which each missing value is replaced "
     "by the previous known value of its column in date order, or, before the first known value, by the next one. "
     "The public fill function returns exactly that filled data, sorted by date.",
     ["inputs"], "all histories x all patterns of missing values (leading, trailing, long runs, single, different per "
     "column, unsorted rows)",
     "Three sample files with gaps are used for the fill function; indicators on gappy data are barely sampled.",
     [PRE, VAL, SIM], [("forward then backward fill", PRE + ": fillMissingValues")],
     [CALC, "signals, simulations, the public fill function"],
     "runtime monitoring: reference fill model + twin execution",
     "Held on the gap patterns generated for this seed; every column keeps at least one known value.")
prop("D05", "Invalid input data is rejected before anything is calculated",
     "Every indicator and the simulation reject data that is not a DataFrame, has no date index, is empty, lacks a "
     "required column or holds a required column that is not of a numeric type (text, dates, objects), with the "
     "documented error type, naming a missing column, and without side effects on the caller's data or on the "
     "indicator. Data holding exactly the required columns is accepted.",
     ["inputs", "configurations"], "all indicators x all required columns x all kinds of malformed input",
     "Tests check some malformed inputs per indicator with one representative each.",
     [VAL, "tti/utils/exceptions.py", PROPS_PY], [("validation", VAL + ": validateInputData"),
                                                  ("required columns table", PROPS_PY)],
     ["type of the raised error, state of the input"],
     "runtime monitoring: exception-contract monitor over generated malformed inputs",
     "Held on the malformed inputs generated for this seed.")
prop("D06", "Parameters are validated: unsupported ones rejected, supported ones used as given",
     "Every indicator rejects a parameter of a wrong type with the wrong-type error and a parameter outside its "
     "documented range, choice list or relation (for example short not below long) with the wrong-value error, and "
     "accepts every documented value and calculates with exactly that value; the error names the parameter. This holds independently of the other "
     "parameters' values and of the data.",
     ["configurations", "inputs"], "all indicators x parameters x boundary, far and wrong-typed values, in combination",
     "Tests use one wrong value and one wrong type per parameter.",
     [IND + "_*.py", "tti/utils/exceptions.py"], [("constructor checks", "__init__ of each indicator file")],
     ["type of the raised error, or the calculated values"],
     "runtime monitoring: exception-contract and value monitor over generated parameter sets",
     "Held on the parameter sets generated for this seed. bool-as-int, NaN and numpy scalars are left unspecified.")
prop("D07", "Exact minimum data length; above it every request succeeds",
     "Each indicator needs a documented minimum number of rows for its parameters: with fewer it raises the "
     "not-enough-data error stating the rows found, with exactly that many or more it works. Whenever construction succeeds, on any valid "
     "OHLCV data (flat, monotone, zero volume, ties, minimal length), reading data, value and signal and running the "
     "simulation complete without error.",
     ["inputs", "configurations", "histories"], "all indicators x parameters x data lengths around the minimum x "
     "degenerate price and volume patterns",
     "Tests probe the minimum for one or two parameter values and never run degenerate data.",
     [IND + "_*.py"], [("length guards", "_calculateTi and getTiSignal of each file")],
     ["raised errors, returned signal", CALC],
     "runtime monitoring: totality and threshold monitor under hostile data",
     "Held on the lengths, parameters and data patterns generated for this seed.")
prop("D08", "Results have the documented shape, names and precision; value lookup agrees",
     "Indicator data always has one row per input date (the Detrended Price Oscillator: period/2+1 fewer), the "
     "documented column names in order, numeric values rounded to the documented number of decimals, and no "
     "infinite value unless a zero divisor in the definition produces it. Looking up a date returns that row of "
     "the data, no date returns the last row, an unknown date returns none.",
     ["inputs", "configurations"], "all indicators x parameters x histories x looked-up dates",
     "Tests look up one or two dates of the sample.",
     [BASE, IND + "_*.py"], [("value lookup", BASE + ": getTiValue"), ("rounding", "_calculateTi of each file")],
     [CALC, "single value lookups"],
     "runtime monitoring: result-shape invariant monitor and lookup/data cross-check",
     "Held on the executions generated for this seed.")

prop("D09", "With filling switched off, gaps stay gaps and affect only what uses them",
     "With fill_missing_values=False nothing is filled or invented: data without gaps give exactly the answers of the "
     "default setting, and filling by hand first gives those of the default on the gappy data. On data with gaps, values "
     "dated before the first gap, and values of windowed indicators whose window holds no gap, are those of the complete "
     "data. A value computed from a missing price or volume - of its own date, or within the window of its averages, sums, "
     "ranges, deviations or regressions - is missing; exponential averages and running totals carry their last value on. "
     "Signals, values and simulations complete, and undefined data give hold.",
     ["inputs", "configurations"], "all indicators (also those calculated through other indicators) x all patterns of missing "
     "values x parameters",
     "The tests construct every indicator once with the flag and never give it gaps.",
     [VAL, BASE] + ind("time_series_forecast", "moving_average", "linear_regression_indicator", "projection_bands"),
     [("filling only on request", VAL + ": validateInputData"), ("nested indicators", "_calculateTi of composite indicators")],
     [CALC, "signals, simulations of gappy and complete twins"],
     "runtime monitoring: twin-execution monitor (complete vs gappy data), missing-value propagation monitor",
     "Held on the gap patterns generated for this seed. True ranges and extremes of partly missing bars and "
     "Wilder-style recursions over a gap are left unspecified.")

prop("V01", "No look-ahead: later rows never change earlier values",
     "For every indicator except the Detrended Price Oscillator and Fibonacci Retracement (which are defined with "
     "later prices), the values reported for a date depend only on the data up to that date: calculating on any "
     "prefix of the history gives the same values for the prefix, and changing or appending later rows changes "
     "nothing before them.",
     ["inputs", "histories"], "all histories x all cut points x all continuations",
     "Tests calculate each history once, over its whole length.",
     [IND + "_*.py"], [("causal windows", "_calculateTi of each file")],
     [CALC + " for prefixes and for altered futures"],
     "runtime monitoring: prefix-consistency monitor (twin executions)",
     "Held on the histories and cut points generated for this seed; equality up to one unit of the last reported "
     "decimal and to float cancellation noise.")
prop("V02", "Units do not matter: rescaling prices or volume rescales results accordingly",
     "Multiplying all prices by a constant multiplies price-valued results (averages, bands, ranges) by it and "
     "leaves dimensionless ones (percentages, oscillators, ratios) unchanged; multiplying volume by a constant acts "
     "likewise on volume-valued results. Signals do not change: the rules compare the data and prices with each other or "
     "with levels of dimensionless data, so for data and input in other units each day's signal is the same.",
     ["inputs", "configurations"], "all histories x all positive scale factors that keep the reported decimals "
     "significant",
     "Tests contain one price level.", [IND + "_*.py"],
     [("homogeneous formulas", "_calculateTi of each file")], [CALC + " of scaled twins"],
     "runtime monitoring: metamorphic twin-execution monitor (change of units)",
     "Held on the histories and factors (powers of two, so that float products are exact) generated for this seed.")
prop("V03", "Bounded indicators stay in range and bands keep their order",
     "On valid bars (low <= open, close <= high; non negative volume) every bounded oscillator stays within its "
     "documented range (up to rounding), averages stay within the range of the prices they average, volatility measures are never "
     "negative, and lower lines never exceed upper lines.",
     ["inputs", "configurations"], "all valid histories x accepted parameters",
     "Tests compare stored numbers only; no range is asserted on other data.",
     [IND + "_*.py"], [("normalization in the formulas", "_calculateTi of each file")], [CALC],
     "runtime monitoring: online range and ordering invariants",
     "Held on the executions generated for this seed; slack is one unit of the last decimal plus float noise.")
prop("V04", "Indicators defined through one another agree",
     "Where one indicator is defined by another, both report consistent values on the same data: the forecast is the "
     "regression value plus the slope, the Bollinger middle band is the simple moving average and its width the "
     "standard deviation, envelopes are shifted averages, oscillators of averages are differences of these averages, "
     "Chaikin's Oscillator derives from the accumulation line, and so on.",
     ["inputs", "configurations"], "all histories x all accepted shared parameters",
     "Each test looks at one indicator alone.", [IND + "_*.py"],
     [("nested indicators", "_calculateTi of the composed indicators")], [CALC + " of several indicators"],
     "runtime monitoring: cross-indicator consistency monitor",
     "Held on the histories generated for this seed; tolerance is the rounding of both sides.")
prop("V05", "Windowed indicators depend only on their look-back window",
     "Indicators defined on a window of the last rows report, once the window is full, the same value whatever "
     "happened before the window: history preceding it can be cut off or replaced without changing the value. In "
     "particular an undefined or extreme stretch stops having an effect once it left the window.",
     ["inputs", "histories"], "all histories x all replaced or removed pasts x accepted periods",
     "Tests never compare two different pasts.", [IND + "_*.py"],
     [("rolling windows", "_calculateTi of each file")], [CALC + " of twins with different pasts"],
     "runtime monitoring: suffix-consistency monitor (twin executions)",
     "Held on the histories generated for this seed; equality up to rounding and float cancellation noise.")

RULE = ("runtime monitoring: reference signal rules evaluated on the observed data (all rows of a history, via "
        "simulation and fresh instances)")
RULENOTE = ("Held on the executions generated for this seed. Trusts ttimon/refsig.py, written from the "
            "documented rules; float-ambiguous comparisons accept either outcome and are counted.")
prop("S01", "Price-following indicators signal exactly by their documented rule",
     "The trading signal of every average, aggregated price, band, channel, level, regression, volatility and directional "
     "indicator (moving averages, MACD, Price and Detrended Price Oscillator, Typical/Median/Weighted price, Bollinger, "
     "Envelopes, Standard Deviation, Price Channel, Ichimoku, Fibonacci, the linear regression, forecast and projection "
     "indicators, ATR, DMI, Parabolic SAR, Mass Index, RVI, Chaikin's Volatility, Williams' A/D) is always exactly the buy, sell or hold prescribed by its documented rule for the most recent rows of its data and "
     "prices. Touching a threshold without crossing it is not a crossing.",
     ["inputs", "histories"], "all histories ending anywhere relative to the rule's thresholds (crossings, touches, "
     "reversals, too little data) x accepted parameters",
     SAMPLE + " and check a few end dates per rule branch.",
     ind("moving_average", "bollinger_bands", "envelopes", "price_channel", "ichimoku_cloud",
         "fibonacci_retracement", "parabolic_sar", "mass_index", "directional_movement_index"),
     [("signal rules", "getTiSignal of each file")], ["the returned signal (getTiSignal)", "daily signals of simulations"],
     RULE, RULENOTE)
prop("S02", "Oscillator and volume indicators signal exactly by their documented rule",
     "The trading signal of every momentum, oscillator and volume indicator (RSI, Chande, Relative and Intraday Momentum, "
     "Momentum, rates of change, Stochastic, Williams %R, Ultimate Oscillator, CCI, VHF, Qstick, Range and Swing Index, "
     "Performance, and all indicators using volume) is always exactly the buy, sell or hold "
     "prescribed by its documented rule for the most recent rows of its data and prices. Touching a threshold "
     "without crossing it is not a crossing.",
     ["inputs", "histories"], "all histories ending anywhere relative to the rule's thresholds x accepted parameters",
     SAMPLE + " and check a few end dates per rule branch.",
     ind("relative_strength_index", "stochastic_oscillator", "williams_r", "ultimate_oscillator", "range_indicator",
         "chaikin_oscillator", "on_balance_volume", "momentum", "vertical_horizontal_filter"),
     [("signal rules", "getTiSignal of each file")], ["the returned signal (getTiSignal)", "daily signals of simulations"],
     RULE, RULENOTE)
prop("S03", "No trade is recommended from undefined data",
     "The signal is always one of the three documented buy, hold and sell values, and it is hold whenever the "
     "values that the rule would need are not available: warm-up rows, windows without movement or volume, history "
     "shorter than the rule looks back.",
     ["inputs", "histories"], "all histories and prefixes, in particular warm-up and degenerate ones, x accepted "
     "parameters",
     "Tests check too-short data for one length per indicator.",
     [IND + "_*.py"], [("not-enough-data guards and comparisons with missing values", "getTiSignal of each file")],
     ["the returned signal and the rows it is derived from"],
     "runtime monitoring: undefined-input signal monitor", RULENOTE)
prop("S04", "Queries are read-only: any order and number of calls gives the same answers",
     "Reading an indicator's data, values, signal, graph or simulation never changes what any later query of the "
     "same or of another indicator returns: any interleaving of queries, repeated any number of times, returns the "
     "same answers as each query alone on a fresh indicator; so are the signals which a simulation asks for day by day.",
     ["histories"], "all sequences of queries on one or several indicators, including simulations and failing calls",
     "Tests make each query once, on a fresh object.", [BASE, IND + "_*.py"],
     [("state restoration after a simulation", BASE + ": getTiSimulation"),
      ("queries without assignment", "getTiSignal / getTiGraph")],
     ["answers of random query histories against those of fresh indicators"],
     "runtime monitoring: history checker against a stateless model",
     "Held on the query histories generated for this seed. Callers do not modify returned frames.")

prop("T01", "The trading simulation is an exact ledger of its trading rules",
     "On every day of a simulation first each open position that has become profitable is closed (a long if its price "
     "was below today's, a short if above), then a buy opens one long and a sell one short unless that would exceed "
     "the maximum exposure; the first day never trades. The reported action, stock value, exposure, "
     "portfolio value, earnings and balance of every day equal those of that ledger.",
     ["histories", "inputs", "configurations"], "all price histories x signal histories x exposure limits x short "
     "factors",
     "Tests compare one stored simulation per indicator, mostly without a limit.",
     [SIM, BASE], [("closing and opening of positions", SIM + ": runSimulationRound")],
     ["daily record returned by the simulation (getTiSimulation)"],
     "runtime monitoring: offline ledger checker (executable sequential model)",
     "Held on the simulations generated for this seed, both from real signals and from scripted signal histories. "
     "Float-tie comparisons (limit or closing price equal up to rounding) are avoided by exact (dyadic) "
     "data or accepted either way.",
     state=[dict(name="portfolio", meaning="open/closed positions with their entry exposure", where=SIM)])
prop("T02", "Simulation statistics summarise exactly the daily record",
     "The statistics returned by a simulation are exactly derivable from its daily record: number of days, buy and "
     "sell signals, ignored ones (signals that opened nothing), and the final stock value, exposure, open long and "
     "short positions, portfolio value, earnings and balance, rounded to two decimals.",
     ["histories", "inputs", "configurations"], "all simulations of all indicators",
     "Tests compare one stored dictionary per indicator.", [SIM],
     [("statistics", SIM + ": _calculateSimulationStatistics")],
     ["statistics and daily record returned by the simulation"],
     "runtime monitoring: cross-check of summary and event record", "Held on the simulations generated for this seed.")
prop("T03", "A simulation only uses information available on each simulated day",
     "On each simulated day the signal is the one a fresh indicator would give on the data up to that day, and "
     "changing prices or data after a day leaves all daily records up to that day unchanged. (Except "
     "for the Detrended Price Oscillator and Fibonacci Retracement, which use the whole period.)",
     ["histories", "inputs"], "all simulations x all days x all continuations",
     "Tests run one simulation per indicator over the whole period.", [BASE, SIM] + ind("vertical_horizontal_filter"),
     [("data limited to the simulated day", BASE + ": getTiSimulation")],
     ["daily signals against fresh indicators on prefixes; records against altered futures"],
     "runtime monitoring: prefix-consistency monitor over simulations", "Held on the simulations generated for this seed.")
prop("T04", "Simulation arguments are validated and close prices aligned by date",
     "A simulation rejects close prices that are malformed or whose dates differ from the indicator's, a maximum "
     "exposure that is not positive and a short factor below one, each with the documented error and without "
     "changing the indicator. Close prices may come in any row order, letter case, with additional columns or "
     "gaps; they are matched by date.",
     ["inputs", "configurations"], "all malformed and all equivalent presentations of the simulation's arguments",
     "Tests use one wrong value per argument, on one indicator.", [SIM, VAL],
     [("argument validation", SIM + ": _validateSimulationArguments")], ["raised errors; simulation results"],
     "runtime monitoring: exception-contract and twin-execution monitor", "Held on the arguments generated for this seed.")
prop("T05", "An interrupted simulation leaves the indicator intact",
     "Whatever interrupts a simulation - an error on any day, a keyboard interrupt at any point, rejected "
     "arguments - afterwards the indicator reports the same data, value and signal as before, and a "
     "repeated simulation gives the full, undisturbed result. The same holds after completed simulations.",
     ["fault_sequences", "crash_points", "histories"], "all interruption points during a simulation, repeated "
     "interruptions, all indicators",
     "No test interrupts a simulation (interruption used to leave truncated data behind).",
     [BASE, SIM], [("restoration in finally", BASE + ": getTiSimulation")],
     ["indicator answers after injected faults"],
     "runtime monitoring: fault injection (exceptions at chosen days and at traced call points) with a state oracle",
     "Faults are injected at days (signal evaluation raises) and at call boundaries inside the library during the "
     "simulation; held on the points tried.")
prop("T06", "Exposure is conserved and never exceeds the allowed maximum",
     "During every simulation, with a maximum exposure given, opening a position never brings the exposure above it; "
     "at all times exposure equals the sum committed to the still open positions, earnings never decrease, and "
     "balance is portfolio value plus earnings. Without a limit no signal after the first day is ignored.",
     ["histories", "configurations", "inputs"], "all simulations x exposure limits (tiny, tight, loose, none) x short "
     "factors",
     "Tests run with one limit on one history.", [SIM],
     [("exposure check before opening", SIM + ": _processSignal"), ("release on close", SIM + ": _closeOpenPositions")],
     ["daily record of the simulation"],
     "runtime monitoring: conservation and safety invariants over the recorded event log",
     "Held on the simulations generated for this seed; invariants are evaluated from the record alone, "
     "independently of the ledger model of T01.")

prop("T07", "A simulator driven round by round reports the rounds run so far",
     "The simulator behind the trading simulation can be driven directly: after any number of rounds, also none and also "
     "all, its results hold exactly the ledger rows of those rounds (the other days empty) and the statistics of those "
     "rounds. Reading the results in between, repeatedly, or running several simulators at the same time changes nothing; "
     "the given close prices are neither changed nor used after construction.",
     ["histories", "configurations", "inputs"], "all numbers of rounds x signal histories x interleavings of simulators and "
     "reads x limits and short factors",
     "Tests step a few rounds with fixed prices and look at single cells.", [SIM],
     [("rounds", SIM + ": runSimulationRound"), ("statistics of executed rounds", SIM + ": _calculateSimulationStatistics"),
      ("own copy of the prices", SIM + ": __init__")],
     ["record and statistics after chosen numbers of rounds"],
     "runtime monitoring: reference-ledger checker on interleaved, partially run simulators",
     "Held on the histories generated for this seed; rounds are run in order, each once.")

prop("G01", "Graphs show exactly the calculated data",
     "The graph of an indicator contains one line per documented input column and per indicator column, labelled with "
     "its name, in the documented panel, whose points are exactly the dates and values of the data; shaded areas "
     "span exactly the documented lines or levels. Drawing a graph does not depend on previously drawn graphs.",
     ["inputs", "configurations", "histories"], "all indicators x parameters x histories x sequences of graphs",
     "Tests only check that a graph object is produced.", [PLOT, BASE, PROPS_PY],
     [("line drawing", PLOT + ": linesGraph"), ("graph table", PROPS_PY)],
     ["lines, labels and areas of the produced figure"],
     "runtime monitoring: oracle over the drawn artists", "Held on the graphs drawn for this seed (Agg backend).")
prop("G02", "The simulation graph shows exactly the simulation record",
     "The graph returned with a simulation has three panels showing, over the consecutive transactions, exactly the "
     "stock value, the exposure and the balance of that simulation's daily record, whatever was drawn before.",
     ["inputs", "histories"], "all simulations, sequences of simulations and graphs",
     "Tests only check that a graph object is produced.", [BASE],
     [("simulation graph", BASE + ": _getSimulationGraph")], ["lines and labels of the produced figure"],
     "runtime monitoring: oracle over the drawn artists", "Held on the simulations drawn for this seed (Agg backend).")

prop("C01", "Indicators are independent of each other and of earlier use",
     "What an indicator reports depends only on its own data and parameters: not on which indicators, with which "
     "data, parameters or failures, were created or used before or in between in the same process, and a new "
     "process gives the identical result.",
     ["histories", "programs"], "all interleavings of creating and using several indicators, across processes",
     "Each test builds objects in a fixed order in one process.", [BASE, PROPS_PY, IND + "_*.py", VAL],
     [("no state shared between instances", BASE)], ["answers in interleaved programs vs. isolated executions"],
     "runtime monitoring: differential history checker (interleaved vs isolated, fresh process digests)",
     "Held on the programs generated for this seed.")
prop("C02", "Indicators can be calculated concurrently on shared input",
     "Creating different indicators and reading their data and signals from several threads at once, on the same "
     "input DataFrame, gives for every thread exactly the sequential result and leaves the shared DataFrame "
     "unchanged.",
     ["schedules", "inputs"], "all thread schedules of independent indicator calculations over shared input",
     "No test uses threads.", [BASE, VAL, IND + "_*.py"],
     [("no shared mutable state; inputs are copied", VAL)], ["per-thread answers vs sequential answers"],
     "runtime monitoring: concurrent stress with forced thread switching, compared to the sequential oracle",
     "Held on the schedules produced by 8 threads with a 1-50 microsecond switch interval. pyplot drawing, which is not "
     "thread safe by itself, is left out.")

prop("C03", "Using the library leaves the process as it was and lets go of dropped data",
     "Creating indicators, reading results, drawing graphs, simulating, filling missing values and failing or interrupted "
     "calls change nothing outside the library: settings of matplotlib, pandas and numpy, random generators, warning "
     "filters, environment, working directory, files, open descriptors, threads, output streams stay as they were, and "
     "nothing is printed. Each graph and each finished simulation opens exactly one new figure; no other call opens or "
     "closes one, and figures of the caller are not touched. Indicators, records and input data the caller has dropped "
     "are not kept alive.",
     ["histories", "resources"], "all sequences of API calls, including failing and interrupted ones",
     "Tests never look at the process around a call.", [BASE, PLOT, VAL, SIM, IND + "_*.py"],
     [("figures", PLOT + ": linesGraph"), ("simulation figure", BASE + ": _getSimulationGraph"), ("restoration", BASE + ": getTiSimulation")],
     ["settings, figures, files, output and live objects after every call"],
     "runtime monitoring: process-state and object-lifetime monitor around every API call",
     "Held on the call sequences generated for this seed, after a first use which may import modules and fill caches.")
