#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
IND = "tti/indicators/"
TI = IND + "_technical_indicator.py"
SIM = "tti/utils/trading_simulation.py"
VAL = "tti/utils/data_validation.py"
PRE = "tti/utils/data_preprocessing.py"
PLOT = "tti/utils/plot.py"
PROPS = IND + "properties/indicators_properties.py"
BASE_CSV = ("The tests compare each indicator once, with one parameter set, on one recorded price series "
            "(tests/data/sample_data.csv)")

AVG = ["_moving_average.py", "_double_exponential_moving_average.py", "_triple_exponential_moving_average.py",
       "_wilders_smoothing.py", "_bollinger_bands.py", "_envelopes.py", "_standard_deviation.py", "_price_channel.py",
       "_projection_bands.py", "_linear_regression_indicator.py", "_linear_regression_slope.py",
       "_time_series_forecast.py", "_fibonacci_retracement.py", "_ichimoku_cloud.py", "_parabolic_sar.py",
       "_median_price.py", "_typical_price.py", "_weighted_close.py", "_average_true_range.py"]
OSC = ["_chande_momentum_oscillator.py", "_commodity_channel_index.py", "_detrended_price_oscillator.py",
       "_directional_movement_index.py", "_forecast_oscillator.py", "_intraday_momentum_index.py",
       "_moving_average_convergence_divergence.py", "_mass_index.py", "_momentum.py", "_performance.py",
       "_price_oscillator.py", "_price_rate_of_change.py", "_projection_oscillator.py", "_qstick.py",
       "_range_indicator.py", "_relative_momentum_index.py", "_relative_strength_index.py",
       "_relative_volatility_index.py", "_stochastic_momentum_index.py", "_stochastic_oscillator.py",
       "_swing_index.py", "_ultimate_oscillator.py", "_vertical_horizontal_filter.py", "_volatility_chaikins.py",
       "_williams_r.py"]
VOL = ["_accumulation_distribution_line.py", "_chaikin_money_flow.py", "_chaikin_oscillator.py",
       "_ease_of_movement.py", "_klinger_oscillator.py", "_market_facilitation_index.py", "_negative_volume_index.py",
       "_on_balance_volume.py", "_positive_volume_index.py", "_price_and_volume_trend.py", "_volume_oscillator.py",
       "_volume_rate_of_change.py", "_williams_accumulation_distribution.py"]
f = lambda xs: [IND + x for x in xs]

P = []
def add(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

LEDGER_STATE = [("portfolio", "one row per day: side, open/closed, booked exposure", SIM + " TradingSimulation._portfolio"),
                ("simulation table", "signal, action, stock value, exposure, portfolio value, earnings, balance per day",
                 SIM + " TradingSimulation._simulation_data")]

add("C01", "The trading simulation keeps an exact ledger of every position",
    "On every day after the first a simulation first closes exactly the open positions that are in profit at that day's close (long: bought below it; short: sold above it), books their profit as earnings and releases the exposure they carried, then opens one long on buy (exposure: the price) or one short on sell (exposure: factor times the price) unless that would push total exposure above the limit, in which case the signal is ignored. "
    "Portfolio value is the close times (open longs minus open shorts), balance is earnings plus portfolio value, and the first day opens nothing. "
    "The final statistics are exactly the counts and last-day amounts (to 2 decimals) implied by that table.",
    ["histories", "inputs", "configurations"],
    "for every price history, every sequence of buy/sell/hold signals, every exposure limit (or none) and every short exposure factor >= 1",
    "The tests replay one recorded portfolio of ten rounds; which positions coexist, tie in price, hit the limit exactly or close together depends on the whole price x signal history and limit/factor combination.",
    [SIM, TI], [("close profitable positions, then process the signal", SIM + " runSimulationRound/_closeOpenPositions/_processSignal"),
                ("statistics", SIM + " _calculateSimulationStatistics")], LEDGER_STATE,
    ["simulation table and statistics returned when the simulation is closed", "indicator-level simulation call"])

add("C02", "Published values and trading decisions never depend on the future",
    "For complete input data, the values an indicator reports for a date, and everything its simulation records up to that date, depend only on the bars up to that date: appending any further bars changes none of them. "
    "The two indicators that are defined over later bars (Fibonacci retracement over the whole period, detrended price oscillator over a centred window) are outside this guarantee.",
    ["histories", "inputs"],
    "for every indicator, every parameter choice, every history and every continuation of it, including flat bars, zero volume and extreme moves",
    BASE_CSV + "; they never compute the same indicator on a prefix or on two different continuations, so leakage of later bars into earlier rows is invisible to them.",
    f(AVG + OSC + VOL) + [TI, SIM], [("trailing windows and recursions only", IND + "_*.py _calculateTi"),
                                     ("per-round truncation of input and indicator data", TI + " getTiSimulation")],
    observe=["indicator table", "simulation table"])

add("C03", "Asking an indicator questions never changes its answers",
    "Whatever sequence of calls (table, value, signal, graph, simulation) is made on an indicator object, each call answers exactly what a freshly built object with the same inputs would answer. "
    "This also holds after a simulation that was rejected because of bad arguments or aborted part-way by an error or interrupt.",
    ["histories", "crash_points", "fault_sequences"],
    "for every indicator, every order and repetition of calls, and an abort at any point inside a simulation",
    "Tests call each method once on a fresh object and never abort a simulation, so call order, repetition and abort points are not explored.",
    [TI, SIM] + f(["_mass_index.py", "_median_price.py"]),
    [("simulation works on a truncated view of the object's data", TI + " getTiSimulation"),
     ("queries only read", TI + " getTiData/getTiValue/getTiGraph")],
    [("input data / indicator data", "the prepared bars and the computed table every query reads", TI + " TechnicalIndicator._input_data/_ti_data")],
    ["all public query methods"])

add("C04", "Caller data is never modified and results are isolated from the caller",
    "Building an indicator, querying it, simulating with it or validating/filling data never modifies the tables the caller passed in: values, row order, column labels and types stay as they were, also when the call is rejected. "
    "Later changes the caller makes to those tables, or to tables a query returned, do not change what the indicator answers.",
    ["inputs", "histories"],
    "for every indicator, every input form (unsorted, mixed-case labels, extra columns, missing values, integer columns) and every call, successful or rejected",
    "Tests pass throw-away frames with lower-case sorted columns and do not compare them afterwards.",
    [VAL, PRE, TI, SIM], [("copy on sort/fill/drop", VAL + " validateInputData"), ("copy on fill", PRE + " fillMissingValues"),
                          ("returned table", TI + " getTiData")],
    observe=["caller's data frames before and after each call"])

add("C05", "Equivalent input representations give identical results",
    "The same bars give the same values, signals and simulation however they are presented: rows in any order, columns in any order, labels in any letter case, additional columns present or not, and whole-number columns stored as integers (of any width, signed or unsigned) or floats. "
    "Only the order of the (distinct) dates matters, not their spacing, time of day or time zone.",
    ["inputs", "configurations"],
    "for every indicator and every permutation, relabelling and storage type of the same bars",
    "Tests use one lower-case, sorted float/int64 frame whose columns are in one fixed order.",
    [VAL, PRE, SIM] + f(["_average_true_range.py", "_typical_price.py", "_stochastic_oscillator.py", "_on_balance_volume.py"]),
    [("lower-casing, column selection, sorting", VAL + " validateInputData")],
    observe=["indicator table", "signal", "simulation table"])

add("C06", "Missing values are filled forward, then backward, and only then",
    "With filling on, each missing cell takes the most recent earlier value of its own column in date order, or the earliest later one when none exists; present cells, dates and columns are unchanged, filling twice changes nothing more, and an indicator on gappy data equals the indicator on the filled data. "
    "With filling off, rows dated before the first missing cell get the same values as on complete data (for indicators defined on past bars only).",
    ["inputs"],
    "for every pattern of missing cells (any column, leading, trailing, isolated, runs, whole column) in sorted or unsorted data, for every indicator",
    "Tests use one recorded file with a handful of gaps and only look at the prepared input.",
    [PRE, VAL, TI], [("ffill then bfill after sorting", PRE + " fillMissingValues"), ("fill switch", VAL + " validateInputData")],
    observe=["filled table", "indicator table"])

add("C07", "Averages, bands and price-level indicators match their definitions",
    "Every moving average (simple, exponential, time series, triangular, variable), double/triple exponential average, Wilder smoothing and true-range average, regression line, slope and forecast, band, channel, envelope, standard deviation, retracement, Ichimoku line, parabolic SAR and median/typical/weighted price equals its documented formula on every row, to the published 4 decimals, and is missing exactly on its warm-up rows.",
    ["inputs", "histories", "configurations"],
    "for every valid bar series (rising, falling, flat, gapping, tied) and every supported parameter value",
    BASE_CSV + ": ties, flat bars, gaps, period 1/2, window boundaries and every other parameter value are unreached.",
    f(AVG), [("calculation", IND + "_*.py _calculateTi")], observe=["indicator table"])

add("C08", "Momentum and oscillator indicators match their definitions",
    "Every momentum, rate-of-change, strength, stochastic, directional, swing, volatility and other oscillator indicator equals its documented formula on every row, to the published decimals, including the smoothing seeds and recursions, and is missing exactly where the formula is undefined (warm-up rows, 0/0).",
    ["inputs", "histories", "configurations"],
    "for every valid bar series (one-way moves, flat stretches, zero ranges, reversals, gaps) and every supported parameter value",
    BASE_CSV + ", which contains no one-way or flat window; seeds, ties, zero denominators and other parameters are unreached.",
    f(OSC), [("calculation", IND + "_*.py _calculateTi")], observe=["indicator table"])

add("C09", "Volume and accumulation indicators match their definitions",
    "Every indicator that combines price with volume (accumulation/distribution, money flow, Chaikin and Klinger oscillators, ease of movement, facilitation, negative/positive volume index, on-balance volume, price-volume trend, volume oscillator and rate of change) and Williams accumulation equals its documented formula on every row, including equal-volume and zero-volume days, unchanged closes and zero-range bars.",
    ["inputs", "histories", "configurations"],
    "for every valid bar series with any pattern of rising, equal and zero volume, and every supported parameter value",
    BASE_CSV + "; equal consecutive volumes, zero volume and zero-range bars hardly occur there, and cumulative lines are only compared on that one history.",
    f(VOL), [("calculation", IND + "_*.py _calculateTi")],
    [("cumulative line", "running total over the whole history", IND + "_accumulation_distribution_line.py, _on_balance_volume.py, _price_and_volume_trend.py")],
    ["indicator table"])

SIGQ = "for every history of bars and indicator values, including exact ties with a threshold, repeated crossings, warm-up rows and missing values"
SIGW = "Tests only check that some valid signal comes back for the recorded series; the rule behind it is not asserted for any row."
add("C10", "Signals of averages, bands and price-level indicators follow their rule",
    "The signal of each average, band, channel, regression and price-level indicator is exactly the one its documented rule yields from the indicator's own published values and the bars: price against average or band, or a strict crossing between the last two rows. Equality is not a crossing, and when the needed history is missing the answer is hold; the answer is always one of the three defined signals.",
    ["inputs", "histories"], SIGQ, SIGW, f(AVG), [("signal rule", IND + "_*.py getTiSignal")], observe=["signal call", "signal column of a simulation"])
add("C11", "Signals of momentum and oscillator indicators follow their rule",
    "The signal of each momentum or oscillator indicator is exactly the one its documented rule yields from the indicator's own published values and the bars: strict crossing of its threshold, zero or signal line, overbought/oversold re-entry, reversal bulge, divergence or trend of the last rows. Equality is not a crossing, and when the needed history is missing the answer is hold; the answer is always one of the three defined signals.",
    ["inputs", "histories"], SIGQ, SIGW, f(OSC), [("signal rule", IND + "_*.py getTiSignal")], observe=["signal call", "signal column of a simulation"])
add("C12", "Signals of volume indicators follow their rule",
    "The signal of each volume-based indicator is exactly the one its documented rule yields from the indicator's own published values and the bars: crossings of zero or of a long average, strictly monotone last rows, or divergence between price and indicator. Equality is never a trend or a crossing, and when the needed history is missing the answer is hold; the answer is always one of the three defined signals.",
    ["inputs", "histories"], SIGQ, SIGW, f(VOL), [("signal rule", IND + "_*.py getTiSignal")], observe=["signal call", "signal column of a simulation"])

add("C13", "Bounded indicators stay in range and bands stay ordered",
    "On valid bars every published value lies in its mathematical range: strength, stochastic, projection, range, ultimate, directional, intraday and volatility indices in [0,100], Williams %R in [-100,0], Chande, swing and stochastic-momentum in [-100,100], money flow in [-1,1], ranges and deviations never negative. "
    "Lower band <= middle <= upper band, retracement levels descend from the period's highest to its lowest close, and simple, exponential, triangular, variable and Wilder averages and the SAR lie between the lowest and highest price they cover (double/triple exponential and regression values may overshoot).",
    ["inputs", "configurations"],
    "for every valid bar series and every supported parameter value, in particular extreme jumps, flat stretches and one-way moves",
    BASE_CSV + ", which never drives an indicator to the end of its range.",
    f(["_relative_strength_index.py", "_stochastic_oscillator.py", "_williams_r.py", "_bollinger_bands.py", "_projection_bands.py", "_swing_index.py", "_parabolic_sar.py", "_chaikin_money_flow.py"]),
    [("calculation", IND + "_*.py _calculateTi")], observe=["indicator table"])

add("C14", "Enough data always works, too little is always refused, output shape is fixed",
    "An indicator needs a fixed minimum number of bars given its parameters: with fewer it refuses with the not-enough-data error naming that minimum, with that many or more it builds, and every query and simulation completes without an unexpected error. "
    "The table has exactly the documented numeric columns and one row per input date in ascending order (the detrended oscillator omits the last half-window).",
    ["inputs", "configurations"],
    "for every indicator, every supported parameter value and every number of bars around the minimum, on ordinary, flat, one-way and zero-volume data",
    "Tests check one too-short input per indicator and never run signals or simulations at the minimum length or on degenerate bars.",
    f(AVG + OSC + VOL) + [TI, "tti/utils/exceptions.py"], [("minimum data check", IND + "_*.py _calculateTi"), ("not enough data for a signal", IND + "_*.py getTiSignal")],
    observe=["constructor", "indicator table", "signal", "simulation"])

add("C15", "Indicator parameters are accepted or rejected exactly as documented",
    "A constructor accepts every combination of parameter values inside the documented types and ranges, and rejects every other one with the wrong-type error (type outside the documented ones) or the wrong-value error (value or combination of values not supported) that names the parameter at fault and the offending value or type, never with anything else and never silently.",
    ["configurations"],
    "for every indicator and every combination of parameter values around each documented bound, and of wrong types in any position",
    "Tests try a few bad values one parameter at a time; combinations, the boundary values themselves and acceptance of all legal values are not covered.",
    f(["_moving_average.py", "_envelopes.py", "_stochastic_oscillator.py", "_performance.py", "_price_oscillator.py", "_volume_oscillator.py", "_bollinger_bands.py"]) + [TI],
    [("parameter checks", IND + "_*.py __init__")], observe=["constructor outcome"])

add("C16", "Malformed input tables are always refused with the documented error",
    "Input that is not a table is refused with the wrong-type error, a table not indexed by dates with TypeError, an empty table or one lacking a required column, holding it more than once (letter case aside) or holding a non-numeric required column with ValueError; nothing else about a table with distinct dates causes a refusal (extra columns of any type, gaps, row order, letter case, nullable and sparse numeric columns are accepted). "
    "On acceptance the prepared table holds exactly the required columns in ascending date order.",
    ["inputs"],
    "for every indicator, every subset of required columns missing or non-numeric, every index type, and every combination of these faults",
    "Tests drop one column at a time and use one non-numeric frame; combinations and the accepting side are not covered.",
    [VAL, PROPS, TI], [("input validation", VAL + " validateInputData"), ("required columns per indicator", PROPS)],
    observe=["constructor outcome", "validation function"])

add("C17", "A value lookup returns exactly the published row, or nothing",
    "Asking for the value at a date returns, as a list in column order, exactly the row the indicator's table holds for that date, whichever accepted date form is used; without a date it returns the last row; for a date that is not in the table, or something that is not a date, it returns nothing instead of failing or answering for another date.",
    ["inputs"],
    "for every indicator, every date inside, between, before and after the data, every accepted date form, daily and intraday indexes, and invalid arguments",
    "Tests look up two dates of the recorded series.",
    [TI], [("lookup", TI + " getTiValue")], observe=["value call against the table"])

add("C18", "Graphs draw exactly the data",
    "An indicator's graph contains one line per documented input column and per indicator column, labelled with its name and drawn through exactly the published values at exactly their dates, on one plot or on a price plot above an indicator plot as documented, and shaded areas are bounded by the documented series. "
    "A simulation's graph draws exactly the stock value, exposure and balance columns of its result.",
    ["inputs", "configurations"],
    "for every indicator and parameter choice, including data with gaps at the start, and every layout (one or two plots, colours, transparency and areas)",
    "Tests only save the figure to a file and never inspect what is drawn.",
    [PLOT, TI, PROPS], [("plotting", PLOT + " linesGraph"), ("what is plotted", TI + " getTiGraph/_getSimulationGraph")],
    observe=["lines and filled areas of the figure"])

add("C19", "Indicator objects are independent of each other, also across threads",
    "Any number of indicator objects and simulations, of the same or different kinds and with different data or parameters, can be created and used alternately or from different threads: each answers exactly as if it were the only one, and repeating the same construction always gives the same answers.",
    ["schedules", "histories"],
    "for every pair of indicator uses and every interleaving of their steps, within one thread (call by call) and between two threads (line by line)",
    "Tests are single-threaded and never keep two objects alive, so shared scratch state or caches are invisible to them.",
    f(AVG + OSC + VOL) + [TI, SIM, VAL, PROPS], [("all state lives on the object", TI + " __init__"), ("simulation state per run", SIM + " __init__")],
    observe=["all public query methods of both objects"])

add("C20", "Simulation inputs are normalised or refused as documented",
    "The close prices given to a simulation are accepted in any row order, with extra columns, any label case and gaps (filled like input data) as long as they cover exactly the indicator's dates, and the result is that of the sorted, filled prices. "
    "Anything else (not a table, no numeric close column, dates missing, extra or different, wrong date index) is refused with the simulation-data error, a limit that is not a positive number or none and a factor that is not a number of at least 1 with the wrong-type or wrong-value error, before anything is simulated.",
    ["inputs", "configurations", "fault_sequences"],
    "for every perturbation of the close table and every limit/factor value around the documented bounds, alone and combined",
    "Tests try a few wrong arguments on the simulation class with one recorded series.",
    [SIM, VAL, TI], [("argument validation", SIM + " _validateSimulationArguments"), ("close table normalisation", VAL + " validateInputData")],
    observe=["simulation outcome"])

add("C21", "A simulation replays the indicator's own signals day by day",
    "The signal a simulation records for a day is the signal the indicator itself would give if its data ended on that day, for every day of the indicator's table (for Fibonacci retracement and the detrended oscillator, which look ahead: from its table's rows up to that day), and the positions, exposure, earnings, balance and statistics it returns are those that exactly this signal sequence produces on the given close prices, limit and factor. "
    "The result is dated with the indicator's input dates in ascending order.",
    ["histories", "configurations"],
    "for every indicator, every bar history, every close series given to the simulation and every limit/factor choice",
    "Tests only check the types of the simulation's results for the recorded series; no recorded signal is compared with the indicator's own signal.",
    [TI, SIM], [("round loop", TI + " getTiSimulation"), ("round processing", SIM + " runSimulationRound")], LEDGER_STATE,
    ["simulation table, statistics", "signal of an indicator built on each prefix"])

add("C22", "Results scale with the units of price and volume",
    "Expressing all prices in another currency unit (multiplying them by a constant) multiplies price-like indicator values by it and leaves ratios, percentages and oscillators unchanged; rescaling volume multiplies volume-like values and leaves everything else unchanged (up to the published rounding, which is to whole units of volume for each day's money flow in the accumulation/distribution line and the Chaikin oscillator). The swing index and the range indicator, whose formulas contain fixed amounts, are outside this guarantee.",
    ["inputs", "configurations"],
    "for every indicator, bar series, supported parameter choice and scale factor that keeps values well above the rounding step",
    "Tests use one series in one unit, so an absolute constant slipped into a formula cannot be told from the definition.",
    f(AVG + OSC + VOL), [("homogeneous formulas", IND + "_*.py _calculateTi")], observe=["indicator table"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")
