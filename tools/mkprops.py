import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)

p("C01","Time alignment: floor and ceil bracket an instant by interval boundaries",
 "For every instant and every interval shorter than a week, for the week and for the calendar month, rounding an instant down (up) gives the latest boundary not after it (the earliest boundary not before it), where boundaries are multiples of the interval counted from the epoch, Mondays 00:00 UTC for the week, and first-of-month 00:00 UTC for the month. Consequently rounding is idempotent, monotone, leaves aligned instants unchanged, and down and up differ by at most one interval. The same holds for rounding an interval up to a multiple of another interval, exactly, over the whole 64-bit range in which the answer is representable.",
 ["inputs"],"all 64-bit timestamps and intervals for which the boundary is representable (week floor: instants from 1970-01-05 on; month: instants the calendar library represents)",
 "The tests sample nine (instant, interval) pairs; none is already aligned to a month, none is above 2^53, none is near the ends of the range.",
 ["juno/src/math.rs","juno/src/primitives/timestamp.rs","juno/src/primitives/interval.rs"],
 [("ceil_multiple / floor_multiple and their offset variants","juno/src/math.rs"),("Timestamp::floor, Timestamp::ceil, WEEK_OFFSET_MS","juno/src/primitives/timestamp.rs"),("Interval::ceil","juno/src/primitives/interval.rs")],
 observe=["juno::Timestamp::floor","juno::Timestamp::ceil","juno::Interval::ceil","juno::math::*_multiple*"])

p("C02","Span arithmetic: merge, gap and paging functions account for every instant",
 "Merging adjacent spans yields spans covering exactly the same instants in the same order with no two touching neighbours left that touched in the input. The missing spans of a window are exactly the instants of the window that no existing (ordered, non-overlapping) span covers, given as non-empty ordered disjoint spans inside the window. Paging a window yields consecutive non-empty pages that tile the whole window exactly, each at most limit times interval long.",
 ["inputs"],"all ordered non-overlapping span lists of any length and all windows, intervals and limits that fit 64 bits",
 "Three literal examples; no test has a span outside or straddling both ends of the window, an empty list, or calls paging at all.",
 ["juno/src/utils/mod.rs"],
 [("merge_adjacent_spans","juno/src/utils/mod.rs"),("generate_missing_spans","juno/src/utils/mod.rs"),("page","juno/src/utils/mod.rs")],
 observe=["juno::utils::merge_adjacent_spans","juno::utils::generate_missing_spans","juno::utils::page"])

p("C03","Exchange filters and decimal rounding never round in the wrong direction",
 "Rounding a price or size down through an exchange filter gives zero below the filter minimum and otherwise the largest step multiple not above the input capped at the maximum (a zero maximum or step disables that rule), so the result never exceeds the input or the maximum. Rounding to a decimal precision gives a multiple of that decimal unit: the largest one not above the value (down) or the nearest one with halves away from zero (half up), for every precision an asset can declare.",
 ["inputs"],"all non-negative prices and sizes, all filters with non-negative min, max and step, all precisions (idealised real arithmetic; the float code is compared with it on sampled inputs)",
 "No test touches the filters; decimal rounding has four literal cases at precision 2 and 8.",
 ["juno/src/filters.rs","juno/src/math.rs"],
 [("Price::round_down, Size::round_down, Price::valid","juno/src/filters.rs"),("round_down, round_half_up","juno/src/math.rs")],
 observe=["juno::filters::Price","juno::filters::Size","juno::math::round_down","juno::math::round_half_up"])

p("C04","Stop losses fire exactly when the close crosses the configured loss level",
 "For every history of position openings (clear) and candles (update), a basic stop loss fires for a long (short) position exactly when the latest close is at or below (at or above) the close at the opening lowered (raised) by the configured fraction, and a trailing one exactly when it is at or beyond that fraction from the highest (lowest) close seen since the opening. The combined stop loss fires exactly when either part fires, the legacy one follows its trail flag and never fires with a zero threshold, and the no-op one never fires.",
 ["inputs","histories"],"all candle histories of any length with openings anywhere, all thresholds in (0,1)",
 "No existing test covers any stop loss; a test fixes one history while the trailing extremes depend on the whole sequence since the last opening.",
 ["juno/src/stop_loss/mod.rs","juno/src/stop_loss/basic.rs","juno/src/stop_loss/trailing.rs","juno/src/stop_loss/basic_plus_trailing.rs","juno/src/stop_loss/legacy.rs","juno/src/stop_loss/noop.rs"],
 [("Basic, Trailing, BasicPlusTrailing, Legacy, Noop: new/clear/update/upside_hit/downside_hit","juno/src/stop_loss/*.rs"),("StopLossParams::construct","juno/src/stop_loss/mod.rs")],
 state=[("highest_close_since_position / lowest_close_since_position","running extremes of the close since the opening","juno/src/stop_loss/trailing.rs"),("close_at_position","close of the candle at which the position was opened","juno/src/stop_loss/basic.rs")],
 observe=["juno::stop_loss::StopLoss"])

p("C05","Take profits fire exactly when the close reaches the configured profit level",
 "For every history, a basic or legacy take profit fires for a long (short) position exactly when the latest close is at or above (at or below) the close at the opening raised (lowered) by the configured fraction; the legacy one never fires with a zero threshold and the no-op one never fires. The trending take profit applies the same rule with a fraction interpolated between its two configured bounds by the eased trend strength, re-evaluated on every candle unless the threshold is locked, in which case it is fixed at the opening.",
 ["inputs","histories"],"all candle histories with openings anywhere, all thresholds, all easings",
 "No existing test covers any take profit.",
 ["juno/src/take_profit/mod.rs","juno/src/take_profit/basic.rs","juno/src/take_profit/legacy.rs","juno/src/take_profit/noop.rs","juno/src/take_profit/trending.rs","juno/src/math.rs"],
 [("Basic, Legacy, Trending, Noop: new/clear/update/upside_hit/downside_hit","juno/src/take_profit/*.rs"),("set_threshold_factors, lerp","juno/src/take_profit/trending.rs, juno/src/math.rs"),("TakeProfitParams::construct","juno/src/take_profit/mod.rs")],
 observe=["juno::take_profit::TakeProfit"])

p("C06","Backtest books balance: capital after trading is capital plus booked profit",
 "Throughout a backtest the free quote capital equals the initial quote plus the profits of all closed positions, less the cost of the open long position (or plus the net proceeds of the open short position), in exact arithmetic, so no money is created or lost between positions. Every position is sized from the capital left by its predecessors, and a position's reported profit is exactly the change of capital it caused.",
 ["inputs","histories"],"all candle sequences of any length, all advice histories, fees, filters, borrow terms and margin multipliers (idealised real arithmetic; sampled against the float code)",
 "No test asserts anything about a backtest's money; the benchmark only runs it.",
 ["juno/src/trading/traders.rs","juno/src/trading/mod.rs","juno/src/lib.rs"],
 [("try_open_*/close_* adjust the quote","juno/src/trading/traders.rs"),("LongPosition/ShortPosition profit, gain, cost","juno/src/trading/mod.rs"),("Fill::total_*","juno/src/lib.rs")],
 state=[("State.quote","free quote capital","juno/src/trading/traders.rs"),("TradingSummary.positions","closed positions in order","juno/src/trading/mod.rs")],
 observe=["juno::trading::trade"])

p("C07","Position life cycle: one position at a time, closed once, for the right reason",
 "In every backtest positions are recorded in order without overlap, each opened on a changed advice of its own direction that is enabled, and closed exactly once: by an opposite or liquidating changed advice, else by the stop loss, else by the take profit, in that precedence, or as cancelled at the end of the last candle traded. Opening and closing happen at the end of a candle at its close price, and no position stays open in the result.",
 ["inputs","histories"],"all candle sequences of any length, any strategy, stop loss and take profit behaviour, any long/short flags",
 "No test runs the trading loop with assertions; precedence only shows when several triggers coincide.",
 ["juno/src/trading/traders.rs","juno/src/trading/mod.rs","juno/src/utils/changed.rs"],
 [("trade, tick","juno/src/trading/traders.rs"),("OpenLongPosition::close, OpenShortPosition::close","juno/src/trading/mod.rs"),("Changed::update","juno/src/utils/changed.rs")],
 state=[("State.open_position","the single open position, if any","juno/src/trading/traders.rs")],
 observe=["juno::trading::trade"])

p("C08","Fills are computed by the exchange's rules: size, quote, fee, interest",
 "A long opening spends all capital rounded down to a tradable size, its quote is price times size rounded down to the quote precision and its fee the taker share of the size at base precision; its closing sells the received base rounded to a tradable size and pays the taker share of the quote. A short opening borrows collateral times (margin multiplier - 1) capped by the borrow limit, and its closing buys back the borrowed amount plus interest for every started interest interval plus the taker fee on both. A position is opened only if the size (long) or the collateral size (short) that the capital can pay for rounds to a tradable amount, and otherwise trading stops.",
 ["inputs"],"all capitals, positive prices, fees, filters, borrow terms, margin multipliers and holding durations",
 "No test asserts a fill of the trading engine.",
 ["juno/src/trading/traders.rs","juno/src/trading/mod.rs","juno/src/filters.rs","juno/src/math.rs"],
 [("try_open_long_position, close_long_position, try_open_short_position, close_short_position","juno/src/trading/traders.rs"),("ceil_multiple, round_down, round_half_up","juno/src/math.rs"),("Size::round_down","juno/src/filters.rs")],
 observe=["juno::trading::trade -> TradingSummary.positions[..].{open,close}_fills"])

p("C09","Advice filters: change detection, mid-trend, persistence and combination",
 "Over every advice history the change filter passes an advice exactly when it is a real advice differing from the last one it passed, and reports that prevailing advice and the number of updates since it came. The mid-trend filter that ignores a running trend is silent until the first advice that differs from the first one seen and transparent ever after (transparent always for the other policies); the persistence filter passes an advice only once it has been repeated for more than the required number of consecutive updates. Combining two advices gives none if either is none, the common advice if they agree, and liquidation otherwise.",
 ["histories"],"all advice histories of any length, all policies and persistence levels",
 "No test covers any of these filters, and their outputs depend on the entire history.",
 ["juno/src/utils/changed.rs","juno/src/utils/mid_trend.rs","juno/src/utils/persistence.rs","juno/src/utils/mod.rs"],
 [("Changed::update","juno/src/utils/changed.rs"),("MidTrend::update","juno/src/utils/mid_trend.rs"),("Persistence::update","juno/src/utils/persistence.rs"),("combine","juno/src/utils/mod.rs")],
 observe=["juno::utils::{Changed, MidTrend, Persistence, combine}"])

p("C10","Candle buffering aggregates each bucket exactly once and correctly",
 "When candles are aggregated to a longer interval, every emitted candle covers exactly one bucket: its time is the bucket start and its open, high, low, close and volume are the first open, highest high, lowest low, last close and total volume of precisely the input candles of that bucket, for gaps anywhere that leave no more than one unfinished bucket pending. A bucket is emitted when its last candle arrives, or as soon as a candle of a later bucket arrives if its end was missing. Buffering with no or an equal interval passes every candle through unchanged.",
 ["inputs","histories"],"all chronologically ordered candle histories with gaps at any place, all interval pairs where the shorter divides the bucket",
 "Tests use one bucket size of two or four ticks and at most one gap, and no weekly or monthly bucket.",
 ["juno/src/utils/buffered_candle.rs","juno/src/lib.rs","juno/src/primitives/timestamp.rs"],
 [("BufferedCandle::new, BufferedCandle::buffer","juno/src/utils/buffered_candle.rs"),("Candle += Candle","juno/src/lib.rs")],
 state=[("buffer_candle","aggregate of the current bucket so far","juno/src/utils/buffered_candle.rs")],
 observe=["juno::utils::BufferedCandle::buffer"])

p("C11","Moving averages follow their definition and mature exactly on time",
 "Every moving average equals its definition on the whole price history: the simple one the mean of the last period prices, the exponential, smoothed, double, adaptive and Gaussian ones their recurrences with the documented seeds and weights. Each reports itself mature after exactly its declared number of updates and never before, holds a meaningful value from then on, and (double one excepted) that value lies between the lowest and highest price seen.",
 ["inputs","histories"],"all price histories of any length, all periods (idealised real arithmetic; sampled against the float code)",
 "Each average is tested on one recorded 15-50 value series with one period; maturity is not asserted, and two of the seven averages have no test.",
 ["juno/src/indicators/sma.rs","juno/src/indicators/ema.rs","juno/src/indicators/ema2.rs","juno/src/indicators/smma.rs","juno/src/indicators/dema.rs","juno/src/indicators/kama.rs","juno/src/indicators/alma.rs","juno/src/indicators/mod.rs"],
 [("Sma, Ema, Ema2, Smma, Dema, Kama, Alma: new/update/maturity/mature","juno/src/indicators/*.rs"),("MAParams::construct, MAParams::period, ma_from_adler32","juno/src/indicators/mod.rs")],
 state=[("Sma.prices/i/sum","ring buffer of the last period prices and its sum","juno/src/indicators/sma.rs")],
 observe=["juno::indicators::MA"])

p("C12","Oscillators stay in range, never become undefined, and mature on time",
 "For every price history the relative strength index, the directional index and the average directional index stay within 0 to 100, the stochastic and the directional indicators stay within 0 to 100 whenever the closes lie within their candles, directional movements are never negative and true range never below the candle's height. No history of finite candles, flat ones included, makes an oscillator undefined or infinite. Each one reports itself mature after exactly its declared number of updates, and from then on equals its textbook definition on the whole history (the moving average convergence divergence being the difference of its two averages, with its histogram the difference to its signal).",
 ["inputs","histories"],"all finite candle histories with low <= close <= high, all periods >= 1 (idealised real arithmetic; sampled against the float code)",
 "Each oscillator is tested on one recorded lively series; flat markets and period 1, which divide zero by zero, are never fed.",
 ["juno/src/indicators/rsi.rs","juno/src/indicators/stoch.rs","juno/src/indicators/dm.rs","juno/src/indicators/dx.rs","juno/src/indicators/adx.rs","juno/src/indicators/di.rs","juno/src/indicators/macd.rs"],
 [("Rsi, Stoch, DM, DX, Adx, DI, Macd: new/update/maturity/mature","juno/src/indicators/*.rs")],
 observe=["juno::indicators::{Rsi, Stoch, DM, DX, Adx, DI, Macd}"])

p("C13","Strategies advise by their documented rules and never before maturity",
 "A strategy gives no advice before the indicators it reads are mature, and from then on its advice follows its rule for every history: trend direction for the one-, two- and three-average strategies and the convergence strategy, breakout of the last period closes with an average-crossing exit for the four-week rule, and oscillator-gated trend for the combined ones. An advice, once given, stays until its rule changes it; oscillator-filtered signals are only ever kept or turned into liquidation, never reversed.",
 ["inputs","histories"],"all candle histories, all valid parameters; where the two averages of the threshold strategy do not cancel out, and candle streams without gaps at a buffer boundary (see C10)",
 "Four of nine strategies have one recorded history each; maturity is never asserted.",
 ["juno/src/strategies/single_ma.rs","juno/src/strategies/double_ma.rs","juno/src/strategies/double_ma_2.rs","juno/src/strategies/double_ma_stoch.rs","juno/src/strategies/triple_ma.rs","juno/src/strategies/macd.rs","juno/src/strategies/four_week_rule.rs","juno/src/strategies/rsi.rs","juno/src/strategies/stoch.rs","juno/src/strategies/sig.rs","juno/src/strategies/sig_osc.rs","juno/src/strategies/mod.rs"],
 [("Strategy::update / mature of each strategy","juno/src/strategies/*.rs"),("SigOsc::filter","juno/src/strategies/sig_osc.rs"),("StrategyParams::construct","juno/src/strategies/mod.rs")],
 observe=["juno::strategies::{Strategy, Signal, Oscillator}"])

p("C14","Core statistics agree with the positions they summarise",
 "For every trading summary, profit is the sum of position profits, gain is cost plus profit, positions in profit and in loss add up to all positions, and stop-loss and take-profit counts match the recorded close reasons. Drawdowns are measured from the running capital peak: every drawdown is non-negative, the maximum bounds the mean, and means are totals divided by the number of positions (zero without positions). Returns are profit over cost, and annualised ones compound to that return over the duration in years (zero without duration or when that is undefined). The quick fitness functions for profit and return over maximum drawdown give the same numbers as the full report.",
 ["inputs"],"all summaries with any number of positions, positive initial quote (idealised real arithmetic; sampled against the float code)",
 "One summary with two long positions is compared.",
 ["juno/src/statistics/core.rs","juno/src/statistics/mod.rs","juno/src/trading/mod.rs","juno/src/math.rs"],
 [("CoreStatistics::compose, get_profit, get_return_over_max_drawdown","juno/src/statistics/core.rs"),("PositionStatistics::compose","juno/src/statistics/mod.rs"),("annualized","juno/src/math.rs")],
 observe=["juno::statistics::{CoreStatistics, PositionStatistics, get_profit, get_return_over_max_drawdown}"])

p("C15","Risk ratios are always finite and identical on the fast and the full path",
 "For every trading summary and price series covering it, computing the Sharpe and Sortino ratios never fails and gives finite numbers, with zero where the ratio is undefined (no volatility, no losing period, or a return that is zero or not a number). The fast fitness functions give the same ratios as the full report, each period being valued at its end price with the position changes that happened within it.",
 ["inputs"],"all summaries (start not after end, any number of positions, any holding pattern), finite price series covering them, statistics intervals shorter than a week (a fixed grid)",
 "One summary with constant prices is compared; short backtests and flat performance, where volatility is zero, are never tried.",
 ["juno/src/statistics/extended.rs","juno/src/math.rs"],
 [("calculate_statistics, get_asset_performance, map_period_deltas_from_summary","juno/src/statistics/extended.rs"),("get_sharpe_ratio, get_sortino_ratio","juno/src/statistics/extended.rs"),("mean, std_deviation","juno/src/math.rs")],
 observe=["juno::statistics::{ExtendedStatistics, get_sharpe_ratio, get_sortino_ratio}"])

p("C16","Evolution keeps its population size and never loses its best individual",
 "For every valid configuration an evolution reports the initial and every further generation, each with a hall of fame of the requested size (at most the population) ordered from best to worst; all generations have exactly the requested population size and no configuration makes the run fail. With elite reinsertion that keeps at least one parent the best fitness never decreases from one generation to the next. The result is a function of the seed, the configuration and the evaluation alone.",
 ["configurations","inputs"],"all population sizes >= 2, generation counts, hall sizes, rates, seeds, evaluations returning comparable fitness",
 "No test runs the genetic algorithm at all.",
 ["juno/src/genetics/algorithm.rs","juno/src/genetics/selection.rs","juno/src/genetics/reinsertion.rs","juno/src/genetics/mod.rs"],
 [("evolve, run_generation, evaluate_and_sort_by_fitness_desc","juno/src/genetics/algorithm.rs"),("EliteReinsertion, FitnessReinsertion, PureReinsertion","juno/src/genetics/reinsertion.rs"),("EliteSelection, TournamentSelection","juno/src/genetics/selection.rs")],
 observe=["juno::genetics::GeneticAlgorithm::evolve"])

p("C17","Selection and reinsertion obey their survival rules",
 "Elite selection picks exactly the best share of the parents, tournament selection picks the requested number of parents, each the fittest of a random group, and random selection fresh individuals. Elite reinsertion returns all offspring plus the best parents plus the requested share of newcomers, fitness reinsertion the best offspring, pure reinsertion the offspring themselves, each exactly filling the population, ordered from best to worst, and individuals carried over keep their chromosome and fitness.",
 ["inputs","configurations"],"all ordered parent and offspring lists, all rates within their documented ranges",
 "No test covers selection or reinsertion.",
 ["juno/src/genetics/selection.rs","juno/src/genetics/reinsertion.rs","juno/src/genetics/mod.rs"],
 [("Selection::select implementations","juno/src/genetics/selection.rs"),("Reinsertion::reinsert implementations","juno/src/genetics/reinsertion.rs"),("Individual::fitness_desc","juno/src/genetics/mod.rs")],
 observe=["juno::genetics::{selection, reinsertion}"])

p("C18","Genetic operators touch exactly the gene they are told to",
 "For every chromosome type, exchanging gene i between two chromosomes swaps exactly that gene and leaves all others as they were, exchanging twice restores both, and uniform crossover only ever exchanges genes at the same position between the two. Mutating gene i changes no other gene, and the gene count equals the number of genes the operators address, for nested and enumerated chromosomes too.",
 ["inputs","programs"],"all values of every chromosome type of the repository, all gene indices below the length, all random choices",
 "Tests use three toy structs and one toy enum with fixed values; none of the real parameter types.",
 ["juno_derive/src/macros/derive_chromosome.rs","juno_derive/src/macros/derive_chromosome_enum.rs","juno/src/trading/mod.rs","juno/src/genetics/crossover.rs","juno/src/genetics/mutation.rs"],
 [("derive(Chromosome), derive(ChromosomeEnum)","juno_derive/src/macros/*.rs"),("TraderParams: Chromosome","juno/src/trading/mod.rs"),("UniformCrossover::cross, UniformMutation::mutate","juno/src/genetics/crossover.rs, juno/src/genetics/mutation.rs")],
 observe=["juno::genetics::Chromosome::{len, cross, mutate}"])

p("C19","Interval and instant text forms are read back as written",
 "Every interval and every instant is printed in a form that parses back to the same value, and parsing accepts exactly well-formed text: malformed input is reported as a parse error, never a failure of the program or a silently different value. An interval's text lists its units from largest to smallest, each at most once and only where non-zero.",
 ["inputs"],"all 64-bit intervals, all representable instants, all strings",
 "Seven literal strings and values, all well formed.",
 ["juno/src/primitives/interval.rs","juno/src/primitives/timestamp.rs"],
 [("Display and FromStr for Interval","juno/src/primitives/interval.rs"),("Display and FromStr for Timestamp","juno/src/primitives/timestamp.rs")],
 observe=["juno::Interval","juno::Timestamp"])

p("C20","Fitness aggregation is monotone and zero-based",
 "The fitness of an individual is the configured statistic of a backtest per training symbol, folded over the symbols from zero: plainly added, or added on a logarithmic scale that adds log10(1 + v) for a non-negative value v (scaled tenfold in the factored variant) and subtracts a penalty of at least ten, growing with the loss, for a negative one. Each aggregation is strictly increasing in every symbol's value, so improving one symbol always improves the fitness, and a value of zero leaves it unchanged.",
 ["inputs"],"all statistic values and accumulators (idealised real arithmetic; sampled against the float code)",
 "No test covers evaluation.",
 ["juno/src/trading/evaluation.rs"],
 [("sum_linear, sum_log10, sum_log10_factored","juno/src/trading/evaluation.rs"),("BasicEvaluation::evaluate","juno/src/trading/evaluation.rs")],
 observe=["juno::trading::BasicEvaluation"])

p("C21","Every randomly generated parameter set is valid and respects fixed values",
 "Every parameter set produced by random generation, crossover or mutation satisfies the constraints its consumer asserts (periods positive and ordered, thresholds inside their ranges, intervals from the configured choices), so constructing a strategy, stop loss and take profit from it never fails. A parameter fixed in the context always has exactly the fixed value, and a fixed variant is always the variant generated.",
 ["inputs","histories"],"all seeds, all sequences of generation, crossover and mutation, all contexts",
 "Tests fix one context on a toy struct; no test constructs a strategy from random parameters.",
 ["juno/src/strategies/mod.rs","juno/src/strategies/double_ma.rs","juno/src/strategies/double_ma_2.rs","juno/src/strategies/triple_ma.rs","juno/src/strategies/macd.rs","juno/src/indicators/mod.rs","juno/src/trading/mod.rs","juno_derive/src/macros/derive_chromosome.rs","juno_derive/src/macros/derive_chromosome_enum.rs"],
 [("per-field generator functions","juno/src/{strategies,stop_loss,take_profit}/*.rs"),("gen_ma_params","juno/src/indicators/mod.rs"),("derive(Chromosome) generate/mutate with context","juno_derive/src/macros/*.rs")],
 observe=["juno::trading::TradingParams as Chromosome","juno::strategies::StrategyParams::construct"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
