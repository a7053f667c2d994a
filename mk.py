#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run after editing)."""
import json, os

H = os.path.dirname(os.path.abspath(__file__))
T = "portfolyo/tools/"
P = "portfolyo/core/pfline/"
S = "portfolyo/core/pfstate/"
P2 = "portfolyo/tools2/"
TECH = "runtime monitoring: seeded workloads on the real code judged by reference-model oracle"
HIST = "runtime monitoring: online invariant monitor over random operation histories"

# id, title, statement, over, text, why, files, mechanism[(name, where)], technique, note
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, tech=TECH, note=None):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))


prop("C01", "Rounding timestamps and indices to delivery periods is exact",
     """For every timestamp (any timezone or none, any wall-clock time including the skipped and repeated hours of DST changes), every supported frequency (15min, h, D, MS, QS, YS) and every start-of-day, flooring gives the start of the delivery period that contains it, ceiling gives the first period start at or after it (and `future` shifts by that many periods), the right bound of a period is the start of the next one, and the boundary test is true exactly for period starts.
     Element-wise and index versions agree.
     Delivery products (front day/month/quarter/season/year) and left/right pairs of trimmed timestamps follow the same period boundaries.""",
     ["inputs"], "all timestamps x timezones x frequencies x start-of-day x offsets", "tests sample a few dozen timestamps in one timezone; DST hours, non-midnight days and sub-hour moments multiply beyond any table",
     [T + "floor.py", T + "ceil.py", T + "round.py", T + "right.py", T + "isboundary.py", T + "leftandright.py", T + "product.py"],
     [("floor/ceil to period start", T + "round.py"), ("right bound", T + "right.py"), ("boundary test", T + "isboundary.py")])

prop("C02", "Delivery periods tile the timeline and their durations are the elapsed hours",
     """For every index of delivery periods, the duration of each period is the really elapsed number of hours (23/24/25 h days, 28-31 d months, leap years, fixed for quarterhours and hours), durations over an index add up to the elapsed time between its start and end, and consecutive right bounds equal the next left bounds.
     A right-bound index is converted into the left-bound index of the same periods.
     Trimming to a longer frequency keeps exactly the elements that lie in completely covered periods; setting the start-of-day gives (the covered part of) the same periods at the new time.""",
     ["inputs"], "all standardized indices (frequency, span, timezone, start-of-day)", "tests use a handful of indices in one timezone",
     [T + "duration.py", T + "right.py", T + "righttoleft.py", T + "trim.py", T + "startofday.py"],
     [("duration", T + "duration.py"), ("right-bound to left-bound", T + "righttoleft.py"), ("trimming", T + "trim.py")])

prop("C03", "Every portfolio line stays internally consistent through any history of use",
     """Every portfolio line a user can obtain by any sequence of public operations has one gapless, ordered, left-bound index with a frequency, hands out values only for the dimensions its kind has (others raise), in the default units MW, MWh, Eur/MWh and Eur, with energy = power x duration and revenue = price x energy in every period.
     Its volume, price and revenue parts carry the same values as the line itself.
     The same holds for every child, and for every part of a portfolio state.""",
     ["histories", "inputs"], "all finite sequences of public operations starting from arbitrary valid lines", "unit tests exercise single operations on fresh objects; consistency has to survive their composition",
     [P + "classes.py", P + "arithmatic.py", P + "interop.py", S + "pfstate.py"],
     [("consistency on creation", P + "interop.py"), ("derived columns after each operation", P + "classes.py"), ("arithmetic", P + "arithmatic.py")], HIST)

prop("C04", "Portfolio lines are built faithfully from any form of input, or refused",
     """A portfolio line built from any accepted form of input (dictionary, dataframe, series with units, list of series, other units of the same dimension, integers, numbers or quantities combined with a timeseries, another portfolio line, dictionary or multi-level dataframe of children) has the same values as one built from plain MW/MWh/Eur/MWh/Eur timeseries; timeseries of unequal length are reduced to their common periods.
     When one dimension can be derived from the others it is derived; redundant but contradictory data (w vs q, or r vs p and q) is refused.
     Input without timestamps, without frequency, with gaps, with timestamps not at period starts, with unknown names or with the same dimension twice is refused with an error instead of producing a line.""",
     ["inputs"], "all input values, indices, units and container shapes", "tests use a few fixed series; equivalence must hold across all combinations of container, unit, and dimension",
     [P + "create.py", P + "interop.py", P + "flat_helper.py", P + "nested_helper.py"],
     [("interpretation of data", P + "interop.py"), ("creation", P + "create.py"), ("children", P + "nested_helper.py")])

prop("C05", "A nested portfolio line always equals the sum of its children",
     """The volume, energy and revenue of a nested portfolio line equal the sum of those of its children in every period (prices of price-only lines are also added; the price of a complete line is revenue divided by energy), at every level and in every period that all children cover.
     Setting, replacing or dropping a child changes exactly that child and the totals accordingly, and restricts all children to the common periods; flattening keeps all totals.
     Children are reachable under exactly their own names, and impossible child operations (reserved or unknown name, other kind, incompatible or disjoint index, dropping the last child) are refused.""",
     ["inputs", "histories"], "all child trees and sequences of child operations", "tests use one or two small trees",
     [P + "classes.py", P + "children.py", P + "nested_helper.py", P + "nested_methods.py"],
     [("sum of children", P + "classes.py"), ("set/drop child", P + "children.py")])

prop("C06", "Downsampling conserves energy, revenue and weighted averages of full periods",
     """Changing a portfolio line (or a summable/averagable series) to a longer frequency gives exactly the longer delivery periods that are completely covered by the source, with energy and revenue equal to the sum and power and price-only values equal to the duration-weighted average over the periods they contain; price of a complete line equals revenue divided by energy.
     Partially covered longer periods are dropped, and if none is left the conversion of a portfolio line is refused.
     This holds for every start-of-day, timezone and DST change, for nested lines per child, and regardless of whether it is done in one or more steps.""",
     ["inputs"], "all indices, values, frequency pairs", "tests cover a few spans with constant values; conservation over DST, non-midnight starts and anchored quarters is not sampled",
     [T + "changefreq.py", P + "classes.py", T + "trim.py"],
     [("downsampling", T + "changefreq.py"), ("asfreq", P + "classes.py")])

prop("C07", "Upsampling spreads values proportionally and is undone by downsampling",
     """Changing a portfolio line (or series) to a shorter frequency gives all the shorter periods in the same span; power and price are copied into each of them, energy and revenue are divided in proportion to their duration, and missing values stay missing.
     Totals are conserved, and downsampling the result again to the original frequency gives back the original values.""",
     ["inputs"], "all indices, values, frequency pairs", "tests cover a few spans; proportionality must hold for unequal periods (months, leap years, DST days)",
     [T + "changefreq.py", P + "classes.py"],
     [("upsampling", T + "changefreq.py"), ("asfreq", P + "classes.py")])

prop("C08", "Addition, subtraction, negation and scaling of lines obey their algebra",
     """Adding portfolio lines of one kind adds their energy and revenue (prices of price-only lines) in the periods they share; for complete lines the price is the volume-weighted average; nested lines are added child by child by name, and a nested and a flat line give the flat sum.
     Scaling by a number or dimensionless series multiplies energy, power and revenue (and price-only prices) but leaves prices of complete lines unchanged, for each child; a - b equals a + (-b), addition is commutative and associative, subtracting a line from itself gives zero volume and revenue, and dividing by a factor undoes multiplying by it.
     Adding nothing (None, 0) leaves a line unchanged.""",
     ["inputs"], "all pairs/triples of lines (values, kinds, structure, overlap) and factors", "tests sample fixed operand pairs",
     [P + "arithmatic.py", T + "wavg.py"],
     [("add/scale", P + "arithmatic.py"), ("volume-weighted price", T + "wavg.py")])

prop("C09", "Products, quotients and unions of lines are dimensionally and numerically exact",
     """Volume times price (in either order) is the revenue line r = q x p, revenue divided by price is the volume line q = r / p, and revenue divided by volume is the price line p = r / q, in every shared period; the three are each other's inverse.
     Dividing two lines of the same (non-complete) kind gives the dimensionless series of ratios in the shared periods.
     The union of two lines of different non-complete kind is the complete line with those two as its parts and the third derived from them; nested operands are used with their totals.""",
     ["inputs"], "all pairs of lines", "tests sample fixed operand pairs",
     [P + "arithmatic.py", P + "interop.py"], [("multiply/divide/unite", P + "arithmatic.py")])

prop("C10", "Operations that make no sense dimensionally are refused",
     """Arithmetic between portfolio lines whose dimensions do not combine (adding or subtracting different kinds; multiplying anything but volume with price; dividing other than revenue by price or volume, or like by like; dividing or uniting with a complete line; uniting equal kinds), adding a nonzero plain number or dimensionless series, and multiplying with a line-like value of wrong dimension raise an error and never return a result.
     A quantity or series with a unit is treated as the corresponding portfolio line in all operations.""",
     ["inputs"], "all pairs of operand kinds, structures and dimension-agnostic/aware values", "tests enumerate kinds for a few fixed values only",
     [P + "arithmatic.py", P + "interop.py", S + "arithmatic.py"], [("operand checks", P + "arithmatic.py"), ("interpretation of operand", P + "interop.py")])

prop("C11", "Operands with incompatible indices are refused; overlapping ones are aligned",
     """Combining two portfolio lines (or states) whose indices differ in frequency, timezone or start-of-day raises an error in every operation, whichever operand comes first, and so does combining lines that share no period at all.
     With partial overlap, every result has exactly the shared periods, and each value is computed from the operands' values at that same timestamp.""",
     ["inputs"], "all pairs of indices and operations", "tests use few index pairs; misalignment can only be seen when values differ per timestamp",
     [P + "arithmatic.py", T + "intersect.py", T + "testing.py", S + "arithmatic.py"],
     [("index compatibility", T + "testing.py"), ("intersection", T + "intersect.py")])

prop("C12", "Unit conversions are exact and values never change dimension silently",
     """Quantities and series given in any unit of the right dimension (W..TW, Wh..TWh, J, ctEur, Eur/kWh, kEur, ...) are interpreted as the equal amount in the default unit, and a value of a wrong dimension is refused.
     Converting to default units preserves the physical value, splitting magnitude and unit can be reversed, and standard names (w, q, p, r, duration, t, nodim) are found exactly for units of that dimension.""",
     ["inputs"], "all values and units of the registry", "tests check selected units and magnitudes",
     [T + "unit.py", T + "unitdefinitions.txt", P + "interop.py"], [("unit registry", T + "unitdefinitions.txt"), ("default units", T + "unit.py")])

prop("C13", "Weighted averages follow the documented rules for every combination",
     """The weighted average is sum(value x weight)/sum(weight) over the values with nonzero weight, and undefined (NaN) if any of those values is undefined; if the weights sum to zero it is the common value if all (nonzero-weight) values are identical and otherwise undefined.
     It does not depend on the order of the values, on a common factor in the weights, or on the form of the weights (list, mapping or series, aligned by label), keeps the unit of the values, and gives per row or per column of a dataframe the same as for each series separately.""",
     ["inputs"], "all values, weights (incl. zero, negative, NaN values), axis and container forms", "tests contain a table with a few rows per rule",
     [T + "wavg.py"], [("weighted average", T + "wavg.py")])

prop("C14", "Hedges are flat per product and conserve volume or value",
     """Hedging volume with prices gives, within each product period (day, month, quarter or year; split in peak and offpeak if wanted), one constant power and one constant price, where the price is the duration-weighted average of the prices; with a volume hedge the energy of the product equals that of the original volume, and with a value hedge its value at the original prices equals the value of the original volume at these prices.
     Only complete product periods that volume and prices share are hedged, on the original frequency and timestamps, for every start-of-day and timezone; if there is none, or the product is not possible, the hedge of a line is refused.""",
     ["inputs"], "all volume/price curves, product frequencies, peak functions, indices", "tests use few fixed curves",
     [T + "hedge.py", T + "peakconvert.py", P + "flat_methods.py"], [("hedge", T + "hedge.py"), ("grouping by product", T + "peakconvert.py")])

prop("C15", "Peak functions classify every period correctly and peak durations add up",
     """A peak function made from a left time, right time and set of ISO weekdays is true for exactly those periods that start on a peak day and lie within the peak time (left inclusive, right exclusive; missing times mean midnight, missing weekdays Monday-Friday), on every index that is short enough, also at DST changes; indices with too long a frequency, and definitions that include or exclude everything, are refused.
     Peak and offpeak duration of any period equal the elapsed hours of the peak and offpeak (quarter)hours in it and add up to the duration of the period.""",
     ["inputs"], "all peak definitions and indices", "tests use the German peak hours and few others",
     [T + "peakfn.py", T + "product.py"], [("peak function factory", T + "peakfn.py")])

prop("C16", "Peak/offpeak decompositions conserve values and convert back",
     """Decomposing a timeseries or portfolio line into peak and offpeak values per month, quarter or year gives for each complete period the sum (energy, revenue, duration) or duration-weighted average (price) of the values in its peak and offpeak periods, and power = energy / duration and price = revenue / energy.
     Completing two of base, peak, offpeak gives the third without arbitrage (base is the sum, or the duration-weighted average of peak and offpeak).
     Spreading peak/offpeak values over a timeseries gives each period its own value (summable values divided over the peak or offpeak duration), so that aggregating again - to the same or a longer frequency - conserves them.""",
     ["inputs"], "all curves, peak functions, frequencies, indices", "tests use one year of data in one timezone",
     [T + "peakconvert.py", P + "flat_methods.py"], [("peak conversions", T + "peakconvert.py"), ("po", P + "flat_methods.py")])

prop("C17", "A portfolio state balances in every period",
     """For every portfolio state and every period: offtake + sourced + unsourced volume is zero; the unsourced price is the given market price wherever there is unsourced volume; procurement cost is the sum of sourced and unsourced, in volume and revenue; net position is the negative of unsourced; sourced fraction is sourced divided by minus offtake volume, and the unsourced fraction is one minus that.
     All parts share the index of the offtake volume, price and sourcing data being reduced to it, and without sourcing the sourced volume and cost are zero.
     Data that does not contain the needed dimension, has an incompatible index, or does not cover the offtake periods is refused.""",
     ["inputs", "histories"], "all offtake, sourced and price lines (flat/nested, signs, zero volumes)", "tests use random but few states with positive sourcing",
     [S + "pfstate.py", S + "pfstate_helper.py"], [("derived parts", S + "pfstate.py"), ("input checks", S + "pfstate_helper.py")])

prop("C18", "Arithmetic and resampling of portfolio states keep volumes, cost and value",
     """Adding or subtracting portfolio states adds or subtracts offtake, sourced and unsourced volume and revenue in the shared periods (market prices being averaged by unsourced volume); scaling multiplies volumes and revenues and leaves prices; dividing states gives the ratios of their volumes and prices.
     Resampling a state gives the resampled offtake, sourced and unsourced volumes and revenues of its parts, so that (where there is unsourced volume) market price is weighted with unsourced volume and total cost is conserved over full periods.
     Combining a state with a nonzero number, a line or a quantity with dimension, multiplying states, and uniting states is refused.""",
     ["inputs"], "all pairs of states, factors, frequencies", "tests use few fixed states",
     [S + "arithmatic.py", S + "pfstate.py"], [("state arithmetic", S + "arithmatic.py"), ("asfreq", S + "pfstate.py")])

prop("C19", "Sourcing, replacing parts and valuing a state change only what they should",
     """Setting offtake, price or sourcing of a state changes exactly that part and the quantities derived from it; adding sourcing adds it to the sourced part; sourcing the unsourced volume adds exactly the hedge of the unsourced volume at the market prices, after which the remaining unsourced volume (volume hedge) or value (value hedge) of each hedge product is zero.
     The mark-to-market value of the sourced volume is sourced volume x (market price - sourced price) in each period with sourced volume.""",
     ["inputs", "histories"], "all states, hedge methods, products and sequences of updates", "tests check a few calls against recorded output",
     [S + "pfstate.py", T + "hedge.py"], [("set/add/source/mtm", S + "pfstate.py")])

prop("C20", "Selecting periods keeps exactly the selected values",
     """Slicing a portfolio line or state by timestamps gives exactly the periods from the start (inclusive) until the end (exclusive), label selection includes the end, and the values of the selected periods (for each child and part) are unchanged; splitting at any day boundary and adding up the pieces loses nothing.
     Selections that would leave an empty or invalid line (no full days, or with gaps) are refused.
     Reindexing to a compatible index keeps values of shared periods and gives zero elsewhere.""",
     ["inputs"], "all lines/states and bounds (at, between and beyond timestamps; none)", "tests use few bounds",
     [P + "flat_methods.py", P + "nested_methods.py", S + "pfstate.py"], [("loc/slice/reindex", P + "flat_methods.py")])

prop("C21", "Concatenation restores a split object and refuses gaps, overlaps and mixtures",
     """Concatenating portfolio lines or states that follow each other without gap gives the object with all their periods and values (per child), regardless of the order in which they are passed; splitting an object at any boundaries and concatenating the pieces gives back an equal object.
     Pieces with a gap or overlap, or with different kind, frequency, timezone, start-of-day, structure or child names, a mixture of lines and states, and fewer than two lines are refused.""",
     ["inputs"], "all splits of all objects and orders", "tests use two or three fixed pieces",
     [P2 + "concat.py"], [("concat", P2 + "concat.py")])

prop("C22", "Intersections contain exactly the common delivery periods",
     """Intersecting indices, series, dataframes or portfolio lines gives each the periods that are common to all of them, with its own values, name, frequency, timezone and start-of-day; without overlap the results are empty (portfolio lines, which cannot be empty, raise an error).
     Differences in frequency, timezone or start-of-day are refused unless explicitly ignored; ignoring frequency keeps the full common periods of the longest frequency, ignoring timezone compares wall times, and ignoring start-of-day compares days and keeps each object's own start-of-day.
     The result does not depend on the order of the objects.""",
     ["inputs"], "all tuples of indices and flag combinations", "tests use enumerated pairs around a few dates",
     [T + "intersect.py", P2 + "intersect.py"], [("intersection", T + "intersect.py")])

prop("C23", "Standardizing a frame keeps its values on the right periods, or is refused",
     """Standardizing a series or dataframe whose timestamps are left- or right-bound, with or without frequency, timezone-aware or not, gives left-bound timestamps with a frequency and the same values for the same delivery periods, converted as requested to timezone-aware or -agnostic; doing it twice changes nothing.
     Timestamps without frequency are recognized if there are enough (three) to infer it.
     Data with gaps, duplicate timestamps, partial days, or timestamps that are not period starts is refused.""",
     ["inputs"], "all indices (bound, freq known or not, tz, local-time with DST) and options", "tests enumerate a few DST weeks in two timezones",
     [T + "standardize.py", T + "righttoleft.py", T + "freq.py", T + "tzone.py"], [("standardize", T + "standardize.py"), ("guess frequency", T + "freq.py")])

prop("C24", "Timezone conversion keeps wall-clock values and handles DST hours as specified",
     """Converting to timezone-agnostic keeps, for daily or longer data, every value on its own wall-clock date, and for (quarter)hourly data every wall-clock time's (first) value, with the skipped hour taking the value of the hour before; converting agnostic data to a timezone drops values in the skipped hour and repeats those of the repeated hour.
     Conversion to another timezone keeps wall-clock time if floating, and otherwise keeps the moments and values unchanged.
     Frequency, name, columns and unit are kept, and converting data without DST change there and back gives the original.""",
     ["inputs"], "all frames and timezone pairs", "tests enumerate spring and autumn 2020 in a few timezones",
     [T + "tzone.py"], [("tz conversions", T + "tzone.py")])

prop("C25", "Mapping onto another year takes each value from a matching period",
     """Mapping a line, series or dataframe with daily or shorter values onto another year gives the same calendar months in the target year, every target day taking all its values from one source day in the same calendar month, that has the same duration type (DST-change day or normal), and for normal non-holidays is the same weekday and no holiday; holidays are taken from the same holiday if it is there, and otherwise from another holiday or Sunday in that month.
     Mapping a year onto itself changes nothing, repetition of source days is minimized (and of the least used days the one nearest in the month is taken), and months or longer periods are taken from the same calendar month.
     Power and prices are copied, and energy and revenue follow the duration of the target period.
     Months or days without correspondence in the source are refused.
     Days are characterized by their date, weekday, holiday name and whether their duration differs from 24 hours.""",
     ["inputs"], "all spans of full months, source and target years, countries, timezones, start-of-day", "tests check few year pairs against recorded mappings",
     [T + "changeyear.py", P2 + "changeyear.py"], [("mapping", T + "changeyear.py"), ("lines", P2 + "changeyear.py")])

prop("C26", "Operations are pure: operands never change and results are reproducible",
     """No public operation on portfolio lines, states, series or dataframes changes any of its operands (values, index, frequency, name, children), also not when the operation fails; and changing values of a frame after building a line from it, or of a frame exported from a line, does not change the line.
     Repeating the operation on the same operands gives an identical result, and portfolio lines and states cannot be changed by assignment.""",
     ["histories", "inputs"], "all operations and operands; all sequences of operations", "tests rarely look at operands after an operation",
     [P + "classes.py", P + "children.py", P + "text.py", "portfolyo/core/shared/text.py", T + "changefreq.py", T + "frame.py", T + "freq.py"],
     [("frozen dataclasses; copies before modification", P + "classes.py")], HIST)

prop("C27", "Exports show exactly the data of the object",
     """The dataframe of a portfolio line or state contains the requested available columns for every requested level of children (and part of the state), under their names and with exactly their values, with units or as plain default-unit numbers.
     Excel and clipboard exports contain the same values with wall-clock timestamps and units in the header.
     The text form shows kind, start, end, frequency, number of datapoints, timezone, start-of-day, child names and the correctly rounded first and last values.""",
     ["inputs"], "all lines and states, column selections, levels", "tests only check that text output does not fail and few frames",
     [P + "dataframeexport.py", S + "pfstate.py", "portfolyo/core/shared/excelclipboard.py", P + "text.py", "portfolyo/core/shared/text.py", T + "frame.py"],
     [("dataframe", P + "dataframeexport.py"), ("excel/clipboard", "portfolyo/core/shared/excelclipboard.py"), ("text", "portfolyo/core/shared/text.py")])

prop("C28", "Equality and truth value of lines reflect their data",
     """Two portfolio lines are equal exactly if they have the same kind, structure, index and values, and for nested lines the same names with equal children; any noticeable change of one value in one period, of the index, or of a child makes them unequal, and rebuilding from the same data makes them equal.
     The same holds for portfolio states with their offtake, sourced and unsourced parts.
     A line is true exactly if it (or any child at any depth) has a nonzero value (for complete lines: volume or revenue).""",
     ["inputs"], "all pairs of lines/states", "tests compare few objects",
     [P + "flat_methods.py", P + "nested_methods.py", P + "classes.py", T + "testing.py", S + "pfstate.py"], [("equality", P + "flat_methods.py"), ("truth value", P + "classes.py")])

prop("C29", "Filling gaps interpolates only short inner gaps and touches nothing else",
     """Filling gaps in a series or dataframe replaces each run of at most `maxgap` consecutive missing values that has a value on both sides by linear interpolation in time between these two values.
     Longer gaps, gaps at the start or end, and all existing values are unchanged; the input is not modified.""",
     ["inputs"], "all gap patterns, positions and maxgap values", "tests use a few gap patterns",
     [T + "frame.py"], [("fill_gaps", T + "frame.py")])

prop("C30", "Figures show exactly the data of the object, in its delivery periods",
     """A figure of a portfolio line (`plot`, `plot_to_ax`) shows its volume, price or revenue - a complete line all three, in one figure - with in each delivery period exactly the value of that period: with monthly or longer periods as one bar per period (volume in MWh), with daily or shorter periods as an area (volume in MW) or stepped line (price, revenue) that has the value from start to end of the period, and shows nothing outside of the data.
     If asked, each direct child is shown with its own values, under its name in the legend.
     Data labels show the correctly formatted value at the place of their period, the names along the axis of bars are those of the periods (month, calendar quarter, year), the axis is labelled with the unit, and all of the data is in sight.
     A figure of a portfolio state shows offtake (as positive volume), sourced and unsourced volume, and procurement, sourced and unsourced price, under these titles; `plot_pfstates` does so for offtake, sourced fraction and procurement price of several states.
     Timeseries in other units are converted to that of the axis; timeseries of another dimension or frequency than the axis, or unsuitable for the kind of plot, as well as complete lines without choice of what to plot, are refused.
     Plotting does not change the object.""",
     ["inputs"], "all lines, states, frequencies, timezones, children and labels", "tests only check that plotting does not fail",
     [P + "plot.py", S + "plot.py", T + "visualize/plot.py", T + "visualize/categories.py", "portfolyo/tools2/plot.py"],
     [("lines", P + "plot.py"), ("states", S + "plot.py"), ("drawing", T + "visualize/plot.py"), ("names of periods", T + "visualize/categories.py")])

prop("C31", "Frequencies are accepted, compared and recognised as the calendar has it",
     """Exactly the frequencies quarterhour, hour, day, month, quarter and year (the last two starting in any month), in any spelling, are accepted as length of delivery periods; multiples and others are refused, also for portfolio lines.
     The shortest and longest of several frequencies, whether changing one into another means upsampling (1), downsampling (-1), nothing (0) or is impossible because the periods do not fit into each other, and whether a frequency is long or short enough, follow from the length and start of the actual periods.
     Adding the offset of a frequency to the start of any delivery period gives the start of the next one, also at DST changes; the duration of any delivery period is attributed to its frequency.
     Three or more timestamps of consecutive periods without frequency get the frequency they have, other timestamps do not get a frequency that they do not have; setting a wrong frequency is refused; the input is not changed.""",
     ["inputs"], "all frequencies, periods, timezones and starts of the day", "tests use few frequencies and no DST changes",
     [T + "freq.py"], [("comparison", T + "freq.py"), ("recognition", T + "freq.py")])

prop("C32", "Comparison functions pass for equal data and fail for any difference",
     """`pf.testing.assert_series_equal` and `assert_frame_equal` pass for data with the same index, names and quantities - however rounded, in whichever unit of the same dimension, and with columns in whichever order - and raise AssertionError if one value, the index (timestamps, timezone, length), a name or column, the dimension, or the presence of a unit differs.
     `assert_value_equal` does so for single values; `assert_indices_compatible` passes exactly if frequency, start-of-day and timezone are the same; the consistency checks of w and q, and of r, p and q, pass for consistent values and fail if one value is off.""",
     ["inputs"], "all series, frames, values and kinds of difference", "they are only used in tests, never tested themselves",
     [T + "testing.py", T + "unit.py"], [("comparison", T + "testing.py")])

prop("C33", "Mock-up data is what was asked for and valid in itself",
     """The functions of `pf.dev` return what is asked of them, for every index and request: `get_index` an index with the wanted frequency, timezone, start of the day, start date and number of periods (with (quarter)hours: cut down to complete days, and refused if there is not one); `get_series` and `get_dataframe` positive, finite data on the given index, with the wanted columns, with units of the right dimension or without units; `get_pfline`, `get_flatpfline`, `get_nestedpfline` and `get_randompfline` internally consistent lines of the wanted kind, on the given index, with the wanted (maximum) number of levels and of children at every level, and without negative values if these are excluded; `get_pfstate(s)` balanced states (as many as wanted) with offtake around the wanted average.
     The curves of `w_offtake` and `p_marketprices` are flat where the amplitudes are 0, higher in winter, midweek, midday and peak hours with positive amplitudes, and lower with negative ones, within the wanted amplitude, and amplitudes above 100% are refused; the sourced volumes and prices of `wp_sourced` are uniform per product (and peak and offpeak hours), in the unit of the offtake, and around the wanted averages.
     The same seed gives the same data.""",
     ["inputs"], "all indices, kinds, levels, numbers of children, amplitudes, units and seeds", "tests use mock-ups as input for other tests, and do not judge them",
     ["portfolyo/dev/develop.py", "portfolyo/dev/mockup.py"],
     [("objects", "portfolyo/dev/develop.py"), ("curves", "portfolyo/dev/mockup.py")])

prop("C34", "Operands in any form act like the portfolio line they describe",
     """In `+`, `-`, `*`, `/` and `|` with a portfolio line, the other operand may be given in another form: timeseries with unit, a dataframe, dictionary or list of timeseries (also without unit, if the key tells what they are), a single value with unit, or a dictionary of single values with or without unit (which hold for every period of the line).
     The outcome is that of the same operation with the portfolio line that the operand describes: same kind, same children, same (shared) periods, same values; what is refused with the line is refused in any form. A dictionary works in the same way as left operand of `+`, `*` and `|`, and a dictionary of children works like the nested line.
     Dimensionless factors and divisors (number, quantity, ratio of units, timeseries, or dictionary with key `nodim`) scale every value and every child, in any form.""",
     ["inputs"], "all lines, operations, and forms of the operand", "tests fix a few forms with few values, and compare few of them with each other",
     [P + "arithmatic.py", P + "interop.py", P + "create.py", P + "decorators.py"],
     [("conversion of operands", P + "arithmatic.py"), ("forms", P + "interop.py")])


def main():
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": ["return values, raised errors and operands of the public API"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        if not os.path.exists(os.path.join(H, "vf", "props", p["id"].lower() + ".py")):
            print("no check yet:", p["id"])
            continue
        checks.append({
            "property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "exploration",
            "level_note": p["note"] or "Holds on every generated case of the run (counts, distinctness and what the oracle observed are in the evidence); nothing is claimed about inputs not generated. Trusts the stdlib-only reference calendar and the numpy reference models in vf/.",
        })
    m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the monitors observe operands, results and errors at the public API", "source_commits": []},
         "checks": checks, "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in {c["property"] for c in checks}],
         "notes": "Pure-Python target, imported straight from /repo's working tree; see DESIGN.md."}
    with open(os.path.join(H, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def design():
    """Fill the generated sections of DESIGN.md: per property, planted bugs."""
    import ast, re
    path = os.path.join(H, "DESIGN.md")
    out = []
    for p in PROPS:
        src = open(os.path.join(H, "vf", "props", p["id"].lower() + ".py")).read()
        doc = ast.get_docstring(ast.parse(src)).replace("\n", " ")
        doc = re.sub(r"^[Cc]\d+: ", "", doc)
        rule = re.search(r'^RULE = "(.*)"', src, re.M)
        scen = re.findall(r"@scenario\(quick=(\d+).*\n(?:@.*\n)*def (\w+)", src)
        out.append(f"**{p['id']} {p['title']}.** {doc} *Explored:* {rule.group(1) if rule else ''}; "
                   f"per quick run {', '.join(n + ' x ' + k for k, n in scen)} cases (thorough about 12 times as many). "
                   f"*Beyond the tests:* {p['why']}.\n")
    rows = ["| change | needs | caught by |", "|---|---|---|"]
    sd = os.path.join(H, "seeded")
    caught = json.load(open(os.path.join(H, "caught.json"))) if os.path.exists(os.path.join(H, "caught.json")) else {}
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        rows.append(f"| {b}: {m['what_it_breaks']} | {m['needs']} | {caught.get(b, '?')} |")
    text = open(path).read()
    for name, body in (("perprop", "\n".join(out)), ("seeded", "\n".join(rows))):
        text = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end -->)", lambda m: m.group(1) + body.rstrip() + "\n" + m.group(2), text, flags=re.S)
    with open(path, "w") as f:
        f.write(text)


main()
if os.path.isdir(os.path.join(H, "seeded")):  # (absent in copies)
    design()
