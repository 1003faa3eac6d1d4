"""Single source of properties.jsonl and MANIFEST.json:  python3-vt tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), claimed=True, reason=None, note=None, level="proof",
         technique=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=list(over),
                  claimed=claimed, reason=reason, note=note, level=level, technique=technique))


WHY = ("The existing tests sample a few hand-made grids and values (and most of them cannot even run without iris); the "
       "claim is over every value, every grid size and every mask layout.")

prop("C01", "Thresholding gives the exact comparison or fuzzy truth value",
     "Every valid input value is converted to 1 where it satisfies the requested comparison with the threshold (strictly "
     "or not, as named) and 0 where it does not; with fuzzy bounds the truth value is the linear ramp between the lower "
     "bound, the threshold (one half) and the upper bound, reversed for below-threshold comparisons. Truth values lie in "
     "[0, 1], missing input stays missing, and realizations are averaged over the valid members only.",
     "all data values, thresholds, fuzzy bounds, comparison operators, grid sizes and masks",
     WHY, ["improver/threshold.py", "improver/utilities/rescale.py", "improver/utilities/probability_manipulation.py"],
     [("fuzzy truth value", "improver/threshold.py"), ("rescale", "improver/utilities/rescale.py")])
prop("C02", "Neighbourhood means and sums are exact over the window's valid points",
     "The neighbourhood value at every point equals the (kernel-weighted) mean or sum of the valid points of the window "
     "centred on it; beyond the grid edge a square neighbourhood has no points and a circular one repeats the nearest edge "
     "value. Masked points contribute nothing and are masked in the output when re-masking is requested, and input holding "
     "not-a-number values is refused. A neighbourhood mean never leaves the range of the values it averages.",
     "all grids, radii, masks and field values", WHY,
     ["improver/nbhood/nbhood.py", "improver/utilities/neighbourhood_tools.py", "improver/nbhood/__init__.py"],
     [("box sum by cumulative sums", "improver/utilities/neighbourhood_tools.py"),
      ("neighbourhood calculation", "improver/nbhood/nbhood.py")])
prop("C03", "Recursive filtering is an order-preserving convex smoothing",
     "Every value produced by the recursive filter is a convex combination of input values: constant fields are unchanged "
     "and no output lies outside the range of the inputs. The forward and backward sweeps apply the standard one-term "
     "recursion with the smoothing coefficient of the adjoining pair of points, and the smoothing coefficients of pairs "
     "straddling a mask edge are zero.",
     "all grid sizes, smoothing coefficients in [0, 0.5], field values and iteration counts", WHY,
     ["improver/nbhood/recursive_filter.py", "improver/utilities/pad_spatial.py"],
     [("recursion sweeps", "improver/nbhood/recursive_filter.py")])
prop("C04", "Blending weights are non-negative and sum to one",
     "Weights produced for blending are never negative and sum to one over the blended coordinate, for linear, non-linear "
     "and triangular weighting alike; redistribution of the weight of missing inputs preserves the total, and spatial "
     "rescaling gives zero weight to masked inputs and leaves weights summing to one wherever some present input is not "
     "near missing points.",
     "all coordinate lengths, parameters, weights and masks", WHY,
     ["improver/blending/weights.py", "improver/blending/spatial_weights.py", "improver/blending/weighted_blend.py"],
     [("weight normalisation", "improver/blending/weights.py")])
prop("C05", "Weighted blending is a convex combination of its inputs",
     "A weighted-mean blend equals the sum of input values times weights normalised over the valid inputs, so it lies "
     "between the smallest and largest valid input; a weighted-percentile blend is non-decreasing in percentile and stays "
     "within the range of its inputs.",
     "all inputs, weights and masks", WHY, ["improver/blending/weighted_blend.py"],
     [("weighted mean / percentile", "improver/blending/weighted_blend.py")])
prop("C06", "Time interpolation reproduces end points and conserves accumulations",
     "Linear interpolation in time between two fields gives the time-weighted average of the two fields, lies between "
     "them, and reproduces them at the ends; interpolated period accumulations sum to the original accumulation, and "
     "requested times always lie within the window.",
     "all times, fields and interpolation methods", WHY, ["improver/utilities/temporal_interpolation.py"],
     [("temporal interpolation", "improver/utilities/temporal_interpolation.py")])
prop("C07", "Percentiles, probabilities and realizations convert consistently",
     "Percentiles derived from probabilities are non-decreasing in percentile, lie within the (possibly widened) bounds "
     "of the distribution, and reproduce the threshold where the probability matches exactly; interpolation of "
     "percentiles passes through its known points. Thresholds or values beyond the distribution's bounds widen them (or "
     "are refused), percentiles and probabilities made from location and scale parameters are the quantiles and "
     "distribution function of that distribution, point masks are carried over, and evenly spread percentiles become "
     "consecutively numbered realizations.",
     "all thresholds, probabilities, percentiles and grid sizes", WHY,
     ["improver/ensemble_copula_coupling/ensemble_copula_coupling.py", "improver/ensemble_copula_coupling/utilities.py"],
     [("probability to percentile conversion", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py")])
prop("C08", "Ensemble reordering keeps the calibrated values and the raw ranks",
     "Reordering a calibrated ensemble leaves at every grid point exactly the same multiset of calibrated values, placed "
     "so that their order across members matches the order of the raw ensemble members. Masked points stay masked, "
     "ensembles whose masks disagree between members are refused, and a raw ensemble of another size is recycled "
     "cyclically.",
     "all ensembles, with ties, and grid sizes", WHY,
     ["improver/ensemble_copula_coupling/ensemble_copula_coupling.py"],
     [("rank reordering", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py")])
prop("C09", "Humidity and latent heat calculations are physically consistent",
     "The saturation vapour pressure table follows the Goff-Gratch formulae over ice and water and increases with "
     "temperature; looked-up vapour pressures are interpolated linearly in it, held at its ends and never decrease as "
     "temperature rises, and are corrected for the pressure of air. Saturated mixing ratios lie in [0, 1]; the "
     "dry-adiabatic temperature and pressure calculations are mutual inverses; a humidity mixing ratio is the relative "
     "humidity times the saturated value. Latent heating never cools, leaves subsaturated air unchanged, and otherwise "
     "condenses to saturation with the matching heat release.",
     "all temperatures, pressures, relative humidities and grid sizes", WHY,
     ["improver/psychrometric_calculations/psychrometric_calculations.py", "improver/generate_ancillaries/generate_svp_table.py"],
     [("psychrometric functions", "improver/psychrometric_calculations/psychrometric_calculations.py"),
      ("saturation vapour pressure table", "improver/generate_ancillaries/generate_svp_table.py")])
prop("C10", "Feels-like temperature joins wind chill and apparent temperature continuously",
     "The feels-like temperature equals wind chill below 10 Celsius, apparent temperature above 20 Celsius, and the "
     "linear mix of the two in between; it is therefore always between the two.",
     "all temperatures, winds, humidities and pressures", WHY, ["improver/feels_like_temperature.py"],
     [("blend of wind chill and apparent temperature", "improver/feels_like_temperature.py")])
prop("C11", "Wind speed, direction and components agree",
     "Resolving speed and direction into grid-relative components gives the vector they describe and leaves the inputs "
     "unaltered; directions are in [0, 360) and converting them to vectors and back recovers them. Ensemble mean "
     "directions are those of the vector mean, or the chosen backup (first member or neighbourhood) exactly where the mean "
     "is ill defined, whatever the plugin processed before. A reported gust is the larger of the gust and the accompanying "
     "wind speed, at matching percentiles and times only.",
     "all speeds, directions, grid rotations, ensembles and sequences of calls", WHY,
     ["improver/wind_calculations/wind_components.py", "improver/wind_calculations/wind_direction.py",
      "improver/utilities/complex_conversion.py", "improver/wind_calculations/wind_gust_diagnostic.py"],
     [("complex wind arithmetic", "improver/wind_calculations/wind_direction.py")], over=("inputs", "history"))
prop("C12", "Precipitation fractions and phases partition the total",
     "The snow fraction is snow over snow plus rain wherever anything falls and that of a nearest such point elsewhere; the "
     "hail fraction ramps with updraught from 0 to a quarter, is zero where the cloud is wrong for hail or hail melts, and "
     "is at least 0.05 where large hail is diagnosed; all lie in [0, 1]. Splitting precipitation by phase conserves the "
     "total; the convective ratio is convective over total, undefined exactly where nothing falls; rain, sleet and snow "
     "probabilities sum to one. Masked rates and probabilities summing to more than one are refused.",
     "all rates, probabilities, grids and masks", WHY,
     ["improver/precipitation_type/snow_fraction.py", "improver/precipitation_type/snow_splitter.py",
      "improver/precipitation_type/hail_fraction.py", "improver/precipitation_type/convection.py",
      "improver/precipitation_type/calculate_sleet_prob.py"],
     [("fraction calculations", "improver/precipitation_type/")])
prop("C13", "Lapse-rate adjustment moves temperatures by gradient times height difference",
     "Applying a lapse rate to a grid or to sites changes temperature by the lapse rate times the height difference up to "
     "50 m, and by the fixed environmental rate (-0.0065 K/m) times what lies beyond, leaving the orographies and rates "
     "unaltered. Estimated lapse rates over land are the least-squares slope of temperature on height over the land points "
     "of the window close to the centre in height, clipped to the configured range; at sea, or where there is no slope "
     "(flat ground or uniform temperature), they are the dry adiabatic rate. Site heights of thresholds move by the site's "
     "vertical displacement. Mismatched grids, heights or diagnostics are refused.",
     "all temperatures, orographies, land masks, heights and lapse rates", WHY,
     ["improver/lapse_rate.py", "improver/spotdata/apply_lapse_rate.py", "improver/spotdata/height_adjustment.py"],
     [("lapse rate", "improver/lapse_rate.py")])
prop("C14", "Vicinity processing takes the maximum within the radius",
     "The in-vicinity value at each point is the maximum of the valid values within the square of the given cell radius, "
     "for every radius asked for and whatever the type of the field; missing points stay missing, and land and sea points "
     "only see points of their own kind when a land mask is given. Distances convert to whole cells rounded down, and less "
     "than a cell is refused. Grid differences, distances and gradients are those between adjacent points, wrapping round "
     "a global grid.",
     "all grids, radii, masks and field values", WHY, ["improver/utilities/spatial.py"],
     [("occurrence within vicinity", "improver/utilities/spatial.py")])
prop("C15", "Halo padding preserves the interior and is undone by removal",
     "Padding a grid with a halo leaves every original value and coordinate at its shifted position, extends coordinates "
     "at the same spacing, and removing the halo returns the original grid.",
     "all grids and halo widths", WHY, ["improver/utilities/pad_spatial.py"], [("halo padding", "improver/utilities/pad_spatial.py")])
prop("C16", "Nowcast accumulations integrate rates over the period",
     "A period accumulation equals the sum over sub-periods of the mean of the bounding rates times the sub-period "
     "length, is never negative for non-negative rates, and is missing where any contributing rate is missing. Its time "
     "bounds state exactly the period integrated, whatever the order and units of the input rates and whatever the plugin "
     "processed before; rates at uneven intervals and periods the interval does not divide are refused.",
     "all rate fields, masks, intervals, periods and sequences of calls", WHY, ["improver/nowcasting/accumulation.py"],
     [("accumulation", "improver/nowcasting/accumulation.py")], over=("inputs", "history"))
prop("C17", "EMOS applies the relations it was trained with, to matching forecasts only",
     "The calibrated location parameter is alpha plus the sum of beta times the ensemble mean and the additional fields (or beta "
     "squared times the members), and the scale parameter is the root of gamma squared plus delta squared times the ensemble "
     "variance, with the coefficients of the domain or of the point itself; training minimises the mean CRPS of the normal or "
     "truncated normal distribution with exactly those location and scale relations, over forecasts paired with the truth of "
     "their own validity time, with valid points only, in the same order for forecasts and truths. Coefficients for another "
     "diagnostic, forecast period, cycle hour, domain or number of predictors are refused. The output is the quantiles, "
     "probabilities or ordered members of that distribution; with a land mask only land points are calibrated and used in "
     "training, and sea points keep the input values.",
     "all coefficients, ensembles, truths, masks and grids", WHY, ["improver/calibration/ensemble_calibration.py", "improver/calibration/utilities.py"],
     [("EMOS", "improver/calibration/ensemble_calibration.py"), ("utilities", "improver/calibration/utilities.py")])
prop("C18", "Reliability calibration counts each forecast once and maps onto a rising curve",
     "The probability bins partition [0, 1]; for every time with a truth, each forecast that is a number adds itself, its probability "
     "and its outcome to exactly one bin of its threshold's table, and a point is missing from the table exactly when no time has a "
     "truth there. Tables aggregate by addition and overlapping cycles are refused. Undersampled bins are merged until none is left, "
     "losing nothing, and the observed frequencies are then made to rise with probability. Calibration maps each forecast through "
     "the table of its own threshold (and site), linearly between its points, within [0, 1], keeping the order of forecasts, and "
     "the results are in order over the thresholds; forecasts without a table are refused.",
     "all forecasts, truths, masks, tables and thresholds", WHY, ["improver/calibration/reliability_calibration.py"],
     [("reliability", "improver/calibration/reliability_calibration.py")])
prop("C19", "Combining cubes applies the operation at every point and spans their periods",
     "Combining fields by addition, subtraction, multiplication, maximum, minimum or mean gives at every point that operation over "
     "the inputs in their order, missing where any input is missing (masked addition: where all are, missing points counting as "
     "nothing); the time and lead time periods cover those of all inputs and end where they end. Broadcasting applies the second "
     "field to every threshold and member. With a minimum number of members, only members present at every time are combined. "
     "Inputs on other grids, single inputs and periods of unequal length are refused; inputs are not altered, and a plugin gives "
     "the same result whatever it was used for before.",
     "all values, masks, members, thresholds and times", WHY, ["improver/cube_combiner.py", "improver/utilities/cube_manipulation.py"],
     [("cube combiner", "improver/cube_combiner.py")])
prop("C20", "Solar geometry and day-night masks are consistent",
     "Solar elevation follows the standard formula from declination, hour angle and latitude, lies within [-90, 90], and a "
     "point is night exactly when the sun is below the horizon at the time or period mid-point of that field.",
     "all days, hours, latitudes and longitudes", WHY, ["improver/utilities/solar.py"], [("solar", "improver/utilities/solar.py")])
prop("C21", "Decision trees give each point the leaf its own answers lead to",
     "Every point gets the category of the leaf reached from the tree's root by answering its questions with that point's values "
     "(comparisons, AND/OR combinations, arithmetic of fields with the usual precedence, thresholds in any unit or scaled to the "
     "period), and is missing exactly when a question asked of it cannot be answered. Absent optional diagnostics are passed over "
     "in the direction they name, absent required ones are refused, inputs of different times or periods are refused, night "
     "categories apply exactly where it is night, and a plugin gives the same result whatever it was used for before. The modal "
     "category of a period is the commonest day form, the most significant of those as common, or, when none makes up three tenths "
     "of the period, the commonest after counting group members together as the least present; its period covers all inputs.",
     "all fields, masks, thresholds, trees of the listed shapes and sequences of uses", WHY,
     ["improver/categorical/decision_tree.py", "improver/categorical/utilities.py", "improver/categorical/modal_code.py"],
     [("decision tree", "improver/categorical/decision_tree.py"), ("modal category", "improver/categorical/modal_code.py")])
prop("C22", "Times, lead times and standard types always agree",
     "The lead time of every forecast, and of the ends of its period, is its time less the reference time that goes with it, in whole "
     "seconds. Bringing forecasts to one cycle (the one given, else the latest) changes their reference and lead times only and does "
     "not alter the inputs; a time-lagged ensemble holds every member of every cycle exactly once. Integrating a rate multiplies each "
     "time by the length of its own period; relabelling gives the stated period ending at the time; the field at the nearest time is "
     "found, or refused when too far away. Standardising keeps values and instants, gives floats single precision and times their "
     "required units and types; fields breaking those standards are refused, and no others.",
     "all times, reference times, periods, values and grids", WHY,
     ["improver/metadata/forecast_times.py", "improver/utilities/temporal.py", "improver/utilities/time_lagging.py",
      "improver/standardise.py", "improver/metadata/check_datatypes.py"],
     [("lead times", "improver/metadata/forecast_times.py"), ("standards", "improver/standardise.py")])
prop("C23", "Probability inversion and band probabilities are complements",
     "Inverting a probability cube gives one minus each probability with the opposite comparison in its name and threshold "
     "attribute, nothing else renamed, keeping missing points; applying it twice restores the original and the input is not "
     "altered. The probability of lying between two thresholds is the difference of the probabilities at its two ends, in "
     "the input's sense, with the range recorded as bounds; unavailable thresholds and empty ranges are refused.",
     "all probabilities, thresholds, names and masks", WHY,
     ["improver/utilities/probability_manipulation.py", "improver/between_thresholds.py"],
     [("inversion", "improver/utilities/probability_manipulation.py")])
prop("C24", "Filling missing data never alters valid data",
     "Interpolating over missing data leaves every valid value unchanged, fills missing points only from permitted source "
     "points (so within their range), and applies a limit only in its direction and only where it filled. Filling by "
     "difference from a reference leaves nothing missing and adds only differences seen at valid points of the same field. "
     "Masking by another field masks exactly the points it selects, besides those already masked, and does not alter it.",
     "all fields, references, limits and masks", WHY, ["improver/utilities/interpolation.py", "improver/utilities/mask.py"],
     [("fill", "improver/utilities/interpolation.py")])
prop("C25", "Numeric utilities honour their stated mapping",
     "Rescaling is linear and clipped to the requested range, double scaling is piecewise linear and only limits in the "
     "stated direction, and rounding gives the closest integer of the requested type. Choosing by index takes each point from exactly "
     "the named slice. Vertical integration is the trapezium sum between the limits asked for, zero being a limit like any other, "
     "accumulated in the direction asked for. A fast linear fit gives the least-squares slope and intercept of the points present.",
     "all inputs", WHY, ["improver/utilities/rescale.py", "improver/utilities/round.py", "improver/utilities/indexing_operations.py",
                         "improver/utilities/mathematical_operations.py"],
     [("rescale", "improver/utilities/rescale.py"), ("integration", "improver/utilities/mathematical_operations.py")])
prop("C26", "Spot values are taken from exactly the neighbouring grid points",
     "Each site's value, in every leading slice, is that of exactly the grid point its neighbour entry names for the chosen "
     "method, with the sites' own coordinates; neighbours found for another grid, and methods the neighbour cube does not "
     "hold, are refused.",
     "all fields, site lists, neighbour indices and selection methods", WHY,
     ["improver/spotdata/spot_extraction.py"], [("extraction", "improver/spotdata/spot_extraction.py")])
prop("C27", "Forecasts forced to agree with a reference respect its bounds",
     "Wherever a forecast lies within the bounds set by a multiple of the reference plus an amount, it is left as it is; elsewhere it "
     "takes the nearest bound, in its own units; contradictory bounds and changed probabilities are refused. Parts normalised to a "
     "total share it in proportion to themselves, so they add up to it. Neither changes the fields it is given, and splitting "
     "fields by name puts each on exactly one side.",
     "all forecasts, references, amounts, multipliers and grids", WHY, ["improver/utilities/forecast_reference_enforcement.py"],
     [("enforcement", "improver/utilities/forecast_reference_enforcement.py")])
prop("C28", "Bias corrections take off exactly the errors they were taught",
     "The bias learnt at a point is the mean of forecast less truth over the pairs of equal validity time in which both exist, missing "
     "where there is no such pair, with the cycles used recorded. Applying biases takes their mean off every member, then limits to the "
     "stated bounds; where the bias is missing the result is missing or, on request, the forecast as it was. Biases of another cycle "
     "hour or lead time are refused. Rescaling by displacement multiplies each site by its own factor for the right lead time and hour. "
     "Forecasts and biases given to a bias correction are not altered.",
     "all forecasts, truths, masks, biases, sites and times", WHY,
     ["improver/calibration/simple_bias_correction.py", "improver/calibration/dz_rescaling.py"],
     [("bias", "improver/calibration/simple_bias_correction.py"), ("displacement", "improver/calibration/dz_rescaling.py")])

prop("C29", "Nowcasts carry each value with the flow and keep orography in place",
     "A nowcast takes at each point the value at the place the flow brings it from (speed times lead time, in grid lengths), the four "
     "points around that place weighted by nearness; a point is missing exactly where its source is off the grid or needs a missing "
     "value; no lead time means no change. Valid time is analysis time plus lead time; the analysis time is the reference time. "
     "Orographic enhancement, nearest in time, is taken off before and put back after, only where precipitation is at least 1/32 mm/h, "
     "never leaving less where there was that much. The radar mask keeps exactly the covered points; small gaps are filled from valid "
     "neighbours and nothing else changes. Fields on other grids are refused and inputs keep their values.",
     "all fields, masks, velocities, lead times and grid sizes", WHY,
     ["improver/nowcasting/forecasting.py", "improver/nowcasting/utilities.py"],
     [("advection", "improver/nowcasting/forecasting.py"), ("orography and radar", "improver/nowcasting/utilities.py")])

prop("C30", "The expected value is the mean of the forecast distribution",
     "The expected value of probabilities is the sum over the intervals between thresholds of the interval's probability times its "
     "middle, whichever way round the probabilities are stated; probabilities that fall where they should rise are refused. That of "
     "realizations, and of percentiles evenly spaced about the median, is their mean; unevenly spaced percentiles are refused. The "
     "result is the diagnostic itself, in its own units, on the grid, and the inputs keep their values.",
     "all probabilities, thresholds, realizations, percentiles and grids", WHY,
     ["improver/expected_value.py"], [("expected value", "improver/expected_value.py")])

prop("C31", "Phase changes happen where the wet-bulb profile says enough has melted",
     "Wet-bulb temperatures are found level by level and point by point to the precision asked; their integral counts positive Celsius "
     "values, downwards from the top. The phase change level is the height above sea level at which the integral, linear between "
     "levels, reaches the change's threshold (90, 202.5 or 5000 K m); the highest integrated level above ground where even that holds "
     "more; over sea the depth at which the line fitted to the lowest five temperatures completes it, 2000 m at most. Elsewhere it is "
     "filled from known levels no higher than the highest ground nearby, never above the ground itself, or missing if asked. Members "
     "use their own profiles, whatever the order and units of levels.",
     "all profiles, orographies, land masks, grids and radii", WHY,
     ["improver/psychrometric_calculations/psychrometric_calculations.py",
      "improver/psychrometric_calculations/wet_bulb_temperature.py"],
     [("phase change level", "improver/psychrometric_calculations/psychrometric_calculations.py"),
      ("wet-bulb temperature and integral", "improver/psychrometric_calculations/wet_bulb_temperature.py")])

prop("C32", "A blend uses and credits exactly the runs and models with weight",
     "Blending cycles or models takes each input once, weighted as its own age or model says whatever the order given. Inputs without "
     "weight take no part in the values and are not credited. The record attribute lists each contributing run with its weight "
     "(multiplied into weights recorded before), and combined products list each run once. The result names its models, keeps its "
     "validity time, is dated from the current cycle with a matching lead time, and carries no leftover blending coordinates. The "
     "input cubes are not changed. A model given twice, missing names, cycle times or weights, and unlike periods are refused.",
     "all cubes, orders, weights and cycle times", WHY,
     ["improver/blending/calculate_weights_and_blend.py", "improver/blending/utilities.py", "improver/blending/weighted_blend.py",
      "improver/metadata/forecast_times.py"],
     [("weight and blend", "improver/blending/calculate_weights_and_blend.py"),
      ("merging and records", "improver/blending/utilities.py")])

prop("C33", "Sites are given the grid point that their constraints describe",
     "Each site within the domain is given the nearest grid point; asked for land, the nearest land point within the radius; asked for "
     "the least height difference, the closest in height of the nearest so many (land) points within the radius, the nearer one where "
     "they tie; the nearest point where none qualifies. Distances on global grids go around the sphere. The displacement is the "
     "site's height less the chosen point's, an unknown height being the nearest point's. Sites outside are left out with all of "
     "their details; the result names its method and grid; invalid site numbers, units and unlike grids are refused.",
     "all orographies, site heights, land patterns, constraints, radii and dimension orders", WHY,
     ["improver/spotdata/neighbour_finding.py", "improver/spotdata/build_spotdata_cube.py"],
     [("neighbour selection", "improver/spotdata/neighbour_finding.py")])

prop("C34", "Height bands share each point with weights that sum to one",
     "Within the bands a point's weights sum to one: all of it for the band whose middle it is, half and half where two bands meet, "
     "linear between, the outer band alone beyond the outer middles; heights beyond the bands have no weight, and the sea is masked "
     "if asked. Each land point is in the mask of exactly the band above whose lower and not above whose upper limit it is. "
     "Neighbourhoods within bands are those of each slice under each band's mask with the radius for its own lead time, put together "
     "with the weights of the bands that have a value there; results keep the times of their slices. Half land or more is land.",
     "all orographies, land masks, band lists and inputs, with repeated slices, gaps and radii that vary with lead time", WHY,
     ["improver/generate_ancillaries/generate_topographic_zone_weights.py", "improver/generate_ancillaries/generate_ancillary.py",
      "improver/nbhood/use_nbhood.py"],
     [("zone weights", "improver/generate_ancillaries/generate_topographic_zone_weights.py"),
      ("band masks", "improver/generate_ancillaries/generate_ancillary.py"),
      ("neighbourhoods within bands", "improver/nbhood/use_nbhood.py")])

prop("C35", "Fields say what they are: names, attributes and grids stay true",
     "A probability's name is taken apart into its diagnostic, vicinity and kind of threshold and put together again; thresholds and "
     "percentiles are found wherever they are, and nothing else is taken for one. A renamed diagnostic takes its thresholds and "
     "remarks along. New diagnostics have the name, units and data given, their own copies of the template's coordinates, and the "
     "title, source and institution their inputs agree on, otherwise the defaults; a model required must be on all and agreed. "
     "Attributes are set, filled in or removed as asked and no others touched; post-processed results say so once. Grids match when "
     "their coordinates, systems and units do.",
     "all names, coordinates and attributes of the listed forms, on grids of any size", WHY,
     ["improver/metadata/utilities.py", "improver/metadata/probabilistic.py", "improver/metadata/amend.py", "improver/__init__.py"],
     [("attributes and grids", "improver/metadata/utilities.py"), ("probability names", "improver/metadata/probabilistic.py"),
      ("amendments", "improver/metadata/amend.py"), ("post-processed title", "improver/__init__.py")])

prop("C36", "Regridding interpolates within the source cell and keeps to like surfaces",
     "Each target point within the source grid, its edges included, is interpolated bilinearly from the cell it is in, or takes the "
     "nearest of that cell's points. With masks only source points of the target's own surface count: the plane through three where "
     "the target is in their triangle; otherwise those of the four nearest, weighted by distance to the power -1.8 or the nearest of "
     "them; failing those the ones among the eight nearest within the vicinity; failing those all points alike. A missing source "
     "value makes its targets missing; targets outside the source are missing. The result has the target's grid and the source's "
     "other coordinates, name, units and attributes, whichever way the source's latitudes run. Adjusting surfaces afterwards "
     "gives a point fetched from the other surface the nearest value of its own in the vicinity, if any, and leaves the rest, "
     "whatever it was used for before. A mask that does not cover the input's points is refused; grid attributes are the target's.",
     "all source values and gaps; cells and weights for all target positions; surface patterns and targets as listed", WHY,
     ["improver/regrid/landsea2.py", "improver/regrid/bilinear.py", "improver/regrid/nearest.py", "improver/regrid/idw.py",
      "improver/regrid/grid.py", "improver/regrid/landsea.py"],
     [("surfaces adjusted", "improver/regrid/landsea.py"), ("regridding with surfaces", "improver/regrid/landsea2.py"), ("cells and weights", "improver/regrid/bilinear.py"),
      ("nearest", "improver/regrid/nearest.py"), ("inverse distances", "improver/regrid/idw.py")])

prop("C37", "Rearranged, collapsed and merged cubes keep values with their coordinates",
     "Sorting a coordinate moves every value, missing point and coordinate along it; reordering dimensions puts the named ones first "
     "(or last) in the order named and the rest in their own; a dimension is added where asked, the values repeated along it. "
     "Collapsing members gives their sum, mean, median, standard deviation, least or greatest of those present, without a member "
     "coordinate and otherwise described as before. Clipping changes only values beyond the limits, to the limit. Merged fields hold "
     "each input's values, times and periods at its own place whatever the order given, attributes that differ left out; periods of "
     "unlike length are refused if asked, and inputs are not altered. The greatest over heights is that of the levels between the "
     "limits, both included, at the height of the lowest or highest level having it. Differences reported between fields are exactly "
     "the attributes and coordinates not on all with the same value.",
     "all values, gaps and grid sizes; coordinates, orders and attributes as listed", WHY,
     ["improver/utilities/cube_manipulation.py", "improver/utilities/cube_checker.py"],
     [("cube manipulation", "improver/utilities/cube_manipulation.py"), ("dimension order", "improver/utilities/cube_checker.py")])

prop("C38", "Lightning, freezing rain, showers and phases follow their stated rules",
     "Lightning is likely exactly where convective energy and rain both exceed limits that run linearly from 10 to 50 degrees of "
     "latitude, alike north and south; by regression it follows the stated relations of energy, inhibition, lifted index, water and "
     "rain, at most 0.95. Freezing rain is the mean, over the members all inputs have, of the probability of rain or sleet times that "
     "of freezing. Showery is the share of members with little enough cloud or a convective ratio high enough, an undefined ratio "
     "counting as none. Snow is certain where the ground is at or above its falling level and rain where it is below its own, in any "
     "units, the 80th percentile standing for snow and the 20th for rain. Each point is in exactly one of the rain, sleet and snow "
     "masks. Fields of other names, units, times, cycles, grids or thresholds are refused.",
     "all values, gaps and grid sizes; latitudes, members, limits and percentiles as listed", WHY,
     ["improver/lightning.py", "improver/precipitation_type/freezing_rain.py",
      "improver/precipitation_type/shower_condition_probability.py", "improver/precipitation_type/utilities.py",
      "improver/psychrometric_calculations/precip_phase_probability.py",
      "improver/psychrometric_calculations/significant_phase_mask.py"],
     [("lightning", "improver/lightning.py"), ("freezing rain", "improver/precipitation_type/freezing_rain.py"),
      ("showers", "improver/precipitation_type/shower_condition_probability.py"),
      ("phases", "improver/psychrometric_calculations/precip_phase_probability.py"),
      ("phase masks", "improver/psychrometric_calculations/significant_phase_mask.py")])

prop("C39", "Extraction keeps exactly what was asked for and unlike fields are recognised",
     "Extracting keeps exactly the points whose coordinates match every constraint: numbers to rounding, ranges with both their ends, "
     "in whatever units are stated, and every so many points of a range given a step; the units are restored if asked. Nothing "
     "matching is refused, or the field returned as it is if asked. The level at which a profile takes a value is linear between "
     "levels, with the end levels beyond; values missing in a column are filled from the nearest present one later in it, else earlier, "
     "with a small step per level. Fields agree in time only if all have or all lack periods as asked, the same times and, unless "
     "blended, the same cycle; in grid only if every x and y is the same. Dimensions lost by slicing are put back in the original's "
     "order, and a field that cannot be given them is refused.",
     "all values, gaps and grid sizes; constraints, levels, times and grids as listed", WHY,
     ["improver/utilities/cube_extraction.py", "improver/utilities/cube_constraints.py", "improver/utilities/cube_checker.py"],
     [("extraction", "improver/utilities/cube_extraction.py"), ("ranges", "improver/utilities/cube_constraints.py"),
      ("checks of fields", "improver/utilities/cube_checker.py")])


def main():
    base = open(os.path.join(HERE, "properties.jsonl"), "w")
    for p in P:
        base.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
    base.close()
    import sys
    sys.path.insert(0, HERE)
    from pyvc import concrete
    have = set()
    for k in concrete.load_contracts():
        have |= set(k.prop)
    checks, na = [], []
    for p in P:
        if p["claimed"] and p["id"] in have:
            checks.append({
                "property": p["id"], "quick_cmd": "python3-vt run.py %s quick" % p["id"],
                "thorough_cmd": "python3-vt run.py %s thorough" % p["id"],
                "technique": p["technique"] or "contract-based deductive verification: contracts on the real functions, "
                "obligations generated from current source, discharged by z3/cvc5",
                "level": p["level"],
                "level_note": p["note"] or "Every obligation is decided by SMT for arbitrary array sizes and values over "
                "mathematical reals; trusts the generator and the assumed contracts of numpy, iris and cf_units; contracts "
                "marked bounded in DESIGN.md are run on generated inputs only."})
        else:
            na.append({"property": p["id"], "reason": p["reason"] or "contracts for it are not finished yet"})
    json.dump({"version": 1, "setup_cmd": "python3-vt run.py --setup", "checks": checks, "not_applicable": na,
               "notes": "See DESIGN.md.  No hooks in /repo: contracts are sidecars on the unmodified source."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "claimed")


if __name__ == "__main__":
    main()
