H = "hrosailing/"
p("C01", "Wind conversion obeys the wind triangle row by row",
  "For every finite array of rows (wind speed >= 0, wind angle, boat speed), converting true to apparent wind gives, in the same row, the wind whose vector is the given wind vector plus the boat's speed along the bow axis (minus for apparent to true): non-negative speed, angle within 0 to 360 degrees on the same side of the boat, boat speed unchanged, whenever the resulting wind is not zero. Angles are understood modulo 360 and no row influences another. The caller's array is never modified, and input of wrong shape, non-numeric, non-finite or with a negative wind speed is rejected with an exception.",
  ["inputs"], "all arrays of any number of rows of finite reals with non-negative speeds",
  "No existing test calls the conversions at all; a trigonometric law over all speeds and angles, with the side and modulo cases, is not a matter of samples.",
  [H+"core/computing.py"], [("vector law and normalisation", "_Wind.convert_wind, _convert_wind_speed, _convert_wind_angle")],
  ["convert_true_wind_to_apparent", "convert_apparent_wind_to_true"])
p("C02", "True and apparent wind conversion are mutually inverse",
  "Converting true wind to apparent wind and back (or apparent to true and back) returns the original wind speed, the original wind angle modulo 360 degrees and the original boat speed, for every row in which neither wind is zero.",
  ["inputs"], "all rows with positive wind speed whose converted wind is non-zero, both directions of composition",
  "A round-trip law over a continuum of inputs; nothing in the suite composes the two conversions.",
  [H+"core/computing.py"], [("composition of both directions", "_Wind.convert_wind")],
  ["convert_true_wind_to_apparent", "convert_apparent_wind_to_true"])
p("C03", "Polar tables keep every boat speed at its own wind speed and angle",
  "A polar diagram table built from wind speed and wind angle resolutions and a boat speed matrix, in whatever order the resolutions are given, has strictly ascending resolutions with angles reduced modulo 360, and at every grid node holds and returns exactly the boat speed that was supplied for that pair. Inputs whose matrix shape does not match the resolutions are rejected, and arrays passed in by the caller are never modified.",
  ["inputs"], "all resolutions of any length in any order and all matching matrices",
  "Tests build only one or two small fixed tables that are nearly sorted already; the permutation argument is over all lengths and orders.",
  [H+"polardiagram/_polardiagramtable.py"], [("sorting and reordering", "PolarDiagramTable.__init__, _get_sorting, _sort_bsps"), ("resolution handling", "_Resolution")],
  ["PolarDiagramTable(...).wind_speeds / wind_angles / boat_speeds", "PolarDiagramTable.__call__"])
p("C04", "Changing table entries touches exactly the addressed cells",
  "Replacing boat speeds for some wind speeds and wind angles of a table puts each new value at exactly the pair it was given for and leaves every other cell unchanged. Unknown wind speeds or angles, or a value array of the wrong shape, are rejected and leave the whole table as it was.",
  ["inputs", "histories"], "all tables, all selections of rows and columns (in any order) and all new values, and every sequence of such changes",
  "The tests never change entries; a frame condition speaks about all untouched cells of all tables.",
  [H+"polardiagram/_polardiagramtable.py"], [("masked assignment", "PolarDiagramTable.change_entries, _get_indices")],
  ["PolarDiagramTable.change_entries followed by boat_speeds"])
p("C05", "Scattered-data interpolation reproduces data and never leaves its range",
  "Interpolating scattered boat speeds with the inverse-distance, improved inverse-distance, arithmetic-mean or Shepard interpolator at a point that coincides with a data point returns the value of a data point there. At any other point the first three return a weighted average of the values (times the scaling factor of the arithmetic mean), so never less than the smallest or more than the largest of them, also when all points are equally far away, and Shepard's interpolator reproduces constant data. The inputs are not modified, and under a norm that treats both coordinates alike exchanging the two coordinates of data and query does not change the result.",
  ["inputs"], "all non-empty point sets of any size, all query points, arbitrary norms",
  "Existing tests compare a handful of precomputed numbers; the range and reproduction laws are universal statements.",
  [H+"processing/interpolator.py"], [("weights", "IDWInterpolator, ArithmeticMeanInterpolator, ImprovedIDWInterpolator, ShepardInterpolator .interpolate")],
  ["Interpolator.interpolate"])
p("C06", "Grid interpolation is exact at nodes and bilinear inside the surrounding cell",
  "Bilinear grid interpolation of a table or of points forming a grid returns the stored value at every node and, between nodes, the bilinear combination of the four corners of the grid cell containing the query, which lies between the smallest and largest of those corners and uses no other node. A query below or above all given wind speeds, or below or above all given wind angles, is rejected with an exception. Evaluating a table off its nodes hands exactly the nodes inside the neighbourhood of the query to the interpolator, each with its own boat speed, and returns the interpolator's value.",
  ["inputs"], "all grids of any size given in any row order and all query points inside or outside",
  "Tests evaluate one small grid at a few points; the cell selection is a case split over all grids.",
  [H+"polardiagram/_polardiagramtable.py", H+"processing/interpolator.py"], [("cell selection and weights", "BilinearGridInterpolator.interpolate"), ("neighbourhood selection", "PolarDiagramTable.__call__")],
  ["PolarDiagramTable.__call__", "BilinearGridInterpolator.interpolate"])
p("C18", "Neighbourhoods decide membership by their documented shape",
  "For every finite set of points, a neighbourhood returns one truth value per point, and it is true exactly for the points inside the documented closed shape: norm at most the radius for a ball, image under the inverse transformation inside the ball for an ellipsoid, each coordinate within its bound for a cuboid, every inequality satisfied for a polytope. A scaling ball contains at least the requested number of points (when that many are given) and everything at most as far away as its farthest point. Points passed in are not modified, and invalid shape parameters (non-positive radius, singular transformation, mismatched shapes) are rejected.",
  ["inputs"], "all point arrays of any length and all shape parameters, for an arbitrary norm",
  "Existing tests check two or three fixed points per class; membership is a statement about all points and parameters.",
  [H+"processing/neighbourhood.py"], [("membership", "Ball, ScalingBall, Ellipsoid, Cuboid, Polytope .is_contained_in")],
  ["Neighbourhood.is_contained_in"])
p("C08", "Polar diagrams survive being written to csv files and read again",
  "Reading the file that to_csv has written gives a diagram of the same class: a table with exactly the same wind speeds, wind angles and boat speeds in each of the formats hro, orc, opencpn and array, a point cloud with the same points in the same order (also none), a curve with the same model function, parameters and unit, and a multi-sails diagram with the same sail names in the same order and every sail's own table. All files are written next to the given path, which may be a string or path-like object in a folder of any name.",
  ["inputs"], "all tables, point clouds and parameters of any size made of finite floats, all predefined model functions; file names differ in the part before the first dot (a documented convention for sub-files that the tests fix)",
  "The tests write and read a few short files with few digits, one format at a time; exactness, order and naming concern every content.",
  [H+"polardiagram/_reading.py", H+"polardiagram/_polardiagramtable.py", H+"polardiagram/_polardiagrampointcloud.py", H+"polardiagram/_polardiagramcurve.py", H+"polardiagram/_polardiagrammultisails.py"],
  [("writing", "to_csv of the four classes, _write_*_format"), ("reading", "from_csv, _read_*, __from_csv__"), ("files of sails", "PolarDiagramMultiSails._get_sub_csv_path")],
  ["to_csv followed by from_csv"])
p("C10", "Data keeps all columns aligned through every operation",
  "Whatever sequence of from_dict, update (with and without compress), append, fill, delete, strip, rename, type filters, row and column selection and concatenation is applied, a Data table has the columns and rows a table of records would have: every column has n_rows entries, entry i of each column belongs to record i, missing entries are None, records keep their order and only the requested ones disappear. Rows and iteration give exactly these records, types name the type of the entries, entries of another type and renaming to an existing name are rejected. Derived tables and arguments share nothing with the table.",
  ["inputs", "histories"], "all tables, all sequences of operations with valid columns and rows; entries numbers, text or None",
  "The suite has no test of Data; alignment is an invariant over all histories of operations and all tables.",
  [H+"core/data.py"], [("table", "Data"), ("rows", "Data.delete, Data.strip, Data._mask_rows"), ("columns", "Data.update, Data.fill, Data.get_slice")],
  ["Data"])
p("C28", "Plots draw the diagram's own points, each with its sail and its colour",
  "A polar or flat plot of a polar diagram draws for every slice exactly the slice's points (wind angle, boat speed), ordered by wind angle; if the slice has info (sails), the points with equal info are joined with each other and with no others. With use_convex_hull it draws exactly the corners of the slice's convex hull in the order of their angles and, if they go around, closes it at 0 and 360 degrees on the edge between the last and the first corner. With two colours every slice (heat map: every point) gets the colour interpolated by its wind speed (boat speed) between the smallest and the largest, otherwise slices take the given colours in turn, by pairs, or one colour for all; a legend names the wind speeds with the colours of their slices, a colour bar spans the gradient's values. 3D scatter plots place points at (bsp sin wa, bsp cos wa, ws).",
  ["inputs"], "all polar diagrams and wind speeds; hull plots for slices whose hull contains the origin (other slices: only the order of the angles is fixed); colours as matplotlib colours, heat maps with two colours; surfaces are left out, colour bars of fewer than three values as well",
  "The tests compare images of a few symmetric tables; which point gets which sail or colour must hold for every diagram.",
  [H+"plotting/projections.py"], [("lines", "_plot, _alter_with_info"), ("hull", "_get_convex_hull"), ("colours", "_determine_color_gradient, _configure_color_cycle"), ("heat map and space", "HROColorGradient.scatter, Axes3D._prepare_points")],
  ["HROPolar.plot", "HROFlat.plot", "HROColorGradient.plot", "Axes3D.scatter"])
p("C29", "Quality checks report the errors of a diagram on the test data",
  "The minimal check returns the greatest, least and mean absolute difference and the mean squared difference between the boat speeds of the test data and those of the diagram. The conforming check adds greatest, least, mean and mean squared value of the diagram at wind angles 0 and 360 for 20 wind speeds from 0 to 20, the number of cells of test data (wind speed and wind angle rounded), and the mean over the cells of the difference between greatest and least boat speed. The test data are not changed.",
  ["inputs"], "all diagrams, all nonempty lists of test data with nonnegative boat speeds",
  "No test runs a quality check; the metrics are how a user judges a diagram and must hold for all test data.",
  [H+"pipeline/quality_assurance.py"], [("errors", "MinimalQualityAssurance.check"), ("zero values and cells", "ComformingQualityAssurance.check")],
  ["QualityAssurance.check"])
p("C30", "Expanders keep every record together with the weather of its own time and place",
  "WeatherExpander adds to every record, under the standard name of the attribute (marked as duplicate if the table has that name already), the weather its model gives for the time stamp, latitude and longitude of that record. Records for which the model raises a ValueError are deleted in mode 'delete' and get empty entries in mode 'ignore'; all other records, their order and their entries stay as they are, and every column has one entry per record. LazyExpander returns the table as it is; the statistics name the size of the result.",
  ["inputs"], "all tables with time stamps and places (gaps in other columns included), all weather models giving the same attributes wherever they know the weather, both modes",
  "No test runs an expander; that no record gets the weather of another one must hold for every pattern of failures.",
  [H+"pipeline/expander.py"], [("weather", "WeatherExpander._get_weather"), ("names", "WeatherExpander._mark_duplicate_keys"), ("joining", "WeatherExpander.expand, Data.concatenate")],
  ["Expander.expand"])
p("C31", "Data handlers deliver every measurement of their source",
  "ArrayHandler (array with names, data frame) and CsvFileHandler give a table with one row per row of the source and one column per column, under the standard name, numbers as floats and time stamps in the given format as date-times; a wrong number of names is rejected. NMEAFileHandler gives the fields of the wanted sentences and attributes in their order: wind by its reference as AWA/AWS or TWA/TWS, positions in degrees with the sign of their hemisphere, times, dates; a sentence joins the last row exactly when all its fields are empty there and starts a new row otherwise. The source array is not changed and the statistics name the size of the table.",
  ["inputs"], "arrays, frames and csv files with numbers and time stamps without gaps; logs of well-formed sentences with positions; wind speeds as given (no conversion of units)",
  "The tests read one file of each kind; a value must reach its row and its column for every source.",
  [H+"processing/datahandler.py"], [("arrays", "ArrayHandler.handle"), ("csv", "CsvFileHandler.handle"), ("logs", "NMEAFileHandler.handle, _postprocess, _from_nmea_format, _time_from_nmea_format"), ("tables", "core/data.py Data.update")],
  ["DataHandler.handle"])
p("C32", "WeightedPoints keep every point paired with its weight",
  "Weighted points built from an array, a Data table or a dictionary with a weight per point, or one number for all, have exactly one weight per point. Masking keeps exactly the selected points, in order and each with its own weight, and leaves the original alone; extending appends all points and weights of the other object, matching columns by name, and leaves the other object alone.",
  ["inputs", "histories"], "all numbers of points, all masks, all chains of masks and extensions with points of the same kind",
  "The suite only constructs weighted points; pairing has to hold for every mask and every chain.",
  [H+"core/data.py"], [("pairing", "WeightedPoints.__getitem__, WeightedPoints.extend")],
  ["WeightedPoints"])
p("C33", "Regressors fit the given model function to exactly the given data",
  "Both regressors minimize the sum of squared differences between the model function, at the wind speed and wind angle of every row, and the boat speed of the row, over exactly the rows of the data and starting from the given initial values (LeastSquareRegressor without any: 1 for every parameter); the parameters that the solver finds are optimal_params, one for every parameter of the model, and model_func stays the given function. A fit does not depend on earlier fits, other regressors or the order of the rows and does not modify the data; ODRegressor rejects empty data and data of other shapes.",
  ["inputs", "histories"], "all model functions, all data of shape (n, 3), all initial values, any sequence of fits; how close scipy's solvers come to the minimum is theirs",
  "The suite has no test of the regressors; the fit has to be the right one for every model and data set.",
  [H+"processing/regressor.py"], [("least squares", "LeastSquareRegressor.fit, _determine_params"), ("scipy.odr", "ODRegressor.fit")],
  ["Regressor.fit", "Regressor.optimal_params"])
p("C34", "Point clouds hold exactly their points, sets of sails exactly their diagrams",
  "A cloud holds exactly the given points with wind speeds of at least 0 and added points behind them, with wind angles modulo 360 (after conversion of apparent wind), whatever was queried or added before; wind_speeds and wind_angles are its different values in ascending order, its points cannot be changed from outside and given arrays stay as they are. At a wind of the cloud it returns the boat speed of a point there and elsewhere the value of the interpolator for exactly the points in the neighbourhood, all with weight 1; wind speeds that are not positive are rejected. A set of sails has every diagram under its name (or Sail i), cuts surplus names off, finds it by its name and returns the greatest boat speed of its diagrams.",
  ["inputs", "histories"], "all points without apparent wind that has no direction, all sequences of additions and queries, all neighbourhoods and interpolators, any number of diagrams and names",
  "Tests look at a few clouds with wind angles below 360 and fresh arrays.",
  [H+"polardiagram/_polardiagrampointcloud.py", H+"polardiagram/_polardiagrammultisails.py"],
  [("points", "PolarDiagramPointcloud.__init__, add_points"), ("evaluation", "PolarDiagramPointcloud.__call__"), ("sails", "PolarDiagramMultiSails.__init__, __getitem__, __call__")],
  ["PolarDiagramPointcloud", "PolarDiagramMultiSails"])
p("C11", "The standard format renames, combines and casts columns without loss",
  "After hrosailing_standard_format every column is there once, with its entries in their order: under the standard name of its meaning whatever the spelling (capitals, separators, plural), under its own name if the meaning is unknown, and with a control value number if the standard name is already taken. A date and a time column become one datetime column (unless there is one already). Columns whose entries are all numbers or text that reads as numbers become floats of the same value, other columns keep their entries, missing entries stay missing.",
  ["inputs"], "all tables whose column names are text and whose entries are numbers, text, dates, times or missing",
  "The suite does not test it; names and entries come from log files of any origin.",
  [H+"core/data.py", H+"core/constants.py"], [("names and casts", "Data.hrosailing_standard_format"), ("synonyms", "KEYSYNONYMS")],
  ["Data.hrosailing_standard_format"])
p("C12", "Imputators return complete records without touching what was measured",
  "RemoveOnlyImputator keeps exactly the rows without missing entries. FillLocalImputator drops empty columns, interpolates time stamps between two stamps less than the bound apart, drops rows without time stamp, fills a missing entry by the fill function for before, between or after from the nearest measurements of its column closer in time than the bound (never from filled values), and drops rows that are still incomplete; every measured entry and the order of the rows stay, and the statistics count removed rows and columns and filled entries.",
  ["inputs"], "all chronological tables with a datetime column and at least one time stamp; all fill functions and bounds",
  "The suite imputes a handful of short tables; gaps, ties and chains of missing values have to be handled at every position.",
  [H+"processing/imputator.py"], [("rows", "RemoveOnlyImputator.impute"), ("time stamps", "FillLocalImputator._interpolate_datetime"), ("filling", "FillLocalImputator._apply_fill_functions, FillLocalImputator._get_start_and_end_idx")],
  ["Imputator.impute", "get_latest_statistics"])
p("C13", "Smoothing keeps constant stretches and stays in the range of the measurements",
  "AffineSmoother replaces numbers only: time stamps, other columns, the order and the number of rows stay, and every smoothed value lies between the least and the greatest measurement of its column. At pairwise different times, a column falls into stretches of equal measurements bounded by the middle between the last and the first time of two neighbouring stretches (by the first and last time at the ends); a measurement at least the time span, or half of its stretch if that is shorter, away from the ends of its stretch is kept, and any other is interpolated affinely between that value and the mean with the neighbouring stretch's value, which is taken at the common bound. Series that are not chronological are rejected with a ValueError.",
  ["inputs"], "all tables with a complete datetime column and complete float columns of any length (also empty), all time spans of at least zero; LazySmoother changes nothing",
  "The tests smooth two fixed series of six rows with three time spans; which piece a row falls on depends on every time stamp and value of the series.",
  [H+"processing/smoother.py"], [("stretches of constant values", "AffineSmoother._get_interval_bounds"), ("ramps", "AffineSmoother._approximate_intervals"), ("evaluation", "AffineSmoother._smooth_data_from_approx_intervals"), ("frame and order", "AffineSmoother.smooth, LazySmoother.smooth")],
  ["AffineSmoother.smooth"])
p("C14", "Weighers give every point one weight in [0, 1] by their documented rule",
  "Weighing records gives an array with exactly one weight per record, in the order of the records, each between 0 and 1: deviation from the mean of the surrounding cylinder in standard deviations, normalised and subtracted from one (cylindric mean), number of other points in the surrounding cylinder divided by the largest such number (cylindric member), product over the attributes of the relative distance of the standard deviation in the time window to its bound, cut at zero (fluctuation), and 1 (all-one). The result depends only on the records and the parameters, not on what the same weigher weighed before, and neither the records nor the caller's parameters are modified; the statistics (average, least and greatest weight, and the percentage of the weights in every tenth of the span between them) are those of the latest weights.",
  ["inputs", "histories"], "all arrays and data tables of any number of records, all radii, lengths, norms, windows and positive bounds, every sequence of uses",
  "Tests weigh two or three fixed records; range and independence of earlier uses speak about all inputs and histories.",
  [H+"processing/weigher.py"], [("weights", "CylindricMeanWeigher, CylindricMemberWeigher, FluctuationWeigher, AllOneWeigher .weigh"), ("normalisation and statistics", "_normalize, Weigher.set_statistics")],
  ["Weigher.weigh", "Weigher.get_latest_statistics"])
p("C15", "Arithmetic between weighers acts on the weights",
  "Every documented combination of weighers with weighers, numbers or arrays by +, -, *, /, negation or integer powers, nested to any depth, is again a weigher, and weighing any points with it gives point by point the same arithmetic expression of the operands' weights. The operands stay usable and unchanged, the statistics of the combination are those of its own weights, and operands of other types are rejected.",
  ["inputs", "histories"], "all expression trees over arbitrary weighers, numbers and arrays",
  "Tests only construct such weighers; the homomorphism law holds for every expression tree.",
  [H+"processing/weigher.py"], [("operators", "Weigher.__add__ ... __pow__"), ("evaluation", "_UnaryMapWeigher.weigh, _BinaryMapWeigher.weigh")],
  ["operators on Weigher, Weigher.weigh"])
p("C16", "Fuzzy expressions follow fuzzy logic",
  "For all truth functions with values between 0 and 1 and every input, & gives the minimum, | the maximum and ~ one minus the truth value, so De Morgan's laws hold and values stay between 0 and 1. A comparison of a fuzzy variable with a bound gives a value strictly between 0 and 1 that is one half at the bound, above one half exactly where the comparison is true and monotone in the input (equality: largest at the bound and symmetric); a sharpness given by call is used for the next comparison only, and item access applies the expression to that item. A fuzzy weigher gives every record the truth value of that record, and the statistics of these weights.",
  ["inputs", "histories"], "all truth functions, bounds, positive sharpnesses, inputs and nestings",
  "Tests evaluate single expressions at single points; the laws are universally quantified and involve hidden state (the pending sharpness).",
  [H+"processing/weigher.py"], [("connectives", "FuzzyBool"), ("comparisons", "FuzzyVariable"), ("weights", "FuzzyWeigher.weigh")],
  ["FuzzyBool.__call__", "FuzzyVariable comparisons", "FuzzyWeigher.weigh"])
p("C17", "Filters keep exactly the points their rule admits",
  "A bound filter keeps exactly the points whose weight lies in its closed interval. A quantile filter removes only points with weights smaller than every kept weight, never more than the given percentage of all points, and as many as that allows (points of equal weight stay together and at least one point is kept). The weights are not modified, the statistics count every point once, and empty intervals and percentages outside 0 to 100 are rejected.",
  ["inputs"], "all weight arrays of any length (ties, values on the bounds), all bounds and percentages",
  "Tests use ten distinct weights; ties and boundary counts are the cases that matter and there are infinitely many.",
  [H+"processing/filter.py"], [("rule", "QuantileFilter.filter, BoundFilter.filter"), ("statistics", "Filter.set_statistics")],
  ["Filter.filter", "Filter.get_latest_statistics"])
p("C24", "Influence models remove and add exactly the documented influence",
  "Removing influence from data with true wind (or, if only apparent wind is given, with apparent wind, which is converted) gives one row per record with wind speed, wind angle and speed through water (over ground if that is missing), the wind angle corrected by the shift modulo 360 for the angle-correcting model, whether the data comes as a table, lists, arrays or single values and as whole numbers or not. Adding influence asks the polar diagram at the given wind speed and the angle shifted back, so that adding after removing asks at the measured wind; data without a complete wind is rejected and data is never modified. Fitting the angle-correcting model gives as shift the wind angle of the least density, which is the sum over all records of their wind speed times exp(-(d/interval)^2) with d the distance on the circle between both wind angles, and reports it.",
  ["inputs"], "all tables and dictionaries of any length, all shifts, arbitrary polar diagrams",
  "The suite has no test of the influence models at all; the round trip is a law over all records and shifts.",
  [H+"models/influencemodel.py"], [("removal", "remove_influence, _get_true_wind_data"), ("addition", "add_influence"), ("shift", "WindAngleCorrectingInfluenceModel.fit")],
  ["InfluenceModel.remove_influence", "InfluenceModel.add_influence", "InfluenceModel.fit"])
p("C26", "isochrone and cost_cruise sail the boat through the weather on the map",
  "isochrone goes from the start into the direction on the Mercator map of the start's latitude for the total time and returns the place it reaches and the distance; every mile takes 1 / boat speed hours in the weather (UGRID, VGRID, or the influence model's boat speed for it) at its place and time, and 1000 hours outside of the weather data or without boat speed, so that in constant weather the distance is exactly time * boat speed and otherwise lies between the time at the least and at the greatest speed of the way. cost_cruise goes straight from start to end on the Mercator map of their mean latitude, with the course of that line as heading, solves dt/ds = 1 / boat speed for the travel time, and returns cost_fun_abs(time, distance) plus the integral of cost_fun_dens taken at the places and times of the way. The map is in sea miles (60 for a degree at the latitude of the map) and gives back every place; the wind angle is that from the heading to where the wind comes from.",
  ["inputs"], "all polar diagrams with angles in degrees, influence models and weather models that give UGRID and VGRID, places between the poles, total times greater than 0; the accuracy of the solver and of the steps is that of their settings; cruise itself is left out",
  "The tests call both functions once, with mocked weather, and compare types; directions, times and distances have to be right for every start, course and weather.",
  [H+"cruising/basics.py"], [("way", "isochrone, cost_cruise"), ("time of a mile", "_get_inverse_bsp, _uvgrid_to_tw"), ("map", "_mercator_proj, _inverse_mercator_proj")],
  ["isochrone", "cost_cruise"])
p("C27", "Model functions and curves compute their documented formulas",
  "Every model function returns, for numbers and elementwise for arrays of wind speeds and angles, the value of its documented formula in its parameters. A polar diagram curve evaluates to its function, with its own parameters, at the wind speed and the wind angle reduced modulo the full circle in its unit (degrees or radians); negative wind speeds and a wrong number of parameters are rejected. No argument is modified.",
  ["inputs"], "all parameters (non-zero variances), all wind speeds and angles, arrays of any length",
  "The model functions have no tests of their own; regression tests only look at fit quality.",
  [H+"core/modelfunctions/__init__.py", H+"core/modelfunctions/_models2d.py", H+"polardiagram/_polardiagramcurve.py"],
  [("formulas", "ws_* functions, _models2d"), ("evaluation", "PolarDiagramCurve.__init__, __call__")],
  ["hrosailing.core.modelfunctions", "PolarDiagramCurve.__call__"])
p("C07", "Symmetrizing adds exactly the mirror image",
  "Symmetrizing a table whose angles lie on one side of the 0-180 axis gives the same wind speeds, every given angle and its mirror angle exactly once in ascending order and at both the boat speeds of the given angle; a point cloud keeps its points and gains the mirror image of each; a multi-sail diagram symmetrizes each of its tables under its own name. A symmetrized curve (degrees or radians) has the average of the values on both sides and so equal values at mirrored angles. The original is not modified.",
  ["inputs"], "all one-sided tables of any size (with or without 0 and 180 degrees), all clouds, all curves in degrees or radians",
  "Tests symmetrize two small tables; the law covers all sizes, axis cases, representations and units.",
  [H+"polardiagram/_polardiagramtable.py", H+"polardiagram/_polardiagrampointcloud.py", H+"polardiagram/_polardiagramcurve.py", H+"polardiagram/_polardiagrammultisails.py"],
  [("tables", "PolarDiagramTable.symmetrize, _delete_multiple_*_degree_occurrences"), ("others", "symmetrize of the other polar diagrams")],
  ["PolarDiagram.symmetrize"])
p("C19", "A pipeline run sends all data through its components in the documented order",
  "Every field of the input runs through handler, imputator, smoother, weigher and filter, expander, weigher and filter; all fields are put together in order, the influence model is fitted to training data only and removes its influence, and after a last weigher and filter the points (followed by the injected ones, with their weights) go to the extension, whose diagram is the result and is compared with the equally preprocessed test data. A step that is switched off is skipped, all switches not given are on whatever earlier runs were given, and every component's statistics are reported under its own name, one per field where it ran per field. The zero injector adds equidistant wind speeds from the least to the greatest at 0 and 360 degrees with boat speed 0 and weight 1.",
  ["inputs", "histories"], "all component implementations, any number of fields and records, all switches and sequences of runs",
  "No test runs a pipeline; the order, the data handed on and the naming of statistics have to be right for every set of components.",
  [H+"pipeline/pipeline.py", H+"processing/injector.py"], [("order of the steps", "PolarPipeline._preprocess, PolarPipeline.execute"), ("weights", "_weigh_and_filter"), ("injected points", "ZeroInjector.inject")],
  ["PolarPipeline.__call__", "PipelineOutput"])
p("C20", "Pipeline extensions turn weighted points into the diagram they describe",
  "The table extension gives the table whose wind speeds and angles are the requested resolution (by default steps of 2 over the rounded range of the data, and steps of 5 degrees; an automatically determined resolution has no duplicates), the point cloud extension one point per sample; every boat speed is the interpolator's value for exactly those weighted points, with their weights, whose difference from the grid point or sample lies in the neighbourhood, and 0 if there are none. The curve extension fits the regressor to the points (angles in radians if wanted) and returns its function with its parameters. The given points are not modified.",
  ["inputs"], "all weighted points with wind speeds of at least 0, all neighbourhoods, interpolators, samplers and resolutions",
  "No test runs an extension; which points count for which cell has to be right for every data set and resolution.",
  [H+"pipeline/extensions.py"], [("table", "TableExtension.process, TableExtension._determine_table_size"), ("point cloud", "PointcloudExtension.process"), ("interpolation", "_interpolate_point"), ("curve", "CurveExtension.process")],
  ["PipelineExtension.process"])
p("C21", "Samplers return the requested number of points, all inside the convex hull",
  "Whenever sampling ends, UniformRandomSampler, FibonacciSampler and ArchimedeanSampler have produced exactly n_samples points (wind speed, wind angle), each inside the convex hull of the wind speeds and angles of the given points, whether or not these carry a boat speed as third column. The given points are not modified; a non-positive number of samples is rejected.",
  ["inputs"], "all arrays of at least three points in general position with two or three columns, all numbers of samples",
  "The suite samples one small array; the guarantee has to hold for every point set and every outcome of the random generator.",
  [H+"processing/sampler.py"], [("hull", "UniformRandomSampler.sample, _sample_generator"), ("number", "_binary_rescale")],
  ["Sampler.sample"])
p("C23", "Globe models project, measure and connect places consistently",
  "SphericalGlobe projects a place to its point on the sphere and FlatMercatorProjection to its Mercator coordinates (with virt_zero as origin and virt_northpole as north); lat_lon gives the place back. The distance is the great-circle arc on the sphere and the Euclidean distance on the map: symmetric, 0 for equal places. The shortest path has the requested number of points, starts and ends at the given places and proceeds evenly on the great circle or the straight line, also if both places are equal.",
  ["inputs"], "all places (poles and date line included on the sphere, up to the equality of longitudes at the poles and at 180 degrees), end points that are not antipodal, virtual poles at a quarter turn from the virtual zero",
  "No test runs a globe model; round trips and distances must hold for all places.",
  [H+"models/globe_model.py"], [("sphere", "SphericalGlobe"), ("map", "FlatMercatorProjection"), ("coordinates", "_on_ball, _on_lat_lon, _angle")],
  ["GlobeModel.project", "GlobeModel.lat_lon", "GlobeModel.distance", "GlobeModel.shortest_path"])
p("C22", "Gridded weather is affine interpolation of its grid",
  "For every strictly ascending grid of times, latitudes and longitudes, the weather at a grid point is exactly the data stored there, and elsewhere inside the grid it is the affine interpolation, attribute by attribute, between the (up to eight) surrounding grid points; queries outside are rejected with a ValueError, never extrapolated. Writing the model to a file (whole seconds) and reading it back gives the same model, reading a NetCDF file the file's values at the file's times, latitudes and longitudes (whatever the order of its axes and dimensions), and fetching from meteostat the fetched values, with 0 where a place has no data. A combination of models gives the union of their attributes (later models win), skipping models that raise ValueError, TypeError, KeyError or NotImplementedError unless it is exception sensitive.",
  ["inputs"], "all grids of any size, all data, all query points",
  "The test suite has no test of the weather models; which of the eight corners is read depends on every coordinate of grid and query.",
  [H+"models/weather_model.py"], [("interpolation", "_recursive_affine_interpolation, GriddedWeatherModel.get_weather"), ("combination", "MultiWeatherModel.get_weather"), ("files", "GriddedWeatherModel.to_file, from_file, NetCDFWeatherModel"), ("meteostat", "GriddedWeatherModel.from_meteostat")],
  ["WeatherModel.get_weather", "GriddedWeatherModel.from_file"])
p("C09", "Slices and points show the diagram's own data and predictions",
  "get_slices gives one (3, n) slice per wind speed, for a single number, any iterable of numbers or by default the diagram's own wind speeds, with n_steps evenly spaced wind speeds between any two neighbours if asked for. A table slice holds every wind angle with the boat speed of the table or, at other wind speeds, its prediction, a curve slice evenly spaced angles from 0 to 360 degrees with the boat speeds there (degrees or radians), a point cloud slice exactly the points within the range, or predictions if an interpolator is given, and a multi-sail slice those of all sails side by side with the sail of every column as info. get_points gives every wind record (array of either orientation, or all combinations of two resolutions) with the prediction there, by default the diagram's own points.",
  ["inputs"], "all diagrams of every kind, all wind speeds of at least 0, wind records and resolutions",
  "Tests slice one diagram of each kind at a few wind speeds; which data a slice shows has to be right for every diagram and way of asking.",
  [H+"polardiagram/_basepolardiagram.py", H+"polardiagram/_polardiagramtable.py", H+"polardiagram/_polardiagramcurve.py", H+"polardiagram/_polardiagrampointcloud.py", H+"polardiagram/_polardiagrammultisails.py"],
  [("wind speeds", "PolarDiagram._get_windspeeds, get_slices"), ("slices", "ws_to_slices and get_slice_info of the polar diagrams"), ("points", "PolarDiagram.get_points, _get_wind, default_points")],
  ["PolarDiagram.get_slices", "PolarDiagram.get_points"])
p("C25", "convex_direction gives the fastest way to sail into a direction",
  "For every polar diagram and every direction, convex_direction returns either the direction itself with proportion 1 or two directions of the slice with proportions between 0 and 1 that add up to 1, whose velocities combine to a velocity exactly into the direction; no combination of points of the slice is faster. With several sails each direction names the sail of its point, and with an influence model its boat speeds count. Directions that no combination of points reaches are rejected with a ValueError.",
  ["inputs"], "all slices with boat speeds of at least 0 that do not lie on one line through the origin (sorted or not, one-sided or not, several sails), all directions",
  "Tests take two directions of one symmetric table; whether a way is the fastest is a statement about all combinations of all points.",
  [H+"cruising/basics.py"], [("hull and edge", "convex_direction"), ("proportions", "_get_first_proportion")],
  ["convex_direction", "Direction"])
