import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=" ".join(statement.split()),quantifier=dict(over=over,text=" ".join(text.split())),
      why_tests_cant=" ".join(why.split()),
      anchors=dict(files=["hrosailing/"+f for f in files],mechanism=[dict(name=a,where="hrosailing/"+b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where="hrosailing/"+c) for a,b,c in state]
    P.append(d)
PD="polardiagram/"
p("C01","Saved polar diagrams read back as the same diagram",
"""Writing any table, point cloud, curve (of a library model function) or multi-sail diagram to a file and reading that file back yields a diagram of the same kind
with the same wind speeds, wind angles, boat speeds, points, parameters, angle unit and sail names, exactly as stored, wherever the file lies.
A table written in the array, ORC or OpenCPN format reads back as the same table, and ORC/OpenCPN files with degree signs, empty cells or unsorted rows and columns read as the table they describe.
An unknown format name or unknown diagram kind is rejected.""".replace(".\nAn unknown","; an unknown"),
["inputs","configurations"],"every diagram (any size, order, numeric magnitude, sail names, function and parameters), every format and every legal file location",
"The tests read and write a handful of fixed small files and mock the multi-sail sub-files; equality after a write/read cycle for arbitrary values, sizes and paths is never observed.",
[PD+"_reading.py",PD+"_polardiagramtable.py",PD+"_polardiagrampointcloud.py",PD+"_polardiagramcurve.py",PD+"_polardiagrammultisails.py"],
[("from_csv",PD+"_reading.py"),("to_csv / __from_csv__ of each diagram class",PD)],
["files written, diagrams returned by from_csv"])
p("C02","Polar tables keep every speed with its wind, in sorted order",
"""However the wind speeds and wind angles of a table are given (any order, step size, angles outside 0-360), the table stores them sorted, with angles in [0,360), and every given boat speed is
found under exactly the wind speed and angle it was given for. Looking up a wind that is in the table returns the stored speed, angles being equivalent modulo 360.
Resolutions or speeds that are non-finite, negative, empty, non-positive as step size, or of inconsistent shape are rejected.""",
["inputs"],"all resolutions (lists, arrays, steps, unsorted, wrapped angles) and all boat speed matrices",
"The tests use one sorted fixture and a few fixed permutations; the correspondence entry-wind must hold under every permutation, wrap and size.",
[PD+"_polardiagramtable.py"],[("_sort_table",PD+"_polardiagramtable.py"),("_Resolution_helper",PD+"_polardiagramtable.py"),("_get_indices / __getitem__",PD+"_polardiagramtable.py")],
["PolarDiagramTable(...).wind_speeds/.wind_angles/.boat_speeds","table[ws, wa]","table(ws, wa)"])
p("C03","Editing a table changes exactly the selected entries",
"""Changing entries of a table sets exactly the entries of the selected wind speeds and angles to the given values (in ascending table order) and leaves every other entry, the resolutions and all
previously handed out views unchanged. An edit with an unknown wind, an empty selection, non-finite values or the wrong shape is rejected and leaves the table entirely as it was.
After any sequence of accepted and rejected edits the table equals the one obtained by applying the accepted edits one after another to a plain matrix.""",
["histories","inputs"],"every sequence of edits over every selection (none, one, some, all winds) and value shape",
"The tests perform single edits on one fixed table; sequences, rejected edits in between and untouched entries are not checked against a model.",
[PD+"_polardiagramtable.py"],[("change_entries",PD+"_polardiagramtable.py"),("copying property getters",PD+"_polardiagramtable.py")],
["boat_speeds after each edit"],[("_boat_speeds","boat speed matrix",PD+"_polardiagramtable.py")])
p("C04","Symmetrizing a diagram mirrors it exactly",
"""A symmetrized diagram reports for each wind angle and its mirror image (360 degrees minus the angle) the same boat speed and, for one-sided tables and clouds, keeps all original data together with exactly one mirror image of each
entry (no duplicate rows at 0 or 180 degrees in tables). A symmetrized curve is the average of the original and its mirror image in either angle unit, and multi-sail diagrams are symmetrized sail by sail under the same names.
The original diagram is left unchanged.""",
["inputs","configurations"],"all one-sided tables and clouds, with and without 0 and 180 degrees, all curves in degrees and radians, all multi-sail combinations of them",
"The tests cover a few fixed diagrams in degrees; symmetry has to hold at every wind of every diagram.",
[PD+"_polardiagramtable.py",PD+"_polardiagrampointcloud.py",PD+"_polardiagramcurve.py",PD+"_polardiagrammultisails.py"],
[("symmetrize of each diagram class",PD)],["the symmetrized diagram's data and values"])
p("C05","A multi-sail diagram is exactly its sails put together",
"""The boat speed of a multi-sail diagram is the largest speed any of its sails reaches in that wind; its slices and points are the concatenation of the sails' slices and points in order, and the sail information names for every record the sail
it came from. Every sail's diagram is available under its (distinct) name; missing names are filled up with generated ones, surplus names are dropped, and an unknown name is rejected.""",
["inputs","configurations"],"all lists of diagrams (mixed kinds), all name lists (shorter, equal, longer) and all winds",
"The tests use two mocked diagrams with fixed answers.",
[PD+"_polardiagrammultisails.py"],[("__call__, ws_to_slices, get_slice_info, default_points",PD+"_polardiagrammultisails.py")],
["multi(ws, wa)","get_slices(full_info=True)","get_points()","multi[name]"])
p("C06","Slices and points show the diagram's own values at the right winds",
"""Slices of a diagram are arrays of three rows (wind speed, wind angle, boat speed), one per requested wind speed in order, whose records carry the speeds the diagram itself stores or evaluates to at those winds (a cloud slice without
interpolator holds exactly the points within the given wind speed range). Subdividing with n steps inserts exactly n equally spaced wind speeds between neighbours, and defaults cover the diagram's own wind speeds.
Requested points carry the given winds unchanged and the diagram's speeds there; malformed requests are rejected.""",
["inputs","configurations"],"every diagram kind, all wind speed lists, numbers of steps, ranges, angular resolutions, interpolators and ways to describe winds",
"Tests check single slices of fixed diagrams against literals; agreement between views and evaluation is universal over winds and options.",
[PD+"_basepolardiagram.py",PD+"_polardiagramtable.py",PD+"_polardiagrampointcloud.py",PD+"_polardiagramcurve.py"],
[("get_slices/_get_windspeeds/get_points/_get_wind",PD+"_basepolardiagram.py"),("ws_to_slices",PD)],
["get_slices(...)","get_points(...)"])
p("C07","Evaluating a diagram agrees with its data and never leaves its range",
"""Evaluating a table or point cloud at a wind it stores returns the stored boat speed, and anywhere else that has data in its neighbourhood a finite value between the smallest and largest speed of the data considered. A curve returns its
function's value at the wind, with angles reduced modulo a full turn in its own unit, for scalars and arrays alike. Evaluation depends only on the diagram and the wind (repeated, or after other evaluations, it gives the same result), and clouds and curves reject negative wind speeds.""",
["inputs","histories"],"all diagrams, all winds inside and off the data, all evaluation orders",
"Tests evaluate few fixed points; boundedness and purity are universal statements over winds and histories.",
[PD+"_polardiagramtable.py",PD+"_polardiagrampointcloud.py",PD+"_polardiagramcurve.py","processing/interpolator.py","processing/neighbourhood.py"],
[("__call__ of each diagram class",PD)],["diagram(ws, wa)"])
p("C08","Interpolators reproduce data, stay within it and ignore its order",
"""Every interpolator returns exactly the known speed at a known wind; the distance-weighted ones return elsewhere the value of their documented weighting, which lies between the smallest and largest speed of the given points and does not depend on the order of the
points. Shepard interpolation reproduces constant data, and bilinear grid interpolation reproduces every function that is bilinear on the grid cells and refuses winds without a complete grid cell around them.""",
["inputs"],"all point sets (any number, order, weights), parameters, norms and query points",
"Tests compare a handful of fixed values; formulas, bounds and order independence are over all inputs.",
["processing/interpolator.py","core/computing.py"],[("interpolate of each interpolator class","processing/interpolator.py")],["interpolate(w_pts, grid_pt)"])
p("C09","Neighbourhoods contain exactly the points their definition says",
"""A neighbourhood reports, for each given point and independently of the others, whether it lies in its ball, ellipsoid, box or polytope (boundary included) in the given norm; the scaling ball contains exactly the points not farther than the k-th
closest one (all points if there are fewer). The answer has one entry per point in the order given, and repeated queries on the same object answer the same.""",
["inputs","histories"],"all point sets, radii, norms, linear maps, boxes and polytopes",
"Tests query fixed small point sets around the origin.",
["processing/neighbourhood.py"],[("is_contained_in of each class","processing/neighbourhood.py")],["is_contained_in(pts)"])
p("C10","Samplers return the requested number of points within the data's hull",
"""Every sampler returns exactly the requested number of distinct-position wind points, all of them within the convex hull of the given points' winds, after a bounded amount of work, for plain winds and for data points carrying a speed; many samples reach all sides of the hull. The circle used to place
the spirals encloses all points, and the given points are left unchanged.""",
["inputs"],"all full-dimensional point sets and numbers of samples",
"Tests fix one or two point sets; termination and containment are universal and the search is data dependent.",
["processing/sampler.py"],[("sample of each class","processing/sampler.py"),("_binary_rescale, _make_circle","processing/sampler.py")],["sample(pts)"])
p("C11","Weighers weigh by their definition, in [0,1], whatever came before",
"""Each weigher returns one weight per record, within [0,1], equal to its definition: neighbourhood mean/spread or member count within a cylinder, windowed deviation of a time series, fuzzy membership, or one. Weighing does not depend on the order of the records
(except for time series), nor on what the weigher was used for before, and does not change its settings or the data. Combining weighers and numbers by +, -, *, / and powers weighs by the same combination of the weights.""",
["inputs","histories"],"all data sets, parameters, norms, combinations and sequences of uses of one weigher",
"Tests use one fixed data set per weigher and dummy weighers for the arithmetic; reuse of one object on different data is never tried.",
["processing/weigher.py","core/data.py"],[("weigh of each class","processing/weigher.py"),("operators of Weigher","processing/weigher.py")],["weigh(points)"])
p("C12","Filters keep exactly the records their rule admits",
"""The quantile filter keeps exactly the records whose weight is at least the given percentile of all weights and the bound filter exactly those whose weight lies in the closed interval. The answer has one entry per record, and the statistics report the exact numbers of kept
and removed records of the latest call.""",
["inputs","histories"],"all weight vectors (ties, extremes), percentages, bounds and call sequences","Tests use one vector each.",
["processing/filter.py","core/statistics.py"],[("filter / set_statistics","processing/filter.py")],["filter(wts)","get_latest_statistics()"])
p("C13","Imputing leaves no gaps and never touches a measured value",
"""After imputing, no record has a missing value, all records that were complete are still there in order with their values unchanged, and records only disappear when they are incomplete (all incomplete ones, when only removing). The local imputer fills a gap only from measurements no
farther away in time than its limits, with values between the neighbouring measurements (or the fill-function's result of them). The statistics state exactly how many records and values were removed and filled.""",
["inputs"],"all data sets with arbitrary patterns of missing values and time distances",
"Tests contain two or three handcrafted gaps; the patterns of adjacent gaps, edges, missing keys and time limits are combinatorial.",
["processing/imputator.py","core/data.py"],[("impute of each class","processing/imputator.py")],["impute(data)","get_latest_statistics()"])
p("C14","The data container stays rectangular and loses nothing",
"""After any sequence of adding, extending, removing, renaming, masking, filling and stripping operations the container holds what a plain table of named columns would hold: all columns equally long, missing values empty, the reported number of rows right, rows, slices and numeric exports agreeing
with the columns. Values keep their row, and containers built from or copied out of another never share storage with it. Unknown columns, renaming onto existing columns and values of conflicting types are rejected, and weighted points keep every weight with its record when masked or extended.""",
["histories","inputs"],"all operation sequences over all column sets and values",
"Tests run single operations on one fixture; interactions of operations are the risk.",
["core/data.py"],[("Data operations","core/data.py")],["keys, rows, columns, n_rows, slices after each operation"],
[("_data / _types / _max_len","columns, their types, number of rows","core/data.py")])
p("C15","Standardizing column names keeps all data under standard names",
"""Converting data to the standard format renames every column with a known synonym (in any case, singular or plural, with any separators) to its standard name (if that is taken, as control value, numbered from 1), leaves unknown names and all other row contents as they were, converts columns of numeric text and integers to floats, and combines a date and a time column into one
column of time stamps of that date and time. Converting twice is the same as converting once.""",
["inputs"],"all combinations of column names from the synonym table (case, separators, qualifiers), unknown names and values",
"Tests try a few names; the synonym table has dozens of entries and free separators.",
["core/data.py","core/constants.py"],[("hrosailing_standard_format","core/data.py"),("KEYSYNONYMS","core/constants.py")],["Data.hrosailing_standard_format()"])
p("C16","Data handlers pass on every record of arrays and CSV files unchanged",
"""Handling an array with names, a data frame or a CSV file yields one record per row in order with exactly the given values under the standard names of the columns (numbers as floats, time stamps as time stamps, empty cells of a file as missing), and malformed input (names not matching the columns, unreadable entries) is rejected.
The given array or frame is left unchanged.""",
["inputs"],"all arrays, frames and files over all column names, with numeric, textual, missing and time stamp values","Tests handle single files of fixed content.",
["processing/datahandler.py","core/data.py"],[("ArrayHandler/CsvFileHandler.handle","processing/datahandler.py")],["handle(data)","get_latest_statistics()"])
p("C17","NMEA logs are decoded faithfully and in order",
"""Handling an NMEA log yields the readings of exactly the requested sentences and attributes, in the order of the log, combined with the surrounding readings of other sentences without losing or inventing any; positions are decimal degrees (south and west negative), relative wind is apparent wind and
true wind is true wind, and times of day keep their fractions of a second. Unwanted sentences do not affect the rest, missing readings stay missing, and damaged lines are never turned into readings.""",
["inputs","histories"],"all logs: sequences of sentence types, values, hemispheres, references, repeated and missing readings, damaged lines",
"Tests mock the file with a few sentences of the northern and eastern hemisphere.",
["processing/datahandler.py","core/constants.py"],[("NMEAFileHandler.handle","processing/datahandler.py")],["NMEAFileHandler().handle(path)"])
p("C18","True and apparent wind conversions are exact inverses",
"""Apparent wind is the vector sum of true wind and head wind of boat speed, and true wind the difference; converting one way and back gives the original wind (angles modulo 360). The boat speed is unchanged, angles are in [0,360] and on the same side of the boat, wind speeds are non-negative and finite, records are
converted independently, the input is left unchanged, and malformed winds are rejected. Diagrams and point clouds given apparent winds store the same true winds.""",
["inputs"],"all winds incl. calm, head and stern wind, boat as fast as the wind, angles beyond 360","Tests convert a few sample winds one way.",
["core/computing.py",PD+"_polardiagrampointcloud.py"],[("convert_apparent_wind_to_true / convert_true_wind_to_apparent","core/computing.py")],["both conversion functions"])
p("C19","Gridded weather is exact on the grid and interpolates linearly between",
"""A gridded weather model returns the stored attributes at each of its grid points, and anywhere within the grid the multilinear interpolation of the surrounding grid values in time, latitude and longitude, which never leaves their range and is continuous. The same holds for grids read from netCDF data, whatever the order of their axes, and points outside the grid are rejected.""",
["inputs"],"all grids (sizes, irregular spacings, attributes) and all points inside, on cell borders, on the edge, and outside","Tests query one small grid.",
["models/weather_model.py"],[("GriddedWeatherModel.get_weather, _recursive_affine_interpolation, bounding","models/weather_model.py")],["get_weather(point)"])
p("C20","Weather models combine and persist without changing the weather",
"""A gridded weather model saved to a file and loaded again has the same grid and answers like the original, and one built from weather station data reports every station's records at their time and place. A combination of models reports the attributes of all its models that cover the point, merged with later models taking precedence, ignores models that fail there with the documented errors (unless told to be sensitive, then it passes the error on), and asking never changes what the models or earlier answers say.""",
["inputs","configurations"],"all grids (with all kinds of times), station tables, combinations and points","Tests mock files and use two toy models.",
["models/weather_model.py"],[("to_file/from_file/from_meteostat, MultiWeatherModel","models/weather_model.py")],["get_weather after a save/load cycle","MultiWeatherModel.get_weather"])
p("C21","Globe models measure true distances and straight shortest paths",
"""Projecting a position to the globe and back returns the position; the distance is symmetric, zero exactly for equal positions, satisfies the triangle inequality and equals the great circle (spherical) or Euclidean (flat) distance. The shortest path between two positions starts and ends there, is equally spaced with the requested
number of points, lies on the globe, and its length equals the distance.""",
["inputs"],"all pairs of positions (equal, close, on one meridian, across the antimeridian, near poles) and all resolutions","Tests check a few positions and lengths.",
["models/globe_model.py"],[("FlatMercatorProjection, SphericalGlobe","models/globe_model.py")],["project/lat_lon/distance/shortest_path"])
p("C22","Recommended sailing directions really go where they should",
"""The sailing directions recommended for a course and wind speed are given with proportions between 0 and 1 adding up to 1, the boat's mean velocity over them points exactly in the requested direction, and it is at least as fast towards the goal as any single heading of the diagram's slice or any combination of two of them. When sailing straight is best it is exactly the requested direction, for multi-sail diagrams each direction names a sail that reaches the speed used, and an influence model is respected. Only directions that no combination of headings leads to are refused.""",
["inputs"],"all diagrams (concave, one-sided, degenerate), wind speeds, directions and influences","Tests check two directions on one fixed table.",
["cruising/basics.py"],[("convex_direction","cruising/basics.py")],["convex_direction(pd, ws, direction)"])
p("C23","Voyage times and costs add up along the route",
"""In constant weather a voyage leg takes its true distance divided by the speed made good for the wind relative to its course, whichever way the wind is described, the position reached after a time lies that way in that direction, and both are inverse to each other. Costs integrate the cost density over the leg plus the absolute cost, splitting a route adds up, and the weather is asked only for places on the leg at times within the voyage. Calm or missing weather only makes a leg slow, after a bounded amount of work.""",
["inputs","configurations"],"all diagrams, constant, varying, calm and missing weather, starts, ends, times, densities, influences and integration settings","The tests do not cover voyages at all.",
["cruising/basics.py"],[("cruise, cost_cruise, isochrone","cruising/basics.py")],["return values","weather queries issued"])
p("C24","The pipeline runs its stages once, in order, and accounts for every record",
"""A pipeline run hands the data through exactly its enabled stages in the documented order, each stage once and on the previous stage's result (training and test data alike), never calling disabled ones. Every training record either contributes to the diagram or is accounted for in the statistics of the stage that removed it, and the statistics
of each stage are those of that stage in that run. Runs are independent: repeating or changing a run on the same pipeline gives the same as a fresh pipeline.""",
["configurations","histories","inputs"],"all combinations of enabled stages, component choices, training/test data and run histories",
"No test runs the pipeline at all.",
["pipeline/pipeline.py","pipeline/extensions.py"],[("PolarPipeline.__call__","pipeline/pipeline.py")],["recorded stage calls, PipelineOutput"])
p("C25","Pipeline extensions turn points into the matching polar diagram",
"""The table extension stores at every wind of its distinct, sorted grid (the configured one, or one spanning the data) the interpolated value of the neighbouring points, the point cloud extension the interpolated value at each sampled wind, and the curve extension the function fitted to the points in its own angle unit. Winds
without neighbouring points give zero and a warning instead of an error. The points given are never changed and processing them again gives the same diagram.""",
["inputs","configurations"],"all weighted point sets, resolutions, neighbourhoods, interpolators, samplers and regressors","No test runs the extensions.",
["pipeline/extensions.py"],[("process of each extension","pipeline/extensions.py")],["process(weighted_points)"])
p("C26","Removing and adding weather influence and weather expansion are faithful",
"""Removing an influence never changes the data given, keeps one record per row in order and, for the identity model, all wind and speed values (taking the documented substitute columns when needed); the angle correcting model shifts wind angles by its fitted correction when removing and by its inverse when adding. Expanding by weather adds to each record
exactly the weather of its own time and place, and records without weather are treated as configured.""",
["inputs","configurations"],"all data sets, column sets, shifts, weather models and modes","Tests use small fixtures and mocks.",
["models/influencemodel.py","pipeline/expander.py"],[("remove_influence/add_influence/fit","models/influencemodel.py"),("WeatherExpander.expand","pipeline/expander.py")],["results of these calls"])
p("C27","Injected and smoothed data respects the measured data",
"""Injecting artificial points keeps all given points with their weights unchanged and adds exactly the configured number with zero wind or zero speed angles and the configured weights. Smoothing keeps the number and order of records, time stamps, missing values and non-numeric columns, replaces only repeated (stair-step) readings by values between the neighbouring different readings (the affine smoother by those linear in time between them), leaves
constant series and evenly spaced ramps unchanged, and rejects records that are not in the order of their time stamps.""",
["inputs"],"all point sets and time series (plateaus, single records, missing values, equal time stamps)","Tests use two fixed series.",
["processing/injector.py","processing/smoother.py"],[("ZeroInjector.inject","processing/injector.py"),("LazySmoother/AffineSmoother.smooth","processing/smoother.py")],["inject(points)","smooth(data)"])
p("C28","Regressors recover the model behind the data and never get worse",
"""Fitting data generated by a model function returns parameters under which the function reproduces the data, and on noisy data parameters whose squared residual is not worse than that of the initial guess. The order of the data does not matter, the model function and data are left unchanged, and data with too few columns or no records is rejected.""",
["inputs"],"all model functions with moderate parameters, noise and orders","Tests fit one function.",
["processing/regressor.py"],[("ODRegressor.fit, LeastSquareRegressor.fit","processing/regressor.py")],["optimal_params after fit"])
p("C29","Model functions equal their documented formulas everywhere",
"""Every library model function equals its documented formula for all wind speeds, wind angles and parameters, for scalars and arrays alike and independently of other entries, and does not change its arguments. The smooth building blocks likewise equal their documented formulas.""",
["inputs"],"all winds and parameters","Tests evaluate one literal per function at most.",
["core/modelfunctions/__init__.py","core/modelfunctions/_models2d.py"],[("ws_* functions","core/modelfunctions/__init__.py")],["function values"])
p("C30","Fuzzy statements evaluate by the rules of fuzzy logic",
"""A fuzzy comparison is 0.5 at its threshold, moves monotonically to 1 on the asserted side and to 0 on the other, is steeper for higher sharpness, and is symmetric; conjunction, disjunction and negation are minimum, maximum and complement, pointwise, so De Morgan's laws hold. The truth of a statement built from several variables depends on exactly those
variables, and building a new statement never changes existing ones.""",
["inputs","histories"],"all expressions over all variables, thresholds, sharpness and data","Tests evaluate a few single comparisons.",
["processing/weigher.py"],[("FuzzyVariable, FuzzyBool","processing/weigher.py")],["FuzzyBool(point)"])
p("C31","Quality reports compute their documented measures",
"""The quality measures reported for a diagram and test data equal their definitions computed from the diagram's evaluations at the test records and the weights and statistics, for any diagram and data, and do not change either.""",
["inputs"],"all diagrams and test data","Tests use one small fixture.",
["pipeline/quality_assurance.py"],[("quality assurance components","pipeline/quality_assurance.py")],["check(...)"])
p("C32","Plots draw exactly the diagram's slices",
"""A polar or flat plot draws for every requested wind speed exactly the points of that slice ordered by angle, in radians or degrees respectively, split by sail where information is given, in the colour the gradient or cycle assigns to its wind speed; convex hull plots of slices surrounding the origin draw a closed convex outline enclosing all points of the slice; scatter and three-dimensional plots show exactly all points. Plotting
does not change the diagram.""",
["inputs","configurations"],"all diagrams, wind speeds, plot kinds, colour and legend options","Tests compare images of a few fixed plots or mock matplotlib.",
["plotting/projections.py"],[("HROPolar, HROFlat, Axes3D methods","plotting/projections.py")],["artists on the axes"])
p("C33","Library calls never modify the caller's data or shared defaults",
"""Constructing, extending, evaluating, converting, weighing, interpolating, sampling, filtering, imputing, smoothing and plotting never modify the arrays, lists, data containers or diagrams given by the caller, nor anything a caller was handed out before, nor defaults shared by later calls. Diagrams and gridded weather models share no arrays or lists with what they were built from or hand out. The same call with the same
arguments repeated in any order gives the same result.""",
["inputs","histories"],"all public operations on caller-owned data, in all orders","Tests never look at the inputs again after the call.",
[PD+"_polardiagramtable.py",PD+"_polardiagrampointcloud.py","core/computing.py","core/data.py","processing/weigher.py"],
[("defensive copies in constructors and getters",PD),("conversions","core/computing.py")],["the caller's objects before and after"])
p("C34","Point clouds hold exactly the points they were given",
"""A point cloud holds exactly the points it was given, in the order given, with their angles reduced to one turn (points of negative wind speed are left out), and adding points appends exactly these. Its wind speeds and wind angles list every occurring value once in ascending order, its boat speeds those of all points in order. Points that are not finite, of wrong shape or without wind are not added and leave the cloud as it was, as do changes to the arrays given or handed out.""",
["inputs","histories"],"all point sets in all forms and all sequences of accepted and rejected additions","Tests build one fixed cloud and add one fixed list of points.",
[PD+"_polardiagrampointcloud.py"],[("PolarDiagramPointcloud.__init__, add_points, points",PD+"_polardiagrampointcloud.py")],["points, wind_speeds, wind_angles, boat_speeds"],[("_points","the points",PD+"_polardiagrampointcloud.py")])
p("C35","Printed diagrams show the diagram's own numbers",
"""A printed table shows every wind angle with, below each printed wind speed, the boat speed stored for that wind (rounded); of tables with many wind speeds it shows the first and last ones. A printed cloud shows every point in order, a printed curve its function, parameters and unit, and a printed multi-sail diagram every sail's diagram below its name.""",
["inputs"],"all diagrams, in particular tables of any size","Tests never print a table or cloud.",
[PD+"_polardiagramtable.py",PD+"_polardiagrampointcloud.py",PD+"_polardiagramcurve.py",PD+"_polardiagrammultisails.py"],[("__str__ of each diagram class",PD)],["str(diagram)"])
p("C36","Leaving out an optional argument means its documented default",
"""Leaving out an optional argument has the same effect as passing the default its documentation names, for any input: radii, norms, exponents and slopes of interpolators, neighbourhoods and weighers, bounds of filters, times and functions of imputator and smoother, formats of data handlers, resolutions, interpolation and units of polar diagrams, extensions of the pipeline, influence and weather models, globe models, route functions and plots.""",
["inputs","configurations"],"all optional arguments with a documented default, on all inputs","Tests construct most components with explicit arguments or compare the stored attribute only.",
["processing/neighbourhood.py","processing/interpolator.py","processing/weigher.py","processing/filter.py","pipeline/extensions.py","cruising/basics.py",PD+"_polardiagramtable.py"],[("default argument values","processing/neighbourhood.py"),("default argument values",PD)],["results with and without the argument"])
p("C37","Answers depend on the values of the arguments, not on the past",
"""The answer of every component, model, diagram, conversion and file reader depends only on its configuration and on the values of the arguments of that call: after any number of calls with other arguments, and also when the same array, list, container or file name comes back with other contents, in another memory layout, as a view or read-only, the answer is the one a newly built component gives to fresh copies. A diagram changed after having been used equals a newly built one. Configuring or using one instance never changes the answers of another.""",
["histories","inputs"],"all sequences of calls on one instance with reused, changed and nearly equal arguments; several instances side by side","Tests call each component once or twice on unrelated arguments.",
["processing/interpolator.py","processing/weigher.py","processing/neighbourhood.py","models/weather_model.py","models/globe_model.py","pipeline/extensions.py","pipeline/pipeline.py",PD+"_polardiagramtable.py"],[("state kept on instances or in modules","processing/interpolator.py"),("diagram evaluation",PD)],["results of used and newly built components"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
print(len(P))
for d in P:
    n=d["statement"].count(". ")+1
    if n>3: print(d["id"],n)
