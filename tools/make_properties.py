"""Writes properties.jsonl (kept as a script so the wording stays reviewable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Simulated cyclone tracks are in-domain, well-formed and kinematically exact",
     "Every simulated track lies inside the model domain, contains only finite values, keeps central pressure below environmental pressure and the radius of maximum winds between 5 and 500 km (at most 100 km at genesis), starts at elapsed time zero and lasts at least 12 hours. Elapsed time and calendar date advance together by exactly the configured time step, bearings lie between 0 and 360 degrees, speeds are non-negative, and each position is the great-circle displacement of the previous one along its bearing for speed times time step. After the first 12 hours no retained step has a pressure deficit below 5 hPa, and before that none after genesis has one below 2 hPa.",
     ["inputs", "configurations", "histories"],
     "All random streams, domains (either hemisphere), time steps, step limits, land layouts, initial-condition distributions and cell statistics.",
     "The unit tests generate a handful of tracks from one fixed seed and compare a few values; the guarantee is over every random history of the generator.",
     ["TrackGenerator/TrackGenerator.py", "Utilities/maputils.py", "Utilities/track.py", "TrackGenerator/trackSize.py"],
     [("track acceptance filters", "TrackGenerator.generateTracks"), ("step loop and termination rules", "TrackGenerator._singleTrack")],
     ["tracks returned by track generation", "tracks.*.nc files"])

prop("C02", "Simulated tracks depend only on inputs and seeds, not on process layout",
     "For fixed configuration, statistics and seeds, the tracks produced for every simulated season are identical whatever the number of processes, the order in which processes run, how often the run is repeated and what random numbers were drawn earlier in the same program. Changing the track seed changes the tracks.",
     ["schedules", "configurations", "histories"],
     "All process counts and interleavings of the ranks, all prior states of the global random generators, repeated runs.",
     "Existing tests run a single process once with a fixed global seed; they never compare partitions or re-runs.",
     ["TrackGenerator/TrackGenerator.py", "Utilities/tcrandom.py", "Utilities/parallel.py"],
     [("one random stream per simulation", "Utilities/tcrandom.py"), ("round-robin balancing of simulations", "TrackGenerator.balanced")],
     ["tracks.*.nc files of the same scenario under different layouts"])

prop("C03", "Each requested season is written exactly once with its drawn event count",
     "A track-generation run with N requested simulations leaves exactly one file for each of seasons 0..N-1 that has events (none for a season that drew zero), holding exactly the Poisson-drawn number of tracks for that season (mean = annual frequency times years per simulation, drawn from the season seed alone), under any number of processes including more processes than seasons and a single season. Each track in a season carries a unique identifier (event number counting from zero, season number).",
     ["schedules", "configurations"],
     "All season counts, process counts, frequencies (including zero-event seasons) and seeds.",
     "No existing test runs the multi-season driver at all, serial or parallel.",
     ["TrackGenerator/TrackGenerator.py", "Utilities/track.py", "Utilities/parallel.py"],
     [("season schedule shared by all ranks", "TrackGenerator.run"), ("track file writer", "Utilities/track.py ncSaveTracks")],
     ["tracks directory after a run"])

prop("C04", "Environmental pressure and over-land decay follow each storm's own state",
     "From genesis on, the environmental pressure of every storm is the published function of the climatological sea-level pressure at its own day and position, its central pressure and its latitude, plus one random offset that stays fixed for the storm. While the land mask puts it over land the pressure deficit decays exponentially with the time since the most recent landfall, starting from the deficit held at the last point over water and at a rate fixed by that deficit, the storm's speed at that point and one random term fixed for the storm.",
     ["histories", "inputs"],
     "All sequences of land/sea transitions along a track, all genesis days and positions, any number of storms per season.",
     "Existing tests check the decay helper on one landfall; multi-landfall histories and multi-storm seasons are not exercised.",
     ["TrackGenerator/TrackGenerator.py", "TrackGenerator/trackLandfall.py", "Utilities/interp3d.py"],
     [("per-track landfall clock", "TrackGenerator._singleTrack"), ("climatological pressure lookup", "TrackGenerator.SamplePressure")],
     ["pressure/env-pressure series of each generated track, land mask lookups and pressure lookups made for it"])

prop("C05", "Event footprints keep each cell's peak gust, its components and lowest pressure",
     "For every event, each grid cell of the footprint holds the maximum gust over all time steps whose storm-centred wind field covers the cell, together with the eastward and northward components and the bearing of that same instant, and the minimum pressure over those steps; cells never reached hold zero wind and the initial environmental pressure. Each step's field is the configured profile and boundary-layer model evaluated with that step's position, pressures, size and motion, times the gust factor, placed within one grid spacing of the storm, and the footprint covers the region plus margin. Combining several events gives, cell by cell, the values of the strongest of the single-event footprints.",
     ["inputs", "histories", "configurations"],
     "All tracks (direction, speed, intensity, partially outside the region, either hemisphere), regions or the track's own extent, moving windows or fields over the whole region, margins that are multiples of the resolution (whole hundredths of a degree), profile and field models.",
     "Existing tests check profiles at single points; the accumulation over time steps, windows and events is not tested.",
     ["wind/__init__.py", "wind/windmodels.py", "wind/writer.py"],
     [("running-maximum mask", "wind.WindfieldAroundTrack.regionalExtremes"), ("window slicing", "wind.WindfieldAroundTrack.regionalExtremes"), ("multi-track combination", "wind.WindfieldGenerator.calculateExtremesFromTrackfile")],
     ["per-step wind fields (time-step callback) and the returned footprint"])

prop("C06", "Radial wind profiles reproduce their published forms in both hemispheres",
     "Each radial profile model returns the wind speed and vorticity of its formula for every radius array, pressure deficit, size, shape parameter and latitude, with the sign of rotation set by the hemisphere: zero wind at the centre, the estimated maximum wind at the radius of maximum winds (Holland-type, Rankine and Jelesnianski profiles). Pressures may be given in Pa or hPa, and the values do not depend on the shape or memory layout of the radius array. Maximum-wind estimators and their inverse recover each other and reject reversed pressures.",
     ["inputs"],
     "All physically valid storms (deficit 1-130 hPa, radius of maximum winds 5-200 km, latitudes off the equator) and radius arrays, including radius zero, exact multiples of the radius of maximum winds, both hemispheres.",
     "The tests compare a few stored arrays for one storm; the formulas are piecewise in radius, latitude and deficit.",
     ["wind/windmodels.py", "wind/vmax.py"],
     [("profile classes", "wind/windmodels.py"), ("maximum-wind estimators", "wind/vmax.py")],
     ["arrays returned by profile objects"])

prop("C07", "Surface wind fields add storm motion and inflow as their models prescribe",
     "Each boundary-layer model converts a profile into surface wind components according to its formulation for every storm translation speed and direction, angle of maximum winds (degrees), hemisphere and radius. The field of a stationary storm is axisymmetric, rotates cyclonically (clockwise south, anticlockwise north of the equator) and never blows outward; rotating the storm's heading rotates the field rigidly. The result does not depend on the memory layout of the grid.",
     ["inputs", "configurations"],
     "All storm motions, headings, hemispheres, intensities, grid geometries and profile choices, wherever the profile is inertially stable.",
     "Tests pin single stored arrays for one storm heading in the southern hemisphere.",
     ["wind/windmodels.py"],
     [("field classes", "wind/windmodels.py")],
     ["component arrays returned by field objects"])

prop("C08", "Pressure fields stay between central and environmental pressure",
     "Each pressure profile returns, for every distance grid, storm intensity and size, exactly its radial form: the central pressure at the centre, non-decreasing outward, approaching but never exceeding the environmental pressure. The array shape of the distance grid is preserved and the grid is not modified.",
     ["inputs"],
     "All distance arrays, central/environmental pressures, sizes and shape parameters.",
     "Tests compare stored arrays for one storm.",
     ["PressureInterface/pressureProfile.py", "PressureInterface/pressureProfile.f90"],
     [("profile methods", "PressureInterface/pressureProfile.py")],
     ["arrays returned by the pressure profile object"])

prop("C09", "Compiled kernels and interpreted fallbacks give the same answers",
     "For every input, the compiled implementation and the pure-Python implementation of the wind profile, wind field, pressure profile, distance/bearing grid and Akima interpolation kernels return the same values to floating-point accuracy, so results do not depend on whether the extensions are installed. This includes both hemispheres, stationary storms, radius zero and degenerate interpolation data.",
     ["inputs", "configurations"],
     "All argument values accepted by both implementations, with extensions present and absent.",
     "Each implementation is tested (if at all) against stored arrays; they are never compared with each other across inputs.",
     ["wind/windmodels.f90", "wind/windmodels.py", "PressureInterface/pressureProfile.f90", "PressureInterface/pressureProfile.py", "Utilities/akima.c", "Utilities/akima.py", "Utilities/maputils.f90", "Utilities/maputils.py"],
     [("import-time choice of implementation", "module headers")],
     ["outputs of both implementations for identical inputs"])

prop("C10", "Compiled extensions never touch memory outside the arrays they are given",
     "For every call the Python layer can make, the native extensions read and write only inside the arrays passed to them, execute no undefined arithmetic, and leave input arrays unmodified. Invalid calls are rejected with a Python exception instead of corrupting memory.",
     ["inputs"],
     "All array lengths from the minimum upward, shapes, orders of points and extreme values.",
     "Unit tests use a few array sizes without instrumentation; an out-of-bounds read does not fail an ordinary assertion.",
     ["Utilities/akima.c", "Utilities/maputils.f90", "PressureInterface/pressureProfile.f90", "wind/windmodels.f90"],
     [("loop bounds and argument checks", "native sources")],
     ["AddressSanitizer/UBSan reports, guard patterns around argument arrays"])

prop("C11", "One complete wind file per affecting event, through any layout, crash or rerun",
     "A wind-field run leaves exactly one file per event whose range of longitudes and latitudes meets the region widened by the margin, and none for other events; each file contains that event's own footprint and is the same whatever the number of processes, the partition of track files, and the order of execution. A run that was killed at any point, or repeated over existing output, ends with the same set of files and the same contents as one uninterrupted run.",
     ["schedules", "crash_points", "configurations"],
     "All process counts, numbers of track files, kill points during the run (including in the middle of writing a file) followed by a rerun.",
     "No test runs the wind-field driver, in parallel or after an interruption.",
     ["wind/__init__.py", "Utilities/parallel.py", "Utilities/nctools.py"],
     [("balanced partition of files/tracks", "wind.loadTracksFromFiles"), ("completeness test before skipping", "wind.WindfieldGenerator.gustFileComplete"), ("region filter", "wind.filterTracks")],
     ["windfield directory after each run"])

prop("C12", "The hazard map is the per-cell calculation, whatever tiling or worker schedule",
     "For every domain size, the hazard grid written to file has every cell of the domain filled exactly once with the return levels and distribution parameters computed from that cell's own annual maxima, independent of how the domain is cut into tiles, the number of worker processes (including more workers than tiles), the order in which results arrive and any recorded wind-field developments kept in the same folder. The run always terminates.",
     ["schedules", "configurations", "inputs"],
     "All domain sizes relative to the tile size, worker counts, and orders of message delivery.",
     "Tests cover tile limits of one grid; the master/worker exchange is never executed.",
     ["hazard/__init__.py", "Utilities/parallel.py"],
     [("tile partition", "hazard.TileGrid"), ("master/worker loop", "hazard.HazardCalculator.dumpHazardFromTiles")],
     ["hazard.nc, messages exchanged between ranks"])

prop("C13", "Annual maxima aggregate every event of each simulated year, and only those",
     "For every set of wind-field files, the wind-speed stack used for hazard contains, for each simulated year and cell, the maximum over exactly that year's events (zero for years without events), at the cell with the same latitude and longitude as in the source files. The result does not depend on file listing order, on the number of digits in the year index, or on the sub-window requested.",
     ["inputs", "histories"],
     "All year counts, events per year, file orders, sub-windows of the domain.",
     "Tests use a small fixed set of files and a single window.",
     ["hazard/__init__.py"],
     [("per-year file selection and maximum", "hazard.aggregateWindFields"), ("window load", "hazard.loadFile")],
     ["array returned by the aggregation, compared with the files on disk"])

prop("C14", "GEV return levels follow L-moment estimates and rise with return period",
     "For every sample of annual maxima (windless years counting as zero) the fitted location, scale and shape are the L-moment estimates and the return levels are the fitted distribution's quantiles, hence not decreasing with return period; periods no longer than a block are missing. With too few non-zero records, constant data or invalid moments everything is missing, for a tail without upper bound the levels are all missing, and no number is ever non-finite. The result does not depend on the order of the records.",
     ["inputs"],
     "All samples (sizes, ties, zeros, heavy and light tails), return-period lists, years per simulation and minimum record counts.",
     "Tests check one stored sample.",
     ["hazard/evd.py", "Utilities/lmomentFit.py"],
     [("L-moment estimator", "Utilities/lmomentFit.py"), ("acceptance rules", "hazard/evd.py gevfit")],
     ["return values of the fit for generated samples"])

prop("C15", "GPD, power-law and empirical return levels are consistent with the records",
     "For every set of event winds the peaks-over-threshold, power-law and empirical return levels do not decrease with return period and equal what the reported parameters (or the ranked records, with one observation per day of the simulation) give; levels and parameters are missing together, as they are with fewer records than required or a tail without upper bound in the threshold fit. Converting threshold return levels back to return periods recovers the requested periods. Empirical levels are available up to the simulated number of years, never leave the range of the data and do not depend on the order of the records.",
     ["inputs"],
     "All samples, thresholds, return-period lists and record counts.",
     "Tests use one or two stored samples.",
     ["hazard/GPD.py", "hazard/evd.py"],
     [("return-level formulas", "hazard/GPD.py, hazard/evd.py")],
     ["return values of the fits for generated samples"])

prop("C16", "Hazard confidence bounds come from valid resamples and bracket correctly",
     "When confidence limits are requested, each cell's lower and upper bounds are the chosen percentiles over fits to all the disjoint random samples of the requested size that cell's own records make, using those samples that can be fitted; hence lower is not above upper and bounds do not decrease with return period. Cells without wind, with fewer records than one sample, or without any fitted sample have missing bounds, and the bounds of one cell never depend on the values of another cell.",
     ["inputs", "configurations"],
     "All record counts, sample sizes, percentile ranges and mixtures of valid and invalid cells in a tile.",
     "The confidence-interval calculation is not exercised by any test.",
     ["hazard/__init__.py"],
     [("resampling loop", "hazard.calculateCI")],
     ["bounds returned for generated wind stacks"])

prop("C17", "Track files reproduce every track exactly when read back",
     "Writing any set of tracks to a track file and reading the file yields the same number of tracks in the same order with the same identifiers, dates, positions, motion, pressures and sizes to storage precision. Writing does not change the tracks in memory, and this holds for sets of any size, including a single track or single-point tracks.",
     ["inputs"],
     "All numbers, lengths, date ranges (leap days, year boundaries, far-future years), time steps and identifiers of tracks.",
     "The tests read one stored file; write-then-read over generated tracks is not covered.",
     ["Utilities/track.py"],
     [("netCDF group per track", "Utilities/track.py ncSaveTracks/ncReadTrackData")],
     ["tracks before writing, after writing, and after reading"])

prop("C18", "Gridded files return the same values at the same coordinates",
     "Any two-dimensional field saved as a gridded netCDF or ASCII grid file and read back has identical values (to storage precision), coordinates and missing-data cells, with no transposition, flip or shift. Saving over an existing file replaces it completely. A netCDF grid converted to a text grid keeps its values (to two decimals), north-first orientation and south-west corner, whichever way its rows run.",
     ["inputs"],
     "All grid shapes, coordinate origins and spacings, missing-value patterns, value ranges, existing or new output file.",
     "Tests read stored grids and save one small grid.",
     ["Utilities/grid.py", "Utilities/nctools.py", "Utilities/nc2txt.py"],
     [("conversion to text", "Utilities/nc2txt.py"), ("grid writers and readers", "Utilities/grid.py, Utilities/nctools.py")],
     ["field before saving and after reading"])

prop("C19", "Historical track files load into the records they contain, in standard units",
     "Loading a track file assigns every input record to exactly one storm, in file order, with positions, times, pressures and wind speeds converted from the configured units, pressures that are blank or impossible marked as missing, and the translation speed and bearing of each point computed from consecutive positions and times of the same storm. A new storm starts exactly when the identifier, or season and storm number, changes (or the configured indicator says so) or the position jumps by more than 10 degrees of longitude or 5 of latitude. This holds for any column order, delimiter, header length, date layout and units.",
     ["inputs", "configurations"],
     "All layouts of the source format, storm sequences (single-point storms, repeated numbers in new seasons, missing values) and unit settings.",
     "Tests load stored arrays for one format.",
     ["Utilities/loadData.py", "Utilities/columns.py", "Utilities/metutils.py", "Utilities/maputils.py"],
     [("record splitting and unit conversion", "Utilities/loadData.py")],
     ["track objects returned for generated files"])

prop("C20", "Pre-processed parameter files match the input records one for one",
     "For every input track database, each file of derived parameters holds exactly one value per selected observation, in the same order as the list of observation positions, so that value k always belongs to position k; genesis files hold exactly the first point of each storm, initial-motion files the motion of each storm that has a second point. Missing or impossible pressures, speeds above 200 km/h, pressure changes above 10 hPa/h and parameters absent from the input appear as the missing-value marker, never as numbers, and speeds, bearings and rates are differences between consecutive observations of the same storm only.",
     ["inputs", "configurations"],
     "All storm sequences, missing-data patterns, season filters and domains.",
     "No test runs the pre-processing stage end to end.",
     ["DataProcess/DataProcess.py", "Utilities/loadData.py"],
     [("parameter extraction", "DataProcess/DataProcess.py processData")],
     ["files written to the process directory"])

prop("C21", "Every in-domain point maps to one grid cell; points outside are rejected",
     "For every domain and cell size that divides it, each point inside the domain belongs to exactly one cell, cell numbers run from zero at the north-west corner across rows, and the cell's reported corner and extent contain the point; points outside the domain and invalid cell numbers are rejected with an error. This holds in all hemispheres and for domains crossing the equator or the Greenwich meridian.",
     ["inputs", "configurations"],
     "All domains, dividing cell sizes (limits and sizes exactly representable in binary), and points including cell and domain edges.",
     "Tests use a single domain in the south-west Pacific.",
     ["Utilities/stats.py"],
     [("cell numbering", "Utilities/stats.py getCellNum/getCellLonLat/validCellNum/maxCellNum")],
     ["cell numbers and corners for generated points"])

prop("C22", "Cell statistics are computed from the observations in and around that cell",
     "For every observation set, the mean, spread, autocorrelation and minimum stored for a cell are those of the valid observations in the cell, enlarged step by step by the configured increment only while there are too few, never outside the domain (an observation on the edge between cells counts in one of them), with land and sea observations kept separate (land falling back to sea when there are none) and missing values excluded. Saved statistics reload to the same numbers, and the set of observations chosen for a distribution follows the same rule.",
     ["inputs", "configurations"],
     "All observation layouts, sparse or empty regions, increments, minimum sample sizes, circular and linear parameters.",
     "Tests use one stored dataset and one cell size.",
     ["StatInterface/generateStats.py", "StatInterface/GenerateDistributions.py", "Utilities/stats.py"],
     [("cell extraction and expansion", "StatInterface"), ("statistics", "StatInterface/generateStats.py")],
     ["coefficients for every cell of generated datasets"])

prop("C23", "Parameter distributions are valid CDFs and samples follow them",
     "Every parameter distribution produced from observations is a valid probability distribution on an evenly spaced grid covering the data range (or the full circle or period): the density is the kernel estimate of the valid observations, never negative, and the cumulative probability is non-decreasing, proportional to the summed density and ends at one. Sampling with a uniform number returns the first grid value whose cumulative probability reaches it, for single samples and batches alike.",
     ["inputs"],
     "All observation samples with at least two values inside their range, step sizes no coarser than the kernels, kernels, angular and periodic settings and uniform draws above 0 and below 1, including those next to a cumulative probability.",
     "Tests compare stored arrays for one dataset.",
     ["StatInterface/KDEParameters.py", "StatInterface/SamplingParameters.py", "Utilities/stats.py"],
     [("KDE and CDF construction", "StatInterface/KDEParameters.py"), ("inverse-CDF sampling", "StatInterface/SamplingParameters.py")],
     ["distribution arrays and samples"])

prop("C24", "Genesis points are drawn from the genesis density, inside its grid",
     "The genesis density written from observed origins is, at each grid point, the kernel density of the origins inside the grid, and the written file holds each value at its own latitude and longitude. Sampled genesis points are always grid points of non-zero density, and their frequencies follow the density cell by cell in both directions.",
     ["inputs"],
     "All origin sets with at least five origins inside the grid, grid limits and steps, densities (including single-cell and highly anisotropic ones) and uniform draws above 0 and below 1.",
     "Tests compare stored arrays for one origin set.",
     ["StatInterface/KDEOrigin.py", "StatInterface/SamplingOrigin.py", "Utilities/stats.py"],
     [("origin KDE", "StatInterface/KDEOrigin.py"), ("two-stage inverse CDF", "StatInterface/SamplingOrigin.py")],
     ["density file and sampled points"])

prop("C25", "The event database holds one faithful row per event, location and hazard level",
     "After building the database in a new output folder from a set of locations, wind-field files, a hazard file and track files, it contains exactly one event row per wind-field footprint (recorded developments kept beside them are not events), one wind row per event and location with the values of the grid cell nearest the location, one hazard row per location and return period with the values from the hazard file, and one closest-approach row per track and location. The content is the same for any number of worker processes and order of results, and the build always terminates.",
     ["schedules", "inputs"],
     "All numbers of locations, events, workers (including more workers than files) and delivery orders.",
     "No test builds the database.",
     ["database/__init__.py", "database/definitions.py"],
     [("master/worker event processing", "database/__init__.py"), ("table definitions", "database/definitions.py")],
     ["rows of the SQLite file compared with the input files"])

prop("C26", "Location queries return that location's events and no others",
     "Every query for a location returns exactly the stored records that belong to that location and satisfy the threshold or distance condition, each paired with its own event's data and in the documented order. No record of another location or event is ever mixed in, however many locations and events the database holds.",
     ["inputs", "histories"],
     "All database contents, location identifiers, thresholds, distances.",
     "No test runs the queries.",
     ["database/queries.py", "database/__init__.py"],
     [("SQL joins", "database/queries.py")],
     ["query results compared with an in-memory model of the tables"])

prop("C27", "Interpolated tracks pass through the observations at regular times",
     "Interpolating an observed track to a time step yields records from the first observation to the last at that step (the final record at the last observation time), positions that agree with the observed ones at observation times and lie on the line between neighbouring observations for linear interpolation, and pressures that are linear between the observed ones and missing before the first and after the last when two or more are observed. Dates follow the same times across month, year and leap-day boundaries, and speeds and bearings are those between the interpolated positions.",
     ["inputs", "configurations"],
     "All observed tracks (irregular times, missing pressures, short tracks), time steps and interpolation types.",
     "Tests check the interpolation helper on one curve.",
     ["Evaluate/interpolateTracks.py", "Utilities/akima.py", "Utilities/loadData.py"],
     [("time base and interpolators", "Evaluate/interpolateTracks.py")],
     ["interpolated tracks compared with source tracks"])

prop("C28", "Station time series record every step at the station's own grid point",
     "The series extracted for a station holds one record per time step that each storm spends in the region, in the order of the storms and of their times, with the wind components, speed, bearing and pressure of the grid point nearest the station at that step and zero wind when the station lies outside the field of that step. The maxima and minima files report, for each station with a series, a record of that series with the largest speed and smallest pressure, and a recorded wind field evolution holds the same fields layer by layer.",
     ["inputs", "histories"],
     "All station files, station positions (inside, on edges, outside), tracks and grid windows; several processes and repeated runs.",
     "No test runs the time-series extraction.",
     ["Utilities/timeseries.py", "wind/__init__.py"],
     [("nearest-point sampling per step", "Utilities/timeseries.py")],
     ["per-step fields passed to the extractor versus files written"])

prop("C29", "Local wind equals regional wind times the multiplier for its direction",
     "For every gust field, bearing field and set of directional multiplier rasters, each cell of the local-wind output equals the regional gust interpolated to that cell times the multiplier raster of the direction octant the wind blows from, whatever the grid resolutions; a missing multiplier leaves the gust unchanged. The multi-threaded segmented processing gives the same raster as the single-pass processing for any number of threads and segment size, and always terminates.",
     ["schedules", "inputs", "configurations"],
     "All bearings (including octant edges and 0/360), raster sizes, segment sizes, thread counts and interleavings.",
     "Tests run one tiny raster with one thread setting.",
     ["ProcessMultipliers/processMultipliers.py"],
     [("octant masks", "ProcessMultipliers/processMultipliers.py"), ("worker queue over segments", "ProcessMultipliers/processMultipliers.py processMultV2")],
     ["output rasters compared with a reference computed from inputs"])

prop("C30", "Unit conversions are right for every unit pair, invertible and consistent",
     "Converting any scalar or array between any two supported units of speed, pressure, length, temperature or mixing ratio gives the physically correct value to 0.1 per cent (0.2 degrees for temperature), whichever of the accepted names is used, keeps missing values missing and leaves the input unchanged; converting there and back, or through an intermediate unit, returns the original to that accuracy. Humidity, vapour-pressure, dew-point, wet-bulb and Coriolis helpers agree with their defining relations and with each other over their valid range.",
     ["inputs"],
     "All unit pairs and values, scalars, integers, plain and masked arrays; temperatures from -30 to 50 C, pressures from 500 to 1060 hPa, all humidities between 0 and 100 per cent.",
     "Tests check one value per conversion.",
     ["Utilities/metutils.py"],
     [("conversion table", "Utilities/metutils.py")],
     ["returned values"])

prop("C31", "Distances, bearings and grids agree with spherical geometry everywhere",
     "Great-circle distance, bearing, destination-point and grid distance/bearing functions agree with spherical geometry (radius 6367 km) and with each other for all point pairs: moving a distance along a bearing and measuring back recovers both, and distances are symmetric, never negative and defined for coincident and antipodal points. Consecutive displacements along a track take the short way round, with bearings between 0 and 360 degrees. Grid helpers return regular grids that cover the requested limits and margins with the requested spacing and whose distances and directions match the point-by-point values.",
     ["inputs"],
     "All point pairs and grids including the poles, the date line, the equator, Greenwich, coincident and antipodal points (destinations start off the poles); spacings and limits in whole thousandths of a degree.",
     "Tests use a few stored pairs.",
     ["Utilities/maputils.py", "Utilities/maputils.f90"],
     [("spherical formulas", "Utilities/maputils.py")],
     ["returned values"])

prop("C32", "Configuration values reach the model typed, complete and unaltered",
     "Every option present in the configuration file is returned with exactly the value and type the file gives, and every absent option with its documented default or the default the caller passes; option names are case-insensitive and never taken from another section. The first configuration file read in a run answers every later request, whichever accessor is used, and a text option stored programmatically is read back unchanged.",
     ["configurations", "histories"],
     "All combinations of present and absent options, value spellings, access helpers and orders of access.",
     "Tests check a handful of options.",
     ["Utilities/config.py"],
     [("defaults plus single read", "Utilities/config.py")],
     ["values returned by the accessors"])

prop("C33", "The processed-file ledger reports exactly the unchanged files already processed",
     "A file is reported as already processed if and only if it was recorded earlier with its present content, in this run or in any earlier run whose list was loaded, and archiving moves a file, content unchanged, to a name carrying its date. A run interrupted while the list is being written loses at most the entry being written, and later runs can read and extend the list.",
     ["histories", "crash_points"],
     "All sequences of record, modify, reload, delete and archive operations, and truncation of the ledger at any byte.",
     "No test covers the ledger beyond trivial calls.",
     ["Utilities/process.py", "Utilities/files.py"],
     [("append-only ledger", "Utilities/process.py")],
     ["answers and ledger file compared with a model"])

prop("C34", "Track domain and genesis frequency are derived from the qualifying storms",
     "The automatically computed track-generation domain is the smallest whole-degree rectangle holding the wind domain and every observed position, up to its last visit, of each storm that enters the wind domain. The genesis frequency, to two decimals, is the mean annual number of storms whose genesis lies inside the generation domain over every season from the first on record to the last but one, and the annual counts are recorded per season.",
     ["inputs", "configurations"],
     "All storm databases, domains and season spans.",
     "Tests do not run either calculation on generated data.",
     ["DataProcess/CalcTrackDomain.py", "DataProcess/CalcFrequency.py"],
     [("domain envelope", "DataProcess/CalcTrackDomain.py"), ("season histogram", "DataProcess/CalcFrequency.py")],
     ["computed limits and frequency"])

prop("C35", "Line, circle and polygon geometry gives exact answers",
     "For every configuration of points, segments, circles and polygons, the reported intersection status and points agree with exact geometry: every reported point lies on both figures, and none is missing or extra. A point is reported inside a polygon exactly when it is, independent of the polygon's orientation, starting vertex or convexity.",
     ["inputs"],
     "All segments (crossing, touching, parallel, overlapping), circles not tangent to the segment, simple polygons (convex, concave, clockwise or anticlockwise), query points off the boundary.",
     "Tests check a few textbook cases.",
     ["Utilities/Intersections.py"],
     [("crossing and winding numbers", "Utilities/Intersections.py"), ("segment intersection", "Utilities/Intersections.py")],
     ["returned status and points"])

prop("C36", "Evaluation statistics count each track observation where it occurred",
     "Track-density, genesis-density, pressure, longitude-crossing and landfall statistics computed from a set of tracks equal direct counts over those tracks: each in-grid observation counts once in the cell that contains it, each crossing or landfall once at the gate and in the direction where it happens, and pressures are summarised per cell over that cell's observations only, cells without any being saved as missing. Synthetic means and percentiles are taken over all event sets, whatever the file order and the number of processes that share the event sets.",
     ["inputs", "configurations"],
     "All track sets (including positions on cell edges and gates), grids and gates, numbers of event sets and processes.",
     "No test covers the evaluation statistics.",
     ["Evaluate/trackDensity.py", "Evaluate/longitudeCrossing.py", "Evaluate/pressureDistribution.py", "Evaluate/genesisDensity.py"],
     [("histogram and crossing counts", "Evaluate")],
     ["arrays computed for generated tracks"])

prop("C37", "Every simulated step uses the statistics of the cell and surface it is over",
     "Bearing, speed and pressure tendency at each step equal the mean of the grid cell the storm is in (separate land and sea values for bearing and speed) plus that cell's standard deviation times a first-order autoregressive term with that cell's lag-one coefficient and standard logistic innovations. Genesis bearing, speed and day are drawn from the distributions of the genesis cell. Over water the tendency is reversed to filling only when it would take the pressure more than four standard deviations below the cell's lowest observed pressure.",
     ["histories", "configurations"],
     "All cell statistics, domains, time steps, land layouts and random streams.",
     "No existing test inspects a simulated step; the rule must hold at every step of every random history.",
     ["TrackGenerator/TrackGenerator.py", "StatInterface/generateStats.py", "Utilities/stats.py"],
     [("autoregressive step", "TrackGenerator._stepBearing/_stepSpeed/_stepPressureChange"), ("cell lookup", "Utilities/stats.py getCellNum")],
     ["per-step bearing, speed and pressure of generated tracks"])

prop("C38", "A full model run equals its stages run one at a time",
     "A run of the whole model leaves the same files with the same contents as separate starts of the model with one stage enabled each, in order, as the same run on several processes, and as a repeat of stages already done. Each stage stores only its own products and works from the products of the earlier stages for the configured region, year and event counts. The calibration stage stores for each quantity the distributions and statistics of that quantity's own observations.",
     ["configurations", "histories", "schedules"],
     "All combinations of enabled stages, histories of repeated starts, numbers of processes and valid configurations of region, models and sizes.",
     "No test runs more than one stage, and the wiring between stages is only visible in their stored products.",
     ["tcrm.py", "StatInterface/StatInterface.py", "TrackGenerator/TrackGenerator.py", "wind/__init__.py", "hazard/__init__.py", "database/__init__.py"],
     [("stage switches", "tcrm.py main"), ("per-quantity observation files", "StatInterface/StatInterface.py")],
     ["files stored by each start of the model"])

prop("C39", "A scenario run turns an observed storm into that storm's footprint",
     "Running a scenario from an observed track file stores one five-minute track per storm, passing through every observed position, pressure and size at its time, and one footprint for each storm that comes within the margin of the region. The footprint equals the configured wind model accumulated along that stored track for the configured region (or the storm's own extent when none is given), margin, resolution and domain. Station series requested with it peak at the footprint's value for the station's grid point, and the map drawn shows the footprint inside the region.",
     ["inputs", "configurations"],
     "All observed tracks with sizes and surrounding pressures, one or several storms, near and far, regions, models, full and moving-window domains.",
     "Tests run no scenario; every step uses another module's output and units.",
     ["tcevent.py", "Evaluate/interpolateTracks.py", "wind/__init__.py", "Utilities/timeseries.py"],
     [("scenario driver", "tcevent.py"), ("track interpolation", "Evaluate/interpolateTracks.py"), ("footprint of each track", "wind/__init__.py")],
     ["stored track, footprint and series files"])

prop("C40", "UTM coordinates agree with the transverse Mercator projection",
     "Converting a latitude and longitude (in either the -180..180 or the 0..360 convention) gives the standard zone, including the exceptions for Norway and Svalbard, and the easting and northing of the transverse Mercator projection on the chosen ellipsoid to the centimetre inside the zone. Converting back returns the position. A grid saved in UTM coordinates has the projected corner and its values unchanged.",
     ["inputs", "configurations"],
     "All positions of the UTM system, both longitude conventions, the tabulated ellipsoids, zones given or derived, both hemispheres.",
     "Tests convert a handful of positions in one zone.",
     ["Utilities/lat_long_UTM_conversion.py", "Utilities/grid.py"],
     [("projection series", "Utilities/lat_long_UTM_conversion.py"), ("grid header", "Utilities/grid.py")],
     ["returned coordinates and saved grid files"])

prop("C41", "Exported shape files keep every track position and attribute",
     "Tracks exported as points, segments or lines give one feature for every record (or storm), drawn through exactly the recorded positions and split where the track passes 0E, with every recorded attribute and the intensity category of its pressure. A storm's line carries its first date, lowest pressure, highest wind and age. Polygons and their attributes copied through the package read back unchanged.",
     ["inputs"],
     "All observed and simulated tracks of one or more records, passing 0E or not, all three formats, all multi-part polygons.",
     "Tests read one fixed file; the exported geometry is never read back.",
     ["Utilities/shptools.py", "Utilities/tracks2shp.py"],
     [("track export", "Utilities/tracks2shp.py"), ("shape file reading and writing", "Utilities/shptools.py")],
     ["shape files written"])

prop("C42", "Impact is calculated once for every footprint, and failures are reported",
     "When impact is requested, the loss tool is started exactly once for every stored footprint, with that footprint, the configured exposure and a result file of its own in the impact folder, whatever the names of folders and other files. When impact is not requested it is never started. If it fails for any footprint the run fails.",
     ["configurations", "faults"],
     "All sets of footprints and unrelated files, output folder names, switches and exposure settings; failure of the tool on any footprint.",
     "The only test needs the external tool and is skipped without it.",
     ["impact/__init__.py", "tcevent.py"],
     [("settings and calls of the loss tool", "impact/__init__.py")],
     ["arguments and settings received by the tool"])

prop("C43", "Landfall statistics of gates and areas equal a direct count of the tracks",
     "For every gate (crossed from its left-hand side) or area (entered from outside), the reported totals, means, extremes and quantiles over event-set files of landfall number, of landfalls per intensity category, and of landfall pressure equal a direct geometric count over the stored tracks. Each statistic belongs to the gate or area whose number it carries, in whatever order they are stored.",
     ["inputs"],
     "All event sets, gate lines and simple areas in any order and numbering, without positions exactly on a boundary.",
     "No test covers these statistics.",
     ["Evaluate/landfallIntensity.py", "Evaluate/locationLandfallIntensity.py"],
     [("landfalls of gates", "Evaluate/landfallIntensity.py"), ("landfalls of areas", "Evaluate/locationLandfallIntensity.py")],
     ["returned tables"])

prop("C44", "A downloaded data set is complete or absent",
     "A required data set that is not yet present is fetched once, unpacked when it comes as a gzip or zip archive, and stored byte for byte under its configured name; one that is present is neither fetched nor altered. Whatever goes wrong - the server refuses, the connection ends early, the archive is damaged, the run is ended at any point - the failure is reported and no file that a later run would take for the data set is left, so that the next run fetches it completely.",
     ["inputs", "crash_points"],
     "All data set sizes, formats and names; every server fault and every point at which the run ends.",
     "Tests do not download; faults and interruptions need a misbehaving server and an ended run.",
     ["Utilities/datasets.py", "tcrm.py"],
     [("fetching, unpacking and storing", "Utilities/datasets.py"), ("download stage", "tcrm.py")],
     ["files in the data set's folder", "requests the server received"])

prop("C45", "Figures show the stored results in the requested units",
     "A location's hazard curve draws its stored return-period speeds, confidence bounds and recorded events, all in the requested unit; a map draws the stored speeds in that unit at their own positions, over exactly the region, and points without a value are neither drawn nor blended into their neighbours by smoothing. The figure of a station's series draws that station's stored pressure, speed and direction, is labelled with its identifier and is saved under it.",
     ["inputs", "configurations"],
     "All hazard grids (any resolution, missing points), units, locations, event records, regions not across 180 degrees, station identifiers and series lengths.",
     "No test looks at what the figures contain.",
     ["PlotInterface/AutoPlotHazard.py", "PlotInterface/curves.py", "PlotInterface/maps.py", "PlotInterface/plotTimeseries.py", "PlotInterface/timeseries.py", "Utilities/smooth.py", "tcevent.py"],
     [("hazard curves and maps", "PlotInterface/AutoPlotHazard.py"), ("series figures", "PlotInterface/plotTimeseries.py"), ("scenario map", "tcevent.py")],
     ["lines, points, areas and contours of each figure when it is saved"])

prop("C46", "Combined site multipliers are the product of their three components",
     "For each of the eight wind directions, the combined multiplier raster made from the named tiles covers exactly those tiles; each cell holds the product of the shielding, terrain and topographic multipliers of that direction at that place. A cell is marked missing exactly where no tile lies or any component is missing, and tiles in the source folders that were not named have no influence.",
     ["inputs", "configurations"],
     "All tile layouts, sizes and resolutions, row orders of the source files, missing cells, other tiles in the source folders; both programs that combine multipliers.",
     "Tests check single steps on fixed files.",
     ["ProcessMultipliers/processMultipliers.py", "Utilities/get_multipliers.py"],
     [("translation, merging and combination of tiles", "ProcessMultipliers/processMultipliers.py"), ("stand-alone collection", "Utilities/get_multipliers.py")],
     ["combined rasters", "local wind raster"])

prop("C47", "Low-resolution local winds use the multiplier of their direction and place",
     "For every wind field file in the folder, the low-resolution program writes one local wind file beside it on the same grid; each cell holds the wind speed times the multiplier of the direction the wind comes from, averaged around that cell's own position. Cells without a multiplier keep their wind speed.",
     ["inputs", "configurations"],
     "All wind grids (rows from north or south), multiplier rasters of any finer resolution, partial cover and missing areas, folder names.",
     "No test covers this program.",
     ["ProcessMultipliers/lowResProcessMultipliers.py"],
     [("averaging to the wind grid and application", "ProcessMultipliers/lowResProcessMultipliers.py")],
     ["local wind files"])

prop("C48", "Figures of the input data draw every processed observation once",
     "In the figures that summarise the input data, each scatter plot of a parameter against its previous value draws every pair of successive non-missing values of a cyclone once and no pair of values that are not successive; quantile plots draw all non-missing values. The pressure histogram counts the lowest pressure of every cyclone once, and the bars of years and days show the stored counts.",
     ["inputs"],
     "All processed input data with missing values anywhere, tracks across longitude 0 and 180 in either direction, any number of cyclones and years.",
     "No test looks at what the figures contain.",
     ["PlotInterface/plotStats.py", "tcrm.py"],
     [("figures of the input data", "PlotInterface/plotStats.py"), ("stage that loads and draws the data", "tcrm.py")],
     ["points, lines and bars of each figure when it is saved"])

prop("C49", "Storm size follows pressure deficit and latitude, one deviation per storm",
     "The radius to maximum winds of every simulated storm follows, at each step, the documented relation to the storm's pressure deficit and latitude, times a factor that stays the same for the whole life of the storm. The factors of different storms are drawn independently from the documented log-normal scatter, and no storm starts with a radius of 100 km or more.",
     ["inputs", "configurations"],
     "All domains and hemispheres, deficits, land masks, time steps, seasons and random streams.",
     "Tests evaluate the relation once; no test looks at the radius along a simulated track or across storms.",
     ["TrackGenerator/trackSize.py", "TrackGenerator/TrackGenerator.py"],
     [("size relation", "TrackGenerator/trackSize.py"), ("deviation drawn at genesis, size updated each step", "TrackGenerator/TrackGenerator.py")],
     ["radius, pressure and latitude along every stored track"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
