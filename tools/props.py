import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))

p("P01","Parallel hazard results equal the serial results for every schedule",
"For one set of wind-field files and one configuration, the hazard file is identical cell for cell whether it is computed by one process or by any number of processes, in whatever order the processes' messages are delivered. Every tile of the domain is computed exactly once and ends up at its own position in the result. Every participating process terminates, also when there are more processes than tiles.",
["schedules","inputs","configurations"],
"All process counts (1..N), all interleavings and receive orders of the message exchange, buffered and rendezvous sends, all tile counts including fewer tiles than processes, and all sets of wind fields.",
"The unit tests never run more than one process, and a single parallel run exercises one of exponentially many receive orders.",
["hazard/__init__.py","Utilities/parallel.py"],
[("tile cursor","next tile index handed out by the master","hazard/__init__.py: HazardCalculator.dumpHazardFromTiles"),("returned counter","number of tile results received","hazard/__init__.py: HazardCalculator.dumpHazardFromTiles"),("Rp / loc / scale / shp arrays","global result grids filled tile by tile","hazard/__init__.py: HazardCalculator")],
[("work distribution by tags","hazard/__init__.py: dumpHazardFromTiles"),("barriers and master-only decorator","Utilities/parallel.py: disableOnWorkers; hazard/__init__.py: run")],
["hazard/hazard.nc as written at the end of a run","termination of every process","values returned per tile"])

p("P02","The event database holds every record exactly once for any number of processes",
"After a successful build the database holds one event row per wind-field file, one wind-speed row per (location, event) pair, one hazard row per (location, return period) pair and one passage row per (location, non-empty track) pair, each with the values of the source files at the location's nearest grid point. This does not depend on the number of processes, on message timing, on the order in which the directory lists its files or on an earlier database being built over. Every participating process terminates.",
["schedules","inputs","configurations"],
"All process counts, message interleavings, directory orders, numbers of files (also fewer than the number of processes, and none), numbers of locations, tracks with and without points, and plots or recorded time steps standing beside the wind-field files.",
"Unit tests do not build a database in parallel, and exactly-once insertion depends on the interleaving and on the file/worker count relation.",
["database/__init__.py","Utilities/parallel.py","Utilities/maputils.py"],
[("tblEvents / tblWindSpeed / tblHazard / tblTracks","the relational contents","database/__init__.py"),("w / p cursors","files handed out / workers answered","database/__init__.py: processEvents, processTracks")],
[("master/worker distribution","database/__init__.py: processEvents, processTracks"),("sqlite insert","database/__init__.py: insertEvents, insertWindSpeeds, processHazard, insertTracks")],
["contents of hazard.db after the run","termination of every process"])

p("P03","Pipeline stages run in order, once, and never overlap across processes",
"A model run executes exactly the stages its configuration enables, each once, and starts a stage only when the enabled stages whose output it uses (downloads before data processing, processing before statistics, statistics before tracks, tracks before wind fields, wind fields before hazard and database, hazard before hazard plots) are complete on every process. Single-process stages run on one process only, parallel stages run on every process. When a stage fails the stages that use its output are not executed and the failure is reported.",
["configurations","schedules","fault_sequences"],
"All subsets of enabled actions, all process counts, all interleavings of the processes, and every stage as a failure point.",
"Tests never run the pipeline; a missing synchronisation between two stages only shows up under a particular timing.",
["tcrm.py","Utilities/parallel.py"],
[("action switches","which stages are enabled","tcrm.py: main"),("barrier count per process","synchronisation points passed","tcrm.py: main")],
[("disableOnWorkers","Utilities/parallel.py"),("barriers between stages","tcrm.py: main, doX functions")],
["entry and exit of each stage's module-level entry point on each process"])

p("P04","The track catalogue is a function of the seeds, not of the process count",
"With fixed season and track seeds, the generated set of track files and their contents are identical however many processes share the work and in whatever order the simulations are carried out. Each simulation is generated exactly once, and different simulations use different random streams.",
["configurations","schedules","inputs"],
"All pairs of seeds, numbers of simulations (including one), years per simulation and process counts.",
"Tests run a fixed single-process sample; dependence on the process count requires comparing runs over many partitions of the simulations.",
["TrackGenerator/TrackGenerator.py","Utilities/parallel.py"],
[("per-simulation random stream position","state of the generator a simulation starts from","TrackGenerator/TrackGenerator.py: run"),("simulation list","which simulation belongs to which process","TrackGenerator/TrackGenerator.py: run; Utilities/parallel.py: balanced")],
[("seed and jump-ahead","TrackGenerator/TrackGenerator.py: run"),("balanced partition","Utilities/parallel.py: balanced")],
["track files in the tracks directory"])

p("P05","Every generated track is physically and structurally valid",
"Every generated track starts at a genesis point in the track domain and keeps every recorded position inside it, has strictly regular time steps not exceeding the configured maximum number, lasts at least 12 hours, and has every central pressure below the environmental pressure of its own time and place. Successive positions follow from the recorded speed and bearing, radii to maximum wind stay between 5 and 500 km, a prescribed starting point or direction is used as given, and the storms of a simulation carry distinct identifiers.",
["inputs","histories","configurations"],
"All random draws, all genesis locations, all land/sea patterns, all pressure climatologies and all configured time steps and lifetimes.",
"A test samples a handful of tracks with fixed seeds; the guarantee is over every random history of a storm.",
["TrackGenerator/TrackGenerator.py","TrackGenerator/trackSize.py","TrackGenerator/trackLandfall.py","Utilities/track.py"],
[("storm state (lon, lat, speed, bearing, pressure, environment pressure, rmw, age)","evolving state of one storm","TrackGenerator/TrackGenerator.py: _singleTrack"),("track id counter","identifier of the storm in its simulation","TrackGenerator/TrackGenerator.py: generateTracks")],
[("track validity filter","TrackGenerator/TrackGenerator.py: generateTracks"),("step loop","TrackGenerator/TrackGenerator.py: _singleTrack")],
["tracks returned by the generator and written to track files"])

p("P06","A wind-field file is the exact envelope over all time steps of its tracks",
"At every grid point the stored gust is the largest gust over all time steps of the track(s) in the domain, the stored wind components are those of the same instant, and the stored pressure is the smallest pressure over those time steps. Time steps at which the storm centre is outside the domain contribute nothing, and every time step inside it contributes. The result for several tracks is the same whatever order the tracks are given in, and a storm on the edge of the domain counts as inside.",
["inputs","histories","configurations"],
"All tracks (points entering and leaving the domain, repeated points, both hemispheres), all domains, profiles and boundary-layer models, and any number and order of tracks.",
"Tests compare one radial profile at one time; the envelope is a property of the whole history of a storm.",
["wind/__init__.py","wind/windmodels.py"],
[("gust / bearing / Vx / Vy / P grids","running envelope","wind/__init__.py: WindfieldAroundTrack.regionalExtremes"),("time index list","time steps inside the region","wind/__init__.py: regionalExtremes")],
[("per-step fold","wind/__init__.py: regionalExtremes"),("multi-track merge","wind/__init__.py: calculateExtremesFromTrackfile")],
["returned grids and per-time-step callback values","gust.*.nc contents"])

p("P07","Interrupted or resumed wind-field runs end with one complete file per track set",
"Whatever the number of processes and wherever an earlier run was interrupted, after a run that finishes there is exactly one complete wind-field file for each storm that enters the domain, and its contents equal those of an uninterrupted run. A file left incomplete by an interruption is never mistaken for a finished one, and finished files are not lost.",
["crash_points","histories","configurations"],
"All interruption points in the writing of a wind-field file, all sequences of interrupted and resumed runs, all process counts.",
"Tests do not interrupt a run; the failure needs a crash between two writes followed by a restart.",
["wind/__init__.py","Utilities/nctools.py"],
[("wind-field file on disk","absent, partial or complete","wind/__init__.py: dumpGustsFromTracks, gustFileComplete")],
[("completeness test before recalculation","wind/__init__.py: gustFileComplete"),("file writing","Utilities/nctools.py: ncSaveGrid")],
["directory of gust.*.nc files after every run"])

p("P08","Hazard values depend only on each cell's own wind history and obey the rules",
"The hazard at a grid cell depends only on that cell's own wind speeds (one maximum per simulated year for the annual-maximum method, every event otherwise), not on its neighbours, on the tile it lies in or on the order of the files. A cell that never saw wind has zero hazard; for the fitted methods a cell with fewer valid records than the configured minimum, and only such a cell or one whose fit fails, is marked as missing; otherwise return-period wind speeds never decrease as the return period grows. The result file holds the configured return periods and the domain's own coordinates.",
["inputs","histories","configurations"],
"All wind-speed histories per cell, all minimum-record settings, all distributions, all return-period lists, all file orders, all numbers of years per simulation, and plots or recorded time steps standing beside the wind-field files.",
"Tests fit one sample; the rules are about all combinations of sparse and dense cells, years with several events and tile positions.",
["hazard/__init__.py","hazard/evd.py"],
[("per-cell annual maxima / event sample","input of the fit","hazard/__init__.py: aggregateWindFields, loadFilesFromPath"),("fit result","location, scale, shape, return levels","hazard/evd.py")],
[("aggregation by simulated year","hazard/__init__.py: aggregateWindFields"),("per-cell fitting loop","hazard/__init__.py: calculateGEV, calculateGPD, calculatePower, calculateEMP")],
["hazard.nc variables","arrays returned for a tile"])

p("P09","Tiles partition the hazard domain exactly",
"For every domain aligned to the wind-field grid and every tile size, the tiles cover every cell of the domain exactly once, never reach outside it, and are enumerated without gaps or repetition. The coordinates reported for the domain are those of the covered cells.",
["inputs","configurations"],
"All domain sizes and offsets on the wind-field grid, all grid resolutions and all tile sizes, including tile sizes larger than the domain and domains not divisible by the tile size.",
"Tests check one 11x11 example; boundary slips occur only for particular remainders and offsets.",
["hazard/__init__.py"],
[("tile limits","index ranges of each tile","hazard/__init__.py: TileGrid")],
[("tile enumeration","hazard/__init__.py: TileGrid.tileGrid, getGridLimit, getDomainExtent")],
["limits returned for every tile number","domain coordinates"])

p("P10","Database queries return exactly the records that satisfy their condition",
"Every query on the event database (records exceeding a wind speed, records at a location, events passing within a distance, passages with wind speeds, return-period events, all return levels, event selection) returns exactly the set of records of the named location that satisfy the stated condition, in the stated order and each once. Values reported for a location and event are that location's own values for that event.",
["inputs","histories"],
"All database contents (several locations, events shared by locations, ties, values equal to a threshold) and all query arguments.",
"Tests only check that a query runs on one small database; joins go wrong only when several locations share events.",
["database/queries.py","database/__init__.py"],
[("tblEvents, tblWindSpeed, tblHazard, tblTracks, tblLocations","relations queried","database/__init__.py")],
[("SQL statements","database/queries.py, database/sql.py")],
["records returned by each query"])

p("P11","The processed-files log remembers exactly what was processed",
"A file is reported as already processed exactly when the latest entry recorded for its directory and name carries the queried content digest or modification time, across any sequence of record, modify, query, delete and reload in new processes. Recording a file or reloading the log loses and invents no other entry. Archiving a file moves its contents unchanged to a file of its name (with its date added when that is switched on) and leaves all other archives untouched.",
["histories","inputs","crash_points"],
"All sequences of operations on any number of files that are modified, touched, renamed or removed between operations, and log files reloaded at any point.",
"Tests perform single operations; the guarantee is about arbitrary sequences with reloads in between.",
["Utilities/process.py","Utilities/files.py"],
[("processed-files table","recorded entries in memory","Utilities/process.py"),("log file on disk","persisted entries","Utilities/process.py"),("archive settings","where and how files are archived","Utilities/process.py")],
[("record / query / delete","Utilities/process.py: pWriteProcessedFile, pAlreadyProcessed, pDeleteDatFile"),("load","Utilities/process.py: pGetProcessedFiles"),("archive","Utilities/process.py: pArchiveFile, pMoveFile")],
["return values of the operations","contents of log file and archive directory"])

p("P12","Configuration lookups follow one precedence and one type for each option",
"Looking up an option returns the value of the user's file when it is given there, otherwise the built-in default, otherwise the caller's fallback, and otherwise fails (the legacy lookup, which has a fallback of nothing, returns nothing); option names are matched regardless of case and section names exactly. A value always has the type declared for the option whichever of these sources it came from. Values set during a run are seen by later lookups, and writing a configuration and reading it again yields the same values.",
["inputs","histories","configurations"],
"All options and sections (declared, undeclared), all combinations of sources that define the option, all spellings of case and all sequences of reads and writes.",
"Tests check a few hand-picked options; the precedence is a relation over all combinations of sources.",
["Utilities/config.py"],
[("option store","sections, options and raw values","Utilities/config.py"),("defaults","built-in values","Utilities/config.py: DEFAULTS"),("declared types","type of each option","Utilities/config.py: FORMATERS / PARSERS")],
[("typed access","Utilities/config.py: ConfigParser.geteval, items, set"),("legacy lookup functions","Utilities/config.py: cnfGetIniValue")],
["values returned by lookups"])

p("P13","Data sets are downloaded once and never left half-downloaded",
"After a download step every configured data set is either present in full or reported as failed; a transfer that is cut short, or a failed unpacking, never leaves a file that later runs accept as the complete data set. Data sets already present are not fetched again, each configured data set is handled exactly once, and one that fails does not prevent the others from being obtained.",
["fault_sequences","histories","configurations"],
"All lists of data sets, all sequences of runs, and a failure (connection refused, error status, transfer cut at any block, missing length, bad archive) at any point of any transfer.",
"Tests have no network and do not inject transfer faults; the failure needs a fault in one run followed by another run.",
["Utilities/datasets.py"],
[("data set list","configured data sets","Utilities/datasets.py"),("file on disk","absent, partial or complete","Utilities/datasets.py")],
[("download in blocks","Utilities/datasets.py: DataSet.download"),("presence test","Utilities/datasets.py: DataSet.isDownloaded")],
["files in the data directories","URLs fetched","return value of the step"])

p("P14","Historical data is turned into per-storm samples without crossing storms",
"Each historical record is assigned to exactly one storm, and every change or rate (speed, bearing, pressure rate and so on) is computed between two consecutive records of the same storm; first records of storms yield missing rates. Missing or impossible values are excluded from the samples rather than entering them as numbers. Storms outside the chosen seasons, and genesis points outside the domain, are left out of the corresponding samples, and the yearly counts add up to the number of storms.",
["inputs","configurations"],
"All track data sets: any number of storms, of any length including single records, any pattern of missing values, any jump in position, any season filter and any set of columns (numbered storms, serial numbers, or an explicit start indicator).",
"Tests use one fixed data file; off-by-one errors at storm boundaries appear only with short storms or missing values in particular places.",
["DataProcess/DataProcess.py","Utilities/loadData.py","DataProcess/CalcTrackDomain.py","DataProcess/CalcFrequency.py","Utilities/track.py"],
[("start indicator","marks first record of each storm","Utilities/loadData.py: getInitialPositions"),("derived samples","all_*, init_* output files","DataProcess/DataProcess.py")],
[("storm splitting","Utilities/loadData.py: getInitialPositions, loadTrackFile"),("rate computation","Utilities/loadData.py: getSpeedBearing; DataProcess/DataProcess.py")],
["sample files in the process directory","tracks returned by the loader"])

p("P15","Grid cells number the domain one-to-one and statistics use the right cells",
"Cell numbers and cell corners correspond one-to-one over the domain, every point of the domain lies in exactly one cell and its cell number is the number of that cell. The statistics of a cell are computed from exactly the valid observations within that cell, extended step by step only until the minimum sample is reached or the whole domain is used.",
["inputs","configurations"],
"All domains and cell sizes, all points including those on cell borders, all observation sets and minimum sample sizes.",
"Tests check corner cases of one grid; correspondence is a bijection over all cells of all grids and the expansion depends on the data.",
["Utilities/stats.py","StatInterface/generateStats.py","StatInterface/GenerateDistributions.py","TrackGenerator/trackSize.py"],
[("cell number / limits","numbering of the grid","Utilities/stats.py"),("expanded cell window","current extent of the sampling window","StatInterface/generateStats.py, GenerateDistributions.py")],
[("numbering","Utilities/stats.py: getCellNum, getCellLonLat, validCellNum, maxCellNum"),("expansion","StatInterface/generateStats.py: extractParameter; GenerateDistributions.py: extractParameter, _expandCell")],
["cell numbers, limits and observations used"])

p("P16","Sampling inverts the distribution it was built from",
"A value drawn for a uniform number u is the value at which the cumulative distribution first reaches u, so sampled values lie within the tabulated range and increase with u, and values with zero probability are never drawn. Two-dimensional origins are drawn from the cell the cumulative distribution assigns to the pair of uniform numbers. Distributions estimated from observations are centred where the observations are and use only those inside the domain; cumulative distributions start at or above zero, never decrease and end at one.",
["inputs"],
"All tabulated distributions (including flat parts, single jumps, zero-probability values) and all uniform numbers above zero and below one.",
"Tests compare one random sample; the inversion is a relation between every table and every uniform number.",
["StatInterface/SamplingOrigin.py","StatInterface/SamplingParameters.py","StatInterface/KDEOrigin.py","StatInterface/KDEParameters.py","Utilities/stats.py"],
[("cumulative table","cdf per value","StatInterface/*; Utilities/stats.py: cdf")],
[("inverse lookup","StatInterface/SamplingParameters.py, SamplingOrigin.py"),("accumulation","Utilities/stats.py: cdf, cdf2d")],
["values returned for a given uniform number"])

p("P17","Tracks written to a file are read back unchanged",
"Reading a track file gives back every track that was written, in the same order, with identical positions, times, pressures, sizes and identifiers (to the stored precision). Writing does not alter the tracks in memory, and several files written in one run do not influence each other.",
["inputs","histories"],
"All track sets (any number, any length, any start time, any identifiers), and all sequences of writes and reads in one process.",
"Tests read one stored file; the round trip has to hold for every track and every sequence of writes.",
["Utilities/track.py","TrackGenerator/TrackGenerator.py"],
[("track record array","in-memory track","Utilities/track.py: Track"),("track file","groups per track","Utilities/track.py: ncSaveTracks, ncReadTrackData")],
[("write","Utilities/track.py: ncSaveTracks"),("read","Utilities/track.py: ncReadTrackData; wind/__init__.py: loadTracks")],
["tracks before writing, after writing and after reading"])

p("P18","Station time series record each station's own wind history",
"For every station inside the domain the extracted time series has one entry per time step of the storm in the domain, in time order, holding that station's nearest grid values at that step; stations outside the domain produce no series. The reported maximum and minimum of each station are the extremes of its series with the time at which they occurred.",
["inputs","histories"],
"All station sets (on grid points, between them, on the border, outside, duplicated), all tracks and all grids.",
"Tests do not exercise extraction; errors are tied to particular station positions and to the history of steps.",
["Utilities/timeseries.py","wind/__init__.py"],
[("per-station series","accumulated records","Utilities/timeseries.py"),("extremes","max/min record per station","Utilities/timeseries.py")],
[("extraction per step","Utilities/timeseries.py: Timeseries.extract"),("summary","Utilities/timeseries.py: Timeseries.shutdown")],
["station csv files written at the end"])

p("P19","Local multipliers follow wind direction at every pixel, for every schedule",
"The local wind speed at each pixel is the regional gust times the multiplier of the direction sector from which the wind blows at that pixel. The multi-threaded implementation gives the same raster as computing each pixel on its own, whatever the number of threads, the segment size and the interleaving of the threads, and it always terminates. Multipliers assembled from tiles of their parts are the product of the parts, missing where one part is missing; local wind time series at stations use the multipliers of the two directions next to the wind direction, the nearer one weighing more.",
["schedules","inputs"],
"All wind directions including sector borders and north, all raster sizes and segment sizes, all thread counts and interleavings.",
"Tests use one small raster and whatever interleaving the scheduler happens to give.",
["ProcessMultipliers/processMultipliers.py","ProcessMultipliers/lowResProcessMultipliers.py","Utilities/tsmultipliers.py","wind/__init__.py"],
[("segment queue","segments still to be processed","ProcessMultipliers/processMultipliers.py: processMultV2"),("output raster","local wind speeds","ProcessMultipliers/processMultipliers.py")],
[("thread pool","ProcessMultipliers/processMultipliers.py: processMultV2, call_process_multiplier_segment"),("sector selection","ProcessMultipliers/processMultipliers.py: processMult")],
["output raster values","termination of the pool"])

p("P20","Interpolating a track keeps its ends, its knots and its order",
"An interpolated track starts and ends at the times and positions of the original, has time steps of the requested length (except the last one), passes through every original position whose time coincides with an output time, and keeps its times strictly increasing. Piecewise-linear interpolation never leaves the range of the two neighbouring records. Missing pressures outside the valid records stay marked as missing, speed and direction of motion are those between the interpolated positions, and tracks with a single record are returned unchanged.",
["inputs","configurations"],
"All tracks (regular or irregular times, two or more records, missing pressures anywhere) and all interpolation steps and types.",
"Tests cover one smooth track; end effects depend on the relation between track length and step.",
["Evaluate/interpolateTracks.py","Utilities/akima.py"],
[("time axis","interpolated times","Evaluate/interpolateTracks.py: interpolate")],
[("interpolation","Evaluate/interpolateTracks.py: interpolate, parseTracks")],
["interpolated tracks"])

p("P21","Gridded data survives writing and reading in every supported format",
"Reading a grid that was written by the model returns the same values at the same coordinates with missing cells still missing, for every grid shape and file format the model offers, and converting a file to another format keeps values and orientation; data that do not fit their axes are refused. Writing one file does not change the contents or attributes of another, and nothing in the caller's data is altered.",
["inputs","histories"],
"All grid sizes, origins, spacings, missing-value patterns, precisions and sequences of writes and reads.",
"Tests use one grid for each format.",
["Utilities/nctools.py","Utilities/grid.py","Utilities/files.py"],
[("grid file","values, coordinates and missing marker","Utilities/nctools.py, Utilities/grid.py")],
[("ascii grid","Utilities/grid.py: grdSave, grdRead"),("netCDF grid","Utilities/nctools.py: ncSaveGrid, ncLoadFile, ncGetData"),("flat tables","Utilities/files.py: flSaveFile, flLoadFile")],
["values and coordinates read back"])

p("P22","Wind profiles and wind fields have the right sign, symmetry and limits",
"For every storm the circulation is clockwise in the southern and anticlockwise in the northern hemisphere, mirrored or turned storms give mirrored or turned wind fields, and the wind speed of single-vortex profiles peaks at the radius of maximum wind with the profile's own maximum, vanishing at the centre, decreasing outwards and changing without jumps on either side of it. The central pressure is attained at the centre and the pressure rises monotonically to the environmental pressure, balancing the wind outside the core for the Holland profile. The strongest wind of a moving storm lies at the configured angle or on the strong side of the motion, and compiled and plain implementations give the same values.",
["inputs","configurations"],
"All latitudes in both hemispheres, all central and environmental pressures, sizes, translation speeds and bearings, and all profile and boundary-layer models.",
"Tests compare each model with one stored field in one hemisphere.",
["wind/windmodels.py","PressureInterface/pressureProfile.py","wind/vmax.py"],
[("profile parameters","lat, pressures, rMax, beta","wind/windmodels.py")],
[("velocity / vorticity profiles","wind/windmodels.py"),("boundary-layer models","wind/windmodels.py"),("pressure profiles","PressureInterface/pressureProfile.py")],
["returned velocity, vorticity and pressure values"])

p("P23","Coast and longitude crossings are counted once, in the right gate and direction",
"Every segment of a track that goes from sea to land is counted once as a landfall in each coastal gate it crosses, one that goes from land to sea once as a departure, and other segments are not counted; likewise each crossing of a reference longitude is counted once, by direction and latitude band, also where a track point lies exactly on the longitude. The rates reported over a set of track files are the mean and percentiles over files of each file's shares, whatever the order in which files are handled and however many processes share them.",
["inputs","schedules"],
"All polygonal tracks and gate polygons in general position, all file orders, process counts and interleavings.",
"Tests have no gate counting at all; lost or double counts need particular geometry (direction of an edge, last gate, point on the line), and the parallel paths are never run.",
["Evaluate/landfallRates.py","Evaluate/longitudeCrossing.py","Utilities/Intersections.py"],
[("landfall / offshore counters","counts per gate","Evaluate/landfallRates.py"),("longitude crossing counters","counts per longitude and latitude band, east- and westward","Evaluate/longitudeCrossing.py")],
[("crossing test","Evaluate/landfallRates.py: processTracks; Utilities/Intersections.py"),("distribution of files","Evaluate/*.py: synthetic")],
["rates after run()","termination of every process"])

p("P24","Evaluation statistics over synthetic tracks do not depend on process count",
"The evaluation statistics collected over a set of synthetic track files (track density, genesis density, pressure distribution) contain one contribution per file, equal to the contribution of that file evaluated alone, independent of the number of processes and of message timing. Every observation inside the evaluation domain is counted in exactly one cell, historical densities are per year of the record, and the minimum pressure of a storm is the lowest pressure it was observed with.",
["schedules","inputs"],
"All numbers of files and processes, all interleavings, all tracks inside, outside and across the border of the domain.",
"Tests never run the evaluation and never in parallel.",
["Evaluate/trackDensity.py","Evaluate/genesisDensity.py","Evaluate/pressureDistribution.py"],
[("per-file result arrays","one slot per synthetic file","Evaluate/*.py: synthetic")],
[("master/worker distribution","Evaluate/*.py: synthetic")],
["arrays after collection","termination of every process"])
p("P25","A single-event run computes the wind of exactly the given storm",
"A run for single events turns every storm of its input into one track with a position every five minutes from its first to its last record and leaves one wind-field file per storm that comes near the domain. Without a configured region the domain surrounds the whole track by the margin; with one it is the configured region, and the wind of a storm depends neither on which domain contains it nor on other storms of the input. Station series, impact calculations and the map that are asked for are of these wind fields, what is not asked for is not done, and a failing step is reported as a failure of the run.",
["inputs","configurations","fault_sequences"],
"All storms (one or many records, short and long steps, both hemispheres, longitudes east or west), tables and track files as input, all domains, margins and resolutions, all combinations of optional outputs, missing input and a failing impact program.",
"Tests never execute the script; its result is spread over files of several stages that have to agree, for every storm and configuration.",
["tcevent.py","wind/__init__.py","Evaluate/interpolateTracks.py","impact/__init__.py","Utilities/loadData.py"],
[("interpolated track file","the storms at five-minute steps","tcevent.py: main"),("domain","limits of the wind field of a storm","wind/__init__.py: WindfieldGenerator.setGridLimit")],
[("stages one after another","tcevent.py: main"),("filter of storms by region","wind/__init__.py: filterTracks")],
["files below the output directory at the end of the run","calls of the impact program","arguments of the map","failure of the run"])
p("P26","Simulated storms follow the statistics of their cell and fade over land",
"After a first step with its initial motion a simulated storm takes, at every step, the statistics of the grid cell it is in, those for land while its centre is over land and those for sea otherwise; without random spread its speed, direction and rate of pressure change over sea are the means of the cell, and a storm far deeper than any observed there fills instead. Over land its deficit fades exponentially with the time since this landfall, starting from the deficit with which it left the sea, faster for a faster storm, and independent of the time step; a later landfall starts anew. A storm ends only by leaving the domain, by reaching the largest number of steps, or when its deficit is used up.",
["inputs","histories","configurations"],
"All grids of statistics, land masks, domains in both hemispheres and east or west of Greenwich, time steps, initial conditions and random sequences, including storms with several landfalls.",
"Tests never generate a track; a slip shows only in particular histories (a second landfall, a change of cell, weakening before landfall), hidden by the random spread of ordinary runs.",
["TrackGenerator/TrackGenerator.py","TrackGenerator/trackLandfall.py","Utilities/grid.py","Utilities/stats.py"],
[("state of the storm","position, motion, pressure, deficit at landfall, time over land","TrackGenerator/TrackGenerator.py: TrackGenerator._singleTrack")],
[("one step of each quantity","TrackGenerator/TrackGenerator.py: _stepSpeed, _stepBearing, _stepPressureChange"),("land mask","TrackGenerator/trackLandfall.py: LandfallDecay.onLand; Utilities/grid.py: SampleGrid")],
["generated tracks, in memory and in track files","land or sea at a position"])
p("P27","Tracks exported to shape files keep every position and every value",
"Exporting tracks as points gives one point for every record at its position, exporting them as segments one line for every record to the next one, and exporting whole tracks one line for every storm through all its positions in order, in parts where it crosses Greenwich so that no line runs around the globe. Every feature carries the values of its record, with the category that belongs to its central pressure; a whole observed track carries its number, start, age, lowest pressure and strongest wind. Neither the order of the exports nor other storms of the set matter, and storms with a single record are kept.",
["inputs","histories"],
"All sets of simulated and observed tracks (single records, several crossings of Greenwich in both directions), all forms of export and all their sequences.",
"No test exports a track; lost positions need a storm that crosses the meridian, other slips need single records or particular sequences.",
["Utilities/tracks2shp.py","Utilities/track.py"],
[("features of a file","shape and attributes of each feature","Utilities/tracks2shp.py")],
[("points","Utilities/tracks2shp.py: tracks2point"),("lines","Utilities/tracks2shp.py: tracks2line"),("categories","Utilities/tracks2shp.py: add_category")],
["shape files read with an independent reader"])
p("P28","The recorded evolution of a wind field has every time step in its place",
"When the evolution of wind fields is recorded, the record of a storm has exactly one layer for every position inside the region, at the time of that position, with gust, wind components and pressure of that step at their cells and nothing anywhere else; the gust is the size of the wind. The strongest gust and lowest pressure over the layers are the storm's wind field. A time-step callback is still given every step, and without the option nothing is recorded.",
["inputs","configurations"],
"All tracks (any steps, also minutes apart, inside and outside the region), resolutions, margins, wind models, with and without callback.",
"The only example of the recorder uses hand-made windows; wrong places or times need particular resolutions, steps and storm positions.",
["wind/writer.py","wind/__init__.py"],
[("layers of a record","time, gust, wind, pressure of each step","wind/writer.py")],
[("window to cells","wind/writer.py: WriteFoliationCallback.__call__"),("hand over of steps","wind/__init__.py: WindfieldAroundTrack.regionalExtremes"),("option","wind/__init__.py: WindfieldGenerator.calculateExtremesFromTrack")],
["evolution file of a storm","wind field of a storm","time-step callback"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
