#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, pathlib
S = "src/wam2layers/"
P = []
def prop(id, title, statement, over, q, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith("scripts/") else S+f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w if w.startswith("scripts/") else S+w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

ST = [("s_track_upper/lower", "tagged moisture in each atmospheric layer of each cell (kg m-2)", "output dataset, *_restart variables"),
      ("accumulators", "tagged, tracked, lost and gained moisture since the previous output file", "output dataset")]

prop("C01", "Every kilogram of tagged moisture is accounted for",
 "In every tracking run, forward or backward, and over every output interval: the area-weighted change of tagged moisture in the atmosphere equals what was tagged minus what was tracked back to the surface minus the reported losses plus the reported gains, summed over the whole domain. This holds to rounding error of the stored single-precision fields.",
 ["inputs","configurations","histories"], "every forcing (any winds, storages, rain, evaporation), every grid, every tagging region, every sequence of time steps and output intervals",
 "The two regression tests compare one backward and one forward run with a stored file; neither evaluates a balance, and both use forcing that hardly triggers clipping.",
 ["tracking/backtrack.py","tracking/forwardtrack.py","tracking/core.py"],
 [("antisymmetric face exchange","tracking/core.py horizontal_advection"),("bookkeeping of losses and gains","tracking/backtrack.py backtrack"),("bookkeeping of losses and gains","tracking/forwardtrack.py forwardtrack")],
 ["output files of `wam2layers track`"], ST)

prop("C02", "Tagged moisture stays between zero and the moisture that is there",
 "In every output file of every tracking run the tagged moisture of a layer is finite, not negative and not more than the total moisture of that layer in the forcing at that time; all accumulated fields are finite and not negative. What is tracked back to the surface in an interval never exceeds the corresponding surface flux of the forcing in that interval.",
 ["inputs","configurations","histories"], "every forcing with positive storages (also cells without any flux), every time step and number of steps",
 "The regression tests compare two runs with smooth reanalysis data; overfull, emptied and windless cells do not occur or are not asserted on.",
 ["tracking/backtrack.py","tracking/forwardtrack.py","tracking/core.py"],
 [("clip to the available moisture","tracking/backtrack.py backtrack"),("NaN removal","tracking/core.py stabilize_fluxes")],
 ["output files of `wam2layers track`"], ST)

prop("C03", "Tagged moisture follows the wind, upwind, at the tagged fraction",
 "In each time step the moisture that crosses a cell face carries the tagged fraction (tagged over total, at most one) of the cell it comes from, the face flux being the mean of the two adjacent cell fluxes; forward tracking moves it with the wind and backward tracking against it, in both layers and for every orientation of the flow. Rain and evaporation tag or remove moisture per layer as documented: forward tags evaporation into the lower layer and removes rain from both layers in proportion to their moisture; backward tags rain into both layers in proportion and removes evaporation from the lower layer.",
 ["inputs","configurations"], "every wind field (all sign combinations, both layers), storage, tagging region and step",
 "The advection helper has no reliable numerical test and the regression files average over many cells; a swapped neighbour or layer at a rare flow direction goes unseen.",
 ["tracking/core.py","tracking/backtrack.py","tracking/forwardtrack.py","utils/grid.py"],
 [("donor cell scheme","tracking/core.py horizontal_advection"),("staggering","utils/grid.py stagger_x, stagger_y"),("source and sink terms","tracking/backtrack.py backtrack; tracking/forwardtrack.py forwardtrack")],
 ["output files with output frequency equal to the time step"], ST)

prop("C04", "Horizontal fluxes are capped so a cell is not drained in a step",
 "Before moisture is moved, each cell's zonal and meridional flux is reduced, keeping its sign, so that their sum over the step is at most half of the moisture in that layer of the cell, shared in proportion to the two components; fluxes below the cap are unchanged and a cell without any flux stays without flux. Backward tracking uses the storage at the later, forward tracking at the earlier end of the step.",
 ["inputs","configurations"], "every flux field and storage, from calm to far beyond the cap; every time step",
 "The regression cases run at a time step for which the cap seldom acts; the cap itself is not tested.",
 ["tracking/core.py"], [("CFL limiter","tracking/core.py stabilize_fluxes")], ["output files with output frequency equal to the time step"], ST)

prop("C05", "Vertical exchange closes the two-layer balance and is limited",
 "The vertical flux of a cell is the one that distributes the residual of the two layer balances (storage change, horizontal divergence, rain, evaporation) in proportion to the layers' moisture at the end of the step; its amount per step is limited to 1/(kvf+1) of the smaller mean layer storage. Tagged moisture moves with the net flux from the upwind layer, and in addition mixes at kvf times the flux magnitude down the gradient of the tagged fraction; backward tracking reverses the net flux only.",
 ["inputs","configurations"], "every storage tendency, divergence and kvf, both flux directions, limited and not limited",
 "The doctest of the closure is never run (and does not match the signature); the regression runs use one kvf.",
 ["tracking/core.py"], [("closure and limit","tracking/core.py calculate_fz"),("exchange terms","tracking/core.py vertical_advection, vertical_dispersion")], ["output files with output frequency equal to the time step"], ST)

prop("C06", "Domain edges absorb; a periodic seam is invisible",
 "Without periodic boundaries all moisture reaching the outermost cells leaves the domain and is reported as loss there, so tagged moisture on the outermost rows and columns is zero in each output. With periodic boundaries only the northern and southern row absorb, and results do not depend on where the longitude seam lies: rotating the input along longitude rotates the output.",
 ["inputs","configurations"], "every forcing on regional and ring-shaped grids, every rotation of the ring",
 "No test runs with periodic_boundary true beyond two helper checks.",
 ["tracking/core.py","utils/grid.py","tracking/backtrack.py","tracking/forwardtrack.py"],
 [("boundary mask","utils/grid.py get_boundary"),("wrap-around padding","tracking/core.py horizontal_advection, divergence"),("wrap-around faces","utils/grid.py stagger_x")],
 ["output files"], ST)

prop("C07", "Moisture is tagged exactly in the region and in the tagging period",
 "What is tagged in a step is the surface flux (rain in backward, evaporation in forward tracking) at the middle of that step times the region weight of the cell, and it is tagged only if the step's reference time (its end in backward, its start in forward tracking) lies within the tagging period, both ends included. A box region includes cell centres on its edges and may cross the antimeridian; a netCDF mask weighs by its (fractional) value and, with a time dimension, by the field nearest in time.",
 ["inputs","configurations","histories"], "every box (also west > east), every mask, fractional weights, static or time-varying; every tagging period relative to the run",
 "Tests use one netCDF mask each for the whole run; dynamic masks are marked TODO: test in the documentation.",
 ["tracking/shared.py","tracking/io.py","tracking/backtrack.py","tracking/forwardtrack.py"],
 [("box mask","tracking/shared.py initialize_tagging_region"),("mask file","tracking/io.py load_tagging_region"),("period test","tracking/backtrack.py run_experiment; tracking/forwardtrack.py run_experiment")],
 ["tagged_precip / tagged_evap of the output files"], ST)

prop("C08", "A run covers its period once and writes each output at its time",
 "A run makes exactly the whole time steps that fit between its start and end date, starting from the start (forward) or the end (backward). It writes one output file each time the model time lies on the output frequency and one after the last step, named after and labelled with that time, with time bounds spanning exactly the interval since the previous output; this holds in every supported calendar, across month ends and leap days, and nothing else is written.",
 ["configurations","histories"], "all start/end dates, time steps, output frequencies, calendars and both directions",
 "Tests look at the last file of two runs in the standard calendar.",
 ["tracking/backtrack.py","tracking/forwardtrack.py","tracking/shared.py","tracking/io.py","utils/calendar.py"],
 [("time loop","tracking/backtrack.py run_experiment; tracking/forwardtrack.py run_experiment"),("rounding","utils/calendar.py round_cftime"),("file name and bounds","tracking/io.py output_path, add_time_bounds")],
 ["names, time and time_bnds of the output files"],
 [("clock","model time","t0/th/t1"),("outputs","files written so far","output folder")])

prop("C09", "Forcing between input times is interpolated linearly",
 "At any model time the forcing used equals the input record of that time if there is one, and otherwise the linear interpolation in time between the two surrounding input records, also across the boundary of daily files; surface and horizontal fluxes are evaluated at the middle of a step and storages at its ends.",
 ["inputs","configurations"], "every input frequency, time step and time within the input interval, including the last interval before midnight",
 "Tests never look at interpolated forcing; the regression runs average it away.",
 ["tracking/io.py","tracking/shared.py","utils/calendar.py"],
 [("interpolation","tracking/io.py load_data"),("half time","tracking/shared.py initialize_time")],
 ["output files","wam2layers.tracking.io.load_data"],
 [("records","input fields at the input times","preprocessed files")])

prop("C10", "Output frequency only groups results, it does not change them",
 "Two runs that differ only in output frequency go through the same states: where both write, their tagged-moisture storages agree, and accumulated fields of the coarser output equal the sum of the finer outputs in its interval, each time step being counted in exactly one file.",
 ["configurations","histories"], "every pair of output frequencies and every time step",
 "Tests run one output frequency.",
 ["tracking/backtrack.py","tracking/forwardtrack.py","tracking/io.py"],
 [("flush of accumulators after writing","tracking/backtrack.py run_experiment; tracking/forwardtrack.py run_experiment")],
 ["output files"], ST)

prop("C11", "A restarted run continues as if it had never stopped",
 "If a run is stopped after any of its outputs and a new run with restart enabled begins at that output's time, the outputs it writes equal those of the uninterrupted run (to single-precision rounding of the stored state), however often this is repeated and in both directions. A restart whose output file is missing fails instead of starting from nothing.",
 ["crash_points","histories","configurations"], "every output as stopping point, any number of successive restarts, both directions",
 "No test sets restart: true.",
 ["tracking/backtrack.py","tracking/forwardtrack.py","tracking/io.py"],
 [("reload of the last state","tracking/backtrack.py initialize; tracking/forwardtrack.py initialize")],
 ["output files"], ST)

prop("C12", "A tracking domain selects exactly the cells inside it",
 "With a tracking domain a run uses exactly the input cells whose centres lie in the box, edges included, each with its own data, in an order that is contiguous in longitude even when the box crosses the antimeridian; the tagging mask is cut the same way. Without a domain all cells are used.",
 ["inputs","configurations"], "every box (also west > east) on regional and global longitude axes",
 "Two tests check one plain and one rolled box on one global grid.",
 ["tracking/io.py"], [("selection and roll","tracking/io.py select_subdomain, load_tagging_region")],
 ["coordinates and fields of output files"], [("cells","longitudes, latitudes and values in the domain","forcing and output datasets")])

prop("C13", "Cell areas and face widths follow from position and spacing only",
 "The area of a cell and the lengths of its faces are those of the latitude-longitude box around its centre on the sphere, for any spacing in latitude and longitude (also unequal), either hemisphere, poles included (capped at 90 degrees), and do not depend on the longitude, the seam, or which cells are first in the file.",
 ["inputs","configurations"], "every regular grid: spacing, position, orientation across the antimeridian",
 "No test evaluates the geometry; all test grids have equal spacing.",
 ["utils/grid.py"], [("grid geometry","utils/grid.py get_grid_info")], ["transport in output files on different grids"],
 [("area, width","geometry of each row","grid info")])

prop("C14", "Runs are reproducible and independent of each other",
 "A tracking run is a function of its configuration and input files: repeating it, in the same or another process, before or after any other runs, gives bit-identical fields. A run never modifies its input files or configuration file, and the data handed to the model at one time do not depend on which times were read before.",
 ["histories","inputs"], "every sequence of runs and of reads in one process, input files unchanged in between",
 "Every test runs in its own configuration once; the shared cache of input slices is never exercised across runs.",
 ["tracking/io.py","tracking/core.py","tracking/backtrack.py","tracking/forwardtrack.py"],
 [("slice cache with defensive copies","tracking/io.py _load_slice_with_cache, load_slice")],
 ["output files","load_data results","hashes of input files"], [("cache","recently read slices","tracking/io.py")])

prop("C15", "Preprocessing splits each column in two without losing moisture",
 "Preprocessed storages and horizontal fluxes are the vertical integrals of humidity and humidity times wind over the part of each column above and below the layer boundary; the two layers add up to the column integral (scaled to the total column water if that is given). Model levels belong to the lower layer if their number exceeds the boundary level; on pressure levels the boundary is factor times surface pressure plus offset, values at the surface, boundary and top are added, and nothing below the surface counts.",
 ["inputs","configurations"], "every profile of humidity and wind, surface pressure and level subset, both level types, any boundary settings",
 "Two regression files with one level set each; the layer split, surface masking and correction are not checked separately.",
 ["preprocessing/shared.py","preprocessing/pressure_levels.py","preprocessing/era5.py","preprocessing/utils.py"],
 [("integration","preprocessing/shared.py preprocess"),("level thickness","preprocessing/era5.py get_dp_modellevels, get_edges"),("extension to surface, boundary and top","preprocessing/pressure_levels.py")],
 ["preprocessed files"], [("column","q, u, v, p per level","raw input")])

prop("C16", "Surface fluxes come out positive, in kg m-2 s-1, dew counted as rain",
 "For every source (ERA5, ARCO-ERA5, CMIP) preprocessed rain and evaporation are non-negative fluxes in kg m-2 s-1, rain minus evaporation equals the net surface moisture flux of the source with negative rain ignored, and condensation at the surface (evaporation with the wrong sign) is added to rain and gives zero evaporation. Accumulated metres are divided by the length of the input interval; latent heat is converted with 2.45e6 J/kg.",
 ["inputs","configurations"], "every sign and size of rain and evaporation, every input frequency, three sources",
 "Tests use ERA5 hourly data only; ARCO and CMIP have no test.",
 ["preprocessing/era5.py","preprocessing/arco.py","preprocessing/cmip.py","preprocessing/utils.py"],
 [("sign handling","preprocessing/era5.py preprocess_precip_and_evap"),("accumulation to flux","preprocessing/utils.py accumulation_to_flux")],
 ["precip and evap in preprocessed files"], [("surface fluxes","rain and evaporation of the source","raw input")])

prop("C17", "Preprocessed files hold each requested time once, on a standard grid",
 "Preprocessing a period writes one file per calendar day that has requested times, holding exactly the times from start to end (both included) at the input frequency on that day, in order, each with the data of that time; latitudes decrease, longitudes increase and lie in [-180, 180], and every value stays at its own geographic position. Running it again gives the same files.",
 ["inputs","configurations","histories"], "every period, input frequency and calendar; every longitude convention and latitude order",
 "Tests preprocess one period from midnight on one regional grid.",
 ["preprocessing/shared.py","preprocessing/xarray_append.py"],
 [("grouping by day","preprocessing/shared.py group_timestamps_by_day"),("append along time","preprocessing/xarray_append.py append_to_netcdf"),("longitude shift","preprocessing/shared.py shift_longitude")],
 ["preprocessed files"], [("files","day -> times and fields","preprocessed data folder")])

prop("C18", "Unusable input data is refused before anything is written",
 "If a required variable, dimension or level is missing, a variable has the wrong dimensions, or any value is NaN, preprocessing of that time fails with an error naming the problem and writes nothing for it; complete data is never refused.",
 ["inputs","fault_sequences"], "every single defect and combination of defects over all required variables, both level types",
 "There is no test of the validation.",
 ["preprocessing/input_validation.py","preprocessing/shared.py"],
 [("validation","preprocessing/input_validation.py validate_input")],
 ["preprocessing outcome and files"], [("defects","set of defects present in the input","raw input")])

prop("C19", "Only consistent configurations are accepted",
 "A configuration is accepted exactly if all required settings are present with valid values: known calendar, direction and level type; start dates not after end dates for tracking, tagging and preprocessing; a region that is an existing file or a box within -180..180 and -80..80 with south below north (west may exceed east); a positive time step. Deprecated frequency spellings are translated to their current spelling and others left alone.",
 ["configurations"], "every combination of valid and invalid settings",
 "Tests cover a handful of single invalid settings.",
 ["config.py","utils/calendar.py"],
 [("validators","config.py Config, validate_region, check_date_order, convert_dates"),("frequency aliases","utils/calendar.py fix_deprecated_frequency")],
 ["outcome of loading a configuration"], [("settings","configuration record","config.yaml")])

prop("C20", "Every output says with which configuration it was made",
 "A configuration written to a file or string and loaded again is the same configuration, for every calendar, region kind and date. Every tracking output carries in its attributes a configuration that loads to the one it was run with, and names the tracking direction.",
 ["configurations"], "every valid configuration",
 "One test exports two configurations and compares; attributes are only checked for presence.",
 ["config.py","tracking/io.py"], [("export","config.py to_string, to_file"),("attributes","tracking/io.py get_main_attrs")],
 ["exported configuration","attributes of output files"], [("config","all settings","Config")])

prop("C21", "The command line does what the configuration asks, or fails",
 "`wam2layers track` runs the direction given in the configuration and `preprocess` the named source; each stores an unchanged copy of the configuration file and a log next to its results, and leaves the configuration file itself untouched. When the work cannot be completed (invalid configuration, missing input, removed command) the exit status is non-zero; when it completes it is zero.",
 ["configurations","fault_sequences"], "all commands, directions, places of the configuration file, kinds of failure",
 "Tests invoke three commands successfully and check that log and copy exist.",
 ["cli.py"], [("dispatch","cli.py track, era5, cmip, arco_era5"),("copy and log","cli.py _copy_config_yaml, setup_logging")],
 ["exit status","output folder"], [("folder","files in the output folder","file system")])

prop("C22", "Downloads never overwrite and never pass off a failure as data",
 "Downloading an example case creates a new directory and stores in it every file of the catalogue and file list with exactly the served content; if the directory exists nothing in it is touched and nothing is fetched. If any request fails the download fails with an error and no file holds an error page.",
 ["fault_sequences","inputs"], "every position of a failing request, every catalogue, existing or new directory, every form of DOI",
 "The only online test cannot run offline; DOI parsing is tested on a few strings.",
 ["download.py"], [("directory guard","download.py create_target_directory"),("status check","download.py download, get_4tu_catalog, get_4tu_files"),("DOI parsing","download.py parse_doi, get_4tu_id")],
 ["target directory","requests made"], [("directory","files stored","file system")])

prop("C23", "Reads are retried only for the known spurious error, and not forever",
 "Opening a preprocessed file that fails with the known spurious index error is repeated up to eight times with pauses that start at half a second and double (each stretched at random by less than twofold), succeeds with the right data as soon as one attempt succeeds, and raises the error if all nine attempts fail. Any other error is raised at once without a retry.",
 ["fault_sequences"], "every sequence of failures and successes of the attempts",
 "No test injects a failing read.",
 ["tracking/io.py"], [("retry loop","tracking/io.py read_or_retry")],
 ["attempts made, pauses requested and outcome of reading"], [("attempts","number of attempts so far","read_or_retry")])

prop("C24", "The user is warned when fluxes are cut, but not over and over",
 "A run warns, naming the cut share of the grid, the average and the strongest factor, when fluxes of a layer are cut by at least a tenth more strongly than at the previous warning for that reason (at first: than without any cut), or when more than 5% of the grid is cut and at least a tenth more of it than at the previous warning for that reason; otherwise it stays silent. The field of correction factors of the latest warning of a time is stored.",
 ["inputs","histories"], "every history of cut areas and factors over the steps and layers",
 "No test looks at warnings.",
 ["utils/profiling.py","tracking/core.py"], [("warning policy","utils/profiling.py track_stability_correction")],
 ["log file","debug folder"], [("thresholds","strongest factor and largest area warned about","ProgressTracker")])

prop("C25", "The progress report adds up and matches the output files",
 "At each output the log reports tracked, in-atmosphere, boundary, lost and gained moisture as percentages of all moisture tagged so far in the run, computed from the area-weighted output fields, with boundary transport and interior losses separated; the reported closure is 100% up to rounding whenever moisture was tagged.",
 ["inputs","histories","configurations"], "every history of outputs in both directions, with and without periodic boundaries",
 "Tests only check that a log file exists.",
 ["utils/profiling.py"], [("running totals","utils/profiling.py store_intermediate_states, print_progress")],
 ["log file"], [("totals","moisture tagged, tracked, lost, gained so far","ProgressTracker")])

prop("C26", "A shapefile region weighs each cell by its overlap",
 "With a shapefile whose polygon overlaps the grid as tagging region, the weight of each grid cell is the fraction of its latitude-longitude box covered by the polygon, on the grid of the forcing and in its orientation; it is one inside, zero outside, and the weighted sum of box areas equals the area of the polygon within the grid.",
 ["inputs","configurations"], "every polygon and every regular grid orientation",
 "No test uses the shapefile mask end to end.",
 ["utils/shapefile_mask.py","tracking/io.py"], [("overlap weights","utils/shapefile_mask.py create_mask")],
 ["debug/tagging_region.nc, tagged fields"], [("weights","fraction of each cell","mask")])

prop("C27", "Parallel preprocessing gives the same files as sequential",
 "With parallel preprocessing, for every number of worker processes and every order in which days are finished, the preprocessed files are the same as without it, and a failing day makes the whole command fail.",
 ["schedules","configurations","fault_sequences"], "every number of workers, order of days and failing day",
 "All tests preprocess sequentially.",
 ["preprocessing/shared.py"], [("one day per task, one file per day","preprocessing/shared.py parallel_preprocess")],
 ["preprocessed files","exit status"], [("days","state of each day's file","preprocessed data folder")])

prop("C28", "A failing run stops; what it had written stays valid",
 "If forcing for some step is missing or incomplete, or writing fails, the run fails with an error at that step instead of continuing on other data; every output completed before that equals the output of a run without the fault, and a later restart from the last one reaches the result of the uninterrupted run.",
 ["fault_sequences","crash_points"], "every missing day, record or variable, and every point of the run where a fault can hit",
 "No test injects a fault into tracking.",
 ["tracking/io.py","tracking/backtrack.py","tracking/forwardtrack.py"], [("errors propagate","tracking/io.py load_slice, read_or_retry, write_output")],
 ["exit status","output files"], [("progress","outputs completed","output folder")])

prop("C29", "Figures show exactly what the run tagged and tracked",
 "`visualize output` shows, for every cell, the tracked moisture summed over all outputs that the configured run writes, each exactly once and nothing else that lies in the folder; `visualize input` shows the rain (backward) or evaporation (forward) times the weight of the tagging region, accumulated over the input intervals of all records within the tagging period; `both` shows the two. A figure is stored under its name in the figures folder; if an output or a day of forcing it needs is missing, the command fails and stores none.",
 ["inputs","configurations","histories"], "every schedule, direction, calendar, output and input frequency, tagging period and region, and everything else the output folder may hold (stationary regions; domains not across the antimeridian)",
 "The image comparisons fail in most environments and use one schedule; leaving out an output hardly changes the picture.",
 ["analysis/visualization.py"], [("outputs of the run","analysis/visualization.py _output_dates, _plot_output"),("records of the tagging period","analysis/visualization.py _plot_input")],
 ["figures of `wam2layers visualize`"], [("outputs","files of the run in the output folder","output folder")])

prop("C30", "The region designer marks exactly the cells that were asked for",
 "A region file made around a point or a track is one in exactly the cells whose centres lie within the radius of the point in latitude and (the shorter way around the globe) longitude, for each time of the track; one made of named regions or shapes is one in every cell of at least one of the selected regions, whichever of the others the grid holds; it is zero elsewhere. It has the grid and orientation of the reference file, works as tagging region of a run, and a selection that is no list or an unknown collection is refused without a file.",
 ["inputs","configurations"], "every grid (extent, orientation, longitude convention), point, track, radius, collection and selection",
 "No test imports the designer.",
 ["utils/tagging_region.py"], [("square","utils/tagging_region.py mask_around_point, mask_around_track"),("union of regions","utils/tagging_region.py mask_with_regionmask, mask_with_shapefile")],
 ["region files", "tagged fields of runs with them"])

prop("C31", "Forcing from an OPeNDAP server gives the same run as local files",
 "With a URL as folder of the preprocessed data, every run (any direction, region, domain, restart) writes bit for bit what it writes from the same files on disk. If requests fail, the run either still completes with the same results or ends with an error, and what it had written until then is the same.",
 ["inputs","configurations","fault_sequences"], "every run, path of the URL, and every failing request or day",
 "No test uses a URL.",
 ["tracking/io.py","config.py"], [("detached slices","tracking/io.py read_or_retry, fully_load_and_detach"),("paths","tracking/io.py input_path; config.py preprocessed_data_folder")],
 ["output files of `wam2layers track`"], [("requests","what the server was asked for","server")])

prop("C32", "What is tracked from a region is the sum over its parts",
 "If the tagging of one run is the sum of the tagging of several others (parts of the region, shares of its weights, boxes that divide a box, moving regions, consecutive tagging periods), every output field of the run (state in both layers, tagged, tracked, losses) is the sum of theirs, for as long as no layer is overfull or overdrawn with tagged moisture.",
 ["inputs","configurations","histories"], "every division of every region or tagging period, direction, domain and forcing",
 "Every test looks at one region and one tagging period.",
 ["tracking/backtrack.py","tracking/forwardtrack.py","tracking/io.py"], [("linear in what is tagged","tracking/backtrack.py backtrack; tracking/forwardtrack.py forwardtrack")],
 ["output files of `wam2layers track`"], [("tagged moisture","tagged storage in both layers","states")])

prop("C33", "The same world seen differently gives the same result",
 "Exchanging east and west, exchanging north and south (about the equator), moving the world in longitude, moving it to other dates or another calendar, or counting its water in other amounts (forcing times a factor) exchanges, moves or scales every output field accordingly and changes nothing else.",
 ["inputs","configurations"], "every forcing, region, domain, direction and schedule, with any of these views",
 "Tests have one grid, one calendar and one set of data, on which an error that prefers a direction stays hidden in the reference.",
 ["tracking/core.py","tracking/backtrack.py","tracking/forwardtrack.py","tracking/io.py"], [("exchange of moisture between cells","tracking/core.py horizontal_advection, calculate_fz; utils/grid.py"),("dates","config.py, utils/calendar.py")],
 ["output files of `wam2layers track`"], [("view","the way the world is put into files","forcing files")])

prop("C34", "The ERA5 download scripts fetch everything once, to where it is found",
 "`scripts/download_era5_pl.py` and `_ml.py` request each surface and level variable of each day in the list exactly once: all hours, the configured area, grid and levels. They store each as <target_dir>/<YYYY>/<MM>/ERA5_<YYYY-MM-DD>[_pl|_ml]_<variable>.nc, where preprocessing finds it. Files that are there are neither requested nor changed (unless skip_exist is off). A failing request keeps nothing else from being fetched, and running again fetches exactly what is missing.",
 ["inputs","configurations","histories","fault_sequences","crash_points"], "every list of days, target folder, set of files already there, set of failing requests, and point at which a run is stopped",
 "No test runs the scripts; they need an account and days of waiting.",
 ["scripts/download_era5_pl.py","scripts/download_era5_ml.py"], [("one file per day and variable","scripts/download_era5_pl.py, scripts/download_era5_ml.py")],
 ["files in the target folder","requests to the data store"], [("files there","which of the days' files exist","target folder")])

prop("C35", "Inside the domain limits act only where there is no other way",
 "Within a time step, tagged moisture is written off (losses) in a cell away from the edges only if both layers end up full of tagged moisture: what does not fit in one layer is kept in the other as long as that has room. It is made up (gains) only in a cell of which a layer would otherwise hold less than nothing, and ends up empty. Never both in one cell.",
 ["inputs","configurations"], "every forcing (layers that fill, empty and exchange their moisture), time step and direction",
 "Tests compare totals of losses and gains with a reference; that moisture is lost while there is room goes unnoticed.",
 ["tracking/backtrack.py","tracking/forwardtrack.py"], [("redistribution between layers","tracking/backtrack.py backtrack; tracking/forwardtrack.py forwardtrack")],
 ["output files with output frequency equal to the time step"], ST)

prop("C36", "Influence spreads one cell per time step and never against the run's time",
 "If two runs of the same settings get forcing that differs in some cells of some time steps, or tagging regions that differ in some cells, their results agree in every cell the difference cannot have reached: before the run uses the differing data (forwards from earlier records, backwards from later ones) everything agrees, and afterwards the difference moves by at most one cell (north, south, east or west; across the antimeridian in global domains) per time step. Fluxes, storages and tagged moisture of far cells, or of times the run has not come to, do not matter.",
 ["inputs","configurations","schedules"], "every forcing, region, pair of differing cells and records, direction and time step",
 "Tests compare with one reference; nothing shows which inputs a value depends on.",
 ["tracking/backtrack.py","tracking/forwardtrack.py","tracking/core.py","utils/load.py"], [("advection to the four neighbours","tracking/backtrack.py backtrack; tracking/forwardtrack.py forwardtrack"),("data at the time asked for","utils/load.py load_data")],
 ["output files"], ST)

prop("C37", "Every file says what it holds, where it lies and where it comes from",
 "Every preprocessed file and every tracking output names its quantities: each field has its dimensions, a name that says what it is (which layer, which direction) and the units it is given in; latitude, longitude and their bounds have units too. The bounds of a cell lie half a grid spacing on either side of its centre, for any spacing and any domain, also across the antimeridian and in narrow domains. The calendar is the configured one. ERA5 and ARCO data and all outputs give title, conventions and the program's version in their history, and outputs keep the source and history of the data they were made from.",
 ["inputs","configurations","histories"], "every source, calendar, grid, domain, direction, start beside the times of the data, and restart",
 "Tests look at the values of the fields; attributes and bounds are hardly looked at.",
 ["tracking/io.py","reference/variables.py","preprocessing/utils.py","preprocessing/shared.py"], [("attributes and bounds","tracking/io.py write_output; preprocessing/utils.py add_bounds")],
 ["preprocessed files","output files"], [("variables","their dimensions, names and units","preprocessed and output files"),("provenance","title, history, source","file attributes")])

prop("C38", "Raw data and one configuration determine the results",
 "Preprocessing raw data (ERA5 on pressure or model levels, CMIP, ARCO) and tracking with the same configuration file gives the outputs that follow from the raw data: layers integrated from the raw columns, fluxes from the raw accumulations or rates, interpolated to the time steps, on the chosen domain, tagged in the region and moved through the atmosphere, whatever conventions the raw data use for longitudes, order of latitudes, levels, names, files and calendars.",
 ["inputs","configurations","schedules"], "every raw data set in the supported conventions, configuration and direction",
 "Tests run preprocessing and tracking separately, on stored intermediate files of one case.",
 ["preprocessing/shared.py","tracking/backtrack.py","tracking/forwardtrack.py","tracking/io.py"], [("what preprocessing writes, tracking reads","preprocessing/shared.py preprocess; tracking/io.py load_data")],
 ["raw files","output files"], ST)

prop("C39", "The check of forcing data reports every problem, and only problems",
 "check_input warns, naming the variable, about every forcing variable with no or unexpected units, with values below or above its range, with negative values where there can be none, with another number of dimensions than three or without one of the coordinates, and, naming the coordinate, about coordinates that are not evenly spaced or run the wrong way. It says nothing else, in particular nothing about files that preprocessing wrote with usual values, whatever their grid spacing, calendar and number of records, and it never fails on data that only has such problems.",
 ["inputs"], "every forcing dataset with any combination of the problems named, on any grid, calendar and number of records",
 "No test imports the module.",
 ["analysis/checks.py"], [("expectations","analysis/checks.py VARIABLES, check_input"),("single checks","analysis/checks.py check_units, check_range, check_coords, check_uniform")],
 ["warnings of check_input"], [])

prop("C40", "Data in another calendar than configured are reported and refused",
 "Preprocessing data whose calendar is not the configured one ends with an error and writes no file; for CMIP data a warning names both calendars before. Different names of one calendar (gregorian and standard, 365_day and noleap, 366_day and all_leap) are no mismatch, and data in the configured calendar are processed without any complaint about calendars, whatever the years. ARCO-ERA5 is only accepted with proleptic_gregorian configured. Between the standard and the proleptic Gregorian calendar, the same since 1582, either outcome is allowed.",
 ["inputs","configurations"], "every pair of calendars of the data and the configuration, source of the data and period",
 "No test preprocesses data in a calendar that is not the configured one.",
 ["utils/calendar.py","preprocessing/shared.py","preprocessing/arco.py"], [("mismatch","utils/calendar.py validate_calendar_type"),("calendar of ARCO","preprocessing/arco.py"),("time axis in the configured calendar","preprocessing/shared.py get_input_dates")],
 ["warnings","exit status","preprocessed files"], [])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
