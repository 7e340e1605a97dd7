#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=hook)))
CX = "src/cxx/cold.c"; MI = "src/cxx/misc.c"; UT = "src/cxx/utilities.c"; SC = "src/cxx/s_ccd.c"
PYX = "src/python/pycold/_colds_cython.pyx"; CO = "src/python/pycold/colds.py"
PU = "src/python/pycold/utils.py"; OB = "src/python/pycold/ob_analyst.py"; PC = "src/python/pycold/pyclassifier.py"
TP = "src/python/pycold/imagetool/tile_processing.py"; PV = "src/python/pycold/_param_validation.py"
EX = "src/python/pycold/imagetool/export_change_map.py"

prop("C01", "COLD segments are ordered, disjoint and account for their breaks",
 "For every valid pixel time series, the records COLD returns are in time order: every record starts no later than it ends, starts on or after the previous record's break, and all its dates are dates of clear, in-range observations of the input. Every record but the last carries a confirmed break (probability 100, break date after its end and no later than the next record's start); only the last may be unconfirmed, and its break date is 0 exactly when its change probability is 0. A record's observation count lies between 1 and the number of usable observations in its own span.",
 ["inputs", "configurations"], "all time series (any length, gaps, clouds, outliers, breaks) and all admissible thresholds, consecutive counts and gap settings",
 "The tests run five fixed pixels and check a few fields; the ordering must hold for every sequence of cloud, outlier and break positions.",
 [CX], [("segment state machine", "cold.c stand_procedure"), ("record emission", "cold.c rec_cg writes")],
 [("rec_cg", "emitted segments", "cold.c stand_procedure")], ["pycold.cold_detect return value"])
prop("C02", "COLD segmentation equals the initialise/monitor/confirm machine",
 "For every pixel time series, the number of segments COLD returns and each segment's start, end and break dates, observation count and category are those of the documented machine: initialise a stable model on at least 12 observations over at least a year without a longer gap than allowed, extend it backwards, monitor forwards, confirm a break when all consecutive observations exceed the threshold with coherent direction, drop a single isolated extreme observation, and restart at the break.",
 ["inputs", "configurations"], "all observation sequences and all admissible thresholds, consecutive counts and gap settings",
 "Whether a segment boundary is right depends on the whole history of fits, removals and restarts; the tests sample five pixels with default parameters.",
 [CX, MI], [("initialisation test", "cold.c stand_procedure"), ("backward extension", "cold.c stand_procedure"), ("monitoring and removal", "cold.c stand_procedure"), ("outlier mask", "misc.c auto_mask")],
 [("i, i_start, i_dense, bl_train", "window of the machine", "cold.c stand_procedure")], ["pycold.cold_detect return value"])
prop("C03", "Each COLD record's model is the regularised fit of that record's observations",
 "For every record COLD returns, the harmonic coefficients and per-band error are those of the lasso-regularised harmonic regression (4, 6 or 8 coefficients, as the category's units digit says and as the number of observations requires) over the observations the record covers, after removal of the outliers, for all seven bands. Coefficients beyond the record's model order are zero.",
 ["inputs"], "all time series; all segments of the result, in all positions (first, middle, last, short start and short end segments)",
 "Tests compare a handful of coefficients of one pixel; a wrong window, band or model order shows only for particular histories.",
 [CX, MI, "src/cxx/GLMnet.f", "src/cxx/multirobust.c"], [("model fit", "misc.c auto_ts_fit"), ("coefficient count", "misc.c update_cft"), ("robust outlier mask", "misc.c auto_mask")],
 None, ["coefs, rmse, category of the records"])
prop("C04", "A confirmed break is a full run of coherent exceedances; magnitude is its median",
 "Whenever COLD reports a confirmed break, the observation at the break date and the following ones, as many as the consecutive count in all, each deviate from the model by more than the threshold and their mean change direction differs by less than 45 degrees; the reported magnitude per band is the median deviation of exactly those observations. An isolated extreme observation alone never makes a break.",
 ["inputs", "configurations"], "all time series and all consecutive counts 1..11 and thresholds",
 "The confirmation window slides over every position and is shifted, rebuilt and compacted when observations are dropped; tests reach two breaks with conse=6.",
 [CX, MI], [("consecutive test", "cold.c stand_procedure"), ("direction coherence", "misc.c MeanAngl"), ("median magnitude", "misc.c matlab_2d_float_median")],
 None, ["t_break, change_prob, magnitude of the records"])
prop("C05", "COLD reports the trailing anomaly of an open segment as partial change",
 "When the series ends before a break can be confirmed, the last record's probability is the percentage of the consecutive count that trailing observations have already spent above the threshold with coherent direction, its end date is the last observation before that run, its break date the first of the run (0 if there is none), and its magnitude the median deviation of that run.",
 ["inputs", "configurations"], "all end-of-series situations: 0..conse-1 trailing anomalies, mixed with normal observations",
 "The tests contain one trailing anomaly; the scan over the tail window has one case per position and consecutive count.",
 [CX], [("end of series scan", "cold.c stand_procedure (id_last)")], None, ["last record of cold_detect"])
prop("C06", "Observations flagged unusable never influence COLD results",
 "For pixels with at least 24 clear or water observations (and, for reconstruction, results that needed no fallback model), results do not depend on the band values of observations flagged as cloud, shadow, snow or fill, nor on those whose values are out of the valid range, nor on later observations repeating a date already seen; inserting or deleting such rows changes nothing. Only clear and water observations in range are used, with water treated as clear.",
 ["inputs"], "all insertions and perturbations of unusable observations at any position in any series",
 "A metamorphic relation over all positions and values; tests never perturb unusable observations.",
 [UT, CX], [("validity and range filter", "utilities.c preprocessing"), ("clear/unique-date filter", "cold.c stand_procedure")], None, ["cold_detect, obcold_reconstruct"])
prop("C07", "Permanent snow and too-few-clear pixels take the fallback model",
 "When fewer than 24 clear or water observations exist, COLD never looks for breaks: if at least 12 usable observations remain it returns exactly one record with the fallback category (54 for permanent snow, fitted to the clear and snow observations in range; 44 for other unclear pixels, fitted to the in-range observations of any flag but fill whose green value is not much above the median), with four coefficients, with zero break date, probability and magnitude; otherwise it reports that no record could be produced.",
 ["inputs"], "all mixes of clear, snow, cloud and fill observations around the thresholds",
 "Tests contain one such pixel; the branch depends on counts and ratios of flags.",
 [CX, UT], [("fallback branch", "cold.c cold"), ("fallback procedure", "cold.c inefficientobs_procedure"), ("flag ratios", "utilities.c preprocessing")], None, ["cold_detect"])
prop("C08", "Starts, gaps and short ends of a series are covered by short models",
 "Six or more usable observations that precede the first stable model (or, after a data gap longer than allowed, the model's start) yield a short start record whose break date is the stable model's start; six or more that follow the last break without room for a stable model yield a short end record with no break; fewer yield no record. The allowed gap is the one the caller gives.",
 ["inputs", "configurations"], "all arrangements of gaps, unstable starts and breaks near the end of the series, and all gap settings",
 "Depends on where gaps and breaks fall relative to the ends; tests contain one start segment.",
 [CX], [("dense-start rule and gap test", "cold.c stand_procedure (i_dense)"), ("short start record", "cold.c stand_procedure (category 14)"), ("short end record", "cold.c stand_procedure (category 24)")], None, ["first and last records of cold_detect"])
prop("C09", "Change-magnitude series are placed, scaled and capped consistently",
 "With change-magnitude output on, each period of the requested interval from the starting date holds the largest direction-weighted minimum change magnitude (hundredfold, capped at the 16-bit maximum) computed for an observation of that period while monitoring, with that observation's date relative to the Landsat 4 launch; periods without one hold the fill value in both series, observations outside the requested periods write nowhere, and the segments returned are the same as without the output.",
 ["inputs", "configurations"], "all series, intervals, starting dates and consecutive counts",
 "Tests compare one cell; every monitored observation writes to a computed cell.",
 [CX, UT, PYX], [("change magnitude output", "cold.c stand_procedure (CM_outputs)"), ("angle weighting", "utilities.c angle_decaying"), ("array sizing", "_colds_cython.pyx _cold_detect")], None, ["cold_detect(b_output_cm=True)"])
prop("C10", "Pixel calls are pure functions of their arguments",
 "Every pixel-level call (COLD, S-CCD, reconstruction) leaves the caller's arrays as they were, returns the same result whatever calls preceded it in the process and whatever integer type holds the inputs, and copies the given position into every record. COLD and reconstruction report dates that are out of order as an error and never silently process them.",
 ["inputs", "histories"], "all sequences of calls in one process, all input integer types, all positions",
 "Tests run each call once in a fixed order and never look at the inputs afterwards.",
 [CO, PYX, CX, SC], [("input conversion", "colds.py _validate_data"), ("record position", "cold.c rec_cg pos"), ("date order check", "cold.c cold, obcold_reconstruction_procedure")], None, ["all pixel-level functions"])
prop("C11", "Reconstruction splits the series exactly at the given breaks",
 "Object-based reconstruction returns one record per interval delimited by the sorted positive break dates that lie at least a year apart, provided the interval has at least six usable observations (an interval with fewer is merged into the following one); each record starts at its first observation and ends at the last one before its break, carries the observation nearest to the prescribed break as break date with full probability, and the last record is open. Order and duplicates of the given break dates do not matter; a series in which no interval qualifies gets the fallback model of COLD's unclear pixels.",
 ["inputs"], "all sets and orders of break dates, and all series",
 "Tests pass one fixed list of break dates for one pixel.",
 [CX], [("break list filter and sort", "cold.c obcold_reconstruction_procedure"), ("segment loop", "cold.c obcold_reconstruction_procedure")], None, ["obcold_reconstruct"])
prop("C12", "Reconstructed records are fitted to the cleaned observations of their interval",
 "Every reconstructed record's coefficients, error, category and magnitude are those of the regularised fit over its interval's observations, after the outlier screening that applies to non-final intervals, and of the median deviation of the observations after the break from that fit.",
 ["inputs"], "all series and break lists, including outliers inside intervals",
 "The tests check the number of records of one pixel.",
 [CX, MI], [("interval fit and screening", "cold.c obcold_reconstruction_procedure")], None, ["obcold_reconstruct"])
prop("S01", "An S-CCD pack is always consistent with its mode",
 "After any detection and any sequence of updates (with the consecutive count of the first call throughout), an S-CCD pack's mode is one of the documented ones and its parts match it: a monitoring pack (1, 11, snow 3) has exactly one model and no queue, a queuing pack (2, 12) a queue and no model, a pack in which a change was just confirmed (5) both, a void pack neither; a snow queue (4) has no model and is empty only while nothing was usable. Queued observations are the latest usable ones (in range, for standard modes), in increasing date order and at most 240. The mode only moves along the documented transitions: void to monitoring, untested queue, snow queue or snow monitoring; queues to monitoring once a model stands; monitoring to just-changed (or, untested, to the untested queue) when a change is confirmed; just-changed to the untested queue after 15 days; untested monitoring to monitoring when more than half of the kept observations are predicted well. The pixel position is handed through.",
 ["inputs", "histories"], "all sequences of detection and updates of any batch sizes, over all modes",
 "Mode transitions depend on the whole history; tests take one pixel through one transition.",
 [SC, PYX], [("mode transitions", "s_ccd.c sccd_standard end, sccd, sccd_snow"), ("pack assembly", "_colds_cython.pyx _sccd_detect/_sccd_update")],
 [("nrt_mode", "pack mode", "s_ccd.c sccd")], ["sccd_detect, sccd_update results"])
prop("S02", "S-CCD segments equal the state-space initialise/filter/confirm machine",
 "For every series, the segments S-CCD returns (start, break, observation count, model, error, magnitude) and the noise levels it measures are those of the documented machine: initialise like COLD with 18 observations over a year (with a record of its own for six or more observations before the first model), filter each further observation into the state-space model, confirm a break when all consecutive observations exceed the threshold coherently, drop an isolated extreme observation, and restart at the break.",
 ["inputs", "configurations"], "all series, thresholds and consecutive counts 1..8",
 "Tests cover one pixel with defaults.",
 [SC, "src/cxx/KFAS.c"], [("initialisation", "s_ccd.c step1_cold_initialize"), ("filter", "KFAS.c, s_ccd.c KF_ts_filter_regular"), ("change test", "s_ccd.c step2_KF_ChangeDetection")], None, ["sccd_detect().rec_cg"])
prop("S03", "S-CCD updates are independent of how new observations are batched",
 "From a monitoring pack, feeding new observations one at a time, in batches, or all at once gives the same pack: the same mode, the same segments including the first change confirmed, the same latest observations and queue, and (up to rounding of the stored state) the same model, up to and including the update that confirms a change.",
 ["histories", "inputs"], "all ways to split a stream of new observations into consecutive batches, all consecutive counts 1..8",
 "Tests use one batch split; the relation ranges over all splits and states.",
 [SC, PYX], [("state save and reload", "s_ccd.c step3_processing_end, sccd_standard"), ("pack in/out", "_colds_cython.pyx _sccd_update")], None, ["sccd_update"])
prop("S04", "S-CCD history is append-only and the caller's pack is never modified",
 "An update never alters, reorders or drops segments already closed: the segments of the returned pack extend those of the given one. The given pack itself, including its noise levels, model and queue, and the input arrays are unchanged after the call, so that an update can be repeated with the same result.",
 ["histories", "inputs"], "all update histories",
 "Tests never compare the old pack after an update.",
 [PYX, SC], [("copy-in of the pack", "_colds_cython.pyx _sccd_update"), ("segment append", "s_ccd.c step2_KF_ChangeDetection")], None, ["sccd_update argument and result"])
prop("S05", "S-CCD ignores unusable observations, and updates without news are no-ops",
 "Cloud, shadow and fill observations, and for pixels handled by the standard modes also snow (once the pixel is in a standard mode), out-of-range observations and repeated dates, have no influence on any S-CCD result; an update that brings none but such observations returns a pack equal to the given one.",
 ["inputs", "histories"], "all insertions of unusable observations into detection and update streams",
 "Not tested at all.",
 [SC, UT], [("validity filter", "utilities.c preprocessing"), ("append of new observations", "s_ccd.c sccd_standard, sccd_snow")], None, ["sccd_detect, sccd_update"])
prop("S06", "The S-CCD monitoring model describes the latest observations",
 "In a monitoring pack, the stored tail is the latest usable observations (dates and six bands, oldest first, as many as the consecutive count), which the model has not been fed yet; the model (coefficients, covariance, noise, sum of squared errors), the observation count and the start date are those of filtering the open segment up to there, and the trailing-anomaly count, its magnitude and its angle are those of the longest trailing run of stored observations above the gate threshold.",
 ["inputs", "histories", "configurations"], "all series and update histories, gate thresholds and consecutive counts",
 "Tests check the stored values of one pixel.",
 [SC], [("end processing", "s_ccd.c step3_processing_end")], None, ["nrt_model of the pack"])
prop("S07", "Disturbance identification follows the stored trailing anomaly",
 "A disturbance date is reported exactly when the pack has a model in a standard mode whose predictability is established (not 11, 12 or snow), its trailing-anomaly count reaches the required number, its magnitude exceeds and its angle stays below the given thresholds, and the median change over the trailing run is not a greening (red and first shortwave change below minus the band threshold, near infrared above it); the date is that of the first observation of the trailing run. A reported disturbance moves a monitoring pack to the untested mode if asked, nothing else in the pack changes, and otherwise 0 and the same pack are returned.",
 ["inputs", "configurations"], "all packs and all thresholds",
 "Tests call it once.",
 [CO, PU], [("decision", "colds.py sccd_identify"), ("change magnitude", "utils.py calculate_sccd_cm")], None, ["sccd_identify"])
prop("S08", "Snow-dominated pixels are queued, then monitored, by S-CCD without breaks",
 "A pixel more than three quarters of whose snow and clear observations are snow at detection is handled by the snow modes only: below 18 clear and snow observations they are queued, from 18 on one model of them is kept and filtered on by updates, whose stored tail is the latest eight; snow modes never produce change segments, and other pixels never enter them.",
 ["inputs", "histories"], "all mixes of snow and clear observations, and all splits into updates",
 "Tests have one snow pixel.",
 [SC], [("snow procedure", "s_ccd.c sccd_snow")], None, ["sccd_detect, sccd_update"])
prop("S09", "Packs survive flattening to lists and back",
 "Turning any S-CCD pack into its flat list form (unindex_sccdpack) and back (index_sccdpack) gives an equal pack for every mode, and continuing a history from restored packs gives the same results as from the originals.",
 ["inputs", "histories"], "packs of all modes reached by all histories",
 "Tests convert none.",
 [PU], [("pack/unpack", "utils.py unindex_sccdpack / index_sccdpack")], None, ["utils pack helpers"])
prop("S10", "Pinpoint anomalies are each year's strongest run and leave segments alone",
 "With pinpointing asked for, detection returns besides the pack the pinpoint anomalies of the monitored period: at most one for each calendar year (counted in years of 365.25 days from 1982), the strongest run of three or more consecutive observations whose deviations exceed the gate, with its date, the kept observations, the model predictions and the running magnitudes and angles; void and snow pixels have none. The pack is the same as without pinpointing.",
 ["inputs", "configurations"], "all series, gates, thresholds and consecutive counts",
 "Tests never ask for pinpoint anomalies.",
 [SC, PYX], [("anomaly records", "s_ccd.c step2_KF_ChangeDetection"), ("record array", "_colds_cython.pyx _sccd_detect")], None, ["sccd_detect(b_pinpoint=True)"])
prop("T01", "Tile products do not depend on worker count, order or timing",
 "The tile pipeline produces the same block records, change maps and assembled products for any number of workers, any assignment of blocks and any interleaving of their steps, equal to processing every pixel sequentially; each block is written by exactly one worker.",
 ["schedules", "configurations"], "all interleavings of any number of workers over any number of blocks",
 "Tests never run the pipeline with more than one schedule.",
 [TP, OB], [("block assignment and barriers", "tile_processing.py tile_process_single_core/main"), ("finish flags", "tile_processing.py, ob_analyst.py is_finished_*")],
 [("finish flag files", "per-block completion markers", "tile_processing.py")], ["files of the result folder"])
prop("T02", "A killed tile run resumes without losing or corrupting work",
 "If any worker is killed at any point and the pipeline is started again, the rerun completes and the final products equal those of an undisturbed run; a block marked finished always has its complete output on disk.",
 ["crash_points", "schedules", "histories"], "all kill points of all workers, and repeated kills",
 "Tests never kill a run.",
 [TP, OB], [("flag after data", "tile_processing.py tile_process_single_core"), ("skip finished blocks", "tile_processing.py")], None, ["result folder after restart"])
prop("T03", "Every tile run terminates for any worker count",
 "With every worker scheduled fairly, every stage of the tile pipeline ends for every worker count from one up, and no worker waits for a product that no worker is going to make.",
 ["schedules", "configurations"], "all worker counts and fair schedules, all processing modes",
 "Tests run two configurations with fixed counts.",
 [TP, OB], [("barriers and roles", "tile_processing.py main")], None, ["termination of every worker"])
prop("T04", "Each pixel of a tile is read from and recorded at its own place",
 "For every block layout (including non-square grids), the stack position, tile row and column, and recorded position of each pixel correspond one-to-one: the record with position p was computed from the observations at row (p-1) div ncols and column (p-1) mod ncols of the tile, and every pixel of the tile is processed in exactly one block.",
 ["inputs", "configurations"], "all tile sizes and block grids dividing them, all pixels",
 "Tests use square grids, where swapped axes agree.",
 [TP, PU], [("position arithmetic", "utils.py get_rowcol_intile, get_time_now...; tile_processing.py block loops")], None, ["record positions vs. input pixels"])
prop("T05", "Configured bounds and options apply in every stage",
 "A tile run's products are those of the configured time bounds, sensor, collection, probability, consecutive count and map interval: every stage (change detection, change maps, object analysis, reconstruction) uses the same images and the same settings for a pixel, so each record and map equals the pixel function called with exactly the configured values on the images within the bounds.",
 ["configurations", "inputs"], "all combinations of bounds, collections, probabilities, consecutive counts, map intervals, methods and tiles",
 "Tests run one configuration; a stage that silently uses a default agrees with it there.",
 [TP, OB], [("configuration read and bounds", "tile_processing.py main"), ("pixel calls", "tile_processing.py main; ob_analyst.py reconstruct_reccg")], None, ["records and maps of the result folder"])
prop("T06", "A pixel or block that cannot be processed leaves the rest of the tile whole",
 "When detection fails or finds nothing for some pixels, or a block has no images (none at all, none within the bounds, nothing but fill), the run still finishes; those pixels have no record and fill in the change maps, and every other pixel has exactly the products it has in a tile without such pixels.",
 ["inputs", "crash_points"], "all sets of failing pixels and empty blocks, in all methods and numbers of workers",
 "Tests have no failing pixel and no empty block.",
 [TP, OB], [("pixel failure branches", "tile_processing.py main, except RuntimeError/Exception"), ("empty blocks", "tile_processing.py main; ob_analyst.py reconstruct_reccg")], None, ["files of the result folder"])
prop("U01", "Block maps are mosaicked to their place in the tile",
 "Assembling per-block arrays into a tile puts each block's rows and columns at that block's place for every grid of blocks, loses no pixel and mixes no two; a block without change maps appears as fill, never as another block's data.",
 ["inputs", "configurations"], "all block grids and block contents",
 "Tests use one square grid.",
 [PU, TP], [("mosaic", "utils.py assemble_cmmaps, assemble_array")], None, ["assembled tile arrays"])
prop("O01", "Change objects are connected groups of same-period neighbours",
 "Objects are grown from the pixels with the largest change magnitudes first: a pixel is labelled only if it has a change (where this period has none, the previous period's stands in if strong enough), two pixels share a label only if they are connected through changed neighbours within the date tolerance, and nothing leaks across unchanged pixels. The segmentation is a function of the maps alone.",
 ["inputs"], "all change-magnitude and date maps",
 "Tests check one map.",
 [OB], [("flood fill segmentation", "ob_analyst.py segmentation_floodfill")], None, ["segmentation maps"])
prop("O02", "The object acceptance rule compares change with its land-cover thresholds",
 "An object is accepted as a change exactly when the mean smoothed change magnitude of its pixels, multiplied by min(2, 0.95 + slope * log10(number of its pixels)), exceeds the threshold of the land cover most of its pixels have; the background is never accepted.",
 ["inputs"], "all class, size and magnitude combinations",
 "Tests evaluate one case.",
 [OB], [("decision rule", "ob_analyst.py is_change_object")], None, ["is_change_object, object_analysis"])
prop("O03", "Objects become per-pixel break dates in the right period only",
 "After object analysis, a pixel has a break in a period exactly when its object was accepted; the break dates handed to reconstruction are those of the accepted pixels, and rejected or background pixels hand over none.",
 ["inputs"], "all object maps and decisions",
 "Tests check one map.",
 [OB], [("object to pixel mapping", "ob_analyst.py object_analysis, obia_execute"), ("per-pixel break list", "ob_analyst.py reconstruct_reccg")], None, ["OBIA result maps"])
prop("O04", "Thematic context of a date is the map of the right year",
 "The land-cover context used for a change period is the classification of the year before the change, or the earliest available year for changes before any classification; context is looked up for the same pixel.",
 ["inputs"], "all dates and sets of available years",
 "Tests have one year.",
 [OB], [("year lookup", "ob_analyst.py get_lastyear_cmap_fromdate")], None, ["thematic maps used"])
prop("R01", "Classifier features are those of the segment covering the date",
 "For any records of a pixel and any date, the features are those of the record covering the date: a record covers from its start to the next record's start (before the first record's start nothing is covered), the last one up to its end; where none covers it or there is no record, the features are the fill value.",
 ["inputs"], "all record lists and dates",
 "Tests check one pixel.",
 [PC], [("feature extraction", "pyclassifier.py extract_features, getcategory...")], None, ["feature arrays"])
prop("R02", "Training samples respect class quotas",
 "For each class of the land cover map, the number of training samples is proportional to its area within the documented minimum and maximum, never more than its pixels; samples are pixels of that class, drawn without replacement; unlabelled pixels are no class.",
 ["inputs"], "all class histograms",
 "Tests check one map.",
 [PC], [("quota computation", "pyclassifier.py generate_sample_num"), ("training selection", "pyclassifier.py train_rfmodel")], None, ["sample counts and rows"])
prop("R03", "Classified blocks are the model's prediction at each pixel, in place",
 "The classification of a block is the model's prediction for each pixel's own features, arranged in the block's shape, with pixels that have no features classified as none; yearly maps assemble all blocks at their places.",
 ["inputs", "configurations"], "all block shapes and feature contents",
 "Tests use one block.",
 [PC], [("block classification", "pyclassifier.py classification_block"), ("assembly", "pyclassifier.py PyClassifierHPC")], None, ["classification maps"])
prop("V01", "Out-of-domain parameters are rejected, in-domain ones accepted",
 "Every pixel-level function rejects with a clear error every parameter outside its documented domain (thresholds not positive, consecutive counts outside their range, non-integers, inputs of different lengths or more than one dimension) before any processing, and accepts every value inside it.",
 ["inputs", "configurations"], "all parameter values around every boundary of every documented domain",
 "Tests reach a few rejections.",
 [PV, CO], [("constraint table", "colds.py _parameter_constraints"), ("validation", "_param_validation.py validate_parameter_constraints")], None, ["raised errors"])
PA = "src/python/pycold/imagetool/prepare_ard.py"
prop("M01", "Exported yearly break maps show each pixel's break of the year, in place",
 "For every tile of change records (COLD, object-based or S-CCD) and every number of processes, the map of a year holds, at a pixel's row and column, the day of year of the pixel's last confirmed break of that year (added to a thousand times its type) and -9999 where there is none; the maps have the tile's rows and columns and the reference image's georeference; blocks without records are without data; no process waits for ever and no temporary file is left.",
 ["inputs", "configurations", "schedules"], "all record sets, block grids (square or not, with missing blocks), year ranges, numbers of processes and interleavings",
 "The repository has no test of the export; a swapped row and column shows only on tiles that are not square, a missed barrier only in some interleavings.",
 [EX], [("blocks dealt to processes", "export_change_map.py main, ranks_percore"), ("break cell", "export_change_map.py main, results_block"), ("assembly", "export_change_map.py main, hstack/hsplit/vstack after comm.Barrier")], None, ["<year>_break_map_<method>.tif"])
prop("M02", "Exported breaks carry the right type",
 "An exported break is a regrowth (2) when near infrared does not drop and red and first shortwave infrared do not rise beyond the spectral threshold (200; 250 for object-based results), an afforestation (3, not for S-CCD) when moreover the pixel's next record's slopes grow beyond the absolute slopes of this one in the greening direction, otherwise a disturbance (1); for object-based results a break within five years of the pixel's previous, disturbing one whose magnitudes flip sign in at least four of the bands green to second shortwave infrared is a regeneration (4).",
 ["inputs"], "all records around every limit of the rules, in all positions of a pixel's history and of a block's file",
 "The repository has no test of the export; the rules look at neighbouring records, so they depend on the whole history.",
 [EX], [("type rules", "export_change_map.py getcategory_cold, getcategory_obcold, getcategory_sccd")], None, ["<year>_break_map_<method>.tif"])
prop("M03", "First and recent disturbance maps follow from the yearly maps",
 "The recent disturbance map holds for each pixel the last year of the range whose break map shows a disturbance there, the first disturbance map the first such year, and both 0 where there is none.",
 ["inputs", "configurations"], "all sequences of yearly maps and year ranges",
 "The repository has no test of the export.",
 [EX], [("yearly scan", "export_change_map.py main, recent_dist and first_dist")], None, ["recent_disturbance_map_<method>.tif, first_disturbance_map_<method>.tif"])
prop("M04", "Exported coefficient maps hold the covering record's features at 1 July",
 "A coefficient map of a year, band and feature holds for each pixel that feature of the record covering 1 July (from a record's start to the next one's start, the last record up to the end of the year it ends in, that year's last day excluded), missing values as 0; the change feature holds the magnitude of the pixel's first confirmed break of the year; -9999 where there is none. Bands and features may be asked for in any order and number.",
 ["inputs", "configurations"], "all records, years, bands and lists of features",
 "The repository has no test of the export.",
 [EX], [("features", "export_change_map.py extract_features"), ("assembly", "export_change_map.py main, tmp_coefmap")], None, ["<year>_coefs_<method>_<band>_<feature>.tif"])
prop("P01", "Quality bits become one class per pixel by fixed priority",
 "For every image layout (Landsat ARD of either collection, collection 2 scenes, both HLS versions), the class layer of a prepared stack is the one the pixel's quality bits say, by priority cloud (dilated or adjacent cloud included), shadow, snow, water, clear; a pixel with none of the bits, or with the fill value of its layout, is fill (HLS: clear when no bit is set).",
 ["inputs"], "all values of the quality band of every layout, apart from combinations of the fill bit with others",
 "The repository has no test of the preparation; 65536 bit patterns per layout.",
 [PA], [("bit tests", "prepare_ard.py qabitval_array, qabitval_array_c2, qabitval_array_HLS")], None, ["class layer of the .npy stacks"])
prop("P02", "Prepared stacks hold every band of an image in its place and scale",
 "For every image, each block's file holds blue, green, red, near infrared, both shortwave infrareds, thermal and class of exactly that block's pixels, from the bands the sensor has them in, in hundredths of a per cent and tenths of a kelvin (collection 2 rescaled; no thermal for HLS); scenes are cut to the requested extent, fill outside; a file exists exactly for the blocks with a clear, water or snow pixel, named so that its date can be read back; without partition there is one file with the whole image.",
 ["inputs", "configurations"], "all images of all layouts and sensors, and all block grids",
 "The repository has no test of the preparation; each sensor has its own band numbers.",
 [PA], [("band reading and scaling", "prepare_ard.py single_image_stacking*"), ("blocks", "prepare_ard.py as_strided views"), ("empty blocks", "prepare_ard.py qa_unique")], None, ["block_x*_y*/*.npy"])
prop("P03", "Images and pixels are taken by date, clear share and path",
 "An image is stacked exactly when its date lies within the bounds (both included) and, if a clear share is asked for, its clear and water pixels are more than that share of its pixels that are not fill; with single paths, pixels whose assigned path is not the image's are fill in its stacks. The recorded first and last dates are those of the images, narrowed to the bounds.",
 ["inputs", "configurations"], "all images, date bounds, clear shares and maps of paths",
 "The repository has no test of the preparation.",
 [PA], [("clear share", "prepare_ard.py clear_ratio"), ("date bounds", "prepare_ard.py low_date_bound, upp_date_bound"), ("path mask", "prepare_ard.py path_array"), ("date file", "prepare_ard.py main, starting_last_dates.txt")], None, ["block_x*_y*/*.npy, starting_last_dates.txt"])
prop("P04", "Preparing with any number of processes stacks every readable image once",
 "Whatever the number of preparing processes and their interleaving, every image that can be read is stacked completely, by one of them; images whose archive, quality band or any other band is missing or unreadable leave no file and disturb no other image; every process ends, says so, and removes its temporary folder.",
 ["schedules", "inputs", "crash_points"], "all numbers of processes, interleavings, and sets of damaged images",
 "The repository has no test of the preparation.",
 [PA], [("share of a process", "prepare_ard.py main, new_rank"), ("wait for the first process", "prepare_ard.py checkfinished_step1"), ("damaged images", "prepare_ard.py except branches")], None, ["block_x*_y*/*.npy, rank*_finished.txt"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
