TILE = "TLA+ specification of the tile pipeline model-checked with TLC; its schedules replayed on the real workers and every recorded history validated against it by TLC"
TN = ("The workers are the repository's own code run as processes under a scheduler that stops them at every file operation; what a file should hold is computed by calling the pixel "
      "functions (checked by C01-C12) on the driver's own copy of the images. ")
claim("T01", TILE, "model_checking", TN + "All interleavings in the model for small tiles; every edge of the schedule graphs of 2-3 workers and seeded schedules of up to 20 on real workers.")
claim("T02", TILE + "; kills before, within and after file operations", "model_checking", TN + "All kill points of up to 2 kills in the model; the walks that cover them, and kills at each changing operation, on real workers.")
claim("T03", TILE, "model_checking", TN + "Termination is a liveness property in the model; on real workers, a schedule in which nobody can move is reported.")
claim("T04", "TLA+ position arithmetic enumerated by TLC and compared with the library; tile histories validated against the specification", "model_checking", TN + "All pixels of all layouts to 3x3 blocks of 3x3 pixels (4 thorough).")
claim("T05", TILE, "model_checking", TN + "Seeded configurations.")
claim("T06", TILE + "; pixel failures injected at the pixel functions", "model_checking", TN + "Injected failures are the exceptions the pixel functions raise.")
claim("U01", "TLA+ position arithmetic enumerated by TLC; the library's mosaics of every layout compared with it", "model_checking", "All layouts to 3x3 blocks of 3x3 pixels (4 thorough), with missing blocks; and tiles with empty blocks through the pipeline.")
OBT = "TLA+ specification of the object analysis; TLC enumerates the small cases and validates every recorded run of the library against it"
claim("O01", OBT, "model_checking", "Superpixel growth as a nondeterministic machine (ties may be taken in any order), model-checked on all small maps; recorded segmentations of seeded maps must be its behaviours. Trusts an own smoothing (rounding margins at the thresholds).")
claim("O02", OBT, "model_checking", "Decisions within 1/400 of the threshold may go either way.")
claim("O03", OBT, "model_checking", "Seeded maps, all three context variants; results read from the files the library writes and from the break dates given to the pixel reconstruction.")
claim("O04", OBT, "model_checking", "All years and start years around the boundaries, first and last days of years included.")
CLST = "TLA+ specification of feature extraction, quotas and classified maps; TLC enumerates the small cases and validates every recorded run of the library against it"
claim("R01", CLST, "model_checking", "All lists of up to three records over a few days in the model and on the library; seeded records with missing values.")
claim("R02", CLST, "model_checking", "The forest is replaced by a stand-in that records what it is trained with; its seed and the draw are seeded.")
claim("R03", CLST, "model_checking", "The forest is replaced by a stand-in computing a function of the features that the specification also computes, so a swapped band, date, pixel or block shows.")
claim("V01", "TLA+ table of parameter domains; TLC enumerates calls with one and two parameters around every bound and every mix of shapes, replayed on the library", "model_checking", "Truth values given as numbers, and numbers beyond C's int, are left open.")

SC = "TLA+ specification of S-CCD model-checked with TLC; every call of real detection/update histories validated against it by TLC with an independent numeric oracle"
SN = ("Histories of seeded series (25 families) over all modes; deviations, fits, screening and the Kalman filter come from an own implementation with error bounds, decisions within rounding of a "
      "threshold may go either way. The machine itself is explored for all step patterns and all answers of the numeric tests at small scale, from every pack mode. ")
claim("S01", SC, "model_checking", SN + "The share of changes of mode is reported in the evidence.")
claim("S02", SC, "model_checking", SN)
claim("S03", SC + "; stretches of updates validated as the single update they amount to", "model_checking", SN + "Splits of packs in mode 1 only (the other modes count calls or days between calls).")
claim("S04", SC + "; given pack and arrays compared before and after, updates repeated", "model_checking", SN)
claim("S05", SC + "; histories with unusable observations and idle updates added compared with the plain ones", "model_checking", SN)
claim("S06", SC, "model_checking", SN)
claim("S07", "TLA+ specification of the identification decision evaluated by TLC on packs of real histories, edited to the edges of the decision, and compared with the library", "model_checking",
      "Changes within 0.02 of the greening threshold may go either way. Thresholds: dist_conse 1..6, angles 1..17999, magnitudes at and around the stored ones.")
claim("S08", SC, "model_checking", SN)
claim("S09", SC + "; histories over flattened and restored packs", "model_checking", SN)
claim("S10", SC + "; packs compared with those without pinpointing", "model_checking", SN)

EXT = "TLA+ specification of the export; TLC explores the processes' interleavings and judges every map the real export writes, its processes interleaved in one process"
EN = "mpi4py is not installed: a stand-in gives the code its rank, broadcast and barrier over threads of which one runs at a time. Seeded records, layouts and interleavings. "
claim("M01", EXT, "model_checking", EN)
claim("M02", "TLA+ rules of break types; TLC enumerates 7768 pixels around every limit, replayed through the real export, and judges exports of seeded histories", "model_checking", EN)
claim("M03", EXT, "model_checking", EN + "Judged against the yearly maps of the same run.")
claim("M04", EXT, "model_checking", EN + "Not for S-CCD (the code offers none).")
PRT = "TLA+ specification of the preparation; TLC explores its processes and judges every stack the real preparation writes for made-up images"
PN = "Images are small rasters in the real file layouts (HLS 1.4: a multi-page file in place of HDF4); the package runs from a copy with an own map of paths. "
claim("P01", "TLA+ table of quality bits; TLC judges the class the real preparation gives to every raw value of every layout", "model_checking", PN + "All 65536 (HLS: 256) values, without combinations of the fill bit with others.")
claim("P02", PRT, "model_checking", PN + "Rescaled values within two units.")
claim("P03", PRT, "model_checking", PN)
claim("P04", PRT, "model_checking", PN + "Processes run as threads of which one runs at a time, switched at every file access, in seeded orders.")
