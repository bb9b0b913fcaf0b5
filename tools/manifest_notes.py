NOT_APPLICABLE = {}
NOTES["C01"] = "Track generator run over seeded scenarios (domains, steps, land layouts); every stored track replayed against the kinematic and validity rules."
NOTES["C05"] = "Storms run through the real wind-field generator; every grid point of the footprint replayed from the per-step fields."
NOTES["C06"] = "All radial profiles evaluated over seeded storms, radii and layouts against independent scalar formulas, derivatives by finite differences."
NOTES["C07"] = "All boundary-layer field models evaluated over seeded storms, motions and angles against independent formulas, with rotation and mirror relations."
NOTES["C08"] = "All pressure profiles evaluated over seeded storms against independent formulas, bounds and ordering along radius."
NOTES["C09"] = "Each call made twice, with freshly compiled extensions and with the interpreted fallback, results compared."
NOTES["C10"] = "Extensions built with AddressSanitizer, UBSan and Fortran bounds checks, called over sizes, layouts, orders and invalid arguments."
NOTES["C11"] = "Wind driver run on 1-8 scheduled processes and killed at each file operation (before it or half way through a write), then rerun; files compared with each event's own footprint."
NOTES["C12"] = "Hazard driver run on 1-9 scheduled processes over region sizes around the tile size; every cell compared with an independent fit of its own records; deadlocks detected."
NOTES["C13"] = "Aggregation over directories of seeded wind files with shuffled listings, stray years and sub-windows; every year and cell compared."
NOTES["C14"] = "Fits of seeded samples of 16 kinds compared with an independent L-moment solution; L-moments compared with probability-weighted moments."
NOTES["C15"] = "Threshold, power-law and empirical fits of seeded winds compared with their own parameters and with the ranked records, alone and through the hazard driver."
NOTES["C16"] = "Bounds of each cell looked up among all possible ways of dealing its records into samples, directly and through the hazard driver."
NOTES["C17"] = "Seeded track sets saved and loaded through every reader and writer, alone, split over files and several times over; every field, date and attribute compared."
NOTES["C18"] = "Seeded grids and variables written and read back in both formats, over existing files, compressed and scaled; orientation, georeference and values compared."
NOTES["C19"] = "Track files in seeded layouts, units, date formats and storm sequences loaded and every record compared with an independent reading."
NOTES["C20"] = "Pre-processing run end to end on seeded track files; every line of every parameter file compared with the record it belongs to."
NOTES["C22"] = "Statistics and distributions of every cell of seeded observation sets compared with an independent selection, computed and after reload."
NOTES["C23"] = "Distributions of seeded samples for every kernel checked for validity and against pointwise kernel sums; samplers driven with chosen uniform numbers."
NOTES["C24"] = "Genesis densities of seeded origins compared with a direct kernel sum, read back, and sampled with chosen uniform numbers."
NOTES["C30"] = "Unit conversions over all pairs, scalars and arrays, and moisture formulas inverted and compared with independent ones."
NOTES["C31"] = "Distances, bearings, destinations and grid builders over seeded points, including poles, antipodes and the date line, compared with vector geometry."
NOTES["C32"] = "Configuration files of seeded options written, read through every accessor in fresh processes and compared with the text of the file."
NOTES["C33"] = "Seeded sequences of record, modify, query, reload, delete and archive over several runs compared with a model; runs stopped at every write and lists cut at every byte."
NOTES["C35"] = "Point-in-polygon, crossing and interpolation routines over seeded exact coordinates compared with rational geometry."
NOTES["C25"] = "Database built on 1-6 scheduled processes from seeded locations, wind, hazard and track files; every row compared with the files."
NOTES["C26"] = "Every query run on seeded database contents and compared with a direct selection over the stored rows."
NOTES["C27"] = "Seeded observed tracks interpolated at many steps and types; every record compared with the observations around it."
NOTES["C34"] = "Domain and frequency computed from seeded storm databases compared with a direct selection of storms."
NOTES["C28"] = "Station series from seeded fields and from wind runs compared record by record with the field of each step; evolution files compared layer by layer."
NOTES["C29"] = "Local-wind rasters from seeded gust, bearing and multiplier rasters compared cell by cell with direct products, single-pass and segmented with several threads; hang limit on the threads."
NOTES["C36"] = "Evaluation classes run on seeded tracks, event-set files and historical records, with 1 to 8 ranks, compared with brute-force counts."
NOTES["C38"] = "Whole model run on seeded histories and configurations; stored files compared with single-stage starts, several processes and repeats, calibration files with direct calls per quantity."
NOTES["C39"] = "Scenario driver run on seeded observed storms; stored tracks compared with the observations, footprints with independent formulas along the stored track, series and map with the footprint."
NOTES["C40"] = "Seeded points over all zones and ellipsoids converted both ways and compared with an independent transverse Mercator series; grids saved in UTM coordinates read back."
NOTES["C41"] = "Seeded observed and simulated tracks exported as points, segments and lines, and polygons copied; files read back with the shape file library and compared record by record."
NOTES["C42"] = "Impact stage run on seeded footprint folders and configurations with a recording stand-in for the loss tool; settings of every call compared with the footprints, failures injected."
NOTES["C43"] = "Landfall statistics of seeded gates and areas over stored event sets compared with a direct geometric count."
NOTES["C44"] = "Download stage against a loopback server with faults and runs ended at every file operation; stored files compared with the originals byte for byte."
NOTES["C45"] = "The plotting stages of both programs on seeded results; what each saved figure contains is read from the figure and compared with the stored values."
NOTES["C46"] = "Seeded tiles of the three components run through both combining programs; every cell of every direction's raster compared with the product, missing cells and cover included."
NOTES["C47"] = "Multiplier rasters that vary linearly, so that averages are known exactly, applied by the whole program to seeded wind fields; every local wind compared."
NOTES["C48"] = "The data plotting stage on seeded processed data; points, lines and bars of each saved figure compared with the data."
NOTES["C49"] = "Simulated event sets; logarithm of the radius minus the documented relation must be constant along each track, and across storms follow the documented scatter."
