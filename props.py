"""The properties: texts, anchors and the harnesses that decide them. `python3 gen.py` writes
properties.jsonl, MANIFEST.json and checks.json from this table."""
P = []
NA = []


def p(id, title, statement, over, text, why, files, mech, feature, harnesses, bounds, thorough=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech, feature=feature, harnesses=harnesses.split(), bounds=bounds, thorough=(thorough or "").split(), note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech, reason=reason))


p("C01", "Unit conversion keeps the physical quantity and labels it truthfully",
  "Converting a reading to a unit system leaves it denoting the same physical quantity (0.1 %, 0.02 K) and labels it with the unit that system uses for that kind of quantity; readings the system has no counterpart for, and missing readings, keep their value. Converting again to the same system changes nothing, and converting on to another system still keeps the quantity. Whole-number readings stay within one unit of the converted quantity. The abbreviation of a unit, in upper or lower case and with spaces around it, is read as that unit, and other texts of two characters as none.",
  "inputs configurations", "every unit, every pair of unit systems and every reading of magnitude up to a million, present or missing",
  "the tests convert no readings at all except one serialisation example; an error in one of the 20x20 factor pairs or an offset applied in the wrong order shows only for that pair",
  ["src/units/mod.rs", "src/dimensional_data.rs"], [("conversion factors between units", "Unit::convert"), ("unit of each system", "Unit::convert_system"), ("conversion of a reading in place", "DimensionalData::to_units"), ("texts", "From<&str> for Unit, Unit::abbreviation")],
  "units", "h_units_system h_units_missing h_units_pairs h_units_roundtrip h_units_int h_units_text h_units_other", "any mixture of letter cases, any two characters; readings are any double in [-1e6, 1e6], or any integer in that range; all units and systems; up to three conversions in a row")

p("C02", "Compass sectors and steepness codes are exact and read back",
  "A bearing of 0 to 360 whole degrees falls into the nearest of the sixteen compass sectors and anything else into none; every sector has its centre's degrees, and a direction built from degrees, from a sector, from a sector's printed code (either case) or from digits carries matching degrees and sector. Exactly the sixteen codes parse as sectors. Every printed steepness parses back to itself.",
  "inputs", "every whole-degree bearing in -2000..2000, every sector, every text of up to three printable characters",
  "the tests parse buoy lines with a handful of directions; a wrong boundary between two of the sixteen sectors or one mistyped code is invisible unless that bearing or code is sampled",
  ["src/units/cardinal_direction.rs", "src/units/direction.rs", "src/units/steepness.rs"], [("sector of a bearing", "CardinalDirection::from_degrees"), ("text of a sector", "CardinalDirection Display/FromStr"), ("text of a direction", "Direction FromStr"), ("steepness codes", "Steepness Display/FromStr")],
  "direction", "h_dir_sector h_dir_centre h_dir_text h_dir_number", "bearings are any integer in [-2000, 2000]; texts are any one to three printable ASCII bytes")

p("C03", "Reversing, comparing and normalising directions respects the circle",
  "Reversing a direction turns it by half a circle, stays on the compass, updates its sector and undoes itself; two directions are opposite exactly when they are at least 170 degrees apart on the circle, in either order. Normalising a bearing given as heading-from, heading-towards or mathematical angle yields the same heading within one turn. Radians and degrees convert consistently within rounding to whole degrees.",
  "inputs", "every pair of whole-degree directions and every real bearing of one turn in each convention",
  "no existing test calls these; errors show only near north, where the arithmetic wraps",
  ["src/units/direction.rs"], [("reversing", "Direction::flip, invert"), ("opposition", "Direction::is_opposite"), ("conventions", "DirectionConvention::normalize"), ("radians", "Direction::from_radians, radian")],
  "direction", "h_dir_algebra h_dir_convention h_dir_radians", "directions are any whole degree in [0, 360]; bearings any double in [0, 360]; radians any double in [0, 2 pi)")

p("C04", "The chosen model run is the latest one already published",
  "For any instant, the selected wave-station run starts on its six-hour cycle at least six hours earlier and is the latest such run, likewise for gridded runs with five hours of delay and hourly runs with two hours. Rounding an instant to a multiple of hours gives the latest whole grid hour of that day that is not in the future.",
  "inputs", "every nanosecond of the day windows explored and every hour multiple that divides a day",
  "the tests check a few instants; the interesting ones are around midnight, month, year and leap-day boundaries and exactly on a cycle",
  ["src/tools/date.rs"], [("rounding down to a multiple of hours", "round_to_nearest_multiple_hour"), ("publication delay", "closest_gfs_model_stations_datetime, closest_gfs_model_gridded_datetime, closest_hourly_model_datetime")],
  "dates", "h_date_round h_date_runs", "eight windows of days (leap days, month and year ends, the epoch, the years 1999 to 2037), each 3 to 6 days (thorough 20 to 40), any second and nanosecond within; multiples 1 to 8, 12, 23 and 24")

p("C05", "The list of model runs of a window is complete and ordered",
  "The run times listed for a time window start with the last six-hour cycle at or before the start of the window, follow every six hours without gap or repetition, and end with the last cycle not after its end; the list is empty exactly when the window ends before that first cycle.",
  "inputs", "every start instant of the windows explored and every window length, also negative ones",
  "the test lists one window; an off-by-one at a window that ends exactly on a cycle or crosses a month shows only there",
  ["src/tools/date.rs"], [("listing of run times", "gfs_model_fmrc_datetimes")],
  "dates", "h_date_list h_date_list_long", "eight windows of 2 days (thorough 10), any second and nanosecond within; window lengths from -90000 s to 150000 s (thorough 400000 s); lists of 9, 40, 121 and 500 runs from three starts, ending any second")

p("C06", "Longitudes and latitudes normalise to the same place in range",
  "Bringing a longitude into the signed (-180 to 180) or unsigned (0 to 360) range denotes the same meridian, leaves values already in range unchanged and is undone by the inverse normalisation; the same holds for latitudes (-90 to 90 and 0 to 180). A location's own normalised coordinates agree with the free-standing normalisation.",
  "inputs", "every longitude in -180..360 and latitude in -90..180 or -90..90",
  "the tests normalise a few coordinates; the boundaries 0, 180 and 360 are where the conventions meet",
  ["src/location.rs"], [("longitudes", "normalize_longitude, absolute_longitude"), ("latitudes", "normalize_latitude, absolute_latitude"), ("locations", "Location::relative_longitude, absolute_longitude, relative_latitude, absolute_latitude")],
  "geo", "h_geo_normalize", "any double in the ranges of the quantifier")

p("C07", "A bounding box contains exactly the points inside it",
  "A position is reported inside a box running east from its western to its eastern edge and from its southern to its northern edge exactly when it lies inside, its edges included, whichever longitude convention the position and the box are written in and whether the box gives its southern latitudes as negative or as 90 to 180, including boxes that cross the antimeridian or the prime meridian and boxes that span the globe.",
  "inputs", "every box narrower than the globe, boxes exactly around the globe, and every position more than a millionth of a degree from their edges or on a whole quarter of a degree",
  "the tests check a few boxes in one hemisphere; the conventions disagree exactly at boxes crossing 0 or 180 degrees",
  ["src/location.rs"], [("containment", "Location::within_bbox")],
  "geo", "h_geo_bbox h_geo_bbox_edges h_geo_bbox_globe", "edges and positions are any double of the signed or the unsigned range, widths 0.001 to 359.99 degrees, edges and positions on any quarter of a degree including the edges themselves, and four boxes of exactly 360 degrees")

p("C08", "Distances are great-circle distances",
  "The distance between two positions is the great-circle distance on a sphere of 6371 km or 3956 miles as the unit system asks, whichever longitude convention either position is written in. It is never negative nor more than half the circumference, does not depend on the order of the two positions, and is zero from a position to itself.",
  "inputs configurations", "every pair of positions and both unit systems",
  "no existing test computes a distance; an error in one half-angle leaves plausible numbers",
  ["src/location.rs"], [("great-circle distance", "Location::distance")],
  "geo", "h_geo_distance h_geo_distance_symmetric", "latitudes in [-90, 90], longitudes in [-180, 360] in any mix; real arithmetic, trigonometric functions as uninterpreted functions with their algebraic facts")

p("C09", "Sorting, differencing and ranges of series are exact",
  "The sorting order of a series is a permutation that puts its values in ascending order and keeps ties in place; bandwidths are the differences of neighbours with the first repeated, signed or absolute; the range of a series covers and attains its present values, ignoring missing ones, and filling replaces exactly the missing ones.",
  "inputs", "every series of doubles or integers up to the stated length, with at most one missing value",
  "the tests use one short series each; ties, descending runs and the position of the missing value matter",
  ["src/tools/vector.rs"], [("sorting order", "argsort, argsort_partial"), ("bandwidths", "diff, diff_abs"), ("ranges", "min_max, min_max_fill")],
  "vector", "h_vec_argsort h_vec_argsort_int h_vec_argsort_long h_vec_diff h_vec_minmax", "values are any double in [-1e6, 1e6] or integer in [-1000, 1000]; lengths up to 5 (sorting; thorough 6; also 40, thorough 64, values with many ties of which two are free), 8 (differences; thorough 24), 6 (ranges; thorough 10)")

p("C10", "Evenly spaced series and quantisation are faithful",
  "An evenly spaced series has exactly the asked number of values from the first to the last with equal steps, and is the same when consumed from the back. Quantising values into a number of bins over a range keeps their order, gives values under the range the lowest code, and restores every value of the range to within one bin and the end of the range exactly.",
  "inputs configurations", "every pair of endpoints, every length up to the bound, every quantised pair of values, for the bin counts of the bounds",
  "the tests sample one series and one quantisation; length 0 and 1, reversed endpoints and values on bin edges are not exercised",
  ["src/tools/linspace.rs", "src/tools/vector.rs"], [("spacing", "linspace"), ("quantisation", "bin, unbin")],
  "vector", "h_vec_linspace h_vec_linspace_long h_vec_bin", "endpoints any double in [-1e6, 1e6], lengths 0 to 9 (thorough 39), 64 and 300 (thorough 1001); bin counts 1, 2, 7, 64, 255 (real arithmetic)")

p("C11", "Missing markers are removed and real readings pass unchanged",
  "A reading is dropped as missing when it equals the marker of its kind and kept unchanged whenever it differs from the marker by more than a ten-thousandth.",
  "inputs configurations", "every reading of magnitude up to 20000 and the markers 9999, 999, 99 and 0",
  "the test checks three numbers; readings close to a marker are the ones a tolerance can swallow",
  ["src/tools/math.rs"], [("missing markers", "is_some_missing")],
  "vector", "h_vec_missing", "any double in [-20000, 20000]")

p("C12", "Vector winds give their speed and the direction they come from",
  "A wind given by its eastward and northward components has the length of that vector as speed and, as heading, the compass direction it comes from, to the whole degree, in 0 to 359.",
  "inputs", "every pair of components of magnitude up to 100",
  "the test checks four vectors; quadrants and the wrap at north decide whether a heading is off by a half turn",
  ["src/tools/math.rs"], [("speed and heading", "scalar_from_uv")],
  "vector", "h_vec_uv", "components any real in [-100, 100] (real arithmetic)")

p("C13", "Linear interpolation is exact at its points and stays on the line",
  "Interpolating between two points gives the value on the straight line through them, exact at both points, between both values inside and continuing the line outside; interpolating in a grid cell is exact at the four corners and linear along each side and across the cell.",
  "inputs", "every pair or quadruple of values and every position in the cell, for the cells of the bounds (also reversed ones)",
  "the tests interpolate one cell; swapped corners or axes agree on symmetric data",
  ["src/tools/analysis.rs"], [("line", "lerp"), ("cell", "bilerp")],
  "analysis", "h_an_lerp h_an_bilerp", "values any real in [-1e4, 1e4] (cells [-1e3, 1e3]); six segments and three cells, positions up to twenty segments outside, in cells any place along one axis at five places of the other (real arithmetic)")

p("C14", "Peak detection reports exactly the swings above its threshold",
  "Scanning a series for peaks with a threshold reports peaks and troughs in alternating order starting with a peak, each an extreme of the stretch around it; neighbouring extremes differ by more than the threshold, the last one is followed by a swing of more than the threshold, and no swing of more than the threshold is missed.",
  "inputs", "every series up to the stated length and every threshold of zero or more",
  "the test scans one series; plateaus, ties and swings exactly as high as the threshold decide",
  ["src/tools/analysis.rs"], [("peaks and troughs", "detect_peaks")],
  "analysis", "h_an_peaks h_an_peaks_long", "values any real in [-100, 100], thresholds in [0, 50], lengths 0 to 6 (thorough 9), and four series of 24 values two of which are free")

p("C15", "Spectra are partitioned into one connected basin around each peak",
  "Partitioning a grid of energies gives every cell exactly one basin, as many basins as there are separate peaks (plateaus of the quantised energy without a higher neighbour), each peak in its own basin and each basin connected with its peak; of a grid that is blurred first every cell still has one basin and every basin hangs together. Neighbours of a cell are the cells touching it, each once, with directions wrapping around and frequencies not. Grids whose energies do not match their announced size are refused.",
  "inputs configurations", "every grid of energies of the shapes of the bounds with one highest and one zero cell, and every cell of larger grids for the neighbours",
  "the test partitions one recorded spectrum without comparing basins; order of equal energies and wrapping across north decide",
  ["src/tools/analysis.rs"], [("basins", "watershed"), ("neighbours", "nearest_neighbors")],
  "analysis", "h_an_neighbors h_an_basins h_an_basins_shape h_an_basins_large h_an_basins_wide h_an_blur", "six grids with watersheds up to ten cells wide with one cell free within a few levels; four blurred grids up to 9x8 and 5x12 with one free cell; six grids of many peaks up to 36x8 and 20x20 in 30 to 255 steps with one cell free within a few levels; grids 2x2, 2x3, 3x2, 5x1, 1x5 (thorough up to 3x3 and 4x2) in three levels, every other energy any real in [0, 1]; neighbours for widths 2 to 5 and heights 3 to 5 (thorough to 9 and 8)", thorough="h_an_basins_deep")

p("C16", "Monotone interpolation passes its points and never overshoots",
  "Cubic interpolation passes through its points, keeps the boundary values outside and lies between the values of its two neighbouring points inside. Around a circle it passes its points, is the same at 0 and 360 degrees and lies between the values of the neighbouring points also across north.",
  "inputs", "every set of values at the spacings of the bounds, and every place between the points for the data sets of the bounds",
  "the tests interpolate three data sets at a few places; overshoot shows only for steep data next to flat data or unequal spacing",
  ["src/tools/interpolation.rs"], [("cubic interpolation", "PchipInterpolator"), ("around a circle", "circular_pchip_interpolate")],
  "analysis", "h_in_knots h_in_between h_in_sweep h_in_long h_in_circular", "values any real in [-100, 100] with up to four spaced points at five fractions of a segment; any place for six data sets of four and three of twelve points; circles of one to four directions at three fractions, and of 24 directions at any place of eleven segments (real arithmetic)")

p("C17", "Marginals and moments of a spectrum are the integrals of its cells",
  "A spectrum holds one energy per frequency and direction, frequencies running fastest. Its bandwidths are the spacings of its bins, its energy per frequency (per direction) is the integral over the directions (frequencies), and its moments weight that integral with powers of frequency or of the sine and cosine of direction. Its energy range covers and attains its energies.",
  "inputs configurations", "every grid of energies on the frequency and direction axes of the bounds",
  "the tests integrate recorded spectra and compare one number; an exchanged stride or bandwidth shows on non-square grids only",
  ["src/spectra.rs"], [("layout", "Spectra::energy_at, energy_indices"), ("marginals", "Spectra::oned"), ("moments", "Spectra::mom_f, mom_d"), ("bandwidths", "Spectra::dk, dth")],
  "spectra", "h_sp_marginals h_sp_full h_sp_moments h_sp_range", "energies any double in [0, 100]; three frequency axes (2 to 4 bins) times four direction axes (3 to 6 bins, ascending and descending); moments -1 to 2 and 0 to 2; a grid of 25 by 24 (thorough 29 by 36 and 47 by 36) of which three energies are free")

p("C18", "Directions of a spectrum are headings waves come from",
  "Whatever convention a spectrum stores its directions in, its directions in degrees and radians are compass headings within one turn that denote the stored directions, its raw directions are the stored ones, and its periods are the reciprocal frequencies. The mean direction of a frequency whose waves come from one direction, or two neighbouring ones, lies at or between these, also across north.",
  "inputs configurations", "every direction and frequency in each of the three conventions; every energy of the waves of each bin and neighbouring pair of bins",
  "the tests use spectra in one convention; errors of a half turn or of sense appear only in the others",
  ["src/spectra.rs", "src/units/direction.rs"], [("directions", "Spectra::direction_deg, direction_rad"), ("mean direction", "Spectra::mean_wave_direction_f")],
  "spectra", "h_sp_directions h_sp_mean_direction", "stored directions any double in [0, 2 pi), frequencies in [0.01, 1]; mean directions over six directions and two frequencies, energies any real in [0.01, 100] (real arithmetic, trigonometric functions as uninterpreted functions with their algebraic facts)")

p("C19", "Looking up a spectrum between its bins is bilinear and wraps at north",
  "A fractional bin number gives the frequency and direction between its two bins, clamped to the axis. The bins around a frequency or direction are the two it lies between; directions wrap around and frequencies outside the axis use the last bin. Energy at any frequency and direction is bilinear between the four bins around it, exact at the bins, across north too, and constant outside the frequencies.",
  "inputs", "every ascending axis, every fractional index and frequency and direction within the bounds",
  "no existing test looks up energies; first and last bins, whole numbers and the sector across north decide",
  ["src/spectra.rs"], [("fractional bins", "Spectra::ik, ith"), ("bins around", "Spectra::closest_k, closest_th"), ("energy between bins", "Spectra::interp_energy")],
  "spectra", "h_sp_index h_sp_closest h_sp_closest_full h_sp_interp h_sp_interp_any", "axes of 2 to 5 bins (thorough 2 to 7), of different lengths, with any spacing; energies any real in [0, 100] at two places of every cell, and any place of the cells of six grids, lookups in twelve cells of a 29 by 36 grid (real arithmetic)")

p("C20", "Splitting a spectrum into components loses and invents nothing",
  "Splitting a spectrum by a labelling gives one spectrum per label on the same grid in which the cells with that label carry their energy and all others none, so that the components add up to the spectrum; a limit gives that many components: the first ones, and empty ones beyond the last.",
  "inputs", "every labelling of the cells, every energy and every limit",
  "no existing test checks the split energies; an index taken in the wrong order shows only for labellings that are not symmetric",
  ["src/spectra.rs"], [("split", "Spectra::split_from_components")],
  "spectra", "h_sp_split h_sp_split_many", "six cells, up to four labels, limits up to six, also beyond the labels; twelve components on 5 by 6 cells with two free labels; energies any double in [0, 100]")

p("C21", "Regridding a spectrum keeps its bins and invents no energy",
  "Resampling a spectrum to its own bins keeps every energy and labels the directions as headings. Under the lowest frequency there is no energy, over the highest the last bin counts, and between the bins energy is never negative and lies among the energies of the four bins around, in every convention and for ascending and descending directions.",
  "inputs configurations", "every energy in the bins of one direction at a time, for the grids and targets of the bounds",
  "the test regrids one recorded spectrum and compares totals loosely; conventions other than its own and the lowest bin are not sampled",
  ["src/spectra.rs", "src/tools/interpolation.rs"], [("regridding", "Spectra::interpolate_to_grid")],
  "spectra", "h_sp_regrid h_sp_regrid_between h_sp_regrid_large", "one free energy on 12 by 10 bins; energies of one direction any real in [0, 100] with fixed ones elsewhere; two frequency axes, two direction axes, three conventions, four targets between the bins (real arithmetic)")

p("C22", "Swell heights, periods and energies are those of the components' own cells",
  "The significant height of a spectrum is four times the root of its integral over frequency and direction (with a high-frequency tail of at most a quarter of the last bin), that of a component the same over the cells of its label; its peak period is that of its most energetic frequency, its density there the top of the parabola through that and the neighbouring frequencies, and its energy follows from height and period. Components carry their label, appear once, from most to least energetic; only components under ten centimetres are left out; squared heights add up to the total and energies to the summary's. Four times the energy doubles the heights and changes no period.",
  "inputs configurations", "every energy of one or two cells at a time on the grids and labellings of the bounds",
  "the tests compare one height of a recorded spectrum loosely; a bandwidth taken from the neighbouring bin changes heights by a few percent",
  ["src/tools/waves.rs", "src/spectra.rs"], [("integration of the components", "pt_mean"), ("components of a spectrum", "Spectra::swell_data")],
  "components", "h_pt_total h_pt_components h_pt_additive h_pt_scale h_pt_density h_pt_large", "a spectrum of 25 by 24 of four systems with one free cell; four grids of 2 to 4 geometric frequencies and 2 to 4 uniform directions, four labellings; energies of one or two cells any real in [0, 100], the others fixed (real arithmetic)")

p("C23", "The direction of a swell component is where its waves come from",
  "The mean direction of a spectrum, and of a component, whose waves come from one direction or two neighbouring ones lies at or between these, to the whole degree, on the compass and across north, in every convention. Depth and wind change neither height, period nor direction of any component.",
  "inputs configurations", "every energy of the waves of each direction and neighbouring pair of directions, and every energy of one cell for depth and wind",
  "the tests compare one direction of one convention; a half turn or reversed sense appears only in the others",
  ["src/tools/waves.rs", "src/spectra.rs"], [("mean direction", "pt_mean"), ("components of a spectrum", "Spectra::swell_data")],
  "components", "h_pt_direction h_pt_wind h_pt_large", "four systems on 25 by 24 cells with one free cell; six directions (also on the axes), two frequencies, three conventions; energies any real in [1, 100]; any depth of 0.3 to 500 m, any wind speed to 60 m/s and any wind direction, one at a time (real arithmetic)")

p("C24", "Tracked components keep their identity through time",
  "Tracking swell components keeps every component in place and unchanged and gives each an id, unique within its time step. Ids of the first step are kept. A later component carries the id of its closest candidate of the step before (closest in turn and in change of period against the expected one) among those within the allowed turn, also across north; of several followers the closest keeps the id, and one that follows none gets an id never used before, also after a step without components. A single step is returned as it is.",
  "inputs histories", "every direction and period of up to three components in two time steps and of one component per step in three",
  "the test tracks one recorded day and prints it; directions on both sides of north, empty steps and two followers of one component decide",
  ["src/tools/waves.rs"], [("tracking", "track_partitions, match_consecutive_partitions"), ("expected change of period", "dfp_swell_sea")],
  "tracking", "h_track_two h_track_three h_track_few h_track_long", "six steps of up to four components with one free heading or period; two steps of up to 3 and 2 components (thorough 2 and 3) with one free direction each and every period in 2..25 s, three steps with one free direction each; time steps of 15 min to 3 h, allowed turns 20.5 to 90 degrees, three distances (real arithmetic); candidates whose period changed more than about 900 times the expected amount may be left alone")

p("C25", "Wavenumbers, lengths and celerities obey linear wave theory",
  "The wavenumber of a wave of any frequency over any depth satisfies the dispersion relation to one percent, by either approximation and by iteration, which converges; length and celerity follow from it, a wave runs its length in a period, and its group velocity is the one that linear theory gives for it. In deep water the celerity is g over 2 pi f. Energy, spectral moments, steepness coefficient and the rate at which a swell's frequency changes follow their formulas.",
  "inputs", "every depth and wave period within the bounds",
  "the tests compute a few waves; a wrong term is invisible in the depths where it vanishes",
  ["src/tools/waves.rs"], [("wavenumber", "wavenuma, wavenu3"), ("length by iteration", "ldis"), ("length and celerity", "wavelength, celerity"), ("energy and moments", "wave_energy, zero_spectral_moment, second_spectral_moment, steepness_coefficient"), ("frequency change", "dfp_swell_sea")],
  "waves", "h_wave_number h_wave_length h_wave_eckart h_wave_solved h_wave_deep h_wave_tracks", "relative depths w^2 h/g from 0.01 to 40, cut into 50 slices each decided whole; depths from 1 to 400 m (iteration: three depths, thorough six); frequencies 0.02 to 2 Hz in deep water (real arithmetic; queries over one or two inputs are decided by interval branch and prune, the others by z3 and cvc5)")

p("C26", "Waves nearing a beach turn, shoal and break by their angle to it",
  "Refraction follows Snell's law, keeps a wave on its side of the normal and keeps the energy between two rays; shoaling keeps the energy flux. A swell breaks on a beach exactly when it comes from within 90 degrees of the beach's facing, also across north, with a height that depends on that angle only and is not negative; height and depth of breaking are those of the refracted deep water height.",
  "inputs", "every wave length, depth and angle within the bounds, every swell direction for the beaches of the bounds",
  "the tests compute one beach; the sign of the angle and the beaches that face near north decide",
  ["src/tools/waves.rs"], [("refraction", "refraction_coefficient"), ("shoaling", "shoaling_coefficient"), ("breaking waves of a swell", "estimate_breaking_wave_height, break_wave")],
  "waves", "h_wave_refract h_wave_shoal h_wave_beach h_wave_breaking", "lengths 1 to 500 m, depths 0.1 to 200 m, angles -89 to 89 degrees; beaches facing six directions (thorough 24) with three depths and slopes, every whole swell direction, heights 0.1 to 10 m (real arithmetic)")

p("C27", "Mirrored swell components are those with a twin from the opposite side",
  "A component is a probable mirror image exactly when the first component listed with its period (to a tenth of a second) is another one and comes from the opposite direction, within ten degrees of 180, across north too; components without a direction neither are nor have one. Filtering removes exactly these and keeps the others in their order. A swell carries the values and units it is given, and a summary and its components convert their heights together, keeping periods, directions and energies.",
  "inputs", "every direction of up to four components with the period patterns of the bounds, every height, period, direction and energy of a swell",
  "the one test of mirrored components uses one fixed set; opposite pairs across north, missing directions and the order of what is left decide",
  ["src/swell.rs"], [("mirrored components", "SwellSummary::probable_false_components"), ("filter", "SwellSummary::filtered_components"), ("construction and conversion", "Swell::new, UnitConvertible for SwellSummary")],
  "swells", "h_sw_mirror h_sw_mirror_many h_sw_units_many h_sw_new", "one to four components in eight patterns of equal and different periods, at most one without direction, every whole direction 0 to 360, and nine components in three patterns with two free directions; up to twenty components for the units; heights to 100, periods to 40, every unit system")

p("C28", "A row of a wave buoy's feed becomes the record it says",
  "A row of a buoy's wave summary is a record exactly when its first five columns are a date; the record then has that date and each reading of its column, in metres, seconds and compass degrees, MM meaning no reading in that column only. Its swell summary is the sea state, with swell and wind waves as components, and other units convert its heights only. A row of any feed that ends early or has no date is an error, never a panic; of a text all rows with a date become records, in order.",
  "inputs", "every digit of every date and reading of a row, every choice of one missing column, any two characters in each place of the date, and every length of row",
  "the tests parse recorded rows and look at one or two fields; columns that are seldom read, the end of the month and damaged rows are not sampled",
  ["src/data/wave_data_record.rs", "src/data/parseable_data_record.rs", "src/swell.rs"], [("rows", "WaveDataRecord::from_data_row"), ("missing readings", "DimensionalData::from_raw_data"), ("texts", "WaveDataRecordCollection::records"), ("dates", "parseable_data_record")],
  "records", "h_rec_wave h_rec_sparse h_rec_short h_rec_text h_rec_long", "heights and periods of one or two digits before and one or two behind the point, first digit not zero except next to the missing column; ten dates with any two digits as day, hour and minute; five compass points; two-row texts of the four feeds; rows with or without any one or two readings, in the four unit systems; texts of 45 and 70 rows")

p("C29", "A row of weather readings becomes the record it says",
  "A row of a station's meteorological feed, or of the latest observations of all stations, is a record exactly when its date columns are a date; each reading is that of its own column with its sign, in the unit the feed uses for it, MM meaning no reading. The place and name of a latest observation are those of its row. Its sea state has its wave height, dominant period and mean direction. Other units convert every speed, height, pressure, temperature and distance and leave periods and directions.",
  "inputs", "every digit of the date, place and readings of a row, every choice of one missing column",
  "the tests parse recorded rows and look at a few fields; both feeds order their pressure, temperature and tide columns differently",
  ["src/data/meteorological_data_record.rs", "src/data/latest_obs_data_record.rs"], [("rows", "MeteorologicalDataRecord::from_data_row, LatestObsDataRecord::from_data_row"), ("other units", "UnitConvertible")],
  "records", "h_rec_met h_rec_latest h_rec_sparse h_rec_long", "readings with the digits of the feeds, first digit not zero except next to the missing column, with and without signs; any day, hour and minute for four months and any minute for the other cases; one of the two directions any whole degree of one decade; rows with or without any one or two readings, in the four unit systems; texts of 45 and 70 rows")

p("C30", "Spectral rows become spectra whose directions share each frequency's energy",
  "A row of spectral values is a record exactly when it begins with a date; its values and frequencies pair up in order, after the separation frequency if there is one. Joined with mean directions and spreads it is a directional spectrum of the given axes: the energy of a frequency spreads by the two-term cosine series around its mean directions, lobes that would be negative are empty, so no energy is negative and none is lost, and the directions' energies add up to the frequency's where no lobe is cut. A frequency with a missing reading has no energy.",
  "inputs", "every digit of the dates, values and frequencies; every energy and spread for the directions of the bounds, and every mean direction",
  "the tests join one recorded set of files and print it; the second term, cut lobes and missing readings are not compared",
  ["src/data/spectral_wave_data_record.rs", "src/data/directional_spectral_wave_data_record.rs"], [("rows", "SpectralWaveDataRecord::from_data_row"), ("directional spectrum", "DirectionalSpectralWaveDataRecord::new, from_data_records")],
  "records", "h_rec_spectral h_rec_directional h_rec_directional_large h_rec_angle", "46 frequencies and 36 directions with one energy and one coefficient free and five missing readings; rows of 0, 1, 2 and 4 values with and without separation frequency; spectra of two frequencies and 3, 4 or 6 directions with five pairs of mean directions, any energy to 500 and first and second spread to 1; any mean direction for four bins (real arithmetic)")

p("C31", "A forecast's point spectra are read bin by bin",
  "The header of a spectral forecast gives the number of frequencies and directions, which follow, however they are broken into lines, the directions as compass headings waves come from (to one degree). Then each record is a date, a place with depth, wind and current, and one energy per bin, frequencies running fastest. All records of a file keep the first one's date as reference; a record without a date or one cut short by the end of the file is not delivered and does not disturb the others. Other units convert depth and speeds.",
  "inputs", "every digit of the header's frequencies and one of its directions, of dates, places, winds and currents and of the energies",
  "the tests read recorded files with one number of bins per line; non-square grids and truncated files are not sampled",
  ["src/data/forecast_spectral_wave_data_record.rs"], [("header", "ForecastSpectralWaveDataRecordMetadata::from_str"), ("records", "ForecastSpectralWaveRecordIterator"), ("collection", "ForecastSpectralWaveDataRecordCollection::records")],
  "forecasts", "h_fc_header h_fc_records h_fc_cut h_fc_large", "three spectra of 29 by 36 in a file with five free energies; four grids of 1 to 4 frequencies and 1 to 4 directions with 1 to 8 numbers per line; numbers of three digits, first not zero; two records per file, the second later or earlier than the first; a file cut after each of its lines")

p("C32", "A bulletin's rows are dated after its cycle and keep each component",
  "The rows of a wave bulletin give day and hour: a day before the cycle's day is one of the next month, also over the new year; rows without a date or with an incomplete component are errors, not records. The height and each component's height, period and direction are those of the row, in feet, each component with the energy of its metric height and period; the first component dominates the summary, and a row without components has none. The bulletin's place has the signs of its hemispheres, its cycle is the date it says, and records are delivered in metric units.",
  "inputs", "every digit of day and hour, heights, periods and directions, place and cycle",
  "the tests read one bulletin of one month; the turn of the month and year, southern and western places and rows without components are not sampled",
  ["src/data/forecast_cbulletin_wave_data_record.rs"], [("rows", "ForecastCBulletinWaveRecord::from_data_row"), ("header", "ForecastCBulletinWaveRecordMetadata"), ("records", "ForecastCBulletinWaveRecordCollection::records")],
  "forecasts", "h_fc_row h_fc_bulletin h_fc_bulletin_long", "bulletins of 180 rows with free digits in three; cycles in six months, any four digits as day and hour, rows of up to three and of six components with two-digit heights and periods (real arithmetic); four bulletins of four rows")

p("C33", "Rows of a GRIB index become the messages they list",
  "A row of a GRIB index is a record exactly when it has a number, an offset, a date and hour, a variable, a level and a time; the record has those values, whatever follows. Rows that end early or whose number, offset or date is none are errors, never a panic, and of a text every other row becomes a record, in order.",
  "inputs", "every digit of numbers, offsets and dates, any two characters as an offset, every length of row",
  "the test reads one recorded index and counts its rows; dates at the end of months, damaged rows and trailing columns are not sampled",
  ["src/data/grib_index_record.rs", "src/data/parseable_data_record.rs"], [("rows", "GribIndexRecord::from_data_row"), ("texts", "GribIndexRecordCollection::records")],
  "feeds", "h_fd_index h_fd_index_text h_fd_short h_fd_long", "numbers of up to four and offsets of up to twelve digits, first not zero; any two digits as day and as hour in five months; texts of three and forty rows")

p("C34", "Tide predictions carry the time, height and kind of water they state",
  "Each prediction of a tide feed becomes a record, in order, with the minute it states in UTC, its height with its sign, written as text or as a number with a fraction, and high water for H, low water for L and neither without a kind. A feed with a time that is none, a height that is none, another kind of water or a missing part is an error, not a panic.",
  "inputs", "every digit of the time and height of a prediction, any two characters as a height and any letter as a kind",
  "the tests read two recorded feeds and look at a few values; negative heights, heights as numbers and malformed feeds are not sampled",
  ["src/data/tidal_data_record.rs", "src/tools/serde.rs"], [("predictions", "TidalDataRecordCollection::from_json"), ("times", "utc_date_time_from_str"), ("heights", "f64_from_str")],
  "feeds", "h_fd_tide h_fd_tide_odd h_fd_long", "two and forty predictions; any two digits as day, hour and minute in five months; heights of one digit before and three behind the point; two characters of digits, signs and points")

p("C35", "A weather forecast's periods have the readings and units they state",
  "Each period of a weather forecast becomes a record with its start and end in UTC, whatever time zone they are written in, day or night, temperature, dew point and humidity with their signs and units, the speed and unit of its wind, the first one of a range, the compass direction the wind comes from, its icon and texts. A start that is no date is an error. A grid point has the office and cell it states.",
  "inputs", "every digit of the start, readings and grid cells",
  "the tests read one recorded forecast without looking at its values",
  ["src/data/nws_weather_forecast_data_record.rs"], [("forecast", "NwsWeatherForecastDataRecordCollection::from_json"), ("grid point", "NwsGridPointData::from_json")],
  "feeds", "h_fd_nws h_fd_grid h_fd_long", "forty periods with one free digit; one period in six time zones, any two digits as day, hour and minute of a February; readings of two digits, first not zero; six compass points, units of the two systems; cells of one to three digits")

p("C36", "The polar picture of a spectrum shows the bin nearest to each pixel",
  "In the polar picture of a spectrum north is up and east is right, and a bin lies in the direction its waves come from, whatever convention the spectrum uses, at a distance from the middle that grows with the power of its period given as scale, the longest period at the rim. Each pixel has the value of the bin nearest to it; bins with periods above the limit are left out, and without bins there are no values. A map computed once gives the same picture for any values.",
  "inputs", "every period of one of two frequencies, every direction of one of two bins and every value of the bins, for the pictures of the bounds",
  "the test projects one recorded spectrum and prints it; mirrored or rotated pictures and the limit are not compared",
  ["src/spectra.rs"], [("map", "Spectra::compute_cartesian_projection_map"), ("picture", "Spectra::project_cartesian, project_cartesian_with_map")],
  "polar", "h_po_period h_po_turn h_po_values h_po_large", "pictures of 17 to 40 pixels of 200 to 240 bins with four free values; pictures of 2 to 6 pixels a side, two frequencies with one free period in 2..15 s and one to four directions, scales 1 to 3; one free direction of two, cut into 72 slices each decided whole (real arithmetic, distances to 0.01 pixels)")

p("C37", "Outlines of levels surround the cells at or above them, in place",
  "Contours of a grid of places have one entry per level, from the least to the greatest level asked for, with the level, its place between them and its label. Around a cell above the level there is one closed outline that surrounds the cell and stays within the neighbouring cells, at the longitudes and latitudes of the grid also when these descend or pass 180 degrees; below the level there is none. On a map of the globe the first column is drawn again after the last one. Contours of a spectrum have ten levels from a tenth to its greatest energy, around the periods and directions of its bins.",
  "inputs", "every value of a cell above or below its surroundings, in every place of the grids of the bounds",
  "the tests draw no contours; exchanged axes and the seam of the globe are not compared",
  ["src/tools/contour.rs", "src/spectra.rs"], [("contours", "compute_contours"), ("grid of places", "compute_latlng_gridded_contours"), ("contours of a spectrum", "Spectra::contoured")],
  "polar", "h_po_outline h_po_globe h_po_spectrum", "one cell of a grid of 4 by 3 above the level, two other cells free below it; globes of 4 by 2, 4 by 5 and 720 by 1 cells from 0 to 360 degrees; a peak in one of nine bins of 5 by 4 (real arithmetic)")

p("C38", "Stations are what their lists say and are found by their id",
  "A tide station has the place, name, state and reference of its entry, a buoy the place, name without its numbers and parentheses, and kinds of measurements of its own; a buoy that measures anything is active. A station is found exactly when one in the list has its id, the first of those. On a map a station is a point with the longitude first and the id, name and state.",
  "inputs", "every digit of the place and id of a tide station, every place and combination of measurements of a buoy",
  "the tests parse one station and one list and look up one; southern and eastern places and partly active stations are not sampled",
  ["src/tide_station.rs", "src/buoy_station.rs"], [("tide stations", "TideStations::from_raw_data, find_station_by_id"), ("map", "Into<Feature> for TideStation"), ("buoys", "BuoyStations::from_raw_data, is_active")],
  "stations", "h_st_tides h_st_buoys h_st_many", "lists of forty stations with one free digit; lists of two stations, ids with two free digits, places of two digits with two or three behind the point, first not zero, and every sign")

p("C39", "Addresses of data name the station, days, cycle and cell asked for",
  "The address of tide predictions has the station, the first and last minute in UTC, datum, interval and units asked for. Addresses of weather forecasts have the office and cell; addresses of model output, bulletins and spectra the date and hour of the cycle, with leading zeros, the region and output hour and the host of the source. Constraints of an address read back as they were.",
  "inputs", "every minute of the months of the bounds, every cell and constraint of the bounds",
  "the tests build a few addresses of one date; leading zeros, order of days and other sources are not sampled",
  ["src/tide_station.rs", "src/weather.rs", "src/model/gfswave.rs", "src/model/gefswave.rs", "src/model/nwps.rs", "src/buoy_station.rs", "src/tools/dap.rs"], [("tide predictions", "TideStation::tidal_data_url"), ("forecasts", "create_gridpoints_url and others"), ("model output", "GFSWaveModel, GEFSWaveModel and NWPSModel create_url"), ("bulletins and spectra", "BuoyStation::gfswave_bulletin_data_url, gfswave_spectral_data_url"), ("constraints", "DapConstraint")],
  "stations", "h_st_tide_url h_st_weather h_st_model_url h_st_dap", "any minute of six months (the last day of a tide address any of 28); cells up to 340; up to two ranges with indexes up to 12; six output hours, three sources")

p("C40", "Outputs of a model and their hours correspond both ways",
  "The outputs of a model start with its run, follow each other in the steps of the model before and after the hour where these change, and every hour belongs to the last output not after it. A range of hours has all outputs from the one of its first hour to the one of its last, in order.",
  "inputs", "every output, every hour and every hour of change that is a multiple of three",
  "no test looks at the hours of outputs beyond a few",
  ["src/model/noaa_model.rs"], [("hours and outputs", "ModelTimeOutputResolution::hour_for_index, index_for_hour"), ("ranges", "hours_for_index_range, hours_for_hour_range")],
  "stations", "h_st_hours h_st_ranges", "outputs 0 to 400, hours of change 0 to 240, the four kinds of steps; ranges that start in 0..12 and are up to 6 long")

p("C41", "The sun rises and sets around the noon of the place",
  "The sun rises before and sets after noon of the day asked for at the longitude of the place (twelve hours less its longitude at fifteen degrees an hour, to eighteen minutes), whichever hour of the day is given, in either longitude convention. Between them lies the daylight that the latitude and the sun's declination give, long in summer and short in winter of either hemisphere. There are no events off the globe, nor where the sun stays up or down all day.",
  "inputs", "every place of the inhabited latitudes and of the polar caps at the solstices",
  "the test asks for one town in July and looks at the dates only; the southern hemisphere, unsigned longitudes and the polar night decide",
  ["src/solar.rs", "src/location.rs"], [("events", "calculate_solar_events"), ("coordinates", "Location::relative_latitude, relative_longitude")],
  "suns", "h_sun_noon h_sun_day h_sun_longitude h_sun_polar", "six days between 1999 and 2030; latitudes -65 to 65 (in bands of five degrees, daylight to eight minutes) and beyond 68, every longitude; four latitudes for the two longitude conventions; every moment of the six days at six places (real arithmetic)")

p("C42", "Readings, bearings and components print and serialise faithfully",
  "A present reading prints its value (fractions with one decimal) followed by the label of its unit, a bearing its degrees and compass sector, a swell component its height, period and bearing; a missing reading prints as not available, has no text and no value. A number in text becomes a reading of that number and any other text a missing one. As JSON a reading carries its value or null, its name, unit and label; a reading and a swell summary written as JSON read back with the same values, units, bearings and component numbers.",
  "inputs", "whole readings of every unit, every whole-degree bearing of the compass, present and missing values, components with and without energy and density",
  "one test serialises one reading; a label, sector or optional field that goes wrong shows only for that unit, bearing or combination",
  ["src/dimensional_data.rs", "src/swell.rs", "src/units/direction.rs", "src/units/mod.rs"], [("texts", "DimensionalData Display, try_string, unit_label; Swell and Direction Display"), ("numbers from text", "DimensionalData::from_raw_data, get_value, get_value_opt"), ("JSON", "DimensionalData Serialize; Swell and SwellSummary Serialize, Deserialize")],
  "readings", "h_re_text h_re_number h_re_bearing h_re_json h_re_json_swell", "whole readings from -120 to 120 (10 to 120 as JSON) of all twenty units, whole-degree bearings from 0 to 360, texts of two digits and one decimal; fractions printed with one decimal are ten fixed numbers (printing a symbolic double cannot be encoded)")

p("C43", "Values of model messages belong to the place asked for",
  "The values of a message near a place are those of all cells whose latitude and longitude differ from the place's by the tolerance at most, in the order of the grid, without the missing ones; both longitude conventions of place and grid give the same. A place off the grid is an error. The record of a place takes height, period and direction of the sea, wind and components each from its own message, whatever order these come in: a component needs all three values, the highest comes first, and without the sea state there is no record.",
  "inputs", "every place on and around three grids, every value of the messages of a place",
  "no test queries a message near a place; rows in descending order, unsigned longitudes, missing cells and incomplete components are not sampled",
  ["src/model/noaa_model.rs", "src/data/gfs_wave_grib_point_data_record.rs"], [("cells near a place", "NOAAModel::query_location_tolerance"), ("record of a place", "GFSWaveGribPointDataRecord::from_messages")],
  "models", "h_md_tolerance h_md_point", "grids of 3 by 4 cells, east and west of Greenwich, rows in either order, with one or no missing cell, two tolerances, every place up to a degree off the grid and not within 1e-6 of an edge (real arithmetic); ten to twelve messages of one place in two orders", note="The reader of GRIB files is a stand-in (stubs/gribberish): messages are given, not decoded.")

p("C44", "A record of a dataset has the values of its time",
  "A dataset of spectra has one record per time, in order, with the date of the time and, for each of the frequencies, the density, directions and coefficients that the dataset has for that time and frequency. Times whose values are cut off have no record. A dataset of observations has one record per time with the reading of each variable in its unit; a reading is missing exactly when it is the number that stands for missing in that variable (99, 999 or 9999).",
  "inputs", "every frequency, value and time of a day in the datasets of the bounds, every reading of a variable",
  "no test reads such a dataset; times and frequencies exchanged, a variable in the place of another, or 99 degrees or 999 hectopascals taken for missing are not sampled",
  ["src/data/swden_wave_data_record.rs", "src/data/meteorological_data_record.rs", "src/tools/math.rs"], [("records of spectra", "SwdenWaveDataRecordCollection::records"), ("records of observations", "StdmetDataRecordCollection::records, is_some_missing")],
  "models", "h_md_swden h_md_stdmet", "one to three times and one to four frequencies and six times of 46 frequencies, up to forty observations, complete or without the last value; half of the spectral values free by a common offset, one observation of each variable free from -60 to 1100 (directions 0 to 360) but not within 0.001 of its missing number; the last time any second of a day", note="The reader of DODS files is a stand-in (stubs/readap): variables are given, not decoded.")

p("C46", "Observations keep their readings in tables and on maps",
  "As a table of readings an observation has its date in seconds and every reading but the pressure tendency under its name, with its value, or none, and unit; as a table of texts the text of each reading, and none for missing ones. On the map of stations each station is at its own place, longitude first, and has the latest observation with its id, if there is one, with the date and exactly those readings that are present.",
  "inputs", "every value of a reading, every missing reading, every place of a station",
  "no test makes a table or map of observations; a reading under another's name, a missing one or another station's observation is not sampled",
  ["src/data/meteorological_data_record.rs", "src/data/latest_obs_data_record.rs", "src/buoy_station.rs"], [("tables", "From<MeteorologicalDataRecord> for HashMap"), ("map", "latest_obs_feature_collection")],
  "models", "h_md_table h_md_texts h_md_map", "one missing reading of fourteen and one free; texts of whole numbers; three stations and three observations, one of them of no station; directions of whole degrees")

p("C47", "The sea state of a spectral record is that of its spectrum",
  "The swell summary of a buoy's directional spectrum or a forecast's point spectrum has the significant height of that spectrum, whatever depth, wind or unit system the record has, or without a wind. Its components are basins of the partitioned spectrum, each at most once, with the height and peak period of the basin's own cells, and every basin of ten centimetres is one: separate wave systems appear as separate components with their periods and directions, and the energies add up to the summary's.",
  "inputs configurations", "every energy of one cell that keeps its level, for the spectra of the bounds",
  "the tests look at the first component of recorded spectra with tolerances; that partition, axes and components belong together is not compared",
  ["src/data/directional_spectral_wave_data_record.rs", "src/data/forecast_spectral_wave_data_record.rs", "src/spectra.rs", "src/tools/analysis.rs", "src/tools/waves.rs"], [("summaries", "DirectionalSpectralWaveDataRecord::swell_data, ForecastSpectralWaveDataRecord::swell_data"), ("partition", "Spectra::partition")],
  "components", "h_pt_records", "three systems on 12 by 12, 8 by 24 and 15 by 8 cells, blurred (buoys) and not (forecasts), one of three cells free within its level (real arithmetic)")

na("C45", "Values between the cells of a model message", "The value of a model message at a place lies between those of the cells around the place, and contours of a message surround its cells.",
  "inputs", "every place and grid", "no test queries a message between its cells",
  ["src/model/noaa_model.rs"], [("nearest, interpolated and contoured values", "NOAAModel::query_location_data, interp_location_data, contour_data")],
  "The code indexes the latitude and longitude vectors of the projector of gribberish, a git dependency whose source is not in this sandbox and which is left out of the official build; whether these are axes or one entry per cell, and where start and end lie, cannot be told from here, so any stand-in would decide the property by assumption. The interpolation and contour code these call is decided in C13 and C37.")
