# id -> (what is executed symbolically, oracle, why this reaches what the tests cannot)
O = {
"C01": ("load() -> rinexobs2 on rendered RINEX 2 OBS files", "per (epoch, satellite, type) the term printed in its field, NaN where blank; the set of epochs, satellites and variables; nothing else in the data set", "each digit, sign, blank pattern and the layout (continuation of types after 9, of data after 5, of satellites after 12; any order and number of satellites) is covered instead of ten sample files"),
"C02": ("load() -> rinexobs3 on rendered RINEX 3 OBS files", "as C01, with one list of codes per system", "as C01"),
"C03": ("load() -> rinexnav2 on rendered GPS, GLONASS and Galileo files", "per (time, satellite, parameter) the printed term, times 1000 for GLONASS positions, velocities and accelerations; NaN where blank", "every field, sign, exponent and blank pattern; several satellites at one time in any order"),
"C04": ("load() -> rinexnav3", "as C03 per system's own list of parameters; spare fields when printed; several records of one satellite at one time get names of their own (`_1`, ...)", "optional and spare fields printed, blank or cut off, in each system and mixture"),
"C05": ("load() -> load_sp3", "position, clock, velocity, clock rate of every satellite and epoch, NaN where no record gives them; header facts", "satellite lists over several lines, records of any satellite, presence of velocities per satellite"),
"C06": ("load() and gettime() of each format", "the time coordinate equals the microsecond count computed by z3 integer arithmetic (days from civil, two-digit years, leap years, fraction rounding, SP3 second 60); impossible dates give no epoch", "all digits of a date at once: a solver finds 29 February, 60 seconds, 1999/2000 and rounding ties that samples miss"),
"C07": ("load(tlim=...) in every format and both OBS 2 modes", "the epochs of the unrestricted read with start <= t <= stop, decided by z3 over symbolic times and bounds, with their values", "times equal to a bound, sub-second differences, records out of order"),
"C08": ("load(interval=...)", "the grid rule (first epoch, then the first at or after each multiple of the interval) over symbolic times and a symbolic interval", "all relations of gaps and interval"),
"C09": ("load(use=...)", "the unrestricted read restricted to the systems selected", "satellite systems symbolic per slot, every selection"),
"C10": ("load(meas=...)", "the unrestricted read restricted to the codes that start with a selected name, in header order", "every choice of codes and prefixes, each position in the header"),
"C11": ("load(useindicators=True)", "LLI and SSI variables hold the digit printed next to the observation of that satellite and epoch; NaN where blank; none for the kinds that have none", "indicator columns present/blank independently of the observation"),
"C12": ("gettime() against load()", "the list of epochs printed in the file (each once, in order), whatever is between them", "symbolic times; layouts with continuation lines of every length"),
"C13": ("load(fast=True) against load(fast=False)", "the two data sets are equal term by term, attributes included (except the mode itself)", "each option combination; the two runs share one symbolic input"),
"C14": ("rinexheader(), load().attrs", "version, type, system, position, interval, first/last observation time, ionospheric and time system coefficients, receiver, observation types equal what was printed", "presence patterns of optional records, repeated and continued records, symbolic text"),
"C15": ("rinexinfo(), rinex_version, load()", "a table from first-line content to kind, version, system, or ValueError", "all letters in the type, system and version columns as z3 characters"),
"C16": ("load(), rinexheader(), gettime() on containers written with the standard libraries", "equality with the read of the plain text", "every combination of container, suffix, Hatanaka, line end; symbolic digits"),
"C17": ("load(out=...), histories of writes and reads on one file", "what is read back equals what the writing call returned, and earlier reads keep their values; refused writes leave the file alone", "histories are enumerated by a symbolic choice; values symbolic"),
"C18": ("batch_convert()", "the set of output files and their contents equal one load(out=...) per readable matching file", "directories with files of any kind in any position"),
"C19": ("keplerian2ecef()", "the IS-GPS-200 user algorithm as an identity over the reals; residual of Kepler's equation <= 1e-12; GLONASS/SBAS coordinates passed through", "all elements, weeks and times at once; the tests hold one satellite to 4 digits"),
"C20": ("get_locations()", "one row per readable input with a position: latitude and longitude of its own position (ecef2geodetic uninterpreted), its interval, its name; order kept", "every order of inputs of each kind"),
"C21": ("histories of two or three reading calls", "each call equals the same call made first in a fresh package", "histories by symbolic choice: caches, moved stream positions, altered arguments or results"),
"C22": ("load(), gettime() on files with event records, junk, cut-off ends", "the data of the file without them", "junk of symbolic characters, a cut at each column"),
"C23": ("load() with a symbolic amount of available memory", "refused (RuntimeError) iff the arrays need more than half of it; otherwise the same data", "both sides of the limit decided for every amount"),
"C24": ("the plotting functions and the programs plot, loc and read -p, with the real matplotlib (Agg), whose artists are read afterwards", "the values, times and positions written into the file; the conversion to geodetic coordinates is an opaque function whose arguments are compared; tracks of Kepler elements: keplerian2ecef (C19) of the records of that satellite alone", "which records belong to which satellite, and missing values, are all explored"),
"C26": ("the programs read, time and rinex2hdf5 run with symbolic choices of their command line; globber()", "what the library call with those options returns or writes; time: first, last, number and interval of gettime() and the header", "option combinations and file contents at once"),
}
