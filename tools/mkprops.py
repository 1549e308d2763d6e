#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(qtext.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": ["src/georinex/" + f for f in files],
        "state": [dict(name=a, meaning=b, where="src/georinex/" + c) for a, b, c in state],
        "mechanism": [dict(name=a, where="src/georinex/" + b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "RINEX 2 OBS values are returned exactly as printed",
  """Loading a well-formed RINEX 2 observation file returns, for every epoch, satellite and observation
  type, exactly the number printed for it, and NaN where the field is blank; nothing is lost, invented, or
  attributed to another epoch, satellite or type. This holds whatever the number of observation types (header
  and data continuation lines), the number of satellites per epoch (satellite-list continuation lines), the
  constellations and satellite numbers present, blank-means-GPS satellite letters and system field, and
  lines whose trailing blanks were trimmed.""",
  ["inputs"], """every digit and sign of every observation, every blank/present pattern, every satellite number
  1..58 and constellation letter G,R,E,S,C,J, 1..20 observation types, 1..37 satellites in an epoch""",
  """the tests compare a handful of cells of about ten sample files; the layout arithmetic (column slices,
  5-per-line and 12-per-line continuation, satellite-number indexing) is only exercised for those shapes and digits""",
  ["obs2.py", "base.py"], [("rinexsystem2 column slicing and scatter into the data cube", "obs2.py"),
   ("_getsvind/_getSVlist satellite list with continuation", "obs2.py"), ("obsheader2 types of observation", "obs2.py")],
  [("data[page, time, sv-1]", "dense cube the fields are scattered into", "obs2.py")],
  ["load()", "rinexobs()"])
p("C02", "RINEX 3 OBS values are returned exactly as printed",
  """Loading a well-formed RINEX 3 observation file returns, for every epoch, satellite and observation code
  of that satellite's system, exactly the number printed for it, and NaN where the field is blank; nothing
  is lost, invented, or attributed to another epoch, satellite or code. This holds whatever the number of
  codes per system (header continuation lines), the mix of systems with different code lists, the number of
  satellites per epoch up to the three-digit count the format allows, and lines whose
  trailing blanks were trimmed. Where the epoch lines print receiver clock offsets, those of the returned epochs are
  listed as the time_offset attribute.""",
  ["inputs"], """every digit and sign of every observation, every blank/present pattern, systems
  G,R,E,C,J,S,I in any mix, satellite numbers 01..99, 1..30 codes per system, 1..102 satellites in an epoch""",
  """the tests look at a few cells of three or four sample files with at most a couple of hundred epochs of one layout""",
  ["obs3.py", "base.py"], [("rinexobs3 epoch loop", "obs3.py"), ("_epoch fixed-width block parse and merge", "obs3.py"),
   ("obsheader3 SYS / # / OBS TYPES", "obs3.py")], (), ["load()", "rinexobs()"])
p("C03", "RINEX 2 NAV records are returned exactly as printed",
  """Loading a RINEX 2 navigation file (GPS, GLONASS or Galileo) returns every broadcast record under its
  satellite and its time of clock, with every orbit parameter under its own name equal to the printed number
  (GLONASS state vectors converted from km to m); a parameter left blank is NaN or absent, never another parameter's
  value. No value appears at a (time, satellite) for which the file has no record. (Records are taken to differ in satellite or
  time; the spare field of the Galileo orbit-5 line is outside.)""",
  ["inputs"], """every digit, sign and D/E exponent letter of every field, satellite numbers 1..32 written with blank or
  zero padding, records in any order, up to 3 records with distinct (satellite, time), trailing parameters of the last line
  missing""",
  "tests compare single records of a few sample files",
  ["nav2.py", "base.py"], [("rinexnav2 record assembly and field slicing", "nav2.py"), ("field name tables per file type", "nav2.py")],
  (), ["load()", "rinexnav()"])
p("C04", "RINEX 3 NAV records are returned exactly as printed",
  """Loading a RINEX 3 navigation file returns every broadcast record of every system (GPS, Galileo, GLONASS, BeiDou,
  QZSS, SBAS, IRNSS) under its satellite and time, with every orbit parameter under its own name equal to the printed
  number (GLONASS and SBAS state vectors in metres), whether or not the optional spare fields are present. Several
  records of one satellite at the same time are all kept (under suffixed satellite names) and no value appears where the
  file has no record. (What a field left blank reads as is unspecified; it never takes another field's value.)""",
  ["inputs"], """every digit, sign and D/E exponent letter of every field; systems G,E,R,C,J,S,I alone and mixed; the
  supported record lengths per system; up to 3 records in any time order, including equal times""",
  "tests compare a few records of sample files and never vary the order, spare-field layout and duplicates together",
  ["nav3.py", "base.py"], [("rinexnav3 record assembly, duplicate handling and merge", "nav3.py"),
   ("_fields/_sparefields per-system field layout", "nav3.py")], (), ["load()", "rinexnav()"])
p("C05", "SP3 orbits are returned exactly as printed",
  """Loading an SP3-a/c/d file returns, for every epoch and every satellite listed in its header, the printed position
  and clock, and the printed velocity and clock rate when present; every velocity or clock rate that the file does not
  give is NaN. The satellite names are those of the header in order, also when the list spans several header lines.""",
  ["inputs"], """every digit and sign of every coordinate, 1..3 epochs, satellite counts 1..40 (continuation lines),
  with and without velocity records per epoch""",
  "tests check one satellite of one epoch in each sample file and never the first epoch's missing velocities",
  ["sp3.py", "base.py"], [("load_sp3 header and record loop", "sp3.py"), ("get_sv satellite list", "sp3.py")], (), ["load()", "load_sp3()"])
p("C06", "Epoch times equal the printed date and time to the microsecond",
  """The time coordinate of every loaded epoch or record (OBS 2/3, NAV 2/3, SP3) is the date and time printed in the file:
  same year (two-digit years 80-99 are 19xx, 00-79 are 20xx), month, day, hour, minute, second, and the fraction of the
  second correct to the nearest microsecond (either neighbour at an exact tie). In SP3 files second 60, minute 60 and hour 24 mean the
  start of the following minute, hour and day. Otherwise a line whose printed date is not a valid calendar date or time of day never
  produces an epoch.""",
  ["inputs"], """every digit of the date, time and 7-digit fractional second; SP3 seconds/minutes/hours 60/60/24 rolling over""",
  "sample files hold only whole seconds of a few dates, and binary floating point only misbehaves for some fractions",
  ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "sp3.py"],
  [("_timeobs", "obs2.py"), ("_timeobs", "obs3.py"), ("_timenav", "nav2.py"), ("_time", "nav3.py"), ("sp3dt", "sp3.py")], (), ["load()"])
p("C07", "A time window selects exactly the epochs inside it",
  """Loading with tlim=(start, stop) returns exactly what loading the whole file and keeping the epochs with
  start <= time <= stop returns, for OBS and NAV files of versions 2 and 3, with the bounds given as datetimes or as
  ISO strings. Navigation records may be in any time order. (Cells that are blank in an optional or spare navigation field are outside.) A window whose stop is before its start is rejected.""",
  ["inputs"], """all epoch times and both bounds, including bounds equal to an epoch, before the first, after the last and between
  epochs; records in any order (NAV), epochs in chronological order (OBS)""",
  "tests use one window per format on one sample file",
  ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "base.py", "utils.py"],
  [("tlim tests in the read loops", "obs2.py"), ("tlim tests in the read loops", "obs3.py"), ("tlim tests", "nav2.py"),
   ("tlim tests", "nav3.py"), ("load tlim validation, _tlim parsing", "base.py")], (), ["load()", "rinexobs()", "rinexnav()"])
p("C08", "Decimation keeps one epoch per requested interval, with its own data",
  """Loading an OBS file with interval=N returns a subset of the file's epochs, each with exactly the data and time it
  has in the full load. The first epoch read, at time t0, is kept; after k epochs have been kept the next one kept is the first later
  epoch that is not before t0 + k*N, also across gaps in the data. Interval 0 or None keeps every epoch,
  and a negative interval or an unsupported type is rejected.""",
  ["inputs"], """all epoch times in chronological order (up to 4 epochs) and all intervals, as number of seconds or timedelta,
  with and without a time window""",
  "tests count the epochs left in two gap-free sample files for one interval each",
  ["obs2.py", "obs3.py", "common.py"], [("last_epoch bookkeeping", "obs2.py"), ("last_epoch bookkeeping", "obs3.py"),
   ("check_time_interval", "common.py")], (), ["load()", "rinexobs()"])
p("C09", "Constellation selection returns exactly the selected satellites",
  """Loading an OBS file (version 2 or 3) or a RINEX 3 NAV file with use= one or several system letters (a single-letter string, or a list, tuple or set of letters)
  returns exactly the satellites of those systems, each with the same times and values as in the full load, and no
  other satellite. Reading the records of unselected systems never disturbs the selected ones. Selecting only systems that a RINEX 3 OBS header
  does not declare is rejected or yields no satellite.""",
  ["inputs"], "every subset of systems for files mixing up to 4 systems in any order, with different per-system layouts",
  "tests select one or two systems in one sample file per format",
  ["obs2.py", "obs3.py", "nav3.py", "base.py"], [("iuse / skip of other systems", "obs2.py"), ("fields restricted to use", "obs3.py"),
   ("_skip of other systems", "nav3.py")], (), ["load()", "rinexobs()", "rinexnav()"])
p("C10", "Measurement selection returns exactly the selected observables",
  """Loading an OBS file (version 2 or 3) with meas= one or several codes returns exactly the observables whose name starts with
  one of the codes, each with the same values as in the full load, whatever the order of the codes, the order of
  the observables in the header and the system mix. Indicator variables follow their observable, and selecting nothing that exists yields
  no observables.""",
  ["inputs"], """every non-empty selection of codes and prefixes over headers with up to 7 types per system, several systems
  with different lists, with and without indicators""",
  "tests try a few selections on one sample file per version",
  ["obs2.py", "obs3.py"], [("fields_ind", "obs2.py"), ("sysind mask", "obs3.py")], (), ["load()", "rinexobs()"])
p("C11", "LLI and SSI indicators are returned next to their observable",
  """With useindicators=True every observation variable keeps the value it has without indicators, and the printed signal-strength
  and loss-of-lock digits appear in that observable's ssi and lli variables (lli for carrier phase only), at the same time and
  satellite, NaN where the digit is blank. (RINEX 2 signal-strength observables S1, S2 ... have no indicator variables.) No indicator is attributed to another observable, satellite or epoch.""",
  ["inputs"], "every digit/blank combination of the two indicator columns, 1..7 types including S and non-L types, several systems",
  "tests compare one stored file per version",
  ["obs2.py", "obs3.py"], [("useindicators pages", "obs2.py"), ("_indicators", "obs3.py")], (), ["load()", "rinexobs()"])
p("C12", "gettime lists exactly the epochs of the file",
  """gettime returns the times of all epochs of an OBS file in file order, and the sorted distinct record times of a NAV file, as
  printed to the millisecond; these are the same times that loading the file yields. Skipping of data lines, satellite
  continuation lines, event records and headers never loses or invents an epoch.""",
  ["inputs"], "all epoch times; satellite counts 1..37; 1..20 observation types; event records; all NAV systems and record lengths",
  "tests compare first, last and count for a few sample files",
  ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "utils.py"], [("obstime2/_skip", "obs2.py"), ("obstime3", "obs3.py"), ("navtime2", "nav2.py"),
   ("navtime3", "nav3.py"), ("gettime dispatch", "utils.py")], (), ["gettime()"])
p("C13", "Fast and strict RINEX 2 OBS reading agree",
  """For every RINEX 2 OBS file and every combination of use, tlim, interval, meas and useindicators, loading with fast=False
  gives the same times, satellites, observables and values as loading with fast=True whenever the latter completes; the only
  permitted failure of the fast mode is the documented error that asks for fast=False. Strict mode never fails on a well-formed
  file, and no combination of options makes either mode attach a value to the wrong time.""",
  ["inputs", "configurations"], "all times, values and windows/intervals for up to 4 epochs; layouts for which the speculative estimate is used and refused",
  "the tests compare the modes on one sample file without options",
  ["obs2.py"], [("_fast_alloc/_num_times preallocation", "obs2.py"), ("times[j] assignment and trimming", "obs2.py")],
  [("times", "preallocated time vector", "obs2.py")], ["load(fast=...)"])
p("C14", "Header facts are reported as printed",
  """rinexheader and the attributes of the loaded data report the printed header: version, file type, system, every header label's text,
  the observation type lists, the approximate position and its geodetic equivalent, the receiver type of RINEX 2, interval, time of first observation, time system, ionospheric
  and time-system corrections. The interval attribute of a data set whose header prints none
  is the median spacing of the epochs returned. Optional records may be missing, repeated comments and continuation lines do not disturb other
  labels, and nothing after END OF HEADER is taken for header. (Comments do not contain the text END OF HEADER; labels other than comments
  and continuations are not repeated.)""",
  ["inputs"], "all digits of position, interval, first-observation time, ionospheric and time-system coefficients; every presence pattern of the optional records",
  "tests look at the version and the number of position components of a few files",
  ["obs2.py", "obs3.py", "nav2.py", "nav3.py", "utils.py", "common.py"], [("obsheader2", "obs2.py"), ("obsheader3", "obs3.py"), ("navheader2", "nav2.py"),
   ("navheader3", "nav3.py"), ("determine_time_system", "common.py")], (), ["rinexheader()", "load().attrs"])
p("C15", "File kind, version and system are recognised from the first line",
  """rinexinfo reports version, kind (obs, nav, sp3) and system exactly as the first non-blank line states, independent of file
  name and of up to eight leading blank lines; load, gettime and rinexheader dispatch accordingly. A first line that is not a valid
  RINEX, CRINEX or SP3 header, or a version that is not supported, is rejected with an error and never yields data; so is a file with ten or more leading blank
  lines (nine is unspecified).""",
  ["inputs"], "every character of the version, type, system and label columns of the first line; 0..10 leading blank lines; line lengths 0..82",
  "tests use well-formed sample headers and a few empty files",
  ["rio.py", "base.py", "utils.py"], [("rinex_version", "rio.py"), ("rinexinfo", "rio.py"), ("first_nonblank_line", "rio.py"), ("load dispatch", "base.py")],
  (), ["rinexinfo()", "load()", "gettime()", "rinexheader()"])
p("C16", "Compressed containers and file names do not change what is read",
  """The text read from a file is the same whether it is plain, gzip, bzip2, LZW (.Z) or zip compressed, Hatanaka (CRINEX) compacted, or passed as StringIO (plain or compacted), and it does not depend on the file name: a compressed file is recognised by its magic number
  even when its suffix says nothing, in upper or lower case suffix spelling. The filename attribute
  is the name of the file read. When only the header is wanted
  the CRINEX header itself is what is read.""",
  ["inputs", "configurations"], "every container, magic number and suffix combination; every text whose first line is a valid RINEX or CRINEX header (bounded length)",
  "tests hold one sample file per container and always with its usual suffix",
  ["rio.py"], [("opener", "rio.py"), ("rinex_version is_crinex", "rio.py")], (), ["opener via load(), gettime(), rinexheader()"])
p("C17", "NetCDF output read back equals the data in memory",
  """Loading with an output path writes a NetCDF file that, when loaded (SP3: opened with xarray), yields a dataset equal to the returned one (coordinates, variables,
  NaNs, attributes). NAV and OBS can be written to the same file in either order and both are then returned; writing a group that already
  exists is refused and leaves the file as it was unless overwrite is requested. An output directory receives <input name>.nc, and an
  unusable output argument is rejected.""",
  ["inputs", "histories"], "all values, blank patterns and times of small files; every sequence of up to 3 writes of NAV/OBS with and without overwrite",
  "tests write a few sample files once and never check the refused or appended write",
  ["base.py"], [("rinexnav/rinexobs output branch", "base.py"), ("_groupexists write mode", "base.py"), ("load output path", "base.py")], (),
  ["load(out=...)", "load('x.nc')"])
p("C18", "Batch conversion converts every matching readable file",
  """batch_convert writes, for every file in the directory that matches the glob and can be read, the same NetCDF file that a single load with the
  same options writes; a file that cannot be read is reported and skipped and affects no other file. Directories and files that do
  not match are not touched, and the selection options apply to every file.""",
  ["inputs", "fault_sequences"], "every pattern of readable/unreadable among up to 4 files, every option",
  "tests convert a directory of sample files and check existence only",
  ["base.py"], [("batch_convert", "base.py")], (), ["batch_convert()"])
p("C19", "Keplerian elements convert to a consistent ECEF position",
  """keplerian2ecef returns, per epoch, the GPS or Galileo satellite position the broadcast elements define: mean motion from sqrtA and DeltaN, mean anomaly
  at the time elapsed since the reference time of ephemeris in the given week, an eccentric anomaly that solves Kepler's equation E - e sin E = M, argument of latitude, radius and
  inclination with their second-harmonic corrections, node at Omega0 + (OmegaDot - omega_e) tk - omega_e Toe. Galileo week numbers are, as RINEX writes them, continuous
  and the same as GPS weeks. It does so for elements selected from a loaded NAV file or of the caller's own data set, given per epoch or once for all epochs, and the positions of satellites
  whose records already are state vectors (GLONASS, SBAS) are returned unchanged.""",
  ["inputs"], "all orbital elements and all epochs, as real numbers (floating-point rounding outside), sin/cos/arctan2 as their defining identities",
  "the test compares one GPS record to 1e-4",
  ["keplerian.py"], [("keplerian2ecef", "keplerian.py")], (), ["keplerian2ecef()"])
p("C20", "Receiver location table matches the headers",
  """get_locations returns one row per input that states a position, in the order of the inputs, labelled by file name (a text stream by its
  place in the list, counted from 0), with the latitude, longitude and interval (none where there is none) of that input's own header, whatever the order and mix of files with and without
  position, interval, or a readable header, and for NetCDF conversions of the same files and compressed files; inputs without position and inputs that cannot be read give no row; an empty list gives an empty table.""",
  ["inputs"], "every position/interval digit, sign and presence pattern over lists of up to 4 inputs of every form",
  "the tests use one file with a position",
  ["geo.py", "utils.py"], [("get_locations", "geo.py")], (), ["get_locations()"])
p("C21", "Reads are independent of earlier reads",
  """The result of any reading call (load, gettime, rinexheader, rinexinfo) depends only on the content of the file or stream and the call's arguments:
  not on the stream's current position, not on which reading calls were made before on the same or another input, and not on
  option values used earlier. No reading call changes the caller's arguments or the stream's content.""",
  ["histories", "inputs"], "every sequence of up to 3 reading calls out of 4 kinds on OBS 2/3 and NAV 2/3 streams, from every stream position",
  "tests read each stream at most three times in one fixed order",
  ["rio.py", "obs2.py", "obs3.py", "nav2.py", "nav3.py", "utils.py"], [("seek(0) in opener/rinexinfo/obsheader2", "rio.py")], (), ["all reading functions"])
p("C22", "Event records and junk between epochs neither add nor lose data",
  """Event records of OBS files (epoch flags 2 to 5 with their header or comment lines), cycle slip records (flag 6), unparsable lines between complete epochs
  or records, and records whose date is invalid contribute no values, and every other epoch or record of the file is
  returned unchanged. A file that ends in the middle of an epoch still yields the complete epochs before it; what it yields for the cut-off epoch is
  unspecified. (The lines of an event record and junk lines do not have the form of an epoch line.)""",
  ["inputs"], "every event flag and number of event lines (0..3), junk lines of arbitrary printable text that do not form a valid epoch, at every position in files of up to 3 epochs",
  "two sample files contain one junk line each",
  ["obs2.py", "obs3.py", "nav2.py", "nav3.py"], [("_timeobs epoch flag", "obs2.py"), ("epoch loop", "obs3.py"), ("ValueError: continue", "nav2.py"),
   ("ValueError: continue", "nav3.py")], (), ["load()", "gettime()"])
p("C23", "Oversized RINEX 2 reads are refused before memory is exhausted",
  """Loading a RINEX 2 OBS file raises the documented RAM error exactly when the array it is about to allocate would need more than half of the available
  memory, for every amount of available memory; otherwise it proceeds and the result does not depend on the amount.""",
  ["inputs", "configurations"], "every amount of available memory; with and without indicators, fast and strict mode, several shapes",
  "no test runs with little memory",
  ["common.py", "obs2.py"], [("check_ram", "common.py"), ("memneed", "obs2.py")], (), ["load()"])
p("C24", "Plots show the data",
  """The plotting helpers and programs hand matplotlib exactly the data. timeseries()/obstimeseries() (and georinex.read -p) draw one diagram for each of the phases L1 and L1C that has values, with one line per
  satellite, named by it, through exactly its times and values. navtimeseries() draws for each GPS, Galileo, GLONASS and SBAS satellite one track, named by it, through the geodetic positions
  of its own records in order of time. receiver_locations() and georinex.loc put one marker for each receiver at its longitude and latitude, named by it, coloured by class of its interval and the bigger
  the shorter that is. georinex.plot draws the named measurements of the named satellites within the time limits. Observations and navigation data together (a pair, or what
  load() returns of a NetCDF file with both) are drawn as each alone. None of them changes the data set.""",
  ["inputs", "configurations"], "every digit, every pattern of missing values and records, every interval; data sets of up to 4 satellites and 5 records",
  "the tests do not plot at all (no test imports the plotting modules)",
  ["plots.py", "plots_geo.py", "plot/__main__.py", "loc/__main__.py", "read/__main__.py"],
  [("obstimeseries", "plots.py"), ("navtimeseries", "plots_geo.py"), ("receiver_locations", "plots_geo.py"), ("Satobs", "plot/__main__.py")], (), ["the artists of the matplotlib figures"])
p("C25", "Hatanaka and LZW decompression are lossless",
  """Text recovered from Hatanaka-compacted and LZW-compressed files is the text that was compacted.""",
  ["inputs"], "all CRINEX and .Z files", "sample files only",
  ["rio.py"], [("crx2rnx / unlzw calls", "rio.py")], (), ["opener"])
p("C26", "Command-line programs and helpers agree with the library calls",
  """The programs do what the library call with the same options does: georinex.read prints the data set load() returns and writes the file load() writes;
  georinex.rinex2hdf5 writes exactly the files batch_convert writes; georinex.time states, for every readable file that matches, its first and last time, the number of times and
  the header's interval, and warns exactly when they are not those of a file without gaps. A file that cannot be read is reported without stopping the others, and no program changes
  its inputs. globber() gives exactly the files that match its patterns, and to_datetime() the exact times of a data set.""",
  ["inputs", "configurations"], "every combination and order of options, every form of file, readable or not, in directories of up to four files, every digit of their values and times",
  "the tests run each program once on one sample file and look at nothing but the exit code",
  ["read/__main__.py", "time/__main__.py", "rinex2hdf5/__main__.py", "utils.py"],
  [("gr.load(", "read/__main__.py"), ("eachfile", "time/__main__.py"), ("gr.batch_convert(", "rinex2hdf5/__main__.py"), ("globber", "utils.py"), ("to_datetime", "utils.py")], (), ["python -m georinex.read, .time, .rinex2hdf5", "globber()", "to_datetime()"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties")
