def bug(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


bug("c01-three-continuations", "C01", [("obs2.py", """    n = Nsv - 12
    while n > 0:
        sv = _getSVlist(f.readline(), min(12, n), sv)
        n -= 12
""", """    if Nsv > 12:
        sv = _getSVlist(f.readline(), min(12, Nsv - 12), sv)
    if Nsv > 24:
        sv = _getSVlist(f.readline(), min(12, Nsv - 24), sv)
""")], "an epoch with more than 36 satellites (three continuation lines of the satellite list)", "the epoch with the long satellite list is lost", """
codes = ["C1", "L1"]
ep = [(sec(0), 0, ["G01", "R02"]), (sec(30), 0, [f"G{i:02d}" for i in range(1, 33)] + [f"R{i:02d}" for i in range(1, 9)]), (sec(60), 0, ["G01"])]
check_obs(gr.load(S(obs2(codes, ep)), fast=False), codes, ep)
""")

bug("c02-join-override", "C02", [("obs3.py", """            data = xarray.concat((data, epoch_data), dim="time")
""", """            # skip the slow index alignment if the satellites are the same as before
            join = "override" if data.sv.size == epoch_data.sv.size else "outer"
            data = xarray.concat((data, epoch_data), dim="time", join=join)
""")], "a single-system file in which a satellite is replaced by another one from one epoch to the next (same number of satellites)", "the values of the new satellite are attributed to the one that set", """
codes = {"G": ["C1C", "L1C"]}
ep = [(sec(0), 0, ["G01", "G02"]), (sec(30), 0, ["G01", "G03"]), (sec(60), 0, ["G03"])]
check_obs(gr.load(S(obs3(codes, ep, system="G"))), codes, ep)
""")

bug("c04-duplicate-scaled", "C04", [("nav3.py", """                    darr[:, i] *= 1000  # km => m
""", """                    darr[:, i] *= 1000 if not sv_copies else 1  # km => m
""")], "a GLONASS or SBAS satellite with two records of the same time", "the second record's state vector stays in kilometres", """
r = [("R01", sec(0)), ("R01", sec(0)), ("R01", sec(1800))]
ds = gr.load(S(nav(3, r)))
eq(at(ds, "X", sec(0), "R01"), nval("R01", 3, 0) * 1000)
eq(at(ds, "X", sec(0), "R01_1"), nval("R01", 3, 1) * 1000)
""")

bug("c06-leap-minute", "C06", [("sp3.py", """    if second == 60:
        dt.append(timedelta(minutes=1))
        second = 0

    if minute == 60:
        dt.append(timedelta(hours=1))
        minute = 0
""", """    if minute == 60:
        dt.append(timedelta(hours=1))
        minute = 0

    if second == 60:
        second = 0
        minute += 1
""")], "an SP3 epoch at minute 59, second 60", "the file cannot be read", """
ds = gr.load(S(sp3(["G01"], ["2018  5 13  1 30 60.00000000", "2018  5 13  1 59 60.00000000"])))
eq(times(ds), [datetime(2018, 5, 13, 1, 31), datetime(2018, 5, 13, 2, 0)], "times")
""")

bug("c10-order", "C10", [("obs3.py", """            fields[sk] = np.array(fields[sk])[ind].tolist()
""", """            fields[sk] = [field for m in meas for field in fields[sk] if field.startswith(m)]
""")], "meas= given in another order than the header lists the codes", "values appear under the wrong observable", """
codes = {"G": ["C1C", "L1C", "S1C"]}
ep = [(sec(0), 0, ["G01", "G02"]), (sec(30), 0, ["G01"])]
check_obs(gr.load(S(obs3(codes, ep)), meas=["S1C", "C1C"]), codes, ep, only=lambda c: c != "L1C")
""")

bug("c12-nav2-seconds", "C12", [("nav2.py", """    return np.unique(np.asarray(times, dtype="datetime64[ms]"))
""", """    return np.unique(np.asarray(times, dtype="datetime64[s]"))
""")], "a RINEX 2 navigation record whose time of clock has a fraction of a second", "gettime differs from the times of the loaded file", """
t = S(nav(2, [("G01", sec(0)), ("G02", sec(0) + timedelta(milliseconds=500))]))
eq([x.astype("datetime64[us]").astype(datetime) for x in gr.gettime(t)], times(gr.load(t)), "times")
""")

bug("c13-strict-end", "C13", [("obs2.py", """            times = t[(tlim[0] <= t) & (t <= tlim[1])]
""", """            times = t[(tlim[0] <= t) & (t < tlim[1])]
""")], "strict mode with a time window whose stop is the time of an epoch", "strict reading fails with the message of the fast mode", """
codes = ["C1", "L1"]
ep = [(sec(30 * k), 0, ["G01", "R02"]) for k in range(4)]
ds = gr.load(S(obs2(codes, ep)), tlim=(sec(0), sec(60)), fast=False)
eq(times(ds), [sec(0), sec(30), sec(60)], "times")
""")

bug("c14-second-59", "C14", [("obs2.py", """    if not 0 <= second <= 59:
        second = 0
""", """    if not 0 <= second < 59:
        second = 0
""")], "a RINEX 2 header whose time of first observation has second 59", "the time of first observation is reported 59 s early", """
t = obs2(["C1"], [(sec(59), 0, ["G01"])]).replace("    30    0.0000000     GPS", "    30   59.0000000     GPS")
eq(gr.rinexheader(S(t))["t0"], datetime(2018, 5, 13, 1, 30, 59), "t0")
""")

bug("c15-label", "C15", [("rio.py", """        if s[60:80] not in ("RINEX VERSION / TYPE", "CRINEX VERS   / TYPE"):
""", """        if not s[60:80].endswith("TYPE"):
""")], "a first line whose label is damaged but still ends with TYPE", "a file with a corrupt first line is read instead of refused", """
t = obs2(["C1"], [(sec(0), 0, ["G01"])]).replace("RINEX VERSION / TYPE", "RINEX VERS10N / TYPE")
try:
    gr.load(S(t))
except ValueError:
    sys.exit(0)
print("FAILS: loaded")
sys.exit(1)
""")


bug("c03-galileo2-bgd", "C03", [("nav2.py", """                "BGDe5a",
                "BGDe5b",
""", """                "BGDe5b",
                "BGDe5a",
""")], "a Galileo RINEX 2 navigation file", "the two group delays are exchanged", """
ds = gr.load(S(nav(2, [("E01", sec(0))], kind="E")))
eq(at(ds, "BGDe5a", sec(0), "E01"), nval("E01", 25, 0))
eq(at(ds, "BGDe5b", sec(0), "E01"), nval("E01", 26, 0))
""")

bug("c07-skip-seven", "C07", [("nav3.py", """                    _skip(f, Nl[line[0]])
                    continue
                # not break""", """                    _skip(f, max(Nl.values()))
                    continue
                # not break""")], "a mixed navigation file in which a GLONASS or SBAS record outside the window precedes a record inside it", "the record after the skipped one is lost", """
r = [("R01", sec(-7200)), ("R01", sec(0)), ("G02", sec(0)), ("R02", sec(7200)), ("G03", sec(0))]
ds = gr.load(S(nav(3, r)), tlim=(sec(-60), sec(60)))
eq(sorted(str(s) for s in ds.sv.values), ["G02", "G03", "R01"], "satellites")
""")

bug("c08-gap-restart", "C08", [("obs3.py", """                    else:
                        last_epoch += interval
""", """                    elif time - last_epoch < 10 * interval:
                        last_epoch += interval
                    else:  # data gap
                        last_epoch = time
""")], "decimation of a file with a gap of more than ten intervals that does not end on a raster point", "after the gap other epochs are kept than the raster of the first epoch asks for", """
codes = {"G": ["C1C"]}
sc = [0, 20, 40, 60, 80, 1000, 1020, 1040, 1060, 1080, 1100, 1120]
ep = [(sec(k), 0, ["G01"]) for k in sc]
ds = gr.load(S(obs3(codes, ep)), interval=60)
exp, m = [], None
for k in sc:
    if m is None or k - m >= 60:
        exp.append(sec(k))
        m = k if m is None else m + 60
eq(times(ds), exp, "times")
""")

bug("c09-reread-list", "C09", [("obs2.py", """                _skip(f, ln, hdr["Nl_sv"], sv)
                continue

            gsv""", """                _skip(f, ln, hdr["Nl_sv"])
                continue

            gsv""")], "an epoch with more than 12 satellites, none of them of the selected system, and data lines of 80 columns", "the next epoch is not recognised and its data are lost", """
codes = ["C1", "L1", "P2", "L2", "S1"]
ep = [(sec(0), 0, ["R01", "G01"]), (sec(30), 0, [f"G{i:02d}" for i in range(1, 15)]), (sec(60), 0, ["R01", "G02"]), (sec(90), 0, ["R02"])]
ds = gr.load(S(obs2(codes, ep)), use={"R"}, fast=False)
eq(times(ds), [sec(0), sec(60), sec(90)], "times")
eq(at(ds, "C1", sec(60), "R01"), val("R01", 0, 2))
""")

bug("c06-year-80", "C06", [("nav2.py", """    if 80 <= year <= 99:
""", """    if 80 < year <= 99:
""")], "a RINEX 2 navigation record of 1980", "the record is lost", """
t = datetime(1980, 1, 6, 2, 0)
eq(times(gr.load(S(nav(2, [("G01", t)])))), [t], "times")
""")

bug("c12-skip-events", "C12", [("obs2.py", """            times.append(time_epoch)

            _skip(f, ln, hdr["Nl_sv"])

""", """            if not times or time_epoch > times[-1]:
                times.append(time_epoch)

            _skip(f, ln, hdr["Nl_sv"])

""")], "a RINEX 2 observation file whose epochs are not in increasing order (e.g. two files joined in the wrong order)", "gettime leaves out epochs", """
t = S(obs2(["C1", "L1"], [(sec(60), 0, ["G01"]), (sec(0), 0, ["G01"]), (sec(90), 0, ["G02"])]))
eq([x.astype("datetime64[us]").astype(datetime) for x in gr.gettime(t)], [sec(60), sec(0), sec(90)], "times")
""")

bug("c22-junk-break", "C22", [("nav3.py", """            except ValueError:  # blank or garbage line
                continue
""", """            except ValueError:  # blank line is the end of the data
                if line.strip():
                    continue
                break
""")], "a blank line between two records of a RINEX 3 navigation file", "everything after the blank line is lost", """
r = [("G01", sec(0)), (None, "\\n"), ("G02", sec(0))]
ds = gr.load(S(nav(3, r)))
eq([str(s) for s in ds.sv.values], ["G01", "G02"], "satellites")
""")
