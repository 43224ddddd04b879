"""The planted changes: (file, old, new) edits and a demonstration each"""
SEEDS = {}
F = "trappy/ftrace.py"
B = "trappy/base.py"


def seed(sid, prop, needs, breaks, edits, demo, also=""):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo,
                      also=also)


seed("c01-endtime-of-window", "C01",
     "opening a trace with a window that ends before the trace, then reopening it from the cache",
     "the end time stored in the cache is that of the window it was first opened with",
     [(F, '        metadata["endtime"] = self.endtime\n',
       '        metadata["endtime"] = self.endtime\n        if self.max_window[1] is not None:\n'
       '            metadata["endtime"] = min(self.endtime, self.max_window[1])\n')],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)])
trappy.FTrace(p, window=(0, 2))
t = trappy.FTrace(p)
assert t.endtime == 8.5, t.endtime
''')

seed("c01-skip-after-abs-window", "C01",
     "a first opening with an abs_window start, then another one without",
     "events before the start of abs_window are dropped while parsing, so the cache doesn't have them",
     [(F, "                if trace_class:\n                    data_str",
       "                if trace_class and timestamp >= self.abs_window[0]:\n                    data_str")],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)])
trappy.FTrace(p, abs_window=(5, None))
t = trappy.FTrace(p)
assert len(t.sched_switch.data_frame) == 8, t.sched_switch.data_frame
''')

seed("c02-partial-digest", "C02",
     "a trace bigger than 1 MiB that's modified after its first MiB",
     "only the first MiB of the trace is part of the digest",
     [(F, "            trace_md5sum = hashlib.md5(f.read()).hexdigest()",
       "            trace_md5sum = hashlib.md5(f.read(1 << 20)).hexdigest()"),
      (F, '            metadata["md5sum"] = hashlib.md5(f.read()).hexdigest()\n        metadata["basetime"] = self.basetime\n',
       '            metadata["md5sum"] = hashlib.md5(f.read(1 << 20)).hexdigest()\n        metadata.update(basetime=self.basetime)\n')],
     '''
lines = [line("%d.5" % i, "sched_switch", "a=1 pad=" + "x" * 1000) for i in range(1, 1200)]
p = write(lines)
trappy.FTrace(p)
lines[-1] = lines[-1].replace("a=1", "a=2")
write(lines)
t = trappy.FTrace(p)
assert t.sched_switch.data_frame["a"].iloc[-1] == 2
''')

seed("c02-mtime-shortcut", "C02",
     "the trace is replaced by another one with an older modification time",
     "the digest isn't compared when the trace is older than its cache",
     [(F, '''        with open(self.trace_path, 'rb') as f:
            trace_md5sum''', '''        # Spare us reading the whole trace if nobody touched it
        metadata_path = os.path.join(self._trace_cache_path(), 'metadata.json')
        if os.path.getmtime(self.trace_path) < os.path.getmtime(metadata_path):
            return True

        with open(self.trace_path, 'rb') as f:
            trace_md5sum''')],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)])
trappy.FTrace(p)
write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 4)])
os.utime(p, (1, 1))
t = trappy.FTrace(p)
assert len(t.sched_switch.data_frame) == 3
''')

seed("c03-only-parse-errors", "C03",
     "an empty or binary file in the cache",
     "only two kinds of failures to read a cached event are handled",
     [(F, "            except:\n                warnstr = \"TRAPpy: Couldn't",
       "            except (OSError, pd.errors.ParserError):\n                warnstr = \"TRAPpy: Couldn't")],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)])
trappy.FTrace(p)
open(os.path.join(TMP, ".trace.txt.cache", "SchedSwitch.csv"), "w").close()
t = trappy.FTrace(p)
assert len(t.sched_switch.data_frame) == 8
''')

seed("c03-cached-before-read", "C03",
     "a file in the cache that exists but can't be read",
     "an event is taken to be cached before its data has been read",
     [(F, "                trace_class.read_csv(csv_file)\n                trace_class.cached = True\n",
       "                trace_class.cached = os.path.exists(csv_file)\n                trace_class.read_csv(csv_file)\n")],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)])
trappy.FTrace(p)
open(os.path.join(TMP, ".trace.txt.cache", "SchedSwitch.csv"), "w").close()
t = trappy.FTrace(p)
assert len(t.sched_switch.data_frame) == 8
''')

seed("c04-metadata-in-place", "C04",
     "the process dies while the metadata is written",
     "the metadata of the cache is written under its final name",
     [(F, '''                metadata = self._get_metadata_to_cache()

                def write_metadata(fname):
                    with open(fname, 'w') as f:
                        json.dump(metadata, f)

                self._write_cache_file(metadata_path, write_metadata)
''', '''                with open(metadata_path, 'w') as f:
                    json.dump(self._get_metadata_to_cache(), f)
''')],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)])
pid = os.fork()
if pid == 0:
    def dump(obj, f):
        f.write('{"md5sum": ')
        f.flush()
        os._exit(0)
    import trappy.ftrace
    trappy.ftrace.json.dump = dump
    trappy.FTrace(p)
    os._exit(1)
os.waitpid(pid, 0)
m = os.path.join(TMP, ".trace.txt.cache", "metadata.json")
if os.path.exists(m):
    json.load(open(m))
''')

seed("c05-disable-of-base-class", "C05",
     "the cache is disabled for one of the trace classes only",
     "the cache is loaded although it's disabled for FTrace",
     [(F, "        if not self.__class__.disable_cache:\n            self._load_cache()",
       "        if not GenericFTrace.disable_cache:\n            self._load_cache()")],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)])
trappy.FTrace(p)
c = os.path.join(TMP, ".trace.txt.cache", "SchedSwitch.csv")
s = open(c).read()
open(c, "w").write("\\n".join(s.splitlines()[:-2]) + "\\n")
trappy.FTrace.disable_cache = True
t = trappy.FTrace(p)
assert len(t.sched_switch.data_frame) == 8
''')

seed("c05-removes-the-trace", "C05",
     "the temporary file for the text version of a binary trace can't be created",
     "the binary trace itself is removed",
     [(F, "        if self.file_to_parse != self.trace_path:\n            os.remove(self.file_to_parse)",
       "        if self.read_from_dat:\n            os.unlink(self.file_to_parse)")],
     '''
p = os.path.join(TMP, "trace.dat")
open(p, "wb").write(b"x")
tempfile.tempdir = os.path.join(TMP, "nowhere")
try:
    trappy.FTrace(p)
except OSError:
    pass
assert os.path.exists(p)
''')

seed("c06-handle-left-open", "C06",
     "a trace that isn't valid UTF-8",
     "the trace is left open when its header can't be decoded",
     [(F, "        with io.open(self.file_to_parse, 'r', encoding='utf-8') as fin:\n            for line in fin:\n                if not metadata_keys:\n                    return res\n",
       "        fin = io.open(self.file_to_parse, 'r', encoding='utf-8')\n        if fin.readable():\n            for line in fin:\n                if not metadata_keys:\n                    fin.close()\n                    return res\n"),
      (F, "                    # Reached a valid trace line, abort metadata population\n                    return res\n\n        return res",
       "                    # Reached a valid trace line, abort metadata population\n                    fin.close()\n                    return res\n\n        fin.close()\n        return res")],
     '''
p = os.path.join(TMP, "trace.txt")
open(p, "wb").write(b"version = 6\\n\\xff\\xfe\\n")
keep = []
try:
    trappy.FTrace(p)
except UnicodeDecodeError as e:
    keep.append(e)
assert keep
for fd in os.listdir("/proc/self/fd"):
    try:
        assert os.readlink("/proc/self/fd/" + fd) != p
    except OSError:
        pass
''')

seed("c06-temporary-kept", "C06",
     "trace-cmd fails",
     "the text version of a binary trace isn't removed if it couldn't be generated",
     [(F, "        if self.file_to_parse != self.trace_path:\n            os.remove(self.file_to_parse)",
       "        if self.read_from_dat and hasattr(self, \"metadata\"):\n            os.unlink(self.file_to_parse)")],
     '''
os.mkdir("tmp")
tempfile.tempdir = os.path.join(TMP, "tmp")
os.environ["PATH"] = os.path.join(TMP, "nothing")
open("trace.dat", "wb").write(b"x")
try:
    trappy.FTrace(os.path.join(TMP, "trace.dat"))
except OSError:
    pass
assert not os.listdir("tmp"), os.listdir("tmp")
assert os.path.exists("trace.dat")
''')

seed("c07-single-row", "C07",
     "an event class with exactly one event, outside the requested window",
     "frames of one row aren't limited to the window",
     [(F, "        if len(trace_class.data_frame) < 1:\n            return\n\n        # There's",
       "        if len(trace_class.data_frame) < 2:\n            return\n\n        # There's")],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)] + [line("9.5", "sched_wakeup", "a=1")])
t = trappy.FTrace(p, window=(0, 3))
assert len(t.sched_switch.data_frame) == 4, t.sched_switch.data_frame
assert len(t.sched_wakeup.data_frame) == 0, t.sched_wakeup.data_frame
''')

seed("c07-mixed-cache", "C07",
     "an opening that finds some events in the cache and parses the others",
     "events loaded from the cache aren't normalised when other events had to be parsed",
     [(F, '''        if self.normalize_time:
            self._normalize_time()

    def _do_parse''', '''        if self.normalize_time:
            # A partial cache is completed with what was parsed
            fresh = [c for c in self.trace_classes if not c.cached]
            for trace_class in fresh or self.trace_classes:
                trace_class.normalize_time(self.basetime)
            self.normalized_time = True

    def _do_parse''')],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)] + [line("9.5", "sched_wakeup", "a=1")])
trappy.FTrace(p, scope="custom", events=["sched_switch"])
t = trappy.FTrace(p, scope="custom", events=["sched_switch", "sched_wakeup"])
assert list(t.sched_switch.data_frame.index)[0] == 0, t.sched_switch.data_frame
assert list(t.sched_wakeup.data_frame.index)[0] == 8, t.sched_wakeup.data_frame
''')

seed("c08-start-precedence", "C08",
     "both window and abs_window given, with abs_window starting first",
     "the start of abs_window replaces that of window instead of being intersected with it",
     [(F, "        max_window[0] = max(self.window[0] + self.basetime, self.abs_window[0])\n",
       "        max_window[0] = self.abs_window[0] or self.window[0] + self.basetime\n")],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)])
t = trappy.FTrace(p, window=(5, None), abs_window=(2, None), normalize_time=False)
assert list(t.sched_switch.data_frame["a"]) == [6, 7, 8], t.sched_switch.data_frame
''')

seed("c08-zero-end", "C08",
     "a window that ends at 0, with no end of abs_window",
     "a window end of 0 is taken for no end",
     [(F, "        elif self.window[1] is not None:\n            max_window[1] = self.window[1] + self.basetime",
       "        elif self.window[1]:\n            max_window[1] = self.window[1] + self.basetime")],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)])
t = trappy.FTrace(p, window=(0, 0))
assert list(t.sched_switch.data_frame["a"]) == [1], t.sched_switch.data_frame
''')

seed("c09-substring", "C09",
     "events= names an event whose name is part of another registered event's unique word",
     "a known parser is used for an event that merely resembles its own",
     [(F, 'if (event_name == cls.unique_word) or \\\n', 'if (event_name in cls.unique_word) or \\\n')],
     '''
p = write([line("%d.5" % i, "sched_wakeup_x", "a=%d" % i) for i in range(1, 5)] + [line("9.5", "sched", "b=1")])
t = trappy.FTrace(p, scope="custom", events=["sched"])
assert sorted(t.class_definitions) == ["sched"], sorted(t.class_definitions)
assert type(t.sched).__name__ == "sched", type(t.sched)
''')

seed("c09-custom-dynamic", "C09",
     "scope='custom' after a parser was registered dynamically",
     "the custom scope also parses the dynamically registered events",
     [(F, '''        elif scope == "sched":
            self.class_definitions.update(self.sched_classes)
            self.class_definitions.update(self.dynamic_classes)
''', '''        elif scope in ("sched", "custom"):
            if scope == "sched":
                self.class_definitions.update(self.sched_classes)
            self.class_definitions.update(self.dynamic_classes)
''')],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 5)])
t = trappy.FTrace(p, scope="custom", events=["sched_switch"])
assert sorted(t.class_definitions) == ["sched_switch"], sorted(t.class_definitions)
''')

seed("p01-ge", "P01",
     "three consecutive lines with the same time",
     "the time after an already adjusted one isn't compared with it, so two events get the same time",
     [(F, '''                if _timestamp > timestamp:
                    timestamp = _timestamp
''', '''                if _timestamp > timestamp or timestamp - _timestamp > 1e-15:
                    timestamp = _timestamp
''')],
     '''
p = write([line("1.5", "sched_switch", "a=%d" % i) for i in range(12)])
t = trappy.FTrace(p, normalize_time=False)
ts = list(t.sched_switch.data_frame.index)
assert all(a < b for a, b in zip(ts, ts[1:])), ts
''')

seed("p01-unit", "P01",
     "a trace recorded with a clock in nanoseconds",
     "times in nanoseconds below one second's worth of digits are taken for seconds",
     [(F, '''                if not fields_match.group('us'):
                    _timestamp /= 1e9
''', '''                if not fields_match.group('us') and _timestamp > 1e9:
                    _timestamp /= 1e9
''')],
     '''
p = write([line(str(300000000 * i), "sched_switch", "a=%d" % i) for i in range(1, 6)])
t = trappy.FTrace(p, normalize_time=False)
ts = list(t.sched_switch.data_frame.index)
assert abs(ts[0] - 0.3) < 1e-9 and abs(ts[-1] - 1.5) < 1e-9, ts
''')

seed("p02-endtime-of-window", "P02",
     "an abs_window that ends before the trace",
     "parsing stops after the window, so the end time isn't that of the trace",
     [(F, '''            self.lines += 1

        self.endtime = timestamp
''', '''            self.lines += 1
            if self.abs_window[1] is not None and timestamp > self.abs_window[1]:
                break

        self.endtime = timestamp
''')],
     '''
trappy.FTrace.disable_cache = True
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)])
t = trappy.FTrace(p, abs_window=(0, 3))
assert t.endtime == 8.5, t.endtime
''')

seed("p03-cpu-array", "P03",
     "an event whose consecutive lines are of different CPUs",
     "the CPU of an event isn't stored when it's 0 and the list is still empty",
     [(B, "        self.cpu_array.append(cpu)\n", "        self.cpu_array.append(cpu or (self.cpu_array[-1] if self.cpu_array else 0))\n")],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i, cpu=c) for i, c in enumerate([0, 3, 0, 1], 1)])
t = trappy.FTrace(p)
assert list(t.sched_switch.data_frame["__cpu"]) == [0, 3, 0, 1], t.sched_switch.data_frame
''')

seed("p04-fallback-order", "P04",
     "a line of a registered event that also has a fallback's word, the fallback registered first",
     "the first parser whose word is in the line takes it, even if it's a fallback",
     [(F, '''                trace_class = cls
                if not cls.fallback:
                    return trace_class
''', '''                trace_class = cls
                if not cls.fallback or len(cls_word) > 1:
                    return trace_class
''')],
     '''
from trappy.fallback import TracingMarkWrite


class Mine(trappy.base.Base):
    unique_word = "my_marker:"
    name = "my_marker"


trappy.FTrace.register_parser(TracingMarkWrite, "sched") if "tracing_mark_write" not in trappy.FTrace.sched_classes else None
trappy.FTrace.register_parser(Mine, "sched")
p = write([line("1.5", "tracing_mark_write", "my_marker: a=1"), line("2.5", "tracing_mark_write", "hello")])
t = trappy.FTrace(p, scope="custom", events=["tracing_mark_write", "my_marker"])
assert len(t.my_marker.data_frame) == 1, (t.my_marker.data_frame, t.tracing_mark_write.data_frame)
assert len(t.tracing_mark_write.data_frame) == 1
''')

seed("p05-unparsed", "P05",
     "lines in the middle of the trace that don't have the form of an event",
     "lines that can't be parsed aren't counted",
     [(F, '''            self.lines += 1

        self.endtime = timestamp
''', '''            self.lines += 1 if fields_match else 0

        self.endtime = timestamp
''')],
     '''
p = write([line("1.5", "sched_switch", "a=1"), "# a comment\\n", line("3.5", "sched_switch", "a=2")])
t = trappy.FTrace(p)
assert list(t.sched_switch.data_frame["__line"]) == [0, 2], t.sched_switch.data_frame
''')

seed("p02-basetime-of-window", "P02",
     "an abs_window that starts after the beginning of the trace",
     "the base time is that of the first event in abs_window",
     [(F, "                if not self.basetime:\n", "                if not self.basetime or self.basetime < self.abs_window[0]:\n")],
     '''
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 9)])
trappy.FTrace.disable_cache = True
t = trappy.FTrace(p, abs_window=(4, None))
assert t.basetime == 1.5, t.basetime
''')

seed("p03-kept-list", "P03",
     "a line whose task has no name",
     "a line with an empty task name is added to some of the lists of its event only",
     [(B, "        self.comm_array.append(comm)\n", "        if comm.strip():\n            self.comm_array.append(comm)\n")],
     '''
p = write([line("1.5", "sched_switch", "a=1"), line("2.5", "sched_switch", "a=2", comm=""), line("3.5", "sched_switch", "a=3")])
t = trappy.FTrace(p)
assert list(t.sched_switch.data_frame["__comm"]) == ["task", "", "task"], t.sched_switch.data_frame
''')

seed("r01-by-name", "R01",
     "a class that is registered in two scopes",
     "unregistering a parser only removes it from the first scope it's found in",
     [(F, '''                if cobject == obj:
                    del scope_classes[name]
''', '''                if cobject == obj:
                    del scope_classes[name]
                    return
''')],
     '''
C = trappy.register_dynamic_ftrace("MyEvent", "my_event_word:", scope="sched")
trappy.register_ftrace_parser(C, "all")
trappy.unregister_ftrace_parser(C)
p = write([line("1.5", "my_event_word", "a=1")])
t = trappy.FTrace(p)
assert "my_event" not in t.class_definitions, t.class_definitions
''')

seed("r01-kept-parser", "R01",
     "registering another parser of an event that already has one",
     "the parser that's already registered for an event stays",
     [(F, '''            cls.dynamic_classes[cobject.name] = cobject
''', '''            cls.dynamic_classes.setdefault(cobject.name, cobject)
''')],
     '''
A = trappy.register_dynamic_ftrace("MyEvent", "my_event_one:")
C = trappy.register_dynamic_ftrace("MyEvent", "my_event_two:")
p = write([line("1.5", "my_event_two", "a=1")])
t = trappy.FTrace(p)
assert len(t.my_event.data_frame) == 1
''')

seed("r02-event-map", "R02",
     "a plot of a signal of one trace, then of the same signal of another trace that doesn't have the event",
     "the events that were found for one plot are found for all later plots",
     [("trappy/plotter/AbstractDataPlotter.py", "        self._event_map = {}\n", ""),
      ("trappy/plotter/AbstractDataPlotter.py", "    def __init__(self, traces", "    # the events of signals\n    _event_map = {}\n\n    def __init__(self, traces")],
     '''
import pandas as pd
p = write([line("%d.5" % i, "my_event", "a=%d" % i) for i in range(1, 4)])
t = trappy.FTrace(p, events=["my_event"])
trappy.ILinePlot(t, signals="my_event:a")
try:
    trappy.ILinePlot(trappy.FTrace(p), signals="my_event:a")
    raise AssertionError("no error")
except ValueError as e:
    assert "not found" in str(e), e
''')

seed("r02-forwarded-argument", "R02",
     "a line plot that's given a matplotlib argument, and another one later",
     "an argument of one plot is forwarded by all later plots",
     [("trappy/plotter/LinePlot.py", '''        self._attr["fill"] = AttrConf.FILL

''', '''        self._attr["fill"] = AttrConf.FILL
        self._attr["args_to_forward"] = LINE_ARGS

'''), ("trappy/plotter/LinePlot.py", '''class LinePlot(StaticPlot):
''', '''# what's passed to matplotlib when the user asks for nothing
LINE_ARGS = {}

class LinePlot(StaticPlot):
''')],
     '''
import matplotlib
matplotlib.use("Agg")
import pandas as pd
d = pd.DataFrame({"a": [1, 2, 3]})
trappy.LinePlot(d, column="a", marker="x")
p = trappy.LinePlot(d, column="a")
assert not p._attr["args_to_forward"], p._attr["args_to_forward"]
''')

seed("r03-topology-alias", "R03",
     "a level that's added to in two steps, from lists the caller uses afterwards",
     "the list given for a level is kept, and extended when the level is added to",
     [("trappy/stats/Topology.py", '''        if level_name not in self._levels:
            self._levels[level_name] = []

        self._levels[level_name] += level_vals
''', '''        if level_name in self._levels:
            self._levels[level_name] += level_vals
        else:
            self._levels[level_name] = level_vals
''')],
     '''
from trappy.stats.Topology import Topology
big, little = [[0, 1]], [[2, 3]]
t = Topology(clusters=big)
t.add_to_level("cluster", little)
assert big == [[0, 1]], big
''')

seed("r03-event-plot-lanes", "R03",
     "an EventPlot with explicit lanes whose data is plotted again",
     "lanes are renumbered in the caller's data",
     [("trappy/plotter/EventPlot.py", "        _data = deepcopy(data)\n",
       "        _data = {key: list(events) for key, events in data.items()}\n")],
     '''
from trappy.plotter.EventPlot import EventPlot
data = {"task": [[0.0, 1.0, 4], [1.5, 2.0, 7]]}
EventPlot(data, ["task"], [0, 2], lanes=[4, 7])
assert data == {"task": [[0.0, 1.0, 4], [1.5, 2.0, 7]]}, data
''')

seed("r04-load-in-place", "R04",
     "cpu_in_power events of a system with one CPU (one load), whose normalized load is asked for",
     "the only column of loads isn't copied before it's normalized in place",
     [("trappy/cpu_power.py", '''        load_series = dfr[load_cols[0]].copy()
        for col in load_cols[1:]:
''', '''        load_series = dfr[load_cols[0]]
        if len(load_cols) > 1:
            load_series = load_series.copy()
        for col in load_cols[1:]:
''')],
     '''
p = write([line("%d.5" % i, "thermal_power_cpu_get_power", "cpus=00000001 freq=%d000000 raw_cpu_power=4 load={%d} power=7" % (i, i))
           for i in range(1, 4)])
t = trappy.FTrace(p)
before = t.cpu_in_power.data_frame.copy()
t.cpu_in_power.get_normalized_load_data({"00000001": "A7"})
assert before.equals(t.cpu_in_power.data_frame), t.cpu_in_power.data_frame
''')

seed("r04-missing-values", "R04",
     "a plot of a column that some events of the trace don't have",
     "events without the plotted column are dropped from the trace",
     [("trappy/plotter/Constraint.py", '''        try:
            values = data[self.column]
        except KeyError:
            return result
''', '''        try:
            # there's nothing to draw for missing values
            if data[self.column].isnull().any():
                data.dropna(subset=[self.column], inplace=True)
            values = data[self.column]
        except KeyError:
            return result
''')],
     '''
p = write([line("%d.5" % i, "sched_switch", "prev_pid=1 a=%d" % i if i % 2 else "prev_pid=2") for i in range(1, 5)])
t = trappy.FTrace(p)
assert len(t.sched_switch.data_frame) == 4
trappy.ILinePlot(t, trappy.sched.SchedSwitch, column="a")
assert len(t.sched_switch.data_frame) == 4, t.sched_switch.data_frame
''')

FAKE = '''
import os, stat
BIN = os.path.join(TMP, "bin")
os.mkdir(BIN)
os.environ["PATH"] = BIN + os.pathsep + os.environ["PATH"]

def fake(script):
    f = os.path.join(BIN, "trace-cmd")
    with open(f, "w") as fh:
        fh.write("#!/bin/bash\\n" + script)
    os.chmod(f, 0o755)
'''

seed("t01-partial-report", "T01",
     "a truncated trace.dat, which trace-cmd only reports in part before it fails",
     "what trace-cmd printed before it failed is taken to be the whole trace",
     [(F, '''                output = run(cmd, capture_output=True, check=True)
''', '''                output = run(cmd, capture_output=True)
                if not output.stdout:
                    output.check_returncode()
''')], FAKE + '''
fake("echo '%s'\\nexit 3\\n" % line("1.5", "sched_switch", "a=1").strip())
p = os.path.join(TMP, "trace.dat")
open(p, "w").write("x")
try:
    t = trappy.FTrace(p)
except Exception:
    pass
else:
    assert False, t.sched_switch.data_frame
''')

seed("t01-path-with-spaces", "T01",
     "a .dat file in a folder whose name has a space",
     "the command is split into words after the path is put into it",
     [(F, '''            cmd.extend([ '-r', raw_event ])

        cmd.append(trace_dat)
''', '''            cmd.extend([ '-r', raw_event ])

        cmd = "{} {}".format(" ".join(cmd), trace_dat).split()
''')], FAKE + '''
fake('for a; do f=$a; done\\ncat "$f"\\n')
os.mkdir(os.path.join(TMP, "my traces"))
p = os.path.join(TMP, "my traces", "trace.dat")
open(p, "w").write(line("1.5", "sched_switch", "a=1"))
t = trappy.FTrace(p)
assert len(t.sched_switch.data_frame) == 1
''')

seed("t01-raw-name-part", "T01",
     "an event to be parsed raw whose name is part of the name of another raw event",
     "an event isn't asked for in raw format if its name is part of one that is",
     [(F, '''                    if name:
                        self.raw_events.append(name)
''', '''                    if name and name not in " ".join(self.raw_events):
                        self.raw_events.append(name)
''')], FAKE + '''
fake('echo "$@" > %s\\ncat "${@: -1}"\\n' % os.path.join(TMP, "args"))
p = os.path.join(TMP, "trace.dat")
open(p, "w").write(line("1.5", "sched_switch", "a=1"))
cls = trappy.register_dynamic_ftrace("Wakeup", " wakeup:", parse_raw=True)
t = trappy.FTrace(p)
args = open(os.path.join(TMP, "args")).read().split()
assert ["-r", "wakeup"] in [args[i:i + 2] for i in range(len(args))], args
''')

seed("e01-resample-off", "E01",
     "Correlator.correlate() without resampling",
     "a local variable is only assigned if the data is resampled",
     [("trappy/stats/Correlator.py", '''                series_x = self._resample(series_x)
                series_y = self._resample(series_y)

            series_x, series_y = shift_series(series_x, series_y, self._shift)
            corr_output''', '''                series_x = self._resample(series_x)
                series_y = self._resample(series_y)
                shift = self._shift

            series_x, series_y = shift_series(series_x, series_y, shift)
            corr_output''')], '''
import pandas as pd
from trappy.stats.Correlator import Correlator
from trappy.stats.Indexer import Indexer

class Agg(object):
    indexer = Indexer(pd.Index([0.0, 0.1, 0.2, 0.3]))
    def aggregate(self, **kwargs):
        return [pd.Series([1.0, 2.0, 0.0, 4.0], index=self.indexer.index)]

c = Correlator(Agg(), Agg())
c.correlate("all", resample=True)
out, total = c.correlate("all", resample=False)
assert abs(total - 1) < 1e-9, total
''')

seed("e01-uniform-index", "E01",
     "any use of the correlation of two aggregators",
     "the indexer is called with an argument it doesn't have",
     [("trappy/stats/Correlator.py", '''        new_index = self.indexer.get_uniform(delta)
''', '''        new_index = self.indexer.get_uniform(delta, method="pad")
''')], SEEDS["e01-resample-off"]["demo"].replace("False", "True"))

seed("e01-missing-trace", "E01",
     "statistics of an aggregator of several triggers, which only have the base class's constructor",
     "a class no longer has an attribute that another method uses",
     [("trappy/stats/Indexer.py", '''        self._triggers = listify(triggers)
        super(MultiTriggerIndexer, self).__init__(self._unify())
''', '''        super(MultiTriggerIndexer, self).__init__(self._unify(listify(triggers)))
'''), ("trappy/stats/Indexer.py", '''    def _unify(self):
''', '''    def traces(self):
        """The traces of the triggers"""
        return [trigger.trace for trigger in self._triggers]

    def _unify(self, triggers):
'''), ("trappy/stats/Indexer.py", "        for trigger in self._triggers:\n", "        for trigger in triggers:\n")], '''
from trappy.stats.Indexer import MultiTriggerIndexer
from trappy.stats.Trigger import Trigger
p = write([line("%d.5" % i, "sched_switch", "a=%d" % i) for i in range(1, 5)])
t = trappy.FTrace(p)
i = MultiTriggerIndexer(Trigger(t, trappy.sched.SchedSwitch, {}, 1, "a"))
if hasattr(i, "traces"):
    assert i.traces() == [t]
assert len(i.series()) == 4
''')

HASHSEEDS = """
import subprocess, sys
def outputs(code, n=6):
    out = set()
    for i in range(1, n + 1):
        where = os.path.dirname(os.path.dirname(os.path.abspath(trappy.__file__)))
        env = dict(os.environ, PYTHONHASHSEED=str(i), PYTHONPATH=where)
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env, capture_output=True, text=True)
        assert r.returncode == 0, r.stderr
        out.add(r.stdout)
    return out
"""

seed("d01-pivot-order", "D01",
     "a pivot whose values are neither decimal nor hexadecimal numbers, in different processes",
     "the plots of names are in the order of a set",
     [("trappy/plotter/Constraint.py", '''            except (ValueError, TypeError):
                sorted_plist = sorted(p_set)
''', '''            except (ValueError, TypeError):
                # Names have no order of their own
                sorted_plist = list(p_set)
''')], HASHSEEDS + '''
code = """
import pandas as pd
from trappy.plotter.Constraint import ConstraintManager
df = pd.DataFrame({"load": [1, 2, 3, 4], "task": ["surfaceflinger", "zygote", "kworker", "rcu"]})
c = ConstraintManager([df], ["load"], None, "task", {})
print(c.generate_pivots()[0])
"""
assert len(outputs(code)) == 1
''')

seed("d01-permuted-once", "D01",
     "a permuted plot along a pivot of names, in different processes",
     "the lines of a permuted static plot are in the order of a set",
     [("trappy/plotter/StaticPlot.py", '''            pivots = [y for _, y in pivot_vals]
''', '''            pivots = {y for _, y in pivot_vals}
'''), ("trappy/plotter/StaticPlot.py", "for p in sorted(set(pivots))]", "for p in pivots]")], HASHSEEDS + '''
p = write([line("%d.5" % i, "sched_switch", "task=%s load=%d" % (n, i))
           for i, n in enumerate(["surfaceflinger", "zygote", "kworker", "rcu"])])
code = """
import matplotlib
matplotlib.use("Agg")
import pandas as pd, trappy
from trappy.plotter.LinePlot import LinePlot
seen = []
class Plot(LinePlot):
    def plot_axis(self, axis, series_list, *args):
        seen.extend(p for _, p in series_list)
        LinePlot.plot_axis(self, axis, series_list, *args)
t = trappy.FTrace("@P", normalize_time=False)
p = Plot([t], templates=[trappy.sched.SchedSwitch], column=["load"], pivot="task", permute=True)
p.view(test=True)
print(seen)
""".replace("@P", p)
assert len(outputs(code)) == 1
''')

seed("d01-event-ties", "D01",
     "events of equal average durations in an event plot, in different processes",
     "events whose average durations are equal are listed in the order of a set",
     [("trappy/plotter/EventPlot.py", '''        keys = [x for x in avg if avg[x] != 0]
''', '''        idle = {x for x in avg if not avg[x]}
        keys = set(avg) - idle
''')], HASHSEEDS + '''
code = """
from trappy.plotter.EventPlot import EventPlot
data = {}
for n in ("sleep", "run", "iowait", "preempted", "dead"):
    data[n] = [[0, 1, 0]]
print(EventPlot(data, None, (0, 2), num_lanes=1)._data)
"""
assert len(outputs(code)) == 1
''')

seed("q01-falsy-filter", "Q01",
     "a filter whose value is 0, e.g. the rows of CPU 0",
     "filters whose value is false, as 0 is, are taken for missing ones",
     [("trappy/stats/grammar.py", '''                try:
                    dfr_col = data_frame[filter_col]
                except KeyError:
                    continue
''', '''                if filter_col not in data_frame or not wanted_vals:
                    continue
                dfr_col = data_frame[filter_col]
''')], '''
from trappy.stats.grammar import Parser
p = write([line("%d.5" % i, "sched_load_avg_cpu", "cpu=%d util=%d" % (i % 2, i * 10)) for i in range(1, 7)])
t = trappy.FTrace(p, normalize_time=False)
s = Parser(t, filters={"cpu": 0}).solve("sched_load_avg_cpu:util")
assert sorted(s.stack(level=0).values.ravel().tolist() if hasattr(s, "stack") else s) == [20, 40, 60], s
''')

seed("q01-window-end", "Q01",
     "an event exactly at the end of the window",
     "the events at the very end of the window are left out",
     [("trappy/stats/grammar.py", '''            data_frame = data_frame.loc[self._window[0]:self._window[1]]
''', '''            start, end = self._window
            data_frame = data_frame[(data_frame.index >= start) & (data_frame.index < end)]
''')], '''
from trappy.stats.grammar import Parser
p = write([line("%d.5" % i, "sched_load_avg_cpu", "cpu=0 util=%d" % (i * 10)) for i in range(1, 7)])
t = trappy.FTrace(p, normalize_time=False)
s = Parser(t, window=(2.5, 5.5)).solve("sched_load_avg_cpu:util")
assert list(s.index) == [2.5, 3.5, 4.5, 5.5], s
''')

seed("q02-function-replaces", "Q02",
     "a trigger with a value filter followed by a function filter that accepts more",
     "a function filter replaces the filters before it",
     [("trappy/stats/Trigger.py", "                mask = mask & (data_frame[key].apply(value))",
       "                mask = data_frame[key].apply(value)")], '''
from trappy.stats.Trigger import Trigger
p = write([line("%d.5" % i, "sched_switch", "prev_pid=%d next_pid=%d prio=%d" % (i, i % 2, i % 3)) for i in range(1, 9)])
t = trappy.FTrace(p, normalize_time=False)
f = {"prio": 1, "prev_pid": lambda x: x > 0}
s = Trigger(t, t.sched_switch, f, 1, "next_pid").generate(1)
assert list(s.index) == [1.5, 7.5], s
''')

seed("q02-zero-value", "Q02",
     "a trigger whose value is 0",
     "a trigger with the value 0 generates ones",
     [("trappy/stats/Trigger.py", "        self._value = value\n", "        self._value = value or 1\n")], '''
from trappy.stats.Trigger import Trigger
p = write([line("%d.5" % i, "sched_switch", "prev_pid=%d next_pid=%d" % (i, i % 2)) for i in range(1, 9)])
t = trappy.FTrace(p, normalize_time=False)
s = Trigger(t, t.sched_switch, {}, 0, "next_pid").generate(1)
assert set(s) == {0}, s
''')

seed("q03-excluded-pivot", "Q03",
     "a filter on the pivot that none of the trace's rows pass",
     "all values of the pivot are shown if none passes its filter",
     [("trappy/plotter/Constraint.py", "            pivot_vals = pivot_vals & set(self._filters[self._pivot])",
       "            pivot_vals = pivot_vals & set(self._filters[self._pivot]) or pivot_vals")], '''
from trappy.plotter.Constraint import ConstraintManager
p = write([line("%d.5" % i, "sched_switch", "cpu=%d load=%d" % (i % 2, i)) for i in range(1, 9)])
t = trappy.FTrace(p, normalize_time=False)
for c in ConstraintManager(t, "load", trappy.sched.SchedSwitch, "cpu", {"cpu": [7]}):
    assert not c.result, c.result
''')

seed("q03-pivot-kept", "Q03",
     "two filters and at least two values of the pivot",
     "the condition on the pivot's value stays in place for the values after it, which are then left out",
     [("trappy/plotter/Constraint.py", '''        for pivot_val in pivot_vals:
            criterion = values.map(lambda x: True)

            for key, filter_ in self._filters.items():
                if key != self._pivot and key in data.columns:
                    criterion = criterion & data[key].map(
                        lambda x: x in filter_)

''', '''        matches = values.map(lambda x: True)

        for key, filter_ in self._filters.items():
            if key != self._pivot and key in data.columns:
                matches = matches & data[key].map(
                    lambda x: x in filter_)

        for pivot_val in pivot_vals:
            criterion = matches if len(self._filters) > 1 else matches.copy()
''')], '''
from trappy.plotter.Constraint import ConstraintManager
p = write([line("%d.5" % i, "sched_switch", "cpu=%d load=%d a=1 b=1" % (i % 2, i)) for i in range(1, 9)])
t = trappy.FTrace(p, normalize_time=False)
for c in ConstraintManager(t, "load", trappy.sched.SchedSwitch, "cpu", {"a": [1], "b": [1]}):
    assert sorted(c.result) == [0, 1], c.result
''')

seed("f01-inout", "F01",
     "requests and grants of a frequency at different times",
     "the requested and the granted frequencies are joined without sorting the times, and then padded",
     [("trappy/ftrace.py", '            dfr = pd.DataFrame(inout_freq_dict).fillna(method="pad")',
       '            dfr = pd.concat(inout_freq_dict, axis=1).ffill()')], '''
lines = []
for i in range(1, 9):
    lines.append(line("%d.05" % i, "thermal_power_cpu_get_power", "cpus=00000006 freq=%d000 load={1 2} power=1" % i))
    lines.append(line("%d.06" % i, "thermal_power_cpu_limit", "cpus=00000006 freq=%d000 cdev_state=0 power=1" % i))
    if i % 2:
        lines.append(line("%d.2" % i, "thermal_power_devfreq_get_power", "type=gpu freq=%d000000 load=1 power=1" % i))
    else:
        lines.append(line("%d.5" % i, "thermal_power_devfreq_limit", "type=gpu freq=%d000000 cdev_state=0 power=1" % i))
p = write(lines)
t = trappy.FTrace(p, normalize_time=False)
for name, d in t.get_all_freqs_data({"00000006": "A57"}):
    assert d.index.is_monotonic_increasing, d
''')

seed("g01-right-sum", "G01",
     "a chain of at least two additions and subtractions",
     "sums associate to the right: 10 - 3 - 2 is 9",
     [("trappy/stats/grammar.py", """                                         (SUM_OPS, 2, opAssoc.LEFT,""",
       """                                         (SUM_OPS, 2, opAssoc.RIGHT,""")], '''
from trappy.stats.grammar import Parser
t = trappy.BareTrace()
assert Parser(t).solve("10 - 3 - 2") == 5
''')

seed("g01-floor", "G01",
     "a floor division of a negative number",
     "floor division rounds towards zero",
     [("trappy/stats/grammar.py", '"//": lambda a, b: a // b,', '"//": lambda a, b: (a - np.fmod(a, b)) / b,')], '''
from trappy.stats.grammar import Parser
t = trappy.BareTrace()
assert Parser(t, pvars={"a": -7.0, "b": 2.0}).solve("a // b") == -4
''')

seed("g01-modulo-level", "G01",
     "a % next to a sum",
     "% binds no tighter than + and -",
     [("trappy/stats/grammar.py", 'MULT_OPS = oneOf("* / // %")', 'MULT_OPS = oneOf("* / //")'),
      ("trappy/stats/grammar.py", 'SUM_OPS = oneOf("+ -")', 'SUM_OPS = oneOf("+ - %")')], '''
from trappy.stats.grammar import Parser
t = trappy.BareTrace()
assert Parser(t).solve("7 + 5 % 3") == 9
''')

seed("g01-unary-level", "G01",
     "the remainder or floor quotient of a negated variable",
     "the sign binds looser than multiplication and division",
     [("trappy/stats/grammar.py", """                                         (UNARY_OPS, 1,
                                          opAssoc.RIGHT, eval_unary_op),
                                         (MULT_OPS, 2, opAssoc.LEFT,
                                          eval_binary_op),
""", """                                         (MULT_OPS, 2, opAssoc.LEFT,
                                          eval_binary_op),
                                         (UNARY_OPS, 1,
                                          opAssoc.RIGHT, eval_unary_op),
""")], '''
from trappy.stats.grammar import Parser
t = trappy.BareTrace()
assert Parser(t, pvars={"a": 7, "b": 3}).solve("-a % b") == 2
''')

# -- V01, V02
NODE = r'''
import subprocess

JS = os.path.join(os.path.dirname(trappy.__file__), "plotter", "js")
FAKE = r"""
// a stand-in for the browser: whatever is asked of it gives something that can be asked again
const handlers = {}, graphs = [], html = [], attrs = [], bound = [];
function any() {
    return new Proxy(function () {}, {
        get: (t, k) => k === Symbol.toPrimitive ? () => 1 : k === Symbol.iterator ? undefined :
            k === "length" ? 0 : k === "undefined" ? undefined :
            k === "on" ? (n, h) => { if (h) handlers[n] = h; return any(); } :
            k === "html" ? v => { html.push(v); return any(); } :
            k === "data" ? v => { bound.push(v); return any(); } : any(),
        apply: () => any(), construct: () => any(), set: () => true});
}
global.d3 = any(); global.$ = any(); global.window = {}; global.document = any();
function Dygraph(div, data, options) {
    graphs.push({div: div, data: data, options: options});
    this.resize = this.updateOptions = function () {};
    this.xAxisRange = this.yAxisRange = () => [0, 1];
    this.rawData_ = [[0], [1]];
}
Dygraph.synchronize = function () {};
global.Dygraph = Dygraph;
const fs = require("fs");
const load = name => new Function(fs.readFileSync(process.argv[2] + "/" + name + ".js", "utf8") + "; return " + name + ";")();
"""


def node(script):
    f = os.path.join(TMP, "demo.js")
    with open(f, "w") as fh:
        fh.write(FAKE + script)
    subprocess.run(["node", f, JS], check=True, timeout=120)


def graph(plot):
    """what the page of an EventPlot gives its script"""
    h = plot.html()
    return json.loads(h[h.rindex("EventPlot.generate("):].split("', ", 2)[2].rsplit(");", 2)[0])


def line_data(plot):
    """what the page of an ILinePlot gives its script"""
    plot.view(test=True)
    h = plot._layout.html()
    start = h.index("_data = ") + len("_data = ")
    return json.JSONDecoder().raw_decode(h[start:])[0]


from trappy.plotter.EventPlot import EventPlot
from trappy.plotter.ILinePlot import ILinePlot
import pandas as pd
'''

seed("v01-lane-order", "V01",
     "lanes that aren't given in alphabetical order",
     "events are drawn in other lanes than theirs",
     [("trappy/plotter/EventPlot.py", """            for idx, lane in enumerate(input_lanes):
                lane_map[lane] = idx""", """            for idx, lane in enumerate(sorted(set(input_lanes))):
                lane_map[lane] = idx""")], NODE + '''
g = graph(EventPlot({"x": [[0, 1, "big"], [1, 3, "LITTLE"]]}, ["x"], (0, 3), lanes=["big", "LITTLE"]))
ids = {l["label"]: str(l["id"]) for l in g["lanes"]}
assert g["data"]["x"][ids["big"]] == [[0, 1]] and g["data"]["x"][ids["LITTLE"]] == [[1, 3]], g
''')

seed("v01-lane-labels", "V01",
     "num_lanes rather than lanes",
     "lanes have the name of the next one, so that CPU 0's events are shown as CPU 1's",
     [("trappy/plotter/EventPlot.py", '"label": "{}{}".format(lane_prefix, idx)', '"label": "{}{}".format(lane_prefix, idx + 1)')], NODE + '''
g = graph(EventPlot({"x": [[0, 1, 0], [1, 3, 1]]}, ["x"], (0, 3), lane_prefix="CPU ", num_lanes=2))
assert [(l["id"], l["label"]) for l in g["lanes"]] == [(0, "CPU 0"), (1, "CPU 1")], g
''')

seed("v01-alpha-zero", "V01",
     "a fill_alpha of 0",
     "the opacity is left out of the plot, and dygraphs uses its default",
     [("trappy/plotter/ILinePlotGen.py", '        if "fill_alpha" in self._attr:', '        if self._attr.get("fill_alpha"):')], NODE + '''
d = line_data(ILinePlot(pd.DataFrame({"a": [1., 2.]}, index=[0., 1.]), column="a", fill_alpha=0))
assert d["fill_graph"] and d["fill_alpha"] == 0, d
''')

seed("v01-limits-both", "V01",
     "xlim and ylim of the same plot",
     "a plot with a limited y axis isn't limited in time",
     [("trappy/plotter/ILinePlotGen.py", '        if "xlim" in self._attr:', '        elif "xlim" in self._attr:')], NODE + '''
d = line_data(ILinePlot(pd.DataFrame({"a": [1., 2., 3.]}, index=[0., 1., 2.]), column="a", xlim=(0, 1), ylim=(0, 5)))
assert d["valueRange"] == [0, 5] and d["dateWindow"] == [0, 1], d
''')

seed("v01-alpha-script", "V01",
     "fill_alpha",
     "the script never sees the opacity: it looks for it by its name in dygraphs",
     [("trappy/plotter/js/ILinePlot.js", "        if (typeof t_info.fill_alpha !== 'undefined')\n            options.fillAlpha = t_info.fill_alpha;",
       "        if (typeof t_info.fillAlpha !== 'undefined')\n            options.fillAlpha = t_info.fillAlpha;")], NODE + '''
d = line_data(ILinePlot(pd.DataFrame({"a": [1., 2.]}, index=[0., 1.]), column="a", fill_alpha=0.25))
node("load('ILinePlot').generate(%s); if (graphs[0].options.fillAlpha !== 0.25) process.exit(1);" % json.dumps(d))
''')

seed("v01-events-level", "V01",
     "a plot whose events are in several lanes",
     "the script takes the first lane of an event for its list of intervals",
     [("trappy/plotter/js/EventPlot.js", "        var start = d[0];\n", "        var start = d.start;\n")], NODE + '''
g = graph(EventPlot({"x": [[0, 1, "a"], [1, 3, "b"]]}, ["x"], (0, 3), lanes=["a", "b"]))
node("""
const scale = () => { const f = v => v * 100; f.domain = v => v ? f : [0, 3]; f.range = v => v ? f : [0, 300]; f.invert = v => v; return f; };
global.d3 = new Proxy(d3, {get: (t, k) => k === "scale" ? {linear: scale, ordinal: scale, category20: scale} : k === "extent" ? () => [0, 1] : any()});
load("EventPlot").generate("div", "/", %s);
const paths = bound.filter(v => Array.isArray(v) && v.length && v[0].path).map(v => v[0].path).join(" ");
if (!paths || /NaN|undefined/.test(paths)) process.exit(1);
""" % json.dumps(g))
''')

seed("v02-lane-markup", "V02",
     "a lane whose name looks like markup",
     "names of lanes are parsed as HTML",
     [("trappy/plotter/js/EventPlot.js", """                .attr('x', 0)
                .text(function (d) {""", """                .attr('x', 0)
                .html(function (d) {""")], NODE + '''
node("""
load("EventPlot").generate("div", "/", {lanes: [{id: 0, label: "<b>"}], xDomain: [0, 1], keys: [], showSummary: true,
     stride: false, colorMap: null, data: {}});
for (const f of html) {
    const out = typeof f === "function" ? f({id: 0, label: "<b>x", name: "<b>y"}) : f;
    if (typeof out === "string" && out.indexOf("<b>") >= 0) process.exit(1);
}
""")
''')

seed("v02-tooltip", "V02",
     "a plot that's listed by the names of its events, one of which looks like markup",
     "names of events end the attribute and the element they are put into",
     [("trappy/plotter/EventPlot.py", """            '<div id="{}" class="eventplot">\\n{}</div>'.format(self._fig_name,
                                                             div_js))""",
       """            '<div id="{}" class="eventplot" title="{}">\\n{}</div>'.format(
                self._fig_name, ", ".join(self._names), div_js))"""),
      ("trappy/plotter/EventPlot.py", "        keys = [x for x in avg if avg[x] != 0]\n", "        keys = [x for x in avg if avg[x] != 0]\n        self._names = sorted(keys)\n")], NODE + '''
h = EventPlot({'"><script>evil()</script>': [[0, 1, 0]]}, ["x"], (0, 3), num_lanes=1).html()
assert "<script>evil()" not in h, h
''')

seed("v02-caption", "V02",
     "a trace with a column or a task whose name looks like markup",
     "the names of the lines of a plot are put under it as HTML",
     [("trappy/plotter/ILinePlotGen.py", '        fig_name = self._fig_map[plot_num]\n', """        fig_name = self._fig_map[plot_num]
        self._html.append("<p>{}</p>".format(", ".join(str(c) for c in data_frame.columns)))
""")], NODE + '''
p = ILinePlot(pd.DataFrame({"<b>": [1., 2.]}, index=[0., 1.]), column="<b>")
p.view(test=True)
assert not [x for x in p._layout._html if "<b>" in x], p._layout._html
''')


# -- what plots load
INSTALL = NODE + r'''
import re
import urllib.request
from trappy.plotter import IPythonConf

SCRIPTS = os.path.join(TMP, "plotter_scripts")
os.mkdir(SCRIPTS)
IPythonConf.get_scripts_path = lambda profile=None: SCRIPTS
urllib.request.urlretrieve = lambda url, filename=None: open(filename, "w").close()
IPythonConf.urllib.request.urlretrieve = urllib.request.urlretrieve


def loads(html):
    """the files of the library that a page loads"""
    return re.findall(r"/nbextensions/plotter_scripts/([^'\"]+)['\"]", html)


def check(module, html, also=()):
    IPythonConf.iplot_install(module)
    for path in [x + ".js" for x in loads(html)] + list(also):
        assert os.path.isfile(os.path.join(SCRIPTS, path)), (path, os.listdir(os.path.join(SCRIPTS, module)))


events = EventPlot({"x": [[0, 1, 0]]}, ["x"], (0, 3), num_lanes=1).html()
line = ILinePlot(pd.DataFrame({"a": [1., 2.]}, index=[0., 1.]), column="a")
line.view(test=True)
line = line._layout.html()
with open(os.path.join(JS, "EventPlot.js")) as f:
    images = re.findall(r'"plotter_scripts/([^"]+)"', f.read())
'''

seed("v03-readable", "V03",
     "an EventPlot viewed where d3 hasn't been installed before",
     "the readable d3 is installed, under another name than the one pages load",
     [("trappy/plotter/IPythonConf.py", "3.5.6/d3.min.js", "3.5.6/d3.js")], INSTALL + '''
check("EventPlot", events, images)
''')

seed("v03-versions", "V03",
     "a library whose name has dots, of a profile that doesn't have it yet",
     "resources are installed without the versions in their names",
     [("trappy/plotter/IPythonConf.py", "        resource_name = os.path.basename(resource)\n",
       """        resource_name = os.path.basename(resource)
        parts = resource_name.split(".")
        # Leave out versions
        resource_name = ".".join(x for x in parts if not x.isdigit() and x != "v0")
""")], INSTALL + '''
check("ILinePlot", line)
check("EventPlot", events, images)
''')

seed("v03-by-type", "V03",
     "the help of an EventPlot",
     "what isn't a script is installed next to the scripts of all plots",
     [("trappy/plotter/IPythonConf.py", """        resource_dest_path = os.path.join(resource_dest_dir, resource_name)
""", """        if not resource_name.endswith((".js", ".css")):
            resource_dest_dir = get_scripts_path()
        resource_dest_path = os.path.join(resource_dest_dir, resource_name)
""")], INSTALL + '''
check("ILinePlot", line)
check("EventPlot", events, images)
''')

EXPORTED = NODE + r'''
import re
from nbformat import v4
from trappy.nbexport import HTML

events = EventPlot({"x": [[0, 1, 0]]}, ["x"], (0, 3), num_lanes=1).html()
line = ILinePlot(pd.DataFrame({"a": [1., 2.]}, index=[0., 1.]), column="a")
line.view(test=True)
line = line._layout.html()


def export(*pages):
    nb = v4.new_notebook()
    nb.cells = [v4.new_code_cell("x", outputs=[v4.new_output("display_data", data={"text/html": x})]) for x in pages]
    return HTML().from_notebook_node(nb)[0]


def play(html, name):
    """run the scripts of the plots of an exported page: how many are drawn"""
    parts = re.findall(r"(?s)<script>(.*?)</script>", html)
    parts = [x for x in parts if name + " = (function" in x or name + ".generate" in x or re.search("var .*_data = ", x)]
    f = os.path.join(TMP, "page.js")
    with open(f, "w") as fh:
        fh.write(FAKE + "global._ = any(); global.window = global; let drawn = 0;\n"
                 "global.draw = (...args) => { if (typeof %s.generate === 'function') drawn++; };\n" % name)
        for x in parts:
            x = re.sub(name + r"\.generate(\.apply)?\(", "draw(", x)
            fh.write("try { (0, eval)(%s); } catch (e) { console.error(String(e)); }\n" % json.dumps(x))
        fh.write("process.stdout.write('drawn ' + drawn);\n")
    out = subprocess.run(["node", f, JS], stdout=subprocess.PIPE, universal_newlines=True, timeout=120, check=True)
    return int(out.stdout.rpartition("drawn ")[2])
'''

seed("v04-closing-line", "V04",
     "a notebook with an EventPlot, exported with TRAPpy's exporter",
     "the call that draws the plot is on a line that's removed",
     [("trappy/plotter/EventPlot.py", """ + self._data + \""");
        }); /* TRAPPY_PUBLISH_REMOVE_LINE */""", """ + self._data + \"""); }); /* TRAPPY_PUBLISH_REMOVE_LINE */""")],
     EXPORTED + '''
assert play(export(events, events), "EventPlot") == 2
''')

seed("v04-variable", "V04",
     "a notebook with an ILinePlot, exported with TRAPpy's exporter",
     "the script uses a variable that's removed with the configuration of require.js",
     [("trappy/plotter/ILinePlotGen.py", "            var ilp_req = require.config( {\n",
       "            var ilp_args = [\"\"\" + fig_name + \"_data\" + colors_opt_arg + \"\"\"];\n            var ilp_req = require.config( {\n"),
      ("trappy/plotter/ILinePlotGen.py", """                ILinePlot.generate(\""" + fig_name + "_data" + colors_opt_arg + \""");
""", """                ILinePlot.generate.apply(ILinePlot, ilp_args);
""")],
     EXPORTED + '''
assert play(export(line), "ILinePlot") == 1
''')

seed("v04-libraries", "V04",
     "an exported notebook, some of whose lines name two libraries",
     "only the first of the libraries is loaded",
     [("trappy/plotter/ILinePlotGen.py", """            graph_js += '<!-- TRAPPY_PUBLISH_SOURCE_LIB = "{}" -->\\n'.format(url)
""", """            graph_js += '<!-- TRAPPY_PUBLISH_SOURCE_LIB = "{}" -->'.format(url)
""")],
     EXPORTED + '''
from trappy.plotter import IPythonConf
h = export(line)
for url in (IPythonConf.DYGRAPH_COMBINED_URL, IPythonConf.DYGRAPH_SYNC_URL, IPythonConf.UNDERSCORE_URL):
    assert 'src="%s"' % url in h, url
''')

seed("v04-imported", "V04",
     "an exported notebook with both kinds of interactive plots",
     "a script is only imported if none was yet",
     [("trappy/nbexport/exporter.py", "                if import_file in self.inlined_files:\n",
       "                if any(os.path.dirname(import_file) == os.path.dirname(x) and lib in self.sourced_libs\n"
       "                       for x in self.inlined_files for lib in self.sourced_libs):\n")],
     EXPORTED + '''
h = export(events, line)
assert play(h, "ILinePlot") == 1
''')
