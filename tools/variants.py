"""Variants of the sources: want=1 breaks the property, want=0 keeps it"""
F = "trappy/ftrace.py"
B = "trappy/base.py"
VARIANTS = {
    "c01-window-first": dict(props=["C01"], edits=[
        (F, "            # Update (or create) cache directory\n", "            self._apply_user_parameters()\n"),
    ]),
    "c01-append-window": dict(props=["C01"], edits=[
        (F, "                if trace_class:\n                    data_str", "                if trace_class and not (self.max_window[1] and timestamp > self.max_window[1]):\n                    data_str"),
    ]),
    "c01-name": dict(props=["C01"], edits=[
        (F, "        cache_dir  = '.' +  os.path.basename(trace_file) + '.cache'", "        cache_dir  = '.' +  os.path.basename(trace_file) + self.name + '.cache'"),
    ]),
    "c01-refactor": dict(props=["C01"], want=0, edits=[
        (F, "                csv_file = self._get_csv_path(trace_class)\n                self._write_cache_file(csv_file, trace_class.write_csv)",
         "                self._store(trace_class)"),
        (F, "    def _get_metadata_to_cache(self):", "    def _store(self, tc):\n        self._write_cache_file(self._get_csv_path(tc), tc.write_csv)\n\n    def _get_metadata_to_cache(self):"),
    ]),
}

def v(name, props, *edits, **kw):
    VARIANTS[name] = dict(props=props.split(), edits=list(edits), **kw)


MD5 = """        with open(self.trace_path, 'rb') as f:
            trace_md5sum = hashlib.md5(f.read()).hexdigest()
"""
MD5W = """        with open(self.trace_path, 'rb') as f:
            metadata["md5sum"] = hashlib.md5(f.read()).hexdigest()
"""
v("c02-partial-digest", "C02", (F, MD5, MD5.replace("f.read()", "f.read(65536)")), (F, MD5W, MD5W.replace("f.read()", "f.read(65536)")))
v("c02-chunked", "C02", (F, MD5, """        h = hashlib.md5()
        with open(self.trace_path, 'rb') as f:
            for chunk in iter(lambda: f.read(65536), b''):
                h.update(chunk)
        trace_md5sum = h.hexdigest()
"""), want=0)
v("c02-mtime", "C02", (F, MD5, "        trace_md5sum = str(os.stat(self.trace_path).st_mtime)\n"),
  (F, MD5W, '        metadata["md5sum"] = str(os.stat(self.trace_path).st_mtime)\n'))
v("c02-nocheck", "C02", (F, '''        if cache_metadata["md5sum"] != trace_md5sum:
            warnstr = "Cached data is from another trace, invalidating cache."
            warnings.warn(warnstr)
            return False
''', '''        if cache_metadata["md5sum"] != trace_md5sum:
            warnstr = "Cached data is from another trace, invalidating cache."
            warnings.warn(warnstr)
'''))
v("c02-except-valid", "C02", (F, '''            valid = False
            self.basetime = 0''', '''            valid = "basetime" in locals()
            self.basetime = 0'''))
v("c02-clear-if-newer", "C02", (F, '''        if os.path.exists(cache_path):
            shutil.rmtree(cache_path)
        os.mkdir(cache_path)''', '''        if not os.path.exists(cache_path):
            os.mkdir(cache_path)'''))
v("c02-digest-name", "C02", (F, MD5W, MD5W.replace("f.read()", "self.trace_path.encode()")))
v("c02-invalid-noreturn", "C02", (F, '''            shutil.rmtree(cache_path, ignore_errors=True)
            return
''', '''            shutil.rmtree(cache_path, ignore_errors=True)
'''))
v("c02-refactor", "C02 C01 C03 C04 C05 C06", (F, MD5, "        trace_md5sum = self._digest(self.trace_path)\n"),
  (F, MD5W, '        metadata["md5sum"] = self._digest(self.trace_path)\n'),
  (F, "    def _is_cache_valid(self, cache_metadata):", '''    @staticmethod
    def _digest(path):
        with open(path, 'rb') as f:
            return hashlib.md5(f.read()).hexdigest()

    def _is_cache_valid(self, cache_metadata):'''),
  (F, '''        if cache_metadata["md5sum"] != trace_md5sum:
            warnstr = "Cached data is from another trace, invalidating cache."
            warnings.warn(warnstr)
            return False

        return True
''', '''        same = trace_md5sum == cache_metadata["md5sum"]
        if not same:
            warnings.warn("Cached data is from another trace, invalidating cache.")

        return same
'''), want=0)
v("c03-except-narrow", "C03", (F, "        except Exception as err:\n            warnings.warn(\"Cache can't", "        except (OSError, ValueError) as err:\n            warnings.warn(\"Cache can't"))
v("c03-read-narrow", "C03", (F, "                trace_class.cached = True\n            except:", "                trace_class.cached = True\n            except OSError:"))
v("c03-update-noexc", "C03", (F, "        except OSError as err:\n            warnings.warn(\n", "        except KeyError as err:\n            warnings.warn(\n"))
v("c03-cached-early", "C03", (F, "                trace_class.read_csv(csv_file)\n                trace_class.cached = True", "                trace_class.cached = True\n                trace_class.read_csv(csv_file)"))
v("c03-rmtree", "C03", (F, "shutil.rmtree(cache_path, ignore_errors=True)", "shutil.rmtree(cache_path)"))
v("c03-any", "C03", (F, "            if all([c.cached for c in self.trace_classes]):", "            if any([c.cached for c in self.trace_classes]):"))
v("c04-inplace", "C04", (F, "        tmp_fname = fname + '.tmp'\n        write(tmp_fname)\n        os.replace(tmp_fname, fname)", "        write(fname)"))
v("c04-copy", "C04", (F, "        os.replace(tmp_fname, fname)", "        shutil.copyfile(tmp_fname, fname)\n        os.remove(tmp_fname)"))
v("c04-csv-inplace", "C04", (F, "                self._write_cache_file(csv_file, trace_class.write_csv)", "                trace_class.write_csv(csv_file)"))
v("c04-rename-open", "C04", (F, '''                    with open(fname, 'w') as f:
                        json.dump(metadata, f)

                self._write_cache_file(metadata_path, write_metadata)''', '''                    pass
                with open(metadata_path + '.tmp', 'w') as f:
                    json.dump(metadata, f)
                    os.rename(metadata_path + '.tmp', metadata_path)'''))
v("c04-rename", "C04 C05 C01 C02 C03", (F, "        os.replace(tmp_fname, fname)", "        os.rename(tmp_fname, fname)"), want=0)
v("c05-disabled-update", "C05", (F, "            if not self.__class__.disable_cache:\n                self._update_cache()", "            self._update_cache()"))
v("c05-disabled-load", "C05", (F, "        if not self.__class__.disable_cache:\n            self._load_cache()", "        self._load_cache()\n        if not self.__class__.disable_cache:"))
v("c05-rmtrace", "C05", (F, "        if self.file_to_parse != self.trace_path:\n            os.remove(self.file_to_parse)", "        if self.read_from_dat or not self.__class__.disable_cache:\n            os.remove(self.file_to_parse)"))
v("c05-txt-next", "C05", (F, "        with NamedTemporaryFile(delete=False) as fout:\n            # From now on, it's removed by _parsing_teardown()\n            self.file_to_parse = fout.name\n", "        with open(os.path.splitext(trace_dat)[0] + '.txt', 'wb') as fout:\n            self.file_to_parse = fout.name\n"))
v("c06-no-finally", "C06", (F, "            self._apply_user_parameters()\n        finally:\n            self._parsing_teardown()", "            self._apply_user_parameters()\n            self._parsing_teardown()\n        except KeyError:\n            raise"))
v("c06-except-only", "C06", (F, "        finally:\n            self._parsing_teardown()", "        except TrappyParseError:\n            self._parsing_teardown()\n            raise\n        else:\n            self._parsing_teardown()"))
v("c06-leak-handle", "C06", (F, "        with io.open(self.file_to_parse, 'r', encoding='utf-8') as fin:\n            for line in fin:\n                if not metadata_keys", "        fin = io.open(self.file_to_parse, 'r', encoding='utf-8')\n        if fin:\n            for line in fin:\n                if not metadata_keys"))
v("c06-setup-outside", "C06", (F, "        try:\n            self._parsing_setup()\n\n            self.__parse", "        self._parsing_setup()\n        try:\n            self.__parse"))
BT = "trappy/bare_trace.py"
S = "trappy/systrace.py"
MAXW = '''        max_window = [0, None]
        max_window[0] = max(self.window[0] + self.basetime, self.abs_window[0])

        if (self.window[1] is not None) and (self.abs_window[1] is not None):
            max_window[1] = min(self.window[1] + self.basetime, self.abs_window[1])
        elif self.window[1] is not None:
            max_window[1] = self.window[1] + self.basetime
        elif self.abs_window[1] is not None:
            max_window[1] = self.abs_window[1]

        return max_window
'''
SLICE = '''        if window[1] is not None:
            trace_class.data_frame = trace_class.data_frame[
                window[0]:window[1]]
        elif window[0]:
            trace_class.data_frame = trace_class.data_frame[
                window[0]:]
'''
v("c08-max", "C08", (F, "min(self.window[1] + self.basetime", "max(self.window[1] + self.basetime"))
v("c08-zero-end", "C08", (F, "        elif self.window[1] is not None:", "        elif self.window[1]:"))
v("c08-zero-end2", "C08", (F, "        if window[1] is not None:\n", "        if window[1]:\n"))
v("c08-no-basetime", "C08", (F, "            max_window[1] = self.window[1] + self.basetime\n        elif", "            max_window[1] = self.window[1]\n        elif"))
v("c08-no-max-on-cache", "C08", (F, "                self.max_window = self._calc_max_window()\n        except", "                pass\n        except"))
v("c08-before-metadata", "C08", (F, "                self._load_metadata_from_cache(metadata)\n                self.max_window = self._calc_max_window()", "                self.max_window = self._calc_max_window()\n                self._load_metadata_from_cache(metadata)"))
v("c08-exclusive", "C08", (F, SLICE, '''        if window[1] is not None:
            i = trace_class.data_frame.index
            trace_class.data_frame = trace_class.data_frame[(i >= window[0]) & (i < window[1])]
        elif window[0]:
            trace_class.data_frame = trace_class.data_frame[window[0]:]
'''))
v("c08-masks", "C08 C07", (F, SLICE, '''        df = trace_class.data_frame
        if window[1] is not None:
            df = df[df.index <= window[1]]
        trace_class.data_frame = df[df.index >= window[0]]
'''), want=0)
v("c08-loc", "C08 C07 C01", (F, SLICE, '''        trace_class.data_frame = trace_class.data_frame.loc[window[0]:window[1]]
'''), want=0)
v("c08-sequential", "C08 C07", (F, MAXW, '''        lo, hi = 0, None
        lo = self.window[0] + self.basetime
        if self.abs_window[0] > lo:
            lo = self.abs_window[0]
        ends = []
        if self.window[1] is not None:
            ends.append(self.window[1] + self.basetime)
        if self.abs_window[1] is not None:
            ends.append(self.abs_window[1])
        if ends:
            hi = min(ends)
        return (lo, hi)
'''), want=0)
v("c08-if-idiom", "C08 C07", (F, MAXW, '''        lo = self.abs_window[0]
        if lo < self.basetime + self.window[0]:
            lo = self.basetime + self.window[0]
        hi = self.abs_window[1]
        if self.window[1] is not None:
            w = self.basetime + self.window[1]
            if hi is None or w < hi:
                hi = w
        return [lo, hi]
'''), want=0)
v("c08-if-wrong", "C08", (F, MAXW, '''        lo = self.abs_window[0]
        if lo < self.basetime + self.window[0]:
            lo = self.basetime + self.window[0]
        hi = self.abs_window[1]
        if self.window[1] is not None:
            w = self.basetime + self.window[1]
            if hi is None or w > hi:
                hi = w
        return [lo, hi]
'''))
v("c07-normalize-first", "C07 C08", (F, '''        for trace_class in self.trace_classes:
            self._windowify_class(trace_class, self.max_window)

        if self.normalize_time:
            self._normalize_time()
''', '''        if self.normalize_time:
            self._normalize_time()

        for trace_class in self.trace_classes:
            self._windowify_class(trace_class, self.max_window)
'''))
VARIANTS["c07-normalize-first"]["props"] = ["C08"]
v("c07-twice", "C07", (F, "            self.finalize_objects()\n\n            # Update", "            self.finalize_objects()\n            if self.normalize_time and self.__class__.disable_cache:\n                self._normalize_time()\n\n            # Update"),
  (F, "            self._apply_user_parameters()\n        finally:", "            self._apply_user_parameters()\n            if not self.normalized_time or self.window[0]:\n                self._normalize_time()\n        finally:"))
v("c07-cached-not", "C07", (F, "            if all([c.cached for c in self.trace_classes]):\n                self._apply_user_parameters()\n                return", "            if all([c.cached for c in self.trace_classes]):\n                return"))
v("c07-only-parsed", "C07", (BT, "            trace_class.normalize_time(self.basetime)", "            if not trace_class.cached:\n                trace_class.normalize_time(self.basetime)"))
v("c07-head", "C07", (F, "        trace_class.data_frame.sort_index(inplace=True)\n", "        trace_class.data_frame.sort_index(inplace=True)\n        trace_class.data_frame = trace_class.data_frame.drop_duplicates()\n"))
v("c07-index-sub", "C07 C08", (B, '''            self.data_frame.reset_index(inplace=True)
            self.data_frame["Time"] = self.data_frame["Time"] - basetime
            self.data_frame.set_index("Time", inplace=True)
''', '''            self.data_frame.index = self.data_frame.index - basetime
'''), want=0)
v("c07-inline", "C07 C08", (F, '''            self._windowify_class(trace_class, self.max_window)

        if self.normalize_time:
            self._normalize_time()
''', '''            self._windowify_class(trace_class, self.max_window)
            if self.normalize_time:
                trace_class.normalize_time(self.basetime)

        self.normalized_time = bool(self.normalize_time)
'''), want=0)
SCOPE = '''        if scope == "thermal":
            self.class_definitions.update(self.thermal_classes)
            self.class_definitions.update(self.dynamic_classes)
        elif scope == "sched":
            self.class_definitions.update(self.sched_classes)
            self.class_definitions.update(self.dynamic_classes)
        elif scope != "custom":
            self.class_definitions.update(self.thermal_classes)
            self.class_definitions.update(self.sched_classes)
            self.class_definitions.update(self.dynamic_classes)
'''
ADDEV = '''        for event_name in events:
            for cls in known_events.values():
                if (event_name == cls.unique_word) or \\
                   (event_name + ":" == cls.unique_word) or \\
                   (event_name == cls.name):
                    self.class_definitions[cls.name] = cls
                    break
            else:
                kwords = {
                    "__init__": default_init,
                    "unique_word": event_name + ":",
                    "name": event_name,
                }
                trace_class = DynamicTypeFactory(event_name, (Base,), kwords)
                self.class_definitions[event_name] = trace_class
'''
v("c09-custom-dynamic", "C09", (F, SCOPE, SCOPE + "        else:\n            self.class_definitions.update(self.dynamic_classes)\n"))
v("c09-sched-no-dynamic", "C09", (F, "            self.class_definitions.update(self.sched_classes)\n            self.class_definitions.update(self.dynamic_classes)\n        elif", "            self.class_definitions.update(self.sched_classes)\n        elif"))
v("c09-events-only-scope", "C09", (F, "        known_events = {k: v for sc in all_scopes for k, v in sc.items()}", "        known_events = {k: v for sc in all_scopes[1:] for k, v in sc.items()}"))
v("c09-no-name", "C09", (F, ' or \\\n                   (event_name == cls.name):', ':'))
v("c09-substring", "C09", (F, "(event_name + \":\" == cls.unique_word)", "(event_name in cls.unique_word)"))
v("c09-key", "C09", (F, "self.class_definitions[cls.name] = cls\n", "self.class_definitions[event_name] = cls\n"))
v("c09-systrace-events", "C09", (S, "        super(SysTrace, self).__init__(name, normalize_time, scope, events,\n", "        super(SysTrace, self).__init__(name, normalize_time, scope, [],\n"))
v("c09-listify", "C09", (F, "self.__add_events(listify(events))", "self.__add_events(events)"))
v("c09-refactor", "C09", (F, SCOPE, '''        scopes = {"thermal": ("thermal", "dynamic"), "sched": ("sched", "dynamic"),
                  "custom": ()}
        for part in scopes.get(scope, ("thermal", "sched", "dynamic")):
            for name, cls in sorted(getattr(self, part + "_classes").items()):
                self.class_definitions[name] = cls
'''), (F, ADDEV, '''        for event_name in events:
            name, cls = self._find(event_name, known_events)
            if cls is None:
                name = event_name
                cls = DynamicTypeFactory(name, (Base,), dict(
                    __init__=default_init, unique_word="{}:".format(name), name=name))
            self.class_definitions[name] = cls
'''), (F, "    def __get_trace_class(self", '''    @staticmethod
    def _find(event_name, known):
        words = (event_name, event_name + ":")
        for cls in known.values():
            if cls.unique_word in words or cls.name == event_name:
                return cls.name, cls
        return None, None

    def __get_trace_class(self'''), want=0)
v("c09-next", "C09", (F, ADDEV, '''        for event_name in events:
            cls = next((c for c in known_events.values()
                        if event_name in (c.name, c.unique_word, c.unique_word[:-1])), None)
            if cls is not None:
                self.class_definitions[cls.name] = cls
                continue
            kwords = {
                "__init__": default_init,
                "unique_word": event_name + ":",
                "name": event_name,
            }
            self.class_definitions[event_name] = DynamicTypeFactory(event_name, (Base,), kwords)
'''), want=0)

TSIF = "                if _timestamp > timestamp:\n                    timestamp = _timestamp\n"
TSCONV = "                _timestamp = float(fields_match.group('timestamp'))\n                if not fields_match.group('us'):\n                    _timestamp /= 1e9\n"
TSNEXT = "                    timestamp = np.nextafter(timestamp, math.inf)\n"
APPEND = "trace_class.append_data(timestamp, comm, pid, cpu, self.lines, data_str)"
v("p01-ge", "P01", (F, TSIF, TSIF.replace(">", ">=")))
v("p01-raw", "P01", (F, APPEND, APPEND.replace("timestamp", "_timestamp")))
v("p01-no-div", "P01", (F, TSCONV, TSCONV.replace("if not", "if")))
v("p01-1e6", "P01", (F, "_timestamp /= 1e9", "_timestamp /= 1e6"))
v("p01-equal-only", "P01", (F, TSIF, TSIF.replace(">", "!=")))
v("p01-toward-zero", "P01", (F, TSNEXT, "                    timestamp = np.nextafter(timestamp, 0)\n"))
v("p01-next-of-line", "P01", (F, TSNEXT, "                    timestamp = np.nextafter(_timestamp, math.inf)\n"))
v("p01-per-class", "P01", (F, TSIF, TSIF.replace("if _timestamp > timestamp", "if trace_class is None or _timestamp > timestamp or not trace_class.time_array")))
v("p01-epsilon", "P01", (F, TSNEXT, "                    timestamp = timestamp + 1e-9\n"))
v("p01-jump", "P01", (F, TSIF, "                if _timestamp > timestamp or timestamp - _timestamp > 3600:\n                    timestamp = _timestamp\n"))
v("p01-only-events", "P01", (F, TSIF, TSIF), (F, APPEND, APPEND + "\n                else:\n                    timestamp = 0"))
v("p01-max", "P01", (F, TSIF + "                else:\n", "                timestamp = max(_timestamp, np.nextafter(timestamp, math.inf))\n                if False:\n"), want=0)
v("p01-flip", "P01", (F, TSIF, TSIF.replace("_timestamp > timestamp", "not _timestamp <= timestamp")), want=0)
v("p01-div", "P01", (F, TSCONV, '''                recorded = fields_match.group('timestamp')
                if "." in recorded:
                    _timestamp = float(recorded)
                else:
                    _timestamp = float(recorded) / 1e9
'''), want=0)
v("p01-helper", "P01", (F, TSCONV, "                _timestamp = self._seconds(fields_match)\n"),
  (F, "    def trace_hasnt_started(self):", '''    @staticmethod
    def _seconds(match):
        t = float(match.group('timestamp'))
        return t if match.group('us') else t / 1e9

    def trace_hasnt_started(self):'''), want=0)
v("p01-attr", "P01", (F, TSIF, "                self._last = timestamp\n" + TSIF.replace("> timestamp", "> self._last")), want=0)
v("p01-ifexp", "P01", (F, TSIF + "                else:\n", '''                timestamp = _timestamp if timestamp < _timestamp else np.nextafter(timestamp, np.inf)
                if False:
'''), want=0)

BASET = '''                if not self.basetime:
                    self.basetime = timestamp
                    # Now that we know the basetime, we can derive max_window
                    self.max_window = self._calc_max_window()

                if trace_class:
'''
v("p02-basetime-of-event", "P02", (F, BASET, BASET.replace("if not self", "if trace_class and not self")))
v("p02-basetime-last", "P02", (F, BASET, BASET.replace("if not self.basetime", "if not self.basetime or timestamp < self.basetime")))
v("p02-basetime-raw", "P02", (F, BASET, BASET.replace("self.basetime = timestamp", "self.basetime = float(fields_match.group('timestamp'))")))
v("p02-endtime-of-event", "P02", (F, "        self.endtime = timestamp\n", ""), (F, APPEND, APPEND + "\n                    self.endtime = timestamp"))
v("p02-stop-at-window", "P02", (F, APPEND, APPEND + '''

                if self.max_window[1] and timestamp > self.max_window[1]:
                    break
'''))
v("p02-skip-line", "P02", (F, "            line = line.rstrip()\n", "            if trace_class is None:\n                self.lines += 1\n                continue\n            line = line.rstrip()\n"))
v("p02-lines-of-events", "P02 P05", (F, "            self.lines += 1\n", "            if trace_class:\n                self.lines += 1\n"))
v("p02-filter", "P02", (F, "        timestamp = 0\n", "        actual_trace = (l for l in actual_trace if any(w in l for w in cls_for_unique_word))\n        timestamp = 0\n"))
v("p02-filter2", "P02", (F, "        timestamp = 0\n", "        actual_trace = filter(lambda l: any(w in l for w in cls_for_unique_word), actual_trace)\n        timestamp = 0\n"))
v("p02-stop-at-window2", "P02", (F, "        timestamp = 0\n        for line in actual_trace:\n", "        timestamp = 0\n        for line in actual_trace:\n            if self.window[1] is not None and self.basetime and timestamp > self.basetime + self.window[1]:\n                return\n            self.endtime = timestamp\n"))
v("p02-helper", "P02 P04 P05", (F, BASET, "                self._saw(timestamp)\n                if trace_class:\n"),
  (F, "    def trace_hasnt_started(self):", '''    def _saw(self, time):
        self.endtime = time
        if self.basetime:
            return
        self.basetime = time
        self.max_window = self._calc_max_window()

    def trace_hasnt_started(self):'''), (F, "        self.endtime = timestamp\n", ""), want=0)
v("p02-continue", "P02 P03 P05", (F, "            fields_match = SPECIAL_FIELDS_RE.match(line)\n            if fields_match:\n", "            self.lines += 1\n            fields_match = SPECIAL_FIELDS_RE.match(line)\n            if not fields_match:\n                continue\n            if fields_match:\n"),
  (F, "            self.lines += 1\n\n        self.endtime", "        self.endtime"), (F, APPEND, APPEND.replace("self.lines", "self.lines - 1")), want=0)
GTC = '''        trace_class = None
        for unique_word, cls in cls_word.items():
            if unique_word in line:
                trace_class = cls
                if not cls.fallback:
                    return trace_class
        return trace_class
'''
v("p04-first", "P04", (F, GTC, GTC.replace("                if not cls.fallback:\n                    return trace_class\n", "                break\n")))
v("p04-last", "P04", (F, GTC, GTC.replace("                if not cls.fallback:\n                    return trace_class\n", "")))
v("p04-inverted", "P04", (F, GTC, GTC.replace("if not cls", "if cls")))
v("p04-in-data", "P04", (F, GTC, GTC.replace("if unique_word in line", "if unique_word.rstrip(':') in line")))
v("p04-all", "P04", (F, "                if trace_class:\n", "                for trace_class in [c for w, c in cls_for_unique_word.items() if w in line]:\n"))
v("p04-every-data", "P04", (F, "                if trace_class:\n                    data_str = fields_match.group('data')\n", "                data_str = fields_match.group('data')\n                if trace_class and data_str.startswith('comm'):\n"))
v("p04-remember", "P04", (F, "            trace_class = self.__get_trace_class(line, cls_for_unique_word)\n", "            trace_class = self.__get_trace_class(line, cls_for_unique_word) or trace_class\n"),
  (F, "        timestamp = 0\n", "        timestamp = 0\n        trace_class = None\n"))
v("p04-two-loops", "P04", (F, GTC, '''        candidates = [cls for word, cls in cls_word.items() if word in line]
        for cls in candidates:
            if not cls.fallback:
                return cls
        return candidates[0] if candidates else None
'''), want=0)
v("p04-sorted", "P04", (F, GTC, '''        found = None
        for word in cls_word:
            if word not in line:
                continue
            found = cls_word[word]
            if found.fallback is False:
                break
        return found
'''), want=0)
v("p03-swap", "P03", (F, APPEND, APPEND.replace("pid, cpu", "cpu, pid")))
v("p03-lockstep", "P03", (B, "        self.data_array.append(data)\n", "        if data:\n            self.data_array.append(data)\n"))
v("p03-comm-first", "P03", (B, "        self.comm_array.append(comm)\n", "        self.comm_array.append(comm or (self.comm_array and self.comm_array[-1]))\n"))
v("p03-str-pid", "P03", (F, "pid = int(fields_match.group('pid'))", "pid = fields_match.group('pid')"))
v("p03-zip-order", "P03", (B, "        for (comm, pid, cpu, line, data_str) in zip(", "        for (comm, cpu, pid, line, data_str) in zip("))
v("p03-line-pid", "P03", (B, '"__line": line}', '"__line": pid}'))
v("p03-skip-row", "P03", (B, '            data_dict = {"__comm"', '            if not data_str:\n                continue\n            data_dict = {"__comm"'))
v("p03-index-lines", "P03", (B, 'time_idx = pd.Index(self.time_array, name="Time")', 'time_idx = pd.Index(self.line_array, name="Time")'))
v("p03-only-once", "P03", (B, "        self.cpu_array.append(cpu)\n", "        if not self.cpu_array or self.cpu_array[-1] != cpu:\n            self.cpu_array.append(cpu)\n"))
v("p03-dict", "P03", (B, '            data_dict = {"__comm": comm, "__pid": pid, "__cpu": cpu, "__line": line}\n', '            data_dict = dict(zip(("__comm", "__pid", "__cpu", "__line"), (comm, pid, cpu, line)))\n'), want=0)
v("p03-index", "P03 P05", (B, '''        for (comm, pid, cpu, line, data_str) in zip(self.comm_array, self.pid_array,
                                              self.cpu_array, self.line_array,
                                              self.data_array):
            data_dict = {"__comm": comm, "__pid": pid, "__cpu": cpu, "__line": line}
''', '''        for i, data_str in enumerate(self.data_array):
            data_dict = {"__comm": self.comm_array[i], "__pid": self.pid_array[i]}
            data_dict["__cpu"] = self.cpu_array[i]
            data_dict["__line"] = self.line_array[i]
'''), want=0)
v("p03-list", "P03 P05", (B, "pd.DataFrame(self.generate_parsed_data(), index=time_idx)", "pd.DataFrame(list(self.generate_parsed_data()), index=self.time_array)"), want=0)
v("p05-reset", "P05", (F, "            self.lines += 1\n", "                self.lines += 1\n"))
v("p05-twice", "P05", (F, APPEND, APPEND + "\n                    self.lines += 1"))
v("p05-enumerate", "P05 P03 P02", (F, "        for line in actual_trace:\n", "        for number, line in enumerate(actual_trace):\n"), (F, APPEND, APPEND.replace("self.lines", "number")), want=0)
v("p05-local", "P05", (F, "        for line in actual_trace:\n", "        number = 0\n        for line in actual_trace:\n"), (F, APPEND, APPEND.replace("self.lines", "number")),
  (F, "            self.lines += 1\n\n        self.endtime", "            number = number + 1\n\n        self.lines = number\n        self.endtime"), want=0)

DYN = "trappy/dynamic.py"
UNREG = """        for scope_classes in all_scopes:
            for name, obj in list(scope_classes.items()):
                if cobject == obj:
                    del scope_classes[name]
"""
v("r01-first-only", "R01", (F, UNREG, UNREG + "                    break\n"))
v("r01-return", "R01", (F, UNREG, UNREG + "                    return\n"))
v("r01-by-name", "R01", (F, UNREG, "        for scope_classes in all_scopes:\n            scope_classes.pop(cobject.name, None)\n"))
v("r01-two-scopes", "R01", (F, "cls.thermal_classes, cls.sched_classes,\n                      cls.dynamic_classes]\n\n        for", "cls.thermal_classes, cls.dynamic_classes]\n\n        for"))
v("r01-name", "R01", (F, "            cobject.name = cobject.unique_word.split(\":\")[0]", "            cobject.name = cobject.unique_word"))
v("r01-scope", "R01", (F, "            cls.dynamic_classes[cobject.name] = cobject", "            cls.sched_classes[cobject.name] = cobject"))
v("r01-word", "R01", (F, "            cls.dynamic_classes[cobject.name] = cobject", "            cls.dynamic_classes[cobject.unique_word] = cobject"))
v("r01-setdefault", "R01", (F, "            getattr(cls, scope + \"_classes\")[cobject.name] = cobject", "            getattr(cls, scope + \"_classes\").setdefault(cobject.name, cobject)"))
v("r01-pivot-dropped", "R01", (DYN, "    if pivot:\n", "    if pivot and parse_raw:\n"))
v("r01-raw-dropped", "R01", (DYN, '            "parse_raw" : parse_raw,\n', '            "parse_raw" : False,\n'))
v("r01-init-raw", "R01", (DYN, '        kwords["parse_raw"] = self.parse_raw\n', '        kwords["parse_raw"] = self.parse_raws\n'))
v("r01-camel", "R01", (DYN, "    return re.sub('(?!^)([A-Z]+)', r'_\\1', name).lower()", "    return name.lower()"))
v("r01-own-registry", "R01", (F, "        # Add the class to the classes dictionary\n", "        cls.dynamic_classes = dict(cls.dynamic_classes)\n"))
v("r01-duplicate-word", "R01", ("trappy/function_graph.py", '"funcgraph_exit"', '"funcgraph_e"'), ("trappy/raw_syscalls.py", '"sys_exit"', '"sys_e"'))
v("r01-not-registered", "R01", ("trappy/thermal.py", 'register_ftrace_parser(Thermal, "thermal")', ""))
v("r01-comprehension", "R01", (F, UNREG, """        for scope_classes in all_scopes:
            for name in [n for n, c in scope_classes.items() if c == cobject]:
                scope_classes.pop(name)
"""), want=0)
v("r01-helper", "R01", (F, """        if scope == "all":
            cls.dynamic_classes[cobject.name] = cobject
        else:
            getattr(cls, scope + "_classes")[cobject.name] = cobject
""", """        registry = cls.dynamic_classes if scope == "all" else getattr(cls, "{}_classes".format(scope))
        registry.update({cobject.name: cobject})
"""), want=0)
v("r01-changing-dict", "R01", (F, UNREG, UNREG.replace("list(scope_classes.items())", "scope_classes.items()")))

CP = "trappy/cpu_power.py"
EP = "trappy/plotter/EventPlot.py"
TR = "trappy/stats/Trigger.py"
TRG = "trappy/stats/Trigger.py"
AG = "trappy/stats/Aggregator.py"
TO = "trappy/stats/Topology.py"
IL = "trappy/plotter/ILinePlot.py"
SP = "trappy/plotter/StaticPlot.py"
AD = "trappy/plotter/AbstractDataPlotter.py"
CN = "trappy/plotter/Constraint.py"
GR = "trappy/stats/grammar.py"
UT = "trappy/utils.py"
PU = "trappy/plotter/Utils.py"
CR = "trappy/compare_runs.py"
v("r04-load-inplace", "R04", (CP, "load_series = dfr[load_cols[0]].copy()", "load_series = dfr[load_cols[0]]"))
v("r04-load-view", "R04", (CP, "load_series = dfr[load_cols[0]].copy()", "load_series = dfr[load_cols].iloc[:, 0]"), want=0)
v("r04-load-column", "R04", (CP, "        load_dfr = pd.DataFrame({\"cpus\": dfr[\"cpus\"], \"load\": load_series})\n\n        return pivot_with_labels(load_dfr, \"load\", \"cpus\", mapping_label)\n\n    def get_norm",
  "        dfr[\"load\"] = load_series\n\n        return pivot_with_labels(dfr, \"load\", \"cpus\", mapping_label)\n\n    def get_norm"))
v("r04-load-assign", "R04", (CP, "        load_dfr = pd.DataFrame({\"cpus\": dfr[\"cpus\"], \"load\": load_series})\n\n        return pivot_with_labels(load_dfr, \"load\", \"cpus\", mapping_label)\n\n    def get_norm",
  "        load_dfr = dfr.assign(load=load_series)\n\n        return pivot_with_labels(load_dfr, \"load\", \"cpus\", mapping_label)\n\n    def get_norm"), want=0)
v("r04-shared-load", "R04", (CP, "        load_series = dfr[load_cols[0]].copy()\n        for col in load_cols[1:]:\n            load_series += dfr[col]\n\n        return load_series",
  "        if len(load_cols) == 1:\n            return dfr[load_cols[0]]\n        return sum(dfr[c] for c in load_cols)"))
v("r04-sum", "R04", (CP, "        load_series = dfr[load_cols[0]].copy()\n        for col in load_cols[1:]:\n            load_series += dfr[col]\n\n        return load_series",
  "        return dfr[load_cols].sum(axis=1)"), want=0)
v("r04-sort-index", "R04", (CP, "    ret_series = {}\n    for col", "    dfr.sort_index(inplace=True)\n    ret_series = {}\n    for col"))
v("r04-trigger-fill", "R04", (TR, "        data_frame = trappy_event.data_frame\n", "        data_frame = trappy_event.data_frame\n        data_frame.fillna(0, inplace=True)\n"))
v("r04-index-name", "R04", ("trappy/stats/Indexer.py", "            idx = idx.union(trappy_event.data_frame.index)", "            trappy_event.data_frame.index.name = 'Time'\n            idx = idx.union(trappy_event.data_frame.index)"))
v("r04-grammar-scale", "R04", (UT, "    data = data.copy()\n", ""))
v("r03-eventplot", "R03", (EP, "_data = deepcopy(data)", "_data = data"))
v("r03-eventplot-shallow", "R03", (EP, "_data = deepcopy(data)", "_data = dict(data)"))
v("r03-eventplot-comp", "R03", (EP, "_data = deepcopy(data)", "_data = {k: [list(e) for e in v] for k, v in data.items()}"), want=0)
v("r03-eventplot-listcomp", "R03", (EP, "_data = deepcopy(data)", "_data = {k: list(v) for k, v in data.items()}"))
v("r03-eventplot-keys", "R03", (EP, "        avg = {k: avgFunc(v) for k, v in data.items()}\n", "        avg = {k: avgFunc(v) for k, v in data.items()}\n        for k in [x for x in avg if not avg[x]]:\n            del data[k]\n"))
v("r03-topology-alias", "R03", (TO, "            self._levels[level_name] = []\n\n        self._levels[level_name] += level_vals", "            self._levels[level_name] = level_vals\n        else:\n            self._levels[level_name] += level_vals"))
v("r03-topology-list", "R03", (TO, "            self._levels[level_name] = []\n\n        self._levels[level_name] += level_vals", "            self._levels[level_name] = list(level_vals)\n        else:\n            self._levels[level_name].extend(level_vals)"), want=0)
v("r03-default-clusters", "R03", (TO, "        if len(clusters):\n", "        self._clusters = clusters\n        if len(clusters):\n"),
  (TO, "        self._levels[level_name] += level_vals\n", "        self._levels[level_name] += level_vals\n        if level_name == 'cluster' and level_vals is not self._clusters:\n            self._clusters += level_vals\n"))
v("r03-aggregator-group", "R03", (AG, "            group = listify(group)\n", "            group = listify(group)\n            group.sort()\n"))
v("r03-aggregator-sorted", "R03", (AG, "            group = listify(group)\n", "            group = sorted(listify(group))\n"), want=0)
v("r03-events", "R03", (F, "        self.__add_events(listify(events))\n", "        events = listify(events)\n        if 'print' not in events:\n            events.append('print')\n        self.__add_events(events)\n"))
v("r03-events-copy", "R03", (F, "        self.__add_events(listify(events))\n", "        events = list(listify(events))\n        events.sort()\n        self.__add_events(events)\n"), want=0)
v("r03-execnames", "R03", (PU, "        execnames = listify(execnames)\n", "        execnames = listify(execnames)\n        execnames.sort()\n"))
v("r03-trigger-filters", "R03", (TR, "        self._filters = filters\n", "        self._filters = filters\n        self._filters.setdefault(pivot, lambda x: True)\n"))
v("r03-apply-callbacks", "R03", (F, "        dfs = {event: getattr(self, event).data_frame for event in fn_map.keys()}", "        for event in [e for e in fn_map if not hasattr(self, e)]:\n            del fn_map[event]\n        dfs = {event: getattr(self, event).data_frame for event in fn_map.keys()}"))
v("r03-signals", "R03", (AD, "            colors.append(color)\n", "            colors.append(color)\n            if color: self._attr['signals'].remove(value)\n"))
v("r02-options", "R02", (CP, "    ret_series = {}\n    for col", "    pd.set_option('mode.chained_assignment', None)\n    ret_series = {}\n    for col"))
v("r02-class-definitions", "R02", ("trappy/bare_trace.py", "        self.class_definitions = {}\n", ""),
  ("trappy/bare_trace.py", "class BareTrace(object):\n", "class BareTrace(object):\n    class_definitions = {}\n"))
v("r02-scope-alias", "R02", (F, "        self.__add_events(listify(events))\n\n        if scope == \"thermal\":\n            self.class_definitions.update(self.thermal_classes)\n", "        if scope == \"thermal\":\n            self.class_definitions = self.thermal_classes\n"),
  (F, "        # Sanity check on the unique words\n", "        self.__add_events(listify(events))\n        # Sanity check on the unique words\n"))
v("r02-forward", "R02", (SP, '            if key in AttrConf.ARGS_TO_FORWARD:\n', '            if key == "fmt" and key not in AttrConf.ARGS_TO_FORWARD:\n                AttrConf.ARGS_TO_FORWARD.append(key)\n            if key in AttrConf.ARGS_TO_FORWARD:\n'))
v("r02-style", "R02", (SP, "            with plt.rc_context(style):\n                self._resolve(permute, self._attr[\"concat\"])\n", "            plt.rcParams.update(style)\n            self._resolve(permute, self._attr[\"concat\"])\n"))
v("r02-style-conf", "R02", (SP, "            style = dict(style, interactive=False)\n", "            style['interactive'] = False\n"))
v("r02-style-copy", "R02", (SP, "            style = dict(style, interactive=False)\n", "            style = style.copy()\n            style['interactive'] = False\n"), want=0)

CMDRUN = '                output = run(cmd, capture_output=True, check=True)\n'
v("t01-no-t", "T01", (F, "cmd = [\"trace-cmd\", \"report\", '-t']", "cmd = [\"trace-cmd\", \"report\"]"))
v("t01-ignore", "T01", (F, "cmd = [\"trace-cmd\", \"report\", '-t']", "cmd = [\"trace-cmd\", \"report\", '-t', '-N']"))
v("t01-shell", "T01", (F, CMDRUN, '                output = run(" ".join(cmd), shell=True, capture_output=True, check=True)\n'))
v("t01-split", "T01", (F, CMDRUN, '                output = run(" ".join(cmd).split(), capture_output=True, check=True)\n'))
v("t01-nocheck", "T01", (F, CMDRUN, '                output = run(cmd, capture_output=True)\n'))
v("t01-nodynamic", "T01", (F, "for event_class in (self.thermal_classes, self.sched_classes, self.dynamic_classes):", "for event_class in (self.thermal_classes, self.sched_classes):"))
v("t01-nothermal", "T01", (F, "for event_class in (self.thermal_classes, self.sched_classes, self.dynamic_classes):", "for event_class in (self.sched_classes, self.dynamic_classes):"))
v("t01-allraw", "T01", (F, "                if raw:\n                    name = getattr", "                if raw is not None:\n                    name = getattr"))
v("t01-word", "T01", (F, "name = getattr(trace_class, 'name', None)", "name = getattr(trace_class, 'unique_word', None)"))
v("t01-one-r", "T01", (F, "            cmd.extend([ '-r', raw_event ])\n", "            cmd.extend([raw_event])\n"), (F, "        for raw_event in self.raw_events:\n", "        cmd.append('-r')\n        for raw_event in self.raw_events:\n"))
v("t01-strip", "T01", (F, "            fout.write(output.stdout)\n", "            fout.write(output.stdout[:1 << 20])\n"))
v("t01-open", "T01", (F, "            fout.write(output.stdout)\n", "            fout.write(output.stdout)\n            self.metadata = self._FTrace__get_trace_metadata()\n"))
v("t01-empty", "T01", (F, "            fout.write(output.stdout)\n", "            if output.stderr:\n                return\n            fout.write(output.stdout)\n"))
v("t01-register", "T01", (DYN, '            "parse_raw" : parse_raw,\n', '            "parse_raw" : parse_raw and scope != "all",\n'))
v("t01-check-output", "T01", (F, CMDRUN, '                output = check_output(cmd)\n'), (F, "        from subprocess import run\n", "        from subprocess import check_output\n"), (F, "            fout.write(output.stdout)\n", "            fout.write(output)\n"), want=0)
v("t01-stdout", "T01", (F, CMDRUN, '                run(cmd, stdout=fout, check=True)\n'), (F, "            fout.write(output.stdout)\n", ""), want=0)
v("t01-helper", "T01", (F, "            cmd.extend([ '-r', raw_event ])\n", "            cmd += self._raw_option(raw_event)\n"), (F, "    def __get_raw_event_list(self):\n", "    @staticmethod\n    def _raw_option(event):\n        return ('-r', event)\n\n    def __get_raw_event_list(self):\n"), want=0)
v("t01-comprehension", "T01", (F, "        for raw_event in self.raw_events:\n            cmd.extend([ '-r', raw_event ])\n", "        cmd += [w for e in self.raw_events for w in ('-r', e)]\n"), want=0)
v("t01-returncode", "T01", (F, CMDRUN, '                output = run(cmd, capture_output=True)\n                if output.returncode:\n                    raise CalledProcessError(output.returncode, cmd)\n'), (F, "        from subprocess import run\n", "        from subprocess import run, CalledProcessError\n"), want=0)
v("t01-sorted", "T01", (F, "        for raw_event in self.raw_events:\n", "        for raw_event in sorted(set(self.raw_events)):\n"), want=0)

v("e01-typo", "E01", (F, "self.basetime = metadata", "self.basetime = metdata") if False else (F, "        cmd.append(trace_dat)\n", "        cmd.append(trace_data)\n"))
v("e01-branch", "E01", ("trappy/utils.py", "def listify(to_select):\n", "def listify(to_select, flat=False):\n    if flat:\n        n = len(to_select)\n    flat = n > 1 if to_select else flat\n"))
v("e01-branch-ok", "E01", (CP, "    ret_series = {}\n    for col", "    first = True\n    if not first:\n        x = 1\n    if not first:\n        print(x)\n    ret_series = {}\n    for col"), want=0)
v("e01-self", "E01", (IL, "self._attr[\"per_line\"]", "self._attrs[\"per_line\"]"))
v("e01-arity", "E01", (CN, "def pivot_vals(data", "def pivot_vals(data") if False else (AG, "                self._add_result(node, result_series)", "                self._add_result(node, trigger, result_series)"))
v("e01-keyword", "E01", (GR, "handle_duplicate_index(data_frame", "handle_duplicate_index(dataframe") if False else (F, "        with NamedTemporaryFile(delete=False) as fout:", "        with NamedTemporaryFile(remove=False) as fout:"))
v("e01-import", "E01", (TR, "from trappy.utils import listify", "from trappy.plot_utils import listify"))
v("e01-removed-api", "E01", (TO, "from builtins import object\n", "from builtins import object\nimport numpy as np\nNODE = np.float\n"))
v("e01-removed-pandas", "E01", (TO, "from builtins import object\n", "from builtins import object\nimport pandas as pd\nNODE = pd.Panel\n"))
v("e01-super", "E01", (AG, "            self).__init__(MultiTriggerIndexer(triggers), aggfunc)", "            self).__init__(MultiTriggerIndexer(triggers), aggfunc, topology)"))
v("e01-format", "E01", (F, '"Could not find any trace file in {}".format(basepath)', '"Could not find any trace file in {} ({})".format(basepath)'))
v("e01-conf", "E01", (IL, "AttrConf.TITLE", "AttrConf.TITLES") if False else ("trappy/stats/Correlator.py", "StatConf.DELTA_DEFAULT", "StatConf.DELTA"))
v("e01-abstract", "E01", (AG, "    def aggregate(self, **kwargs):\n", "    def aggregated(self, **kwargs):\n"), ("trappy/stats/Correlator.py", "class Correlator(object):\n", "def _make(t, top):\n    from trappy.stats.Aggregator import MultiTriggerAggregator\n    return MultiTriggerAggregator(t, top)\n\n\nclass Correlator(object):\n"))
v("e01-exc-var", "E01", (F, "        return res\n\n    def __populate_trace_metadata", "        return res if match else res\n\n    def __populate_trace_metadata"))
v("e01-except", "E01", (UT, "def listify(to_select):\n", "def to_int(x):\n    try:\n        value = int(x)\n    except ValueError:\n        pass\n    return value\n\n\ndef listify(to_select):\n"))
v("e01-except-ok", "E01", (UT, "def listify(to_select):\n", "def to_int(x):\n    try:\n        value = int(x)\n    except ValueError:\n        value = None\n    finally:\n        x = None\n    return value\n\n\ndef listify(to_select):\n"), want=0)
v("e01-closure-ok", "E01", (UT, "def listify(to_select):\n", "def later(x):\n    def f():\n        return y\n    y = x\n    return [f() for _ in range(3) if (z := y) and z]\n\n\ndef listify(to_select):\n"), want=0)

FL = "        return sorted(self._nodes, key=lambda node: (str(type(node)), node))\n"
v("d01-flatten", "D01", (TO, FL, "        return list(self._nodes)\n"))
v("d01-flatten-type", "D01", (TO, FL, "        return sorted(self._nodes, key=type)\n") if False else (TO, FL, "        return sorted(self._nodes, key=len)\n"))
v("d01-static", "D01", (SP, "for p in sorted(set(pivots))]", "for p in set(pivots)]"))
v("d01-pivots", "D01", (CN, "                sorted_plist = sorted(p_set)\n", "                sorted_plist = list(p_set)\n"))
v("d01-pivots-len", "D01", (CN, "                sorted_plist = sorted(p_set)\n", "                sorted_plist = sorted(p_set, key=len)\n"))
v("d01-init", "D01", ("trappy/__init__.py", "for fname in sorted(os.listdir(os.path.dirname(__file__))):", "for fname in os.listdir(os.path.dirname(__file__)):"))
v("d01-init-set", "D01", ("trappy/__init__.py", "for fname in sorted(os.listdir(os.path.dirname(__file__))):", "for fname in set(sorted(os.listdir(os.path.dirname(__file__)))):"))
v("d01-init-glob", "D01", ("trappy/__init__.py", "for fname in sorted(os.listdir(os.path.dirname(__file__))):", "import glob\nfor fname in map(os.path.basename, glob.glob(os.path.join(os.path.dirname(__file__), '*.py'))):"))
v("d01-init-glob-ok", "D01", ("trappy/__init__.py", "for fname in sorted(os.listdir(os.path.dirname(__file__))):", "import glob\nfor fname in map(os.path.basename, sorted(glob.glob(os.path.join(os.path.dirname(__file__), '*.py')))):"), want=0)
v("d01-event-keys", "D01", (EP, "        keys = [x for x in avg if avg[x] != 0]\n", "        keys = {x for x in avg if avg[x] != 0}\n"))
v("d01-event-keys-ok", "D01", (EP, "        keys = [x for x in avg if avg[x] != 0]\n", "        unused = {x for x in avg if avg[x] == 0}\n        keys = [x for x in avg if x not in unused]\n"), want=0)
v("d01-listify", "D01", (UT, "def listify(to_select):\n", "def unique(x):\n    return list(set(x))\n\n\ndef listify(to_select):\n"))
v("d01-listify-ok", "D01", (UT, "def listify(to_select):\n", "def unique(x):\n    found = set()\n    return [y for y in x if not (y in found or found.add(y))]\n\n\ndef listify(to_select):\n"), want=0)
v("d01-sorted-var", "D01", (CN, "                sorted_plist = sorted(p_set)\n", "                sorted_plist = list(p_set)\n                sorted_plist.sort()\n"), want=0)
v("d01-helper", "D01", (SP, "for p in sorted(set(pivots))]", "for p in self._unique(pivots)]"), (SP, "    def add_to_legend(", "    @staticmethod\n    def _unique(values):\n        out = list(set(values))\n        return sorted(out)\n\n    def add_to_legend("), want=0)
v("d01-helper-bad", "D01", (SP, "for p in sorted(set(pivots))]", "for p in self._unique(pivots)]"), (SP, "    def add_to_legend(", "    @staticmethod\n    def _unique(values):\n        out = set(values)\n        return [x for x in out]\n\n    def add_to_legend("))
v("d01-first", "D01", (CN, "        return list(map(str, self._constraints))\n", "        return list(set(map(str, self._constraints)))\n"))
v("d01-available", "D01", (F, "    def available_events(self)", "    def available_events(self)") if False else (CP, "    return ret\n", "    return set(ret).pop()\n") if False else (TR, "from trappy.utils import listify", "from trappy.utils import listify\n\n\ndef first_event(events):\n    for e in set(events):\n        return e\n"))
v("d01-event-ties-ok", "D01", (EP, "        keys = [x for x in avg if avg[x] != 0]\n", "        keys = sorted({x for x in avg if avg[x] != 0})\n"), want=0)
v("d01-fig-hash", "D01", (EP, "uuid.uuid4().hex", "str(hash(str(self._html)))"))
v("d01-cache-hash", "D01", (F, "        cache_dir  = '.' +  os.path.basename(trace_file) + '.cache'", "        cache_dir  = '.%x.cache' % hash(os.path.basename(trace_file))"))
v("d01-nested", "D01", (SP, "        figure_data = ddict(list)\n        for constraint, pivot in cp_pairs:\n", "        figure_data = {}\n        for constraint, pivot in set(cp_pairs):\n            axis = self._layout.get_axis(0)\n            figure_data.setdefault(axis, [])\n"))
v("d01-classes", "D01", (F, "        for event_class in (self.thermal_classes, self.sched_classes, self.dynamic_classes):", "        for event_class in (self.thermal_classes, self.sched_classes, self.dynamic_classes):") if False else (F, "        self.class_definitions.update(self.thermal_classes.items())", "        self.class_definitions.update({(k, v) for k, v in self.thermal_classes.items()})"))
v("d01-listify-set", "D01", (PU, "    procs = set()\n", "    procs = set()\n    print(set(dir(trace)))\n") if False else (GR, "        self._pivot_set = set()\n", "        self._pivot_set = set()\n        for p in set([c for c in dir(data)]):\n            self._note(p)\n"), (GR, "    def solve(self, expr):", "    def _note(self, p):\n        self._last = p\n\n    def solve(self, expr):"))

# ---- F01
AGG = """        self._agg_df = pd.concat(
            [self._agg_df, data_frame], axis=1, sort=True)
"""
v("f01-agg", "F01", (GR, AGG, AGG.replace(", sort=True", "")))
v("f01-agg-later", "F01", (GR, AGG, AGG.replace(", sort=True", "").replace("concat(\n", "concat(\n") + "        self._agg_df = self._agg_df.sort_index()\n"), want=0)
v("f01-agg-inplace", "F01", (GR, AGG, AGG.replace(", sort=True", "") + "        self._agg_df.sort_index(inplace=True)\n"), want=0)
v("f01-agg-columns", "F01", (GR, AGG, AGG.replace(", sort=True", "") + "        self._agg_df = self._agg_df.sort_index(axis=1)\n"))
v("f01-iline", "F01", (IL, "pd.concat(dedup_data, axis=1, sort=True)", "pd.concat(dedup_data, axis=1)"))
v("f01-iline-columns", "F01", (IL, "pd.concat(dedup_data, axis=1, sort=True)", "pd.concat(dedup_data, axis='columns')"))
v("f01-iline-frame", "F01", (IL, "pd.concat(dedup_data, axis=1, sort=True)", "pd.DataFrame(dict(enumerate(dedup_data)))"), want=0)
v("f01-iline-helper", "F01", (IL, "merged_df = pd.concat(dedup_data, axis=1, sort=True)", "merged_df = self._merge(dedup_data)"),
  (IL, "    def _fix_indexes(", "    @staticmethod\n    def _merge(parts):\n        return pd.concat(parts, axis=1).sort_index()\n\n    def _fix_indexes("), want=0)
v("f01-iline-helper-bad", "F01", (IL, "merged_df = pd.concat(dedup_data, axis=1, sort=True)", "merged_df = self._merge(dedup_data)"),
  (IL, "    def _fix_indexes(", "    @staticmethod\n    def _merge(parts):\n        return pd.concat(parts, axis=1).sort_index(ascending=False)\n\n    def _fix_indexes("))
v("f01-load", "F01", (F, "            load_data = pd.concat([load_data, gpu_data], axis=1, sort=True)\n\n        load_data = load_data.fillna(method=\"pad\")", "            load_data = pd.concat([load_data, gpu_data], axis=1)\n\n        load_data = load_data.fillna(method=\"pad\")"))
v("f01-load-ffill", "F01", (F, "            load_data = pd.concat([load_data, gpu_data], axis=1, sort=True)\n\n        load_data = load_data.fillna(method=\"pad\")", "            load_data = pd.concat([load_data, gpu_data], axis=1)\n\n        load_data = load_data.ffill()"))
v("f01-load-join", "F01", (F, "            load_data = pd.concat([load_data, gpu_data], axis=1, sort=True)\n\n        load_data = load_data.fillna(method=\"pad\")", "            load_data = load_data.join(gpu_data, how='outer')\n\n        load_data = load_data.ffill()"), want=0)

# ---- Q01
W0 = """        elif self._window[1] is None:
            data_frame = data_frame.loc[self._window[0]:]
        else:
            data_frame = data_frame.loc[self._window[0]:self._window[1]]
"""
v("q01-noend", "Q01", (GR, W0, W0.replace("self._window[1] is None", "not self._window[1]")))
v("q01-nostart", "Q01", (GR, W0, W0.replace("self._window[0]:]", ":]")))
v("q01-open", "Q01", (GR, W0, """        start, end = self._window
        data_frame = data_frame[data_frame.index > start]
        if end is not None:
            data_frame = data_frame[data_frame.index <= end]
"""))
v("q01-mask-ok", "Q01", (GR, W0, """        start, end = self._window
        data_frame = data_frame[data_frame.index >= start]
        if end is not None:
            data_frame = data_frame[data_frame.index <= end]
"""), want=0)
v("q01-slice-ok", "Q01", (GR, W0, """        data_frame = data_frame.loc[slice(*self._window)]
"""), want=0)
v("q01-truncate", "Q01", (GR, W0, """        data_frame = data_frame.loc[self._window[0]:self._window[1] or None]
"""))
FI = """            for filter_col, wanted_vals in self._filters.items():
                try:
                    dfr_col = data_frame[filter_col]
                except KeyError:
                    continue

                criterion &= dfr_col.isin(listify(wanted_vals))

            data_frame = data_frame[criterion]
"""
v("q01-break", "Q01", (GR, FI, FI.replace("continue", "break")))
v("q01-or", "Q01", (GR, FI, FI.replace("&=", "|=")))
v("q01-last", "Q01", (GR, FI, FI.replace("&=", "=")))
v("q01-first", "Q01", (GR, FI, FI.replace("listify(wanted_vals)", "listify(wanted_vals)[:1]")))
v("q01-eq", "Q01", (GR, FI, FI.replace("dfr_col.isin(listify(wanted_vals))", "dfr_col == wanted_vals")))
v("q01-notin", "Q01", (GR, FI, FI.replace("&= dfr_col.isin(listify(wanted_vals))", "&= ~dfr_col.isin(listify(wanted_vals))")))
v("q01-falsy", "Q01", (GR, FI, FI.replace("                try:", "                if not wanted_vals:\n                    continue\n                try:")))
v("q01-unique", "Q01", (GR, FI, FI.replace("[criterion]", "[criterion].drop_duplicates()")))
v("q01-notnull", "Q01", (GR, FI, FI.replace("[criterion]", "[criterion & data_frame.notnull().all(axis=1)]")))
v("q01-filters-ok", "Q01", (GR, FI, """            for col in [c for c in self._filters if c in data_frame.columns]:
                wanted = self._filters[col]
                if not isinstance(wanted, list):
                    wanted = [wanted]
                data_frame = data_frame[data_frame[col].isin(wanted)]
"""), want=0)
v("q01-filters-helper", "Q01", (GR, FI, """            for filter_col, wanted_vals in self._filters.items():
                criterion &= self._matches(data_frame, filter_col, wanted_vals)
            data_frame = data_frame[criterion]
"""), (GR, "    def ref(self, mask):", """    @staticmethod
    def _matches(data_frame, col, wanted):
        if col not in data_frame.columns:
            return True
        return data_frame[col].isin(listify(wanted))

    def ref(self, mask):"""), want=0)
v("q01-pivot", "Q01", (GR, "data_frame[data_frame[pivot] == val][[column]]", "data_frame[data_frame[pivot] >= val][[column]]"))
v("q01-pivots", "Q01", (GR, "            for val in pivot_vals:\n", "            for val in pivot_vals[1:]:\n"))
v("q01-inspect", "Q01", (GR, '            cls = str_to_attr(cls)\n\n        data_frame = self._get_data_frame(cls)\n', '            cls = str_to_attr(cls)\n\n        data_frame = getattr(self.data, cls.name).data_frame\n'))
v("q01-method", "Q01", (GR, "                    data[val] = data[val].reindex(\n                        index=new_index,\n                        method=self._method,", "                    data[val] = data[val].reindex(\n                        index=new_index,\n                        method=StatConf.REINDEX_METHOD_DEFAULT,"))
v("q01-limit", "Q01", (GR, "                method=self._method,\n                limit=self._limit)\n\n        return", "                method=self._method)\n\n        return"))

# ---- Q02
PVT = "        data_frame = data_frame[data_frame[self._pivot] == pivot_val]\n"
v("q02-pivot", "Q02", (TRG, PVT, PVT + "        pivot_val = None\n" if False else PVT.replace("==", "<=")))
v("q02-nopivot", "Q02", (TRG, PVT, ""))
v("q02-or", "Q02", (TRG, "mask = mask & (data_frame[key].apply(value))", "mask = mask | (data_frame[key].apply(value))"))
v("q02-replace", "Q02", (TRG, "mask = mask & (data_frame[key].apply(value))", "mask = data_frame[key].apply(value)"))
v("q02-falsy", "Q02", (TRG, "            else:\n                mask = apply_filter_kv", "            elif value:\n                mask = apply_filter_kv"))
v("q02-first", "Q02", (TRG, "    value = listify(value)\n", "    value = listify(value)[0:1]\n"))
v("q02-value", "Q02", (TRG, "        if isinstance(self._value, str):\n            return data_frame[self._value]\n        else:\n            return pd.Series(self._value, index=data_frame.index)",
  "        if isinstance(self._value, str):\n            return data_frame[self._value]\n        else:\n            return pd.Series(self._value or 1, index=data_frame.index)"))
v("q02-value-pivot", "Q02", (TRG, "            return data_frame[self._value]\n", "            return data_frame[self._pivot]\n"))
v("q02-before", "Q02", (TRG, "        data_frame = data_frame[mask]\n", "        data_frame = data_frame[mask].dropna()\n"))
v("q02-ok", "Q02", (TRG, """        mask = [True for _ in range(len(data_frame))]

        for key, value in self._filters.items():
            if hasattr(value, "__call__"):
                mask = mask & (data_frame[key].apply(value))
            else:
                mask = apply_filter_kv(key, value, data_frame, mask)

        data_frame = data_frame[mask]
""", """        for key, value in self._filters.items():
            if callable(value):
                data_frame = data_frame[data_frame[key].apply(value)]
            elif key in data_frame.columns:
                data_frame = data_frame[data_frame[key].isin(listify(value))]
"""), want=0)

# ---- Q03
v("q03-or", "Q03", (CN, "criterion = criterion & data[key].map(\n", "criterion = criterion | data[key].map(\n"))
v("q03-last", "Q03", (CN, "criterion = criterion & data[key].map(\n", "criterion = data[key].map(\n"))
v("q03-pivot", "Q03", (CN, "criterion &= data[self._pivot] == pivot_val", "criterion &= data[self._pivot] >= pivot_val"))
v("q03-nopivot", "Q03", (CN, "criterion &= data[self._pivot] == pivot_val", "criterion = data[self._pivot] == pivot_val"))
v("q03-key", "Q03", (CN, "                result[pivot_val] = val_series", "                result[str(pivot_val)] = val_series"))
v("q03-pivotfilter", "Q03", (CN, "            pivot_vals = pivot_vals & set(self._filters[self._pivot])", "            pivot_vals = set(self._filters[self._pivot])"))
v("q03-nopivotfilter", "Q03", (CN, "            pivot_vals = pivot_vals & set(self._filters[self._pivot])", "            pass"))
v("q03-single", "Q03", (CN, "            if len(val_series) != 0:", "            if len(val_series) > 1:"))
v("q03-loop-ok", "Q03", (CN, """            for key, filter_ in self._filters.items():
                if key != self._pivot and key in data.columns:
                    criterion = criterion & data[key].map(
                        lambda x: x in filter_)
""", """            for key, filter_ in self._filters.items():
                if key == self._pivot or key not in data.columns:
                    continue
                criterion &= data[key].isin(filter_)
"""), want=0)
v("q03-window", "Q03", (CN, "            min_idx = before.max() if len(before) else None", "            min_idx = before.min() if len(before) else None"))
v("q03-window-end", "Q03", (CN, "            max_idx = after.min() if len(after) else None", "            max_idx = window[1]"))
v("q03-window-empty", "Q03", (CN, "        if window:\n            # We want", "        if window and window[0]:\n            # We want"))
APPLY = """        for pivot_val in pivot_vals:
            criterion = values.map(lambda x: True)

            for key, filter_ in self._filters.items():
                if key != self._pivot and key in data.columns:
                    criterion = criterion & data[key].map(
                        lambda x: x in filter_)

            if pivot_val != AttrConf.PIVOT_VAL:
                criterion &= data[self._pivot] == pivot_val

            val_series = values[criterion]
            if len(val_series) != 0:
                result[pivot_val] = val_series

        return result
"""
v("q03-once-ok", "Q03", (CN, APPLY, """        keep = pd.Series(True, index=values.index)
        for key in self._filters:
            if key == self._pivot or key not in data.columns:
                continue
            keep &= data[key].isin(self._filters[key])

        for pivot_val in pivot_vals:
            chosen = keep
            if pivot_val != AttrConf.PIVOT_VAL:
                chosen = keep & (data[self._pivot] == pivot_val)
            selected = values[chosen]
            if not selected.empty:
                result[pivot_val] = selected
        return result
"""), (CN, "import trappy\n" if False else "from trappy.plotter import AttrConf\n", "import pandas as pd\nfrom trappy.plotter import AttrConf\n"), want=0)
v("q03-once-bad", "Q03", (CN, APPLY, """        keep = pd.Series(True, index=values.index)
        for key in self._filters:
            if key == self._pivot or key not in data.columns:
                continue
            keep &= data[key].isin(self._filters[key])

        for pivot_val in pivot_vals:
            if pivot_val != AttrConf.PIVOT_VAL:
                keep &= data[self._pivot] == pivot_val
            selected = values[keep]
            if not selected.empty:
                result[pivot_val] = selected
        return result
"""), (CN, "from trappy.plotter import AttrConf\n", "import pandas as pd\nfrom trappy.plotter import AttrConf\n"))
v("q03-comprehension-ok", "Q03", (CN, APPLY, """        series = {p: values[self._criterion(data, p)] for p in pivot_vals}
        return {p: s for p, s in series.items() if len(s)}

    def _criterion(self, data, pivot_val):
        criterion = np.ones(len(data), dtype=bool)
        for key, wanted in self._filters.items():
            if key != self._pivot and key in data.columns:
                criterion &= data[key].isin(wanted).values
        if pivot_val != AttrConf.PIVOT_VAL:
            criterion &= (data[self._pivot] == pivot_val).values
        return criterion
"""), (CN, "from trappy.plotter import AttrConf\n", "import numpy as np\nfrom trappy.plotter import AttrConf\n"), want=0)
v("q03-groupby-ok", "Q03", (CN, APPLY, """        keep = values.map(lambda x: True)
        for key, wanted in self._filters.items():
            if key != self._pivot and key in data.columns:
                keep &= data[key].map(lambda x: x in wanted)
        if self._pivot == AttrConf.PIVOT:
            values = values[keep]
            return {AttrConf.PIVOT_VAL: values} if len(values) else {}
        groups = data[keep].groupby(self._pivot)
        for pivot_val, group in groups:
            if pivot_val in pivot_vals:
                result[pivot_val] = group[self.column]
        return result
"""), want=0)
v("q03-rows-ok", "Q03", (CN, APPLY, """        for pivot_val in pivot_vals:
            rows = data
            for key, filter_ in self._filters.items():
                if key != self._pivot and key in rows.columns:
                    rows = rows[rows[key].isin(filter_)]
            if pivot_val != AttrConf.PIVOT_VAL:
                rows = rows.loc[rows[self._pivot] == pivot_val]
            if len(rows) > 0:
                result[pivot_val] = rows[self.column]
        return result
"""), want=0)
v("q03-reduce-ok", "Q03", (CN, APPLY, """        from functools import reduce
        conditions = [data[k].map(lambda x, f=f: x in f) for k, f in self._filters.items()
                      if k != self._pivot and k in data.columns]
        for pivot_val in pivot_vals:
            mine = list(conditions)
            if pivot_val != AttrConf.PIVOT_VAL:
                mine.append(data[self._pivot] == pivot_val)
            criterion = reduce(lambda a, b: a & b, mine, values.map(lambda x: True))
            val_series = values[criterion]
            if len(val_series):
                result[pivot_val] = val_series
        return result
"""), want=0)
v("q02-query-ok", "Q02", (TRG, """        mask = [True for _ in range(len(data_frame))]

        for key, value in self._filters.items():
            if hasattr(value, "__call__"):
                mask = mask & (data_frame[key].apply(value))
            else:
                mask = apply_filter_kv(key, value, data_frame, mask)

        data_frame = data_frame[mask]
""", """        data_frame = data_frame[self._mask(data_frame)]
"""), (TRG, "    def generate(self, pivot_val):", """    def _mask(self, rows):
        mask = np.ones(len(rows), dtype=bool)
        for key in self._filters:
            wanted = self._filters[key]
            if callable(wanted):
                mask = np.logical_and(mask, rows[key].map(wanted))
            elif key in rows:
                mask = mask & rows[key].isin(listify(wanted))
        return mask

    def generate(self, pivot_val):"""), (TRG, "import pandas as pd\n", "import pandas as pd\nimport numpy as np\n"), want=0)
v("q02-series-ok", "Q02", (TRG, "            return pd.Series(self._value, index=data_frame.index)", "            return pd.Series([self._value] * len(data_frame), index=data_frame.index)"), want=0)
v("q02-early-ok", "Q02", (TRG, "        if isinstance(self._value, str):\n            return data_frame[self._value]\n        else:\n            return pd.Series(self._value, index=data_frame.index)", "        values = data_frame[self._value] if isinstance(self._value, str) else pd.Series(self._value, data_frame.index)\n        return values"), want=0)
v("q01-groupby-ok", "Q01", (GR, """            for val in pivot_vals:
                data[val] = data_frame[data_frame[pivot] == val][[column]]
""", """            for val, rows in data_frame.groupby(pivot):
                data[val] = rows[[column]]
"""), want=0)
v("q01-reduce-ok", "Q01", (GR, FI, """            wanted = {k: listify(w) for k, w in self._filters.items() if k in data_frame}
            for col, vals in wanted.items():
                criterion = criterion & data_frame[col].isin(vals)
            data_frame = data_frame.loc[criterion]
"""), want=0)
v("q01-window-helper", "Q01", (GR, W0, """        data_frame = self._in_window(data_frame, *self._window)
"""), (GR, "    def ref(self, mask):", """    @staticmethod
    def _in_window(rows, start=0, end=None):
        return rows.loc[start:] if end is None else rows.loc[start:end]

    def ref(self, mask):"""), want=0)
v("q01-truncate-ok", "Q01", (GR, W0, """        data_frame = data_frame.truncate(*self._window)
"""), want=0)
v("q01-between-ok", "Q01", (GR, W0, """        start, end = self._window
        end = data_frame.index[-1] if end is None else end
        times = data_frame.index.to_series()
        data_frame = data_frame[times.between(start, end).values]
"""), want=0)

# ---- G01: operators of the grammar
v("g01-floordiv", "G01", (GR, '"//": lambda a, b: a // b', '"//": lambda a, b: a / b'))
v("g01-ge", "G01", (GR, '">=": lambda a, b: a >= b', '">=": lambda a, b: a > b'))
v("g01-swapped", "G01", (GR, '"-": lambda a, b: a - b', '"-": lambda a, b: b - a'))
v("g01-mod", "G01", (GR, '"%": lambda a, b: a % b', '"%": lambda a, b: np.fmod(a, b)'))
v("g01-order", "G01", (GR, "result = OPERATOR_MAP[opr](result, val)", "result = OPERATOR_MAP[opr](val, result)"))
v("g01-first", "G01", (GR, "result = OPERATOR_MAP[opr](result, val)", "result = OPERATOR_MAP[opr](params[0], val)"))
v("g01-right", "G01", (GR, """(SUM_OPS, 2, opAssoc.LEFT,""", """(SUM_OPS, 2, opAssoc.RIGHT,"""))
v("g01-pow-right", "G01", (GR, """(EXPONENTIATION_OPS, 2, opAssoc.LEFT,""", """(EXPONENTIATION_OPS, 2, opAssoc.RIGHT,"""))
_MS = """                                         (MULT_OPS, 2, opAssoc.LEFT,
                                          eval_binary_op),
                                         (SUM_OPS, 2, opAssoc.LEFT,
                                          eval_binary_op),
"""
v("g01-levels", "G01", (GR, _MS, _MS.replace("MULT", "X").replace("SUM", "MULT").replace("X", "SUM")))
v("g01-one-level", "G01", (GR, 'MULT_OPS = oneOf("* / // %")', 'MULT_OPS = oneOf("* / // % + -")'))
v("g01-missing", "G01", (GR, 'REL_OPS = oneOf("> < >= <= == !=")', 'REL_OPS = oneOf("> < >= <= ==")'))
v("g01-hidden", "G01", (GR, 'REL_OPS = oneOf("> < >= <= == !=")',
                        'REL_OPS = Literal(">") | Literal("<") | Literal(">=") | Literal("<=") | Literal("==") | Literal("!=")'))
v("g01-not-hidden", "G01", (GR, 'REL_OPS = oneOf("> < >= <= == !=")',
                            'REL_OPS = Literal(">=") | Literal("<=") | Literal(">") | Literal("<") | Literal("==") | Literal("!=")'), want=0)
v("g01-unary", "G01", (GR, '    if params[0] == "-":\n        return -1 * params[1]', '    if params[0] == "+":\n        return -1 * params[1]'))
v("g01-abs", "G01", (GR, "        return -1 * params[1]\n    else:\n        return params[1]", "        return -1 * params[1]\n    else:\n        return abs(params[1])"))
v("g01-neg-ok", "G01", (GR, "        return -1 * params[1]\n    else:\n        return params[1]", "        return -params[1]\n    return params[1]"), want=0)
v("g01-integer-first", "G01", (GR, "COLON + IDENTIFIER) | REAL | INTEGER | IDENTIFIER", "COLON + IDENTIFIER) | INTEGER | REAL | IDENTIFIER"))
v("g01-call-last", "G01", (GR, "operatorPrecedence(func_call | var_id", "operatorPrecedence(var_id | func_call"))
v("g01-int", "G01", (GR, "    return float(tokens[0])", "    return int(float(tokens[0]))"))
v("g01-last-dropped", "G01", (GR, "iterate_binary_ops(params[1:])", "iterate_binary_ops(params[1:-2])"))
v("g01-two", "G01", (GR, "    for opr, val in iterate_binary_ops(params[1:]):\n        result = OPERATOR_MAP[opr](result, val)\n", "    result = OPERATOR_MAP[params[1]](result, params[2])\n"))
_IT = """    itr = iter(tokens)
    while True:
        try:
            yield (next(itr), next(itr))
        except StopIteration:
            break
"""
v("g01-zip", "G01", (GR, _IT, "    return zip(tokens[::2], tokens[1::2])\n"), want=0)
v("g01-zip-iter", "G01", (GR, _IT, "    itr = iter(tokens)\n    return zip(itr, itr)\n"), want=0)
v("g01-range", "G01", (GR, _IT, "    for pos in range(0, len(tokens), 2):\n        yield tokens[pos], tokens[pos + 1]\n"), want=0)
v("g01-for-next", "G01", (GR, _IT, "    itr = iter(tokens)\n    for opr in itr:\n        yield opr, next(itr)\n"), want=0)
v("g01-range-wrong", "G01", (GR, _IT, "    for pos in range(0, len(tokens), 2):\n        yield tokens[0], tokens[pos + 1]\n"))
v("g01-reduce", "G01", (GR, "import importlib\n", "import importlib\nfrom functools import reduce\n"), (GR, """    for opr, val in iterate_binary_ops(params[1:]):
        result = OPERATOR_MAP[opr](result, val)

    return result
""", """    return reduce(lambda acc, item: OPERATOR_MAP[item[0]](acc, item[1]),
                  iterate_binary_ops(params[1:]), result)
"""), want=0)
v("g01-while", "G01", (GR, """    for opr, val in iterate_binary_ops(params[1:]):
        result = OPERATOR_MAP[opr](result, val)
""", """    rest = list(params[1:])
    while rest:
        opr = rest.pop(0)
        val = rest.pop(0)
        result = OPERATOR_MAP[opr](result, val)
"""), want=0)
v("g01-while-wrong", "G01", (GR, """    for opr, val in iterate_binary_ops(params[1:]):
        result = OPERATOR_MAP[opr](result, val)
""", """    rest = list(params[1:])
    while rest:
        val = rest.pop()
        opr = rest.pop()
        result = OPERATOR_MAP[opr](result, val)
"""))
_OM = open("/repo/trappy/stats/grammar.py").read()
_OM = _OM[_OM.index("OPERATOR_MAP = {"):_OM.index("def eval_unary_op")]
v("g01-operator", "G01", (GR, "import importlib\n", "import importlib\nimport operator\n"), (GR, _OM, '''OPERATOR_MAP = {
    "+": operator.add,
    "-": operator.sub,
    "*": operator.mul,
    "/": operator.truediv,
    "//": operator.floordiv,
    "%": operator.mod,
    "**": operator.pow,
    ">": operator.gt,
    "<": operator.lt,
    ">=": operator.ge,
    "<=": operator.le,
    "||": lambda a, b: a or b,
    "&&": lambda a, b: a and b,
    "|": operator.or_,
    "==": operator.eq,
    "!=": operator.ne,
    "&": operator.and_,
}


'''), want=0)
v("g01-xor", "G01", (GR, '"|": lambda a, b: a | b', '"|": lambda a, b: a ^ b'))
v("g01-and-bool", "G01", (GR, '"&&": lambda a, b: a and b', '"&&": lambda a, b: b and a or b'))
v("g01-or-and", "G01", (GR, '"||": lambda a, b: a or b', '"||": lambda a, b: a and b'))
v("g01-kept-result", "G01", (GR, "    params = tokens[0]\n    result = params[0]\n", "    params = tokens[0]\n    result = params[-1]\n"))
v("g01-neg-later", "G01", (GR, "        return -1 * params[1]\n    else:\n        return params[1]", "        return 0 - params[1]\n    return +params[1]"), want=0)
v("g01-pvar-falsy", "G01", (GR, """            try:
                return self._pvars[params]
            except KeyError:
                return self._agg_df[self._agg_cols[params[0], params[1]]]
""", """            return (self._pvars.get(str(params)) or
                    self._agg_df[self._agg_cols[params[0], params[1]]])
"""))
v("g01-last-arg", "G01", (GR, "return func(*args)", "return func(args[-1])"))
v("g01-args-sorted", "G01", (GR, "return func(*args)", "return func(*args[::-1])"))
v("g01-apply", "G01", (GR, "        args = params[1] if len(params) > 1 else []\n        return func(*args)", "        if len(params) < 2:\n            return func()\n        return func(*list(params[1]))"), want=0)

# -- V01, V02
EJ = "trappy/plotter/js/EventPlot.js"
IJ = "trappy/plotter/js/ILinePlot.js"
IG = "trappy/plotter/ILinePlotGen.py"
IC = "trappy/plotter/IPythonConf.py"
v("v01-domain-ends", "V01", (EP, 'graph["xDomain"] = domain', 'graph["xDomain"] = [domain[0], domain[0]]'))
v("v01-domain-name", "V01", (EP, 'graph["xDomain"]', 'graph["domain"]'))
v("v01-domain-zero", "V01", (EP, 'graph["xDomain"] = domain', 'graph["xDomain"] = [0, domain[1]]'))
v("v01-summary-const", "V01", (EP, 'graph["showSummary"] = summary', 'graph["showSummary"] = True'))
v("v01-summary-not", "V01", (EP, 'graph["showSummary"] = summary', 'graph["showSummary"] = not summary'))
v("v01-stride-dropped", "V01", (EP, '        graph["stride"] = stride\n', ''))
v("v01-stride-js", "V01", (EJ, "                if (stride)\n                    stride_length", "                stride_length"))
v("v01-stride-js2", "V01", (EJ, "stride: d.stride,", "stride: d.Stride,"))
v("v01-lane-id", "V01", (EP, 'lanes.append({"id": idx, "label": lane})', 'lanes.append({"id": lane, "label": lane})'))
v("v01-lane-sorted", "V01", (EP, "for idx, lane in enumerate(input_lanes):\n                lane_map", "for idx, lane in enumerate(sorted(input_lanes, reverse=True)):\n                lane_map"))
v("v01-lane-label", "V01", (EP, '"label": lane})', '"name": lane})'))
v("v01-num-lanes", "V01", (EP, "for idx in range(num_lanes):", "for idx in range(1, num_lanes):"))
v("v01-lane-prefix", "V01", (EP, '"{}{}".format(lane_prefix, idx)', '"{}{}".format("Lane", idx)'))
v("v01-flat", "V01", (EP, 'graph["data"] = self._group_data_by_lanes(_data)', 'graph["data"] = _data'))
v("v01-start-only", "V01", (EP, "append(tsinfo[:2])", "append([tsinfo[0], tsinfo[0]])"))
v("v01-overwrite", "V01", (EP, "lane_data[key][tsinfo[2]].append(tsinfo[:2])", "lane_data[key][tsinfo[2]] = [tsinfo[:2]]"))
v("v01-shared", "V01", (EP, "            lane_data[key] = defaultdict(list)\n", "            lane_data.setdefault(key, defaultdict(list))\n            lane_data[key].pop(tsinfo[2] if 0 else None, None)\n"), want=0)
v("v01-grouping", "V01", (EP, """        lane_data = {}
        for key, value in data.items():
            lane_data[key] = defaultdict(list)
            for tsinfo in value:
                lane_data[key][tsinfo[2]].append(tsinfo[:2])
        return lane_data""", """        grouped = {}
        for name in data:
            by_lane = {}
            for start, end, lane in data[name]:
                by_lane.setdefault(lane, []).append([start, end])
            grouped[name] = by_lane
        return grouped"""), want=0)
v("v01-lists", "V01", (EP, """            for idx, lane in enumerate(input_lanes):
                lanes.append({"id": idx, "label": lane})
""", """            lanes = [dict(id=i, label=l) for i, l in enumerate(input_lanes)]
"""), want=0)
v("v01-graph-literal", "V01", (EP, """        graph["xDomain"] = domain
""", """        graph.update({"xDomain": list(domain)})
"""), want=0)
v("v01-renamed", "V01", (EP, 'graph["xDomain"]', 'graph["time_range"]'), (EJ, """                .domain(d.xDomain)
                .range([0, width]);

            var zoomScale = d3.scale.linear()
                .domain(d.xDomain)""", """                .domain(d.time_range)
                .range([0, width]);

            var zoomScale = d3.scale.linear()
                .domain(d["time_range"])"""), want=0)
v("v01-js-helper", "V01", (EJ, "    var search_data = function", """    var part = function (object, name) {
        return object[name];
    }

    var search_data = function"""), (EJ, "            items = d.data;\n            lanes = d.lanes;\n            var names = d.keys;",
 "            items = part(d, 'data');\n            lanes = part(d, 'lanes');\n            var names = part(d, 'keys');"), (EJ, "                    return d.label;", "                    return part(d, 'label');"), want=0)
v("v01-js-loop", "V01", (EJ, """            for (var lane in new_data) {
                var data = new_data[lane];""", """            for (var lane of Object.keys(new_data)) {
                var data = new_data[lane];"""), want=0)
v("v01-js-start", "V01", (EJ, "var start = d[0];", "var start = d.start;"))
v("v01-js-lane", "V01", (EJ, "var data = ePlot.items[name][y0];", "var data = ePlot.items[name];"))
v("v01-step", "V01", (IL, 'if self._attr["drawstyle"] and self._attr["drawstyle"].startswith("steps"):', 'if self._attr["drawstyle"] == "steps":'))
v("v01-step-js", "V01", (IJ, "stepPlot: t_info.step_plot,", "stepPlot: t_info.stepPlot,"))
v("v01-step-js2", "V01", (IJ, "            stepPlot: t_info.step_plot,\n", ""))
v("v01-alpha-js", "V01", (IJ, "options.fillAlpha =", "options.fillalpha ="))
v("v01-alpha-nofill", "V01", (IG, '            fig_params["fill_graph"] = True\n', ''))
v("v01-fill-const", "V01", (IG, 'fig_params["fill_graph"] = self._attr["fill"]', 'fig_params["fill_graph"] = AttrConf.FILL'))
v("v01-fill-swap", "V01", (IJ, "fillGraph: t_info.fill_graph", "fillGraph: t_info.step_plot"))
v("v01-limits", "V01", (IG, 'fig_params["dateWindow"] = self._attr["xlim"]', 'fig_params["dateWindow"] = self._attr.get("ylim")'))
v("v01-limits-js", "V01", (IJ, "dateWindow: t_info.dateWindow", "dateWindow: t_info.valueRange"))
v("v01-ylim-elif", "V01", (IG, '        if "xlim" in self._attr:', '        elif "xlim" in self._attr:'))
v("v01-sync", "V01", (IG, 'self._attr.get("sync_zoom",', 'self._attr.get("syncZoom",'))
v("v01-group-js", "V01", (IJ, "group: t_info.syncGroup,", "group: t_info.group,"))
v("v01-group", "V01", (IG, 'fig_params["syncGroup"] = self._attr.get("group", str(hash(self)))', 'fig_params["syncGroup"] = str(hash(self))'))
v("v01-points", "V01", (IG, 'fig_params["drawPoints"] = True', 'fig_params["drawPoints"] = False'))
v("v01-size", "V01", (IG, 'fig_params["pointSize"] = self._attr["point_size"]', 'fig_params["pointSize"] = AttrConf.POINT_SIZE'))
v("v01-labels", "V01", (IG, '["index"] + data_frame.columns.tolist()', 'data_frame.columns.tolist()'))
v("v01-rows", "V01", (IG, "data = [[x] for x in data_frame.index.tolist()]", "data = [[] for x in data_frame.index.tolist()]"))
v("v01-rows-order", "V01", (IG, "        data[idx] += val\n", "        data[idx] = val + data[idx]\n"))
v("v01-legend", "V01", (IG, 'legend_div_name = fig_name + "_legend"', 'legend_div_name = "legend_" + fig_name'))
v("v01-legend-both", "V01", (IG, 'legend_div_name = fig_name + "_legend"', 'legend_div_name = fig_name + "_labels"'), (IJ, 't_info.name + "_legend"', 't_info.name + "_labels"'), want=0)
v("v01-rows-zip", "V01", (IG, """    values = data_frame.values.tolist()
    data = [[x] for x in data_frame.index.tolist()]

    for idx, (_, val) in enumerate(zip(data, values)):
        data[idx] += val
""", """    data = [[x] + val for x, val in zip(data_frame.index.tolist(), data_frame.values.tolist())]
"""), want=0)
v("v01-rows-records", "V01", (IG, """    values = data_frame.values.tolist()
    data = [[x] for x in data_frame.index.tolist()]

    for idx, (_, val) in enumerate(zip(data, values)):
        data[idx] += val
""", """    data = data_frame.reset_index().values.tolist()
"""), want=0)
v("v01-params-helper", "V01", (IG, """        if "ylim" in self._attr:
            fig_params["valueRange"] = self._attr["ylim"]

        if "xlim" in self._attr:
            fig_params["dateWindow"] = self._attr["xlim"]
""", """        for option, name in (("ylim", "valueRange"), ("xlim", "dateWindow")):
            if option in self._attr:
                fig_params[name] = self._attr[option]
"""), want=0)
v("v01-js-options", "V01", (IJ, """            pointSize: t_info.pointSize,
            dateWindow: t_info.dateWindow
        };
""", """            pointSize: t_info.pointSize
        };
        if (t_info.dateWindow !== undefined)
            options["dateWindow"] = t_info.dateWindow;
"""), want=0)
v("v01-js-extend", "V01", (IJ, "        var options = {\n            legend: 'always',", "        var options = $.extend({legend: 'always'}, {"), (IJ, """            dateWindow: t_info.dateWindow
        };""", """            dateWindow: t_info.dateWindow
        });"""), want=0)
v("v01-js-destructured", "V01", (IJ, "        var tabular = t_info.data;\n", "        var tabular = t_info['data'];\n        var limits = {x: t_info.dateWindow, y: t_info.valueRange};\n"), (IJ, "valueRange: t_info.valueRange", "valueRange: limits.y"), (IJ, "dateWindow: t_info.dateWindow", "dateWindow: limits.x"), want=0)
v("v01-js-fillbool", "V01", (IJ, "fillGraph: t_info.fill_graph", "fillGraph: !!t_info.fill_graph"), want=0)
v("v01-js-default", "V01", (IJ, "valueRange: t_info.valueRange", "valueRange: t_info.valueRange || null"), want=0)
v("v02-json", "V02", (IC, 'return json.dumps(data).replace("<", "\\\\u003c")', 'return json.dumps(data)'))
v("v02-json-slash", "V02", (IC, 'return json.dumps(data).replace("<", "\\\\u003c")', 'return json.dumps(data).replace("</", "<\\\\/")'))
v("v02-event-json", "V02", (EP, "self._data = IPythonConf.json_for_script(graph)", "import json\n        self._data = json.dumps(graph)"))
v("v02-line-json", "V02", (IG, "IPythonConf.json_for_script(fig_params))", "__import__('json').dumps(fig_params))"))
v("v02-line-json2", "V02", (IG, "import uuid\n", "import json\nimport uuid\n"), (IG, "IPythonConf.json_for_script(fig_params))", "json.dumps(fig_params))"))
v("v02-inline", "V02", (EP, "import uuid\n", "import json\nimport uuid\n"), (EP, "self._data = IPythonConf.json_for_script(graph)", 'text = json.dumps(graph)\n        self._data = text.replace(">", "\\\\u003e").replace("<", "\\\\u003c")'), want=0)
v("v02-names", "V02", (EP, "        self._html.append(\n            '<div id=", "        self._html.append('<ul>{}</ul>'.format(''.join('<li>%s</li>' % n for n in self._names)))\n        self._html.append(\n            '<div id="), (EP, "        self._html = []\n", "        self._html = []\n        self._names = keys\n"))
v("v02-names2", "V02", (EP, '        self._html.append("</style>")', '        self._html.append("</style>")\n        for key in self._names:\n            self._html.append("<!-- " + key + " -->")'), (EP, "        self._html = []\n", "        self._html = []\n        self._names = sorted(data)\n"))
v("v02-caption", "V02", (IG, '        fig_name = self._fig_map[plot_num]\n', '        fig_name = self._fig_map[plot_num]\n        self._html.append("<p>{}</p>".format(", ".join(data_frame.columns.tolist())))\n'))
v("v02-caption-escaped", "V02", (IG, "import uuid\n", "import html\nimport uuid\n"), (IG, '        fig_name = self._fig_map[plot_num]\n', '        fig_name = self._fig_map[plot_num]\n        self._html.append("<p>{}</p>".format(html.escape(", ".join(data_frame.columns.tolist()))))\n'), want=0)
v("v02-tip", "V02", (EJ, """                    return $("<span style='color:white'></span>")
                        .text(d.name).prop("outerHTML");""", """                    return "<span style='color:white'>" + d.name + "</span>";"""))
v("v02-tip-template", "V02", (EJ, """                    return $("<span style='color:white'></span>")
                        .text(d.name).prop("outerHTML");""", """                    var name = d.name;
                    return `<span style='color:white'>${name}</span>`;"""))
v("v02-tip-escaped", "V02", (EJ, """                    return $("<span style='color:white'></span>")
                        .text(d.name).prop("outerHTML");""", """                    var name = d.name.replace(/&/g, "&amp;").replace(/</g, "&lt;");
                    return "<span style='color:white'>" + name + "</span>";"""), want=0)
v("v02-tip-half", "V02", (EJ, """                    return $("<span style='color:white'></span>")
                        .text(d.name).prop("outerHTML");""", """                    var name = d.name.replace(/"/g, "&quot;");
                    return "<span style='color:white'>" + name + "</span>";"""))
v("v02-lanetext", "V02", (EJ, """                .attr('x', 0)
                .text(function (d) {""", """                .attr('x', 0)
                .html(function (d) {"""))
v("v02-info", "V02", (EJ, "ePlot.iDesc.currentProc.text(current.name)", "ePlot.iDesc.currentProc.html(current.name)"))
v("v02-append", "V02", (IJ, "        graphs[t_info.name] =", "        $('#' + t_info.name + '_legend').append('<p>' + t_info.title + '</p>');\n        graphs[t_info.name] ="))
v("v02-inner", "V02", (IJ, "        graphs[t_info.name] =", "        document.getElementById(t_info.name + '_legend').innerHTML = tabular.labels.join(', ');\n        graphs[t_info.name] ="))
v("v02-text", "V02", (IJ, "        graphs[t_info.name] =", "        $('#' + t_info.name + '_legend').text(t_info.title);\n        graphs[t_info.name] ="), want=0)
v("v01-resize", "V01", (EJ, "                if (showSummary)\n                    resize_mini(ePlot);\n", "                resize_mini(ePlot);\n"))
v("v01-brush", "V01", (EJ, """                if (showSummary) {
                    brush.extent(zoomScale.domain());
                    ePlot.mini.select(".brush")
                        .call(
                            brush);
                }
""", """                brush.extent(zoomScale.domain());
                if (showSummary)
                    ePlot.mini.select(".brush")
                        .call(
                            brush);
"""))
v("v01-mini-zoom", "V01", (EJ, """                if (showSummary) {
                    brush.extent(zoomScale.domain());
""", """                if (brush) brush.extent(zoomScale.domain());
                {
"""))
v("v01-resize-asked", "V01", (EJ, "                if (showSummary)\n                    resize_mini(ePlot);\n", "                resize_mini(ePlot);\n"),
  (EJ, "    var resize_mini = function(ePlot) {\n", "    var resize_mini = function(ePlot) {\n        if (!ePlot.mini)\n            return;\n"), want=0)
v("v01-resize-early", "V01", (EJ, "                if (showSummary)\n                    resize_mini(ePlot);\n                zoomed();\n", "                zoomed();\n                if (!showSummary)\n                    return;\n                resize_mini(ePlot);\n"), want=0)
v("v01-resize-and", "V01", (EJ, "                if (showSummary)\n                    resize_mini(ePlot);\n", "                d.showSummary && resize_mini(ePlot);\n"), want=0)
v("v01-brush-function", "V01", (EJ, """                if (showSummary) {
                    brush.extent(zoomScale.domain());
                    ePlot.mini.select(".brush")
                        .call(
                            brush);
                }
""", """                var moveBrush = function () {
                    brush.extent(zoomScale.domain());
                    ePlot.mini.select(".brush")
                        .call(
                            brush);
                };
                if (showSummary === true)
                    moveBrush();
"""), want=0)

PU = "scripts/publish_interactive_plots.py"
EP = "trappy/plotter/EventPlot.py"
NE = "trappy/nbexport/exporter.py"
# V03
v("v03-resource-name", "V03", (IC, '        "css/EventPlot_help.jpg"]}', '        "css/EventPlot_help.png"]}'))
v("v03-resource-missing", "V03", (IC, '        D3_TIP_URL,\n        "js/EventPlot.js",', '        "js/EventPlot.js",'))
v("v03-help-missing", "V03", (IC, '        "js/EventPlot.js",\n        "css/EventPlot_help.jpg"]}', '        "js/EventPlot.js"]}'))
v("v03-underscore", "V03", (IC, '        DYGRAPH_SYNC_URL,\n        UNDERSCORE_URL]', '        DYGRAPH_SYNC_URL]'))
v("v03-minified", "V03", (IC, "1.8.3/underscore-min.js", "1.8.3/underscore.js"))
v("v03-page-path", "V03", (EP, 'plotter_scripts/EventPlot/d3.min")', 'plotter_scripts/EventPlot/d3.v3.min")'))
v("v03-page-module", "V03", (IG, 'plotter_scripts/ILinePlot/underscore-min")', 'plotter_scripts/EventPlot/underscore-min")'))
v("v03-page-ext", "V03", (IG, 'plotter_scripts/ILinePlot/synchronizer")', 'plotter_scripts/ILinePlot/synchronizer.js")'))
v("v03-help-image", "V03", (EJ, '"plotter_scripts/EventPlot/EventPlot_help.jpg"', '"plotter_scripts/EventPlot/help.jpg"'))
v("v03-shim-name", "V03", (EP, '"deps": ["d3-tip", "d3-plotter" ],', '"deps": ["d3-tip", "d3" ],'))
v("v03-shim-exports", "V03", (IG, '"exports":  "ILinePlot"', '"exports":  "ILinePlotter"'))
v("v03-required", "V03", (EP, 'req(["require", "EventPlot"]', 'req(["require", "eventplot"]'))
v("v03-import", "V04", (EP, 'TRAPPY_PUBLISH_IMPORT = "plotter/js/EventPlot.js"', 'TRAPPY_PUBLISH_IMPORT = "js/EventPlot.js"'))
v("v03-flat", "V03", (IC, """            get_scripts_path(),
            module_name)""", """            get_scripts_path())"""))
v("v03-publish-missing", "V03", (PU, """    txt = txt.replace(
        IPythonConf.add_web_base("plotter_scripts/ILinePlot/underscore-min"),
        module_url(IPythonConf.UNDERSCORE_URL))
""", ""))
v("v03-publish-ext", "V03", (PU, "module_url(IPythonConf.D3_PLOTTER_URL)", "IPythonConf.D3_PLOTTER_URL"))
v("v03-publish-order", "V03", (PU, """    # Replace the path for d3-tip
    txt = txt.replace(
        IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.tip.v0.6.3"),
""", """    # Replace the path for d3-tip
    txt = txt.replace(
        IPythonConf.add_web_base("plotter_scripts/EventPlot/d3"),
"""))
v("v03-publish-loop", "V03", (PU, """    txt = txt.replace(
        IPythonConf.add_web_base("plotter_scripts/ILinePlot/synchronizer"),
        module_url(IPythonConf.DYGRAPH_SYNC_URL))
    txt = txt.replace(
        IPythonConf.add_web_base("plotter_scripts/ILinePlot/dygraph-combined"),
        module_url(IPythonConf.DYGRAPH_COMBINED_URL))
""", """    for name, url in (("synchronizer", IPythonConf.DYGRAPH_SYNC_URL),
                      ("dygraph-combined", IPythonConf.DYGRAPH_COMBINED_URL)):
        local = IPythonConf.add_web_base("plotter_scripts/ILinePlot/" + name)
        txt = txt.replace(local, module_url(url))
"""), want=0)
v("v03-publish-dict", "V03", (PU, """    # Replace the path for d3-tip
    txt = txt.replace(
        IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.tip.v0.6.3"),
        module_url(IPythonConf.D3_TIP_URL))
    txt = txt.replace(
        IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.min"),
        module_url(IPythonConf.D3_PLOTTER_URL))
""", """    libs = {"d3.tip.v0.6.3": IPythonConf.D3_TIP_URL, "d3.min": IPythonConf.D3_PLOTTER_URL}
    for name in sorted(libs):
        txt = txt.replace(IPythonConf.add_web_base("plotter_scripts/EventPlot/{}".format(name)),
                          module_url(libs[name]))
"""), want=0)
v("v03-publish-str", "V03", (PU, "    return os.path.splitext(url)[0]\n", "    return url[:-len('.js')] if url.endswith('.js') else url\n"), want=0)
v("v03-install-loop", "V03", (IC, """    resources = IPLOT_RESOURCES[module_name]
    for resource in resources:
        resource_name = os.path.basename(resource)
        resource_dest_dir = os.path.join(
            get_scripts_path(),
            module_name)

        # Ensure if the directory exists
        if not os.path.isdir(resource_dest_dir):
            os.mkdir(resource_dest_dir)
        resource_dest_path = os.path.join(resource_dest_dir, resource_name)
        install_resource(resource, resource_dest_path)
""", """    dest = os.path.join(get_scripts_path(), module_name)
    if not os.path.isdir(dest):
        os.mkdir(dest)
    for resource in IPLOT_RESOURCES[module_name]:
        _, _, name = resource.rpartition("/")
        install_resource(resource, os.path.join(dest, name))
"""), want=0)
v("v03-local-dir", "V03", (IC, """    base_dir = os.path.dirname(__file__)
    from_path = os.path.join(base_dir, from_path)
    shutil.copy(from_path, to_path)
""", """    base_dir = os.path.dirname(os.path.abspath(__file__))
    shutil.copyfile(os.path.join(base_dir, *from_path.split("/")), to_path)
"""), want=0)
v("v03-page-const", "V03", (EP, """                    "EventPlot": '\""" + IPythonConf.add_web_base("plotter_scripts/EventPlot/EventPlot") + \"""',
                    "d3-tip": '\""" + IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.tip.v0.6.3") + \"""',
""", """                    "EventPlot": '\""" + self._script("EventPlot") + \"""',
                    "d3-tip": '\""" + self._script("d3.tip.v0.6.3") + \"""',
"""), (EP, "    def _init_html(self):\n", """    def _script(self, name):
        return IPythonConf.add_web_base(os.path.join(IPythonConf.PLOTTER_SCRIPTS, "EventPlot", name))

    def _init_html(self):
"""), want=0)
v("v03-help-join", "V03", (EJ, '        var HELP_IMAGE = "plotter_scripts/EventPlot/EventPlot_help.jpg"', '        var HELP_IMAGE = "plotter_scripts/" + "EventPlot/" + "EventPlot_help.jpg"'), want=0)

# V04
v("v04-no-reset", "V04", (NE, "        self.inlined_files = []\n        self.sourced_libs = []\n\n        return", "        return"))
v("v04-class-state", "V04", (NE, "        self.inlined_files = []\n        self.sourced_libs = []\n\n        return", "        self.inlined_files = []\n\n        return"))
v("v04-mark-data", "V04", (EP, """            EventPlot.generate('\""" + self._fig_name""", """            EventPlot.generate( /* TRAPPY_PUBLISH_REMOVE_LINE */ '\""" + self._fig_name"""))
v("v04-no-stop", "V04", (EP, "            /* TRAPPY_PUBLISH_REMOVE_STOP */\n", ""))
v("v04-late-stop", "V04", (IG, """                /* TRAPPY_PUBLISH_REMOVE_STOP */
                ilp_req(["require", "ILinePlot"], function() { /* TRAPPY_PUBLISH_REMOVE_LINE */
""", """                ilp_req(["require", "ILinePlot"], function() {
                /* TRAPPY_PUBLISH_REMOVE_STOP */
"""), want=0)
v("v04-req-kept", "V04", (IG, """function() { /* TRAPPY_PUBLISH_REMOVE_LINE */
                ILine""", """function() {
                ILine"""), (IG, "            }); /* TRAPPY_PUBLISH_REMOVE_LINE */\n            </script>", "            });\n            </script>"))
v("v04-brace-kept", "V04", (IG, "            }); /* TRAPPY_PUBLISH_REMOVE_LINE */\n            </script>", "            });\n            </script>"))
v("v04-one-line", "V04", (EP, """            EventPlot.generate('\""" + self._fig_name + "', '" + IPythonConf.add_web_base("") + "', " + self._data + \""");
        }); /*""", """            EventPlot.generate('\""" + self._fig_name + "', '" + IPythonConf.add_web_base("") + "', " + self._data + \"""); }); /*"""))
v("v04-var-removed", "V04", (EP, "            /* TRAPPY_PUBLISH_REMOVE_START */\n", "            /* TRAPPY_PUBLISH_REMOVE_START */\n            var base = '\"\"\" + IPythonConf.add_web_base(\"\") + \"\"\"';\n"),
  (EP, """'" + IPythonConf.add_web_base("") + "', " + self._data""", """base, " + self._data"""), (EP, "self._fig_name + \"', base", "self._fig_name + \"', base"))
v("v04-libs-order", "V04", (EP, "[IPythonConf.D3_PLOTTER_URL, IPythonConf.D3_TIP_URL]", "[IPythonConf.D3_TIP_URL, IPythonConf.D3_PLOTTER_URL]"))
v("v04-lib-missing", "V04", (IG, """[IPythonConf.DYGRAPH_COMBINED_URL, IPythonConf.DYGRAPH_SYNC_URL,
                     IPythonConf.UNDERSCORE_URL]""", "[IPythonConf.DYGRAPH_COMBINED_URL, IPythonConf.DYGRAPH_SYNC_URL]"))
v("v04-libs-once", "V04", (EP, """        for url in [IPythonConf.D3_PLOTTER_URL, IPythonConf.D3_TIP_URL]:
            div_js += '<!-- TRAPPY_PUBLISH_SOURCE_LIB = "{}" -->\\n'.format(url)
""", """        div_js += '<!-- TRAPPY_PUBLISH_SOURCE_LIB = "{}" --><!-- TRAPPY_PUBLISH_SOURCE_LIB = "{}" -->\\n'.format(
            IPythonConf.D3_PLOTTER_URL, IPythonConf.D3_TIP_URL)
"""))
v("v04-marker-text", "V04", (IG, "TRAPPY_PUBLISH_SOURCE_LIB = \"{}\" -->", "TRAPPY_PUBLISH_SOURCE_LIB=\"{}\" -->"))
v("v04-late-import", "V04", (EP, '            /* TRAPPY_PUBLISH_IMPORT = "plotter/js/EventPlot.js" */\n', ""),
  (EP, "        }); /* TRAPPY_PUBLISH_REMOVE_LINE */\n", '        }); /* TRAPPY_PUBLISH_REMOVE_LINE */\n            /* TRAPPY_PUBLISH_IMPORT = "plotter/js/EventPlot.js" */\n'))
v("v04-import-removed", "V04", (EP, '            /* TRAPPY_PUBLISH_IMPORT = "plotter/js/EventPlot.js" */\n            /* TRAPPY_PUBLISH_REMOVE_START */\n', '            /* TRAPPY_PUBLISH_REMOVE_START */\n            /* TRAPPY_PUBLISH_IMPORT = "plotter/js/EventPlot.js" */\n'))
v("v04-wrong-import", "V04", (IG, 'IMPORT = "plotter/js/ILinePlot.js"', 'IMPORT = "plotter/js/EventPlot.js"'))
v("v04-base-dir", "V04", (NE, "trappy_base = os.path.dirname(os.path.dirname(__file__))", "trappy_base = os.path.dirname(__file__)"))
v("v04-stop-skips", "V04", (NE, "                multi_line_remove = False\n                continue\n", "                continue\n"))
v("v04-stop-always", "V04", (NE, "            if multi_line_remove or REMOVE_LINE in line:", "            if multi_line_remove and REMOVE_LINE in line:"))
v("v04-sourced-inline", "V04", (NE, "                if lib_url in self.sourced_libs:", "                if lib_url in self.sourced_libs or self.inlined_files:"))
v("v04-joined", "V04", (NE, "                final_lines.append(scl)\n", "                final_lines.insert(0, scl)\n"))
v("v04-not-stored", "V04", (NE, '                    output.data["text/html"] = filtered\n', '                    output.data["text/html"] = output.data["text/html"]\n'))
v("v04-not-kept", "V04", (NE, '                    output.data["text/html"] = filtered\n', ''))
v("v04-set-ok", "V04", (NE, "                if import_file in self.inlined_files:\n                    continue\n\n                with open(import_file) as fin:\n                    final_lines.extend([l.rstrip('\\n') for l in fin.readlines()])\n\n                self.inlined_files.append(import_file)\n                continue\n",
  "                if import_file not in self.inlined_files:\n                    with open(import_file) as fin:\n                        final_lines.append(fin.read())\n                    self.inlined_files.append(import_file)\n                continue\n"), want=0)
v("v04-elif-ok", "V04", (NE, """            if REMOVE_START in line:
                multi_line_remove = True
                continue
            if REMOVE_STOP in line:
                multi_line_remove = False
                continue
            if multi_line_remove or REMOVE_LINE in line:
                continue
""", """            if self._is_removed(line):
                continue
"""), (NE, "        multi_line_remove = False\n        for", "        self._removing = False\n        for"), (NE, "    def filter_output(self, output):\n", """    def _is_removed(self, line):
        if REMOVE_START in line:
            self._removing = True
            return True
        elif REMOVE_STOP in line:
            self._removing = False
            return True
        return self._removing or REMOVE_LINE in line

    def filter_output(self, output):
"""), want=0)
v("v04-compiled-ok", "V04", (NE, """SOURCE_LIB = r'<!-- TRAPPY_PUBLISH_SOURCE_LIB = "([^"]+)" -->'
""", """SOURCE_LIB = re.compile(r'<!-- TRAPPY_PUBLISH_SOURCE_LIB = "(?P<url>[^"]+)" -->')
"""), (NE, "re.search(SOURCE_LIB, line)", "SOURCE_LIB.search(line)"), (NE, "source_match.group(1)", 'source_match.group("url")'), want=0)
v("v04-direct-ok", "V04", (NE, """                    filtered =  self.filter_output(output.data["text/html"])
                    output.data["text/html"] = filtered
""", """                    data = output.data
                    data["text/html"] = self.filter_output(data["text/html"])
"""), want=0)
v("v04-reset-helper", "V04", (NE, """        self.inlined_files = []
        self.sourced_libs = []

        return""", """        self._forget()

        return"""), (NE, "    def preprocess(self, nb", """    def _forget(self):
        del self.inlined_files[:]
        del self.sourced_libs[:]

    def preprocess(self, nb"""), want=0)

CM = """                colours = names.map(function(name, i) {
                    return d.colorMap[name] || colours[i % colours.length];
                });
"""
v("v01-colours-some", "V01", (EJ, CM, """                colours = [];
                for (var i in names)
                    if (names[i] in d.colorMap)
                        colours.push(d.colorMap[names[i]]);
"""))
v("v01-colours-filter", "V01", (EJ, CM, """                colours = names.filter(function(name) { return name in d.colorMap; })
                    .map(function(name) { return d.colorMap[name]; });
"""))
v("v01-colours-continue", "V01", (EJ, CM, """                colours = [];
                names.forEach(function(name) {
                    if (!(name in d.colorMap))
                        return;
                    colours.push(d.colorMap[name]);
                });
"""))
v("v01-colours-else", "V01", (EJ, CM, """                var own = [];
                for (var i = 0; i < names.length; i++) {
                    var c = d.colorMap[names[i]];
                    if (c === undefined) {
                        own.push(colours[i % 20]);
                        continue;
                    }
                    own.push(c);
                }
                colours = own;
"""), want=0)
v("v01-colours-ternary", "V01", (EJ, CM, """                var own = [];
                names.forEach(function(name, i) {
                    if (name in d.colorMap)
                        own.push(d.colorMap[name]);
                    else
                        own.push(colours[i % 20]);
                });
                colours = own;
"""), want=0)
v("d01-group-hash", "D01", (IG, 'self._attr.get("group", self._default_group)', 'self._attr.get("group", str(hash(self)))'))
v("d01-group-id", "D01", (IG, '"group_" + uuid.uuid4().hex', '"group_{}".format(id(self))'))

SP = "trappy/plotter/StaticPlot.py"
LP = "trappy/plotter/LinePlot.py"
BP = "trappy/plotter/BarPlot.py"
PL = "trappy/plotter/PlotLayout.py"
CN = "trappy/plotter/Constraint.py"
CO = "trappy/plotter/ColorMap.py"
v("v05-colour-position", "V05", (LP, "        for constraint, pivot in series_list:\n            i = self._series_index(constraint, pivot, permute, concat)\n",
                                 "        for i, (constraint, pivot) in enumerate(series_list):\n"))
v("v05-permute-missing", "V05", (SP, "for p in sorted(set(pivots))\n                        if p in c.result]", "for p in sorted(set(pivots))]"))
v("v05-permute-twice", "V05", (CN, "            columns = columns[:self._lens[1]]\n", "            pass\n"))
v("v05-bar-lengths", "V05", (BP, "bottom=end_of_previous[:len(result[pivot])],", "bottom=end_of_previous,"))
v("v05-none-entry", "V05", (SP, "                 if handle is not None]", "                 ]"))
v("v05-2d-swapped", "V05", (PL, "        return val_y, val_x", "        return val_x, val_y"))
v("v05-row-col", "V05", (PL, "val_y = linear_val // self.cols", "val_y = linear_val // self.rows"))
v("v05-rows-floor", "V05", (PL, "        if self.num_plots % self.cols != 0:\n            self.rows += 1\n", ""))
v("v05-finish-early", "V05", (SP, "self._layout.finish(num_of_axes)", "self._layout.finish(num_of_axes - 1)"))
v("v05-finish-late", "V05", (SP, "self._layout.finish(num_of_axes)", "self._layout.finish(num_of_axes + 1)"))
v("v05-limit-last", "V05", (SP, """            if self._attr["xlim"]:
                axis.set_xlim(self._attr["xlim"])
""", """        if self._attr["xlim"]:
                axis.set_xlim(self._attr["xlim"])
"""), (SP, """            if self._attr["ylim"]:
                axis.set_ylim""", """        if self._attr["ylim"]:
                axis.set_ylim"""))
v("v05-limit-x-y", "V05", (SP, 'axis.set_ylim(self._attr["ylim"])', 'axis.set_ylim(self._attr["xlim"])'))
v("v05-label-pivot", "V05", (SP, """                self._attr["map_label"].get(pivot, pivot)
            )""", """                pivot
            )"""), want=0)
v("v05-title-label", "V05", (SP, 'self._attr["map_label"].get(pivot, pivot))\n        else:', 'self._attr["map_label"].get(str(pivot), pivot))\n        else:'))
v("v05-label-permute", "V05", (SP, 'constraint._template.name + ":" + constraint.column', "constraint._template.name"))
v("v05-label-default", "V05", (SP, "            legend_labels[series_index] = str(constraint)\n", "            legend_labels[series_index] = constraint.get_data_name()\n"))
v("v05-concat-axis", "V05", (SP, "axis_idx = list(self.c_mgr).index(constraint)", "axis_idx = pivot_vals.index(pivot)"))
v("v05-permute-axis", "V05", (SP, "pivot_vals.index((constraint.trace_index, pivot))", "pivot_vals.index((0, pivot))"))
v("v05-trace-index", "V05", (CN, "            if self._trace_expanded:\n                trace_idx = 0\n", "            if not self._trace_expanded:\n                trace_idx = 0\n"))
v("v05-sorted-text", "V05", (CN, "sorted_plist = sorted(p_set, key=int)", "sorted_plist = sorted(p_set, key=str)"))
v("v05-fill-colour", "V05", (LP, "self.fill_line(axis, line_2d_list[0], i)", "self.fill_line(axis, line_2d_list[0], series_list.index((constraint, pivot)))"))
v("v05-scatter-size", "V05", (LP, '"markersize"] = \\\n                    self._attr["point_size"]', '"markersize"] = 1'))
v("v05-forward-attr", "V05", (SP, 'self._attr["args_to_forward"][key] = kwargs[key]', 'self._attr[key] = kwargs[key]'))
v("v05-stacked-reset", "V05", (BP, "end_of_previous = tops + end_of_previous[len(tops):]", "end_of_previous = list(result[pivot].values)"))
v("v05-grouped-same", "V05", (BP, "bar_anchor = bar_anchor + i * bar_width", "bar_anchor = bar_anchor + bar_width"))
v("v05-grouped-wide", "V05", (BP, "bar_width = group_width / bars_in_group", "bar_width = group_width"))
v("v05-colour-len", "V05", (CO, "self.scalar_map.to_rgba(index)", "self.scalar_map.to_rgba(self.num_colors)"))
v("v05-savefig-again", "V05", (SP, "        if self._fig is None:\n            self.view()\n", "        self.view()\n"))
v("v05-title-lost", "V05", (SP, "            title=self._attr['title'])", "            )"))
v("v05-template-first", "V05", (CN, "            template = self._ip_vec[2][idx]\n", "            template = self._ip_vec[2][0]\n"))
v("v05-enumerate-ok", "V05", (LP, "        for constraint, pivot in series_list:\n            i = self._series_index(constraint, pivot, permute, concat)\n",
                              "        for j, item in enumerate(series_list):\n            constraint, pivot = item\n            i = self._series_index(constraint, pivot, permute, concat)\n"), want=0)
v("v05-index-dict-ok", "V05", (SP, """        figure_data = ddict(list)
        for constraint, pivot in cp_pairs:""", """        figure_data = {}
        for constraint, pivot in cp_pairs:"""), (SP, "figure_data[axis].append((constraint, pivot))",
                                                 "figure_data.setdefault(axis, []).append((constraint, pivot))"), want=0)
v("v05-by-index-ok", "V05", (SP, """            axis = self._layout.get_axis(axis_idx)
            figure_data[axis].append""", """            figure_data[axis_idx].append"""),
  (SP, "        for axis, series_list in figure_data.items():\n", "        for axis_idx in sorted(figure_data):\n            series_list = figure_data[axis_idx]\n            axis = self._layout.get_axis(axis_idx)\n"), want=0)
v("v05-limits-helper-ok", "V05", (SP, """            if self._attr["xlim"]:
                axis.set_xlim(self._attr["xlim"])
            if self._attr["ylim"]:
                axis.set_ylim(self._attr["ylim"])
""", """            self._set_limits(axis)
"""), (SP, """    def plot_axis(""", """    def _set_limits(self, axis):
        for name in ("xlim", "ylim"):
            if self._attr[name]:
                getattr(axis, "set_" + name)(self._attr[name])

    def plot_axis("""), want=0)
v("v05-divmod-ok", "V05", (PL, """        val_x = linear_val % self.cols
        val_y = linear_val // self.cols
        return val_y, val_x""", """        return divmod(linear_val, self.cols)"""), want=0)
v("v05-rows-ceil-ok", "V05", (PL, """        self.rows = (self.num_plots // self.cols)
        # Avoid Extra Allocation (shows up in savefig!)
        if self.num_plots % self.cols != 0:
            self.rows += 1
""", """        self.rows = (self.num_plots + self.cols - 1) // self.cols
"""), want=0)
v("v05-finish-for-ok", "V05", (PL, """        while plot_index < (self.rows * self.cols):
            self._attr["figure"].delaxes(
                self._attr["axes"][
                    self.get_2d(plot_index)])
            plot_index += 1
""", """        for index in range(plot_index, self.rows * self.cols):
            self._attr["figure"].delaxes(self._attr["axes"][self.get_2d(index)])
"""), want=0)
v("v05-bar-anchor-ok", "V05", (BP, """            bar_anchor = np.arange(len(result[pivot].values))
            if not stacked:
                bar_anchor = bar_anchor + i * bar_width
""", """            shift = 0 if stacked else i * bar_width
            bar_anchor = np.arange(len(result[pivot])) + shift
"""), want=0)
v("v05-stack-numpy-ok", "V05", (BP, """                tops = [x + y for (x, y) in zip(end_of_previous, result[pivot].values)]
                end_of_previous = tops + end_of_previous[len(tops):]
""", """                for k, value in enumerate(result[pivot].values):
                    end_of_previous[k] += value
"""), want=0)
v("v05-title-once-ok", "V05", (LP, """            axis.set_title(self.make_title(constraint, pivot, permute, concat))

""", ""), (LP, """        for constraint, pivot in series_list:
            i = self""", """        constraint, pivot = series_list[-1]
        axis.set_title(self.make_title(constraint, pivot, permute, concat))
        for constraint, pivot in series_list:
            i = self"""), want=0)
v("v05-legend-zip-ok", "V05", (SP, """        shown = [i for i, handle in enumerate(self._attr["_legend_handles"])
                 if handle is not None]
        legend = self._fig.legend([self._attr["_legend_handles"][i] for i in shown],
                         [self._attr["_legend_labels"][i] for i in shown],
""", """        shown = [(h, l) for h, l in zip(self._attr["_legend_handles"], self._attr["_legend_labels"])
                 if h is not None]
        legend = self._fig.legend([h for h, _ in shown], [l for _, l in shown],
"""), want=0)
