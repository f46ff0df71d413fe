"""Checks of the support classes: conditional exceptions, typed properties, debug messages."""
import copy

from .. import ini
from ..core import Check, describe
from ..cpelib import access, build, cpe_class, make_handlers, mods, record_events

EVENTS = {"SILENT": 5, "WARNING": 5, "MINOR": 4, "SERIOUS": 3, "CRITICAL": 2, "CATASTROPHIC": 0}


class Custom(Exception):
    pass


class CustomKey(KeyError):
    pass


class CustomBase(BaseException):
    pass


EXC = [ValueError, KeyError, RuntimeError, TypeError, OSError, Custom, CustomKey, CustomBase, Exception,
       KeyboardInterrupt, StopIteration, AttributeError, ZeroDivisionError, LookupError]

MESSAGES = [None, "", "message", "two\nlines", "percent %s {x} {}", "ünïcode 中", "x" * 300, "'quoted' \"dq\"",
            "\n", "trailing\n", "!! EXCEPTION", "%", "long " * 3000 + "end", "\n".join(f"line {k}" for k in range(300)),
            "a\tb", "C:\\new", " padded ", "\U0001f600", "{message}", "0", "False"]


class C10(Check):
    id = "C10"
    rule = ("random histories of level and flag assignments and conditional-exception events on two "
            "objects (every event type in varied letter case, every level including out-of-range and "
            "textual ones, built-in, custom and non-Exception types, messages of every shape, "
            "varied call depth); a state is a distinct (event type, level, flags, exception type, "
            "message, outcome) tuple")
    anchor_files = ["src/configparserenhanced/ExceptionControl.py"]
    quick = 12000
    thorough = 120000
    needs = {"raised": 5000, "warned": 3000, "silent": 3000}
    assumptions = ["exception types accept being constructed with no argument and with one message"]

    LEVELS = [0, 1, 2, 3, 4, 5, 6, 100, -1, -7, "0", "3", "5", " 4 ", 2.9, 4.0, True, False, "-2", "17", 5.99]
    BAD = ["x", None, "", [], {}, "4.5", "five"]

    def prepare(self):
        mods()

    def gen(self, rng, i):
        hist = []
        for _ in range(rng.randrange(2, 30)):
            r = rng.random()
            o = rng.randrange(2)
            if r < 0.22:
                hist.append([o, "level", rng.choice(self.LEVELS)])
            elif r < 0.25:
                hist.append([o, "badlevel", rng.choice(self.BAD)])
            elif r < 0.33:
                hist.append([o, "silent", rng.random() < 0.4])
            elif r < 0.41:
                hist.append([o, "compact", rng.random() < 0.5])
            elif r < 0.43:
                hist.append([o, "badflag", rng.choice([0, 1, "True", None])])
            elif r < 0.46:
                hist.append([o, "badexc", rng.choice([0, 1, 2, 3])])
            elif r < 0.48:
                hist.append([o, "badevent", rng.choice(["", "FATAL", "warnings", "5"])])
            else:
                t = rng.choice(list(EVENTS))
                t = rng.choice([t, t, t, t.lower(), t.capitalize(), t.swapcase()])
                hist.append([o, "event", t, rng.randrange(len(EXC)), rng.randrange(len(MESSAGES)),
                             rng.randrange(4), rng.randrange(3)])
        return dict(hist=hist, kind=rng.randrange(3))

    def run(self, c, mon):
        m = mods()
        if c["kind"] == 0:
            cls = type("Sub", (m.ExceptionControl, ), {})
        elif c["kind"] == 1:
            cls = type("Sub", (m.Debuggable, m.ExceptionControl), {})
        else:
            cls = m.ConfigParserEnhanced
        objs = [cls(), cls()]
        ref = [dict(level=4, silent=False, compact=False) for _ in objs]

        def fire(obj, depth, style, *args):
            if depth:
                return fire(obj, depth - 1, style, *args)
            if style == 0:
                return obj.exception_control_event(*args)
            if style == 1 or len(args) < 3:
                return obj.exception_control_event(event_type=args[0], exception_type=args[1],
                                                   **({"message": args[2]} if len(args) > 2 else {}))
            return obj.exception_control_event(args[0], args[1], message=args[2])

        for h in c["hist"]:
            if len(h) < 3:
                continue
            o, op, a = h[:3]
            o %= 2
            obj, r = objs[o], ref[o]
            if op == "level":
                mon.expect_ok("set level", setattr, obj, "exception_control_level", a)
                r["level"] = max(0, min(5, int(a)))
            elif op == "badlevel":
                mon.expect_exc("set bad level", (ValueError, TypeError), setattr, obj,
                               "exception_control_level", a)
            elif op in ("silent", "compact"):
                mon.expect_ok(f"set {op}", setattr, obj, f"exception_control_{op}_warnings", a)
                r[op] = a
            elif op == "badflag":
                for f in ("silent", "compact"):
                    mon.expect_exc(f"set bad {f}", TypeError, setattr, obj, f"exception_control_{f}_warnings", a)
            elif op == "badexc":
                bad = [int, "str", None, 5][a % 4]
                mon.expect_exc("not an exception type", TypeError, obj.exception_control_event, "WARNING", bad)
            elif op == "badevent":
                mon.expect_exc("unknown event type", KeyError, obj.exception_control_event, a, ValueError)
            elif op == "event":
                t, e, msg, depth, style = h[2], EXC[h[3] % len(EXC)], MESSAGES[h[4] % len(MESSAGES)], h[5], h[6]
                if t.upper() not in EVENTS:
                    continue
                args = (t, e) if msg is None and style == 0 else (t, e, msg)
                tag, v = mon.call(fire, obj, depth, style, *args)
                out = mon.out
                lv = r["level"]
                mon.ev("oracle:event")
                T = t.upper()
                what = f"{T} event ({e.__name__}, {msg!r}) at level {lv}, flags {r}"
                if lv >= EVENTS[T]:
                    if tag == "ok":
                        mon.fail("not-raised", f"{what}: did not raise")
                    if type(v) is not e or v.args != (() if msg is None else (msg, )):
                        mon.fail("raised-wrong", f"{what}: raised {type(v).__name__}{v.args!r}")
                    mon.true("quiet-when-raising", out == "", f"{what}: printed {out!r}")
                    mon.ev("raised")
                    outcome = "raise"
                else:
                    if tag != "ok":
                        mon.fail("raised-below-threshold", f"{what}: {describe(v)}")
                    mon.eq(what, v, None, "event-return")
                    loud = lv > 0 and T != "SILENT" and not r["silent"]
                    mon.true("warning-printed", (out != "") == loud,
                             f"{what}: printed {out!r}, warning expected: {loud}")
                    if loud:
                        mon.true("warning-text", T in out and e.__name__ in out, f"{what}: printed {out!r}")
                        if r["compact"]:
                            mon.true("compact-warning", out.count("\n") == 1, f"{what}: printed {out!r}")
                        elif msg:
                            for line in msg.split("\n"):
                                mon.true("warning-message", line in out, f"{what}: no message in {out!r}")
                        mon.ev("warned")
                        outcome = "warn"
                    else:
                        mon.ev("silent")
                        outcome = "silent"
                mon.state(T, lv, r["silent"], r["compact"], e.__name__, msg, outcome)
            for x, y in zip(objs, ref):
                mon.eq("settings after " + op,
                       dict(level=x.exception_control_level, silent=x.exception_control_silent_warnings,
                            compact=x.exception_control_compact_warnings), y, "settings")

    def directed(self):
        out = []
        for lv in range(6):
            for t in EVENTS:
                for s in (0, 1):
                    for cp in (0, 1):
                        out.append(dict(kind=0, hist=[[0, "level", lv], [0, "silent", bool(s)],
                                                      [0, "compact", bool(cp)],
                                                      [0, "event", t, 0, 2, 0, 0], [0, "event", t, 7, 0, 1, 1],
                                                      [1, "event", t, 5, 3, 0, 2]]))
        return out


# ---------------------------------------------------------------------------

def _up(v):
    return v.upper() if isinstance(v, str) else v


def _boom(v):
    raise ZeroDivisionError("transform")


def _vboom(v):
    raise OverflowError("validator")


TYPES = {
    "int": int, "str": str, "int,str": (int, str), "list": list, "tuple,list": (tuple, list), "dict": dict,
    "none": (str, type(None)), "[int]": [int], "float,int": (float, int), "object": object,
}
INTERNAL = {"": None, "list": list, "str": str, "tuple": tuple, "int": int}
SHARED = [1, "shared"]      # returned by a transform
TRANSFORM = {"": None, "up": _up, "twice": lambda v: v * 2, "boom": _boom, "tostr": str, "notcallable": 5,
             "rev": lambda v: v[::-1], "truth": bool, "shared": lambda v: SHARED}
EMPTY = {"list": [], "str": "", "none": None, "zero": 0, "float": 0.0, "dict": {}}
VALID = {"": None, "falsy": lambda v: list(EMPTY.values())[len(repr(v)) % len(EMPTY)],
         "truthy2": lambda v: ["x", [0], 1.5, {"k": 0}, object(), -1][len(repr(v)) % 6], "truthy": bool, "len2": lambda v: len(v) == 2, "never": lambda v: False, "boom": _vboom,
         "notcallable": "x", "always": lambda v: 1, "none": lambda v: None}
DEFAULTS = [None, 0, "", "d", [], [1, [2]], {"k": []}, (1, 2), 5]
ASSIGN = [None, 0, 1, 5, -3, True, 1.5, "", "x", "ab", "12", [], [1, 2], ["a"], (), (1, 2), (3, ), {"k": 1}, {}, "aB"]


def edit(a, b):
    """The same change to both of two equal values, as deep inside as possible."""
    if a is b:
        return
    if isinstance(a, list):
        inner = [k for k, x in enumerate(a) if isinstance(x, (list, dict))]
        if inner and isinstance(b, list) and len(a) % 2 == 0:
            return edit(a[inner[0]], b[inner[0]])
        a.append("edited")
        b.append("edited")
    elif isinstance(a, dict):
        inner = [k for k, x in a.items() if isinstance(x, (list, dict))]
        if inner and "edited" not in a:
            edit(a[inner[0]], b[inner[0]])
            if len(repr(a)) % 3:
                return
        a["edited"] = 1
        b["edited"] = 1


class C12(Check):
    id = "C12"
    rule = ("random histories of reads, assignments, deletions and in-place edits over several typed "
            "properties (random expected types, defaults, factories, internal types, transforms, "
            "validators, read-before-assignment rule) on several instances, and over the handler "
            "parameter record; every outcome is compared with a reference state machine; a state "
            "is a distinct (property specification, operation, value, outcome)")
    anchor_files = ["src/configparserenhanced/TypedProperty.py", "src/configparserenhanced/HandlerParameters.py"]
    quick = 30000
    thorough = 300000
    needs = {"assigned": 10000, "rejected": 8000, "unbound": 1000, "default": 5000}

    def prepare(self):
        mods()

    def gen(self, rng, i):
        if i % 6 == 0:
            hist = []
            for _ in range(rng.randrange(3, 25)):
                hist.append([rng.randrange(2), rng.randrange(8), rng.choice(["get", "set", "set", "del", "edit"]),
                             rng.randrange(len(ASSIGN))])
            return dict(kind="hp", hist=hist)
        specs = []
        for _ in range(rng.randrange(1, 4)):
            specs.append(dict(
                t=rng.choice(list(TYPES)), d=rng.choice([-1, -1] + list(range(len(DEFAULTS)))),
                f=rng.choice(["none", "list", "count", "default", "bad"]),
                req=rng.random() < 0.3, it=rng.choice(["", "", "", "list", "str", "tuple", "int"]),
                tr=rng.choice(["", "", "", "up", "twice", "boom", "tostr", "notcallable", "rev", "truth", "shared"]),
                va=rng.choice(["", "", "", "truthy", "len2", "never", "boom", "notcallable", "always", "none", "falsy",
                                "truthy2"])))
        hist = []
        for _ in range(rng.randrange(3, 30)):
            hist.append([rng.randrange(2), rng.randrange(len(specs)),
                         rng.choice(["get", "get", "set", "set", "set", "del", "edit"]), rng.randrange(len(ASSIGN))])
        return dict(kind="prop", specs=specs, hist=hist)

    HP = [dict(name="section_root", t=(str, ), d=None), dict(name="raw_option", t=(tuple, ), d=(None, None), n2=1),
          dict(name="op", t=(str, ), d=""), dict(name="params", t=(list, tuple), d=[], it=list),
          dict(name="value", t=(str, type(None)), d=""), dict(name="data_shared", t=(dict, ), d={}),
          dict(name="data_internal", t=(dict, ), d={}), dict(name="handler_name", t=(str, ), d="")]

    def run(self, c, mon):
        if c["kind"] == "hp":
            from configparserenhanced.HandlerParameters import HandlerParameters
            cls = HandlerParameters
            props = []
            for p in self.HP:
                props.append(dict(name=p["name"], types=p["t"], has_d=True, default=p["d"], factory=None, req=False,
                                  internal=p.get("it"), transform=None,
                                  validator=(lambda v: len(v) == 2) if p.get("n2") else None, key=p["name"]))
        else:
            tp = mods().typed_property
            ns, props = {}, []
            for n, s in enumerate(c["specs"]):
                name = f"prop{n}"
                made = []

                def count(made=made):
                    made.append([len(made)])
                    return made[-1]
                types = TYPES[s["t"]]
                has_d = s["d"] >= 0
                fac = {"none": lambda: None, "list": list, "count": count, "default": None, "bad": 7}[s["f"]]
                kw = dict(expected_type=types)
                if has_d:
                    # the declared default must not be reachable through the instances
                    kw["default"] = copy.deepcopy(DEFAULTS[s["d"] % len(DEFAULTS)])
                if s["f"] != "default":
                    kw["default_factory"] = fac
                if s["req"]:
                    kw["req_assign_before_use"] = True
                if s["it"]:
                    kw["internal_type"] = INTERNAL[s["it"]]
                if s["tr"]:
                    kw["transform"] = TRANSFORM[s["tr"]]
                if s["va"]:
                    kw["validator"] = VALID[s["va"]]
                ns[name] = tp(name, **kw)
                props.append(dict(
                    name=name, types=tuple(types) if isinstance(types, (tuple, list)) else (types, ), has_d=has_d,
                    default=DEFAULTS[s["d"] % len(DEFAULTS)] if has_d else None,
                    factory=fac if s["f"] != "default" else (lambda: None), req=s["req"],
                    internal=INTERNAL[s["it"]], transform=TRANSFORM[s["tr"]], validator=VALID[s["va"]], made=made,
                    key=repr(sorted(s.items()))))
            cls = type("Holder", (object, ), ns)
        objs = [cls(), cls()]
        # reference state: per instance and property; absent = unset
        vals = [{}, {}]
        assigned = [set(), set()]
        serial = {}

        def default_of(p):
            if p["has_d"]:
                return copy.deepcopy(p["default"])
            if not callable(p["factory"]):
                raise TypeError
            if p["factory"] is list:
                return []
            if p.get("made") is not None and p["key"].find("'count'") >= 0:
                n = serial.get(p["name"], 0)
                serial[p["name"]] = n + 1
                return [n]
            return None

        SHARED[:] = [1, "shared"]
        for o, i, op, a in c["hist"]:
            o %= 2
            p = props[i % len(props)]
            obj, name = objs[o], p["name"]

            def ref_get():
                if p["req"] and name not in assigned[o]:
                    raise UnboundLocalError
                if name not in vals[o]:
                    vals[o][name] = default_of(p)
                return vals[o][name]

            if op in ("get", "edit"):
                try:
                    w = ("ok", ref_get())
                except (UnboundLocalError, TypeError) as e:
                    w = ("exc", type(e))
                tag, v = mon.call(getattr, obj, name)
                if w[0] == "exc":
                    mon.true("unbound-read", tag == "exc" and isinstance(v, w[1]),
                             f"reading {name} gave {v!r}, expected {w[1].__name__}")
                    mon.ev("unbound")
                else:
                    if tag != "ok":
                        mon.fail("unexpected-exception", f"reading {name}: {describe(v)}")
                    mon.eq(f"{name} ({p['key']})", (type(v), v), (type(w[1]), w[1]), "read")
                    if name not in assigned[o]:
                        mon.ev("default")
                    if op == "edit":
                        edit(v, w[1])
                mon.state(p["key"], op, repr(w))
            elif op == "del":
                mon.expect_ok("delete", delattr, obj, name)
                vals[o].pop(name, None)
                assigned[o].discard(name)
            else:
                # the object and the reference get equal but distinct values
                value = copy.deepcopy(ASSIGN[a % len(ASSIGN)])
                mine = copy.deepcopy(value)
                try:
                    if not isinstance(mine, p["types"]):
                        raise TypeError
                    if p["internal"]:
                        mine = p["internal"](mine)
                    if p["transform"] is not None:
                        if not callable(p["transform"]):
                            raise TypeError
                        mine = p["transform"](mine)
                        if p["internal"]:
                            mine = p["internal"](mine)
                    if p["validator"] is not None:
                        if not callable(p["validator"]):
                            raise TypeError
                        if not p["validator"](mine):
                            raise ValueError
                    w = ("ok", None)
                except Exception as e:
                    w = ("exc", type(e))
                tag, v = mon.call(setattr, obj, name, value)
                mon.ev("oracle:assign")
                if w[0] == "ok":
                    if tag != "ok":
                        mon.fail("assign-refused", f"{name} = {value!r} ({p['key']}): {describe(v)}")
                    vals[o][name] = mine
                    assigned[o].add(name)
                    mon.ev("assigned")
                else:
                    if tag == "ok" or type(v) is not w[1]:
                        mon.fail("assign-accepted",
                                 f"{name} = {value!r} ({p['key']}): {v!r}, expected {w[1].__name__}")
                    mon.ev("rejected")
                mon.state(p["key"], op, repr(value), w[0])
            # every property of both instances still has its value
            for o2 in (0, 1):
                for p2 in props:
                    if p2["name"] in vals[o2]:
                        if p2["req"] and p2["name"] not in assigned[o2]:
                            continue
                        tag, v = mon.call(getattr, objs[o2], p2["name"])
                        if tag != "ok":
                            mon.fail("unexpected-exception", f"{p2['name']}: {describe(v)}")
                        mon.eq(f"{p2['name']} of instance {o2} after {op} {name} of instance {o}", v,
                               vals[o2][p2["name"]], "independent")


# ---------------------------------------------------------------------------

class C13(Check):
    id = "C13"
    rule = ("debug messages at random levels, prefixes and line ends on random objects against the "
            "documented threshold rule, and the same random configuration parsed, unrolled and "
            "turned into environment actions at two different debug levels with results, handler "
            "logs, event logs and exceptions compared; a state is a distinct (configuration result, "
            "pair of debug levels)")
    anchor_files = ["src/configparserenhanced/Debuggable.py", "src/configparserenhanced/ConfigParserEnhanced.py"]
    quick = 6000
    thorough = 60000
    needs = {"message": 3000, "printed": 800, "suppressed": 800, "oracle:level-independent": 4000}
    assumptions = ["option keys tokenise under POSIX shell quoting rules"]

    def prepare(self):
        mods()
        import setenvironment  # noqa

    def gen(self, rng, i):
        c = dict(msgs=[[rng.choice([0, 1, 2, 3, 5, 9, -1, "2", " 3", 2.7, True]), rng.randrange(-1, 8),
                        rng.choice(["m", "", "two\nlines", "é {} %s", "[D-1] x"]),
                        rng.choice(["\n", "", " ", "\n\n", ";"]), rng.random() < 0.6, rng.randrange(4)]
                       for _ in range(rng.randrange(1, 8))])
        cfg = ini.gen_config(rng, ops=["foo", "foo-bar"], p_missing=0.04, max_sections=5)
        c["cfg"] = cfg
        cfg["how"] = rng.randrange(12)
        cfg["ecl"] = rng.randrange(6)
        c["handlers"] = [["foo", rng.randrange(3), True, rng.choice([0, 0, 0, 3, 12])],
                         ["foo-bar", rng.randrange(2), rng.random() < 0.5, 0],
                         ["initialize", 0, True, 0], ["finalize", 0, True, 0]]
        c["levels"] = [0, rng.choice([1, 2, 3, 4, 5, 6, 7, 10])]
        c["acc"] = [rng.randrange(8) for _ in range(4)]
        c["unroll"] = rng.random() < 0.4
        c["env"] = [[rng.choice(["envvar-set", "envvar-append", "envvar-prepend", "envvar-unset", "envvar-set-if-empty",
                                 "envvar-remove-substr", "envvar-remove-path-entry", "envvar-assert-not-empty",
                                 "envvar-find-in-path"]),
                     rng.choice(["VF_A", "VF_B"]), rng.choice(["x", "/a:/b", "y z", "ls", "${VF_A}"])]
                    for _ in range(rng.randrange(0, 5))]
        return c

    def valid(self, c):
        return ini.valid_config(c["cfg"]) and len(c["levels"]) == 2

    def run(self, c, mon):
        m = mods()
        obj = type("D", (m.Debuggable, ), {})()
        other = type("D", (m.Debuggable, ), {})()
        mon.eq("initial level", obj.debug_level, 0, "debug-level")
        for setting, lv, msg, end, prefix, style in c["msgs"]:
            mon.expect_ok("set debug level", setattr, obj, "debug_level", setting)
            cur = max(int(setting), 0)
            mon.eq("debug level", (obj.debug_level, other.debug_level), (cur, 0), "debug-level")
            mon.ev("message")
            kw = {}
            if end != "\n" or style % 2:
                kw["end"] = end
            if not prefix or style > 1:
                kw["useprefix"] = prefix
            mon.expect_ok("debug_message", obj.debug_message, lv, msg, **kw)
            want = ""
            if cur >= lv:
                want = (f"[D-{lv}] " if lv > 0 and prefix else "") + msg + end
                mon.ev("printed")
            else:
                mon.ev("suppressed")
            mon.eq(f"debug_message({lv}, {msg!r}, {kw}) at level {cur}", mon.out, want, "debug-message")
        # results do not depend on the debug level
        cfg = dict(c["cfg"])
        if any(h[1] == 2 for h in c["handlers"]):
            mon.ev("ambiguous")
        results = []
        for lv in c["levels"]:
            cfg["debug"] = lv
            log, events = [], []
            cls = record_events(make_handlers(c["handlers"], lambda e: log.append(
                {k: v for k, v in e.items() if k != "shared"})), events)
            o = mon.expect_ok("construct", build, cfg, mon, cls)
            res = []
            for n, s in enumerate(ini.model_of(cfg).sections()[:6]):
                acc = c["acc"][n % len(c["acc"])] if c["acc"] else 0
                tag, v = mon.call(access, o, s, acc)
                res.append((s, tag, v if tag == "ok" else (type(v), )))
                if lv == 0:
                    mon.true("quiet-at-level-0", mon.out == "" or events != [],
                             f"reading {s!r} at debug level 0 printed {mon.out!r}")
            if c["unroll"]:
                tag, v = mon.call(o.unroll_to_str)
                res.append(("unroll", tag, v if tag == "ok" else type(v)))
            res.append((log, events, o.exception_control_level))
            results.append(res)
        mon.ev("oracle:level-independent")
        if results[0] != results[1]:
            k = next((j for j, (x, y) in enumerate(zip(*results)) if x != y), -1)
            mon.fail("depends-on-debug-level",
                     f"levels {c['levels']}: {results[0][k]!r} vs {results[1][k]!r}")
        if any(r[1] == "ok" and r[2] for r in results[0][:-1]):
            mon.state(results[0][:-1], tuple(c["levels"]))
        # environment actions
        if c["env"]:
            import os
            from setenvironment import SetEnvironment
            text = "[E]\n"
            for k, (op, var, val) in enumerate(c["env"]):
                text += f"{op} {var}{'' if op == 'x' else ''} : {val}\n" if f"{op} {var} :" not in text else ""
            p = ini.write_files(mon.dir(), [text])[0]
            got = []
            for lv in c["levels"]:
                for v in ("VF_A", "VF_B"):
                    os.environ.pop(v, None)
                e = SetEnvironment(p)
                e.debug_level = lv
                r = []
                for f in (lambda: e.apply("E"), lambda: [dict(a) for a in e.actions["E"]],
                          lambda: e.generate_actions_script("E", interp="bash"),
                          lambda: e.generate_actions_script("E", interp="python")):
                    tag, v = mon.call(f)
                    r.append((tag, v if tag == "ok" else type(v)))
                r.append((os.environ.get("VF_A"), os.environ.get("VF_B")))
                got.append(r)
                for v in ("VF_A", "VF_B"):
                    os.environ.pop(v, None)
            mon.eq(f"environment results at levels {c['levels']}", got[1], got[0], "level-independent")
