"""Check that separate objects never influence each other, in any order of use and in threads."""
import configparser
import os
import pickle
import random
import re
import struct
import sys
import threading
import zlib

from .. import ini
from ..core import REPO, Check, StepBudget, Violation, Watchdog, short
from .keywords import FLAGS, HOST, KwModel, SYSTEMS, WORDS, gen_build, gen_kw, kw_text_ok
from .setenv import ENV_OPS, SIMPLE, gen_env, make_tools, valid_env
from .tools import (FILES, GFILES, StubOptions, gc_files, gen_gc, gen_tool, gen_tool_build, load_tools, put, top_text)

OPS = ("foo", "set-x")

# ---------------------------------------------------------------------------
#  Output of every thread on its own
# ---------------------------------------------------------------------------


class ThreadOut:
    encoding = "utf-8"
    errors = "strict"

    def __init__(self):
        self.parts = {}

    def write(self, s):
        self.parts.setdefault(threading.get_ident(), []).append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def take(self):
        return "".join(self.parts.pop(threading.get_ident(), []))


def printed(text):
    """What was printed, without the call stacks of skipped exceptions (they name the caller)."""
    out, skip = [], False
    for ln in text.split("\n"):
        if ln.startswith("!! Call Stack:"):
            skip = True
        elif ln.startswith("!! Increase"):
            skip = False
        elif ln.startswith("!! EXCEPTION SKIPPED ("):
            ln = ln.split(" @ ")[0]
        if not skip:
            out.append(ln)
    return re.sub(r"0x[0-9a-f]+", "0x", "\n".join(out))


def norm(v, depth=0):
    if v is None or isinstance(v, (bool, int, float, bytes)):
        return v
    if isinstance(v, str):
        return re.sub(r"0x[0-9a-f]+", "0x", v)
    if depth > 6:
        return type(v).__name__
    if isinstance(v, (dict, configparser.SectionProxy)):
        return ["dict"] + [[norm(k, depth + 1), norm(x, depth + 1)] for k, x in v.items()]
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted(repr(norm(x, depth + 1)) for x in v)
    if isinstance(v, (list, tuple)) or type(v).__name__ in ("dict_items", "dict_keys", "dict_values", "KeysView", "ItemsView"):
        return ["seq"] + [norm(x, depth + 1) for x in v]
    if isinstance(v, os.PathLike):
        return ["path", str(v)]
    return "<" + type(v).__name__ + ">"


# ---------------------------------------------------------------------------
#  Who runs next: a scheduler that moves control between threads at lines
# ---------------------------------------------------------------------------

class Baton:
    TOOL = 3

    def __init__(self, n, seed, p, hot=None):
        self.rng = random.Random(seed)
        self.p = p
        self.hot = hot                  # (lines or functions, 1 in how many): switch there, hardly ever elsewhere
        self.salt = seed & 0xffff
        self.events = [threading.Event() for _ in range(n)]
        self.alive = set(range(n))
        self.ids = {}
        self.free = False
        self.switches = 0
        self.places = set()

    def _line(self, code, lineno):
        if not code.co_filename.startswith(REPO + "/"):
            return sys.monitoring.DISABLE
        k = self.ids.get(threading.get_ident())
        if k is None or self.free:
            return
        p = self.p
        if self.hot:
            what, n = self.hot
            place = b"%d %d %s" % (self.salt, lineno if what == "line" else 0, code.co_name.encode())
            p = (0.9 if what == "line" else 0.4) if zlib.crc32(place) % n == 0 else 0.0005
        if self.rng.random() < p:
            others = sorted(self.alive - {k})
            if others:
                self.switches += 1
                self.places.add((code.co_filename[len(REPO):], lineno))
                self.events[k].clear()
                self.events[self.rng.choice(others)].set()
                self.wait(k)

    def wait(self, k):
        if not self.events[k].wait(60) and not self.free:
            self.free = True            # the holder is blocked: let everybody run
            for e in self.events:
                e.set()

    def run(self, plays):
        m = sys.monitoring
        fails = []

        def body(k, play):
            self.ids[threading.get_ident()] = k
            try:
                self.wait(k)
                for _ in play:
                    pass
            except BaseException as e:
                fails.append(e)
            finally:
                self.alive.discard(k)
                self.ids.pop(threading.get_ident(), None)
                if self.alive and not self.free:
                    self.events[self.rng.choice(sorted(self.alive))].set()

        ts = [threading.Thread(target=body, args=(k, p), daemon=True) for k, p in enumerate(plays)]
        m.use_tool_id(self.TOOL, "vf-baton")
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.restart_events()
        m.set_events(self.TOOL, m.events.LINE)
        try:
            for t in ts:
                t.start()
            self.events[self.rng.randrange(len(ts))].set()
            for t in ts:
                t.join()
        finally:
            self.free = True
            for e in self.events:
                e.set()
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.LINE, None)
            m.free_tool_id(self.TOOL)
        for e in fails:
            raise e


MODULECMD = """#!/bin/sh
rest=${*#*VF_}
own=VF_${rest%%_*}_MOD
case "$*" in
    *bad*) echo "ERROR: no module $*" >&2; exit 0;;
    *fail*) exit 3;;
    *false*) echo "_mlstatus = False"; exit 0;;
esac
echo "import os"
echo "os.environ['$own'] = os.environ.get('$own', '') + '$2 $3;'"
"""


# ---------------------------------------------------------------------------
#  The objects
# ---------------------------------------------------------------------------

CLASSES = {}
NEST = [None]           # called by handlers: uses other objects while this one is parsing


def cpe_variant(n):
    """The parser, and two subclasses whose handlers keep what they are given."""
    from configparserenhanced import ConfigParserEnhanced
    if n == 0:
        return ConfigParserEnhanced
    if n not in CLASSES:
        deco = ConfigParserEnhanced.operation_handler

        def keep(self, section_name, hp):
            if NEST[0]:
                NEST[0]()
            self.vf_log.append([section_name, hp.op, list(hp.params), hp.value, norm(hp.data_shared), hp.handler_name])
            hp.data_shared.setdefault("seen", []).append(hp.op)
            return self.vf_rval

        def hook(self, section_name, hp):
            if NEST[0]:
                NEST[0]()
            self.vf_log.append([section_name, hp.handler_name, norm(hp.data_shared)])
            hp.data_shared.setdefault("hooks", []).append(hp.handler_name)
            return 0

        ns = dict(vf_rval=0 if n == 1 else 3, handler_foo=deco(keep), handler_initialize=deco(hook))
        if n == 2:
            ns["_handler_set_x"] = deco(keep)
            ns["handler_finalize"] = deco(hook)
        CLASSES[n] = type(f"Parser{n}", (ConfigParserEnhanced, ), ns)
    return CLASSES[n]


def typed_class(spec):
    key = repr(spec)
    if key not in CLASSES:
        from configparserenhanced import typed_property
        types = {"int": int, "str": str, "list": list, "dict": dict, "any": (int, str, list, dict)}
        ns = {}
        for i, (t, d, req) in enumerate(spec):
            kw = dict(expected_type=types[t], req_assign_before_use=bool(req))
            if d == 1:
                kw["default"] = {"int": 3, "str": "d", "list": [1], "dict": {"a": [1]}, "any": [[2]]}[t]
            elif d == 2:
                kw["default_factory"] = {"int": int, "str": str, "list": list, "dict": dict, "any": list}[t]
            ns[f"p{i}"] = typed_property(f"p{i}", **kw)
        CLASSES[key] = type("Typed", (object, ), ns)
    return CLASSES[key]


def edit(v, depth=0):
    """Change a value, and the values in it, in place."""
    if depth < 4 and isinstance(v, (list, dict)):
        for x in list(v if isinstance(v, list) else v.values()):
            edit(x, depth + 1)
    if isinstance(v, list):
        v.append("vf-edit")
    elif isinstance(v, dict):
        v["vf-edit"] = [len(v)]
    return v


def build(o, d):
    k = o["kind"]
    if k == "cpe":
        obj = cpe_variant(o["cls"])(o["paths"] if len(o["paths"]) > 1 else o["paths"][0])
        obj.vf_log = []
        for name, v in o["set"]:
            setattr(obj, name, tuple(v) if isinstance(v, list) else v)
        return obj
    if k == "se":
        from setenvironment import SetEnvironment
        obj = SetEnvironment(o["paths"][0])
        for name, v in o["set"]:
            setattr(obj, name, v)
        return obj
    if k == "kw":
        from keywordparser import KeywordParser
        return KeywordParser(o["paths"][0])
    if k == "env":
        from loadenv.EnvKeywordParser import EnvKeywordParser
        return EnvKeywordParser(o["build"], o["system"], o["paths"][0])
    if k == "flags":
        from src.config_keyword_parser import ConfigKeywordParser
        return ConfigKeywordParser(o["build"], o["paths"][0])
    if k == "ds":
        from determinesystem import DetermineSystem
        return DetermineSystem(o["build"], o["paths"][0], force_build_name=o["force"], silent=o["silent"])
    if k == "typed":
        return typed_class(o["props"])()
    if k == "ec":
        from configparserenhanced import Debuggable, ExceptionControl
        if "ec" not in CLASSES:
            CLASSES["ec"] = type("Both", (Debuggable, ExceptionControl), {})
        return CLASSES["ec"]()
    if k == "le":
        import LoadEnv.load_env as m
        return m.LoadEnv(list(o["argv"]), o["paths"][0])
    if k == "gc":
        import gen_config as m
        return m.GenConfig(list(o["argv"]), o["paths"][0])
    raise ValueError(k)


def nth(names, i):
    names = list(names)
    return names[i % len(names)]


def perform(o, obj, op, d):
    k, a = op[0], op[1:]
    kind = o["kind"]
    if k == "level":
        obj.exception_control_level = a[0]
    elif k == "silent":
        obj.exception_control_silent_warnings = bool(a[0])
    elif k == "compact":
        obj.exception_control_compact_warnings = bool(a[0])
    elif k == "debug":
        obj.debug_level = a[0]
    elif k == "settings":
        return [getattr(obj, n, None) for n in ("exception_control_level", "exception_control_silent_warnings",
                                                "exception_control_compact_warnings", "debug_level",
                                                "default_section_name", "configparser_delimiters", "inifilepath")]
    elif kind in ("cpe", "se") and k in ("get", "items", "parse", "unroll", "last", "sections", "assert", "known", "raw", "edit", "raw-edit",
                                         "last-edit", "delims", "default", "reload", "log", "opt", "force", "check", "bad", "view"):
        sec = nth(obj.configparserdata.sections(), a[0]) if k in ("get", "items", "parse", "raw", "edit", "raw-edit", "opt", "unroll",
                                                                  "check") else None
        view = obj.configparserenhanceddata if k not in ("delims", "default", "reload", "bad") else None
        if k == "get":
            return dict(view[sec])
        if k == "items":
            return list(view.items(sec)) if a[0] % 3 else [[s, dict(x)] for s, x in view.items()]
        if k == "parse":
            return obj.parse_section(sec, initialize=a[0] % 5 != 0)
        if k == "unroll":
            return obj.unroll_to_str(sec if a[0] % 2 else None, use_base_class_parser=a[0] % 4 > 0)
        if k == "last":
            return obj.parse_section_last_result
        if k == "sections":
            return [list(view.sections()), len(view), list(view)]
        if k == "view":
            return [view.exception_control_level, view.debug_level, {s: dict(x) for s, x in view.data.items()}]
        if k == "force":
            return list(view.sections("force"))
        if k == "assert":
            return obj.assert_file_all_sections_handled(do_raise=bool(a[0] % 2))
        if k == "check":
            return obj.assert_section_all_options_handled(sec, do_raise=bool(a[0] % 2))
        if k == "known":
            return obj.get_known_operations()
        if k == "raw":
            return dict(obj.configparserdata[sec])
        if k == "edit":
            view[sec]["vf-edit"] = "changed"
            return None
        if k == "raw-edit":
            obj.configparserdata[sec]["vf-raw"] = "changed"
            return None
        if k == "last-edit":
            return edit(obj.parse_section_last_result)
        if k == "opt":
            return [view.has_option(sec, "key1"), view.get(sec, "key1") if view.has_option(sec, "key1") else None]
        if k == "delims":
            obj.configparser_delimiters = tuple(a[0])
        if k == "default":
            obj.default_section_name = a[0]
        if k == "reload":
            obj.inifilepath = list(o["paths"])
        if k == "bad":
            if a[0] % 2:
                obj.inifilepath = 7
            else:
                obj.default_section_name = 7
        if k == "log":
            return getattr(obj, "vf_log", None)
    elif kind == "se":
        own = "VF_%d_" % o["k"]
        if k == "op":
            from setenvironment.SetEnvironment import envvar_op
            return envvar_op(a[0], own + "A", a[1])
        if k == "env":
            return sorted([n, v] for n, v in os.environ.items() if n.startswith(own))
        sec = nth(obj.configparserdata.sections(), a[0])
        if k == "apply":
            try:
                return obj.apply(sec)
            finally:
                print(sorted([n, v] for n, v in os.environ.items() if n.startswith(own)))
        if k == "actions":
            return [obj.parse_section(sec), obj.actions]
        if k == "script":
            return obj.generate_actions_script(sec, interp=a[1], incl_hdr=a[0] % 2 == 0)
        if k == "print":
            return obj.pretty_print_actions(sec)
        if k == "write":
            p = os.path.join(d, "script")
            obj.write_actions_to_file(p, sec, interpreter=a[1])
            with open(p) as f:
                return f.read()
    elif kind == "kw":
        if k == "values":
            return edit(obj.get_values_for_section_key(a[0], a[1]))
        return obj.get_key_for_section_value(a[0], a[1])
    elif kind == "env":
        if k == "name":
            return obj.qualified_env_name
        if k == "aliases":
            return edit(obj.get_aliases())
        return obj.get_msg_showing_supported_environments("m")
    elif kind == "flags":
        if k == "build":
            obj.build_name = a[0]
        elif k == "options":
            return obj.selected_options
        elif k == "str":
            return obj.selected_options_str
        elif k == "default?":
            return obj.is_default_option(a[0])
        else:
            return obj.get_msg_showing_supported_flags("m")
    elif kind == "ds":
        return obj.system_name
    elif kind == "typed":
        n = "p%d" % (a[0] % len(o["props"]))
        if k == "read":
            return getattr(obj, n)
        if k == "set":
            setattr(obj, n, [1, "x", ["l"], {"d": 1}, None][a[1] % 5])
        elif k == "del":
            delattr(obj, n)
        elif k == "inplace":
            return edit(getattr(obj, n))
    elif kind == "ec":
        if k == "event":
            return obj.exception_control_event(a[0], ValueError, a[1])
        return obj.debug_message(a[0], "message")
    elif kind == "le":
        if k == "build":
            obj.build_name = a[0]
        elif k == "system":
            return obj.system_name
        elif k == "env":
            return obj.parsed_env_name
        elif k == "strip":
            return obj.env_stripped_build_name
        elif k == "args":
            return sorted((n, str(v)) for n, v in vars(obj.args).items())
        else:
            return obj.list_envs()
    elif kind == "gc":
        return {"complete": lambda: obj.complete_config, "validate": obj.validate_config_specs_ini,
                "flags": lambda: obj.generated_config_flags_str, "args": lambda: obj.load_env_args,
                "configs": obj.list_configs, "config-flags": obj.list_config_flags}[k]()
    else:
        raise ValueError(k)


def play(o, d, out, res):
    """Create one object and do its operations, one at a time; appends every outcome to res."""
    obj = None
    for n, op in enumerate([["new"]] + o["ops"]):
        try:
            if n == 0:
                obj = build(o, d)
                r = ["ok", "created"]
            else:
                r = ["ok", norm(perform(o, obj, op, d))]
        except (StepBudget, Watchdog, Violation, MemoryError, RecursionError):
            raise
        except (Exception, SystemExit) as e:
            r = ["raised", type(e).__name__, norm(str(e))]
            if n == 0:
                res.append([op, r, printed(out.take())])
                return
        res.append([op, r, printed(out.take())])
        yield


# ---------------------------------------------------------------------------
#  A process in which the code under test was never used
# ---------------------------------------------------------------------------

def _put(fd, v):
    b = pickle.dumps(v)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _get(fd):
    def take(n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out
    return pickle.loads(take(struct.unpack("<Q", take(8))[0]))


class Pristine:
    """Forks a child per request; the child plays one object alone and reports what it saw."""

    def __init__(self):
        ra, wa = os.pipe()
        rb, wb = os.pipe()
        if os.fork() == 0:
            try:
                os.close(wa)
                os.close(rb)
                self.serve(ra, wb)
            except BaseException:
                pass
            os._exit(0)
        os.close(ra)
        os.close(wb)
        self.w, self.r = wa, rb

    def serve(self, r, w):
        while True:
            o, d, env, host, cwd = _get(r)
            pid = os.fork()
            if pid == 0:
                try:
                    _put(w, ("done", alone(o, d, env, host, cwd)))
                except BaseException as e:
                    _put(w, ("failed", repr(e)))
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                _put(w, ("failed", f"the process ended with status {status}"))

    def ask(self, *a):
        _put(self.w, a)
        return _get(self.r)


def settle(env, host, cwd):
    for n in list(os.environ):
        if n not in env:
            del os.environ[n]
    os.environ.update(env)
    HOST[0] = host
    StubOptions.options = ["-DX=1"]
    os.chdir(cwd)


def alone(o, d, env, host, cwd):
    settle(env, host, cwd)
    out = ThreadOut()
    sys.stdout = sys.stderr = out
    res = []
    for _ in play(o, d, out, res):
        pass
    return res


# ---------------------------------------------------------------------------

EVENTS = ["WARNING", "SILENT", "MINOR", "SERIOUS", "CRITICAL", "CATASTROPHIC"]


class C34(Check):
    id = "C34"
    rule = ("random sets of two to four objects (parsers and subclasses, environment tools, keyword, environment-name and flag "
            "parsers, system finders, LoadEnv, GenConfig, typed properties, exception and debug settings; often two of one "
            "class and on the same files, with other settings), each with a random list of operations, run in a random "
            "interleaving of operations, inside handlers of one another, or in threads that a seeded scheduler switches between source lines; every outcome is "
            "compared with the one the object gives alone in a process that never used the code; a state is a distinct "
            "(kinds, operation, outcome)")
    anchor_files = ["src/configparserenhanced/ConfigParserEnhanced.py", "src/configparserenhanced/TypedProperty.py",
                    "wip/setenvironment/src/setenvironment/SetEnvironment.py", "wip/keywordparser/keywordparser/KeywordParser.py"]
    quick = 4500
    thorough = 60000
    needs = {"threads": 500, "operations": 15000, "switches": 10000, "same-files": 500, "nested": 500}
    assumptions = ["the environment and the working directory belong to the process: environment tools are given variables of "
                   "their own", "GenConfig, which redirects the standard output while it validates, is not run in threads"]
    anchor_files = anchor_files + ["wip/loadenv/load_env.py"]

    def prepare(self):
        load_tools()
        import determinesystem  # noqa: F401
        import keywordparser  # noqa: F401
        import loadenv.EnvKeywordParser  # noqa: F401
        import setenvironment  # noqa: F401
        import src.config_keyword_parser  # noqa: F401
        import distutils.spawn  # noqa: F401
        import shutil  # noqa: F401
        self.pristine = Pristine()

    # -- generation -----------------------------------------------------------

    def gen(self, rng, i):
        for _ in range(30):
            threads = rng.random() < 0.5
            n = rng.choice([2, 2, 3, 4])
            objs = []
            for k in range(n):
                twin = objs[-1] if objs and rng.random() < 0.55 else None
                kind = twin["kind"] if twin else rng.choice(
                    ["cpe"] * 7 + ["se"] * 5 + ["kw", "env", "env", "flags", "flags", "ds", "typed", "typed", "ec", "le"] +
                    ([] if threads else ["gc"]))
                o = getattr(self, "gen_" + kind)(rng, k, twin)
                o.update(kind=kind, k=k, same=bool(twin and twin.get("text") == o.get("text") and kind != "se"))
                objs.append(o)
            c = dict(objs=objs, threads=threads, seed=rng.randrange(1 << 30), p=rng.choice([0.02, 0.1, 0.3]),
                     hot=rng.choice([None, None, ["line", 8], ["line", 30], ["line", 100], ["function", 8], ["function", 20]]),
                     nest=rng.random() < 0.6,
                     host=rng.choice(["host-sys-3", "host-rhel7", "elsewhere", "host-machine-type-1"]),
                     whole=rng.random() < 0.25)
            if self.valid(c):
                return c
        raise RuntimeError("no case")

    def valid(self, c):
        for o in c["objs"]:
            if o["kind"] == "cpe":
                if not ini.valid_config(o["case"]):
                    return False
            elif o["kind"] == "se":
                if not valid_env(dict(secs=o["secs"])):
                    return False
            elif o["kind"] in ("kw", "env", "flags") and not kw_text_ok(o["text"]):
                return False
        return bool(c["objs"])

    def common(self, rng):
        r = rng.random()
        if r < 0.3:
            return ["level", rng.randrange(6)]
        if r < 0.45:
            return ["debug", rng.randrange(6)]
        if r < 0.6:
            return [rng.choice(["silent", "compact"]), rng.randrange(2)]
        return ["settings"]

    def gen_cpe(self, rng, k, twin):
        if twin:
            case = twin["case"]
        else:
            case = ini.gen_config(rng, ops=OPS, max_sections=5, allow_delims=False, p_missing=0.03)
            case.pop("disk", None)
        sett = []
        if rng.random() < 0.5:
            sett.append(["exception_control_level", rng.randrange(6)])
        if rng.random() < 0.3:
            sett.append(["debug_level", rng.randrange(4)])
        if rng.random() < 0.3:
            sett.append(["exception_control_silent_warnings", True])
        if rng.random() < 0.3:
            sett.append(["default_section_name", rng.choice([case["default"], "OTHER", "base"])])
        elif case["default"] != "DEFAULT":
            sett.append(["default_section_name", case["default"]])
        ops = []
        for _ in range(rng.randrange(3, 14)):
            r = rng.random()
            if r < 0.72:
                ops.append([rng.choice(["get", "get", "get", "items", "parse", "parse", "unroll", "last", "sections", "assert",
                                        "known", "raw", "edit", "raw-edit", "log", "opt", "force", "check", "view", "last-edit"]),
                            rng.randrange(12)])
            elif r < 0.82:
                ops.append(rng.choice([["delims", ["=", ":"]], ["delims", [":"]], ["delims", ["="]], ["default", "OTHER"],
                                       ["default", case["default"]], ["reload"], ["bad", rng.randrange(2)]]))
            else:
                ops.append(self.common(rng))
        return dict(case=case, text=ini.texts_of(case), set=sett, ops=ops, cls=rng.randrange(3))

    def gen_se(self, rng, k, twin):
        names = [f"VF_{k}_{x}" for x in ("A", "B", "AB", "a")]
        secs = gen_env(rng, SIMPLE + [f"${{VF_{k}_A}}:x", "two words", "$VF_H1"], ENV_OPS, names=names)
        secs = [[n, [[key.replace("VF_P", f"VF_{k}_P"), s, v] for key, s, v in opts]] for n, opts in secs]
        if rng.random() < (0.25 if not twin else 0.8 if "module" in str(twin["secs"]) else 0.1):
            mods = [f"VF_{k}_{x}" for x in ("ok", "ok", "two", "bad", "fail", "false")]
            for n, opts in secs:
                for m in rng.sample(mods, rng.randrange(0, 3)):
                    key = rng.choice(["module-load", "module-unload", "module_use"])
                    opts.insert(rng.randrange(len(opts) + 1),
                                ["module-use", ":", m] if key == "module_use" else [f"{key} {m}", ":", rng.choice(["", "1.2"])])
                seen = set()
                opts[:] = [o for o in opts if not (o[0] in seen or seen.add(o[0]))]
        ops = []
        for _ in range(rng.randrange(3, 11)):
            r = rng.random()
            if r < 0.55:
                ops.append([rng.choice(["apply", "apply", "actions", "script", "print", "write"]), rng.randrange(6),
                            rng.choice(["bash", "python"])])
            elif r < 0.65:
                ops.append(["op", rng.choice(["set", "append", "prepend", "unset", "remove_path_entry", "nope", "assert_not_empty"]),
                            rng.choice(["a", "/b", ""])])
            elif r < 0.72:
                ops.append(["env"])
            elif r < 0.87:
                ops.append([rng.choice(["get", "parse", "sections", "assert", "known", "unroll", "check"]), rng.randrange(6)])
            else:
                ops.append(self.common(rng))
        return dict(secs=secs, text=[ini.render_file(secs)], ops=ops,
                    set=[["exception_control_level", rng.randrange(6)]] if rng.random() < 0.5 else [])

    def gen_kw(self, rng, k, twin):
        text = twin["text"] if twin and rng.random() < 0.6 else gen_kw(rng, SYSTEMS[:4], shared=rng.random() < 0.3)
        m = KwModel(text)
        ops = []
        for _ in range(rng.randrange(2, 9)):
            s = rng.choice(m.sections())
            ks = list(m.data(s)) or ["none"]
            ops.append(["values", s, rng.choice(ks)] if rng.random() < 0.6 else ["key", s, rng.choice(WORDS[:12])])
        return dict(text=text, ops=ops)

    def gen_env(self, rng, k, twin):
        text = twin["text"] if twin and rng.random() < 0.7 else gen_kw(rng, SYSTEMS[:4], p_bad=0.02)
        m = KwModel(text)
        s = rng.choice([x for x in m.sections() if x != "DEFAULT"])
        return dict(text=text, system=s, build=gen_build(rng, m.data(s), s),
                    ops=[[rng.choice(["name", "name", "aliases", "message"])] for _ in range(rng.randrange(1, 6))])

    def gen_flags(self, rng, k, twin):
        text = twin["text"] if twin and rng.random() < 0.7 else gen_kw(
            rng, ["configure-flags", "OTHER"], keys=FLAGS, words=WORDS, p_bad=0, types=True, minval=1, p_default=0.04)
        opts = [w for w in re.split(r"\s+", text) if w and "_" not in w and "#" not in w and ":" not in w] or ["a"]

        def name():
            return "_".join(rng.choice(opts) for _ in range(rng.randrange(0, 5)))
        ops = []
        for _ in range(rng.randrange(2, 9)):
            ops.append(rng.choice([["build", name()], ["options"], ["str"], ["default?", rng.choice(opts)], ["message"]]))
        return dict(text=text, build=name(), ops=ops)

    def gen_ds(self, rng, k, twin):
        names, systems, envs, host = gen_tool(rng)
        text = twin["text"] if twin and rng.random() < 0.7 else systems
        names = ini.Model([text]).sections()
        return dict(text=text, build=rng.choice(["gnu", rng.choice(names), rng.choice(names).upper() + "_x"]),
                    force=rng.random() < 0.5, silent=rng.random() < 0.5, ops=[["system"]] * rng.randrange(1, 4))

    def gen_typed(self, rng, k, twin):
        props = twin["props"] if twin else [
            [rng.choice(["int", "str", "list", "dict", "any"]), rng.randrange(3), int(rng.random() < 0.25)]
            for _ in range(rng.randrange(1, 4))]
        return dict(text=props, props=props, ops=[[rng.choice(["read", "read", "set", "del", "inplace"]), rng.randrange(3),
                                                   rng.randrange(5)] for _ in range(rng.randrange(3, 14))])

    def gen_ec(self, rng, k, twin):
        ops = []
        for _ in range(rng.randrange(3, 14)):
            r = rng.random()
            ops.append(["event", rng.choice(EVENTS), rng.choice(["m", "two\nlines", None])] if r < 0.4 else
                       ["message", rng.randrange(4)] if r < 0.55 else self.common(rng))
        return dict(text="", ops=ops)

    def gen_le(self, rng, k, twin):
        if twin and rng.random() < 0.7:
            systems, envs, names = twin["text"], twin["envs"], twin["names"]
        else:
            names, systems, envs, _ = gen_tool(rng)
        builds = [gen_tool_build(rng, names, envs) for _ in range(3)]
        ops = []
        for _ in range(rng.randrange(2, 8)):
            ops.append(rng.choice([["build", rng.choice(builds)], ["system"], ["env"], ["env"], ["strip"], ["list"], ["args"]]))
        return dict(text=systems, envs=envs, names=names, ops=ops, argv=(["--force"] if rng.random() < 0.5 else []) + [builds[0]])

    def gen_gc(self, rng, k, twin):
        g = twin["gc"] if twin and rng.random() < 0.7 else gen_gc(rng)
        build = g["build"] if not twin or rng.random() < 0.3 else rng.choice([s for s in g["specs"] if not s.startswith("-")] + [g["build"]])
        return dict(text="", gc=g, argv=(["--force"] if rng.random() < 0.5 else []) + [build],
                    ops=[[rng.choice(["complete", "validate", "flags", "args", "configs", "config-flags"])]
                         for _ in range(rng.randrange(1, 6))])

    # -- execution ------------------------------------------------------------

    def place(self, o, d, prev):
        """Write the object's files; a twin with the same files uses those of the one before it."""
        k = o["kind"]
        if o["same"] and prev is not None and prev["kind"] == k and prev.get("text") == o.get("text") and prev.get("envs") == o.get("envs") \
                and prev.get("gc") == o.get("gc") and prev.get("paths"):
            o["paths"] = prev["paths"]
            o["argv"] = prev.get("files", []) + o["argv"] if "argv" in o else None
            o["files"] = prev.get("files", [])
            return True
        w = os.path.join(d, f"o{o['k']}")
        os.makedirs(w, exist_ok=True)
        if k in ("cpe", "se"):
            o["paths"] = ini.write_files(w, o["text"])
        elif k in ("kw", "env", "flags", "ds"):
            o["paths"] = [put(w, "file.ini", o["text"])]
        elif k == "le":
            lines = ["[load-env]"]
            for f, t in zip(FILES, (o["text"], o["envs"], "[X]\nenvvar-set VF_A: 1\n")):
                put(w, f + ".ini", t)
                lines.append(f"{f} : {f}.ini")
            o["paths"] = [put(w, "load-env.ini", "\n".join(lines) + "\n")]
        elif k == "gc":
            lines, _, argv = gc_files(o["gc"], w)
            o["paths"] = [put(w, "ini/gen-config.ini", top_text(lines))]
            o["files"] = argv
            o["argv"] = argv + o["argv"]
        return False

    def run(self, c, mon):
        import copy
        c = copy.deepcopy(c)
        d = mon.dir()
        objs = c["objs"]
        prev = None
        for n, o in enumerate(objs):
            o["k"] = n if o["kind"] != "se" else o["k"]
            if self.place(o, d, prev):
                mon.ev("same-files")
            prev = o
        cwd = os.path.join(d, "cwd")
        os.makedirs(cwd)
        make_tools(d)
        with open(d + "/bin1/modulecmd", "w") as f:
            f.write(MODULECMD)
        os.chmod(d + "/bin1/modulecmd", 0o755)
        env = dict(os.environ)
        env.update(PATH=f"{d}/bin1:{d}/bin2:/usr/bin:/bin", VF_H1="home one", VF_H2="/h/two", VF_TOOLNAME="vf_tool")
        for o in objs:
            env[f"VF_{o['k']}_A"] = "/a:/b"
        want = []
        for o in objs:
            os.makedirs(os.path.join(d, f"w{o['k']}"), exist_ok=True)
            tag, r = self.pristine.ask(o, os.path.join(d, f"w{o['k']}"), env, c["host"], cwd)
            if tag != "done":
                mon.fail("alone", f"{o['kind']} object alone: {r}")
            want.append(r)
        settle(env, c["host"], cwd)
        out = ThreadOut()
        got = [[] for _ in objs]
        so, se = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = out
        plays = [play(o, os.path.join(d, f"w{o['k']}"), out, g) for o, g in zip(objs, got)]
        try:
            if c["threads"]:
                b = Baton(len(objs), c["seed"], c["p"], c["hot"])
                b.run(plays)
                mon.ev("threads")
                mon.ev("switches", b.switches)
                for x in b.places:
                    mon.state("switch", x)
            else:
                rng = random.Random(c["seed"])
                left = list(plays)
                busy = []

                def advance(x, times):
                    busy.append(x)
                    try:
                        for _ in range(times):
                            next(x)
                    except StopIteration:
                        left.remove(x)
                    finally:
                        busy.pop()

                def nested():
                    free = [x for x in left if x not in busy]
                    if free and len(busy) < 3 and rng.random() < 0.5:
                        before = out.take()
                        advance(rng.choice(free), rng.choice([1, 1, 2]))
                        out.write(before)
                        mon.ev("nested")

                if c["nest"]:
                    NEST[0] = nested
                while left:
                    if c["whole"]:
                        advance(left[0], 10 ** 6)
                    else:
                        advance(rng.choice(left), rng.choice([1, 1, 2, 4]))
                mon.ev("interleaved")
        finally:
            NEST[0] = None
            sys.stdout, sys.stderr = so, se
        own = tuple(f"VF_{o['k']}_" for o in objs if o["kind"] == "se")
        mon.eq("environment variables that no environment tool's section names",
               {n: v for n, v in os.environ.items() if not (own and n.startswith(own))},
               {n: v for n, v in env.items() if not (own and n.startswith(own))}, "environment")
        kinds = [o["kind"] for o in objs]
        how = "in threads" if c["threads"] else "interleaved"
        for n, o in enumerate(objs):
            mon.ev("operations", len(got[n]))
            if got[n] != want[n]:
                tag, again = self.pristine.ask(o, os.path.join(d, f"w{o['k']}"), env, c["host"], cwd)
                if again != want[n]:
                    mon.ev("not-repeatable")
                    continue
            for g, w in zip(got[n], want[n]):
                mon.eq(f"outcome of {g[0]} on object {n} of {kinds} {how}", g[1:], w[1:], "outcome")
                mon.state(o["kind"], tuple(sorted(kinds)), g[0][0], g[1][0], short(g[1], 200))
            mon.eq(f"operations done on object {n} of {kinds} {how}", len(got[n]), len(want[n]), "operations-done")
