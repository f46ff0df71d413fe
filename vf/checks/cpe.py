"""Checks of the core parser: expansion, cycles, handlers, lazy view, ..."""
import shlex
import configparser
import contextlib
import io
import os
import shutil
import sys

from .. import ini
from ..core import Check, describe
from ..cpelib import (access, build, compare_access, cpe_class, make_handlers, mods, plain, predict, unambiguous,
                      record_events)
from ..ini import Raised

CORE = ["src/configparserenhanced/ConfigParserEnhanced.py"]

OPS = ["foo", "foo-bar", "envvar-set", "op_x", "X", "opt-set-cmake-var", "usex", "use-all", "é", "Initialize", "a--b", "finalize-x"]


def shape_of(trace):
    """Abstract shape of a parse: what was visited and in which order."""
    ids = {}
    return tuple((e["kind"], ids.setdefault(e["section"], len(ids))) for e in trace)


class C01(Check):
    id = "C01"
    rule = ("random .ini configurations (1-60 sections; chains, trees, diamonds, rings, stars; 1-3 "
            "files; custom delimiters; default sections) read section by section through randomly "
            "chosen public accessors in random order; a state is a distinct (visit shape, resulting "
            "key/value map) of a section whose expansion followed at least one use link, merged a "
            "default section or merged several files")
    anchor_files = CORE
    quick = 7000
    thorough = 70000
    needs = {"oracle:section-data": 1000, "followed-use": 500}
    assumptions = ["option keys tokenise under POSIX shell quoting rules",
                   "use links are nested at most 200 deep (the interpreter's recursion limit allows about 320)",
                   "no section uses the reserved internal default section name"]

    def prepare(self):
        cpe_class()

    def gen(self, rng, i):
        c = ini.gen_config(rng, big=(i % 40 == 0), p_missing=0.04)
        if rng.random() < 0.06:
            for f in c["files"]:
                for s in f:
                    for o in s[1]:
                        if o[2] is not None and rng.random() < 0.3:
                            o[2] = rng.choice(["%(key1)s", "pre %(key2)s post", "%(nope)s", "%(a)s%%"])
            if not self.valid(c):
                return self.gen(rng, i)
        c["how"] = rng.randrange(12)
        if len(c["files"]) > 1 and rng.random() < 0.2:
            c["again"] = True
            if not self.valid(c):
                del c["again"]
        c["ecl"] = rng.choice([4, 4, 4, 0, 1, 2, 3])
        c["order"] = [rng.randrange(1000) for _ in range(24)]
        c["acc"] = [rng.randrange(8) for _ in range(12)]
        return c

    def valid(self, c):
        return ini.valid_config(c)

    def run(self, c, mon):
        model = ini.model_of(c)
        obj = mon.expect_ok("construct", build, c, mon)
        names = mon.expect_ok("sections", lambda: list(obj.configparserenhanceddata.sections()))
        mon.eq("section-list", names, model.sections())
        secs = model.sections()
        acc = c["acc"] or [0]
        seen = {}
        order = [secs[j % len(secs)] for j in c["order"]] if secs else []
        if len(secs) > 12:
            order = order[:14]
        for n, s in enumerate(order):
            p = predict(model, s, ecl=c["ecl"])
            a = acc[n % len(acc)]
            res = mon.call(access, obj, s, a)
            if compare_access(mon, f"section {s!r} accessor {a}", p, res):
                seen[s] = p
                _, data, trace, cyc = p
                uses = len({e["section"] for e in trace if e["kind"] == "generic"}) > 1 or cyc
                if uses:
                    mon.ev("followed-use")
                if uses or len(c["files"]) > 1 or model.cp.has_section(model.default):
                    mon.state(shape_of(trace), sorted(data.items(), key=repr))
            else:
                mon.ev("predicted-failure")
        # results already handed out stay right after parsing everything else
        for s, p in seen.items():
            compare_access(mon, f"section {s!r} re-read", p, mon.call(access, obj, s, 1))
        bad = "no such section"
        if bad not in secs:
            compare_access(mon, "missing root", predict(model, bad, ecl=c["ecl"]),
                           mon.call(access, obj, bad, acc[0] % 5))

    def directed(self):
        def f(secs, **kw):
            return dict(dict(files=[secs], delims=None, default="DEFAULT", how=0, ecl=4,
                             order=list(range(12)), acc=[0, 4, 1, 2, 3]), **kw)
        out = [
            # documented examples
            f([["SEC A", [["opt1", ": ", "value1-A"], ["opt2", ": ", "value2-A"]]],
               ["SEC B", [["opt1", ": ", "value1-B"], ["use 'SEC A'", "", None]]],
               ["SEC C", [["use 'SEC A'", "", None], ["opt1", ": ", "value1-C"]]]]),
            f([["DEFAULT", [["k", ":", "d"], ["use B", "", None]]],
               ["A", [["k", ":", "a"]]], ["B", [["z", ":", "b"], ["k", ":", "b"]]]]),
            # diamonds: a section reached twice is processed twice (last one wins)
            f([["A", [["use B", "", None], ["use C", "", None]]],
               ["B", [["use D", "", None], ["k", ":", "B"]]],
               ["C", [["use D", "", None]]], ["D", [["k", ":", "D"]]]]),
            f([["A", [["k", ":", "1"], ["use B", "", None], ["use  B", "", None], ["k2", ":", "2"]]],
               ["B", [["k", ":", "B"], ["k2", ":", "B"]]]]),
            f([["DEFAULT", [["k", ":", "d"]]], ["A", [["use DEFAULT", "", None]]]]),
        ]
        for n in (2, 5, 11, 33, 64, 90, 200):
            out.append(f([[f"S{i}", [["use S%d" % (i + 1), "", None]] if i < n - 1 else []]
                          for i in range(n)][:-1] + [[f"S{n-1}", [["deep", ":", "x"]]]],
                         order=[0, n - 1, n // 2]))
        # one large section, used by many
        out.append(f([["L", [[f"k{i} x", ":", f"v{i}"] for i in range(400)]]] +
                     [[f"U{i}", [["use L", "", None], [f"k{i} x", ":", "own"]]] for i in range(30)],
                     order=[0, 3, 30, 7]))
        return out


class C02(Check):
    id = "C02"
    rule = ("random use graphs biased to self loops, rings, nested and overlapping cycles, loops "
            "through the default section and diamonds, parsed at every exception control level "
            "0..5; a state is a distinct (cycle edges by visit order, level, outcome) of a parse "
            "in which at least one link closed a cycle or one section was reached twice")
    anchor_files = CORE
    quick = 8000
    thorough = 80000
    needs = {"cycle": 1000, "diamond": 200, "raised-at-5": 100}
    assumptions = C01.assumptions

    def prepare(self):
        cpe_class()

    def gen(self, rng, i):
        shape = rng.choice(["random", "random", "ring", "ladder", "dag", "random"])
        c = ini.gen_config(rng, big=(i % 60 == 0), p_default=0.35, shape=shape,
                           allow_delims=rng.random() < 0.1, max_sections=7)
        if rng.random() < 0.6:
            # add explicit back links
            f = c["files"][-1]
            if f:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    s = rng.choice(f)
                    t = rng.choice(f)
                    o = ini.use_option(rng, t[0], c["delims"] or ("=", ":"))
                    if not ini.has_delim(o[0], c["delims"] or ("=", ":")) and \
                            all(x[0].strip() != o[0].strip() for x in s[1]):
                        s[1].insert(rng.randrange(len(s[1]) + 1), o)
            if not self.valid(c):
                return self.gen(rng, i)
        c["ecl"] = rng.choice([0, 1, 2, 3, 4, 4, 5, 5])
        c["how"] = rng.randrange(12)
        c["acc"] = [rng.randrange(8) for _ in range(6)]
        c["silentw"] = rng.random() < 0.2
        return c

    def valid(self, c):
        return ini.valid_config(c)

    def run(self, c, mon):
        model = ini.model_of(c)
        events = []
        cls = record_events(cpe_class(), events)
        obj = mon.expect_ok("construct", build, c, mon, cls)
        secs = model.sections()
        for n, s in enumerate(secs[:14]):
            a = c["acc"][n % len(c["acc"])] if c["acc"] else 0
            p = predict(model, s, ecl=c["ecl"])
            del events[:]
            res = mon.call(access, obj, s, a)
            out = mon.out
            ok = compare_access(mon, f"section {s!r} at level {c['ecl']}", p, res)
            cyc = p[3] if ok else p[1].cycles
            reparses = 1 if ok and a == 4 else 1
            warned = [e for e in events if e[0] == "WARNING" and issubclass(e[1], ValueError)]
            if ok:
                mon.eq(f"cycle events of {s!r}", len(warned), len(cyc) * reparses, "cycle-events")
                loud = c["ecl"] >= 1 and not c.get("silentw")
                if cyc and loud:
                    mon.true("cycle-warning-printed", out != "", f"no warning for {cyc}")
                if not (cyc and loud):
                    mon.true("no-spurious-warning", out == "", f"printed {out!r} with no cycle")
            if cyc:
                mon.ev("cycle", len(cyc))
            trace = p[2] if ok else p[1].trace
            entered = [e["section"] for e in trace]
            dia = ok and not cyc and len(trace) != len({(e["section"], e.get("raw")) for e in trace})
            if dia:
                mon.ev("diamond")
            if not ok and c["ecl"] == 5 and isinstance(res[1], ValueError):
                mon.ev("raised-at-5")
            if cyc or dia:
                mon.state(shape_of(trace), c["ecl"], ok)

    def directed(self):
        def f(secs, ecl):
            return dict(files=[secs], delims=None, default="DEFAULT", how=0, ecl=ecl, acc=[0])
        U = lambda t: ["use " + t, "", None]
        out = []
        for ecl in range(6):
            out += [
                f([["A", [U("A"), ["k", ":", "v"]]]], ecl),
                f([["A", [U("B"), ["k", ":", "a"]]], ["B", [U("A"), ["k", ":", "b"]]]], ecl),
                f([["A", [U("B")]], ["B", [U("C")]], ["C", [U("B"), U("A"), ["k", ":", "c"]]]], ecl),
                f([["DEFAULT", [U("A")]], ["A", [["k", ":", "v"]]], ["B", []]], ecl),
                f([["DEFAULT", [U("DEFAULT"), ["d", ":", "1"]]], ["A", [["k", ":", "v"]]]], ecl),
                f([["DEFAULT", [U("B")]], ["A", [["k", ":", "v"]]], ["B", [U("A"), ["b", ":", "1"]]]], ecl),
                f([["R", [U("A"), U("B")]], ["A", [U("D")]], ["B", [U("D")]], ["D", [["k", ":", "v"]]]], ecl),
                f([["S%d" % i, [U("S%d" % ((i + 1) % 30))]] for i in range(30)], ecl),
            ]
        return out


class C03(Check):
    id = "C03"
    rule = ("random configurations over operations with generated public and private recording "
            "handlers; the recorded invocation log of every parse is compared entry by entry "
            "(handler, section, operation, parameters, value, raw option, shared-data identity) with "
            "the reference trace; handlers may parse or read other sections themselves, which must not disturb "
            "the parse they belong to; a state is a distinct reference trace with at least one "
            "handler invocation")
    anchor_files = CORE + ["src/configparserenhanced/HandlerParameters.py"]
    quick = 9000
    thorough = 90000
    needs = {"handler-call": 3000, "initialize": 1000, "finalize": 1000, "nested-parse": 500}
    assumptions = C01.assumptions

    def prepare(self):
        cpe_class()

    def gen(self, rng, i):
        ops = rng.sample(OPS, rng.choice([1, 2, 3, 5]))
        c = ini.gen_config(rng, big=(i % 60 == 0), ops=ops, p_missing=0.02)
        nh = [o for o in ops if rng.random() < 0.8] or ops[:1]
        c["handlers"] = [[o, rng.randrange(2), rng.random() < 0.8, 0] for o in nh]
        c["handlers"] += [["initialize", 0, rng.random() < 0.8, 0], ["finalize", 0, rng.random() < 0.8, 0]]
        c["hostile"] = rng.random() < 0.4
        c["ecl"] = rng.choice([4, 4, 1, 0, 3, 5])
        c["how"] = rng.randrange(12)
        c["flags"] = [rng.choice([3, 3, 3, 3, 0, 1, 2]) for _ in range(6)]
        c["debug"] = rng.choice([0, 0, 0, 1, 3, 5])
        c["acc"] = [rng.choice([4, 4, 4, 0, 1, 9]) for _ in range(6)]
        # handlers that parse another section: (number of the call, index of the section, accessor)
        c["nest"] = []
        if rng.random() < 0.4:
            c["nest"] = [[rng.randrange(12), rng.randrange(12), rng.choice([4, 4, 0, 1, 3])]
                         for _ in range(rng.choice([1, 2, 4]))]
        return c

    def valid(self, c):
        return ini.valid_config(c)

    def run(self, c, mon):
        model = ini.model_of(c)
        log, frames, roots, calls = [], [], [], [0]
        nest = {n: (k, how) for n, k, how in c.get("nest", [])}

        def on_call(attr, op, obj, section, hp):
            nonlocal log
            k, how = nest.get(calls[0], (None, None))
            calls[0] += 1
            t = secs[k % len(secs)] if k is not None else None
            if t is not None and t not in roots:
                outer, log = log, []
                roots.append(t)
                try:
                    try:
                        r = ("ok", access(obj, t, how) if how != 4 else obj.parse_section(t))
                    except Exception as e:
                        r = ("exc", e)
                    frames.append((t, how, r, log))
                finally:
                    roots.pop()
                    log = outer
            if c.get("hostile"):
                # a handler scribbling on its own parameters must not reach other options
                hp.value = "scribble"
                hp.params = ["scribbled", "params"]
                if op not in ("initialize", "finalize"):
                    hp.op = "scribbled"
            return None

        cls = make_handlers(c["handlers"], lambda e: log.append(e), on_call=on_call)
        obj = mon.expect_ok("construct", build, c, mon, cls)
        handled = {h[0].replace("-", "_"): h for h in c["handlers"]}
        opset = set(handled) | {"use"}
        secs = model.sections()
        seen, partial = set(), set()
        for n, s in enumerate(secs[:10]):
            fl = c["flags"][n % len(c["flags"])] if c["flags"] else 3
            acc = c["acc"][n % len(c["acc"])] if c["acc"] else 4
            if acc != 4:
                fl = 3
            init, fin = bool(fl & 1), bool(fl & 2)
            p = predict(model, s, handled=opset, ecl=c["ecl"], initialize=init, finalize=fin)
            log.clear()
            frames.clear()
            calls[0] = 0
            roots[:] = [s]
            if acc == 4:
                if init and fin:
                    res = mon.call(obj.parse_section, s)
                else:
                    res = mon.call(obj.parse_section, s, initialize=init, finalize=fin)
            elif acc == 9:
                res = mon.call(lambda: obj.configparserenhanceddata.has_section(s))
            else:
                res = mon.call(access, obj, s, acc)
            if acc == 4 or log or s not in seen:
                self.judge(mon, obj, s, p, res, acc, log, handled)
            if res[0] == "ok":
                seen.add(s)
                if not init:
                    partial.add(s)
            for ts, how, r, flog in frames:
                tp = predict(model, ts, handled=opset, ecl=c["ecl"])
                if how == 4 or flog:
                    self.judge(mon, obj, ts, tp, r, how, flog, handled, nested=True)
                if r[0] == "ok":
                    seen.add(ts)
                if how != 4 and ts not in partial:
                    compare_access(mon, f"data of {ts!r} read by a handler of {s!r}", tp, r)
                mon.ev("nested-parse")
            if p[0] == "ok":
                if fl & 1:
                    compare_access(mon, f"data of {s!r}", p,
                                   mon.call(access, obj, s, 1))

    def judge(self, mon, obj, s, p, res, acc, log, handled, nested=False):
        if p[0] == "exc":
            mon.true("predicted-failure", res[0] == "exc" and isinstance(res[1], p[1].types),
                     f"parse of {s!r}: {res} expected {p[1].types}")
            trace = p[1].trace
        else:
            if res[0] != "ok":
                mon.fail("unexpected-exception", f"parse of {s!r}: {describe(res[1])}")
            trace = p[2]
        want = []
        for e in trace:
            if e["kind"] == "init" and "initialize" in handled:
                want.append(("handler_initialize", s))
            elif e["kind"] == "fin" and "finalize" in handled:
                want.append(("handler_finalize", s))
            elif e["kind"] == "op":
                h = handled[e["op"]]
                attr = ("_" if h[1] == 1 else "") + "handler_" + e["op"]
                want.append((attr, e["section"], e["op"], e["params"], e["value"], e["raw"], attr))
        got = []
        for g in log:
            if g["attr"] in ("handler_initialize", "handler_finalize"):
                got.append((g["attr"], g["section"]))
                # these two calls belong to no option
                mon.eq(f"option given to {g['attr']}", (g["op"], g["params"], g["value"], g["raw"], g["handler_name"]),
                       ("", [], "", (None, None), g["attr"]), "hook-parameters")
            else:
                got.append((g["attr"], g["section"], g["op"], g["params"], g["value"], g["raw"],
                            g["handler_name"]))
        if p[0] == "exc" and p[1].why == "interpolation":
            want = want[:len(got)]
        if got != want:
            k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]),
                     min(len(got), len(want)))
            mon.fail("handler-trace",
                     f"parse of {s!r}: invocation #{k} observed "
                     f"{got[k] if k < len(got) else 'none'} expected "
                     f"{want[k] if k < len(want) else 'none'} (counts {len(got)}/{len(want)})")
        mon.ev("oracle:handler-trace")
        mon.ev("handler-call", sum(1 for g in want if len(g) > 2))
        mon.ev("initialize", sum(1 for g in want if g[0] == "handler_initialize"))
        mon.ev("finalize", sum(1 for g in want if g[0] == "handler_finalize"))
        if log:
            # one shared dict per parse, filled in invocation order, root constant
            mon.true("shared-data-identity", len({g["shared"] for g in log}) == 1,
                     f"parse of {s!r} used several shared dicts")
            mon.eq("shared-data-order", [g["nseq"] for g in log], list(range(len(log))))
            mon.true("section-root", all(g["root"] == s for g in log),
                     f"section_root {[g['root'] for g in log]} expected {s!r}")
            mon.state(s, tuple(map(repr, want)))
        if res[0] == "ok" and acc == 4:
            mon.eq("returned shared data", dict(res[1]).get("seq", []), [g["attr"] for g in log],
                   "returned-data")
            if not nested:
                mon.eq("last result", dict(obj.parse_section_last_result).get("seq", []),
                       [g["attr"] for g in log], "last-result")


class C04(Check):
    id = "C04"
    rule = ("random configurations and handler sets; the section data, the two validation calls at "
            "every exception control level and the list of known operations are compared with the "
            "set of options the reference model leaves unhandled; a state is a distinct (unhandled "
            "option set, handler set, level, verdict) with at least one operation-shaped option")
    anchor_files = CORE
    quick = 12000
    thorough = 120000
    needs = {"all-handled": 300, "unhandled": 1000, "file-ok": 50, "file-bad": 500}
    assumptions = C01.assumptions

    def prepare(self):
        cpe_class()

    def gen(self, rng, i):
        ops = rng.sample(OPS, rng.choice([1, 2, 4]))
        c = ini.gen_config(rng, ops=ops, opts_max=rng.choice([1, 2, 4]), p_default=0.15,
                           max_sections=12 if rng.random() < 0.1 else 6)
        handlers = [[o, rng.randrange(2), True, 0] for o in ops if rng.random() < 0.85]
        if rng.random() < 0.6:
            # mostly-handled files: drop or convert unhandled options
            hs = [h[0] for h in handlers] or ["use"]
            for f in c["files"]:
                for s in f:
                    keep = []
                    for o in s[1]:
                        w = o[0].split(None, 1)
                        if w and (w[0] in hs and w[0] != "use" or w[0] == "use"):
                            keep.append(o)
                        elif rng.random() < 0.12:
                            keep.append(o)
                    s[1] = keep
        c["handlers"] = handlers
        c["ecl"] = rng.choice([0, 1, 2, 3, 4, 5])
        c["how"] = rng.randrange(12)
        c["silentw"] = rng.random() < 0.2
        return c

    def valid(self, c):
        return ini.valid_config(c)

    def run(self, c, mon):
        model = ini.model_of(c)
        cls = make_handlers(c["handlers"], lambda e: None)
        obj = mon.expect_ok("construct", build, c, mon, cls)
        opset = {h[0].replace("-", "_") for h in c["handlers"]} | {"use"}
        known = {o.replace("_", "-") for o in opset}
        mon.eq("known operations", set(mon.expect_ok("known operations", obj.get_known_operations)),
               known, "known-operations")
        msg = mon.expect_ok("known operations message", obj.get_known_operations_message)
        for o in known:
            mon.true("known-operations-message", f"'{o}'" in msg, f"{o} not in {msg!r}")
        ecl = c["ecl"]
        bad_sections, bad_keys = [], set()
        fail = None
        for s in model.sections():
            p = predict(model, s, handled=opset, ecl=ecl)
            if p[0] == "exc":
                fail = fail or p[1]
                mon.expect_exc(f"validate {s!r}", p[1].types, obj.assert_section_all_options_handled, s)
                continue
            data = p[1]
            r = mon.expect_ok(f"validate {s!r} quietly", obj.assert_section_all_options_handled, s,
                              do_raise=False)
            if data:
                bad_sections.append(s)
                bad_keys |= set(data)
                mon.true("unhandled-reported", r not in (0, None, ""), f"{s!r} reported as clean: {r!r}")
                for k in data:
                    mon.true("unhandled-named", f"'{k}'" in str(r), f"{k!r} not named in {r!r}")
                if ecl >= 3:
                    e = mon.expect_exc(f"validate {s!r}", ValueError,
                                       obj.assert_section_all_options_handled, s)
                    for k in data:
                        mon.true("unhandled-named", f"'{k}'" in str(e), f"{k!r} not named in {e}")
                else:
                    r = mon.expect_ok(f"validate {s!r}", obj.assert_section_all_options_handled, s)
                    mon.true("unhandled-reported", r not in (0, None, ""), f"{s!r} -> {r!r}")
                mon.ev("unhandled")
            else:
                mon.eq(f"validate {s!r} quietly", r, 0, "handled-verdict")
                r = mon.expect_ok(f"validate {s!r}", obj.assert_section_all_options_handled, s)
                mon.eq(f"validate {s!r}", r, 0, "handled-verdict")
                mon.ev("all-handled")
            compare_access(mon, f"data of {s!r}", p, mon.call(access, obj, s, 0))
            if any(e["kind"] == "op" for e in p[2]) or data:
                mon.state(s, sorted(data), sorted(opset), ecl)
        obj2 = mon.expect_ok("construct", build, c, mon, cls)
        if fail:
            mon.expect_exc("validate file", (KeyError, ValueError, configparser.Error),
                           obj2.assert_file_all_sections_handled)
        elif bad_sections:
            if ecl >= 3:
                r = mon.expect_exc("validate file", ValueError, obj2.assert_file_all_sections_handled)
            else:
                r = mon.expect_ok("validate file", obj2.assert_file_all_sections_handled)
                mon.true("file-unhandled-reported", r != 0, f"sections {bad_sections} unhandled, got {r!r}")
            told = mon.out + str(r)
            for k in bad_keys:
                mon.true("file-unhandled-named", f"'{k}'" in told, f"{k!r} is not named by the validation of the file: {told!r}")
            mon.ev("file-bad")
        else:
            mon.eq("validate file", mon.expect_ok("validate file", obj2.assert_file_all_sections_handled),
                   0, "file-verdict")
            mon.ev("file-ok")

    def directed(self):
        out = []
        for key in ("initialize", "finalize X", "initialize now", "finalize"):
            for ecl in (0, 4):
                out.append(dict(files=[[["A", [[key, ":", "v"]]]]], delims=None, default="DEFAULT",
                                handlers=[], ecl=ecl, how=0))
        for n in (40, 150):
            for bad in (None, 0, n // 2, n - 1):
                for ecl in (2, 4):
                    out.append(dict(files=[[[f"S{i}", [["foo x", ":", "v"]] + ([["odd one", ":", "v"]] if i == bad else [])]
                                            for i in range(n)]], delims=None, default="DEFAULT",
                                    handlers=[["foo", 0, True, 0]], ecl=ecl, how=0))
        return out


class C05(Check):
    id = "C05"
    rule = ("random histories of 3-25 calls over every accessor of the lazy section view (including "
            "forced re-parses, direct parses, in-place and explicit edits) on one object, each "
            "answer compared with the reference model; parse roots counted through a recording "
            "initialize hook; a state is a distinct (accessor history prefix of length 3, sections "
            "parsed so far) pair")
    anchor_files = CORE
    quick = 7000
    thorough = 70000
    needs = {"oracle:view": 20000, "lazy-parse": 3000, "cached": 2000, "forced": 300}
    assumptions = C01.assumptions + [
        "the set() and force re-parse operations are not combined in one history",
        "sections added by the user that are not in the file are only read with []"]

    OPSV = ["getitem", "get", "get1", "options", "items1", "items", "keys", "iter", "len", "sections",
            "sections_parse", "force", "has_section", "has_section_np", "has_option", "parse_section",
            "parse_all", "set", "mutate", "add_section", "get_missing", "contains_missing",
            "option_missing", "unroll", "held"]

    def prepare(self):
        cpe_class()

    def gen(self, rng, i):
        c = ini.gen_config(rng, big=(i % 150 == 0), p_default=0.25, p_missing=0.01,
                           ops=["foo"] if rng.random() < 0.4 else ())
        c["ecl"] = rng.choice([4, 4, 4, 0, 2, 5])
        c["how"] = rng.randrange(12)
        c["debug"] = rng.choice([0, 0, 0, 0, 1, 4])
        ops = list(self.OPSV)
        if rng.random() < 0.5:
            ops = [o for o in ops if o not in ("set", "mutate", "add_section")]
        else:
            ops = [o for o in ops if o not in ("force", "parse_section", "parse_all", "sections_parse")] \
                + ["set", "mutate"]
        if rng.random() < 0.3:
            ops = rng.sample(ops, 5)
        c["hist"] = [[rng.choice(ops), rng.randrange(1000), rng.randrange(1000), rng.randrange(10**6)]
                     for _ in range(rng.randrange(3, 26))]
        return c

    def valid(self, c):
        return ini.valid_config(c)

    def run(self, c, mon):
        model = ini.model_of(c)
        log = []
        cls = make_handlers([["initialize", 0, True, 0], ["finalize", 0, True, 0], ["foo", 0, True, 0]],
                            log.append)
        obj = mon.expect_ok("construct", build, c, mon, cls)
        secs = model.sections()
        if not secs:
            return
        V = lambda: obj.configparserenhanceddata
        pred = {s: predict(model, s, handled={"use", "foo"}, ecl=c["ecl"]) for s in secs}
        edits = {s: {} for s in secs}
        wiped = set()
        parsed = {}
        held = {}
        hist = []

        def want(s):
            d = {} if s in wiped else dict(pred[s][1])
            d.update(edits[s])
            return d

        def failing():
            return [s for s in secs if pred[s][0] == "exc"]

        def roots():
            return [g["section"] for g in log if g["attr"] == "handler_initialize"]

        for op, a, b, u in c["hist"]:
            s = secs[a % len(secs)]
            bad = pred[s][0] == "exc"
            del log[:]
            was = s in parsed
            expect_parse = None
            forced = False
            if op in ("getitem", "get", "options", "items1", "has_section", "held"):
                f = {"getitem": lambda: plain(V()[s]), "get": lambda: plain(V().get(s)),
                     "options": lambda: plain(V().options(s)), "items1": lambda: dict(V().items(s)),
                     "has_section": lambda: V().has_section(s), "held": lambda: V()[s]}[op]
                if bad:
                    mon.expect_exc(f"{op}({s!r})", pred[s][1].types, f)
                    parsed.pop(s, None)
                    continue
                r = mon.expect_ok(f"{op}({s!r})", f)
                if op == "has_section":
                    mon.eq(f"has_section({s!r})", r, True, "view")
                else:
                    mon.eq(f"{op}({s!r}) after {hist}", dict(r), want(s), "view")
                if op == "held":
                    held[s] = r
                expect_parse = [] if was else [s]
            elif op == "get1":
                if bad:
                    mon.expect_exc(f"get({s!r}, key)", pred[s][1].types, lambda: V().get(s, "key1"))
                    continue
                w = want(s)
                keys = sorted(w) or ["key1"]
                k = keys[b % len(keys)]
                if k in w:
                    mon.eq(f"get({s!r}, {k!r})", mon.expect_ok(f"get({s!r}, {k!r})", lambda: V().get(s, k)),
                           w[k], "view")
                else:
                    mon.expect_exc(f"get({s!r}, {k!r})", KeyError, lambda: V().get(s, k))
                expect_parse = [] if was else [s]
            elif op == "option_missing":
                if bad:
                    continue
                k = "no such option %d" % u
                mon.eq("has_option(missing)", mon.expect_ok("has_option", lambda: V().has_option(s, k)),
                       False, "view")
                mon.expect_exc("get(missing option)", KeyError, lambda: V().get(s, k))
                mon.expect_exc("[][missing option]", KeyError, lambda: V()[s][k])
                expect_parse = [] if was else [s]
            elif op == "items":
                if failing():
                    continue
                r = mon.expect_ok("items()", lambda: {k: dict(v) for k, v in V().items()})
                mon.eq("items()", {k: r.get(k) for k in secs}, {k: want(k) for k in secs}, "view")
                mon.true("view", set(r) == set(secs), f"items() sections {sorted(r)} vs {sorted(secs)}")
                expect_parse = [x for x in secs if x not in parsed]
            elif op in ("keys", "iter", "len", "sections"):
                f = {"keys": lambda: list(V().keys()), "iter": lambda: list(V()),
                     "len": lambda: len(V()), "sections": lambda: list(V().sections())}[op]
                r = mon.expect_ok(op, f)
                mon.eq(op, r, len(secs) if op == "len" else secs, "view")
                expect_parse = []
            elif op == "sections_parse" or op == "parse_all" or op == "force":
                if failing():
                    continue
                if op == "parse_all":
                    mon.expect_ok(op, obj.parse_all_sections)
                else:
                    arg = True if op == "sections_parse" else ["force", "FORCE", "Force"][b % 3]
                    r = mon.expect_ok(op, lambda: list(V().sections(arg) if u % 2 else
                                                       V().sections(parse=arg)))
                    mon.eq(op, r, secs, "view")
                expect_parse = list(secs) if op == "force" else [x for x in secs if x not in parsed]
                forced = op == "force"
            elif op == "has_section_np":
                r = mon.expect_ok(op, lambda: V().has_section_no_parse(s))
                if was:
                    mon.eq(f"has_section_no_parse({s!r})", r, True, "view")
                expect_parse = []
            elif op == "has_option":
                if bad:
                    mon.expect_exc(f"has_option({s!r})", pred[s][1].types,
                                   lambda: V().has_option(s, "key1"))
                    continue
                w = want(s)
                keys = sorted(w) + ["key1", "nope", "use A"]
                k = keys[b % len(keys)]
                mon.eq(f"has_option({s!r}, {k!r})", mon.expect_ok("has_option", lambda: V().has_option(s, k)),
                       k in w, "view")
                expect_parse = [] if was else [s]
            elif op == "parse_section":
                if bad:
                    mon.expect_exc(f"parse_section({s!r})", pred[s][1].types, obj.parse_section, s)
                    parsed.pop(s, None)
                    continue
                mon.expect_ok(f"parse_section({s!r})", obj.parse_section, s)
                expect_parse = [s]
                forced = True
            elif op == "set":
                if bad:
                    continue
                keys = sorted(pred[s][1]) + ["new key", "key1"]
                k = keys[b % len(keys)]
                v = f"edit{u}"
                mon.eq("set()", mon.expect_ok("set", lambda: V().set(s, k, v)), v, "view")
                edits[s][k] = v
                expect_parse = [] if was else [s]
            elif op == "mutate":
                if bad:
                    continue
                v = f"mut{u}"

                def f():
                    V()[s]["key m"] = v
                mon.expect_ok("in-place edit", f)
                edits[s]["key m"] = v
                expect_parse = [] if was else [s]
            elif op == "add_section":
                if bad:
                    continue
                force = bool(b % 3 == 0)
                if not was and not force:
                    mon.expect_ok("add_section", lambda: V().add_section(s))
                elif was:
                    r = mon.expect_ok("add_section", lambda: V().add_section(s, force=force))
                    if force:
                        edits[s] = {}
                        wiped.add(s)
                        held.pop(s, None)
                    mon.eq("add_section", dict(r), want(s), "view")
                expect_parse = []
            elif op == "get_missing":
                x = "missing section %d" % (u % 3)
                t = predict(model, x, handled={"use", "foo"}, ecl=c["ecl"])[1].types + (KeyError, )
                for f in (lambda: V()[x], lambda: V().get(x), lambda: V().options(x),
                          lambda: V().items(x), lambda: obj.parse_section(x)):
                    mon.expect_exc(f"access of {x!r}", t, f)
                mon.expect_exc(f"has_option of {x!r}", t, lambda: V().has_option(x, "key1"))
                expect_parse = None
            elif op == "contains_missing":
                x = "missing section %d" % (u % 3)
                if predict(model, x, handled={"use", "foo"}, ecl=c["ecl"])[1].types != (KeyError, ):
                    continue
                mon.eq("has_section(missing)", mon.expect_ok("has_section", lambda: V().has_section(x)),
                       False, "view")
                mon.eq("has_section_no_parse(missing)",
                       mon.expect_ok("has_section_no_parse", lambda: V().has_section_no_parse(x)), False, "view")
                expect_parse = []
            elif op == "unroll":
                if any(p[0] == "exc" for p in (predict(model, x, ecl=0) for x in secs)):
                    continue
                mon.expect_ok("unroll_to_str", obj.unroll_to_str)
                expect_parse = []
            if expect_parse is not None:
                mon.eq(f"sections parsed by {op}({s!r}) after {hist}", roots(), expect_parse, "parse-once")
                for x in expect_parse:
                    parsed[x] = True
                mon.ev("lazy-parse", len(expect_parse))
                if forced:
                    mon.ev("forced")
                elif was and not expect_parse:
                    mon.ev("cached")
            hist.append(op)
            mon.state(tuple(hist[-3:]), tuple(sorted(secs.index(x) for x in parsed)), len(secs))
        for s, d in held.items():
            mon.eq(f"dict of {s!r} handed out earlier", dict(d), want(s), "view-aliasing")


class C06(Check):
    id = "C06"
    rule = ("random histories of reconfigurations (new file list, rewritten file re-assigned, new "
            "delimiters, new default section, rejected assignments) interleaved with reads on one object, and on earlier objects "
            "that keep what they had loaded; every read is compared with the "
            "reference model of the configuration in force; a state is a distinct (history of "
            "reconfiguration kinds, data read) in which something had been read before a change")
    anchor_files = CORE + ["wip/setenvironment/src/setenvironment/SetEnvironment.py"]
    quick = 10000
    thorough = 100000
    needs = {"reconfigured-after-read": 2000, "oracle:section-data": 5000, "rejected-assignment": 1000, "other-object": 200}
    assumptions = C01.assumptions

    def prepare(self):
        cpe_class()
        import setenvironment  # noqa

    def gen(self, rng, i):
        delim_sets = [["=", ":"], ["="], [":"]]
        cfgs = []
        common = rng.sample(["A", "B", "SEC A", "C"], 3)
        for _ in range(rng.choice([2, 2, 3, 4])):
            secs = ini.gen_sections(rng, rng.choice([1, 2, 3, 4]), ("=", ":"), ops=["envvar-set", "foo"],
                                    names=common + ["Z", "Y"])
            for s in secs:
                for o in s[1]:
                    if o[0].startswith("envvar-set") and len(o[0].split()) < 2:
                        o[0] += " X%d" % rng.randrange(3)
                    if o[0].startswith("envvar-set") and o[2] is None:
                        o[2] = "v"
                    if "\n" in (o[2] or ""):
                        o[2] = "one"
                s[1] = list({o[0].strip(): o for o in s[1]}.values())
            cfgs.append(secs)
        hist = []
        for _ in range(rng.randrange(4, 16)):
            r = rng.random()
            if r < 0.22:
                n = rng.choice([1, 1, 1, 2])
                hist.append(["file", [rng.randrange(len(cfgs)) for _ in range(n)], rng.randrange(3)])
            elif r < 0.32:
                hist.append(["delims", rng.randrange(3), 0])
            elif r < 0.4:
                hist.append(["rewrite", rng.randrange(len(cfgs)), rng.randrange(len(cfgs))])
            elif r < 0.44:
                hist.append(["badassign", rng.randrange(7), rng.randrange(len(cfgs))])
            elif r < 0.48:
                hist.append(["default", rng.randrange(5), 0])
            elif r < 0.5:
                hist.append(["parseall", 0, 0])
            elif r < 0.56:
                hist.append(["newobj", rng.randrange(2), 0])
            elif r < 0.65:
                hist.append(["readold", rng.randrange(1000), rng.randrange(8)])
            else:
                hist.append(["read", rng.randrange(1000), rng.randrange(8)])
        return dict(cfgs=cfgs, hist=hist, delim_sets=delim_sets, env=rng.random() < 0.35,
                    ecl=rng.choice([4, 4, 0, 1]))

    def valid(self, c):
        for f in c["cfgs"]:
            for d in c["delim_sets"]:
                if not ini.valid_config(dict(files=[f], delims=d)):
                    return True
        return True

    def run(self, c, mon):
        d = mon.dir()
        paths = ini.write_files(d, c["cfgs"])
        content = {i: ini.render_file(f) for i, f in enumerate(c["cfgs"])}
        if c["env"]:
            from setenvironment import SetEnvironment
            cls = SetEnvironment
            from .setenv import KNOWN_OPS
            handled = set(KNOWN_OPS) | {"use"}
        else:
            cls, handled = cpe_class(), {"use"}
        cur = [0]
        delims, default = c["delim_sets"][0], "DEFAULT"
        obj = mon.expect_ok("construct", cls, paths[0])
        obj.exception_control_level = c["ecl"]
        cur_obj = [obj]
        read_since = False
        kinds, old = [], []

        def model():
            return ini.Model([content[i] for i in cur], delims, default)

        def read(s, acc, obj=None, m=None):
            obj = obj or cur_obj[0]
            try:
                m = m or model()
                m.check_domain()
            except configparser.Error as e:
                r = mon.call(access, obj, s, acc)
                mon.true("load-error", r[0] == "exc" and isinstance(r[1], configparser.Error),
                         f"{r} expected {e!r}")
                return
            except ini.BadCase:
                return
            p = predict(m, s, handled=handled, ecl=c["ecl"])
            if p[0] == "ok" and any(e["kind"] == "op" and e["op"] != "foo" and not e["params"] for e in p[2]):
                return
            compare_access(mon, f"section {s!r} after {kinds}", p, mon.call(access, obj, s, acc))
            if p[0] == "ok":
                mon.state(tuple(kinds[-4:]), sorted(p[1].items(), key=repr))
                if c["env"]:
                    want = [dict(op=e["op"], envvar=e["params"][0], value=e["value"])
                            for e in p[2] if e["kind"] == "op"]
                    got = mon.expect_ok("actions", lambda: obj.actions[s])
                    mon.eq(f"actions of {s!r} after {kinds}", [dict(x) for x in got], want, "actions")
            else:
                if c["env"]:
                    got = mon.expect_ok("actions", lambda: obj.actions.get(s))
                    mon.eq(f"stale actions of {s!r} after {kinds}", got, None, "stale-actions")

        changed = False
        for op, a, b in c["hist"]:
            if op == "file":
                cur = [x % len(paths) for x in a] or [0]
                cur = list(dict.fromkeys(cur))
                arg = [paths[i] for i in cur]
                if len(arg) == 1 and b < 2:
                    from pathlib import Path
                    arg = arg[0] if b == 0 else Path(arg[0])
                mon.expect_ok("assign inifilepath", setattr, obj, "inifilepath", arg)
                kinds.append("file")
                changed = True
            elif op == "delims":
                delims = c["delim_sets"][a % len(c["delim_sets"])]
                mon.expect_ok("assign delimiters", setattr, obj, "configparser_delimiters",
                              tuple(delims) if b == 0 else list(delims))
                kinds.append("delims%d" % len(delims))
                changed = True
            elif op == "rewrite":
                a %= len(paths)
                content[a] = content[b % len(paths)] if a != b % len(paths) else "[A]\nrewritten : 1\n"
                with open(paths[a], "w", encoding="utf-8") as f:
                    f.write(content[a])
                mon.expect_ok("re-assign inifilepath", setattr, obj, "inifilepath",
                              [paths[i] for i in cur])
                kinds.append("rewrite")
                changed = True
            elif op == "badassign":
                # a rejected assignment has the documented type error and changes nothing
                other = paths[b % len(paths)]
                name, val = [("inifilepath", 5), ("inifilepath", [other, None]), ("inifilepath", [5, other]),
                             ("inifilepath", [[other]]), ("configparser_delimiters", 5),
                             ("default_section_name", 5), ("inifilepath", (other, ))][a % 7]
                before = (list(obj.inifilepath), tuple(obj.configparser_delimiters), obj.default_section_name,
                          repr(obj.parse_section_last_result))
                mon.expect_exc(f"assign {val!r} to {name}", TypeError, setattr, obj, name, val)
                mon.eq(f"settings after a rejected assignment to {name}",
                       (list(obj.inifilepath), tuple(obj.configparser_delimiters), obj.default_section_name,
                        repr(obj.parse_section_last_result)), before, "rejected-assignment")
                mon.ev("rejected-assignment")
                continue
            elif op == "default":
                default = ["DEFAULT", "A", "B", "SEC A", "Z"][a % 5]
                mon.expect_ok("assign default_section_name", setattr, obj, "default_section_name", default)
                kinds.append("default")
                changed = True
            elif op == "parseall":
                if not changed:
                    mon.call(obj.parse_all_sections)
                    read_since = True
            elif op == "newobj":
                # another object: the one before keeps the configuration it has loaded
                if not changed and read_since:
                    try:
                        old.append((obj, model()))
                    except configparser.Error:
                        pass
                obj = mon.expect_ok("construct", cls, [paths[i] for i in cur]) if a else mon.expect_ok("construct", cls)
                obj.exception_control_level = c["ecl"]
                mon.expect_ok("assign delimiters", setattr, obj, "configparser_delimiters", delims)
                mon.expect_ok("assign default_section_name", setattr, obj, "default_section_name", default)
                mon.expect_ok("assign inifilepath", setattr, obj, "inifilepath", [paths[i] for i in cur])
                cur_obj[0] = obj
                kinds.append("newobj")
                changed, read_since = True, False
            elif op == "readold":
                if old:
                    o, m = old[a % len(old)]
                    s2 = m.sections() + ["A", "B"]
                    read(s2[a % len(s2)], b, o, m)
                    mon.ev("other-object")
            else:
                try:
                    secs = model().sections() + ["A", "B", "SEC A"]
                except configparser.Error:
                    secs = ["A", "B", "SEC A"]
                if changed:
                    got = mon.call(lambda: list(obj.configparserenhanceddata.sections()))
                    if got[0] == "ok":
                        mon.eq(f"section list after {kinds}", got[1], secs[:-3], "section-list")
                    if c["env"]:
                        mon.eq(f"actions after {kinds}", dict(obj.actions), {}, "stale-actions")
                    # nothing of an earlier configuration survives
                    mon.eq("last parse result after " + str(kinds), obj.parse_section_last_result, None,
                           "stale-last-result")
                    if read_since:
                        mon.ev("reconfigured-after-read")
                    changed = False
                read(secs[a % len(secs)], b)
                read_since = True
        # final sweep over every section of the configuration in force
        if changed:
            try:
                for s in model().sections():
                    read(s, 0)
            except configparser.Error:
                pass


class C07(Check):
    id = "C07"
    level = "fault_enumeration"
    rule = ("every kind of load fault (missing file, directory, duplicate option, duplicate section, "
            "missing header, malformed line, undecodable bytes, open refused, read error, "
            "dangling link) at every position of a 1-4 file list, observed through random accessors two "
            "to four times, then repaired on disk and read again; a state is a distinct (fault "
            "kind, position, number of files, accessor sequence)")
    anchor_files = CORE
    quick = 12000
    thorough = 100000
    needs = {"fault-raised": 5000, "repaired": 2000}
    assumptions = C01.assumptions

    FAULTS = ["missing", "directory", "dupopt", "dupsec", "nohdr", "utf8", "continuation", "emptylist",
              "denied", "eio", "dangling"]
    DENIED = set()

    def prepare(self):
        cpe_class()
        sys.addaudithook(self.audit)

    def audit(self, event, args):
        # fault injection: opening a file of the set fails, whoever opens it and however
        if event == "open" and self.DENIED and isinstance(args[0], (str, os.PathLike)):
            if os.path.abspath(os.fspath(args[0])) in self.DENIED:
                raise PermissionError(13, "Permission denied", os.fspath(args[0]))

    def gen(self, rng, i):
        n = rng.choice([1, 1, 2, 3, 4])
        files = []
        for _ in range(n):
            files.append(ini.gen_sections(rng, rng.choice([1, 2, 3]), names=["A", "B", "C", "D", "E"],
                                          shape="none"))
        fault = rng.choice(self.FAULTS)
        c = dict(files=files, fault=fault, pos=rng.randrange(n), where=rng.randrange(3),
                    acc=[rng.randrange(12) for _ in range(rng.randrange(2, 6))],
                    after=[rng.randrange(12) for _ in range(3)], repair=rng.random() < 0.8,
                    ecl=rng.choice([0, 1, 4, 4, 5]), good_first=rng.random() < 0.2, how=rng.randrange(12))
        return c if self.valid(c) else self.gen(rng, i)

    ACC = ["raw", "sections", "section", "get", "len", "items", "parse", "parse_all", "unroll", "iter",
           "has_section", "assert"]

    def do(self, obj, acc, sec):
        v = lambda: obj.configparserenhanceddata
        a = self.ACC[acc % len(self.ACC)]
        if a == "raw":
            return {s: dict(obj.configparserdata[s]) for s in obj.configparserdata.sections()}
        if a == "sections":
            return list(v().sections())
        if a == "section":
            return plain(v()[sec])
        if a == "get":
            return plain(v().get(sec))
        if a == "len":
            return len(v())
        if a == "items":
            return {k: dict(x) for k, x in v().items()}
        if a == "parse":
            obj.parse_section(sec)
            return None
        if a == "parse_all":
            obj.parse_all_sections()
            return None
        if a == "unroll":
            return obj.unroll_to_str()
        if a == "iter":
            return list(v())
        if a == "has_section":
            return v().has_section(sec)
        obj.assert_file_all_sections_handled()
        return None

    def valid(self, c):
        return bool(c["files"]) and all(f and ini.valid_config(dict(files=[f])) for f in c["files"])

    def run(self, c, mon):
        d = mon.dir()
        paths = ini.write_files(d, c["files"])
        pos = c["pos"] % len(paths)
        good = [ini.render_file(f) for f in c["files"]]
        fault = c["fault"]
        cls = cpe_class()
        bad = good[pos]
        if fault == "dupopt":
            bad = good[pos] + "\n[ZZ]\nk : 1\nk : 2\n"
            if c["where"] == 0:
                bad = "[ZZ]\nk : 1\nk : 2\n" + good[pos]
            types = configparser.DuplicateOptionError
        elif fault == "dupsec":
            bad = good[pos] + "\n[ZZ]\nk : 1\n[ZZ]\nj : 2\n"
            types = configparser.DuplicateSectionError
        elif fault == "nohdr":
            bad = "k : 1\n" + good[pos]
            types = configparser.MissingSectionHeaderError
        elif fault == "continuation":
            bad = "[ZZ]\n= novalue\n" + good[pos]
            types = configparser.ParsingError
        elif fault == "utf8":
            types = UnicodeDecodeError
        elif fault in ("missing", "directory", "denied", "eio", "dangling"):
            types = IOError
        elif fault == "emptylist":
            types = ValueError
        obj = cls()
        obj.exception_control_level = c["ecl"]
        sec = c["files"][0][0][0] if c["files"] and c["files"][0] else "A"
        if fault != "emptylist":
            if fault == "missing":
                os.unlink(paths[pos])
            elif fault == "directory":
                os.unlink(paths[pos])
                os.mkdir(paths[pos])
            elif fault == "dangling":
                os.unlink(paths[pos])
                os.symlink(paths[pos] + ".gone", paths[pos])
            elif fault == "denied":
                self.DENIED.add(os.path.abspath(paths[pos]))
            elif fault == "eio":
                # a regular file that opens and whose first read fails with EIO
                os.unlink(paths[pos])
                os.symlink("/proc/self/mem", paths[pos])
            elif fault == "utf8":
                with open(paths[pos], "wb") as f:
                    f.write(good[pos].encode() + b"\n[ZZ]\nk : \xff\xfe\xfa\n")
            else:
                with open(paths[pos], "w", encoding="utf-8") as f:
                    f.write(bad)
            obj.inifilepath = list(paths)
        else:
            obj.inifilepath = []
        if c["good_first"]:
            # an unconfigured parser fails too, and cleanly
            blank = cls()
            for a in c["acc"][:2]:
                mon.expect_exc("unconfigured parser", ValueError, self.do, blank, a, sec)
        try:
            self.faulty(c, mon, obj, sec, types, pos, paths)
        finally:
            self.DENIED.clear()
        if not c["repair"]:
            return
        if fault == "emptylist":
            obj.inifilepath = list(paths)
        else:
            if os.path.islink(paths[pos]):
                os.unlink(paths[pos])
            if os.path.isdir(paths[pos]):
                os.rmdir(paths[pos])
            with open(paths[pos], "w", encoding="utf-8") as f:
                f.write(good[pos])
        model = ini.Model(good)
        model.check_domain()
        mon.ev("repaired")
        for s in model.sections():
            compare_access(mon, f"section {s!r} after repair", predict(model, s, ecl=c["ecl"]),
                           mon.call(access, obj, s, c["after"][0] if c["after"] else 0))
        mon.eq("section list after repair", list(obj.configparserenhanceddata.sections()), model.sections())

    def faulty(self, c, mon, obj, sec, types, pos, paths):
        fault = c["fault"]
        for n, a in enumerate(c["acc"]):
            tag, e = mon.call(self.do, obj, a, sec)
            mon.ev("oracle:fault-visible")
            if tag == "ok":
                mon.fail("silent-load-failure",
                         f"access #{n} ({self.ACC[a % 12]}) with fault {fault} in file {pos} of "
                         f"{len(paths)} returned {e!r}")
            if not isinstance(e, types):
                mon.fail("wrong-exception", f"fault {fault}: {describe(e)} expected {types}")
            mon.ev("fault-raised")
        mon.state(fault, pos, len(paths), tuple(self.ACC[a % 12] for a in c["acc"]))

    def directed(self):
        out = []
        files = [[["A", [["k", ":", "v"]]]], [["B", [["k", ":", "v"]]]], [["A", [["k2", ":", "v"]]]]]
        for fault in self.FAULTS:
            for n in (1, 2, 3):
                for pos in range(n):
                    for a in range(12):
                        out.append(dict(files=files[:n], fault=fault, pos=pos, where=a % 3, acc=[a, a, 0],
                                        after=[a], repair=True, ecl=4, good_first=False, how=0))
        return out


class C08(Check):
    id = "C08"
    level = "fault_enumeration"
    rule = ("a failure (dangling link, handler that raises or returns a fatal code or is interrupted, "
            "cycle at the raising level, ambiguous handler, an interrupt at any line of the library, "
            "an output error in any message) injected at a random point of a parse, "
            "observed through repeated random accessors; then the cause is removed and the section "
            "must read as if it had never failed; a state is a distinct (failure kind, number of "
            "options processed before it, accessor sequence)")
    anchor_files = CORE
    quick = 7000
    thorough = 70000
    needs = {"failed-parse": 5000, "recovered": 2000, "failed-at-a-line": 200, "failed-at-a-message": 200}
    assumptions = C01.assumptions

    KINDS = ["raise", "interrupt", "exit", "rval", "rval_warn", "dangling", "cycle", "ambiguous",
             "init_raise", "fin_raise", "signal", "output"]

    def prepare(self):
        cpe_class()

    def gen(self, rng, i):
        kind = rng.choice(self.KINDS)
        c = ini.gen_config(rng, ops=["foo", "bar-x"], p_missing=0.35 if kind == "dangling" else 0.0,
                           shape="random" if kind == "cycle" else None, p_default=0.2,
                           allow_delims=False, max_sections=6)
        c["kind"] = kind
        c["nth"] = rng.randrange(4)
        c["at"] = rng.random()
        c["acc"] = [rng.randrange(9) for _ in range(rng.randrange(2, 6))]
        c["how"] = rng.randrange(12)
        c["pre"] = rng.random() < 0.4
        c["vis"] = [rng.randrange(2), rng.randrange(2)]
        c["env"] = False
        bad, good = {"cycle": ([5], [0, 1, 2, 3, 4]), "rval_warn": ([5], [0, 1, 2, 3, 4]),
                     "ambiguous": ([3, 4], [0, 1, 2])}.get(kind, ([0, 1, 2, 3, 4, 4], None))
        c["bad_ecl"] = rng.choice(bad)
        c["good_ecl"] = rng.choice(good) if good else c["bad_ecl"]
        return c

    def valid(self, c):
        return ini.valid_config(c)

    def run(self, c, mon):
        model = ini.model_of(c)
        secs = model.sections()
        if not secs:
            return
        kind = c["kind"]
        if kind in ("signal", "output"):
            return self.run_async(c, mon, model, secs)
        armed = [False]
        count = [0]

        class Boom(Exception):
            pass

        Boom = [Boom, NotImplementedError, AttributeError, ValueError, TypeError, IndexError, StopIteration, AssertionError,
                OSError, RuntimeError, RecursionError, UnicodeError, EOFError, Boom][c["nth"] + 4 * (c["how"] % 3)]
        exc = {"raise": Boom, "interrupt": KeyboardInterrupt, "exit": SystemExit, "init_raise": Boom,
               "fin_raise": Boom}.get(kind)

        def on_call(attr, op, obj, section, hp):
            if not armed[0]:
                return None
            if kind == "init_raise" and op == "initialize" or kind == "fin_raise" and op == "finalize":
                raise exc("injected")
            if op in ("initialize", "finalize"):
                return None
            if kind in ("raise", "interrupt", "exit", "rval", "rval_warn"):
                if count[0] == c["nth"]:
                    if kind == "rval":
                        return (11 + c["nth"] * 30, )
                    if kind == "rval_warn":
                        return (1 + c["nth"] * 3, )
                    raise exc("injected")
                count[0] += 1
            return None

        def predictor(on):
            n = [0]

            def f(op, e):
                if kind == "init_raise" and op == "initialize" or kind == "fin_raise" and op == "finalize":
                    raise Raised(exc, "injected")
                if op in ("initialize", "finalize"):
                    return
                if kind == "ambiguous" and op == "foo":
                    raise Raised(mods().AmbiguousHandlerError, "ambiguous")
                if kind in ("raise", "interrupt", "exit", "rval", "rval_warn"):
                    if n[0] == c["nth"]:
                        raise Raised(RuntimeError if kind.startswith("rval") else exc, "injected")
                    n[0] += 1
            return f if on else None

        spec = [["foo", 2 if kind == "ambiguous" else c["vis"][0], True, 0],
                ["bar-x", c["vis"][1], True, 0], ["initialize", 0, True, 0], ["finalize", 0, True, 0]]
        log = []
        cls = make_handlers(spec, log.append, on_call=on_call)
        obj = mon.expect_ok("construct", build, c, mon, cls)
        bad_ecl, good_ecl = c["bad_ecl"], c["good_ecl"]
        opset = {"foo", "bar_x", "use"}
        obj.exception_control_level = bad_ecl
        others = {}
        if c["pre"]:
            for s in secs:
                p = predict(model, s, handled=opset, ecl=good_ecl)
                obj.exception_control_level = good_ecl
                others[s] = p
                compare_access(mon, f"{s!r} before the failure", p, mon.call(access, obj, s, 0))
            obj.exception_control_level = bad_ecl
        armed[0] = True
        failed = []
        for s in secs:
            p = predict(model, s, handled=opset, ecl=bad_ecl, on_op=predictor(True))
            if p[0] == "ok":
                count[0] = 0
                if not c["pre"]:
                    compare_access(mon, f"{s!r}, unaffected by {kind}", p, mon.call(access, obj, s, 0))
                continue
            if c["pre"] and others[s][0] == "ok":
                # force the failing re-parse of a section that was fine before
                count[0] = 0
                r = mon.call(obj.parse_section, s)
                mon.true("failure-visible", r[0] != "ok" and isinstance(r[1], p[1].types),
                         f"re-parse of {s!r}: {r} expected {p[1].types}")
            for n, a in enumerate(c["acc"]):
                count[0] = 0
                if a == 8:
                    r = mon.call(lambda: obj.configparserenhanceddata.has_option(s, "no such option"))
                else:
                    r = mon.call(access, obj, s, a)
                mon.ev("oracle:failure-visible")
                if r[0] == "ok":
                    mon.fail("partial-data-served",
                             f"access #{n} to {s!r} after a failed parse ({kind}: {p[1].why}) returned "
                             f"{r[1]!r}")
                if not isinstance(r[1], p[1].types):
                    mon.fail("wrong-exception", f"{s!r}: {describe(r[1])} expected {p[1].types}")
                mon.ev("failed-parse")
            failed.append(s)
            mon.state(kind, len(p[1].trace), tuple(c["acc"]))
        armed[0] = False
        obj.exception_control_level = good_ecl
        if kind == "dangling" and failed:
            # repair: define every missing section and load the files again
            known = set(secs)
            missing = []
            for f in c["files"]:
                for _, opts in f:
                    for k, _, _ in opts:
                        try:
                            tok = shlex.split(k)
                        except ValueError:
                            tok = []
                        if len(tok) > 1 and tok[0] == "use" and tok[1] not in known:
                            known.add(tok[1])
                            missing.append(tok[1])
            c2 = dict(c, files=c["files"] + [[[m, [["defined later", "=", m]]] for m in missing]])
            if not ini.valid_config(c2):
                return
            obj.inifilepath = ini.write_files(mon.dir(), c2["files"])
            model = ini.model_of(c2)
            secs = model.sections()
        for s in secs:
            p = predict(model, s, handled=opset, ecl=good_ecl)
            compare_access(mon, f"{s!r} after the cause ({kind}) was removed", p,
                           mon.call(access, obj, s, c["acc"][0] % 8 if c["acc"] else 0))
            if s in failed:
                mon.ev("recovered")

    def run_async(self, c, mon, model, secs):
        """The failure comes at an arbitrary line of the library (as an interrupt would) or from an
        arbitrary message it prints (as a closed pipe would)."""
        kind, ecl = c["kind"], c["good_ecl"]
        spec = [["foo", c["vis"][0], True, 0], ["bar-x", c["vis"][1], True, 0]]
        opset = {"foo", "bar_x", "use"}
        target = secs[c["nth"] % len(secs)]
        if predict(model, target, handled=opset, ecl=ecl)[0] != "ok":
            return
        paths = ini.write_files(mon.dir(), c["files"])
        src = os.path.dirname(sys.modules[cpe_class().__module__].__file__)

        def make():
            obj = mon.expect_ok("construct", build, c, mon, make_handlers(spec, lambda e: None), paths=paths)
            obj.exception_control_level = ecl
            if kind == "output":
                obj.debug_level = 1 + c["nth"]
            if c["pre"]:
                mon.call(lambda: len(obj.configparserenhanceddata))
            return obj

        def go(obj):
            a = c["acc"][0]
            if a == 8:
                return obj.configparserenhanceddata.has_option(target, "no such option")
            if a == 7:
                return obj.parse_all_sections()
            return access(obj, target, a)

        class Out(io.StringIO):
            def write(self, text):
                tick()
                return super().write(text)

        exc = KeyboardInterrupt if kind == "signal" else BrokenPipeError
        n = [0]
        limit = [0]

        def tick():
            n[0] += 1
            if n[0] == limit[0]:
                raise exc("injected")

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(src):
                return None
            if event == "line":
                tick()
            return tracer

        def observed(obj):
            n[0] = 0
            old = sys.gettrace()
            try:
                if kind == "signal":
                    sys.settrace(tracer)
                    return go(obj)
                with contextlib.redirect_stdout(Out()):
                    return go(obj)
            finally:
                sys.settrace(old)

        r = mon.call(observed, make())
        if r[0] != "ok" or n[0] < 2:
            return
        limit[0] = 1 + int(c["at"] * n[0])
        obj = make()
        r = mon.call(observed, obj)
        limit[0] = 0
        mon.true("failure-visible", r[0] == "exc" and isinstance(r[1], exc),
                 f"{kind} at point {limit[0]} of {n[0]} of access {c['acc'][0]} to {target!r}: {r}")
        mon.ev("failed-parse")
        mon.ev("failed-at-a-line" if kind == "signal" else "failed-at-a-message")
        mon.eq("exception level after the failure", obj.exception_control_level, ecl)
        obj.debug_level = 0
        for j, s in enumerate([target] + secs):
            p = predict(model, s, handled=opset, ecl=ecl)
            compare_access(mon, f"{s!r} after a failure ({kind}) while {target!r} was parsed", p,
                           mon.call(access, obj, s, c["acc"][-1] % 8 if j else c["acc"][1] % 8))
        mon.eq("sections after the failure", list(obj.configparserenhanceddata.sections()), secs)
        mon.ev("recovered")
        mon.state(kind, c["acc"][0], int(c["at"] * 1000))


class C09(Check):
    id = "C09"
    rule = ("random configurations unrolled and written (whole file or one section, both spacings, "
            "both parser choices, custom delimiters, after a random amount of prior lazy parsing); the "
            "text is read back with the standard parser and compared with the reference expansion, "
            "and the object's observable state is compared before/after; a state is a distinct "
            "(unrolled content, options) with at least one use link, multi-line, percent or empty value")
    anchor_files = CORE
    quick = 5000
    thorough = 50000
    needs = {"oracle:unroll": 2000, "multiline": 200, "percent": 100, "written": 800, "failed-unroll": 100}
    assumptions = C01.assumptions + [
        "an option without value and an option with an empty value are written alike (documented format)",
        "surrounding whitespace and double quotes of a value are insignificant"]

    def prepare(self):
        cpe_class()

    def gen(self, rng, i):
        c = ini.gen_config(rng, big=(i % 80 == 0), ops=["foo"], p_missing=0.08 if rng.random() < .3 else 0)
        c["handlers"] = [["foo", rng.randrange(2), True, 0]] if rng.random() < 0.6 else []
        c["base"] = rng.random() < 0.6
        c["space"] = rng.random() < 0.5
        c["sec"] = rng.choice([-1, -1, -1, rng.randrange(8)])
        c["prior"] = [rng.randrange(8) for _ in range(rng.randrange(0, 3))]
        c["how"] = rng.randrange(12)
        c["ecl"] = rng.choice([0, 1, 2, 3, 4, 4, 5])
        c["debug"] = rng.choice([0, 0, 0, 2])
        c["silentw"] = rng.random() < 0.5
        return c

    def valid(self, c):
        return ini.valid_config(c)

    @staticmethod
    def norm(v):
        return (v or "").strip(' \t\n"')

    def run(self, c, mon):
        model = ini.model_of(c)
        secs = model.sections()
        if not secs:
            return
        cls = make_handlers(c["handlers"], lambda e: None)
        obj = mon.expect_ok("construct", build, c, mon, cls)
        own = {h[0].replace("-", "_") for h in c["handlers"]} | {"use"}
        for j in c["prior"]:
            mon.call(access, obj, secs[j % len(secs)], 0)
        handled = {"use"} if c["base"] else own
        target = None if c["sec"] < 0 else secs[c["sec"] % len(secs)]
        which = secs if target is None else [target]
        preds = {s: predict(model, s, handled=handled, ecl=0) for s in which}
        before = (obj.exception_control_level, obj.debug_level, list(obj.inifilepath),
                  obj.configparser_delimiters, obj.default_section_name,
                  obj.exception_control_silent_warnings)
        kw = dict(section=target, space_around_delimiters=c["space"], use_base_class_parser=c["base"])
        if c["base"] and c["how"] % 2:
            del kw["use_base_class_parser"]
        if target is None and c["how"] % 3 == 0:
            del kw["section"]
        bad = [p for p in preds.values() if p[0] == "exc"]
        tag, text = mon.call(obj.unroll_to_str, **kw)
        after = (obj.exception_control_level, obj.debug_level, list(obj.inifilepath),
                 obj.configparser_delimiters, obj.default_section_name,
                 obj.exception_control_silent_warnings)
        mon.eq("settings after unrolling", after, before, "state-unchanged")
        if bad:
            mon.true("unroll-error", tag == "exc" and isinstance(text, (KeyError, ) + bad[0][1].types),
                     f"unrolling a broken configuration gave {text!r}")
            mon.ev("failed-unroll")
        else:
            if tag != "ok":
                mon.fail("unexpected-exception", f"unroll_to_str: {describe(text)}")
            mon.true("no-output-when-unrolling", mon.out == "" or c["debug"] > 0,
                     f"unrolling printed {mon.out!r}")
            back = configparser.ConfigParser(
                allow_no_value=True, delimiters=tuple(c["delims"] or ("=", ":")), default_section=ini.COMMON)
            back.optionxform = str
            try:
                back.read_string(text)
                got = {s: {k: self.norm(v) for k, v in back[s].items()} for s in back.sections()}
            except configparser.Error as e:
                mon.fail("unroll-unreadable", f"the unrolled text cannot be read back: {e}\n{text}")
            want = {s: {k: self.norm(v) for k, v in preds[s][1].items()} for s in which}
            mon.eq("unrolled sections", list(got), list(want), "unroll-sections")
            for s in which:
                mon.eq(f"unrolled {s!r}", got[s], want[s], "unroll")
                if unambiguous(preds[s]):
                    mon.eq(f"order of the options of unrolled {s!r}", list(got[s]), list(want[s]), "unroll-order")
                vals = [v or "" for v in preds[s][1].values()]
                if any("\n" in v for v in vals):
                    mon.ev("multiline")
                if any("%" in v for v in vals):
                    mon.ev("percent")
            mon.eq("unrolled twice", mon.expect_ok("unroll again", obj.unroll_to_str, **kw), text, "unroll-stable")
            # write() produces the same text
            buf = io.StringIO()
            mon.expect_ok("write", obj.write, buf, **kw)
            mon.eq("write()", buf.getvalue(), text, "write")
            if c["how"] < 2:
                p = os.path.join(mon.dir(), "out.ini")
                with open(p, "w", encoding="utf-8") as f:
                    mon.expect_ok("write", obj.write, f, **kw)
                with open(p, encoding="utf-8", newline="") as f:
                    mon.eq("written file", f.read(), text, "write")
                # and the parser itself reads it back to the same data
                o2 = cls(p)
                if c["delims"]:
                    o2.configparser_delimiters = tuple(c["delims"])
                m2 = ini.Model([text], c["delims"])
                try:
                    m2.check_domain()
                    for s in which:
                        p2 = predict(m2, s, handled=own, ecl=4)
                        if not m2.cp.has_section("DEFAULT"):
                            compare_access(mon, f"re-read {s!r}", p2, mon.call(access, o2, s, 0))
                except ini.BadCase:
                    pass
            mon.ev("written")
            mon.state(text, c["base"], c["space"])
        mon.expect_exc("unknown section", KeyError, obj.unroll_to_str, section="no such section",
                       use_base_class_parser=c["base"])
        mon.eq("settings after a failed unroll", obj.exception_control_level, before[0], "state-unchanged")
        # the lazy data of the object itself is unaffected
        for s in secs[:4]:
            p = predict(model, s, handled=own, ecl=c["ecl"])
            if p[0] == "exc" and not c["base"]:
                continue   # already parsed with events silenced
            if p[0] == "ok" or c["base"]:
                compare_access(mon, f"data of {s!r} after unrolling", p, mon.call(access, obj, s, 0))


class C11(Check):
    id = "C11"
    rule = ("handlers returning random codes (0, reserved 1-10, fatal >10, negative, non-integers) "
            "and doubly defined handlers, at random positions of random configurations, at every "
            "exception control level; outcome, invocation log and event log are compared with the "
            "documented policy; a state is a distinct (return code class sequence, level, outcome) "
            "with at least one non-zero code or ambiguity")
    anchor_files = CORE
    quick = 14000
    thorough = 140000
    needs = {"warn": 1000, "fatal": 500, "badtype": 200, "ambiguous": 500, "ambiguous-public": 200}
    assumptions = C01.assumptions

    RAISES = {"SILENT": 5, "WARNING": 5, "MINOR": 4, "SERIOUS": 3, "CRITICAL": 2, "CATASTROPHIC": 0}
    RV = [0, 0, 0, 1, 2, 5, 9, 10, 11, 12, 100, 255, 256, 512, 1000, 65536, 2**40, -1, -11, -256, "str", None, 1.5, True, False]

    def prepare(self):
        cpe_class()

    def gen(self, rng, i):
        ops = rng.sample(OPS, rng.choice([1, 2, 3]))
        c = ini.gen_config(rng, ops=ops, p_default=0.15, shape=rng.choice(["dag", "none", "tree", "dag"]),
                           max_sections=5, allow_delims=False)
        c["handlers"] = [[o, rng.choice([0, 0, 1, 1, 2]), True, rng.choice(self.RV)] for o in ops]
        if rng.random() < 0.3:
            c["handlers"].append(["initialize", 0, True, rng.choice(self.RV)])
        if rng.random() < 0.3:
            c["handlers"].append(["finalize", 0, True, rng.choice(self.RV)])
        c["ecl"] = rng.randrange(6)
        c["how"] = rng.randrange(12)
        c["silentw"] = rng.random() < 0.3
        return c

    def valid(self, c):
        return ini.valid_config(c)

    def run(self, c, mon):
        model = ini.model_of(c)
        log, events = [], []
        cls = record_events(make_handlers(c["handlers"], log.append), events)
        obj = mon.expect_ok("construct", build, c, mon, cls)
        ecl = c["ecl"]
        handled = {h[0].replace("-", "_"): h for h in c["handlers"]}
        Amb = mods().AmbiguousHandlerError
        for s in model.sections()[:6]:
            want_log, want_ev, codes = [], [], []

            def on_op(op, e):
                h = handled.get(op)
                if h is None:
                    return
                if op not in ("initialize", "finalize") and h[1] == 2:
                    want_ev.append(("SERIOUS", Amb))
                    mon.ev("ambiguous")
                    if ecl >= 3:
                        raise Raised(Amb, "ambiguous")
                    mon.ev("ambiguous-public")
                vis = "_" if h[1] == 1 and op not in ("initialize", "finalize") else ""
                want_log.append((vis + "handler_" + op, e["section"]))
                rv = h[3]
                codes.append(rv)
                if not isinstance(rv, int):
                    mon.ev("badtype")
                    want_ev.append(("CATASTROPHIC", TypeError))
                    raise Raised(TypeError, "non-integer return")
                if rv == 0:
                    return
                if rv <= 10:
                    mon.ev("warn")
                    want_ev.append(("WARNING", RuntimeError))
                    if ecl >= 5:
                        raise Raised(RuntimeError, "warning at level 5")
                else:
                    mon.ev("fatal")
                    want_ev.append(("CATASTROPHIC", RuntimeError))
                    raise Raised(RuntimeError, "fatal return code")

            p = predict(model, s, handled=set(handled) | {"use"}, ecl=ecl, on_op=on_op)
            del log[:], events[:]
            res = mon.call(obj.parse_section, s)
            out = mon.out
            if p[0] == "exc":
                mon.true("policy-raises", res[0] == "exc" and isinstance(res[1], p[1].types),
                         f"{s!r} at level {ecl}: {res} expected {p[1].types} ({p[1].why})")
            else:
                if res[0] != "ok":
                    mon.fail("policy-continues", f"{s!r} at level {ecl}: {describe(res[1])}")
                compare_access(mon, f"data of {s!r}", p, mon.call(access, obj, s, 0))
            mon.eq(f"handlers run for {s!r} at level {ecl}", [(g["attr"], g["section"]) for g in log],
                   want_log, "handlers-run")
            # events that raise at this level are judged by the exception itself
            quiet = [e for e in want_ev if ecl < self.RAISES[e[0]]]
            mon.eq(f"suppressed events of {s!r} at level {ecl}",
                   [e for e in events if e[1] is not ValueError and ecl < self.RAISES.get(e[0], 9)], quiet, "events")
            cyc = p[3] if p[0] == "ok" else p[1].cycles
            skipped = [e for e in want_ev if p[0] == "ok"] or cyc
            if p[0] == "ok":
                loud = ecl >= 1 and not c["silentw"]
                mon.true("warning-output", (out != "") == bool(skipped and loud),
                         f"{s!r} at level {ecl}: printed {out!r}, skipped events {skipped}")
            if want_ev:
                mon.state(tuple(map(repr, codes)), ecl, p[0], tuple(want_ev))

    def directed(self):
        out = []
        for rv in self.RV:
            for ecl in range(6):
                for vis in (0, 1, 2):
                    out.append(dict(files=[[["A", [["foo x", ":", "v"], ["k", ":", "v"], ["foo y", ":", "w"]]]]],
                                    delims=None, default="DEFAULT", handlers=[["foo", vis, True, rv]],
                                    ecl=ecl, how=0, silentw=False))
        return out
