"""Checks of the keyword tools: keyword files, system names, environment names, flags, messages."""
import configparser
import os
import platform
import re
import socket

from .. import ini
from ..core import Check
from ..ini import BadCase, Raised

KP = ["wip/keywordparser/keywordparser/KeywordParser.py"]
FM = ["wip/keywordparser/keywordparser/FormattedMsg.py"]
DS = ["wip/determinesystem/determinesystem/DetermineSystem.py"]
CK = ["wip/genconfig/src/config_keyword_parser.py"]
EK = ["wip/loadenv/loadenv/EnvKeywordParser.py"]

TYPES = ("SELECT_ONE", "SELECT_MANY")

# ---------------------------------------------------------------------------
#  A hostname the monitors control, whatever function the code asks
# ---------------------------------------------------------------------------

HOST = ["stub-host"]


def patch_hostname():
    """Must run before the code under test is imported."""
    if getattr(socket, "_vf_patched", False):
        return
    socket._vf_patched = True
    uname = os.uname
    socket.gethostname = lambda: HOST[0]
    socket.getfqdn = lambda name="": HOST[0]
    platform.node = lambda: HOST[0]

    def fake():
        u = uname()
        return os.uname_result((u.sysname, HOST[0], u.release, u.version, u.machine))

    os.uname = fake


# ---------------------------------------------------------------------------
#  Keyword files
# ---------------------------------------------------------------------------

WORDS = ["intel", "intel-18", "intel-18.0.5", "gnu", "gnu-7", "default-env", "cuda", "cuda-9.2", "openmp", "serial",
         "mpi", "no-mpi", "static", "shared", "debug", "release", "a", "b", "ab", "A", "Intel", "x.y", "c++", "x^y", "^a",
         "v$", "(z)", "1", "42", "-", "a-b", "env", "a;b", "x,y", "a|b", "100%%", "ü", "a/b", "*", "[q]", "SELECT-ONE",
         "none", "empire", "sparc", "g.u"]
KEYS = ["intel-18.0.5-mpich-7.7.6", "intel-19.0.4-mpich-7.7.6", "gnu-7.3.0", "cuda-9.2-gnu-7.2.0", "arm-20.0", "use-mpi",
        "node-type", "lib-type", "k1", "k2", "k", "c++17", "env_x", "env", "x.z", "intel-18.0", "gnu", "Intel-X",
        "mpich^2", "intel-18.0.5"]
SYSTEMS = ["machine-type-1", "machine-type-1_host", "sys-3", "rhel7", "van1-tx2", "ats2", "sys", "3", "RHEL8", "sys-33",
           "s.s"]
COMMENTS = ["# c", "# The default", "#", "# a b_c", "# intel", "#x # y", "# 'quoted'", "# x; y", "  # é", "# key: value",
            "#SELECT_ONE", "# ^^^"]


def value_lines(rng, vals, p_comment=0.35):
    """Render a list of values the way people write keyword files."""
    lines = []
    for v in vals:
        while rng.random() < 0.12:
            lines.append(rng.choice(["# full line comment", "; semicolon comment", "#", "# intel", "# a # b"]))
        c = ""
        if rng.random() < p_comment:
            c = rng.choice(["  ", " ", "   ", ""]) + rng.choice(COMMENTS)
        lines.append(v + c)
    if rng.random() < 0.08:
        lines.append("# last")
    return lines


def render_kw(rng, secs, p_comment=0.35):
    """secs: [[name, [[key, values or None] or ["use", target]]]] -> text"""
    out = []
    for name, entries in secs:
        if rng.random() < 0.2:
            out.append("# a comment")
        out.append(f"[{name}]")
        for key, vals in entries:
            if key == "use":
                out.append(rng.choice([f"use {vals}", f"use '{vals}'", f"use {vals}:", f'use "{vals}" ='])
                           + "")
                continue
            if vals is None:
                out.append(key)
                continue
            d = rng.choice([":", ":", " :", ": ", "=", " = "])
            lines = value_lines(rng, vals, p_comment)
            if lines and rng.random() < 0.3:
                out.append(f"{key}{d} {lines[0]}")
                lines = lines[1:]
            else:
                c = "   " + rng.choice(COMMENTS) if rng.random() < 0.15 else ""
                out.append(f"{key}{d}{c}")
            ind = rng.choice(["    ", "  ", "\t", " "])
            for ln in lines:
                if rng.random() < 0.05:
                    out.append("")
                out.append(ind + rng.choice(["", "", "", "  "]) + ln + rng.choice(["", "", "  "]))
        out.append("")
    return "\n".join(out) + "\n"


def values_of(text):
    """Reference reading of one option's value."""
    out = []
    for ln in ("" if text is None else text).split("\n"):
        v = ln.split("#")[0].strip()
        if v:
            out.append(v)
    return out


def delimited(v):
    return v not in TYPES and ("_" in v or any(ch.isspace() for ch in v))


def problems(vals, keys):
    """Why a list of values must be rejected."""
    p = []
    if len(set(vals)) != len(vals):
        p.append("duplicate")
    if any(delimited(v) for v in vals):
        p.append("delimiter")
    if any(v in keys for v in vals):
        p.append("key-name")
    return p


class KwModel:
    """Expected contents of a keyword file, read with the standard library only."""

    def __init__(self, text):
        self.m = ini.Model([text])
        self.m.check_domain()
        self.cache = {}

    def sections(self):
        return self.m.sections()

    def data(self, sec):
        if sec not in self.cache:
            d = self.m.expand(sec)[0]
            self.cache[sec] = {k: values_of(v) for k, v in d.items()}
        return self.cache[sec]


def kw_text_ok(text, sections=None):
    try:
        m = KwModel(text)
        for s in m.sections():
            m.data(s)
        if "\r" in text:
            return False
        for s in m.sections():
            for k, v in m.m.expand(s)[0].items():
                if v is not None and v.strip() != v.strip('"').strip():
                    return False
        return True
    except (BadCase, Raised, configparser.Error, ValueError):
        return False


def pick_values(rng, pool, n, p_bad):
    vals = rng.sample(pool, min(n, len(pool)))
    if vals and rng.random() < p_bad:
        r = rng.randrange(4)
        if r == 0:
            vals.insert(rng.randrange(len(vals) + 1), rng.choice(vals))
        elif r == 1:
            vals.append(rng.choice(["two words", "a b c", "x  y", "a\tb", "tab\t tab", "x\u00a0y", "v\u3000w"]))
        elif r == 2:
            vals.append(rng.choice(["under_score", "_lead", "trail_", "SELECT_ONE_", "_"]))
        else:
            vals.append(rng.choice(KEYS))
    return vals


def gen_kw(rng, names, keys=KEYS, words=WORDS, p_bad=0.12, nkeys=6, shared=False, types=False, p_comment=0.35,
           p_default=0.1, minval=0, p_none=0.15):
    for _ in range(60):
        n = rng.choice([1, 1, 2, 3])
        secs = []
        use = rng.sample(names, min(n, len(names)))
        for i, s in enumerate(use):
            pool = list(words)
            rng.shuffle(pool)
            entries = []
            for k in rng.sample(keys, rng.randrange(1, nkeys + 1)):
                c = rng.choice([1, 1, 2, 3, 4, 5] if minval else [0, 1, 1, 2, 3, 4, 6])
                vals = pick_values(rng, pool[:8] if shared else pool, c, p_bad)
                if not shared:
                    pool = [w for w in pool if w not in vals]
                if rng.random() < 0.04 and not shared and entries and entries[-1][1]:
                    vals.append(rng.choice(entries[-1][1]))
                if rng.random() < 0.03:
                    vals += [f"{k[:1]}{len(entries)}-long{x}" for x in range(rng.choice([9, 12, 40]))]
                if types:
                    t = rng.random()
                    if t < 0.6:
                        vals.insert(0, "SELECT_ONE")
                    elif t < 0.97:
                        vals.insert(0, "SELECT_MANY")
                entries.append([k, vals if vals or rng.random() > p_none else None])
            if i and rng.random() < 0.35:
                entries.insert(rng.randrange(len(entries) + 1), ["use", use[rng.randrange(i)]])
            secs.append([s, entries])
        if rng.random() < p_default:
            secs.insert(rng.randrange(len(secs) + 1), ["DEFAULT", [[rng.choice(keys), rng.sample(words, 2)]]])
        rng.shuffle(secs)
        text = render_kw(rng, secs, p_comment)
        if kw_text_ok(text):
            return text
    return f"[{names[0]}]\nk1:\n  SELECT_ONE\n  a\n"


def write(mon, name, text):
    p = os.path.join(mon.dir(), name)
    with open(p, "w", encoding="utf-8", newline="\n") as f:
        f.write(text)
    return p


def exit_names(mon, what, e, names):
    """A SystemExit from a tool carries a message naming what is wrong."""
    mon.ev("oracle:exit-message")
    if not isinstance(e.code, str) or not e.code.strip():
        mon.fail("exit-message", f"{what}: SystemExit({e.code!r}) has no message")
    for n in names:
        if n not in e.code:
            mon.fail("exit-message", f"{what}: the message does not name {n!r}: {e.code!r}")


# ---------------------------------------------------------------------------

class C20(Check):
    id = "C20"
    rule = ("random keyword files (values on the key line or below, trailing and full-line comments, blank "
            "lines, use links, default section, valueless keys, values with regular-expression characters, "
            "duplicates, blanks, delimiters, values equal to a key) and random query histories on one parser; "
            "a state is a distinct (values, query, outcome)")
    anchor_files = KP
    quick = 12000
    thorough = 120000
    needs = {"values-read": 4000, "rejected:duplicate": 50, "rejected:delimiter": 50, "rejected:key-name": 50,
             "key-found": 500, "value-not-found": 300}
    assumptions = ["values hold no carriage return; a value does not begin or end with a double quote"]

    def prepare(self):
        patch_hostname()
        import keywordparser  # noqa: F401

    def gen(self, rng, i):
        text = gen_kw(rng, SYSTEMS, shared=rng.random() < 0.4, p_bad=rng.choice([0.02, 0.1, 0.3]))
        m = KwModel(text)
        secs = m.sections()
        q = []
        for _ in range(rng.randrange(3, 16)):
            s = rng.choice(secs)
            ks = list(m.data(s))
            if rng.random() < 0.05:
                s = rng.choice(["nope", s + "x"])
            if rng.random() < 0.55:
                k = rng.choice(ks + ["nokey"]) if rng.random() < 0.1 or not ks else rng.choice(ks)
                q.append(["values", s, k])
            else:
                allv = [v for k in ks for v in m.data(secs[0] if s not in secs else s).get(k, [])]
                v = rng.choice(allv) if allv and rng.random() < 0.8 else rng.choice(
                    WORDS + ["", "inte", "# c", "the default", "SELECT_ONE"])
                q.append(["key", s, v])
        return dict(text=text, q=q, lib=rng.randrange(2))

    def valid(self, c):
        return kw_text_ok(c["text"])

    def run(self, c, mon):
        from pathlib import Path
        from keywordparser import KeywordParser
        p = write(mon, "kw.ini", c["text"])
        m = KwModel(c["text"])
        kp = mon.expect_ok("construct", KeywordParser, Path(p) if c["lib"] else p)
        for op, s, x in c["q"]:
            if s not in m.sections():
                f = kp.get_values_for_section_key if op == "values" else kp.get_key_for_section_value
                mon.expect_exc("unknown section", KeyError, f, s, x)
                continue
            data = m.data(s)
            keys = list(data)
            if op == "values":
                what = f"values of [{s}] {x!r}"
                if x not in data:
                    mon.expect_exc("unknown key", KeyError, kp.get_values_for_section_key, s, x)
                    continue
                bad = problems(data[x], keys)
                if bad:
                    e = mon.expect_exc(what, SystemExit, kp.get_values_for_section_key, s, x)
                    if bad == ["duplicate"]:
                        exit_names(mon, what, e, {v for v in data[x] if data[x].count(v) > 1})
                    elif bad == ["delimiter"]:
                        exit_names(mon, what, e,
                                   [v for v in data[x] if delimited(v)])
                    elif bad == ["key-name"]:
                        exit_names(mon, what, e, [v for v in data[x] if v in keys])
                    for b in bad:
                        mon.ev("rejected:" + b)
                    mon.state("bad", tuple(bad), tuple(data[x]))
                    continue
                got = mon.expect_ok(what, kp.get_values_for_section_key, s, x)
                mon.eq(what, got, data[x], "values")
                mon.ev("values-read")
                mon.state("values", tuple(data[x]))
                got.append("vf-edited")     # must not reach later queries
            else:
                what = f"key of {x!r} in [{s}]"
                bad = [b for k in keys for b in problems(data[k], keys)]
                owners = [k for k in keys if x in data[k]]
                if bad or not owners:
                    e = mon.expect_exc(what, SystemExit, kp.get_key_for_section_value, s, x)
                    exit_names(mon, what, e, [] if bad else [x, s])
                    mon.ev("key-rejected" if bad else "value-not-found")
                    mon.state("nokey", x, tuple(sorted(set(bad))))
                    continue
                got = mon.expect_ok(what, kp.get_key_for_section_value, s, x)
                mon.true("key-of-value", got in owners, f"{what}: {got!r}, the keys with this value are {owners}")
                if len(owners) > 1:
                    mon.eq(what, got, owners[-1], "last-key-of-value")
                    mon.ev("several-owners")
                mon.ev("key-found")
                mon.state("key", x, got, len(owners))


# ---------------------------------------------------------------------------

HOSTPARTS = ["mutrino", "voltrino", "rhel", "login", "node", "vortex", "van1-tx2", "stria", "ghost", "sys-3", "host", "a"]
PATTERNS = ["mutrino", "voltrino", "^rhel", "rhel[0-9]+", "login[0-9]", "^login", "vortex[59]?", "stria-login[12]$",
            "van1-tx2", "(mutrino|voltrino)", "ghost.", "ghost\\.x", "^a$", "a", "node-[0-9][0-9]*", "host", ".*", "x*",
            "stria", "[a-c]$", "\\d\\d", "^(?!x)".replace("?!x", "x"), "login", "^node", "^[^a]", "rhel7.*",
            "node[0-9]{2,3}x", "rhel{1,2}7", "(login)?node", "login[1,2]", "host,", "ghost|stria", "\\bnode\\b", "(?i)mutrino",
            "rhel\\d{1,}$"]


class C21(Check):
    id = "C21"
    rule = ("random supported-systems files (regular-expression hostname keys with comments, use links, default "
            "section, overlapping systems), hostnames, build names (no, one, several system names, substrings, "
            "upper case, empty components), the force and silent flags, and repeated queries on one object "
            "under changing hostnames; a state is a distinct (systems, hostname match, build-name match, force, outcome)")
    anchor_files = DS
    quick = 12000
    thorough = 120000
    needs = {"by-hostname": 500, "by-build-name": 500, "forced": 300, "mismatch-rejected": 300,
             "unknown-rejected": 300, "ambiguous-rejected": 200, "failed-again": 300}
    assumptions = ["keys contain no delimiter and are valid regular expressions", "the force flag is a boolean"]

    def prepare(self):
        patch_hostname()
        import determinesystem  # noqa: F401

    def gen(self, rng, i):
        for _ in range(60):
            names = rng.sample(SYSTEMS, rng.randrange(1, 6))
            lines = []
            for n, s in enumerate(names):
                lines.append(f"[{s}]")
                for pat in rng.sample(PATTERNS, rng.choice([0, 1, 1, 2, 3])):
                    if pat in (".*", "x*") and rng.random() < 0.7:
                        continue
                    c = rng.choice(["", "", "", "  # comment", " # login nodes", "#tight", "  # a b # c"])
                    lines.append(pat + c + rng.choice(["", "", "", ":", " =", " : value"]))
                if n and rng.random() < 0.15:
                    lines.append(f"use {names[rng.randrange(n)]}")
                lines.append("")
            if rng.random() < 0.1:
                lines += ["[DEFAULT]", rng.choice(PATTERNS[:18])]
            text = "\n".join(lines) + "\n"
            try:
                m = ini.Model([text])
                m.check_domain()
                for s in m.sections():
                    for k in m.expand(s)[0]:
                        re.compile(pattern_of(k))
                break
            except (BadCase, Raised, configparser.Error, re.error, IndexError):
                continue
        else:
            text = "[sys-3]\nhost\n"
            names = ["sys-3"]
        comps = []
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
            n = rng.choice(names) if rng.random() < 0.85 else rng.choice(SYSTEMS)
            n = rng.choice([n, n, n, n.upper(), n.capitalize(), n + "x", "x" + n, n[:-1], n + "-gnu", n])
            comps.append(n)
        for _ in range(rng.choice([0, 1, 2])):
            comps.insert(rng.randrange(len(comps) + 1), rng.choice(["gnu-7", "serial", "", "intel", "host", "DEFAULT"]))
        hosts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            h = rng.choice(HOSTPARTS + ["unknown-box", "zzz", "rhel7", "rhel77.x", "login1", "stria-login2", "node-17",
                                        "xrhel7", "MUTRINO", "ghostx", "ghost.x", "vortex6", "xlogin3", "node123x", "node12x", "node1x",
                                        "loginnode", "rhell7", "login,", "host,a"])
            if rng.random() < 0.3:
                h += rng.choice(["1", "-login2", ".example.org", "7"])
            hosts.append(h)
        return dict(text=text, build="_".join(comps), hosts=hosts, force=rng.random() < 0.4, silent=rng.random() < 0.4,
                    n=rng.choice([1, 2, 3, 4]), direct=rng.random() < 0.4)

    def valid(self, c):
        try:
            m = ini.Model([c["text"]])
            m.check_domain()
            for s in m.sections():
                for k in m.expand(s)[0]:
                    re.compile(pattern_of(k))
            return bool(c["hosts"]) and all(c["hosts"])
        except Exception:
            return False

    def run(self, c, mon):
        from determinesystem import DetermineSystem
        p = write(mon, "supported-systems.ini", c["text"])
        m = ini.Model([c["text"]])
        systems = [s for s in m.sections() if s != "DEFAULT"]
        comps = c["build"].lower().split("_")
        named = [s for s in systems if s.lower() in comps]

        def by_host(h):
            for s in systems:
                if any(re.search(pattern_of(k), h) for k in m.expand(s)[0]):
                    return s
            return None

        HOST[0] = c["hosts"][0]
        ds = mon.expect_ok("construct", DetermineSystem, c["build"], p, force_build_name=c["force"], silent=c["silent"])
        mon.eq("supported systems", list(ds.supported_sys_names), systems, "supported-systems")
        if c["direct"]:
            for h in c["hosts"]:
                mon.eq(f"system of host {h!r}", mon.expect_ok("by hostname", ds.get_sys_name_from_hostname, h),
                       by_host(h), "system-of-host")
            if len(named) < 2:
                mon.eq(f"system in build name {c['build']!r}",
                       mon.expect_ok("by build name", ds.get_sys_name_from_build_name),
                       named[0] if named else None, "system-in-build-name")
        settled = None
        failed = 0
        for n in range(max(1, c["n"])):
            h = HOST[0] = c["hosts"][n % len(c["hosts"])]
            host = by_host(h)
            what = (f"system for build name {c['build']!r} on host {h!r} (host system {host!r}, named {named}, "
                    f"force={c['force']}), access {n + 1}")
            if settled is not None:
                mon.eq(what, mon.expect_ok(what, lambda: ds.system_name), settled, "settled-system")
                mon.true("settled-quietly", mon.out == "", f"{what}: printed {mon.out!r}")
                continue
            why = None
            if len(named) > 1:
                why = "ambiguous"
            elif not named and host is None:
                why = "unknown"
            elif named and named[0] != host and not c["force"]:
                why = "mismatch"
            if why:
                e = mon.expect_exc(what, SystemExit, lambda: ds.system_name)
                exit_names(mon, what, e, named if why == "ambiguous" else [h] if why == "unknown" else [named[0]])
                mon.ev(why + "-rejected")
                if failed:
                    mon.ev("failed-again")
                failed += 1
                mon.state(why, tuple(systems), host, tuple(named), c["force"])
            else:
                want = named[0] if named else host
                got = mon.expect_ok(what, lambda: ds.system_name)
                mon.eq(what, got, want, "system")
                settled = want
                if c["silent"]:
                    mon.true("silent", mon.out == "", f"{what}: printed {mon.out!r}")
                else:
                    mon.true("tells-the-system", f"'{want}'" in mon.out, f"{what}: printed {mon.out!r}")
                mon.ev("by-build-name" if named else "by-hostname")
                if named and named[0] != host:
                    mon.ev("forced")
                mon.state("ok", tuple(systems), host, tuple(named), c["force"], want)


def pattern_of(key):
    k = key.split("#")[0].split()
    return k[0]


# ---------------------------------------------------------------------------

FLAGS = ["use-mpi", "node-type", "lib-type", "build-type", "package-enables", "use-x", "k1", "kokkos-arch"]


class C22(Check):
    id = "C22"
    rule = ("random flag files (SELECT_ONE and SELECT_MANY flags, comments, use links, missing types, options in "
            "several flags, invalid options) and random histories of build-name changes and queries on one parser; "
            "a state is a distinct (flags, build name, outcome)")
    anchor_files = CK
    quick = 10000
    thorough = 100000
    needs = {"selected": 4000, "many": 200, "default": 1500, "rejected:conflict": 150, "rejected:shared": 50,
             "rejected:type": 50, "recovered": 60, "flag-without-value": 50}
    assumptions = ["every flag with a type lists at least one option"]

    def prepare(self):
        patch_hostname()
        import src.config_keyword_parser  # noqa: F401

    def gen(self, rng, i):
        words = [w for w in WORDS if w not in ("SELECT-ONE", )]
        for _ in range(50):
            text = gen_kw(rng, ["configure-flags", "OTHER", "more"], keys=FLAGS, words=words,
                          p_bad=rng.choice([0, 0, 0, 0.05]), types=True, minval=1, p_default=0.04)
            if rng.random() < 0.85:
                # mostly files with every type present
                text2 = text
            else:
                text2 = text.replace("SELECT_ONE", rng.choice(["SELECT-ONE", "SELECT_ONE", "select_one"]), 1)
            if rng.random() < 0.03:
                text2 = text2.replace("[configure-flags]\n", "[configure-flags]\n" + rng.choice(
                    ["nothing:\n", "nothing\n", "nothing =\n  # none yet\n", "nothing: # todo\n"]), 1)
            m = KwModel(text2) if kw_text_ok(text2) else None
            if m and "configure-flags" in m.sections():
                d = m.data("configure-flags")
                if d and all(len(v) >= 2 or v[:1] not in (["SELECT_ONE"], ["SELECT_MANY"]) for v in d.values()):
                    text = text2
                    break
        else:
            text = "[configure-flags]\nuse-mpi: SELECT_ONE\n  mpi\n  no-mpi\n"
            d = {"use-mpi": ["SELECT_ONE", "mpi", "no-mpi"]}
        opts = [v for vals in d.values() for v in vals if v not in TYPES] or ["a"]
        hist = [["build", self.build(rng, d, opts)]]
        for _ in range(rng.randrange(2, 14)):
            r = rng.random()
            if r < 0.3:
                hist.append(["build", self.build(rng, d, opts)])
            elif r < 0.6:
                hist.append(["options"])
            elif r < 0.85:
                hist.append(["str"])
            elif r < 0.95:
                hist.append(["default", rng.choice(opts + ["zz", "SELECT_ONE"])])
            else:
                hist.append(["msg"])
        return dict(text=text, hist=hist)

    def build(self, rng, d, opts):
        comps = []
        for k, vals in d.items():
            o = [v for v in vals[1:]]
            if not o:
                continue
            r = rng.random()
            if vals[0] == "SELECT_MANY" and r < 0.4:
                comps += rng.sample(o, rng.randrange(1, len(o) + 1))
            elif r < 0.5:
                comps.append(rng.choice(o))
            elif r < 0.53 and len(o) > 1:
                comps += rng.sample(o, 2)
        for _ in range(rng.choice([0, 0, 1, 2])):
            comps.append(rng.choice(["machine-type-5", "gnu-7", "", rng.choice(opts) + "x", rng.choice(opts).upper(),
                                     rng.choice(opts), "no-" + rng.choice(opts), " " + rng.choice(opts),
                                     rng.choice(opts) + " ", rng.choice(opts) + "\t"]))
        rng.shuffle(comps)
        return "_".join(comps)

    def valid(self, c):
        if not kw_text_ok(c["text"]) or not c["hist"]:
            return False
        m = KwModel(c["text"])
        if "configure-flags" not in m.sections():
            return False
        d = m.data("configure-flags")
        return bool(d) and all(len(v) >= 2 or v[:1] not in (["SELECT_ONE"], ["SELECT_MANY"]) for v in d.values()) and \
            all(h and (h[0] not in ("build", "default") or len(h) > 1) for h in c["hist"])

    def run(self, c, mon):
        from src.config_keyword_parser import ConfigKeywordParser
        p = write(mon, "flags.ini", c["text"])
        m = KwModel(c["text"])
        d = m.data("configure-flags")
        keys = list(d)
        kinds = set()       # what is wrong with the file itself
        for k, vals in d.items():
            if problems(vals, keys):
                kinds.add("values")
            elif not vals or vals[0] not in TYPES:
                kinds.add("type")
                if not vals:
                    mon.ev("flag-without-value")
        allopts = [o for vals in d.values() for o in vals[1:]]
        shared = len(set(allopts)) != len(allopts)
        build = c["hist"][0][1]
        ckp = mon.expect_ok("construct", ConfigKeywordParser, build, p)
        failed = False
        for h in c["hist"]:
            if h[0] == "build":
                mon.expect_ok("set build name", setattr, ckp, "build_name", h[1])
                build = h[1]
                mon.eq("build name", ckp.build_name, build, "build-name")
                continue
            if h[0] == "default":
                what = f"is_default_option({h[1]!r})"
                if kinds:
                    self.rejected(mon, what, kinds, lambda: ckp.is_default_option(h[1]))
                    continue
                want = any(vals[1] == h[1] for vals in d.values())
                mon.eq(what, mon.expect_ok(what, ckp.is_default_option, h[1]), want, "is-default")
                continue
            if h[0] == "msg":
                what = "message with the supported flags"
                if kinds:
                    self.rejected(mon, what, kinds, lambda: ckp.get_msg_showing_supported_flags("Choose", kind="INFO"))
                    continue
                msg = mon.expect_ok(what, ckp.get_msg_showing_supported_flags, "Choose", kind="INFO")
                lines = [ln.lstrip("| ").rstrip() for ln in msg.split("\n")]
                pos = 0
                for k, vals in d.items():
                    want = ["- " + k] + ["- " + o + (" (default)" if n == 0 else "") for n, o in enumerate(vals[1:])]
                    for w in want:
                        mon.true("flags-message", w in lines[pos:], f"{what}: {w!r} not in order in {msg!r}")
                        pos = lines.index(w, pos) + 1
                continue
            comps = build.split("_")
            now = set(kinds)
            if not kinds and shared:
                now.add("shared")
            sel = {}
            if not now:
                for k, vals in d.items():
                    hit = [o for o in vals[1:] if o in comps]
                    if vals[0] == "SELECT_ONE" and len(hit) > 1:
                        now.add("conflict")
                    sel[k] = vals[1] if not hit else hit[0] if len(hit) == 1 else sorted(hit)
            what = f"{h[0]} for build name {build!r} with flags {d}"
            f = (lambda: ckp.selected_options) if h[0] == "options" else (lambda: ckp.selected_options_str)
            if now:
                self.rejected(mon, what, now, f)
                failed = True
                continue
            got = mon.expect_ok(what, f)
            if h[0] == "options":
                mon.eq(what, list(got.items()), list(sel.items()), "selected-options")
            else:
                want = "".join("_" + o for v in sel.values() for o in (v if isinstance(v, list) else [v]))
                mon.eq(what, got, want, "selected-options-str")
            mon.ev("selected")
            if failed:
                mon.ev("recovered")
                failed = False
            if any(isinstance(v, list) for v in sel.values()):
                mon.ev("many")
            if any(not set(vals[1:]) & set(comps) for vals in d.values()):
                mon.ev("default")
            mon.state(h[0], build, tuple((k, tuple(v)) for k, v in d.items()))

    def rejected(self, mon, what, kinds, f):
        exact = {"values": SystemExit, "type": ValueError, "shared": SystemExit, "conflict": ValueError}
        types = tuple({exact[k] for k in kinds})
        e = mon.expect_exc(what, types, f)
        mon.true("rejection-message", bool(str(e).strip()), f"{what}: empty message")
        for k in kinds:
            mon.ev("rejected:" + k)
        mon.state("rejected", tuple(sorted(kinds)), what)


# ---------------------------------------------------------------------------

def contains(build, name):
    """Is `name` a delimited part of the build name?"""
    return ("_" + name + "_") in ("_" + build + "_")


def env_prediction(d, system, build):
    """('ok', env) / ('invalid',) / ('none',) for a section {env: aliases}."""
    keys = list(d)
    if any(problems(v, keys) for v in d.values()):
        return ("invalid", )
    aliases = [a for v in d.values() for a in v]
    if len(set(aliases)) != len(aliases):
        return ("invalid", )
    best = None
    for k in keys:
        if contains(build, k) and (best is None or len(k) > len(best)):
            best = k
    if best is not None:
        return ("ok", best, "name")
    ba = None
    for k in keys:
        for a in d[k]:
            if contains(build, a) and (ba is None or len(a) > len(ba)):
                ba, best = a, k
    if best is None:
        return ("none", )
    return ("ok", best, "alias")


def gen_build(rng, d, system):
    keys = list(d)
    aliases = [a for v in d.values() for a in v]
    comps = []
    pool = keys + aliases
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        n = rng.choice(aliases if aliases and rng.random() < 0.5 else keys or ["x"])
        r = rng.random()
        if r < 0.75:
            comps.append(n)
        else:
            comps.append(rng.choice([n + "x", "x" + n, n[:-1], n.upper(), n + "-" + rng.choice(pool), n.replace(".", "x"),
                                     n.replace("-", "_"), "no-" + n, " " + n, n + " "]))
    for _ in range(rng.choice([0, 1, 2, 3])):
        comps.insert(rng.randrange(len(comps) + 1), rng.choice([system, "mpi", "static", "", "serial", "my-build"]))
    return "_".join(comps)


class C23(Check):
    id = "C23"
    rule = ("random supported-environment files (names containing each other, aliases contained in names, names "
            "with dots, plus signs and underscores, use links between systems, invalid and repeated aliases) and "
            "build names with none, one or several delimited or embedded names; a state is a distinct "
            "(environments, build name, outcome)")
    anchor_files = EK
    quick = 12000
    thorough = 120000
    needs = {"by-name": 1500, "by-alias": 800, "none": 800, "invalid": 150, "several-candidates": 400}
    assumptions = ["names, aliases and build names hold no line break"]

    def prepare(self):
        patch_hostname()
        import loadenv.EnvKeywordParser  # noqa: F401

    def gen(self, rng, i):
        text = gen_kw(rng, SYSTEMS, p_bad=rng.choice([0, 0, 0, 0.1]))
        m = KwModel(text)
        system = rng.choice([s for s in m.sections() if s != "DEFAULT"])
        return dict(text=text, system=system, n=rng.randrange(1, 4), lib=rng.randrange(2),
                    build=gen_build(rng, m.data(system), system))

    def valid(self, c):
        return kw_text_ok(c["text"]) and c["system"] in KwModel(c["text"]).sections()

    def run(self, c, mon):
        from pathlib import Path
        from loadenv.EnvKeywordParser import EnvKeywordParser
        p = write(mon, "supported-envs.ini", c["text"])
        d = KwModel(c["text"]).data(c["system"])
        r = env_prediction(d, c["system"], c["build"])
        what = f"environment for build name {c['build']!r} on {c['system']!r} with {d}"
        if r[0] == "invalid":
            e = mon.expect_exc(what, SystemExit, EnvKeywordParser, c["build"], c["system"], p)
            exit_names(mon, what, e, [])
            mon.ev("invalid")
            mon.state("invalid", tuple((k, tuple(v)) for k, v in d.items()))
            return
        ekp = mon.expect_ok("construct", EnvKeywordParser, c["build"], c["system"], Path(p) if c["lib"] else p)
        for n in range(max(1, c["n"])):
            if r[0] == "none":
                e = mon.expect_exc(what, SystemExit, lambda: ekp.qualified_env_name)
                exit_names(mon, what, e, list(d) + [a for v in d.values() for a in v])
                mon.ev("none")
            else:
                got = mon.expect_ok(what, lambda: ekp.qualified_env_name)
                mon.eq(what, got, c["system"] + "_" + r[1], "environment")
                mon.ev("by-" + r[2])
        cand = sum(contains(c["build"], k) for k in d)
        if r[0] == "ok" and (cand > 1 or r[2] == "alias" and sum(
                contains(c["build"], a) for v in d.values() for a in v) > 1):
            mon.ev("several-candidates")
        msg = mon.expect_ok("message", ekp.get_msg_showing_supported_environments, "Choose one", kind="INFO")
        lines = [ln.lstrip("| ").rstrip() for ln in msg.split("\n")]
        for k, v in d.items():
            for x in [k] + v:
                mon.true("environments-message", "- " + x in lines, f"{x!r} is not listed in {msg!r}")
        mon.state(r, c["build"], tuple((k, tuple(v)) for k, v in d.items()))


# ---------------------------------------------------------------------------

class C26(Check):
    id = "C26"
    rule = ("random messages, kinds, items and extras (several lines, blank lines, indentation, format and "
            "regular-expression characters, very long lines, trailing blanks); a state is a distinct message")
    anchor_files = FM
    quick = 24000
    thorough = 240000
    needs = {"message": 6000, "list": 3000}
    assumptions = ["the message is not empty"]

    LINES = ["one line", "", "  indented", "trailing   ", "x" * 120, "{} {0} %s %%", "\\d+ (a|b)", "|   ERROR:  x", "+==+",
             "é中", "- item", "tab\there", "'q' \"d\"", "   ", "a", "|", "$x", "back\\slash", "ends with tab\t", "no-break\xa0", "wide \u3000", "\xa0", "thin\u2009 \xa0"]

    def prepare(self):
        import keywordparser  # noqa: F401

    def gen(self, rng, i):
        def text(lo):
            ls = [rng.choice(self.LINES) for _ in range(rng.choice([lo, 1, 1, 2, 3, 5]))]
            if not ls:
                return ""
            return "\n".join(ls) + rng.choice(["", "", "\n"])
        msg = text(1)
        if not msg.splitlines():
            msg = "m"
        return dict(msg=msg, kind=rng.choice([None, None, "WARNING", "INFO", "X", "A kind", ""]),
                    extras=rng.choice([None, "", text(0), text(0)]),
                    items=None if rng.random() < 0.6 else [rng.choice(self.LINES + ["two\nlines", "i"])
                                                           for _ in range(rng.randrange(0, 6))])

    def valid(self, c):
        return bool(c["msg"].splitlines())

    def run(self, c, mon):
        from keywordparser import FormattedMsg
        kw = {}
        if c["kind"] is not None:
            kw["kind"] = c["kind"]
        if c["extras"] is not None:
            kw["extras"] = c["extras"]
        fm = FormattedMsg()
        kind = "ERROR" if c["kind"] is None else c["kind"]
        ex = c["extras"] or ""
        if c["items"] is None:
            got = mon.expect_ok("message", fm.get_formatted_msg, c["msg"], **kw)
            mon.ev("message")
        else:
            got = mon.expect_ok("list", fm.get_msg_for_list, c["msg"], list(c["items"]), **kw)
            ex = "".join(f"  - {i}\n" for i in c["items"]) + ex
            mon.ev("list")
        bar = "+" + "=" * 78 + "+"
        want = ["", bar]
        for n, ln in enumerate(c["msg"].splitlines()):
            want.append((f"|   {kind}:  {ln}" if n == 0 else f"|           {ln}").rstrip())
        for ln in ex.splitlines():
            want.append(f"|   {ln}".rstrip())
        want += [bar, ""]
        mon.eq("formatted message", got, "\n".join(want), "message-text")
        mon.state(got)

