"""Checks of the command line tools LoadEnv and GenConfig."""
import builtins
import configparser
import getpass
import os
import re
import shlex
import shutil
import subprocess
import sys
import types
import uuid
from pathlib import Path

from .. import ini
from ..core import REPO, Check
from ..ini import BadCase, Raised
from .keywords import (FLAGS, HOST, KwModel, TYPES, WORDS, contains, env_prediction, exit_names, gen_build, gen_kw,
                       kw_text_ok, patch_hostname, pattern_of, problems)

LE = ["wip/loadenv/load_env.py"]
GC = ["wip/genconfig/gen_config.py"]

NAMES = ["machine-type-1", "sys-3", "rhel7", "ats2", "sys", "van1-tx2", "s.s", "RHEL8"]
USER = ["vf-user"]


class StubOptions:
    """Stands in for the setprogramoptions package (not part of this repository)."""

    calls = []
    options = []

    def __init__(self, filename=None):
        self.filename = filename

    def gen_option_list(self, section, generator="bash"):
        StubOptions.calls.append((section, generator))
        return [f"-D{section}:{generator}"] + list(StubOptions.options)


def load_tools():
    patch_hostname()
    getpass.getuser = lambda: USER[0]
    if "setprogramoptions" not in sys.modules:
        m = types.ModuleType("setprogramoptions")
        m.SetProgramOptionsCMake = StubOptions
        m.SetProgramOptions = StubOptions
        sys.modules["setprogramoptions"] = m
    if "LoadEnv" not in sys.modules:
        m = types.ModuleType("LoadEnv")
        m.__path__ = [REPO + "/wip/loadenv"]
        sys.modules["LoadEnv"] = m
    import LoadEnv.load_env
    import gen_config
    return LoadEnv.load_env, gen_config


class Account:
    """A private account name, so that /tmp/<account> belongs to this case alone."""

    def __init__(self):
        self.name = "vf-" + uuid.uuid4().hex
        self.dir = "/tmp/" + self.name

    def __enter__(self):
        self.old = USER[0]
        USER[0] = self.name
        for v in ("USER", "LOGNAME", "USERNAME", "LNAME"):
            os.environ[v] = self.name
        return self

    def __exit__(self, *a):
        USER[0] = self.old
        if os.path.basename(self.dir).startswith("vf-"):
            shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------------------
#  Generators shared by both tools
# ---------------------------------------------------------------------------

def gen_systems(rng, names):
    lines = []
    pats = {}
    for s in names:
        lines.append(f"[{s}]")
        pats[s] = f"host-{s}"
        if rng.random() < 0.8:
            lines.append(f"^host-{s}$".replace(".", "\\.") + rng.choice(["", "  # login node", ":"]))
        if rng.random() < 0.2:
            lines.append(f"other-{s}[0-9]")
        lines.append("")
    return "\n".join(lines) + "\n"


def by_host(m, systems, h):
    for s in systems:
        if any(re.search(pattern_of(k), h) for k in m.expand(s)[0]):
            return s
    return None


def system_prediction(text, build, host, force):
    m = ini.Model([text])
    systems = [s for s in m.sections() if s != "DEFAULT"]
    comps = build.lower().split("_")
    named = [s for s in systems if s.lower() in comps]
    h = by_host(m, systems, host)
    if len(named) > 1 or (not named and h is None):
        return None
    if named and named[0] != h and not force:
        return None
    return named[0] if named else h


def gen_envs(rng, names, p_bad):
    for _ in range(40):
        text = gen_kw(rng, names, p_bad=p_bad, p_default=0.03)
        if rng.random() < 0.9:
            m = KwModel(text)
            for s in names:
                if s not in m.sections():
                    text += f"[{s}]\n" + rng.choice(["gnu-7.3.0:\n  gnu\n  gnu-7\n", "intel-18.0.5:\n  intel\n",
                                                     "cuda-9.2-gnu-7.2.0:\n    cuda\n    default-env  # d\n"])
        if kw_text_ok(text):
            return text
    return "".join(f"[{s}]\ngnu-7.3.0:\n  gnu\n" for s in names)


def gen_tool(rng, p_bad=0.03):
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3]))
    if rng.random() < 0.15:
        names = rng.sample(["sys", "sys-3"], 2) + [n for n in names if not n.startswith("sys")][:1]
    systems = gen_systems(rng, names)
    envs = gen_envs(rng, names, p_bad)
    host = rng.choice(["host-" + rng.choice(names)] * 3 + ["elsewhere", f"other-{rng.choice(names)}7"])
    return names, systems, envs, host


def gen_tool_build(rng, names, envs, host=None):
    m = KwModel(envs)
    s = rng.choice([n for n in names])
    if host and host.startswith("host-") and rng.random() < 0.7:
        s = host[5:]
    d = m.data(s) if s in m.sections() else {"x": []}
    b = gen_build(rng, d, s)
    if rng.random() < 0.3:
        b = rng.choice([s, s, s.upper(), s.lower(), s.capitalize()]) + "_" + b
    return b.lstrip("-")


def put(d, name, text):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8", newline="\n") as f:
        f.write(text)
    return p


FILES = ["supported-systems", "supported-envs", "environment-specs"]
GFILES = ["supported-config-flags", "config-specs"]
FAIL = (SystemExit, KeyError)


class ToolCheck(Check):

    def prepare(self):
        self.le, self.gc = load_tools()


# ---------------------------------------------------------------------------

class C24(ToolCheck):
    id = "C24"
    rule = ("random configurations of LoadEnv (three .ini files named in the top-level file by relative or absolute "
            "path or overridden on the command line, decoy files that must not be used, broken top-level files) "
            "and histories of build-name changes and reads of the system, environment and stripped build name; "
            "a state is a distinct (configuration, build name, read, outcome)")
    anchor_files = LE
    quick = 5000
    thorough = 50000
    needs = {"system": 800, "environment": 800, "stripped": 500, "rejected": 500, "top-level-rejected": 100,
             "overridden": 300, "listed": 100, "recovered": 40}
    assumptions = ["build names do not start with a dash"]

    def gen(self, rng, i):
        names, systems, envs, host = gen_tool(rng)
        where = {f: rng.choice(["rel", "rel", "abs", "cli", "sub", "both"]) for f in FILES}
        broken = None
        if rng.random() < 0.1:
            broken = [rng.choice(["section", "missing", "empty", "novalue"]), rng.choice(FILES)]
        hist = [["build", gen_tool_build(rng, names, envs, host)]]
        for _ in range(rng.randrange(2, 14)):
            r = rng.random()
            if r < 0.3:
                hist.append(["build", gen_tool_build(rng, names, envs, host)])
                if rng.random() < 0.1:
                    hist[-1][1] += rng.choice([" ", "_", "\t"])
            elif r < 0.35:
                b = [h[1] for h in hist if h[0] == "build"][-1]
                hist.append(["build", rng.choice([b.strip(), b.strip("_"), b.swapcase(), b.lower(), b]).lstrip("-")])
            else:
                hist.append([rng.choice(["system", "env", "env", "strip", "list", "args"])])
        return dict(systems=systems, envs=envs, host=host, where=where, broken=broken, hist=hist,
                    force=rng.random() < 0.5)

    def valid(self, c):
        return (kw_text_ok(c["envs"]) and bool(c["hist"]) and bool(c["host"]) and bool(ini.Model([c["systems"]]).sections())
                and all(h and (h[0] != "build" or (len(h) > 1 and not h[1].startswith("-"))) for h in c["hist"])
                and c["hist"][0][0] == "build")

    def run(self, c, mon):
        d = mon.dir()
        text = {"supported-systems": c["systems"], "supported-envs": c["envs"],
                "environment-specs": "[X]\nenvvar-set VF_A: 1\n"}
        lines = ["[load-env]"]
        argv, paths, cwd = [], {}, os.path.join(mon.dir(), "run")
        for f in FILES:     # files that relative paths would name if they referred to the working directory
            put(cwd, f"{f}.ini", "[zz-decoy]\nzz-decoy\n")
            put(cwd, f"../files/{f}.ini", "[zz-decoy]\nzz-decoy\n")
        for f in FILES:
            w = c["where"][f]
            decoy = put(d, f"ini/decoy-{f}.ini", "[zz-decoy]\nzz-decoy\n")
            if w == "rel":
                paths[f] = put(d, f"ini/{f}.ini", text[f])
                v = f"{f}.ini"
            elif w == "sub":
                paths[f] = put(d, f"files/{f}.ini", text[f])
                v = f"../files/{f}.ini"
            elif w == "abs":
                v = paths[f] = put(d, f"abs/{f}.ini", text[f])
            else:
                paths[f] = put(d, f"cli/{f}.ini", text[f])
                v = decoy
                given = os.path.relpath(paths[f], cwd) if len(c["host"]) % 2 else paths[f]
                argv += [f"--{f}", given] if w == "cli" else [f"--{f}={given}"]
                mon.ev("overridden")
            if c["broken"] and c["broken"][1] == f:
                if c["broken"][0] == "missing":
                    continue
                if c["broken"][0] == "empty":
                    v = ""
                if c["broken"][0] == "novalue":
                    lines.append(f)
                    continue
            lines.append(f"{f} : {v}")
        if c["broken"] and c["broken"][0] == "section":
            lines[0] = "[other]"
        top = put(d, "ini/load-env.ini", "\n".join(lines) + "\n")
        if c["force"]:
            argv.append("--force")
        if len(c["hist"]) % 3 == 0:
            argv.append("--list-envs")
        build = c["hist"][0][1]
        argv.append(build)
        HOST[0] = c["host"]
        LoadEnv = self.le.LoadEnv
        if c["broken"]:
            e = mon.expect_exc(f"top-level file {lines}", ValueError, LoadEnv, argv, top)
            mon.true("rejection-names-the-file", top in str(e) and
                     ("load-env" if c["broken"][0] == "section" else c["broken"][1]) in str(e), f"message {e}")
            mon.ev("top-level-rejected")
            mon.state("broken", tuple(c["broken"]))
            return
        mon.expect_exc("argv must be a list", TypeError, LoadEnv, " ".join(argv), top)
        os.chdir(cwd)       # relative paths in the top-level file refer to that file, on the command line to this
        le = mon.expect_ok("construct", LoadEnv, list(argv), Path(top) if len(build) % 2 else top)
        os.chdir(mon.dir())
        envs = KwModel(c["envs"])
        failed = False
        first = True
        for h in c["hist"]:
            if h[0] == "build":
                if not first:
                    mon.expect_ok("set build name", setattr, le, "build_name", h[1])
                first = False
                build = h[1]
                mon.eq("build name", le.build_name, build, "build-name")
                continue
            if h[0] == "args":
                for f, a in zip(FILES, ("supported_systems_file", "supported_envs_file", "environment_specs_file")):
                    mon.eq(f"file used for {f}", os.path.realpath(str(getattr(le.args, a))), os.path.realpath(paths[f]),
                           "file-used")
                mon.eq("force", bool(le.args.force), c["force"], "force-flag")
                continue
            sysname = system_prediction(c["systems"], build, c["host"], c["force"])
            what = f"{h[0]} for build name {build!r} on {c['host']!r} force={c['force']}"
            if h[0] == "system":
                if sysname is None:
                    mon.expect_exc(what, SystemExit, lambda: le.system_name)
                    mon.ev("rejected")
                    failed = True
                else:
                    mon.eq(what, mon.expect_ok(what, lambda: le.system_name), sysname, "system")
                    mon.ev("system")
                mon.state("system", c["systems"], build, sysname)
                continue
            pred = ("nosys", )
            data = None
            if sysname is not None:
                if sysname not in envs.sections():
                    pred = ("nosec", )
                else:
                    data = envs.data(sysname)
                    pred = env_prediction(data, sysname, build)
            if h[0] == "env":
                if pred[0] != "ok":
                    mon.expect_exc(what, FAIL, lambda: le.parsed_env_name)
                    mon.ev("rejected")
                    failed = True
                else:
                    mon.eq(what, mon.expect_ok(what, lambda: le.parsed_env_name), sysname + "_" + pred[1], "environment")
                    mon.ev("environment")
                    if failed:
                        mon.ev("recovered")
                        failed = False
            elif pred[0] in ("nosys", "nosec", "invalid"):
                mon.expect_exc(what, FAIL, (lambda: le.env_stripped_build_name) if h[0] == "strip" else le.list_envs)
                mon.ev("rejected")
                failed = True
            elif h[0] == "strip":
                drop = set(data) | {a for v in data.values() for a in v}
                low = {s.lower() for s in ini.Model([c["systems"]]).sections() if s != "DEFAULT"}
                want = "_".join(p for p in build.split("_") if p not in drop and p.lower() not in low)
                mon.eq(what, mon.expect_ok(what, lambda: le.env_stripped_build_name), want, "stripped-build-name")
                mon.ev("stripped")
            elif h[0] == "list":
                e = mon.expect_exc(what, SystemExit, le.list_envs)
                mon.true("list-status", e.code in (None, 0), f"{what}: exit status {e.code!r}")
                lines = [ln.lstrip("| ").rstrip() for ln in mon.out.split("\n")]
                for k, v in data.items():
                    for x in [k] + v:
                        mon.true("listed", "- " + x in lines, f"{x!r} is not listed in {mon.out!r}")
                mon.ev("listed")
            mon.state(h[0], c["envs"], build, pred)


# ---------------------------------------------------------------------------

VALS = ["a", "/usr/bin", "~/x", "a:~/y", "two words", "/a:/b", "1", "x=y", "$VF_H1/bin", "${VF_H2}", "'q'", 'd"q', "back\\slash", "*", "é",
        "a;b", "#c", "tick`x`"]
VARS = ["VF_A", "VF_B", "VF_C", "VF_P"]


def gen_specs(rng, sections, p_fail=0.1):
    """environment-specs text; returns (text, kinds of planted failure by section)."""
    secs, bad = [], {}
    support = [f"SUP{i}" for i in range(rng.choice([0, 1, 2]))]
    for s in support + list(sections):
        opts, seen = [], set()
        for _ in range(rng.randrange(1, 6)):
            op = rng.choice(["envvar-set", "envvar-set", "envvar-append", "envvar-prepend", "envvar-unset",
                             "envvar-set-if-empty"])
            k = f"{op} {rng.choice(VARS)}"
            if k in seen:
                continue
            seen.add(k)
            opts.append([k, " : ", None if op == "envvar-unset" else rng.choice(VALS)])
        if s not in support and support and rng.random() < 0.6:
            opts.insert(rng.randrange(len(opts) + 1), [f"use {rng.choice(support)}", "", None])
        if s not in support and rng.random() < p_fail:
            opts.append(["envvar-assert-not-empty VF_NEVER", " : ", "VF_NEVER must be set"])
            bad[s] = "assert"
        secs.append([s, opts])
    return ini.render_file(secs), bad


# names a shell would not take literally without quotes
ODD_ENVS = ["gnu(dbg)", "c++17", "a&b", "$HOME", "x;y", "a|b", "x^2", "a<b", "g*", "~", "b`c`", "{a,b}", "d!e"]


class C27(ToolCheck):
    id = "C27"
    rule = ("random environment specifications behind LoadEnv: apply_env in this process against the sourced script in "
            "a fresh bash, script contents at both places it is written to (new, existing and nested paths), unknown "
            "operations, missing environments and failing assertions; a state is a distinct (specification, "
            "environment, outcome)")
    anchor_files = LE
    quick = 3000
    thorough = 12000
    needs = {"same-environment": 150, "unhandled-rejected": 20, "failed-environment": 20, "main": 50, "listed": 60}
    assumptions = ["values do not contain command substitutions", "modules are not used (see C18, C19)"]

    def gen(self, rng, i):
        sysn = rng.choice(["rhel7", "sys-3"])
        envs = rng.sample(["gnu-7.3.0", "intel-18", "clang", "x-1"] + (ODD_ENVS if rng.random() < 0.3 else []),
                          rng.randrange(1, 4))
        text, bad = gen_specs(rng, [f"{sysn}_{e}" for e in envs])
        target = rng.choice(envs)
        mode = "ok"
        r = rng.random()
        if r < 0.12:
            text += "\n[STRAY]\n" + rng.choice(["unknown-op X: 1\n", "envvar-sett VF_A: 1\n", "plain option\n"])
            mode = "unhandled"
        elif r < 0.2:
            text = text.replace(f"[{sysn}_{target}]", f"[{sysn}_{target}x]")
            mode = "missing"
        elif r < 0.25:
            text += rng.choice(["\n[CYC1]\nuse CYC2\nenvvar-set VF_A: 1\n\n[CYC2]\nuse CYC1\n", "\n[CYC1]\nenvvar-set VF_A: 1\nuse CYC1\n"])
            mode = "cycle"
        elif f"{sysn}_{target}" in bad:
            mode = "assert"
        return dict(system=sysn, envs=envs, target=target, specs=text, mode=mode, via=rng.choice(["api", "api", "main"]),
                    out=rng.choice([None, "new", "nested", "existing", "account"]), twice=rng.random() < 0.3,
                    pre=[[v, rng.choice(VALS[:5])] for v in VARS if rng.random() < 0.4])

    def valid(self, c):
        try:
            m = ini.Model([c["specs"]])
            m.check_domain()
            for s in m.sections():
                if not s.startswith("CYC"):
                    m.expand(s)
        except Exception:
            return False
        name = f"{c['system']}_{c['target']}"
        if c["mode"] == "cycle":
            try:
                m.expand("CYC1")
                return False
            except Exception:
                pass
        if c["mode"] == "unhandled" and not m.expand("STRAY")[0] or c["via"] not in ("api", "main"):
            return False
        return (c["target"] in c["envs"] and (c["mode"] == "missing" or name in m.sections())
                and ((c["mode"] == "unhandled") == ("STRAY" in m.sections())) and c["mode"] in (
                    "ok", "missing", "assert", "unhandled", "cycle"))

    def run(self, c, mon):
        d = mon.dir()
        name = f"{c['system']}_{c['target']}"
        HOST[0] = "host-" + c["system"]
        files = [put(d, "supported-systems.ini", f"[{c['system']}]\nhost-\n"),
                 put(d, "supported-envs.ini", f"[{c['system']}]\n" + "".join(f"{e}:\n  al-{e}\n" for e in c["envs"])),
                 put(d, "environment-specs.ini", c["specs"])]
        top = put(d, "load-env.ini", "[load-env]\n" + "".join(f"{f} : {os.path.basename(p)}\n"
                                                             for f, p in zip(FILES, files)))
        out = None
        old = None
        argv = []
        account = Account()
        if c["out"]:
            out = os.path.join(d, "out", "deep/er" if c["out"] == "nested" else "", "env.sh")
            if c["out"] == "existing":
                old = "export VF_OLD=stale\n"
                put(d, "out/env.sh", old)
            if c["out"] == "account":
                out = os.path.join(account.dir, "mine/env.sh")
            argv += ["--output", out]
        loc = os.path.join(d, "loc.txt")
        if c["via"] == "main":
            for f, p in zip(FILES, files):
                argv += [f"--{f}", p]
            argv += ["--load-matching-env-location", loc]
        argv.append("al-" + c["target"] if len(c["specs"]) % 2 else c["target"])
        for v, x in c["pre"]:
            os.environ[v] = x
        os.environ["VF_H1"] = "home one"
        os.environ["VF_H2"] = "/h/two"
        for v in ("VF_NEVER", "VF_OLD", "LOADED_ENV_NAME"):
            os.environ.pop(v, None)
        with account as acc:
            pre = dict(os.environ)
            what = f"environment {name}"
            if c["via"] == "main":
                start = lambda: self.le.main(argv)
                le = None
            else:
                le = mon.expect_ok("construct", self.le.LoadEnv, argv, top)
                start = le.apply_env
            if c["via"] == "main":
                e = mon.expect_exc("list environments", SystemExit, self.le.main, ["--list-envs"] + argv)
                mon.true("list-status", e.code in (None, 0), f"--list-envs: exit status {e.code!r}")
                for x in c["envs"]:
                    mon.true("listed", f"- {x}" in mon.out and f"- al-{x}" in mon.out, f"{x!r} is not listed in {mon.out!r}")
                mon.eq("environment after listing", dict(os.environ), pre, "unchanged-environment")
                mon.true("no-script-after-listing", not os.path.exists(loc) and not (
                    os.path.isdir(acc.dir) and os.listdir(acc.dir)) and (not out or (
                        open(out).read() == old if old else not os.path.exists(out))), "files written by --list-envs")
                mon.ev("listed")
            if c["mode"] != "ok":
                types_ = {"unhandled": ValueError, "cycle": ValueError, "missing": Exception, "assert": Exception}[c["mode"]]
                mon.expect_exc(f"{what} ({c['mode']})", types_, start)
                if c["mode"] in ("unhandled", "cycle"):
                    mon.eq("environment after a rejected specification", dict(os.environ), pre, "unchanged-environment")
                    mon.ev("unhandled-rejected")
                if le is not None and c["mode"] != "assert":
                    for again, f in (("applied again", start), ("script", le.write_load_matching_env)):
                        mon.expect_exc(f"{what} ({c['mode']}), {again}", types_, f)
                    if c["mode"] != "missing":
                        mon.eq("environment after a rejected specification", dict(os.environ), pre, "unchanged-environment")
                if c["via"] == "main" or c["mode"] in ("unhandled", "cycle"):
                    mon.true("no-script-after-failure", not os.path.exists(loc) and not (
                        os.path.isdir(acc.dir) and os.listdir(acc.dir)), f"{what}: files written after a failure")
                    if out and c["out"] != "existing":
                        mon.true("no-output-after-failure", not os.path.exists(out), f"{what}: {out} written")
                    if c["out"] == "existing":
                        mon.eq("existing script after a failure", open(out).read(), old, "script-kept")
                mon.ev("failed-environment")
                mon.state(c["mode"], c["specs"], name)
                return
            first = None
            if le is not None and len(c["specs"]) % 3 == 0:
                other = mon.expect_ok("construct", self.le.LoadEnv, [argv[-1]], top)
                first = open(str(mon.expect_ok("script without applying", other.write_load_matching_env))).read()
                mon.eq("environment after writing the script", dict(os.environ), pre, "unchanged-environment")
            mon.expect_ok(what, start)
            after = dict(os.environ)
            if le is None:
                mon.ev("main")
                mon.true("validated-message", name in mon.out, f"{what}: printed {mon.out!r}")
                tmp = open(loc).read()
            else:
                for _ in range(2 if c["twice"] else 1):
                    ret = mon.expect_ok("write script", le.write_load_matching_env)
                tmp = str(le.tmp_load_matching_env_file)
                mon.eq("returned path", os.path.realpath(str(ret)), os.path.realpath(out or tmp), "returned-path")
            mon.true("script-in-account-directory", os.path.dirname(tmp) == os.path.realpath(acc.dir) and
                     os.path.isfile(tmp), f"{what}: script at {tmp!r}")
            scripts = [tmp] + ([out] if out else [])
            mon.true("script-written", all(os.path.isfile(s) for s in scripts), f"{what}: not all of {scripts} were written")
            texts = [open(s).read() for s in scripts] + ([first] if first is not None else [])
            mon.true("same-script", len(set(texts)) == 1, f"{what}: the scripts differ: {texts}")
            env = self.source(mon, scripts[-1], pre)
            got = {k: env.get(k) for k in VARS + ["VF_OLD", "LOADED_ENV_NAME"]}
            want = {k: after.get(k) for k in VARS + ["VF_OLD"]}
            want["LOADED_ENV_NAME"] = name
            mon.eq(f"{what}: variables after sourcing the script", got, want, "same-environment")
            mon.ev("same-environment")
            mon.state("ok", c["specs"], name, tuple(map(tuple, c["pre"])))

    def source(self, mon, script, env):
        dump = "import os,json,sys; sys.stdout.write(json.dumps(dict(os.environ)))"
        r = subprocess.run(["/bin/bash", "--norc", "--noprofile", "-c",
                            f'. "$1" >/dev/null 2>&1 || exit 77; exec {sys.executable} -S -c "$2"', "sh", script, dump],
                           env=env, capture_output=True, text=True, timeout=120)
        mon.ev("shell-runs")
        import json
        if r.returncode != 0:
            mon.fail("script-fails", f"sourcing {script} ended with status {r.returncode}: {r.stderr[-300:]}")
        return json.loads(r.stdout)


# ---------------------------------------------------------------------------
#  GenConfig
# ---------------------------------------------------------------------------

def gen_flags(rng):
    words = [w for w in WORDS if w not in ("SELECT-ONE", "g.u", "-")]
    for _ in range(60):
        text = gen_kw(rng, ["configure-flags"], keys=FLAGS, words=words, p_bad=0, types=True, minval=1, p_default=0,
                      p_comment=0.15, nkeys=4)
        m = KwModel(text)
        d = m.data("configure-flags")
        opts = [o for v in d.values() for o in v[1:]]
        if all(len(v) >= 2 and v[0] in TYPES for v in d.values()) and len(set(opts)) == len(opts) and \
                not any(problems(v, list(d)) for v in d.values()):
            return text
    return "[configure-flags]\nuse-mpi: SELECT_ONE\n  mpi\n  no-mpi\n"


def flags_prediction(d, build):
    comps = build.split("_")
    out = ""
    for k, vals in d.items():
        hit = [o for o in vals[1:] if o in comps]
        if vals[0] == "SELECT_ONE" and len(hit) > 1:
            return None
        for o in (sorted(hit) if hit else [vals[1]]):
            out += "_" + o
    return out


def config_prediction(c, build, force):
    """The complete configuration name, or the exception types."""
    f = flags_prediction(KwModel(c["flags"]).data("configure-flags"), build)
    s = system_prediction(c["systems"], build, c["host"], force)
    errs = set()
    if f is None:
        errs.add(ValueError)
    env = None
    if s is None:
        errs.add(SystemExit)
    else:
        m = KwModel(c["envs"])
        if s not in m.sections():
            errs.add(KeyError)
        else:
            r = env_prediction(m.data(s), s, build)
            if r[0] != "ok":
                errs.add(SystemExit)
            else:
                env = s + "_" + r[1]
    return (None, tuple(errs)) if errs else (env + f, ())


def gen_gc(rng):
    names, systems, envs, host = gen_tool(rng, p_bad=0)
    flags = gen_flags(rng)
    c = dict(systems=systems, envs=envs, host=host, flags=flags, force=rng.random() < 0.4)
    fd = KwModel(flags).data("configure-flags")

    def build():
        b = gen_tool_build(rng, names, envs, host)
        for v in fd.values():
            if rng.random() < 0.5:
                b += "_" + rng.choice(v[1:])
            if v[0] == "SELECT_MANY" and rng.random() < 0.4:
                b += "_" + rng.choice(v[1:])
        return b.lstrip("-")

    for _ in range(8):
        c["build"] = build()
        if config_prediction(c, c["build"], c["force"])[0] or rng.random() < 0.1:
            break
    secs = []
    for _ in range(rng.randrange(0, 6)):
        b = build()
        if rng.random() < 0.3:
            b = rng.choice(names) + "_" + b
        p, _e = config_prediction(c, b, True)
        if p is None:
            continue
        r = rng.random()
        if r > 0.93:
            parts = p.split("_")
            rng.shuffle(parts)
            p = rng.choice(["_".join(parts), p + "_extra", p + "_", p.rsplit("_", 1)[0]])
        secs.append(p)
    if rng.random() < 0.06:
        secs.append(build() + "_" + rng.choice(["", "x"]))
    for _ in range(rng.choice([0, 0, 1, 2])):
        secs.append(rng.choice(["SUPPORT", "COMMON_OPTS", "GNU-7", "123"]))
    if secs and rng.random() < 0.1:
        s = rng.choice(secs)
        secs.append(rng.choice([s.swapcase(), s.capitalize(), s.lower(), rng.choice(names) + s]))
    if rng.random() < 0.05 and fd:
        # many configurations of one environment
        p = next((s for s in secs if s.upper() != s), None)
        e = rng.choice(names) + "_" + rng.choice(["a", "b"])
        secs += [f"{e}{k}" for k in range(30)] if p is None or rng.random() < 0.3 else []
        for _ in range(60):
            p, _e = config_prediction(c, build(), True)
            secs += [p] if p else []
    secs = [s for s in dict.fromkeys(secs) if s and "]" not in s and s.strip() == s]
    if secs and rng.random() < 0.15:
        # a build name that is a section itself, or one up to its case
        s = rng.choice(secs)
        c["build"] = rng.choice([s, s, s.swapcase(), s.lower(), s.upper(), s.capitalize()]).lstrip("-")
    rng.shuffle(secs)
    c["specs"] = secs
    return c


def gc_files(c, d, where=None, cwd=None):
    text = {"supported-systems": c["systems"], "supported-envs": c["envs"],
            "environment-specs": "[X]\nenvvar-set VF_A: 1\n", "supported-config-flags": c["flags"],
            "config-specs": "".join(f"[{s}]\nopt-set A: 1\n\n" for s in c["specs"]) or "# none\n"}
    sec = {f: "gen-config" for f in GFILES}
    sec.update({f: "load-env" for f in FILES})
    lines = {"gen-config": [], "load-env": []}
    paths, argv = {}, []
    for f in GFILES + FILES:
        w = (where or {}).get(f, "rel")
        if w == "cli":
            decoy = put(d, f"ini/decoy-{f}.ini", "[zz-decoy]\nzz-decoy: x\n")
            paths[f] = put(d, f"cli/{f}.ini", text[f])
            argv += [f"--{f}", os.path.relpath(paths[f], cwd) if cwd else paths[f]]
            lines[sec[f]].append(f"{f} : {decoy}")
        elif w == "abs":
            paths[f] = put(d, f"abs/{f}.ini", text[f])
            lines[sec[f]].append(f"{f} : {paths[f]}")
        else:
            paths[f] = put(d, f"files/{f}.ini", text[f])
            lines[sec[f]].append(f"{f} : ../files/{f}.ini")
    return lines, paths, argv


def top_text(lines):
    return "".join(f"[{s}]\n" + "\n".join(v) + "\n" for s, v in lines.items())


def validation(c):
    """Exception types the validation of config-specs may raise (empty: valid)."""
    errs = set()
    for s in c["specs"]:
        if s.upper() == s:
            continue
        p, e = config_prediction(c, s, True)
        if p is None:
            errs |= set(e)
        elif p != s:
            errs.add(ValueError)
    return tuple(errs)


class GCCheck(ToolCheck):

    def valid(self, c):
        try:
            d = KwModel(c["flags"]).data("configure-flags")
            opts = [o for v in d.values() for o in v[1:]]
            return (kw_text_ok(c["flags"]) and kw_text_ok(c["envs"]) and bool(d) and bool(c["host"])
                    and bool(ini.Model([c["systems"]]).sections())
                    and all(len(v) >= 2 and v[0] in TYPES and not problems(v, list(d)) for v in d.values())
                    and len(set(opts)) == len(opts) and len(set(c["specs"])) == len(c["specs"])
                    and all(s and "]" not in s and s.strip() == s for s in c["specs"])
                    and not c["build"].startswith("-") and bool(ini.Model(
                        ["".join(f"[{s}]\nopt-set A: 1\n\n" for s in c["specs"])])))
        except Exception:
            return False


class C25(GCCheck):
    id = "C25"
    rule = ("random configurations of GenConfig (five .ini files by relative or absolute path or command line, broken "
            "top-level files, canonical and malformed config-specs sections) and histories of reading the complete "
            "configuration, validating, and generating flags; a state is a distinct (configuration, query, outcome)")
    anchor_files = GC
    quick = 3000
    thorough = 30000
    needs = {"complete": 500, "validated": 400, "invalid-specs": 100, "generated": 300, "top-level-rejected": 80,
             "load-env-args": 100, "configs-listed": 50}
    assumptions = ["build names do not start with a dash",
                   ]

    def gen(self, rng, i):
        c = gen_gc(rng)
        c["where"] = {f: rng.choice(["rel", "rel", "abs", "cli"]) for f in GFILES + FILES}
        c["broken"] = None
        if rng.random() < 0.1:
            c["broken"] = [rng.choice(["section", "missing", "empty", "novalue", "nofile"]),
                           rng.choice(GFILES + FILES)]
        c["hist"] = [rng.choice(["complete", "validate", "flags", "args", "configs", "config-flags", "flags", "validate",
                                 "complete"]) for _ in range(rng.randrange(1, 8))]
        return c

    def run(self, c, mon):
        d = mon.dir()
        cwd = os.path.join(mon.dir(), "run")
        os.makedirs(cwd)
        if len(c["hist"]) % 2:
            for f in GFILES + FILES:     # files that relative paths would name if they referred to the working directory
                put(cwd, f"../files/{f}.ini", "[zz-decoy]\nzz-decoy: x\n")
        lines, paths, argv = gc_files(c, d, c["where"], cwd if len(c["host"]) % 2 else None)
        if c["broken"]:
            kind, f = c["broken"]
            sec = "gen-config" if f in GFILES else "load-env"
            if kind == "section":
                lines["other"] = lines.pop(sec)
            else:
                new = {"missing": [], "empty": [f"{f} :"], "novalue": [f], "nofile": [f"{f} : nothing/there.ini"]}[kind]
                lines[sec] = [x for x in lines[sec] if not x.startswith(f + " ")] + new
        top = put(d, "ini/gen-config.ini", top_text(lines))
        ci = len(c["specs"]) % 2 == 1
        argv = argv + (["--ci-mode"] if ci else []) + (["--force"] if c["force"] else []) + [c["build"]]
        HOST[0] = c["host"]
        StubOptions.calls = []
        StubOptions.options = ["-DX=1", "-DY='a b'", "-DX=2", "-DX=1"]
        GenConfig = self.gc.GenConfig
        mon.expect_exc("argv must be a list", TypeError, GenConfig, " ".join(argv), top)
        os.chdir(cwd)
        g = mon.expect_ok("construct", GenConfig, list(argv), top)
        if c["broken"]:
            e = mon.expect_exc(f"top-level file {lines}", ValueError, lambda: g.args)
            mon.true("rejection-names-the-file", top in str(e), f"message {e}")
            mon.ev("top-level-rejected")
            mon.state("broken", tuple(c["broken"]))
            for h in c["hist"][:2]:
                mon.expect_exc("use of a broken top-level file", ValueError, self.query(g, h))
            mon.eq("options generated", StubOptions.calls, [], "nothing-generated")
            return
        want, errs = config_prediction(c, c["build"], c["force"])
        verrs = validation(c)
        wrong = [(s, config_prediction(c, s, True)[0]) for s in c["specs"] if s.upper() != s]
        wrong = [] if any(y is None for _, y in wrong) else [x for x in wrong if x[0] != x[1]]
        mon.expect_ok("arguments", lambda: g.args)
        os.chdir(mon.dir())
        cached = False
        for h in c["hist"]:
            what = f"{h} for build name {c['build']!r} on {c['host']!r} force={c['force']}"
            f = self.query(g, h)
            if h == "complete":
                if want is None:
                    mon.expect_exc(what, errs, f)
                    mon.ev("rejected")
                else:
                    mon.eq(what, mon.expect_ok(what, f), want, "complete-configuration")
                    mon.ev("complete")
                    cached = True
            elif h == "validate":
                if verrs:
                    e = mon.expect_exc(f"validation of {c['specs']}", verrs, f)
                    for x in wrong:
                        mon.true("invalid-section-named", x[0] in str(e) and x[1] in str(e),
                                 f"section {x[0]!r} (correct: {x[1]!r}) is not in the message {e}")
                    mon.ev("invalid-specs")
                    continue
                mon.expect_ok(f"validation of {c['specs']}", f)
                mon.ev("validated")
            elif h == "flags":
                n = len(StubOptions.calls)
                if verrs or want is None:
                    mon.expect_exc(what, verrs + errs, f)
                    mon.eq("options generated", StubOptions.calls, [], "nothing-generated")
                    mon.ev("invalid-specs" if verrs else "rejected")
                else:
                    got = mon.expect_ok(what, f)
                    mon.eq(what, got, " \\\n    ".join([f"-D{want}:bash"] + StubOptions.options), "generated-flags")
                    mon.true("generated-for-this-configuration",
                             all(x == (want, "bash") for x in StubOptions.calls), f"{StubOptions.calls}")
                    mon.ev("generated")
            elif h == "args":
                got = mon.expect_ok(what, f)
                exp = []
                for k in FILES:
                    exp += [f"--{k} {os.path.realpath(paths[k])}"]
                exp += (["--force"] if c["force"] else []) + (["--ci-mode"] if ci else []) + [c["build"]]
                seen, i = [], 0
                while i < len(got):
                    n = 2 if got[i][2:] in FILES else 1
                    seen.append(" ".join(got[i:i + n]))
                    i += n
                mon.eq(f"load-env arguments {got}", sorted(seen), sorted(exp), "load-env-args")
                for k, a in zip(GFILES, ("supported_config_flags_file", "config_specs_file")):
                    mon.eq(f"file used for {k}", os.path.realpath(str(getattr(g.args, a))), os.path.realpath(paths[k]),
                           "file-used")
                mon.ev("load-env-args")
            elif h == "configs":
                s = system_prediction(c["systems"], c["build"], c["host"], c["force"])
                e = mon.expect_exc(what, SystemExit, f)
                if s is None:
                    mon.true("list-status", e.code not in (None, 0), f"{what}: succeeded without a system")
                else:
                    mon.true("list-status", e.code in (None, 0), f"{what}: exit status {e.code!r}")
                    got = [ln[1:].strip()[2:].strip() for ln in mon.out.split("\n")
                           if ln.startswith("|") and ln[1:].strip().startswith("- ")]
                    mon.eq(what, got, [x for x in c["specs"] if x.startswith(s + "_")], "configs-listed")
                    mon.ev("configs-listed")
            elif h == "config-flags":
                e = mon.expect_exc(what, SystemExit, f)
                exit_names(mon, what, e, [x for k, v in KwModel(c["flags"]).data("configure-flags").items()
                                          for x in [k] + v])
            mon.state(h, c["flags"], c["envs"], c["build"], want, verrs)

    def query(self, g, h):
        return {"complete": lambda: g.complete_config, "validate": lambda: g.validate_config_specs_ini(),
                "flags": lambda: g.generated_config_flags_str, "args": lambda: g.load_env_args,
                "configs": lambda: g.list_configs(), "config-flags": lambda: g.list_config_flags()}[h]

    def valid(self, c):
        return super().valid(c) and all(c["hist"]) and all(h in (
            "complete", "validate", "flags", "args", "configs", "config-flags") for h in c["hist"])


class Answers:
    """Scripted answers for the overwrite prompt; watches the file at every prompt."""

    def __init__(self, answers, watch, mon):
        self.answers, self.i, self.watch, self.mon, self.dirty = list(answers), 0, watch, mon, None

    def __call__(self, prompt=""):
        self.mon.ev("prompts")
        now = self.watch()
        if self.dirty is None:
            self.dirty = now
        a = self.answers[self.i] if self.i < len(self.answers) else "EOF"
        self.i += 1
        if a == "EOF":
            raise EOFError
        if a == "INT":
            raise KeyboardInterrupt
        return a


class C28(GCCheck):
    id = "C28"
    rule = ("random runs that write a CMake fragment over no file, an existing file, nested new directories or a link, "
            "with every kind of answer to the overwrite prompt (yes, no, garbage, empty, end of input, interrupt), "
            "--yes, invalid configurations, and the other outputs of the command line entry point; the monitor "
            "records the file at every prompt; a state is a distinct (target, answers, outcome)")
    anchor_files = GC
    quick = 3200
    thorough = 25000
    level = "exploration"
    needs = {"written": 200, "refused": 60, "reprompted": 60, "kept-on-failure": 20, "args-file": 40, "saved-args": 40, "listed": 60}
    assumptions = []

    def gen(self, rng, i):
        want_bad = rng.random() < 0.12
        for _ in range(30):
            c = gen_gc(rng)
            if bool(config_prediction(c, c["build"], c["force"])[0] and not validation(c)) != want_bad:
                break
        c["target"] = rng.choice(["none", "existing", "existing", "existing", "nested", "link"])
        ans = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            ans.append(rng.choice(["", " ", "maybe", "0", "q", "x y", "1", "\t", " y", " n", "ja", "oui"]))
        ans.append(rng.choice(["y", "Y", "yes", "YES", "yup", "n", "N", "no", "NO", "never", "EOF", "INT"]))
        c["answers"] = ans
        c["yes"] = rng.random() < 0.3
        c["old"] = rng.choice(["", "old content\n", "-DOLD=1"])
        c["opts"] = [rng.choice(["set(A 1)", "set(B \"x y\" CACHE STRING \"\")", "", "é", "multi\nline"])
                     for _ in range(rng.randrange(0, 4))]
        c["via"] = rng.choice(["api", "main", "main-args", "main-flags", "main-list-config-flags", "main-list-configs"]) if rng.random() < 0.5 else "api"
        c["again"] = rng.random() < 0.3
        c["ci"] = rng.random() < 0.3
        return c

    def valid(self, c):
        return super().valid(c) and bool(c["answers"])

    def run(self, c, mon):
        d = mon.dir()
        lines, paths, argv = gc_files(c, d)
        top = put(d, "ini/gen-config.ini", top_text(lines))
        argv = argv + (["--force"] if c["force"] else []) + (["--yes"] if c["yes"] else []) + (["--ci-mode"] if c["ci"] else [])
        target = os.path.join(d, "out", "a/b/c" if c["target"] == "nested" else "", "frag.cmake")
        real = target
        if c["target"] == "existing":
            put(d, "out/frag.cmake", c["old"])
        elif c["target"] == "link":
            real = put(d, "elsewhere/real.cmake", c["old"])
            os.makedirs(os.path.dirname(target))
            os.symlink(real, target)
        bystander = put(d, "out/keep.cmake" if c["target"] != "nested" else "keep.cmake", "keep me")
        exists = os.path.exists(target)
        HOST[0] = c["host"]
        StubOptions.calls = []
        StubOptions.options = list(c["opts"])
        want, errs = config_prediction(c, c["build"], c["force"])
        verrs = validation(c)
        bad = want is None or bool(verrs)

        def content():
            return open(target).read() if os.path.exists(target) else None

        before = content()
        ask = Answers(c["answers"], content, mon)
        old_input = builtins.input
        module = self.gc
        real_class = module.GenConfig
        builtins.input = ask
        try:
            with Account() as acc:
                if c["via"].startswith("main"):
                    module.GenConfig = lambda *a, **k: real_class(*(a + tuple(k.values()))[:1], top)
                if c["via"].startswith("main-"):
                    self.other(c, mon, module, argv, d, acc, want, bad, errs + verrs)
                    return
                argv += ["--cmake-fragment", target, c["build"]]
                g = None
                if c["via"] == "api":
                    g = mon.expect_ok("construct", real_class, argv, top)
                    f = g.write_cmake_fragment
                else:
                    f = lambda: module.main(argv)
                tag, v = mon.call(f)
        finally:
            builtins.input = old_input
            module.GenConfig = real_class
        what = f"fragment over {c['target']} file, answers {c['answers'][:ask.i]}, yes={c['yes']}"
        mon.eq("other files", open(bystander).read(), "keep me", "bystander")
        if ask.i:
            mon.eq(f"{what}: file while prompting", ask.dirty, before, "untouched-until-answered")
        if bad:
            mon.true("fails", tag != "ok", f"{what}: succeeded although the configuration is invalid")
            mon.true("fails-as-specified", isinstance(v, errs + verrs), f"{what}: {v!r}")
            mon.eq(f"{what}: file after a failure", content(), before, "kept-on-failure")
            mon.ev("kept-on-failure")
            return
        fragment = "\n".join([f"-D{want}:cmake_fragment"] + c["opts"])
        # what the answers mean
        verdict, used = "write", 0
        if exists and not c["yes"]:
            verdict = None
            for a in c["answers"]:
                used += 1
                if a in ("EOF", "INT"):
                    verdict = a
                elif a.lower()[:1] == "y":
                    verdict = "write"
                elif a.lower()[:1] == "n":
                    verdict = "keep"
                if verdict:
                    break
            if verdict is None:
                verdict, used = "EOF", len(c["answers"]) + 1
        mon.eq(f"{what}: number of prompts", ask.i, used, "prompts")
        if used > 1:
            mon.ev("reprompted")
        if verdict == "write":
            mon.true("written", tag == "ok", f"{what}: {v!r}")
            if os.path.islink(target):
                mon.ev("link-kept")
            mon.eq(f"{what}: fragment", content(), fragment, "fragment-text")
            mon.eq("calls of the option generator", StubOptions.calls, [(want, "cmake_fragment")], "one-generation")
            mon.ev("written")
            if g is not None:
                mon.eq("returned path", os.path.realpath(str(v)), os.path.realpath(target), "returned-path")
                if c["again"]:
                    mon.eq("second call", os.path.realpath(str(mon.expect_ok("second call", g.write_cmake_fragment))),
                           os.path.realpath(target), "returned-path")
                    mon.eq(f"{what}: fragment after a second call", content(), fragment, "fragment-text")
        else:
            mon.true("not-written", tag != "ok", f"{what}: returned although it was not allowed to write")
            if verdict == "keep":
                mon.true("refusal-status", isinstance(v, SystemExit) and v.code not in (None, 0), f"{what}: {v!r}")
            mon.eq(f"{what}: file", content(), before, "kept")
            mon.ev("refused")
        mon.state(c["target"], tuple(c["answers"][:ask.i]), c["yes"], verdict, fragment)

    def other(self, c, mon, module, argv, d, acc, want, bad, errs):
        if c["via"] == "main-args":
            out = os.path.join(d, "args.txt")
            mon.expect_ok("save load-env arguments", module.main,
                          argv + ["--save-load-env-args", out, c["build"]])
            exp = []
            for k in FILES:
                exp += [f"--{k}", os.path.join(os.path.realpath(d), "files", k + ".ini")]
            mon.eq("saved load-env arguments", open(out).read(),
                   " ".join(exp + (["--force"] if c["force"] else []) + (["--ci-mode"] if c["ci"] else []) + [c["build"]]), "saved-args")
            mon.ev("saved-args")
            mon.state("args", c["build"], c["force"])
            return
        if c["via"].startswith("main-list"):
            e = mon.expect_exc(c["via"], SystemExit, module.main, argv + [c["via"][4:].replace("-list", "--list", 1), c["build"]])
            if c["via"].endswith("flags"):
                exit_names(mon, c["via"], e, [x for k, v in KwModel(c["flags"]).data("configure-flags").items() for x in [k] + v])
            else:
                s = system_prediction(c["systems"], c["build"], c["host"], c["force"])
                mon.true("list-status", (e.code in (None, 0)) == (s is not None), f"{c['via']}: exit status {e.code!r}")
                for x in c["specs"]:
                    if s is not None and x.startswith(s + "_"):
                        mon.true("configs-listed", f"- {x}\n" in mon.out, f"{x!r} is not listed in {mon.out!r}")
            mon.true("nothing-written", not os.path.exists(acc.dir + "/.bash_cmake_args_loc"), "arguments written by a listing")
            mon.eq("options generated", StubOptions.calls, [], "nothing-generated")
            mon.ev("listed")
            return
        tag, v = mon.call(module.main, argv + [c["build"]])
        if bad:
            mon.true("fails", tag != "ok" and isinstance(v, errs), f"{v!r}")
            mon.true("no-location-after-failure", not os.path.exists(acc.dir + "/.bash_cmake_args_loc"), "written")
            return
        mon.true("flags-written", tag == "ok", f"{v!r}")
        loc = open(acc.dir + "/.bash_cmake_args_loc").read()
        mon.eq("directory of the arguments file", os.path.dirname(loc), os.path.realpath(acc.dir), "args-file")
        mon.eq("arguments file", open(loc).read(), " \\\n    ".join([f"-D{want}:bash"] + c["opts"]), "args-file-text")
        mon.ev("args-file")
        mon.state("flags", want, tuple(c["opts"]))


# ---------------------------------------------------------------------------
#  The shell entry points
# ---------------------------------------------------------------------------

STUB_SPO = '''
import os
class SetProgramOptionsCMake:
    def __init__(self, filename=None):
        self.f = os.path.realpath(str(filename))
    def gen_option_list(self, section, generator="bash"):
        if "# no options" in open(self.f).read():
            return []
        return ["-DCFG=" + section, "-DGEN=" + generator, "-DFILE=" + self.f, "-DP:PATH=C:\\\\x\\\\", "-DL:STRING=a;b", "-DE:STRING=", "-GNinja", "-DD=1", "-DD=2", "-DD=1"]
'''
CMAKE_ARGS = ["-DP:PATH=C:\\x\\", "-DL:STRING=a;b", "-DE:STRING=", "-GNinja", "-DD=1", "-DD=2", "-DD=1"]

# Prints the status and the variables of the shell that sourced the tool.  Without CI mode the tool opens a subshell,
# which reads the commands given on standard input.
SHELL = '''
cd "$VF_CWD" || exit 99
set --
SCRIPT="$VF_SCRIPT"
read -r -a ARGS <<< "$VF_ARGS"
vf_local="local value"
RANDOM=$VF_RANDOM
env_file="$VF_KEEP"
load_matching_env_loc="$VF_KEEP"
env -0 > "$VF_DUMP.before"
source "$SCRIPT" "${ARGS[@]}"
VF_RC=$?
env -0 > "$VF_DUMP"
printf "VF_RC=%s\\0VF_PWD=%s\\0VF_LOCAL=%s\\0" "$VF_RC" "$PWD" "$vf_local" > "$VF_DUMP.status"
exit 0
'''

SUBSHELL = '''
env -0 > "$VF_DUMP.sub"
echo sub >> "$VF_DUMP.count"
source "$VF_AGAIN" $VF_ARGS
vf_first=$?
source "$VF_AGAIN" --ci-mode $VF_ARGS
[ $? -ne 0 ] && [ $vf_first -ne 0 ]
printf "VF_RC=%s\\0" "$?" > "$VF_DUMP.again"
env -0 > "$VF_DUMP.sub2"
exit 0
'''


# Run a second session of the same user at a chosen moment of the first one.
NEST = '''
if [ -n "$VF_NEST" ]; then
    vf_n=$(cat "$VF_NEST.n" 2>/dev/null)
    vf_n=$((vf_n + 1))
    echo $vf_n > "$VF_NEST.n"
    if [ $vf_n -eq $VF_NEST_AT ]; then
        /bin/bash "$VF_NEST"
    fi
fi
'''


class C29(ToolCheck):
    id = "C29"
    rule = ("the sourced shell entry points in fresh bash processes: load-env.sh and gen-config.sh in CI mode with "
            "valid, unknown, conflicting and failing configurations, an existing or new account directory, with stand-ins "
            "for cmake that record arguments and environment; a state is a distinct (tool, arguments, outcome)")
    anchor_files = []      # runs in subprocesses
    quick = 480
    thorough = 2500
    needs = {"shell-runs": 200, "loaded": 60, "failed": 40, "configured": 20, "fragment": 10, "subshell": 20, "sessions-interleaved": 40}
    assumptions = ["arguments contain no white space (the scripts do not quote them)"]
    watchdog_s = 600

    def prepare(self):
        from .. import core
        t = self.t = os.path.join(core._base, f"tools{os.getpid()}")
        W = REPO + "/wip"
        ign = shutil.ignore_patterns("__pycache__", "unittests", "tests", "*.pyc")
        os.makedirs(t + "/LoadEnv")
        for s, d in [(W + "/genconfig/gen_config.py", "gen_config.py"), (W + "/genconfig/gen-config.sh", "gen-config.sh"),
                     (W + "/loadenv/load_env.py", "LoadEnv/load_env.py"), (W + "/loadenv/load-env.sh", "LoadEnv/load-env.sh")]:
            shutil.copy(s, os.path.join(t, d))
        for s, d in [(W + "/genconfig/src", "src"), (W + "/loadenv/loadenv", "LoadEnv/loadenv"),
                     (REPO + "/src/configparserenhanced", "configparserenhanced"),
                     (W + "/keywordparser/keywordparser", "keywordparser"),
                     (W + "/determinesystem/determinesystem", "determinesystem"),
                     (W + "/setenvironment/src/setenvironment", "setenvironment")]:
            shutil.copytree(s, os.path.join(t, d), ignore=ign)
        put(t, "setprogramoptions.py", STUB_SPO)
        real = shutil.which("python3", path="/opt/venv/bin:/usr/bin:/bin")
        for name, body in [("sleep", NEST + "exit 0\n"),
                           ("python3", f'{real} "$@"; vf_rc=$?\n{NEST}exit $vf_rc\n'),
                           ("cmake", 'printf "%s\\0" "$@" end >> "$VF_CMAKE"; env -0 > "$VF_CMAKE.env"\n' + NEST + "exit 0\n")]:
            p = put(t, "bin/" + name, "#!/bin/bash\n" + body)
            os.chmod(p, 0o755)

    def gen(self, rng, i, nested=False):
        sysn = rng.choice(["rhel7", "sys-3"])
        envs = rng.sample(["gnu-7.3.0", "intel-18", "clang"], rng.randrange(1, 4))
        tool = "load-env" if i % 2 else "gen-config"
        mode = rng.choice(["ok", "ok", "ok", "ok"] + ["ok", "ok"] * (rng.random() < 0.4) + ["noenv", "assert", "force", "otherhost", "conflict", "badspecs",
                           "usage", "badoption"])
        vals = [rng.choice(["a", "/usr/x", "two words", "x=y", "'q'", 'd"q', "é", "a;b"]) for _ in range(3)]
        c = dict(tool=tool, system=sysn, envs=envs, target=rng.choice(envs), mode=mode, vals=vals,
                    opts=[o for o in ("mpi", "static", "no-hdf5") if rng.random() < 0.4],
                    empty=rng.random() < 0.1, inside=rng.random() < 0.3, relative=rng.random() < 0.25, alias=rng.random() < 0.5,
                    newdir=rng.random() < 0.5, fragment=rng.random() < 0.4, cli=rng.random() < 0.5,
                    existing=rng.random() < 0.3, output=rng.random() < 0.3, inter=rng.random() < 0.35, order=rng.randrange(0, 9),
                    **({} if nested or rng.random() < 0.65 else
                       dict(other=self.gen(rng, i + rng.randrange(2), True), at=rng.choice([1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7] if tool == "gen-config" else [1, 2]),
                            same_cwd=rng.random() < 0.5)))
        if "other" in c and rng.random() < 0.5:
            # two projects, each with files of its own, for which the user asks the same build
            c["other"].update({k: c[k] for k in ("system", "envs", "target", "opts", "alias")})
        return c

    def valid(self, c):
        return (c["tool"] in ("load-env", "gen-config") and c["target"] in c["envs"] and bool(c["system"])
                and len(c["vals"]) == 3 and all(c["vals"]) and all(o in ("mpi", "static", "no-hdf5") for o in c["opts"])
                and c["system"] in ("rhel7", "sys-3")
                and all(e in ("gnu-7.3.0", "intel-18", "clang") for e in c["envs"])
                and (not c.get("other") or self.valid(c["other"])))

    def run(self, c, mon):
        with Account() as acc:
            if not c["newdir"]:
                os.makedirs(acc.dir)
            cwd = mon.dir()
            other = c.get("other")
            if other:
                # both sessions name their files, since the tools have one top-level file
                c = dict(c, cli=True)
                other = dict(other, cli=True)
                cwd2 = cwd if c["same_cwd"] else mon.dir()
                env2, input2, judge2 = self.session(other, mon, acc, cwd2, 77)
                nest = put(mon.dir(), "nest.sh", "cd /; exec env -i " + " ".join(
                    shlex.quote(f"{k}={v}") for k, v in env2.items())
                    + f" /bin/bash --norc --noprofile -c {shlex.quote(SHELL)} <<'VF-INPUT' > \"$VF_NEST.out\" 2>&1\n"
                    + input2 + "\nVF-INPUT\n")
            env, input1, judge = self.session(c, mon, acc, cwd, 11)
            if other:
                env = dict(env, VF_NEST=nest, VF_NEST_AT=str(c["at"]))
            r = subprocess.run(["/bin/bash", "--norc", "--noprofile", "-c", SHELL], env=env, capture_output=True,
                               input=input1.encode(), timeout=300)
            tail = (r.stdout[-700:] + r.stderr[-700:]).decode("utf-8", "replace")
            judge(r.returncode, tail)
            if other and os.path.exists(nest + ".out"):
                mon.ev("sessions-interleaved")
                mon.state("interleaved", c["tool"], other["tool"], c["mode"], other["mode"], c["at"])
                judge2(None, "in session 2: " + open(nest + ".out", errors="replace").read()[-900:])

    def session(self, c, mon, acc, cwd, seed):
        """Files, environment and input of one shell session and the judge of what it did."""
        t, d = self.t, mon.dir()
        mode, tool = c["mode"], c["tool"]
        if tool == "load-env" and mode in ("conflict", "badspecs"):
            mode = "ok"
        name = f"{c['system']}_{c['target']}"
        host = "no-such-host" if mode in ("force", "otherhost") else ".*"
        put(d, "supported-systems.ini", f"[{c['system']}]\n{host}\n")
        put(d, "supported-envs.ini", f"[{c['system']}]\n" + "".join(f"{e}:\n  al-{e}\n" for e in c["envs"]))
        put(d, "environment-specs.ini", "".join(
            f"[{c['system']}_{e}]\nenvvar-set VF_A : {c['vals'][0]}\nenvvar-append VF_P : {c['vals'][1]}\n"
            f"envvar-set VF_E : {e}\n" + ("envvar-assert-not-empty VF_NEVER : gone\n" if mode == "assert" else "") + "\n"
            for e in c["envs"]))
        put(d, "supported-config-flags.ini", "[configure-flags]\nuse-mpi: SELECT_ONE\n  no-mpi\n  mpi\n"
            "lib-type: SELECT_ONE\n  shared\n  static\n"
            "use-hdf5: SELECT_ONE\n  hdf5\n  no-hdf5\n")
        good = "".join(f"[{c['system']}_{e}_{a}_{b}_{h}]\nopt-set A: 1\n" for e in c["envs"] for a in ("no-mpi", "mpi")
                       for b in ("shared", "static") for h in ("hdf5", "no-hdf5"))
        empty = tool == "gen-config" and c["empty"]
        if empty:
            good += "# no options\n"
        if mode == "badspecs":
            good += f"[{name}_static_mpi]\nopt-set A: 1\n"
        put(d, "config-specs.ini", good)

        def flags(complete, kind):
            specs = "-DFILE=" + os.path.realpath(d + "/config-specs.ini")
            return [] if empty else [f"-DCFG={complete}", f"-DGEN={kind}", specs] + CMAKE_ARGS
        complete = f"{name}_{'mpi' if 'mpi' in c['opts'] else 'no-mpi'}_" \
                   f"{'static' if 'static' in c['opts'] else 'shared'}_{'no-hdf5' if 'no-hdf5' in c['opts'] else 'hdf5'}"
        build = "_".join(([c["system"]] if mode in ("force", "otherhost") else []) +
                         [("al-" if c["alias"] else "") + c["target"]] + c["opts"])
        if mode == "noenv":
            build = "nothing-here"
        if mode == "conflict":
            build += "_mpi_no-mpi"
        inter = c["inter"] and mode != "usage"
        args = ([] if inter else ["--ci-mode"]) + (["--force"] if mode == "force" else [])
        # the configuration files may be part of the source directory
        src = os.path.realpath(d) if c["inside"] else os.path.join(d, "source")
        os.makedirs(src, exist_ok=True)
        frag = os.path.join(d, "frag.cmake")
        out = os.path.join(d, "saved.sh")
        ini_text = "[gen-config]\n" + "".join(f"{f} : {d}/{f}.ini\n" for f in GFILES) + \
            "[load-env]\n" + "".join(f"{f} : {d}/{f}.ini\n" for f in FILES)
        put(t, "src/gen-config.ini", ini_text)
        put(t, "LoadEnv/loadenv/load-env.ini", "[load-env]\n" + "".join(f"{f} : {d}/{f}.ini\n" for f in FILES))
        args = [[a] for a in args]
        shown = (lambda p: os.path.relpath(p, cwd)) if c["relative"] else str
        if c["cli"]:
            for f in FILES + (GFILES if tool == "gen-config" else []):
                args += [[f"--{f}", shown(f"{d}/{f}.ini")]]
        want_out = tool == "load-env" and c["output"]
        if tool == "gen-config" and c["fragment"]:
            args += [["--cmake-fragment", shown(frag)]] + ([["--yes"]] if c["existing"] else [])
            if c["existing"]:
                put(d, "frag.cmake", "old")
        if want_out:
            args += [["--output", shown(out)]]
        args.append([build])
        if mode == "badoption":
            args.append([["--no-such-option"], ["--forced"], ["--environment-spec-file", "x"]][len(c["envs"]) - 1])
        # the options and the build name come in any order
        n = len(args)
        args = [args[k] for k in sorted(range(n), key=lambda k: (k * 7 + c["order"]) % n if c["order"] else k)]
        args = [a for g in args for a in g]
        if tool == "gen-config" and not c["fragment"] and mode != "usage":
            args.append(os.path.relpath(src, cwd) if c["relative"] else src)
        if mode == "usage":
            args = []
        fail = mode in ("noenv", "assert", "otherhost", "conflict", "badspecs", "usage", "badoption")
        dump, cm = os.path.join(d, "dump"), os.path.join(d, "cmake.txt")
        keep = put(d, "keep.txt", "keep")
        env = dict(PATH=f"{t}/bin:/opt/venv/bin:/usr/bin:/bin", HOME=d, USER=acc.name, LOGNAME=acc.name, LC_ALL="C.UTF-8",
                   VF_CWD=cwd, VF_SCRIPT=t + ("/LoadEnv/load-env.sh" if tool == "load-env" else "/gen-config.sh"),
                   VF_ARGS=" ".join(args), VF_DUMP=dump, VF_RANDOM=str(seed), VF_CMAKE=cm, VF_P="/first", VF_KEEP=keep,
                   VF_AGAIN=t + "/LoadEnv/load-env.sh")

        def judge(rc, tail):
            mon.ev("shell-runs")
            what = f"{tool} {mode} {' '.join(args)}"
            mon.true("shell-survives", not rc and os.path.exists(dump + ".status"),
                     f"{what}: the sourcing shell ended with {rc}: {tail}")
            before, after, st = read_env(dump + ".before"), read_env(dump), read_env(dump + ".status")
            mon.eq("working directory", os.path.realpath(st.get("VF_PWD", "")), os.path.realpath(cwd), "working-directory")
            mon.eq("variable of the caller", st.get("VF_LOCAL"), "local value", "local-variable")
            mon.eq("files in the working directory", sorted(os.listdir(cwd)), [], "no-litter")
            mon.eq("file of the caller", open(keep).read() if os.path.exists(keep) else None, "keep", "foreign-file")
            if fail:
                mon.true("failure-status", st["VF_RC"] != "0", f"{what}: reported success: {tail}")
                mon.true("no-configuration-after-failure", not os.path.exists(cm), f"{what}: cmake was run")
                mon.true("no-subshell-after-failure", not os.path.exists(dump + ".sub"), f"{what}: a subshell was opened")
                mon.true("no-fragment-after-failure", mode == "assert" or not c["fragment"] or not os.path.exists(frag)
                         or open(frag).read() == "old", f"{what}: the fragment file was written")
                mon.eq(f"{what}: variables", strip_env(after), strip_env(before), "unchanged-environment")
                mon.ev("failed")
                mon.state(tool, mode, c["fragment"], c["newdir"], inter)
                return
            mon.eq(f"{what}: status ({tail})", st["VF_RC"], "0", "status")
            want = {"VF_A": c["vals"][0], "VF_P": "/first:" + c["vals"][1], "VF_E": c["target"], "LOADED_ENV_NAME": name}
            loaded = dict(strip_env(before), **want)
            if inter:
                mon.true("subshell-opened", os.path.exists(dump + ".sub"), f"{what}: no subshell: {tail}")
                sub = read_env(dump + ".sub")
                mon.eq(f"{what}: variables of the subshell", {k: sub.get(k) for k in loaded}, loaded, "loaded-environment")
                mon.eq(f"{what}: variables after the subshell", strip_env(after), strip_env(before), "unchanged-after-subshell")
                mon.eq("subshells", open(dump + ".count").read(), "sub\n", "one-subshell")
                mon.true("second-environment-refused", read_env(dump + ".again").get("VF_RC") == "0",
                         f"{what}: a second environment was loaded in the subshell")
                mon.eq("variables after the refusal", strip_env(read_env(dump + ".sub2")), strip_env(sub), "refusal-changes-nothing")
                mon.ev("subshell")
            else:
                mon.eq(f"{what}: variables", strip_env(after), loaded, "loaded-environment")
            mon.ev("loaded")
            if want_out:
                mon.true("output-script", os.path.exists(out) and f"LOADED_ENV_NAME={name}" in open(out).read(),
                         f"{what}: {out}")
            if tool == "gen-config":
                if c["fragment"]:
                    mon.eq("fragment", open(frag).read() if os.path.exists(frag) else None,
                           "\n".join(flags(complete, "cmake_fragment")), "fragment-text")
                    mon.true("no-cmake-with-fragment", not os.path.exists(cm), "cmake was run")
                    mon.ev("fragment")
                else:
                    mon.true("cmake-run", os.path.exists(cm), f"{what}: cmake was not run: {tail}")
                    got = open(cm).read().split("\0")[:-1]
                    ce = read_env(cm + ".env")
                    if c["relative"] and len(got) > 1:
                        got[-2] = os.path.normpath(os.path.join(ce.get("PWD", "/"), got[-2]))
                    mon.eq("cmake arguments", got, flags(complete, "bash") + [src, "end"],
                           "cmake-arguments")
                    mon.eq("environment of cmake", {k: ce.get(k) for k in loaded}, loaded, "cmake-environment")
                    mon.ev("configured")
            else:
                mon.true("no-cmake", not os.path.exists(cm), f"{what}: cmake was run")
            mon.state(tool, mode, tuple(c["vals"]), build, c["fragment"], c["newdir"], c["cli"], inter)

        return env, SUBSHELL if inter else "", judge


def strip_env(env):
    """Without what the shell itself maintains."""
    return {k: v for k, v in env.items() if k not in ("_", "SHLVL", "PWD", "OLDPWD", "VF_RC")}


def read_env(path):
    out = {}
    with open(path, "rb") as f:
        for e in f.read().split(b"\0"):
            if b"=" in e:
                k, _, v = e.partition(b"=")
                out[k.decode()] = v.decode("utf-8", "replace")
    return out
