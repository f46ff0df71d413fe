"""Checks of SetEnvironment: action lists, apply(), generated scripts, module commands."""
import os
import stat
import subprocess
import sys

from .. import core, ini
from ..core import Check, describe, StepBudget, Watchdog
from ..ini import Raised

SRC = ["wip/setenvironment/src/setenvironment/SetEnvironment.py"]
HELPER = ["wip/setenvironment/src/setenvironment/ModuleHelper.py"]

ENV_OPS = ["envvar_append", "envvar_assert_not_empty", "envvar_find_in_path", "envvar_prepend", "envvar_remove",
           "envvar_remove_path_entry", "envvar_remove_substr", "envvar_set", "envvar_set_if_empty", "envvar_unset"]
MOD_OPS = ["module_load", "module_purge", "module_remove", "module_swap", "module_unload", "module_use"]
KNOWN_OPS = set(ENV_OPS + MOD_OPS)

NAMES = ["VF_A", "VF_B", "VF_AB", "VF_A_B", "vf_low", "VF_P", "VF_Q1", "VF_a", "VF_LOW"]
FIXED = {"VF_H1": "home one", "VF_H2": "/h/two"}        # always set, never modified
SIMPLE = ["a", "b", "/a", "/b", "/a/b", "/a:/b", "/a:/b:/a", "/b:/a", "1", "/1:/a:/1", "x1", "/a:/a:/b", "ab", "A_b",
          "/b:/a:/a", "B", "/opt/x", "1:/a", "aa", "/a:/ab:/a/b", ":/a", "/a:"]
HOSTILE = ["v", "two words", 'dq"in"side', "'sq'", "back\\slash", "\\", "tick`date`", "a\nb", "per%%cent", "é中",
           "$VF_H1", "${VF_H1}", "${VF_H2}/x", "pre$VF_H1 post", "\\$VF_H2", "a;b", "a&b|c", "#c", "!x", "*", "~", "{a,b}",
           "(x)", "<y>", "tab\tx", "=x", "a=b", "-n", "--", "\"", "\\n", "\\\"", "x\\", "${VF_H1}${VF_H2}",
           "$VF_H1:$VF_H2", "'", "a'b\"c`d\\e", "%%s %%d {} {0}", "x" * 200, "1", "0", "None", "\\`", "\\\\", "a  b",
           "\\x41", "\\u0041", "C:\\new\\table", "[a]", "?", "^", "@", ",", "+", "/",
           "~/x", "~root", "a:~/b", "~+", "!!", "!$", "&", ";", "[[", "a,b", "%%VF_H1%%", "\U0001f600 \U00010348", "\U0001f600",
           "long " * 900 + "end", "\x7f", "\u00a0", "\u200b", "e\u0301", "\ufeffx",
           "a\u2028b", "a\x85b", "a\x0cb", "a\x0bb\x1cc", '" lead"', '"trail "', '"x\ny', '"x\n"', '"a:b"', "x\\ny\\tz"]
PYONLY = ["$VF_UNSET", "${VF_UNSET}/y", "$", "$$", "a$", "$5", "${", "${}", "$VF_A", "${VF_B}", "$(x)", "$VF_A:$VF_B"]
MODULES = ["gcc", "boost", "openmpi", "cmake", "gcc-libs", "cc", "GCC", "a/gcc"]
VERS = ["7.3.0", "1.10", "4.8.4", "9", None, "", "2021-a", "1.2+x", "4.0-gcc", "gcc/7", "default", "None", "0", "gcc", "boost"]
USEDIRS = ["/mods/one", "/mods/two", "rel/mods", "/opt/gcc/mods", "gcc"]


def spell(rng, op, name, used):
    """A key for `op name` that is not yet used in this section."""
    for _ in range(30):
        o = op.replace("_", "-") if rng.random() < 0.8 else op
        if rng.random() < 0.1:
            o = "".join("-" if ch == "_" and rng.random() < 0.5 else ch for ch in op)
        gap = rng.choice([" ", " ", " ", "  ", "   ", "\t"])
        n = rng.choice([name, name, name, f'"{name}"', f"'{name}'"]) if name else ""
        k = (o + gap + n).strip() if name else o
        if rng.random() < 0.05:
            k += " extra"
        if k not in used:
            used.add(k)
            return k
    return None


def gen_env(rng, values, ops, names=NAMES, modules=False, nsec=None, maxops=7, extra_keys=True):
    """Sections with environment operations and use links."""
    nsec = nsec or rng.choice([1, 1, 2, 3, 4])
    secs = []
    names = rng.sample(names, rng.choice([1, 2, 3, len(names)]))
    for i in range(nsec):
        used, opts = set(), []
        for _ in range(rng.randrange(1, maxops + 1)):
            if modules and rng.random() < 0.5:
                op = rng.choice(MOD_OPS)
                m = rng.choice(MODULES)
                if op == "module_purge":
                    k, v = spell(rng, op, "", used), rng.choice([None, ""])
                elif op == "module_use":
                    k, v = spell(rng, op, "", used), rng.choice(USEDIRS)
                elif op == "module_load":
                    k, v = spell(rng, op, m, used), rng.choice(VERS)
                elif op == "module_swap":
                    k, v = spell(rng, op, m, used), rng.choice(MODULES) + rng.choice(["", "/1.0", "/7.3.0"])
                else:
                    k, v = spell(rng, op, m, used), rng.choice([None, ""])
            else:
                op = rng.choice(ops)
                k = spell(rng, op, rng.choice(names), used)
                if op in ("envvar_unset", "envvar_remove", "envvar_assert_not_empty"):
                    v = rng.choice([None, None, "", "message text", rng.choice(values)])
                elif op == "envvar_find_in_path":
                    v = rng.choice(["vf_tool", "vf_tool2", "vf_none", "vf_both", "$VF_TOOLNAME"])
                elif op in ("envvar_remove_substr", "envvar_remove_path_entry") and rng.random() < 0.9:
                    v = rng.choice(SIMPLE)
                else:
                    v = rng.choice(values)
                    if rng.random() < 0.06:
                        v = ""
            if k is None:
                continue
            opts.append([k, ini.sep_for(rng), v])
        if extra_keys and rng.random() < 0.3:
            opts.append([rng.choice(["plain key", "key1", "envvar-xyz FOO", "module-xyz a", "module x"]), " : ", "v"])
        for t in range(i + 1, nsec):
            if rng.random() < 0.45:
                opts.insert(rng.randrange(len(opts) + 1), [f"use S{t}", "", None])
        secs.append([f"S{i}", opts])
    if rng.random() < 0.12:
        secs.append(["DEFAULT", [["envvar-set VF_P", ":", "dflt"]]])
    rng.shuffle(secs)
    return secs


def prefixed_path(env, d):
    env["PATH"] = d + "/bin1:" + d + "/bin2:/usr/bin:/bin"


def make_tools(d):
    for b, names in (("bin1", ["vf_tool", "vf_both"]), ("bin2", ["vf_tool2", "vf_both"]), ("bin3", ["vf_none"])):
        os.makedirs(os.path.join(d, b))
        for n in names:
            p = os.path.join(d, b, n)
            with open(p, "w") as f:
                f.write("#!/bin/sh\n")
            os.chmod(p, 0o755)


def which(name, path):
    if not name:
        return ""
    for d in path.split(":"):
        p = os.path.join(d, name)
        if os.path.isfile(p):
            return p
    return ""


def expand(v, env):
    """POSIX style $NAME / ${NAME} expansion; unknown variables are left alone."""
    import re

    def sub(m):
        n = m.group(1)
        if n.startswith("{"):
            n = n[1:-1]
        return env.get(n, m.group(0))
    return re.sub(r"\$(\w+|\{[^}]*\})", sub, v, flags=re.ASCII)


def actions_of(model, sec, ecl=4):
    """Reference action list: fold the trace of the operations."""
    data, trace, cyc = model.expand(sec, handled=KNOWN_OPS | {"use"}, ecl=ecl)
    acts = []
    for e in trace:
        if e["kind"] != "op":
            continue
        op, val = e["op"], e["value"]
        name = e["params"][0] if e["params"] else None
        if op == "envvar_remove":
            acts = [a for a in acts if a.get("envvar") != name]
        elif op == "module_remove":
            acts = [a for a in acts if "module" not in a or not (
                a["module"] == name or (a["op"] == "module_swap" and ((a["value"] or "") == name or
                                                      (a["value"] or "").startswith(name + "/"))))]
        elif op.startswith("envvar"):
            if op == "envvar_assert_not_empty" and val is None:
                val = ""
            acts.append(dict(op=op, envvar=name, value=val))
        else:
            acts.append(dict(op=op, module=name, value=val))
    return acts


class Stop(Exception):
    pass


def ref_step(env, a):
    """Reference semantics of one environment action; raises Stop on a failed assertion."""
    op, n, v = a["op"][7:], a["envvar"], a["value"]
    if op == "unset":
        env.pop(n, None)
        return
    v = expand(v, env)
    if op == "set":
        env[n] = v
    elif op == "set_if_empty":
        if not env.get(n):
            env[n] = v
    elif op == "append":
        env[n] = env[n] + ":" + v if n in env else v
    elif op == "prepend":
        env[n] = v + ":" + env[n] if n in env else v
    elif op == "remove_substr":
        if n in env:
            env[n] = env[n].replace(v, "")
    elif op == "remove_path_entry":
        if n in env:
            env[n] = ":".join(x for x in env[n].split(":") if x != v)
    elif op == "find_in_path":
        env[n] = which(v, env["PATH"])
    elif op == "assert_not_empty":
        if not env.get(n):
            raise Stop(v)
    else:
        raise AssertionError(op)


def ref_apply(env, acts):
    env = dict(env)
    for k, a in enumerate(acts):
        try:
            ref_step(env, a)
        except Stop as e:
            return "stop", env, k, str(e)
    return "ok", env, len(acts), ""


def start_env(c, d):
    """Install the case's initial environment in os.environ; returns a copy."""
    os.environ.update(FIXED)
    os.environ["VF_TOOLNAME"] = "vf_both"
    for k, v in c["init"]:
        os.environ[k] = v
    prefixed_path(os.environ, d)
    return dict(os.environ)


def reset_env(env):
    for k in list(os.environ):
        if k not in env:
            del os.environ[k]
    for k, v in env.items():
        if os.environ.get(k) != v:
            os.environ[k] = v


def gen_init(rng, values):
    vals = [v.replace("%%", "%") for v in values] + ["", ""]
    return [[n, rng.choice(vals)] for n in NAMES if rng.random() < 0.5]


def envdiff(got, want):
    return {k: (got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)}


def compare_env(mon, what, got, want, mech="environment"):
    mon.ev("oracle:" + mech)
    if got != want:
        mon.fail(mech, f"{what}: variables differ (observed, expected): {envdiff(got, want)!r}")


def se_class():
    from setenvironment import SetEnvironment
    return SetEnvironment


def valid_env(c):
    try:
        m = ini.Model([ini.render_file(c["secs"])])
        m.check_domain()
        for s in m.sections():
            for a in actions_of(m, s):
                if "envvar" in a:
                    if a["envvar"] is None:
                        return False
                    if a["value"] is None and a["op"] != "envvar_unset":
                        return False
                    if not a["envvar"].isidentifier():
                        return False
                else:
                    if a["op"] in ("module_load", "module_unload", "module_swap") and not a["module"]:
                        return False
                    if a["op"] in ("module_swap", "module_use") and not a["value"]:
                        return False
            for e in m.expand(s, handled=KNOWN_OPS | {"use"})[1]:
                if e["kind"] == "op" and e["op"] in ("module_remove", "envvar_remove"):
                    if not e["params"] or (e["op"] == "module_remove" and e["params"][0] not in MODULES):
                        return False
        return True
    except Exception:
        return False


ASSUME = ["environment operations name a variable and have a value where they need one",
          "option keys tokenise under POSIX shell quoting rules"]


class C14(Check):
    id = "C14"
    rule = ("random sections with every environment and module operation, removals, use links and a "
            "default section; the action list (in file order, removals applied to what came before) is "
            "compared with the reference fold, repeatedly and after other sections were parsed; a state "
            "is a distinct action list of at least two actions")
    anchor_files = SRC
    quick = 12000
    thorough = 120000
    needs = {"oracle:actions": 10000, "removal": 1500, "module": 3000}
    assumptions = ASSUME

    def prepare(self):
        se_class()

    def gen(self, rng, i):
        for _ in range(60):
            secs = gen_env(rng, HOSTILE + PYONLY, ENV_OPS + ["envvar_remove"] * 2, modules=rng.random() < 0.7)
            c = dict(secs=secs, order=[rng.randrange(5) for _ in range(rng.randrange(1, 6))],
                     how=[rng.randrange(5) for _ in range(6)])
            if self.valid(c):
                return c
        raise RuntimeError("no case")

    def valid(self, c):
        return valid_env(c)

    def run(self, c, mon):
        text = ini.render_file(c["secs"])
        model = ini.Model([text])
        secs = model.sections()
        p = ini.write_files(mon.dir(), [text])[0]
        obj = mon.expect_ok("construct", se_class(), p)
        mon.eq("actions before parsing", dict(obj.actions), {}, "actions")
        env0 = dict(os.environ)
        done = set()
        for j, o in enumerate(c["order"]):
            s = secs[o % len(secs)]
            want = actions_of(model, s)
            h = c["how"][j % len(c["how"])] if c["how"] else 0
            if h == 0:
                mon.expect_ok("parse_section", obj.parse_section, s)
            elif h == 1:
                mon.expect_ok("read section", lambda: obj.configparserenhanceddata[s])
            elif h == 2:
                mon.expect_ok("generate", obj.generate_actions_script, s, interp="python")
            elif h == 3:
                mon.expect_ok("pretty print", obj.pretty_print_actions, s)
            else:
                mon.expect_ok("parse all", obj.parse_all_sections)
                done |= set(secs)
            done.add(s)
            got = mon.expect_ok("actions", lambda: obj.actions)
            mon.eq("sections with actions", set(got), done, "action-sections")
            for s2 in done:
                mon.eq(f"actions of {s2!r}", [dict(a) for a in got[s2]], actions_of(model, s2), "actions")
            if len(want) > 1:
                mon.state(want)
            mon.ev("module", sum(1 for a in want if "module" in a))
            raw = model.expand(s, handled=KNOWN_OPS | {"use"})[1]
            mon.ev("removal", sum(1 for e in raw if e["kind"] == "op" and e["op"].endswith("_remove")))
            # the generic data holds exactly the options that are no operations
            data = model.expand(s, handled=KNOWN_OPS | {"use"})[0]
            mon.eq(f"generic options of {s!r}", dict(obj.configparserenhanceddata[s]), data, "generic")
            if h == 3 or j == 0:
                # the printed list shows every action once, in order
                mon.expect_ok("pretty print", obj.pretty_print_actions, s)
                out, pos = mon.out, 0
                ops = [ln.split()[1] for ln in out.splitlines() if ln.startswith("--> ")]
                if not any("-->" in (a["value"] or "") for a in want):
                    mon.eq(f"printed operations of {s!r}", ops, [a["op"] for a in want], "pretty-print")
                for a in want:
                    show = a.get("envvar") or (a.get("module") if a["op"] not in ("module_purge", "module_use")
                                               else "")
                    pos2 = out.find(show or a["op"], out.find(a["op"], pos))
                    mon.true("pretty-print", pos2 >= 0, f"{a} is missing in {out!r}")
                    pos = out.find(a["op"], pos) + 1
        mon.eq("environment after parsing", dict(os.environ), env0, "environment-untouched")


class C15(Check):
    id = "C15"
    rule = ("random action lists over hostile values and random initial environments applied to the "
            "process environment of a worker; the complete environment afterwards is compared with a "
            "reference interpreter, one to three applications in a row, including aborts by failed "
            "assertions; a state is a distinct (action list, resulting variables) that changed something")
    anchor_files = SRC
    quick = 16000
    thorough = 160000
    needs = {"oracle:environment": 8000, "assert-stop": 300, "found": 100, "not-found": 100}
    assumptions = ASSUME + ["the executable searched for is not a file in the current directory"]

    OPS = ENV_OPS
    VALUES = HOSTILE + PYONLY + SIMPLE

    def prepare(self):
        se_class()

    def gen(self, rng, i):
        for _ in range(60):
            ops = self.OPS if rng.random() < 0.6 else [o for o in self.OPS if "assert" not in o]
            if rng.random() < 0.3:
                ops = rng.sample(ops, 3)
            secs = gen_env(rng, rng.choice([self.VALUES, SIMPLE, self.VALUES]), ops)
            if rng.random() < 0.2:
                s = rng.choice(secs)
                s[1].append(rng.choice([["envvar-prepend PATH", ":", "@D@/bin3"], ["envvar-append PATH", ":", "@D@/bin3"]]))
            c = dict(secs=secs, init=gen_init(rng, self.VALUES), times=rng.choice([1, 1, 1, 2, 3]),
                     sec=rng.randrange(4), ecl=rng.choice([4, 4, 0, 1, 5]), pre=rng.randrange(4))
            if self.valid(c):
                return c
        raise RuntimeError("no case")

    def valid(self, c):
        return valid_env(c) and all("\x00" not in v for _, v in c["init"])

    def setup(self, c, mon):
        d = mon.dir()
        make_tools(d)
        text = ini.render_file(c["secs"]).replace("@D@", d)
        model = ini.Model([text])
        p = ini.write_files(d, [text])[0]
        obj = mon.expect_ok("construct", se_class(), p)
        obj.exception_control_level = c.get("ecl", 4)
        secs = model.sections()
        s = secs[c["sec"] % len(secs)]
        return d, model, obj, s, actions_of(model, s)

    def run(self, c, mon):
        d, model, obj, s, acts = self.setup(c, mon)
        env = start_env(c, d)
        if c["pre"] == 1:
            mon.call(obj.parse_all_sections)
        elif c["pre"] == 2:
            mon.expect_ok("generate", obj.generate_actions_script, s, interp="python")
        elif c["pre"] == 3:
            mon.expect_exc("apply an unknown section", KeyError, obj.apply, "no such section")
        compare_env(mon, "before apply", dict(os.environ), env)
        for t in range(c["times"]):
            kind, want, k, msg = ref_apply(env, acts)
            tag, v = mon.call(obj.apply, s)
            if kind == "ok":
                if tag != "ok":
                    mon.fail("unexpected-exception", f"apply({s!r}) of {acts}: {describe(v)}")
                mon.eq("return value of apply", v, 0, "return-value")
            else:
                mon.true("assert-raises", tag == "exc" and isinstance(v, ValueError),
                         f"action {acts[k]} should fail apply, observed {v!r}")
                if msg:
                    mon.true("assert-message", msg in str(v), f"message {str(v)!r} should be {msg!r}")
                mon.ev("assert-stop")
            compare_env(mon, f"after apply #{t + 1} of {acts}", dict(os.environ), want)
            for a in acts[:k]:
                if a["op"] == "envvar_find_in_path":
                    mon.ev("found" if want.get(a["envvar"]) else "not-found")
            if want != env:
                mon.state(acts, envdiff(want, env).__repr__().replace(d, ""))
            env = want
        mon.eq("actions after apply", [dict(a) for a in obj.actions[s]], acts, "actions-unchanged")


class C16(C15):
    id = "C16"
    rule = ("random action lists and environments as for apply; the generated Python script (with and "
            "without header/shebang, from a string or written to a file, sometimes in a fresh "
            "interpreter) is executed from the same starting environment and the complete resulting "
            "environment and failure are compared with apply; a state is a distinct (action list, "
            "resulting variables) that changed something")
    quick = 8000
    thorough = 80000
    needs = {"oracle:script-environment": 4000, "assert-stop": 150, "subprocess": 20}

    def gen(self, rng, i):
        c = super().gen(rng, i)
        c["mode"] = "sub" if i % 100 == 0 else rng.choice(["full", "noshebang", "split", "file"])
        c["times"] = rng.choice([1, 1, 2])
        return c

    def run(self, c, mon):
        d, model, obj, s, acts = self.setup(c, mon)
        env = start_env(c, d)
        kind, want, k, msg = ref_apply(env, acts)
        tag, v = mon.call(obj.apply, s)
        after_apply = dict(os.environ)
        mon.true("apply-outcome", (tag == "ok") == (kind == "ok"), f"apply of {acts}: {v!r}")
        compare_env(mon, f"apply of {acts}", after_apply, want)
        reset_env(env)
        g = lambda **kw: mon.expect_ok("generate", obj.generate_actions_script, s, interp="python", **kw)
        mode = c["mode"]
        if mode == "split":
            script = g(incl_body=False) + g(incl_hdr=False, incl_shebang=False)
        elif mode == "noshebang":
            script = g(incl_shebang=False)
        elif mode in ("file", "sub"):
            p = os.path.join(d, "script.py")
            mon.eq("write", mon.expect_ok("write", obj.write_actions_to_file, p, s, interpreter="python"), 0, "write")
            with open(p, encoding="utf-8") as f:
                script = f.read()
        else:
            script = g()
        compare_env(mon, "environment after generating", dict(os.environ), env, "environment-untouched")
        try:
            code = compile(script, os.path.join(d, "generated.py"), "exec")
        except (SyntaxError, ValueError) as e:
            mon.fail("script-syntax", f"the generated script does not compile: {e}")
        cur, sub = env, mode == "sub"
        for _ in range(1 if sub else c["times"]):
            kind, want, k, msg = ref_apply(cur, acts)
            if sub:
                mon.ev("subprocess")
                out = os.path.join(d, "out.json")
                p2 = os.path.join(d, "run.py")
                with open(p2, "w", encoding="utf-8") as f:
                    f.write("import atexit, os, json\n"
                            f"atexit.register(lambda: json.dump(dict(os.environ), open({out!r}, 'w')))\n" + script)
                r = subprocess.run([sys.executable, "-W", "ignore", p2], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   cwd=os.getcwd(), timeout=120)
                import json
                with open(out) as f:
                    got = json.load(f)
                failed = r.returncode != 0
                detail = r.stderr.decode()[-300:]
            else:
                def go():
                    exec(code, {"__name__": "__main__"})
                tag, v = mon.call(go)
                failed, detail = tag != "ok", repr(v)
                if failed and kind == "stop":
                    mon.true("script-exception", isinstance(v, ValueError), f"{describe(v)}")
                got = dict(os.environ)
            mon.true("script-outcome", failed == (kind != "ok"),
                     f"script of {acts}: failed={failed} ({detail}), apply: {kind}")
            if kind != "ok":
                mon.ev("assert-stop")
            compare_env(mon, f"script of {acts} vs apply", got, want, "script-environment")
            if want != env:
                mon.state(acts, envdiff(want, env).__repr__().replace(d, ""))
            cur = want


# ---------------------------------------------------------------------------
#  bash
# ---------------------------------------------------------------------------

WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_/:")


def simple_word(s):
    return all(ch in WORD for ch in s)


def bash_domain(env, acts):
    """True if every $ in a value refers to a variable set at that point."""
    import re
    env = dict(env)
    for a in acts:
        if "envvar" not in a:
            continue
        v = a["value"] or ""
        if a["op"] not in ("envvar_unset", ):
            rest = re.sub(r"\$(?:\{([A-Za-z_]\w*)\}|([A-Za-z_]\w*))",
                          lambda m: "" if (m.group(1) or m.group(2)) in env else "$", v, flags=re.ASCII)
            if "$" in rest:
                return False
        try:
            ref_step(env, a)
        except Stop:
            return True
    return True


# The removal helpers of the script header as the reference files of the existing tests have them.
PINNED = r'''
envvar_remove_substr() {
    local envvar=${1:?}
    local substr=${2:?}
    if [[ "${substr}" == *"#"* ]]; then
        return
    fi
    export ${envvar}=$(echo ${!envvar} | sed s#${substr}##g)
}
envvar_remove_path_entry() {
    local envvar=${1:?}
    local to_remove=${2:?}
    local new_value=${!envvar}
    new_value=:${new_value}:
    new_value=${new_value//:${to_remove}:/:}
    new_value=${new_value#:1}
    new_value=${new_value%:1}
    export ${envvar}=${new_value}
}
envvar_$1 $2 "$3"
set -- $?
/usr/bin/env -0
exit $1
'''


def pinned_removal(env, op, n, v):
    r = subprocess.run(["/bin/bash", "-c", PINNED, "bash", op, n, v], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       timeout=60)
    got = dict(x.split("=", 1) for x in r.stdout.decode("utf-8", "surrogateescape").split("\0") if "=" in x)
    for x in ("_", "SHLVL", "PWD", "OLDPWD"):
        got.pop(x, None)
    return got, r.returncode


def ref_bash(env, acts):
    """The documented semantics with the listed deviations of the bash helpers.

    Returns (env, status, deviations, number of environment actions before
    the end)."""
    env, mechs = dict(env), set()
    rc = 0      # status of the last removal, which is the status of a script that ends with it
    for k, a in enumerate([a for a in acts if "envvar" in a]):
        rc = 0
        op, n = a["op"][7:], a["envvar"]
        v = expand(a["value"] or "", env) if op != "unset" else ""
        if op in ("append", "prepend", "remove_substr", "remove_path_entry", "find_in_path") and v == "":
            mechs.add("bash-empty-value")
            return env, "stop", mechs, k
        if op in ("remove_path_entry", "remove_substr") and not (simple_word(v) and simple_word(env.get(n, ""))):
            want = dict(env)
            ref_step(want, a)
            for x in ("_", "SHLVL", "PWD", "OLDPWD"):
                want.pop(x, None)
            env, rc = pinned_removal(env, op, n, v)
            if env != want or rc:
                mechs.add("bash-removal-of-special-characters")
            continue
        if op == "remove_path_entry":
            x = (":" + env.get(n, "") + ":").replace(":" + v + ":", ":")
            if x.startswith(":1"):
                x = x[2:]
            if x.endswith(":1"):
                x = x[:-2]
            if env.get(n) is None or x != ":".join(y for y in env[n].split(":") if y != v):
                mechs.add("bash-remove-path-entry")
            env[n] = x
            continue
        if op == "remove_substr":
            if n not in env:
                mechs.add("bash-remove-substr-unset")
            env[n] = env.get(n, "").replace(v, "")
            continue
        try:
            ref_step(env, a)
        except Stop:
            return env, "stop", mechs, k
    return env, "stop" if rc and "envvar" in acts[-1] else "ok", mechs, 10**9


def module_words(a):
    op = a["op"][7:]
    if op == "purge":
        return [op]
    if op == "use":
        return [op, a["value"]]
    if op == "load":
        return [op, a["module"] + ("/" + a["value"] if a["value"] else "")]
    if op == "unload":
        return [op, a["module"]]
    return [op, a["module"], a["value"]]


class C17(C15):
    id = "C17"
    rule = ("random action lists, environments and module operations; the generated bash script (whole, or "
            "header and body sourced separately) is run by bash from the same starting environment and the "
            "final exported environment, exit status and sequence of module commands are compared with "
            "what apply does; a state is a distinct (action list, resulting variables) that changed something")
    quick = 7000
    thorough = 60000
    needs = {"oracle:script-environment": 2500, "assert-stop": 100, "module-command": 800}
    assumptions = ASSUME + [
        "values refer to variables ($NAME, ${NAME}) only when those are set at that point",
        "variables do not have the names of the helper functions' own local variables",
        "module names, versions and paths are plain words (the script does not quote them)",
        "listed deviations of the bash helpers are known findings and are predicted exactly"]

    def gen(self, rng, i):
        for _ in range(80):
            ops = [o for o in ENV_OPS if o not in ("envvar_remove_substr", "envvar_remove_path_entry")]
            vals = HOSTILE
            r = rng.random()
            if r < 0.3:
                ops, vals = ENV_OPS, SIMPLE
            elif r < 0.4:
                ops = ENV_OPS
            elif r < 0.6:
                ops = [o for o in ops if "assert" not in o]
            secs = gen_env(rng, vals, ops, modules=rng.random() < 0.3)
            if rng.random() < 0.2:
                s = rng.choice(secs)
                s[1].append(rng.choice([["envvar-prepend PATH", ":", "@D@/bin3"], ["envvar-append PATH", ":", "@D@/bin3"]]))
            c = dict(secs=secs, init=gen_init(rng, vals), sec=rng.randrange(4), mode=rng.randrange(4), ecl=4)
            if self.valid(c):
                return c
        raise RuntimeError("no case")

    def run(self, c, mon):
        d, model, obj, s, acts = self.setup(c, mon)
        env = start_env(c, d)
        if not bash_domain(env, acts):
            mon.ev("outside-domain")
            return
        kind, want, k, msg = ref_apply(env, [a for a in acts if "envvar" in a])
        if not any("module" in a for a in acts):
            tag, v = mon.call(obj.apply, s)
            mon.true("apply-outcome", (tag == "ok") == (kind == "ok"), f"apply of {acts}: {v!r}")
            compare_env(mon, f"apply of {acts}", dict(os.environ), want)
            reset_env(env)
        g = lambda **kw: mon.expect_ok("generate", obj.generate_actions_script, s, interp="bash", **kw)
        run = os.path.join(d, "run.sh")
        pre = ("trap '/usr/bin/env -0 >&3' EXIT\n"
               "module() { printf '%s\\0' \"$@\" >> \"$VF_MODLOG\"; printf '\\1\\0' >> \"$VF_MODLOG\"; }\n")
        with open(run, "w", encoding="utf-8") as f:
            f.write(pre)
            if c["mode"] == 0:
                f.write(g())
            elif c["mode"] == 1:
                f.write(g(incl_shebang=False))
            else:
                h, b = os.path.join(d, "h.sh"), os.path.join(d, "b.sh")
                mon.expect_ok("write", obj.write_actions_to_file, h, s, include_body=False)
                mon.expect_ok("write", obj.write_actions_to_file, b, s, include_header=False,
                              include_shebang=bool(c["mode"] % 2))
                f.write(f". {h}\n. {b}\n")
        compare_env(mon, "environment after generating", dict(os.environ), env, "environment-untouched")
        modlog, out = os.path.join(d, "modlog"), os.path.join(d, "env.out")
        penv = dict(env, VF_MODLOG=modlog)
        with open(out, "wb") as f3:
            r = subprocess.run(["/bin/bash", "-c", 'exec 3>"$1"; shift; . "$1"', "bash", out, run], env=penv,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.getcwd(), timeout=120)
        with open(out, "rb") as f:
            got = dict(x.split("=", 1) for x in f.read().decode("utf-8", "surrogateescape").split("\0")
                       if "=" in x)
        for x in ("VF_MODLOG", "_", "SHLVL", "PWD", "OLDPWD"):
            got.pop(x, None)
            want.pop(x, None)
        err = r.stderr.decode("utf-8", "replace")[-300:]
        mods = []
        if os.path.exists(modlog):
            with open(modlog, "rb") as f:
                cur = []
                for w in f.read().decode().split("\0")[:-1]:
                    if w == "\1":
                        mods.append(cur)
                        cur = []
                    else:
                        cur.append(w)
        status = "ok" if r.returncode == 0 else "stop"
        # the environment actions up to where the script stops decide which module commands ran
        def mods_until(stop_at_env):
            n, res = 0, []
            for a in acts:
                if "envvar" in a:
                    if n == stop_at_env:
                        break
                    n += 1
                else:
                    res.append(module_words(a))
            return res
        mon.ev("oracle:script-environment")
        want_mods = mods_until(k if kind != "ok" else 10**9)
        same = got == want and (status == "ok" or kind != "ok") and (kind == "ok" or status == "stop")
        if not same or mods != want_mods:
            rb = ref_bash(env, acts)
            w2 = {x: y for x, y in rb[0].items() if x not in ("_", "SHLVL", "PWD", "OLDPWD")}
            ok = got == w2 and (rb[1] == "ok") == (r.returncode == 0) and mods == mods_until(rb[3])
            if ok and rb[2]:
                for m in sorted(rb[2]):
                    mon.finding(m, f"{acts}: bash and apply differ: {envdiff(got, want)!r}")
                return
        if not same:
            mon.fail("script-environment",
                     f"script of {acts}: exit {r.returncode} ({err!r}), apply: {kind}; variables differ "
                     f"(bash, apply): {envdiff(got, want)!r}")
        if kind == "ok" and r.returncode != 0:
            mon.fail("script-outcome", f"script of {acts} failed: {r.returncode} {err!r}")
        if kind != "ok":
            mon.ev("assert-stop")
        mon.eq(f"module commands of {acts}", mods, want_mods, "module-sequence")
        mon.ev("module-command", len(mods))
        if want != env:
            mon.state(acts, envdiff(want, env).__repr__().replace(d, ""))


class C18(C15):
    id = "C18"
    rule = ("random configurations, sections and call histories; scripts generated and written with every "
            "combination of header, body, shebang and interpreter are compared with each other "
            "(composition, file = string, independence of history, no effect on the process environment "
            "or the action list, unknown interpreters and sections refused); a state is a distinct "
            "(body, interpreter, flags)")
    quick = 2400
    thorough = 24000
    needs = {"oracle:composition": 10000, "written": 3000, "refused": 1000}

    def gen(self, rng, i):
        for _ in range(60):
            secs = gen_env(rng, self.VALUES, ENV_OPS, modules=rng.random() < 0.5)
            c = dict(secs=secs, init=gen_init(rng, SIMPLE), sec=rng.randrange(4), ecl=rng.randrange(6),
                     hist=[rng.randrange(6) for _ in range(rng.randrange(0, 5))], path=rng.random() < 0.5,
                     name=rng.choice(["out.script", "out.script", "a b", "$HOME", "${VF_A}x", "%d{0}", "out.py", "a'\"b", "~", "é\n"]),
                     bad=rng.choice(["perl", "", "Bash", "python3", "sh", "BASH", "python "]))
            if self.valid(c):
                return c
        raise RuntimeError("no case")

    def run(self, c, mon):
        from pathlib import Path
        d, model, obj, s, acts = self.setup(c, mon)
        env = start_env(c, d)
        secs = model.sections()
        ref = {}
        for phase in (0, 1):
            for interp in ("bash", "python"):
                def g(h, b, sb, interp=interp):
                    kw = dict(incl_hdr=h, incl_body=b, incl_shebang=sb, interp=interp)
                    if h and b and sb:
                        kw = dict(interp=interp)
                        if interp == "bash":
                            kw = {}
                    return mon.expect_ok("generate", obj.generate_actions_script, s, **kw)
                hdr, body = g(True, False, False), g(False, True, False)
                line = "#!/usr/bin/env " + ("bash" if interp == "bash" else "python3") + "\n"
                for h in (True, False):
                    for b in (True, False):
                        for sb in (True, False):
                            want = (line if sb and (h or b) else "") + (hdr if h else "") + (body if b else "")
                            mon.eq(f"{interp} script header={h} body={b} shebang={sb}", g(h, b, sb), want, "composition")
                            mon.state(interp, h, b, sb, body)
                            p = os.path.join(d, c["name"])
                            with open(p, "w") as f:
                                f.write("stale content\n" * 400)
                            kw = dict(include_header=h, include_body=b, include_shebang=sb, interpreter=interp)
                            if h and b and sb and interp == "bash":
                                kw = {}
                            r = mon.expect_ok("write", obj.write_actions_to_file, Path(p) if c["path"] else p, s, **kw)
                            mon.eq("write return", r, 0, "write-return")
                            with open(p, encoding="utf-8", newline="") as f:
                                mon.eq(f"file written header={h} body={b}", f.read(), want, "file-content")
                            mon.ev("written")
                # the header does not depend on the section
                for s2 in secs[:2]:
                    mon.eq("header of another section", mon.expect_ok(
                        "generate", obj.generate_actions_script, s2, incl_body=False, incl_shebang=False,
                        interp=interp), hdr, "header-independent")
                mon.true("header-content", "envvar_op" in hdr and body.startswith("#"), "")
                key = (interp, )
                if key in ref:
                    mon.eq(f"{interp} script after {c['hist']}", (hdr, body), ref[key], "history-independent")
                ref[key] = (hdr, body)
            compare_env(mon, "environment after generating", dict(os.environ), env, "environment-untouched")
            mon.eq("actions after generating", [dict(a) for a in obj.actions[s]], acts, "actions-unchanged")
            if phase == 0:
                for h in c["hist"]:
                    o = secs[h % len(secs)]
                    f = [lambda: obj.parse_section(o), lambda: obj.parse_all_sections(),
                         lambda: obj.pretty_print_actions(o), lambda: obj.configparserenhanceddata[o],
                         lambda: obj.generate_actions_script(o, interp="python"), lambda: obj.unroll_to_str()][h % 6]
                    mon.call(f)
        # refusals
        p = os.path.join(d, "refused.script")
        calls = [(lambda: obj.generate_actions_script(s, interp=c["bad"]), ""),
                 (lambda: obj.write_actions_to_file(p, s, interpreter=c["bad"]), 1)]
        for f, soft in calls:
            if c["ecl"] >= 3:
                mon.expect_exc("unknown interpreter", ValueError, f)
            else:
                mon.eq("unknown interpreter", mon.expect_ok("unknown interpreter", f), soft, "refused-value")
            mon.ev("refused")
        mon.true("refused-file", not os.path.exists(p), "a file was written for an unknown interpreter")
        mon.expect_exc("unknown section", KeyError, obj.generate_actions_script, "no such section")
        mon.expect_exc("unknown section", KeyError, obj.write_actions_to_file, p, "no such section")
        mon.true("refused-file", not os.path.exists(p), "a file was written for an unknown section")
        for bad in (dict(section=5), dict(section=s, incl_hdr="x"), dict(section=s, incl_body=1),
                    dict(section=s, incl_shebang=None), dict(section=s, interp=5)):
            mon.expect_exc(f"bad argument {bad}", TypeError, obj.generate_actions_script, **bad)


# ---------------------------------------------------------------------------
#  module commands
# ---------------------------------------------------------------------------

STUB = """#!/bin/sh
n=$(cat "$VF_STUB/n" 2>/dev/null || echo 0)
for a in "$@"; do printf '%s\\0' "$a" >> "$VF_STUB/log"; done
printf '\\1\\0' >> "$VF_STUB/log"
echo $((n+1)) > "$VF_STUB/n"
if [ -f "$VF_STUB/plan/$n" ]; then . "$VF_STUB/plan/$n"; fi
exit 0
"""

# outcome -> (shell plan, fails?)
PLANS = {
    "ok": "echo \"import os; os.environ['VF_M%d'] = 'set%d'\"",
    "ok-empty": "",
    "ok-mlstatus": "echo '_mlstatus = True'",
    "ok-noise": "echo 'warning: nothing' >&2; echo \"import os; os.environ['VF_M%d'] = 'n%d'\"",
    "ok-stdout": "echo '# ERROR: only a comment'; echo \"import os; os.environ['VF_M%d'] = 'e%d'\"",
    "ok-big": "head -c 300000 /dev/zero | tr '\\0' w >&2; echo '#' $(head -c 200000 /dev/zero | tr '\\0' w); "
              "echo \"import os; os.environ['VF_M%d'] = 'b%d'\"",
    "ok-lines": "echo 'import os'; echo 'for x in \"ab\":'; echo \"    os.environ['VF_M%d'] = 'l%d'\"; echo; echo 'del x'",
    "ok-unicode": "echo 'é 名 warning' >&2; echo \"import os; os.environ['VF_M%d'] = 'é%d'\"",
    "exit1": "exit 1",
    "exit3-output": "echo \"import os; os.environ['VF_BAD'] = '1'\"; exit 3",
    "exit255": "exit 255",
    "stderr": "echo 'Module ERROR: unable to locate' >&2; echo \"import os; os.environ['VF_BAD'] = '1'\"",
    "stderr-exit": "echo 'ERROR: x' >&2; exit 2",
    "stderr-mid": "printf 'loading\\nModuleCmd_Load.c(213):ERROR:105: Unable to locate\\nbye\\n' >&2; "
                  "echo \"import os; os.environ['VF_BAD'] = '1'\"",
    "stderr-end": "printf 'xERROR:' >&2; echo \"import os; os.environ['VF_BAD'] = '1'\"",
    "stderr-late": "head -c 150000 /dev/zero | tr '\\0' w >&2; printf '\\nERROR: late\\n' >&2; seq 9999 >&2; "
                   "echo \"import os; os.environ['VF_BAD'] = '1'\"",
    "exit-noise": "echo 'something odd' >&2; echo 'x = 1'; exit 7",
    "mlstatus": "echo '_mlstatus = False'",
    "mlstatus-set": "echo 'Warning: odd' >&2; echo \"import os; os.environ['VF_M%d'] = 'm%d'\"; echo '_mlstatus = False'",
    "ok-del": "echo \"import os; os.environ.pop('VF_D', None); os.environ['VF_M%d'] = 'd%d'; _mlstatus = True\"",
    "signal9": "kill -9 $$",
    "signal15": "kill -15 $$",
    "raise": "echo \"raise OSError('boom')\"",
    "syntax": "echo 'x = = 1'",
    "leave": "echo 'raise SystemExit(0)'",
    "bytes": "printf \"import os; os.environ['VF_BAD'] = 'a\\\\377b'\\\\n\"",
}
EFFECT = {"ok": "set", "ok-noise": "n", "ok-stdout": "e", "ok-big": "b", "ok-lines": "l", "ok-unicode": "é",
          "ok-del": "d", "mlstatus-set": "m"}
FAILS = {"exit1", "exit3-output", "exit255", "stderr", "stderr-exit", "stderr-mid", "stderr-end", "stderr-late", "exit-noise", "mlstatus",
         "mlstatus-set", "signal9", "signal15"}
RAISES = {"raise": OSError, "syntax": SyntaxError, "leave": SystemExit, "bytes": Exception}


class C19(Check):
    id = "C19"
    level = "fault_enumeration"
    rule = ("random lists of module and variable operations applied with a recording stand-in for the module "
            "command that succeeds, fails with an exit status, is killed by a signal, reports an error on "
            "stderr, returns a false status, or emits code that raises, at every position of the list and at "
            "every exception control level (and, in a second build of the package, a stand-in for the Lmod "
            "Python interface); a state is a distinct (operation list, outcome list, level)")
    anchor_files = SRC + HELPER
    quick = 8000
    thorough = 60000
    needs = {"module-command": 2500, "failed-command": 400, "raised": 200, "returned-nonzero": 80, "lmod": 100}
    assumptions = ["module names and versions contain no white space",
                   "Lmod reports a failure through its messages, an exception or the loaded-module query"]

    def prepare(self):
        self.classic = se_class()
        # a second copy of the package, built as if Lmod were installed
        saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "setenvironment"}
        for k in saved:
            del sys.modules[k]
        self.mh = {False: saved["setenvironment.ModuleHelper"]}
        home = os.path.join(core._base, f"lmod{os.getpid()}")
        os.makedirs(home + "/init", exist_ok=True)
        with open(home + "/init/env_modules_python.py", "w") as f:
            f.write("def module(*a):\n    return hook(*a)\n")
        path, old = list(sys.path), os.environ.get("MODULESHOME")
        os.environ["MODULESHOME"] = home
        try:
            import setenvironment as se2
            self.lmod_class = se2.SetEnvironment
            self.mh[True] = sys.modules["setenvironment.ModuleHelper"]
            lm = sys.modules.pop("env_modules_python", None)
            if lm is not None:
                lm.hook = lambda *a: self.lmod_hook(*a)
        finally:
            sys.path[:] = path
            os.environ.pop("MODULESHOME")
            if old is not None:
                os.environ["MODULESHOME"] = old
        for k in [k for k in sys.modules if k.split(".")[0] == "setenvironment"]:
            del sys.modules[k]
        sys.modules.update(saved)
        self.lmod_hook = None

    def gen(self, rng, i):
        lmod = i % 8 == 0
        used, opts = set(), []
        for _ in range(rng.randrange(1, 7)):
            m = rng.choice(MODULES)
            r = rng.random()
            if r < 0.2:
                o = [spell(rng, "envvar_set", rng.choice(["VF_A", "VF_B"]), used), ":", rng.choice(["x", "$VF_M0", "y z"])]
            elif r < 0.25:
                o = [spell(rng, "envvar_append", "VF_A", used), ":", "more"]
            elif r < 0.5:
                o = [spell(rng, "module_load", m, used), ":", rng.choice(VERS[:4] + [None, ""])]
            elif r < 0.62:
                o = [spell(rng, "module_purge", "", used), ":", rng.choice([None, ""])]
            elif r < 0.75:
                o = [spell(rng, "module_swap", m, used), ":", rng.choice([x for x in MODULES if x != m]) + rng.choice(["", "/1.0"])]
            elif r < 0.88:
                o = [spell(rng, "module_unload", m, used), ":", rng.choice([None, ""])]
            else:
                o = [spell(rng, "module_use", "", used), ":", rng.choice(USEDIRS)]
            if o[0]:
                opts.append(o)
        plans = [rng.choice(["ok", "ok", "ok-empty", "ok-noise", "ok-mlstatus"]) for _ in opts]
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            plans[rng.randrange(len(plans))] = rng.choice(list(PLANS))
        return dict(opts=opts, plans=plans, ecl=rng.choice([4, 4, 0, 1, 2, 3, 5]), lmod=lmod,
                    nomodule=rng.random() < 0.03)

    def valid(self, c):
        if not valid_env(dict(secs=[["M", c["opts"]]])) or len(c["plans"]) < len(c["opts"]):
            return False
        acts = actions_of(ini.Model([ini.render_file([["M", c["opts"]]])]), "M")
        return not any(a["op"] == "module_swap" and a["module"] == a["value"] for a in acts)

    def run(self, c, mon):
        d = mon.dir()
        text = ini.render_file([["M", c["opts"]]])
        model = ini.Model([text])
        acts = actions_of(model, "M")
        p = ini.write_files(d, [text])[0]
        obj = mon.expect_ok("construct", self.lmod_class if c["lmod"] else self.classic, p)
        obj.exception_control_level = c["ecl"]
        os.makedirs(d + "/plan")
        os.makedirs(d + "/bin")
        os.environ["VF_STUB"] = d
        os.environ["PATH"] = d + "/bin:/usr/bin:/bin"
        for k in ("VF_A", "VF_B", "VF_BAD", "MODULESHOME"):
            os.environ.pop(k, None)
        os.environ["VF_D"] = "there"
        if c["lmod"]:
            return self.run_lmod(c, mon, d, obj, acts)
        nomod = c["nomodule"]
        if nomod:
            os.environ["PATH"] = d + "/bin"
        else:
            with open(d + "/bin/modulecmd", "w") as f:
                f.write(STUB)
            os.chmod(d + "/bin/modulecmd", 0o755)
        mods = [a for a in acts if "module" in a]
        plans = c["plans"]
        for n in range(len(mods)):
            plan = PLANS[plans[n]]
            with open(f"{d}/plan/{n}", "w") as f:
                f.write((plan % ((n, ) * plan.count("%d"))) + "\n")
        # reference
        env = dict(os.environ)
        want_cmds, outcome, nmod, worst = [], ("ok", 0), 0, 0
        for a in acts:
            if "envvar" in a:
                ref_step(env, a)
                continue
            if nomod:
                outcome = ("exc", FileNotFoundError)
                break
            n, nmod = nmod, nmod + 1
            w = module_words(a)
            want_cmds.append(["python"] + (w[:1] + w[1].split() if len(w) == 2 else w))
            pl = plans[n]
            if pl in RAISES:
                outcome = ("exc", RAISES[pl])
                break
            if pl in EFFECT:
                env[f"VF_M{n}"] = EFFECT[pl] + str(n)
                if pl == "ok-del":
                    env.pop("VF_D", None)
            if pl in FAILS:
                mon.ev("failed-command")
                if c["ecl"] >= 2:
                    outcome = ("exc", RuntimeError)
                    break
                worst = 1
        else:
            outcome = ("ok", worst)
        tag, v = mon.call(obj.apply, "M")
        got_cmds = []
        if os.path.exists(d + "/log"):
            with open(d + "/log", "rb") as f:
                cur = []
                for w in f.read().decode().split("\0")[:-1]:
                    if w == "\1":
                        got_cmds.append(cur)
                        cur = []
                    else:
                        cur.append(w)
        what = f"apply of {acts} with outcomes {plans[:len(mods)]} at level {c['ecl']}"
        mon.eq(what + ": module commands", got_cmds, want_cmds, "module-sequence")
        mon.ev("module-command", len(want_cmds))
        self.judge(mon, what, tag, v, outcome)
        compare_env(mon, what, dict(os.environ), env)
        if mods:
            mon.state([a["op"] for a in acts], plans[:len(mods)], c["ecl"])

    def judge(self, mon, what, tag, v, outcome):
        mon.ev("oracle:outcome")
        if outcome[0] == "exc":
            if tag == "ok":
                mon.fail("failure-lost", f"{what}: returned {v!r}, should raise {outcome[1].__name__}")
            if not isinstance(v, outcome[1]):
                mon.fail("wrong-exception", f"{what}: {describe(v)}, should raise {outcome[1].__name__}")
            mon.ev("raised")
        else:
            if tag != "ok":
                mon.fail("unexpected-exception", f"{what}: {describe(v)}")
            if bool(v) != bool(outcome[1]) or not isinstance(v, int):
                mon.fail("failure-lost", f"{what}: returned {v!r}, failure expected: {bool(outcome[1])}")
            if outcome[1]:
                mon.ev("returned-nonzero")

    def run_lmod(self, c, mon, d, obj, acts):
        """The Lmod flavour: a Python interface without a status; the loaded-module query decides."""
        mon.ev("lmod")
        loaded = d + "/loaded"
        with open(loaded, "w") as f:
            f.write("gcc\nboost\n")
        with open(d + "/bin/module", "w") as f:
            f.write("#!/bin/sh\n[ \"$1\" = is-loaded ] || exit 9\nwhile read x; do [ \"$x\" = \"$2\" ] && exit 0; "
                    "done < \"$VF_STUB/loaded\"\nexit 1\n")
        os.chmod(d + "/bin/module", 0o755)
        os.environ["LMOD_CMD"] = d + "/bin/module"
        log, count = [], [0]
        state = ["gcc", "boost"]
        alias = {"ok-mlstatus": "ok", "ok-noise": "ok-noise", "exit1": "silent", "exit3-output": "silent",
                 "exit255": "silent", "stderr": "error", "stderr-exit": "error", "mlstatus": "silent",
                 "stderr-mid": "error-mid", "stderr-end": "error-end", "exit-noise": "silent", "leave": "sysexit",
                 "signal9": "name", "signal15": "sysexit", "raise": "raise", "syntax": "name"}
        plans = [alias.get(x, "ok") for x in c["plans"]]

        def effect(st, words):
            op, a = words[0], words[1:]
            if op == "load":
                st.append(a[0])
            elif op == "unload":
                st[:] = [x for x in st if x != a[0]]
            elif op == "swap":
                st[:] = [x for x in st if x != a[0]] + [a[1]]
            elif op == "purge":
                st[:] = []

        def hook(*a):
            n = count[0]
            count[0] += 1
            log.append(list(a))
            pl = plans[n]
            if pl == "raise":
                raise OSError("boom")
            if pl == "name":
                raise NameError("name '_mlstatus' is not defined")
            if pl == "sysexit":
                raise SystemExit(3)
            if pl == "error":
                print("Lmod has detected the following error: unknown module", file=sys.stderr)
                return
            if pl == "error-mid":
                print("Lmod Warning: x\nModule ERROR:105 y\nbye", file=sys.stderr)
                return
            if pl == "error-end":
                print("xError:", file=sys.stderr, end="")
                return
            if pl == "ok-noise":
                print("The following have been reloaded", file=sys.stderr)
            if pl in ("ok", "ok-noise"):
                effect(state, list(a))
                with open(loaded, "w") as f:
                    f.write("".join(x + "\n" for x in state))

        self.lmod_hook = hook
        env = dict(os.environ)
        ref, want, worst, n, outcome = ["gcc", "boost"], [], 0, 0, None
        for a in acts:
            if "envvar" in a:
                ref_step(env, a)
                continue
            w = module_words(a)
            want.append(w)
            pl = plans[n]
            n += 1
            if pl in ("raise", "name", "sysexit"):
                outcome = ("exc", {"raise": OSError, "name": RuntimeError, "sysexit": SystemExit}[pl])
                break
            if pl in ("ok", "ok-noise"):
                effect(ref, w)
            bad = pl.startswith("error")
            if not bad:
                if w[0] == "load":
                    bad = w[1] not in ref
                elif w[0] == "unload":
                    bad = w[1] in ref
                elif w[0] == "swap":
                    bad = w[1] in ref or w[2] not in ref
                elif w[0] == "use":
                    bad = not os.path.exists(w[1])
            if bad:
                mon.ev("failed-command")
                if c["ecl"] >= 2:
                    outcome = ("exc", RuntimeError)
                    break
                worst = 1
        if outcome is None:
            outcome = ("ok", worst)
        try:
            tag, v = mon.call(obj.apply, "M")
        finally:
            self.lmod_hook = None
        what = f"apply (Lmod) of {acts} with outcomes {plans} at level {c['ecl']}"
        mon.eq(what + ": module commands", log, want, "module-sequence")
        mon.ev("module-command", len(want))
        self.judge(mon, what, tag, v, outcome)
        compare_env(mon, what, dict(os.environ), env)
        mon.state("lmod", [a["op"] for a in acts], plans[:n], c["ecl"])

    def directed(self):
        out = []
        for pl in PLANS:
            for ecl in range(6):
                for pos in range(3):
                    plans = ["ok"] * 3
                    plans[pos] = pl
                    out.append(dict(opts=[["module-load gcc", ":", "1.0"], ["module-load boost", ":", None],
                                          ["envvar-set VF_A", ":", "x"], ["module-swap gcc", ":", "cmake/1.0"]],
                                    plans=plans + ["ok"], ecl=ecl, lmod=False, nomodule=False))
        return out


# ---------------------------------------------------------------------------
#  Listings and the plain functions
# ---------------------------------------------------------------------------

def shown(a):
    """Texts that the printed line of an action must hold."""
    op, v = a["op"], a["value"]
    n = a.get("envvar", a.get("module"))
    if op == "module_load":
        return [n, "default"] if v in (None, "") else [f"{n}/{v}"]
    if op == "module_purge":
        return []
    if op == "module_swap":
        return [f"{n} {v}"]
    if op == "module_use":
        return [v]
    if op == "envvar_append":
        return [f'{n}="${{{n}}}:{v}"']
    if op == "envvar_prepend":
        return [f'{n}="{v}:${{{n}}}"']
    if op in ("envvar_set", "envvar_set_if_empty", "envvar_find_in_path"):
        return [f'{n}="{v}"']
    if op in ("envvar_remove_substr", "envvar_remove_path_entry"):
        return [n, v]
    return [n]


PRINTVARS = ["VF_A", "VF_AB", "VF_B", "vf_a", "AVF_A", "TEST_VF", "PATHX", "X", "VFA", "VF_TOKEN", "MY_SECRET_VF_A", "VF.A",
             "BASH_FUNC_vf%%", "VF_[1]"]


class C30(Check):
    id = "C30"
    rule = ("random environment sections printed by pretty_print_actions (before and after other reads, repeatedly) and "
            "random process environments printed by pretty_print_envvars with random filters; entries compared with the "
            "reference list; a state is a distinct (action list) or (filter, matched names, mode)")
    anchor_files = SRC
    quick = 10000
    thorough = 100000
    needs = {"printed-action": 10000, "printed-variable": 10000, "hidden-value": 5000, "hidden-name": 5000}
    assumptions = ASSUME + ["values do not contain a line that looks like an entry of the listing"]

    def prepare(self):
        se_class()

    def gen(self, rng, i):
        for _ in range(60):
            secs = gen_env(rng, HOSTILE + PYONLY, ENV_OPS, modules=rng.random() < 0.7)
            c = dict(secs=secs, order=[rng.randrange(5) for _ in range(rng.randrange(1, 4))], debug=rng.choice([0, 0, 0, 1, 3]),
                     pre=rng.randrange(4), env=[[n, rng.choice(HOSTILE + ["", ""]) + "\u00a7%d" % k]
                                                for k, n in enumerate(PRINTVARS) if rng.random() < 0.6],
                     filters=[[rng.choice([None, [], [rng.choice(PRINTVARS)], [rng.choice(PRINTVARS), "zz"], ["VF_", "X"], [""],
                                           ["F_A"], ["vf"], ["nothing", "TOKEN"], rng.sample(PRINTVARS, 3), ["VF.A"],
                                           ["^VF"], ["VF_A$"], ["VF*"], ["[A-Z]"], ["."], ["(", "VF_B"], ["%%"], ["\\w"], ["VF_?"],
                                           ["|"], ["vf_A"], [" "], ["VF_A "], ["*"]]),
                               rng.random() < 0.5] for _ in range(3)])
            if self.valid(c):
                return c
        raise RuntimeError("no case")

    def valid(self, c):
        return valid_env(c) and all(n in PRINTVARS for n, _ in c["env"])

    def run(self, c, mon):
        import re
        text = ini.render_file(c["secs"])
        model = ini.Model([text])
        secs = model.sections()
        p = ini.write_files(mon.dir(), [text])[0]
        obj = mon.expect_ok("construct", se_class(), p)
        if c["pre"] == 1:
            mon.expect_ok("parse all", obj.parse_all_sections)
        elif c["pre"] == 2:
            mon.expect_ok("generate", obj.generate_actions_script, secs[0])
        for k in PRINTVARS:
            os.environ.pop(k, None)
        for k, v in c["env"]:
            os.environ[k] = v
        env = dict(os.environ)
        for o in c["order"]:
            s = secs[o % len(secs)]
            want = actions_of(model, s)
            mon.expect_exc("unknown section", KeyError, obj.pretty_print_actions, "no such section")
            mon.expect_exc("section must be a string", TypeError, obj.pretty_print_actions, 3)
            mon.expect_ok("pretty print", obj.pretty_print_actions, s)
            if any(re.search(r"^--> ", a["value"] or "", re.M) for a in want):
                continue
            got = re.split(r"^--> ", mon.out, flags=re.M)[1:]
            mon.eq(f"printed operations of {s!r}", [e.split()[0] for e in got], [a["op"] for a in want], "printed-operations")
            for e, a in zip(got, want):
                for t in shown(a):
                    mon.true("printed-action", t in e, f"{a}: {t!r} is not in the printed line {e!r}")
                mon.true("printed-as-known", "(unhandled)" not in e, f"{a}: printed as unhandled: {e!r}")
                mon.ev("printed-action")
            mon.eq(f"actions of {s!r}", [dict(a) for a in obj.actions[s]], want, "actions-unchanged")
            mon.state(want)
        obj.debug_level = c["debug"]
        for bad in ("VF_A", 3, ("VF_A", )):
            mon.expect_exc("filter must be a list", TypeError, obj.pretty_print_envvars, bad)
        mon.expect_exc("flag must be a bool", TypeError, obj.pretty_print_envvars, None, 1)
        for flt, only in c["filters"]:
            given = None if flt is None else list(flt)
            r = mon.expect_ok("print variables", obj.pretty_print_envvars, given, only)
            mon.eq("return value", r, 0, "return-value")
            mon.eq("filter after printing", given, flt, "filter-unchanged")
            want = []
            for k, v in env.items():
                hit = flt is None or any(f in k for f in flt)
                if hit:
                    want.append(f"{k} = {v}\n")
                    mon.ev("printed-variable")
                elif not only:
                    want.append(f"{k}\n")
                    mon.ev("hidden-value")
                else:
                    mon.ev("hidden-name")
            got = re.split(r"^\[envvar\]: ", mon.out, flags=re.M)[1:]
            mon.eq(f"variables printed with filter {flt} keys only {only}", sorted(got), sorted(want), "printed-variables")
            mon.state("vars", flt, only, sorted(k for k, _ in c["env"]))
        compare_env(mon, "after printing", dict(os.environ), env, "environment-untouched")


FN_OPS = ["set", "set_if_empty", "append", "prepend", "unset", "remove_substr", "remove_path_entry", "find_in_path",
          "assert_not_empty"]


class C31(Check):
    id = "C31"
    rule = ("random histories of direct calls of the environment functions (envvar_op, envvar_set, envvar_set_if_empty, "
            "envvar_find_in_path) with hostile values, both settings of allow_empty and wrongly typed arguments; the complete "
            "environment is compared with the reference after every call; a state is a distinct (call, previous value, outcome)")
    anchor_files = SRC
    quick = 30000
    thorough = 300000
    needs = {"changed": 15000, "refused": 5000, "found": 1500, "not-found": 500, "type-error": 2000}
    assumptions = ["variable names are valid; the executable searched for is not a file in the current directory",
                   "an operation that assigns nothing (unset, assert) is not called with an empty value and allow_empty=False"]
    VALUES = HOSTILE + PYONLY + SIMPLE + ["", "", "$VF_EMPTY", "${VF_EMPTY}$VF_EMPTY"]

    def prepare(self):
        se_class()

    def gen(self, rng, i):
        calls = []
        vals = rng.choice([self.VALUES, SIMPLE + [""], self.VALUES])
        for _ in range(rng.randrange(1, 9)):
            op = rng.choice(FN_OPS + ["fn_set", "fn_set_if_empty", "fn_find", "unknown"])
            v = rng.choice(vals)
            if op == "find_in_path" or op == "fn_find":
                v = rng.choice(["vf_tool", "vf_tool2", "vf_none", "vf_both", "$VF_TOOLNAME", "@D@/bin3/vf_none", "@D@/bin3/zz",
                                "vf_plain", "vf_dir", ""])
                if op == "fn_find" and v in ("", "$VF_TOOLNAME"):
                    v = "vf_tool2"
            allow = rng.choice([True, False, None])
            if op in ("unset", "assert_not_empty") and allow is False and v == "":
                v = "x"
            calls.append([op, rng.choice(NAMES[:3]), v, allow, rng.choice([None] * 9 + ["name", "value", "allow"])])
        return dict(init=gen_init(rng, [v for v in vals]), calls=calls)

    def valid(self, c):
        return all("\x00" not in v for _, v in c["init"]) and all(
            k[0] in FN_OPS + ["fn_set", "fn_set_if_empty", "fn_find", "unknown"] and k[1] in NAMES and
            not (k[0] in ("unset", "assert_not_empty") and k[3] is False and k[2] == "") and
            k[4] in (None, "name", "value", "allow") and
            not (k[0] == "fn_find" and (k[2] == "" or "$" in k[2])) for k in c["calls"])

    def run(self, c, mon):
        import setenvironment as m
        from pathlib import Path
        d = mon.dir()
        make_tools(d)
        with open(d + "/bin1/vf_plain", "w") as f:
            f.write("x")
        os.makedirs(d + "/bin1/vf_dir")
        with open(d + "/bin2/vf_dir", "w") as f:
            f.write("x")
        os.chmod(d + "/bin2/vf_dir", 0o755)
        os.environ["VF_EMPTY"] = ""
        env = start_env(c, d)
        for op, name, v, allow, bad in c["calls"]:
            v = v.replace("@D@", d)
            al = True if allow is None else allow
            kw = {} if allow is None else {"allow_empty": allow}
            before = dict(env)
            what = f"{op} {name} {v!r} allow_empty={allow} on {env.get(name)!r}"
            if op == "fn_find":
                w = which(v, env["PATH"])
                if w:
                    mon.eq(what, mon.expect_ok(what, m.envvar_find_in_path, Path(v) if bad else v), w, "found-path")
                    mon.ev("found")
                else:
                    mon.expect_exc(what, FileNotFoundError, m.envvar_find_in_path, v)
                    mon.ev("not-found")
                compare_env(mon, what, dict(os.environ), before)
                continue
            n2, v2 = name, v
            if bad == "name":
                n2 = 3 if len(v) % 2 else None
            elif bad == "value":
                v2 = None if len(v) % 2 else 7
            elif bad == "allow":
                kw["allow_empty"] = 1 if len(v) % 2 else None
            if op.startswith("fn_"):
                fn, args = {"fn_set": m.envvar_set, "fn_set_if_empty": m.envvar_set_if_empty}[op], (n2, v2)
            else:
                fn, args = m.envvar_op, (op, n2, v2)
            if bad:
                mon.expect_exc(what + f" with a wrong {bad}", TypeError, fn, *args, **kw)
                compare_env(mon, what + f" with a wrong {bad}", dict(os.environ), before)
                mon.ev("type-error")
                continue
            refuse = False
            if op == "unknown":
                refuse = True
            elif not al and v == "":
                refuse = True
            elif op == "fn_set":
                env[name] = v
            elif op == "fn_set_if_empty":
                if not env.get(name):
                    env[name] = v
            else:
                try:
                    ref_step(env, dict(op="envvar_" + op, envvar=name, value=v))
                except Stop:
                    refuse = True
                if not al and op not in ("unset", "assert_not_empty"):
                    x = expand(v, before)
                    if op == "set_if_empty":
                        refuse = x == ""
                    elif name in env and env[name] == "" and (op not in ("remove_substr", "remove_path_entry") or name in before):
                        refuse = True
            if refuse:
                env = before
                mon.expect_exc(what, ValueError, fn, *args, **kw)
                mon.ev("refused")
            else:
                mon.eq(what + ": return value", mon.expect_ok(what, fn, *args, **kw), 0, "return-value")
                mon.ev("changed", env != before)
                if op == "find_in_path":
                    mon.ev("found" if env[name] else "not-found")
            compare_env(mon, what, dict(os.environ), env)
            mon.state(op, v.replace(d, ""), allow, before.get(name), refuse)


def sh_is_bash():
    """Have the shells that subprocess starts be bash, as on the systems that define `module` as a shell function."""
    real = subprocess.Popen.__init__
    if getattr(real, "vf", None):
        return

    def init(self, *a, **k):
        if k.get("shell") and not k.get("executable") and os.environ.get("BASH_FUNC_module%%"):
            k["executable"] = "/bin/bash"
        real(self, *a, **k)
    init.vf = True
    subprocess.Popen.__init__ = init


class C32(C19):
    id = "C32"
    level = "fault_enumeration"
    rule = ("random histories of direct calls of module() (command as a word or as a list, arguments joined or separate) with a "
            "recording stand-in for modulecmd, or for the Lmod interface, and every way to fail at every position; words received, "
            "status or exception, environment and messages compared with the reference; a state is a distinct (call, outcome)")
    anchor_files = HELPER
    quick = 8000
    thorough = 60000
    needs = {"module-command": 5000, "failed": 1500, "raised": 400, "lmod": 800, "not-found": 50, "function": 100}
    assumptions = ["the module command is found through PATH, or through a bash function module in a shell that is bash", C19.assumptions[1]]

    CALLS = [["load", ["gcc"]], ["load", ["gcc/7.3.0"]], ["load", ["gcc boost"]], ["load", ["gcc", "boost/1.10"]],
             ["unload", ["gcc"]], ["unload", ["boost"]], ["unload", ["gcc", "boost"]], ["unload", ["gcc/7.3.0", "gcc"]], ["use", ["/", "/mods/x"]],
             ["use", ["/mods/x", "/"]], ["unload", ["boost", "none", "gcc"]], [["unload", "gcc"], ["boost"]],
             ["load", ["boost", "gcc", "cmake"]], [["load", "gcc"], ["cmake", "cc"]],
             ["swap", ["gcc", "cmake/1.0"]], ["swap", ["boost", "gcc"]],
             ["swap", ["gcc cmake"]], ["purge", []], ["use", ["/mods/one"]], ["use", ["/"]], ["list", []], ["purge", ["--force"]],
             [["load"], ["gcc"]], [["load", "gcc"], []], [["swap", "gcc", "cmake"], []], [["unload", "boost"], []],
             [["swap", "gcc"], ["cmake/1.0"]], [["use"], ["/mods"]], [["purge"], []], [["load", "a b"], []],
             ["load", ["  gcc   boost\tcmake "]], [["load"], [" gcc  boost "]], [["load", "gcc"], ["boost  cmake"]],
             ["load", ["gcc", "", "a b"]], ["swap", ["é", "$HOME"]], ["load", [""]], [["load", "x;y", "*"], []]]
    SPLIT = [x for x in CALLS if len(x[1]) == 1 and x[1][0].split() != x[1] or "a b" in x[0] or "" in x[1] or "$HOME" in x[1] or "*" in x[0]]

    def gen(self, rng, i):
        lmod = i % 4 == 0
        calls = []
        for _ in range(rng.randrange(1, 5)):
            cmd, args = rng.choice(self.CALLS)
            if lmod and ([cmd, args] in self.SPLIT or cmd == "swap" and len(args) == 1):
                continue
            plan = rng.choice(["ok", "ok", "ok-empty", "ok-noise", "ok-mlstatus"] + list(PLANS))
            calls.append([cmd, args, plan])
        c = dict(calls=calls, lmod=lmod, nomodule=rng.random() < 0.05)
        if not lmod and rng.random() < 0.08:
            c["nomodule"], c["func"] = False, rng.choice(["ok", "ok", "missing", "plain"])
        return c

    def valid(self, c):
        return all(any(k[0] == x and k[1] == y for x, y in self.CALLS) and k[2] in PLANS for k in c["calls"]) and \
            c.get("func") in (None, "ok", "missing", "plain")

    def directed(self):
        return [dict(calls=[[cmd, args, "ok"], [cmd, args, pl], [cmd, args, "ok"]], lmod=lm, nomodule=False)
                for cmd, args in self.CALLS for pl in PLANS for lm in (False, True)
                if not (lm and ([cmd, args] in self.SPLIT or cmd == "swap" and len(args) == 1))] + [
                    dict(calls=[["load", ["gcc"], "ok"]], lmod=True, nomodule=True)]

    def prepare(self):
        super().prepare()
        self.fn = {k: m.module for k, m in self.mh.items()}

    def run(self, c, mon):
        d = mon.dir()
        os.makedirs(d + "/plan")
        os.makedirs(d + "/bin")
        os.environ["VF_STUB"] = d
        os.environ["PATH"] = d + "/bin:/usr/bin:/bin"
        for k in ("VF_BAD", "MODULESHOME", "BASH_FUNC_module%%"):
            os.environ.pop(k, None)
        os.environ["VF_D"] = "there"
        mon.ev("function", bool(c.get("func")))
        if c["nomodule"] or c.get("func"):
            os.environ["PATH"] = d + "/bin"
        fn = self.fn[c["lmod"]]
        calls = c["calls"]
        log, state, loaded = [], ["gcc", "boost"], d + "/loaded"
        if c["lmod"]:
            mon.ev("lmod")
            with open(loaded, "w") as f:
                f.write("gcc\nboost\n")
            with open(d + "/bin/module", "w") as f:
                f.write("#!/bin/sh\n[ \"$1\" = is-loaded ] || exit 9\nwhile read x; do [ \"$x\" = \"$2\" ] && exit 0; "
                        "done < \"$VF_STUB/loaded\"\nexit 1\n")
            os.chmod(d + "/bin/module", 0o755)
            os.environ["LMOD_CMD"] = d + "/bin/module"
            if c["nomodule"]:
                if len(calls) % 2:
                    del os.environ["LMOD_CMD"]
                else:
                    os.environ["LMOD_CMD"] = ""
        elif not c["nomodule"]:
            bindir = d + ("/libexec" if c.get("func") else "/bin")
            os.makedirs(bindir, exist_ok=True)
            if c.get("func"):
                where = bindir + "/modulecmd" + ("-gone" if c["func"] == "missing" else "")
                body = f"eval `{where} bash $*`" if c["func"] != "plain" else ":"
                os.environ["BASH_FUNC_module%%"] = "() {  " + body + "\n}"
                sh_is_bash()
            with open(bindir + "/modulecmd", "w") as f:
                f.write(STUB.replace("\n", "\nPATH=/usr/bin:/bin\n", 1))
            os.chmod(bindir + "/modulecmd", 0o755)
            for n, (_, _, pl) in enumerate(calls):
                plan = PLANS[pl]
                with open(f"{d}/plan/{n}", "w") as f:
                    f.write((plan % ((n, ) * plan.count("%d"))) + "\n")
        env = dict(os.environ)
        want = []
        for n, (cmd, args, pl) in enumerate(calls):
            what = f"module({cmd!r}, *{args!r}) with outcome {pl}"
            words = (list(cmd) if isinstance(cmd, list) else [cmd])
            given = list(cmd) if isinstance(cmd, list) else cmd
            outcome, text = ("ok", 0), []
            if c["nomodule"] or c.get("func") in ("missing", "plain"):
                outcome = ("exc", FileNotFoundError)
                mon.ev("not-found")
            elif c["lmod"]:
                words += args
                want.append(words)
                mode = {"ok": "ok", "ok-stdout": "ok", "ok-big": "noise", "ok-lines": "last", "bytes": "ok", "ok-unicode": "noise",
                        "stderr-mid": "error", "stderr-end": "ERROR", "stderr-late": "error", "exit-noise": "silent", "leave": "sysexit", "ok-empty": "ok", "ok-noise": "noise", "ok-mlstatus": "ok", "exit1": "silent",
                        "exit3-output": "silent", "exit255": "silent", "stderr": "error", "stderr-exit": "ERROR",
                        "mlstatus": "silent", "mlstatus-set": "first", "ok-del": "ok", "signal9": "name", "signal15": "sysexit", "raise": "raise", "syntax": "name"}[pl]
                ok = mode in ("ok", "noise", "first", "last")
                some = slice(None)
                if words[0] in ("load", "unload"):
                    some = {"first": slice(1), "last": slice(-1, None)}.get(mode, some)

                def effect(op, *a):
                    a = a[some]
                    if op == "load":
                        state.extend(a)
                    elif op == "unload":
                        state[:] = [x for x in state if x not in a]
                    elif op == "swap":
                        state[:] = [x for x in state if x != a[0]] + list(a[1:])
                    elif op == "purge":
                        state[:] = []
                    with open(loaded, "w") as f:
                        f.write("".join(x + "\n" for x in state))

                def hook(*a):
                    log.append(list(a))
                    if mode in ("raise", "name", "sysexit"):
                        raise {"raise": OSError, "name": NameError, "sysexit": SystemExit}[mode]("boom")
                    if mode in ("error", "ERROR"):
                        print("Lmod has detected the following error: unknown" if mode == "error" else "ERROR: x", file=sys.stderr)
                    elif mode == "noise":
                        print("swapped something", file=sys.stderr)
                        print("and said so")
                    if ok:
                        effect(*a)
                self.lmod_hook = hook
                if mode in ("raise", "name", "sysexit"):
                    outcome = ("exc", {"raise": OSError, "name": RuntimeError, "sysexit": SystemExit}[mode])
                else:
                    after = list(state)
                    if ok:
                        op, a = words[0], words[1:][some]
                        if op == "load":
                            after += a
                        elif op == "unload":
                            after = [x for x in after if x not in a]
                        elif op == "swap":
                            after = [x for x in after if x != a[0]] + a[1:]
                        elif op == "purge":
                            after = []
                    bad = mode in ("error", "ERROR")
                    if words[0] == "load":
                        bad = bad or any(x not in after for x in words[1:])
                    elif words[0] == "unload":
                        bad = bad or any(x in after for x in words[1:])
                    elif words[0] == "swap":
                        bad = bad or words[1] in after or words[2] not in after
                    elif words[0] == "use":
                        bad = bad or any(not os.path.exists(x) for x in words[1:])
                    outcome = ("ok", bad)
                    if mode == "noise":
                        text = ["swapped something", "and said so"]
            else:
                words += args[0].split() if len(args) == 1 else args
                want.append(["python"] + words)
                if pl in RAISES:
                    outcome = ("exc", RAISES[pl])
                elif pl in FAILS:
                    outcome = ("ok", 1)
                    if pl.startswith("stderr"):
                        text = ["ERROR:"]
                if pl in EFFECT:
                    env[f"VF_M{n}"] = EFFECT[pl] + str(n)
                    if pl == "ok-del":
                        env.pop("VF_D", None)
            try:
                tag, v = mon.call(fn, given, *args)
            finally:
                self.lmod_hook = None
            mon.ev("module-command")
            self.judge(mon, what, tag, v, outcome)
            mon.ev("failed", outcome[0] == "ok" and bool(outcome[1]))
            mon.eq("command after the call", given, cmd, "arguments-unchanged")
            for t in text:
                mon.true("messages-shown", t in mon.out, f"{what}: {t!r} was not printed: {mon.out!r}")
            compare_env(mon, what, dict(os.environ), env)
            mon.state(cmd, args, pl, c["lmod"])
        if not c["lmod"] and os.path.exists(d + "/log"):
            cur = []
            with open(d + "/log", "rb") as f:
                for w in f.read().decode().split("\0")[:-1]:
                    if w == "\1":
                        log.append(cur)
                        cur = []
                    else:
                        cur.append(w)
        mon.eq("module commands", log, want, "module-sequence")


# ---------------------------------------------------------------------------
#  Invalid calls and incomplete operations

NOTSTR = [5, None, 0, False, [], {}, 2.5, ["S0"], b"S0", True, ("S0", ), {"S0": 1}]
NOTBOOL = [1, 0, "yes", None, "", [True], 1.0]


def bad_calls():
    """[name, environment tool only, allowed exceptions, call(obj, section, bad value, directory), bad values]."""
    ty, va = (TypeError, ), (ValueError, )
    from pathlib import Path
    tov = (TypeError, ValueError)
    out = [
        ["inifilepath", 0, ty, lambda o, s, b, d: setattr(o, "inifilepath", b),
         [5, None, 2.5, True, [5], ["x.ini", None], [b"x.ini"], b"x.ini", ("x.ini", ), {"x.ini"}, {"x.ini": 1}, [["x.ini"]]]],
        ["delimiters", 0, ty, lambda o, s, b, d: setattr(o, "configparser_delimiters", b), [5, None, {":"}, {":": 1}, b":", True, 2.5]],
        ["default section", 0, ty, lambda o, s, b, d: setattr(o, "default_section_name", b), NOTSTR],
        ["exception level", 0, tov, lambda o, s, b, d: setattr(o, "exception_control_level", b), ["high", None, "", [3], "3.5"]],
        ["silent", 0, ty, lambda o, s, b, d: setattr(o, "exception_control_silent_warnings", b), NOTBOOL],
        ["compact", 0, ty, lambda o, s, b, d: setattr(o, "exception_control_compact_warnings", b), NOTBOOL],
        ["debug level", 0, tov, lambda o, s, b, d: setattr(o, "debug_level", b), ["high", None, "", [3]]],
        ["parse_section", 0, ty, lambda o, s, b, d: o.parse_section(b), NOTSTR],
        ["parse_section empty", 0, va, lambda o, s, b, d: o.parse_section(b), [""]],
        ["unroll_to_str empty", 0, (KeyError, ValueError), lambda o, s, b, d: o.unroll_to_str(section=b), [""]],
        ["parse_section initialize", 0, ty, lambda o, s, b, d: o.parse_section(s, initialize=b), NOTBOOL],
        ["parse_section finalize", 0, ty, lambda o, s, b, d: o.parse_section(s, finalize=b), NOTBOOL],
        ["unroll_to_str", 0, ty, lambda o, s, b, d: o.unroll_to_str(section=b), [x for x in NOTSTR if x is not None]],
        ["write", 0, ty, lambda o, s, b, d: o.write(b), [5, None, d_("out.ini"), b"out.ini", [], d_("a.ini"), Path(d_("out2.ini"))]],
        ["write section", 0, ty, lambda o, s, b, d: write_to(o, d, section=b), [x for x in NOTSTR if x is not None]],
        ["sections", 0, ty, lambda o, s, b, d: o.configparserenhanceddata.sections(b), [5, None, 1, 2.5, ["force"], b"force"]],
        ["sections word", 0, va, lambda o, s, b, d: o.configparserenhanceddata.sections(parse=b), ["yes", "", "forced", "force ", "true"]],
        ["view data", 0, ty, lambda o, s, b, d: setattr(o.configparserenhanceddata, "data", b), [5, None, [], "x", [("S0", {})]]],
        ["view index", 0, (KeyError, TypeError), lambda o, s, b, d: o.configparserenhanceddata[b], [5, None, 2.5, b"S0", True, ("S0", ), ""]],
        ["view get", 0, (KeyError, ) + tov, lambda o, s, b, d: o.configparserenhanceddata.get(b), [5, None, 2.5, b"S0", True, ("S0", ), ""]],
        ["view options", 0, (KeyError, TypeError), lambda o, s, b, d: o.configparserenhanceddata.options(b), [5, None, b"S0", ""]],
        ["initialize hook", 0, ty, lambda o, s, b, d: o.handler_initialize(b, hp(o)), NOTSTR],
        ["finalize hook", 0, ty, lambda o, s, b, d: o.handler_finalize(s, b), [5, None, "S0", {}, [], ("S0", )]],
        ["enter_handler", 0, ty, lambda o, s, b, d: o.enter_handler(b), [5, None, "S0", {}]],
        ["exit_handler", 0, ty, lambda o, s, b, d: o.exit_handler(b), [5, None, "S0", {}]],
        ["construct", 0, ty, lambda o, s, b, d: type(o)(b), [5, 2.5, True, [5], (b"x.ini", ), {}, b"x.ini"]],
        ["construct without a file", 0, va, lambda o, s, b, d: type(o)(*b).configparserdata, [[], [[]]]],
        ["apply", 1, ty, lambda o, s, b, d: o.apply(b), NOTSTR],
        ["pretty_print_actions", 1, ty, lambda o, s, b, d: o.pretty_print_actions(b), NOTSTR],
        ["pretty_print_envvars", 1, ty, lambda o, s, b, d: o.pretty_print_envvars(b), ["VF", 5, ("VF", ), {"VF": 1}, {"VF"}, True]],
        ["pretty_print_envvars flag", 1, ty, lambda o, s, b, d: o.pretty_print_envvars(["VF"], b), NOTBOOL],
        ["write_actions_to_file name", 1, ty, lambda o, s, b, d: o.write_actions_to_file(b, s), [5, None, 2.5, [d_("out")], b"out", True]],
        ["write_actions_to_file section", 1, ty, lambda o, s, b, d: o.write_actions_to_file(d + "/out", b), NOTSTR],
        ["write_actions_to_file interpreter", 1, ty, lambda o, s, b, d: o.write_actions_to_file(d + "/a.ini", s, interpreter=b),
         [5, None, ["bash"], b"bash", True]],
        ["generate section", 1, ty, lambda o, s, b, d: o.generate_actions_script(b), NOTSTR],
        ["generate interpreter", 1, ty, lambda o, s, b, d: o.generate_actions_script(s, interp=b), [5, None, ["bash"], b"bash", True]],
        ["actions", 1, ty, lambda o, s, b, d: setattr(o, "actions", b), [5, None, [], "x", [("S0", [])]]],
    ]
    for kw in ("include_header", "include_body", "include_shebang"):
        out.append(["write_actions_to_file " + kw, 1, ty,
                    lambda o, s, b, d, kw=kw: o.write_actions_to_file(d + "/a.ini", s, **{kw: b}), NOTBOOL])
    for kw in ("incl_hdr", "incl_body", "incl_shebang"):
        out.append(["generate " + kw, 1, ty, lambda o, s, b, d, kw=kw: o.generate_actions_script(s, **{kw: b}), NOTBOOL])
    return out


def d_(name):
    """A name inside of the working directory of the case (a relative path)."""
    return name


def hp(o):
    from configparserenhanced.HandlerParameters import HandlerParameters
    return HandlerParameters()


def write_to(o, d, **kw):
    with open(d + "/written", "w") as f:
        try:
            o.write(f, **kw)
        finally:
            f.flush()
            if os.path.getsize(d + "/written"):
                raise AssertionError("something was written")
            os.remove(d + "/written")


INCOMPLETE = [["envvar-set", ":", "x"], ["envvar-set", ":", None], ["envvar-append", ":", "x"], ["envvar-prepend", ":", "x"],
              ["envvar-unset", ":", None], ["envvar-unset", ":", "VF_A"], ["envvar-remove", ":", None], ["envvar-remove-substr", ":", "x"],
              ["envvar-assert-not-empty", ":", None], ["envvar-set-if-empty", ":", "x"], ["envvar-find-in-path", ":", "sh"],
              ["envvar-set VF_A", ":", None], ["envvar-append VF_A", ":", None], ["envvar-prepend VF_A", ":", None],
              ["envvar-remove-substr VF_A", ":", None], ["envvar-remove-path-entry VF_A", ":", None],
              ["envvar-find-in-path VF_A", ":", None], ["envvar-set-if-empty VF_A", ":", None],
              ["module-load", ":", None], ["module-load", ":", "1.0"], ["module-unload", ":", None], ["module-swap gcc", ":", None],
              ["module-swap", ":", "gcc"], ["module-swap", ":", None], ["module-use", ":", None], ["module-use /mods", ":", None],
              ["module-remove", ":", None], ["module-remove", ":", "gcc"]]


class C33(Check):
    id = "C33"
    rule = ("random configurations and read histories, between the reads calls with invalid arguments at every exception level: the "
            "exception, and settings, data, actions, environment and files afterwards compared with those before; and environment "
            "sections that hold an incomplete operation, applied and generated; a state is a distinct (call, bad value, level) or "
            "(incomplete operation, what was asked for, level)")
    anchor_files = SRC + ["src/configparserenhanced/ConfigParserEnhanced.py"]
    quick = 9000
    thorough = 90000
    needs = {"refused": 15000, "incomplete": 2000}
    assumptions = ["a call that is refused may print messages"]

    def prepare(self):
        se_class()
        self.calls = bad_calls()

    def gen(self, rng, i):
        for _ in range(60):
            secs = gen_env(rng, SIMPLE, ENV_OPS, modules=rng.random() < 0.5)
            if i % 4 == 3:
                c = dict(secs=secs, bad=rng.choice(INCOMPLETE), sec=rng.randrange(5), at=rng.randrange(4), how=rng.randrange(6),
                         ecl=rng.randrange(6), twice=rng.random() < 0.4)
            else:
                steps = []
                for _ in range(rng.randrange(1, 9)):
                    k = rng.randrange(len(self.calls))
                    steps.append([k, rng.randrange(60), rng.randrange(6), rng.randrange(5), rng.randrange(5)])
                c = dict(secs=secs, steps=steps, tool=rng.random() < 0.6, debug=rng.choice([0, 0, 0, 2]), silent=rng.random() < 0.3)
            if valid_env(c):
                return c
        raise RuntimeError("no case")

    def valid(self, c):
        return valid_env(c) and (c.get("bad") in INCOMPLETE if "bad" in c else all(s[0] < len(self.calls) for s in c["steps"]))

    def run(self, c, mon):
        d = mon.dir()
        os.chdir(d)
        if "bad" in c:
            return self.incomplete(c, mon, d)
        text = ini.render_file(c["secs"])
        model = ini.Model([text])
        secs = model.sections()
        p = ini.write_files(d, [text])[0]
        with open(d + "/a.ini", "w") as f:
            f.write("keep\n")
        with open(d + "/x.ini", "w") as f:
            f.write("[other]\na = b\n")
        from ..cpelib import cpe_class
        cls = se_class() if c["tool"] else cpe_class()
        handled = (KNOWN_OPS | {"use"}) if c["tool"] else {"use"}
        obj = mon.expect_ok("construct", cls, p)
        obj.debug_level = c["debug"]
        obj.exception_control_silent_warnings = c["silent"]
        env = dict(os.environ)

        def snap():
            return dict(files=[str(x) for x in obj.inifilepath], delimiters=list(obj.configparser_delimiters),
                        default=obj.default_section_name, level=obj.exception_control_level,
                        silent=obj.exception_control_silent_warnings, compact=obj.exception_control_compact_warnings,
                        debug=obj.debug_level, actions={k: [dict(a) for a in v] for k, v in obj.actions.items()} if c["tool"] else None)

        def tree():
            return {n: open(d + "/" + n).read() for n in sorted(os.listdir(d))}

        disk = tree()
        for k, b, ecl, s, read in c["steps"]:
            name, tool_only, excs, fn, vals = self.calls[k]
            if tool_only and not c["tool"]:
                continue
            sec = secs[s % len(secs)]
            obj.exception_control_level = ecl
            if read < 3:
                self.read(mon, obj, model, sec, handled, ecl)
            bad = vals[b % len(vals)]
            if name == "write" and isinstance(bad, str):
                bad = d + "/" + bad
            before = snap()
            mon.expect_exc(f"{name} with {bad!r} at level {ecl}", excs, fn, obj, sec, bad, d)
            mon.ev("refused")
            mon.eq(f"settings and actions after {name} with {bad!r} at level {ecl}", snap(), before, "settings")
            mon.eq(f"files after {name} with {bad!r} at level {ecl}", tree(), disk, "files")
            compare_env(mon, f"after {name} with {bad!r} at level {ecl}", dict(os.environ), env)
            if read % 2:
                self.read(mon, obj, model, secs[(s + 1) % len(secs)], handled, ecl)
            mon.state(name, repr(bad).replace(d, ""), ecl)
        mon.eq("sections", list(mon.expect_ok("sections", obj.configparserenhanceddata.sections)), secs, "sections")
        for sec in secs:
            self.read(mon, obj, model, sec, handled, obj.exception_control_level)

    def read(self, mon, obj, model, sec, handled, ecl):
        got = mon.expect_ok(f"read {sec!r}", lambda: obj.configparserenhanceddata[sec])
        mon.eq(f"section {sec!r}", dict(got), model.expand(sec, handled=handled)[0], "section-data")

    def incomplete(self, c, mon, d):
        secs = [[n, [list(o) for o in opts]] for n, opts in c["secs"]]
        k = c["sec"] % len(secs)
        opts = [o for o in secs[k][1] if o[0] != c["bad"][0]]
        at = min(c["at"], len(opts))
        # nothing after it may remove it again
        later = [o for o in opts[at:] if o[0].replace("_", "-").split()[0].strip("'\"") not in ("use", "envvar-remove", "module-remove")]
        secs[k][1] = opts[:at] + [list(c["bad"])] + later + [["envvar-set VF_AFTER", ":", "reached"], ["module-use  ", ":", "/after"]]
        text = ini.render_file(secs)
        p = ini.write_files(d, [text])[0]
        obj = mon.expect_ok("construct", se_class(), p)
        obj.exception_control_level = c["ecl"]
        os.makedirs(d + "/bin")
        os.makedirs(d + "/plan")
        os.environ.update(VF_STUB=d, PATH=d + "/bin:/usr/bin:/bin", VF_A="/a:b", VF_D="there")
        for n in ("VF_AFTER", "MODULESHOME"):
            os.environ.pop(n, None)
        with open(d + "/bin/modulecmd", "w") as f:
            f.write(STUB)
        os.chmod(d + "/bin/modulecmd", 0o755)
        for n in range(12):
            with open(f"{d}/plan/{n}", "w") as f:
                f.write(PLANS["ok-empty"] + "\n")
        sec = secs[k][0]
        how = c["how"]
        what = f"of [{sec}] with {c['bad'][0]!r} = {c['bad'][2]!r} at level {c['ecl']}"
        for t in range(1 + c["twice"]):
            if how < 3:
                mon.expect_exc(f"apply {what}", Exception, obj.apply, sec)
                mon.true("nothing-after", "VF_AFTER" not in os.environ, f"apply {what}: the operations after it were performed")
                log = open(d + "/log", "rb").read() if os.path.exists(d + "/log") else b""
                mon.true("nothing-after", b"/after" not in log and b"\0None" not in log,
                         f"apply {what}: module commands were issued: {log!r}")
            elif how == 5:
                env = dict(os.environ)
                mon.expect_exc(f"write the script {what}", Exception, obj.write_actions_to_file, d + "/out", sec,
                               interpreter="bash" if c["at"] % 2 else "python")
                mon.true("no-script", not os.path.exists(d + "/out"), f"write the script {what}: a file was written")
                compare_env(mon, "after generating", dict(os.environ), env)
            else:
                env = dict(os.environ)
                mon.expect_exc(f"generate the script {what}", Exception, obj.generate_actions_script, sec,
                               interp="bash" if how == 3 else "python")
                compare_env(mon, "after generating", dict(os.environ), env)
        mon.ev("incomplete")
        mon.state(c["bad"], how, c["ecl"])
