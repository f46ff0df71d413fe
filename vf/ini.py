"""Structured .ini cases: generator, renderer and the reference model.

A file is a list of [section, [[key, sep, value], ...]]; `value` None renders
an option without delimiter.  The model reads the rendered text with the
standard library's ConfigParser (never with the code under test) and expands
`use` links itself.
"""
import configparser
import re
import shlex

COMMON = "CONFIGPARSERENHANCED_COMMON"


def render_file(sections):
    out = []
    for name, opts in sections:
        out.append(f"[{name}]")
        for key, sep, value in opts:
            if value is None:
                out.append(key)
            else:
                out.append(key + sep + value.replace("\n", "\n    "))
        out.append("")
    return "\n".join(out) + "\n"


def write_files(d, files, prefix="f", disk=0):
    """disk 1: lines end in CR LF; 2: no line end at the end of the file."""
    import os
    paths = []
    for i, f in enumerate(files):
        p = os.path.join(d, f"{prefix}{i}.ini")
        text = f if isinstance(f, str) else render_file(f)
        with open(p, "w", encoding="utf-8", newline="\r\n" if disk == 1 else "\n") as fh:
            fh.write(text.rstrip("\n") if disk == 2 else text)
        paths.append(p)
    return paths


class BadCase(Exception):
    """The rendered text is outside the domain the model speaks about."""


class Raised(Exception):
    """The model predicts that the code raises one of `types`."""

    def __init__(self, types, why):
        super().__init__(why)
        self.types = types if isinstance(types, tuple) else (types, )
        self.why = why


OPNAME = re.compile(r"^[\w\-]+$")


def clean(v):
    if v is None:
        return None
    return str(v).strip().strip('"')


class Model:

    def __init__(self, texts, delims=None, default="DEFAULT"):
        self.default = default
        self.total_visits = 0
        self.cp = configparser.ConfigParser(
            allow_no_value=True, delimiters=tuple(delims) if delims else ("=", ":"),
            default_section=COMMON
        )
        self.cp.optionxform = str
        for t in texts:
            self.cp.read_string(t)
        if self.cp.defaults():
            raise BadCase("common section")

    def sections(self):
        return self.cp.sections()

    def check_domain(self):
        for s in self.cp.sections():
            for k in self.cp[s]:
                try:
                    tok = shlex.split(k.strip())
                except ValueError:
                    raise BadCase("key does not tokenise")
                if not tok:
                    raise BadCase("empty key")
                if tok[0] == "use" and len(tok) < 2:
                    raise BadCase("use without a section")

    def expand(self, root, handled=("use", ), ecl=4, on_op=None, initialize=True, finalize=True,
               max_visits=6000):
        """Reference expansion of one section.

        Returns (data, trace, cycles).  `on_op(op, entry)` may raise Raised to
        predict a failing handler.  Raised carries .trace of what ran before.
        """
        data, trace, cycles = {}, [], []
        stack = []
        visits = [0]

        def visit(sec):
            visits[0] += 1
            self.total_visits += 1
            if visits[0] > max_visits:
                raise BadCase("expansion too large")
            if not self.cp.has_section(sec):
                raise Raised(KeyError, f"no section {sec!r}")
            stack.append(sec)
            for key in self.cp[sec]:
                k = str(key).strip()
                try:
                    v = self.cp[sec][key]
                except configparser.InterpolationError:
                    # options of the section before the failing one may be processed first or not
                    # at all; the property only says that the parse fails.
                    raise Raised((configparser.InterpolationError, KeyError), "interpolation")
                v = clean(v)
                tok = shlex.split(k)
                op = None
                if OPNAME.match(tok[0]):
                    op = tok[0].replace("-", "_")
                if op is not None and op in handled and op not in ("initialize", "finalize"):
                    e = dict(kind="op", section=sec, op=op, params=tok[1:], value=v, raw=(k, v))
                    if op == "use":
                        tgt = tok[1]
                        if tgt in stack:
                            cycles.append((sec, tgt))
                            trace.append(dict(e, kind="cycle"))
                            if ecl >= 5:
                                raise Raised(ValueError, f"cycle {sec!r}->{tgt!r}")
                        else:
                            visit(tgt)
                    else:
                        trace.append(e)
                        if on_op:
                            on_op(op, e)
                else:
                    data[k] = v
                    trace.append(dict(kind="generic", section=sec, raw=(k, v)))
            stack.pop()

        try:
            if initialize:
                trace.append(dict(kind="init", section=root))
                if on_op:
                    on_op("initialize", trace[-1])
                if root != self.default and self.cp.has_section(self.default):
                    stack.append(root)
                    visit(self.default)
                    stack.pop()
            visit(root)
            if finalize:
                trace.append(dict(kind="fin", section=root))
                if on_op:
                    on_op("finalize", trace[-1])
        except Raised as e:
            e.trace, e.cycles = trace, cycles
            raise
        return data, trace, cycles


# ---------------------------------------------------------------------------
#  Generators
# ---------------------------------------------------------------------------

SECTION_NAMES = [
    "A", "B", "C", "D", "E", "SEC A", "SEC B", "sec a", "SEC-A", "SEC-A+", "SEC A+", "a.b", "a/b",
    "1", "10", "use", "use A", "AA", "ABC", "Ünï", "名前", "default", "x y z", "gcc@7.3.0",
    "machine-type-1", "machine-type-1_host", "[x]"[1:-1] + "y", "Common", "COMMON", "it-s", "k1",
    "A ,B", "(A)", "*", "~tilde", "{A}", "a_b", "a-b", "_A", "Z9", "finalize", "initialize", "None",
    " A", "A ", " lead and trail ", "A\tB", "use  A", "#x", ";y", "'q'", "$HOME", "a\\b", "50%", "%(x)s",
]

KEYS = [
    "key1", "key2", "key3", "Key1", "KEY1", "key with spaces", "key 'quoted part'", "k-1", "k_1",
    "use-this foo", "user X", "Use A", "USE A", "a.b", "a/b c", "-D FOO", "--flag", "1", "42 x",
    "key1 p1 p2", "use_", "use.x A", "op-x A", "initialize", "finalize X", "initialize-it",
    "ключ", "généric opt", "handler_use", '"quoted op" x', "op\\ x", "key #1", "key ; 2", "x y  z",
    "_private opt", "__dunder__", "k+1", "k@2 z", "opt,a", "CMAKE_BUILD_TYPE STRING", "None", "a",
    "b", "c", "d", "zz-top_x", "get", "items", "data", "set value", "section", "key1 ", "[x]y",
    "parse_section", "unset", "envvar", "option-1", "option_1", "option 1",
]

VALUES = [
    None, "", "v1", "v2", "value two", '"quoted"', "  padded  ", "a=b:c", "multi\nline",
    "m1\nm2\nm3", "50%%", "unicode é中", "'single'", '""', 'ends"', '"starts', "0", "None", "True",
    "x" * 120, "# hash", "; semi", "use A", "[A]", "${HOME}", "$X/y", "a  b   c", "\\back\\slash",
    "tab\there", "1,2,3", "{}", "{0}", "%%s", "-", "a b\nc d", '"a" "b"', '" spaced "', "\nleading",
    "key1", "v1 # trailing", "=", ":", "::x", "a\n\nb", "p\n\n\nq r\ns",
    '"q1"\n"q2"', 'x\n"y z"\n"w', '"\nk : v\n"', "%%1\n2%%\n%%", "\u00a0nb\u00a0", "[A]\n[B]", '"""', '""x""', "a\n'b'\n-",
    "a%%b%%c", "sep\u2028line", "form\x0cfeed", "next\x85line\nand on\x1cfs", "v\x0bt\n%%",
]


def quote_variants(rng, name):
    """A way to write a section name as one shlex token in a key."""
    simple = re.match(r"^[\w.@/+\-,*()~{}]+$", name) is not None
    opts = []
    if simple:
        opts += [name, name, name]
    opts += [f"'{name}'", f'"{name}"']
    if not simple:
        opts.append(re.sub(r"([^\w])", r"\\\1", name))
    return rng.choice(opts)


def use_option(rng, target, delims=("=", ":")):
    gap = rng.choice([" ", " ", " ", "  ", "\t"])
    q = quote_variants(rng, target)
    extra = " ignored" if rng.random() < 0.04 else ""
    key = "use" + gap + q + extra
    r = rng.random()
    d = rng.choice(list(delims))
    if r < 0.45:
        return [key, d, ""]
    if r < 0.9:
        return [key, "", None]
    return [key, d + " ", rng.choice(["ignored", "A", "0"])]


def sep_for(rng, delims=("=", ":")):
    d = rng.choice(list(delims))
    return rng.choice([d, " " + d, d + " ", " " + d + " ", " " + d + "  "])


def gen_option(rng, keys, delims, ops=(), values=VALUES):
    if ops and rng.random() < 0.45:
        op = rng.choice(ops)
        key = op
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            key += rng.choice([" ", " ", "  "]) + rng.choice(
                ["p", "X", "FOO", "'two words'", '"dq"', "a-b", "1", "é", "use", "p1", "x.y", "''", "#p", "p#q", ";", "a\\ b",
                 "'\"'", "x'y z'", "-", "--p", "%(x)s"])
    else:
        key = rng.choice(keys)
    v = rng.choice(values)
    if rng.random() < 0.25:
        v = f"u{rng.randrange(10**6)}"
    return [key, sep_for(rng, delims), v]


def has_delim(text, delims):
    return any(d in text for d in delims)


def gen_sections(rng, n, delims=("=", ":"), ops=(), shape=None, p_missing=0.0, names=None,
                 values=VALUES, cyc=0.3, opts_max=5, keys=None):
    """A file's worth of sections with `use` links of a given shape."""
    pool = [s for s in (names or SECTION_NAMES)]
    rng.shuffle(pool)
    sec = []
    while len(sec) < n:
        c = pool.pop() if pool else f"S{len(sec)} {rng.randrange(1000)}"
        if c not in sec and c != COMMON:
            sec.append(c)
    all_keys = [k for k in (keys or KEYS) if not has_delim(k, delims)]
    few = rng.sample(all_keys, min(len(all_keys), rng.choice([3, 6, 12, 40])))
    shape = shape or rng.choice(["dag", "dag", "dag", "random", "random", "chain", "ring", "ladder",
                                 "star", "none", "tree"])
    links = {s: [] for s in sec}
    for i, s in enumerate(sec):
        later = sec[i + 1:]
        if shape == "dag" and later:
            links[s] = [rng.choice(later) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        elif shape == "random":
            links[s] = [rng.choice(sec) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        elif shape == "chain" and later:
            links[s] = [later[0]]
        elif shape == "ring":
            links[s] = [sec[(i + 1) % n]]
        elif shape == "ladder" and later and i < 10:
            links[s] = later[:2] if rng.random() < 0.8 else later[:1]
        elif shape == "star" and i == 0:
            links[s] = rng.sample(later, len(later))
        elif shape == "tree":
            links[s] = [sec[j] for j in (2 * i + 1, 2 * i + 2) if j < n]
        if shape not in ("ring", "none") and rng.random() < cyc * 0.1:
            links[s].append(rng.choice(sec))
        if rng.random() < p_missing:
            links[s].append(rng.choice(["missing", "A+", "sec  a", sec[0].lower() + "x"]))
    out = []
    for s in sec:
        opts = []
        seen = set()
        for _ in range(rng.randrange(0, opts_max + 1)):
            o = gen_option(rng, few, delims, ops, values)
            opts.append(o)
        for t in links[s]:
            opts.append(use_option(rng, t, delims))
        rng.shuffle(opts)
        if shape == "chain" and rng.random() < 0.5:
            opts.sort(key=lambda o: 0 if o[0].startswith("use") else 1)
        uniq = []
        for o in opts:
            k = o[0].strip()
            if k in seen or k == "":
                continue
            seen.add(k)
            uniq.append(o)
        if rng.random() < 0.1:
            uniq.insert(rng.randrange(len(uniq) + 1), [rng.choice(["# comment", "; comment", ""]), "", None])
        out.append([s, uniq])
    return out


def split_files(rng, sections, nfiles):
    """Distribute sections over several files, some of them in more than one."""
    files = [[] for _ in range(nfiles)]
    for s, opts in sections:
        if len(opts) > 1 and rng.random() < 0.4:
            c = rng.randrange(len(opts) + 1)
            i, j = sorted(rng.sample(range(nfiles), 2)) if nfiles > 1 else (0, 0)
            a, b = opts[:c], opts[c:]
            if rng.random() < 0.5 and a:
                b = b + [[a[0][0], "=", "over" + str(rng.randrange(100))]]
                b = list({o[0].strip(): o for o in b}.values())
            if i == j:
                files[i].append([s, opts])
            else:
                files[i].append([s, a])
                files[j].append([s, b])
        else:
            files[rng.randrange(nfiles)].append([s, opts])
    return files


DELIM_CHOICES = [None, None, None, None, ["="], [":"], ["=", ":"], ["|"], [":", "="], [";;"], ["->"], [":=", ":"], ["--", "="]]


def gen_config(rng, big=False, ops=(), p_missing=0.0, p_default=0.3, allow_delims=True, shape=None,
               values=VALUES, max_sections=9, opts_max=5):
    """A complete configuration case: files, delimiters, default section name."""
    delims = rng.choice(DELIM_CHOICES) if allow_delims else None
    d = tuple(delims) if delims else ("=", ":")
    if delims == ["|"]:
        d = ("|", )
    for _ in range(50):
        n = rng.choice([1, 2, 3, 3, 4, 5, 6, max_sections])
        sh = shape
        if big:
            n = rng.choice([15, 25, 40, 60])
            sh = sh or rng.choice(["chain", "tree", "star", "dag", "ring", "chain"])
            if sh == "dag":
                n = 14
        secs = gen_sections(rng, n, d, ops, sh, p_missing, values=values, opts_max=opts_max)
        # section names with a delimiter cannot be referenced in a key: drop such links
        for s in secs:
            s[1] = [o for o in s[1] if not has_delim(o[0], d) or o[0].startswith(("#", ";"))]
        default = "DEFAULT"
        if rng.random() < 0.15:
            default = rng.choice([secs[0][0], "base", "DEFAULT "[:-1] + "S"])
            if rng.random() < 0.3:      # another section then has the usual name
                secs[-1][0] = "DEFAULT" if len(secs) > 1 else secs[-1][0]
        if rng.random() < p_default and not any(s[0] == default for s in secs):
            opts = [gen_option(rng, [k for k in KEYS if not has_delim(k, d)][:12], d, ops, values)
                    for _ in range(rng.randrange(1, 4))]
            if rng.random() < 0.45:
                opts.append(use_option(rng, rng.choice(secs)[0], d))
            opts = list({o[0].strip(): o for o in opts}.values())
            secs.insert(rng.randrange(len(secs) + 1), [default, opts])
        files = [secs]
        if rng.random() < 0.25:
            files = split_files(rng, secs, rng.choice([2, 2, 3]))
            for f in files:
                for s in f:
                    for o in s[1]:
                        if o[1] == "=" and "=" not in d:
                            o[1] = d[0]
        case = dict(files=files, delims=delims, default=default)
        if rng.random() < 0.1:
            case["disk"] = rng.choice([1, 2])
        try:
            m = model_of(case)
            m.check_domain()
            m.total_visits = 0
            for s in m.sections():
                try:
                    m.expand(s)
                except Raised:
                    pass
            if m.total_visits > (2500 if big else 250):
                continue
        except (BadCase, configparser.Error):
            continue
        return case
    return dict(files=[[["A", [["key1", ":", "v"]]]]], delims=None, default="DEFAULT")


def texts_of(case):
    return [f if isinstance(f, str) else render_file(f) for f in case["files"]]


def model_of(case):
    texts = texts_of(case)
    if case.get("again"):               # the first file is listed a second time at the end
        texts = texts + texts[:1]
    return Model(texts, case.get("delims"), case.get("default", "DEFAULT"))


def valid_config(case):
    try:
        m = model_of(case)
        m.check_domain()
        for s in m.sections():
            try:
                m.expand(s)
            except Raised:
                pass
        return True
    except Exception:
        return False
