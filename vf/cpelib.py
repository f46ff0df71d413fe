"""Shared helpers for the checks of the core parser."""
import os
from pathlib import Path

from . import ini
from .ini import Raised


def mods():
    """The code under test (imported lazily: only inside worker processes)."""
    import configparserenhanced as m
    return m


def cpe_class():
    return mods().ConfigParserEnhanced


def build(case, mon, cls=None, paths=None, how=None):
    """Construct and configure a parser object from a case."""
    cls = cls or cpe_class()
    if paths is None:
        paths = ini.write_files(mon.dir(), case["files"], disk=case.get("disk", 0))
        if case.get("again"):
            paths = paths + paths[:1]
    how = case.get("how", 0) if how is None else how
    if len(paths) == 1 and how % 4 == 0:
        arg = paths[0]
    elif len(paths) == 1 and how % 4 == 1:
        arg = Path(paths[0])
    elif how % 4 == 2:
        arg = [Path(p) for p in paths]
    else:
        arg = list(paths)
    if how % 3 == 1:
        obj = cls()
        obj.inifilepath = arg
    else:
        obj = cls(arg) if how % 2 else cls(filename=arg)
    d = case.get("delims")
    if d:
        obj.configparser_delimiters = tuple(d) if how % 2 else list(d)
    if case.get("default", "DEFAULT") != "DEFAULT":
        obj.default_section_name = case["default"]
    if "ecl" in case:
        obj.exception_control_level = case["ecl"]
    if case.get("debug"):
        obj.debug_level = case["debug"]
    if case.get("silentw"):
        obj.exception_control_silent_warnings = True
    return obj


def plain(d):
    """A section's data as a plain dict."""
    return {k: v for k, v in d.items()}


class Inconsistent(Exception):
    """Two public accessors contradict each other."""


def access(obj, sec, how):
    """Read one whole section through one of the public accessors."""
    v = obj.configparserenhanceddata
    how %= 8
    if how == 0:
        return plain(v[sec])
    if how == 1:
        return plain(v.get(sec))
    if how == 2:
        return plain(v.options(sec))
    if how == 3:
        return dict(v.items(sec))
    if how == 4:
        obj.parse_section(sec)
        return plain(v.get(sec))
    if how == 5:
        if not v.has_section(sec):
            if sec in list(v.sections()):
                raise Inconsistent(f"has_section({sec!r}) is False for a listed section")
            raise KeyError(sec)
        return plain(v[sec])
    if how == 6:
        d = plain(v[sec])
        return {k: v.get(sec, k) for k in d}
    d = plain(v.options(sec))
    out = {}
    for k in d:
        if v.has_option(sec, k):
            out[k] = v[sec][k]
    return out


def predict(model, sec, **kw):
    """('ok', data, trace, cycles) or ('exc', Raised)"""
    try:
        return ("ok", ) + model.expand(sec, **kw)
    except Raised as e:
        return ("exc", e)


def unambiguous(p):
    """No key occurs twice in the expansion, so that the order of the options is clear."""
    return sum(e["kind"] == "generic" for e in p[2]) == len(p[1])


def compare_access(mon, what, p, res):
    """Judge one access result (as returned by mon.call) against a prediction."""
    tag, val = res
    mon.ev("oracle:section-data")
    if p[0] == "exc":
        if tag == "ok":
            mon.fail("missing-exception",
                     f"{what}: returned {val!r}, should raise {p[1].types} ({p[1].why})")
        if not isinstance(val, p[1].types):
            from .core import describe
            mon.fail("wrong-exception",
                     f"{what}: raised {describe(val)}, should raise {p[1].types} ({p[1].why})")
        return False
    if tag != "ok":
        from .core import describe
        mon.fail("unexpected-exception", f"{what}: raised {describe(val)}")
    if val != p[1]:
        mon.fail("section-data", f"{what}: observed {val!r} expected {p[1]!r}")
    if unambiguous(p) and list(val) != list(p[1]):
        mon.fail("option-order", f"{what}: observed the options in the order {list(val)!r} expected {list(p[1])!r}")
    return True


# ---------------------------------------------------------------------------
#  Subclasses with recording handlers
# ---------------------------------------------------------------------------

def make_handlers(spec, log, base=None, on_call=None):
    """A ConfigParserEnhanced subclass with recording handlers.

    spec: list of [op, visibility, decorated, rval]; visibility 0 public,
    1 private, 2 both.  `log(entry)` gets every invocation, on_call(op, hp)
    may return the return value (or raise).
    """
    base = base or cpe_class()
    deco = cpe_class().operation_handler
    ns = {}

    def mk(attr, op, rval):
        def handler(self, section_name, handler_parameters):
            hp = handler_parameters
            seq = hp.data_shared.setdefault("seq", [])
            log(dict(
                attr=attr, section=section_name, root=hp.section_root, op=hp.op,
                params=list(hp.params), value=hp.value, raw=tuple(hp.raw_option),
                handler_name=hp.handler_name, shared=id(hp.data_shared), nseq=len(seq)
            ))
            seq.append(attr)
            if on_call:
                r = on_call(attr, op, self, section_name, hp)
                if r is not None:
                    return r[0]
            return rval
        handler.__name__ = attr
        return handler

    for op, vis, dec, rval in spec:
        opn = op.replace("-", "_")
        attrs = []
        if opn in ("initialize", "finalize"):
            attrs = ["handler_" + opn]
        else:
            if vis in (0, 2):
                attrs.append("handler_" + opn)
            if vis in (1, 2):
                attrs.append("_handler_" + opn)
        for a in attrs:
            f = mk(a, opn, rval)
            ns[a] = deco(f) if dec else f
    return type("Recorder", (base, ), ns)


def record_events(cls, events):
    """Subclass recording every conditional-exception event before it acts."""

    class WithEvents(cls):

        def exception_control_event(self, event_type, exception_type, message=None):
            events.append((str(event_type).upper(), exception_type))
            return super().exception_control_event(event_type, exception_type, message)

    WithEvents.__name__ = cls.__name__
    return WithEvents
