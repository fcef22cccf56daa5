"""Building a driver from generated source and comparing it with a hand-written description: which nodes exist, what each one depends
on, and what each one evaluates to."""
from __future__ import annotations
from mc.core import exc_brief
from mc.progs import make_module, drop_module
from hamilton import driver, settings

HDR = "from hamilton.function_modifiers import *\nfrom typing import *\n"


def build(srcs, config=None, power=True, adapters=(), overrides=False):
    mods = [make_module(HDR + s) for s in ([srcs] if isinstance(srcs, str) else srcs)]
    cfg = dict(config or {})
    if power:
        cfg[settings.ENABLE_POWER_USER_MODE] = True
    try:
        b = driver.Builder().with_modules(*mods).with_config(cfg)
        if overrides:
            b = b.allow_module_overrides()
        if adapters:
            b = b.with_adapters(*adapters)
        return b.build(), mods
    except BaseException:
        for m in mods:
            drop_module(m)
        raise


def nodes_of(dr):
    """name -> (is input, required dependencies, optional dependencies)"""
    out = {}
    for n in dr.list_available_variables():
        if n.name.startswith("hamilton.") or n.name == settings.ENABLE_POWER_USER_MODE:
            continue
        out[n.name] = (bool(n.is_external_input), frozenset(n.required_dependencies), frozenset(n.optional_dependencies))
    return out


def same(a, b):
    """equality that also works for arrays and frames, and distinguishes types"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(map(repr, a)) == list(map(repr, b)) and all(same(a[k], b[k]) for k in a)
    if hasattr(a, "equals"):
        return bool(a.equals(b)) and list(getattr(a, "columns", [])) == list(getattr(b, "columns", []))
    return a == b


def compare(srcs, want_nodes, runs, config=None, hidden=()):
    """want_nodes: name -> None or set of dependencies (inputs: the string 'input'); runs: list of (outputs, inputs, overrides, want values or Exception).
    hidden: prefixes of extra nodes that are tolerated.  -> None or what differs"""
    try:
        dr, mods = build(srcs, config)
    except Exception as e:
        return "building raised " + exc_brief(e)
    try:
        return compare_driver(dr, want_nodes, runs, hidden)
    finally:
        for m in mods:
            drop_module(m)


def compare_driver(dr, want_nodes, runs, hidden=()):
    got = nodes_of(dr)
    if want_nodes is not None:
        extra = [n for n in got if n not in want_nodes and not any(n.startswith(h) for h in hidden)]
        lost = [n for n in want_nodes if n not in got]
        if extra or lost:
            return "nodes not expected: %s; nodes missing: %s" % (sorted(extra), sorted(lost))
        for n, w in want_nodes.items():
            inp, req, opt = got[n]
            if (w == "input") != inp:
                return "node %s %s an input" % (n, "is" if inp else "is not")
            if w not in (None, "input") and req | opt != set(w):
                return "node %s depends on %s, expected %s" % (n, sorted(req | opt), sorted(w))
    for outs, inputs, overrides, want in runs:
        try:
            r = dr.execute(list(outs), inputs=dict(inputs), overrides=dict(overrides or {}))
        except Exception as e:
            if want is Exception:
                continue
            return "executing %s with inputs %s raised %s" % (list(outs), sorted(inputs), exc_brief(e))
        if want is Exception:
            return "executing %s with inputs %s gave %r, expected an error" % (list(outs), sorted(inputs), r)
        if list(r) != list(outs) or not same({k: r[k] for k in outs}, {k: want[k] for k in outs}):
            bad = [k for k in outs if k not in r or not same(r[k], want[k])]
            return "executing %s with inputs %s overrides %s: %s is %r, expected %r" % (
                list(outs), sorted(inputs), sorted(overrides or {}), bad, [r.get(k) for k in bad], [want[k] for k in bad])
    return None
