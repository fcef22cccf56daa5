"""Shared laboratory for the caching properties: small dataflows with versioned function sources, run against the real caching
adapter and stores; uncached reference values; snapshots of stores; corruption of stored entries."""
from __future__ import annotations
import copy, itertools, os, pathlib, shutil, sys, tempfile
from mc.progs import make_module
from hamilton import driver
from hamilton.caching.cache_key import decode_key
from hamilton.caching.stores.memory import InMemoryMetadataStore, InMemoryResultStore
from hamilton.caching.stores.file import FileResultStore
from hamilton.caching.stores.sqlite import SQLiteMetadataStore
from hamilton.execution import executors

SHM = os.environ.get("VERIF_SHM") or None
HDR = ("from hamilton.function_modifiers import *\nfrom hamilton.htypes import Parallelizable, Collect\n"
       "from typing import *\n")
LOG = []  # names of the functions called, in order


class Prog:
    """name -> list of alternative sources of that function (code versions); dims: further settings of a run"""

    def __init__(self, name, fns, inputs, overrides=({},), outputs=(), behaviours=({},), configs=({},), dynamic=False, targets=()):
        self.name, self.fns, self.inputs, self.overrides, self.outputs = name, fns, list(inputs), list(overrides), list(outputs)
        self.behaviours, self.configs, self.dynamic, self.targets = list(behaviours), list(configs), dynamic, list(targets)
        self.mods, self.refs = {}, {}
        self.dims = [("code:" + n, len(v)) for n, v in fns.items()] + [("input", len(self.inputs)), ("override", len(self.overrides)),
                ("outputs", len(self.outputs)), ("behaviour", len(self.behaviours)), ("config", len(self.configs))]

    def start(self):
        return (0,) * len(self.dims)

    def versions(self, st):
        return st[:len(self.fns)]

    def setting(self, st, dim):
        k = len(self.fns) + ("input", "override", "outputs", "behaviour", "config").index(dim)
        return (self.inputs, self.overrides, self.outputs, self.behaviours, self.configs)[k - len(self.fns)][st[k]]

    def changes(self):
        """all (dimension index, new value) pairs; value None means nothing changes"""
        out = [None]
        for i, (n, k) in enumerate(self.dims):
            for v in range(k):
                out.append((i, v))
        return out

    def apply(self, st, ch):
        if ch is None:
            return st
        i, v = ch
        return None if st[i] == v else st[:i] + (v,) + st[i + 1:]

    def module(self, versions):
        if versions not in self.mods:
            # one module name for all versions of the dataflow, as when a file is edited between runs
            self.mods[versions] = make_module(HDR + "\n".join(s[v] for (s, v) in zip(self.fns.values(), versions)), name="lab_" + self.name,
                                              env={"LOG": LOG})
        return self.mods[versions]

    def builder(self, st):
        mod = self.module(self.versions(st))
        sys.modules[mod.__name__] = mod
        b = driver.Builder().with_modules(mod).with_config(dict(self.setting(st, "config")))
        if self.dynamic:
            b = (b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor())
                 .with_remote_executor(executors.SynchronousLocalTaskExecutor()))
        return b

    def args(self, st):
        return dict(inputs=copy.deepcopy(self.setting(st, "input")), overrides=copy.deepcopy(self.setting(st, "override")))

    def reference(self, st):
        """what a run without a cache returns"""
        k = self.versions(st) + (st[len(self.fns)], st[len(self.fns) + 1], st[len(self.fns) + 2], st[len(self.fns) + 4])
        if k not in self.refs:
            a = self.args(st)
            self.refs[k] = self.builder(st).build().execute(self.setting(st, "outputs"), **a)
        return self.refs[k]

    def cached_driver(self, st, stores):
        kw = {k: (v if v is True or isinstance(v, str) else list(v)) for k, v in self.setting(st, "behaviour").items()}
        if stores.kind == "disk":  # the default stores, opened anew as after a restart
            return self.builder(st).with_cache(path=stores.dir, **kw).build()
        return self.builder(st).with_cache(metadata_store=stores.meta, result_store=stores.res, **kw).build()

    def run(self, st, dr):
        del LOG[:]
        a = self.args(st)
        return dr.execute(self.setting(st, "outputs"), **a)


class MemStores:
    kind = "memory"

    def __init__(self):
        self.meta, self.res = InMemoryMetadataStore(), InMemoryResultStore()

    def snapshot(self):
        n = MemStores.__new__(MemStores)
        n.meta, n.res = copy.deepcopy((self.meta, self.res))
        return n

    def close(self):
        pass


class DiskStores:
    kind = "disk"

    def __init__(self, src=None):
        self.dir = tempfile.mkdtemp(prefix="cs", dir=SHM)
        if src is not None:
            shutil.copytree(src, self.dir, dirs_exist_ok=True)
        self.reopen()

    def reopen(self):
        self.meta, self.res = SQLiteMetadataStore(path=self.dir), FileResultStore(path=self.dir)

    def snapshot(self):
        return DiskStores(self.dir)

    def files(self):
        return sorted(p for p in pathlib.Path(self.dir).rglob("*") if p.is_file() and "metadata_store" not in p.name)

    def close(self):
        try:
            self.meta._connection.close()
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)


def contents(stores):
    """canonical content of the stores seen through their public interface (entries that can never be found again are left out)"""
    out = {}
    for r in stores.meta.get_run_ids():
        for e in stores.meta.get_run(r):
            k = e["cache_key"]
            if k is None:
                continue
            dv = stores.meta.get(k)
            if dv is None:
                continue
            try:
                d = decode_key(k)
                if any(x.startswith(("<disable>", "<unhashable>")) for x in d["dependencies_data_versions"].values()):
                    continue
            except Exception:
                pass
            out[k] = (dv, bool(stores.res.exists(dv)))
    return tuple(sorted(out.items()))


def last_data_versions(stores):
    """(data versions of stored keys, in the order found)"""
    seen = []
    for r in stores.meta.get_run_ids():
        for e in stores.meta.get_run(r):
            dv = e["data_version"]
            if dv is not None and dv not in seen:
                seen.append(dv)
    return seen


def mutations(stores):
    """every single damage/removal of stored entries that is applicable in this state"""
    out = [("delete_all_results",), ("delete_all_metadata",)]
    n = len(last_data_versions(stores))
    out += [("delete_result", i) for i in range(n)]
    if stores.kind == "disk":
        for i, _ in enumerate(stores.files()):
            out += [("corrupt", i, "empty"), ("corrupt", i, "half"), ("corrupt", i, "garbage"), ("unlink", i)]
        out.append(("delete_db",))
    return out


def mutate(stores, m):
    if m[0] == "delete_all_results":
        stores.res.delete_all()
    elif m[0] == "delete_all_metadata":
        stores.meta.delete_all()
    elif m[0] == "delete_result":
        stores.res.delete(last_data_versions(stores)[m[1]])
    elif m[0] in ("corrupt", "unlink"):
        f = stores.files()[m[1]]
        if m[0] == "unlink":
            f.unlink()
        else:
            b = f.read_bytes()
            f.write_bytes(b"" if m[2] == "empty" else b[:len(b) // 2] if m[2] == "half" else b"\x00garbage")
    elif m[0] == "delete_db":
        try:
            stores.meta._connection.close()
        except Exception:
            pass
        for p in pathlib.Path(stores.dir).glob("metadata_store*"):
            p.unlink()
        stores.reopen()
