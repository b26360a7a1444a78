"""Harnesses: one function per aspect of a property, run unchanged by the
symbolic engine and by the concrete replays."""
import importlib
import os

REG = {}
ORDER = []


class Harness:
    def __init__(self, prop, name, fn, configs, budget, max_paths, query_ms):
        self.prop, self.name, self.fn, self.configs = prop, name, fn, configs
        self.budget, self.max_paths, self.query_ms = budget, max_paths, query_ms

    def run(self, env, grp=None, **cfg):
        if grp is not None:
            from . import util
            env = util.group_env(env, grp)
            if env is None:
                return None
        return self.fn(env, **cfg)


def harness(props, configs, budget=40.0, max_paths=64, query_ms=10000, groups=0):
    if isinstance(props, str):
        props = [props]

    def all_configs(tier):
        out = list(configs(tier))
        if groups:          # some of them by groups of processes on communicators of their own
            from . import util
            out += util.grouped(out, groups if tier == "quick" else 6 * groups)
        return out

    def deco(fn):
        name = fn.__module__.split(".")[-1] + "." + fn.__name__
        REG[name] = Harness(props, name, fn, all_configs, budget, max_paths, query_ms)
        ORDER.append(name)
        return fn
    return deco


def get(name):
    load_all()
    return REG[name]


def load_all():
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith("h_") and f.endswith(".py"):
            importlib.import_module("harness." + f[:-3])


def for_prop(prop):
    load_all()
    return [REG[n] for n in ORDER if prop in REG[n].prop]
