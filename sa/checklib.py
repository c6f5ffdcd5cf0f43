"""Shared plumbing of the property checks: program loading, engine runs, verdict
bookkeeping."""
import os
import sys
import time
import ir
import engine
import models as M
from engine import AnalysisBroken, Engine, Violation

PUBLIC_CORE = ("scryptenc_file", "scryptenc_buf", "scryptdec_buf", "scryptdec_file_prep",
               "scryptdec_file_copy", "scryptdec_file_printparams")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.viols = {}
        self.progs = {}
        self.funcs = set()
        self.steps = 0
        self.states = 0
        self.branches = 0
        self.paths = 0
        self.obl = {}
        self.sites = {}
        self.rules = []
        self.notes = []
        self.needs = []
        self.runs = []
        self.tags = {}
        self.unmodelled = set()
        self.config = "native"
        self.t0 = time.time()

    # -- programs --------------------------------------------------------------
    def prog(self, config=None):
        config = config or self.config
        if config not in self.progs:
            cfg = None
            if config != "native":
                cfg = os.path.join(VERIF, "cfg", config)
            self.progs[config] = ir.build_program(cfgdir=cfg)
        return self.progs[config]

    def configs(self):
        """configurations analysed: the native one, and with --tier thorough the
        portable one without any accelerated code"""
        return ["native"] if self.tier != "thorough" else ["native", "portable"]

    def func(self, name, file=None):
        p = self.prog()
        for n in (name, "libcperciva_" + name):
            c = [f for f in p.allfuncs if f.name == n]
            if c:
                break
        if not c:
            raise AnalysisBroken("anchor function %s not found" % name)
        if file:
            c = [f for f in c if file in f.module.path] or c
        return c[0]

    def has(self, name):
        return any(engine.cname(f.name) == name for f in self.prog().allfuncs)

    # -- engine ------------------------------------------------------------------
    def run(self, fn, models, monitors=(), setup=None, args=None, max_steps=4000000,
            maxstates=250, zero_globals=(), quiet=False, unroll=0):
        f = self.func(fn) if isinstance(fn, str) else fn
        E = Engine(self.prog(), models, monitors, max_steps=max_steps, maxstates=maxstates,
                   zero_globals=zero_globals)
        E.cx = self
        E.unroll = unroll
        t = time.time()
        try:
            E.run(f, args=args, setup=setup)
        except AnalysisBroken:
            # what was found before the analysis gave up stands
            for v in () if quiet else E.viol.values():
                self.add(v)
            raise
        self.steps += E.steps
        self.states += len(E.seen)
        self.branches += E.branches
        self.paths += E.paths_done
        self.funcs |= E.funcs_seen
        self.unmodelled |= set(E.unmodelled)
        self.runs.append({"function": engine.cname(f.name), "file": f.module.path,
                          "config": self.config, "steps": E.steps, "states": len(E.seen),
                          "returning_paths": E.paths_done,
                          "seconds": round(time.time() - t, 2)})
        for k, v in E.outcome_tags.items():
            self.tags[k] = self.tags.get(k, 0) + v
        for k, v in E.calls.items():
            self.sites.setdefault(k, set()).update(v)
        if not quiet:
            for v in E.viol.values():
                self.add(v)
        return E

    # -- verdict -------------------------------------------------------------------
    def add(self, v):
        self.viols.setdefault(v.key(), v)

    def violation(self, rule, where, msg, path=()):
        if hasattr(where, "loc"):
            where = "%s (%s)" % (where.loc, where.func.name)
        self.add(Violation(rule, where, msg, path))

    def ob(self, kind, n=1):
        self.obl[kind] = self.obl.get(kind, 0) + n

    def need(self, kind, least, why):
        """the analysis saw at least this many instances; fewer means that it no longer
        looks at what it is meant to look at"""
        self.needs.append((kind, least, why))

    def check_needs(self):
        for kind, least, why in self.needs:
            if self.obl.get(kind, 0) < least:
                raise AnalysisBroken("%s: %d instance(s) of '%s', expected at least %d" %
                                     (why, self.obl.get(kind, 0), kind, least))

    def broken(self, why):
        raise AnalysisBroken(why)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)


def settled(E, st, modules=None):
    """start after first use: lazily initialised module state differs from its initialiser
    (the probing of accelerated code is over)"""
    import terms as T
    for m in E.prog.modules:
        if modules is not None and not any(x in m.path for x in modules):
            continue
        for g in m.globals.values():
            if g.const or g.init is None or not g.ty.size or g.ty.size > 8:
                continue
            iv = {"c": lambda: T.C(g.init[1], 8 * g.ty.size), "null": lambda: T.ZERO,
                  "zero": lambda: T.C(0, 8 * g.ty.size)}.get(g.init[0])
            if iv is None:
                continue
            p = ("p", ("g", g.key), T.ZERO)
            E.assume(st, T.mkcmp("ne", E.load(st, p, g.ty.size), iv()), 1)
