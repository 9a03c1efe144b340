"""shared set-up for the checks of the Python library"""
import os

from .dom import *
from .pyai import *
from . import pyai
from .report import REPO, AnalysisBroken

ROOTS = {
    "flatdata.lib": os.path.join(REPO, "flatdata-py/flatdata/lib"),
    "flatdata.generator": os.path.join(REPO, "flatdata-generator/flatdata/generator"),
}


def program(generator=False):
    roots = dict(ROOTS)
    if not generator:
        del roots["flatdata.generator"]
    return Program(roots)


def ext_opaque(names):
    """models for numpy/pandas style libraries: calls are events with an opaque result"""
    return {}


def run(prog, scenario, **kw):
    """explore, mapping analysis limits to AnalysisBroken with location"""
    try:
        return explore(prog, scenario, **kw)
    except Top as e:
        raise AnalysisBroken("cannot interpret: %s" % (e,))


def source_info(prog, r):
    r.extra["functions_analysed"] = sorted("%s:%s" % (os.path.relpath(p, REPO) if p and p.startswith("/") else p, n)
                                           for p, n in prog.functions if p and p.startswith(REPO))
    r.extra["files"] = sorted(os.path.relpath(p, REPO) for p in prog.consulted)
    r.extra["call_sites_interpreted"] = len([s for s in prog.sites if s[0] and s[0].startswith(REPO)])
