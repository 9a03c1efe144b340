"""Interpretation of the generator: schema text with unknown numbers -> syntax tree -> rendered bindings."""
import os
import warnings

from . import jinja_ai
import pyparsing

from .pylib import *
from .pyai import PyRaise, Unsupported

warnings.simplefilter("ignore")
GEN = ROOTS["flatdata.generator"]


def gen_program():
    return Program({"flatdata.generator": GEN})


def setup(I):
    I.ph = {}
    I.hostmods = ("pyparsing",)
    I.missing = {"Levenshtein"}
    m = Module("pyparsing", None)
    m.ns.update({k: getattr(pyparsing, k) for k in dir(pyparsing) if not k.startswith("__")})
    I.modules["pyparsing"] = m
    jinja_ai.install(I, {"flatdata.generator": GEN, "flatdata": os.path.dirname(GEN)})
    I.prog_path = lambda node: os.path.join(GEN, "templates", "*")
    I.max_steps = 6000000


def num(I, name, lo=None, hi=None):
    """token for a fresh unknown number"""
    v = sym(name)
    if lo is not None:
        I.facts.assume(le0(lin_add(lo, v, -1)), True)
    if hi is not None:
        I.facts.assume(le0(lin_add(v, hi, -1)), True)
    return I.token(v)


def build(I, text):
    b = I.import_module("flatdata.generator.tree.builder")
    return I.call(b.ns["build_ast"], [text], {})


def find(I, tree, path):
    return I.call(I.getattr(tree, "find"), [path], {})


def attr(I, o, *names):
    for n in names:
        o = I.getattr(o, n)
    return o


def name_of(I, o):
    return attr(I, o, "name")
