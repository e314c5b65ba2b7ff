"""Explicit rules, each a necessary condition of the property that lists it."""
from . import engine

RULES = {}


def rule(text):
    def deco(f):
        RULES[f.__name__] = (f, text)
        return f
    return deco


def run(name, ctx):
    r = engine.Rule(name, RULES[name][1] if name in RULES else '')
    if name in RULES:
        RULES[name][0](ctx, r)
    return r
