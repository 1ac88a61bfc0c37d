"""Contract registry."""
from __future__ import annotations
from dataclasses import dataclass, field


@dataclass
class VC:
    name: str
    harness: object
    functions: tuple = ()          # functions under contract (module:qualname)
    covers: tuple = ()             # named points that must be reachable (vacuity guard)
    budget: float = 300.0
    query_ms: int = 20000
    while_limit: int = 9
    stubs: object = None           # callable -> {function: model}
    bounded: str = ""              # non-empty: this VC is a bounded check, with the bound
    assumes: tuple = ()            # assumptions this VC leaves unchecked
    terminates: bool = False       # every cut while-loop must have a decreasing measure


@dataclass
class Prop:
    id: str
    vcs: list = field(default_factory=list)
    search: object = None          # module-level callable(seed, tier, report) run on the real code: bounded cross-check
    trusted: tuple = ()


PROPS = {}


def prop(id, trusted=()):
    p = PROPS.get(id)
    if p is None:
        p = PROPS[id] = Prop(id, trusted=tuple(trusted))
    return p


def vc(pid, name, **kw):
    def deco(f):
        prop(pid).vcs.append(VC(name, f, **kw))
        return f
    return deco


def thorough():
    import os
    import sys
    return "thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
