"""Representation invariant and abstract view of the causy graph (symbolic side)."""
import z3
from .base import *
from .interp import HEAP, fresh_heap, hist_app, hist_empty

SEL = z3.Select


def sel2(a, u, v):
    return SEL(SEL(a, u), v)


class View:
    """abstract view of a heap: the vocabulary in which the contracts are written"""
    def __init__(self, heap):
        self.h = heap

    def node(self, u):
        return SEL(self.h["nodes"], u)

    def out(self, u):
        return SEL(self.h["E_out"], u)

    def raw(self, u, v):                      # an edge record u->v is stored (possibly soft deleted)
        return And(SEL(self.h["E_out"], u), sel2(self.h["E"], u, v))

    def ref(self, u, v):
        return sel2(self.h["E_ref"], u, v)

    def dead(self, u, v):
        return SEL(self.h["f_deleted"], self.ref(u, v))

    def live(self, u, v):                     # directed edge u->v present
        return And(self.raw(u, v), Not(self.dead(u, v)))

    def etype(self, u, v):
        return SEL(self.h["f_type"], self.ref(u, v))

    def meta(self, u, v):
        return SEL(self.h["f_meta"], self.ref(u, v))

    def rec(self, u, v):                      # remembered removed edge
        return And(SEL(self.h["D_out"], u), sel2(self.h["D"], u, v))

    def rref(self, u, v):
        return sel2(self.h["D_ref"], u, v)

    def rtype(self, u, v):
        return SEL(self.h["f_type"], self.rref(u, v))

    def rmeta(self, u, v):
        return SEL(self.h["f_meta"], self.rref(u, v))

    def hist(self, u, v):
        return sel2(self.h["H"], u, v)

    def hlist(self, u, v):
        return sel2(self.h["H_list"], u, v)

    # derived
    def adj(self, u, v):
        return Or(self.live(u, v), self.live(v, u))

    def und(self, u, v):
        return And(self.live(u, v), self.live(v, u))

    def only(self, u, v):
        return And(self.live(u, v), Not(self.live(v, u)))


def RI(h, with_names=False):
    """representation invariant, as a list of named closed formulas"""
    u, v = z3.Consts("ri_u ri_v", Id)
    E, R_, D = h["E"], h["R"], h["D"]
    Eo, Ro, Do = h["E_out"], h["R_out"], h["D_out"]
    ein = z3.And(SEL(Eo, u), sel2(E, u, v))
    rin = z3.And(SEL(Ro, v), sel2(R_, v, u))
    din = z3.And(SEL(Do, u), sel2(D, u, v))
    er, rr, dr = sel2(h["E_ref"], u, v), sel2(h["R_ref"], v, u), sel2(h["D_ref"], u, v)
    pats = [sel2(E, u, v)]

    def fa(b, *pt):
        return z3.ForAll([u, v], b, patterns=list(pt)) if pt else z3.ForAll([u, v], b)
    parts = [
        ("outer maps agree", z3.ForAll([u], z3.And(SEL(Eo, u) == SEL(Ro, u), SEL(Eo, u) == SEL(Do, u)))),
        ("outer keys are nodes", z3.ForAll([u], z3.Implies(SEL(Eo, u), SEL(h["nodes"], u)))),
        ("outgoing and incoming view list the same edges", fa(ein == rin)),
        ("both views hold the same record", fa(z3.Implies(ein, er == rr))),
        ("edges join distinct nodes", fa(z3.Implies(ein, z3.And(u != v, SEL(Eo, v))))),
        ("an edge knows its endpoints", fa(z3.Implies(ein, z3.And(SEL(h["f_u"], er) == u, SEL(h["f_v"], er) == v)))),
        ("records are allocated", fa(z3.Implies(ein, SEL(h["alloc"], er)))),
        ("removed edges join distinct nodes", fa(z3.Implies(din, z3.And(u != v, SEL(Eo, v))))),
        ("a removed edge knows its endpoints", fa(z3.Implies(din, z3.And(SEL(h["f_u"], dr) == u, SEL(h["f_v"], dr) == v, SEL(h["alloc"], dr))))),
        ("removed and present records are distinct", fa(z3.Implies(z3.And(ein, din), er != dr))),
    ]
    return parts if with_names else [p[1] for p in parts]
