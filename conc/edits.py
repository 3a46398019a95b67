"""Executable specification of the graph edits (oracle) and edit sequences."""
import itertools
from util import *


class Model:
    def __init__(self, ids):
        self.nodes = list(ids)
        self.raw, self.rec, self.hist = {}, {}, {}

    def op(self, o):
        """True if accepted"""
        k, u, v = o[0], o[1], o[2]
        if k in ("addnode",):
            if u in self.nodes:
                return False
            self.nodes.append(u)
            return True
        if k == "purge":
            for p in list(self.raw):
                if self.raw[p][0]:
                    self.rec[p] = self.raw.pop(p)
            return True
        if k == "hist":
            self.hist.setdefault((u, v), []).append(o[3])
            return True
        if u not in self.nodes or v not in self.nodes:
            return False
        both = k.endswith("_edge")
        ps = [(u, v), (v, u)] if both else [(u, v)]
        if k.startswith("add"):
            if u == v:
                return False
            for p in ps:
                self.raw[p] = [False, o[4], o[3]]
            return True
        if k.startswith("soft"):
            for p in ps:
                if p in self.raw:
                    self.raw[p][0] = True
            return True
        if k.startswith("hard"):
            for p in ps:
                if p in self.raw:
                    self.rec[p] = self.raw.pop(p)
            return True
        if k.startswith("restore"):
            if not any(p in self.raw or p in self.rec for p in ps):
                return False
            for p in ps:
                if p in self.raw:
                    self.raw[p][0] = False
                elif p in self.rec:
                    e = self.rec.pop(p)
                    self.raw[p] = [False, e[1], e[2]]
            return True
        if k.startswith("update"):
            if not all(p in self.raw for p in ps):
                return False
            for p in ps:
                if o[3] is not None:
                    self.raw[p][2] = o[3]
                if o[4] is not None:
                    self.raw[p][1] = o[4]
            return True
        raise AssertionError(k)

    def view(self):
        return {f"{u}|{v}": (bool(d), t, repr(m)) for (u, v), (d, t, m) in self.raw.items()}


def apply_real(g, nodes, o, hist_objs=None):
    """True if accepted, False if it raised"""
    k, u, v = o[0], o[1], o[2]
    nd = lambda x: nodes.get(x) or Node(name="stranger", id=x)
    try:
        if k == "addnode":
            nodes[u] = g.add_node("n" + u, [1.0, 2.0, 4.0], id_=u)
        elif k == "purge":
            g.purge_soft_deleted_edges()
        elif k == "hist":
            g.add_edge_history(nd(u), nd(v), o[3])
        elif k == "add_edge":
            g.add_edge(nd(u), nd(v), o[3], etype(o[4]))
        elif k == "add_dir":
            g.add_directed_edge(nd(u), nd(v), o[3], etype(o[4]))
        elif k == "soft_edge":
            g.remove_edge(nd(u), nd(v), soft_delete=True)
        elif k == "soft_dir":
            g.remove_directed_edge(nd(u), nd(v), soft_delete=True)
        elif k == "hard_edge":
            g.remove_edge(nd(u), nd(v))
        elif k == "hard_dir":
            g.remove_directed_edge(nd(u), nd(v))
        elif k == "restore_edge":
            g.restore_edge(nd(u), nd(v))
        elif k == "restore_dir":
            g.restore_directed_edge(nd(u), nd(v))
        elif k == "update_edge":
            g.update_edge(nd(u), nd(v), metadata=o[3], edge_type=None if o[4] is None else etype(o[4]))
        elif k == "update_dir":
            g.update_directed_edge(nd(u), nd(v), metadata=o[3], edge_type=None if o[4] is None else etype(o[4]))
        return True
    except Exception as e:
        if isinstance(e, (AttributeError, NameError, TypeError, KeyError)):
            apply_real.last = repr(e)
        return False


def ops_on(u, v, extra=True):
    out = [["add_edge", u, v, {"m": 1}, "U"], ["add_dir", u, v, {"m": 2}, "D"], ["add_dir", v, u, {"m": 3}, "D"],
           ["soft_edge", u, v], ["soft_dir", u, v], ["soft_dir", v, u], ["hard_edge", u, v], ["hard_dir", u, v], ["hard_dir", v, u],
           ["restore_edge", u, v], ["restore_dir", u, v], ["restore_dir", v, u]]
    if extra:
        out += [["update_edge", u, v, {"m": 4}, None], ["update_edge", v, u, None, "B"], ["update_dir", u, v, {"m": 5}, None],
                ["update_dir", v, u, None, "D"], ["update_dir", u, v, {}, "U"], ["purge", None, None], ["add_edge", u, v, {"m": 6}, "B"]]
    return out


def rand_op(rng, ids, unknown):
    u, v = rng.sample(ids, 2) if rng.random() > 0.07 else [rng.choice(ids)] * 2
    if rng.random() < 0.06:
        u = unknown
    if rng.random() < 0.06:
        v = unknown
    r = rng.random()
    meta = rng.choice([{}, {"m": rng.randrange(9)}, {"a": {"b": 1}}])
    t = rng.choice("DUB")
    if r < .16:
        return ["add_edge", u, v, meta, t]
    if r < .34:
        return ["add_dir", u, v, meta, t]
    if r < .42:
        return ["soft_edge", u, v]
    if r < .50:
        return ["soft_dir", u, v]
    if r < .57:
        return ["hard_edge", u, v]
    if r < .65:
        return ["hard_dir", u, v]
    if r < .72:
        return ["restore_edge", u, v]
    if r < .79:
        return ["restore_dir", u, v]
    if r < .85:
        return ["update_edge", u, v, rng.choice([None, meta]), rng.choice([None, t])]
    if r < .91:
        return ["update_dir", u, v, rng.choice([None, meta]), rng.choice([None, t])]
    if r < .94:
        return ["purge", None, None]
    if r < .97:
        return ["hist", u, v, f"h{rng.randrange(99)}"]
    return ["addnode", rng.choice(ids + ["new1", "new2"]), None]


def sequences(rng, tier):
    # every sequence of up to two (thorough: three) edits after a start state, on one pair with a bystander edge
    A = ops_on("x", "y")
    by = [["add_edge", "x", "x1", {"by": 1}, "U"], ["add_dir", "y", "x1", {"by": 2}, "D"]]
    for L in (1, 2):
        for c in itertools.product(A, repeat=L):
            yield {"n": 3, "ops": by + [list(o) for o in c]}
    for c in itertools.product(A, A[:12] if tier == "quick" else A, A[3:13]):
        yield {"n": 3, "ops": by + [list(o) for o in c]}
    if tier != "quick":
        for c in itertools.product(A[:12], repeat=4):
            yield {"n": 3, "ops": by[:1] + [list(o) for o in c]}
    for n in (8, 10):
        for _ in range(4):
            yield {"n": n, "ops": [rand_op(rng, IDS[:n], "unknown") for _ in range(150)]}
    N = 6000 if tier == "quick" else 200000
    for _ in range(N):
        n = rng.randint(2, 5)
        ids = IDS[:n]
        yield {"n": n, "ops": [rand_op(rng, ids, "unknown") for _ in range(rng.randint(3, 25))]}
