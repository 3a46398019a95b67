"""independent oracle for d-separation: definition over all simple paths, and (DAGs) reachability / moralisation"""
import itertools


def paths(adj, u, v):
    out = []

    def go(p):
        if p[-1] == v:
            out.append(p)
            return
        for y in adj.get(p[-1], ()):
            if y not in p:
                go(p + [y])
    go([u])
    return out


def closure(ch, s):
    seen, todo = set(s), list(s)
    while todo:
        for y in ch.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def dsep_dag(ids, d, u, v, z):
    """d: set of (a, b); moralised ancestral graph criterion"""
    pa = {}
    for a, b in d:
        pa.setdefault(b, set()).add(a)
    anc = closure(pa, {u, v} | set(z))
    und = {x: set() for x in anc}
    for a, b in d:
        if a in anc and b in anc:
            und[a].add(b)
            und[b].add(a)
    for x in anc:
        for a, b in itertools.combinations(sorted(pa.get(x, ())), 2):
            und[a].add(b)
            und[b].add(a)
    seen, todo = {u}, [u]
    while todo:
        for y in und[todo.pop()]:
            if y not in seen and y not in z:
                seen.add(y)
                todo.append(y)
    return v not in seen


def dsep_cpdag(ids, d, un, u, v, z):
    """d: one-way directed edges, un: undirected edges (both orders)"""
    adj = {x: set() for x in ids}
    for a, b in d | un:
        adj[a].add(b)
        adj[b].add(a)
    if v in adj[u]:
        return False
    ch = {}
    for a, b in d:
        ch.setdefault(a, set()).add(b)
    z = set(z)
    for p in paths(adj, u, v):
        definite, blocked = True, False
        for a, m, b in zip(p, p[1:], p[2:]):
            coll = (a, m) in d and (b, m) in d
            nonc = (m, a) in d or (m, b) in d or (b not in adj[a] and not coll)
            if not coll and not nonc:
                definite = False
            if coll and not (closure(ch, {m}) & z):
                blocked = True
            if nonc and not coll and m in z:
                blocked = True
        if definite and not blocked:
            return False
    return True
