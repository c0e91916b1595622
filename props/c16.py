"""C16: element lookup by nodes and element adjacency."""
import gc
import itertools
import weakref

import numpy as np

from sx.harness import Harness
from .c15 import mesh_with
from .common import mod, thorough

ASSUMPTIONS = [
    "node numbers are decided by splitting on their value; the connectivity of one element is arbitrary, the others fixed",
    "object identity is modelled adversarially: the identity of a mesh that is gone may be handed to the next mesh",
]
FN = ["mesh.utils.get_elements_by_nodes", "mesh.utils.build_element_adjacency_matrix",
      "mesh.utils.build_element_adjacency_matrix_fast", "mesh.utils.get_adjacent_elements",
      "mesh.utils.get_adjacent_elements_fast", "composer.adjacency_matrix"]


class Ids:
    """Model of id(): an identity is given to a later object as soon as its owner is gone."""

    def __init__(self):
        self.owners = []

    def __call__(self, obj):
        for r, n in self.owners:
            if r() is obj:
                return n
        for k, (r, n) in enumerate(self.owners):
            if r() is None:
                self.owners[k] = (weakref.ref(obj), n)
                return n
        self.owners.append((weakref.ref(obj), 1000 + len(self.owners)))
        return self.owners[-1][1]


class patched_id:
    def __init__(self, m):
        self.m = m

    def __enter__(self):
        self.had = "id" in self.m.__dict__
        self.old = self.m.__dict__.get("id")
        self.m.id = Ids()
        f = getattr(self.m, "get_elements_by_nodes")
        if hasattr(f, "_cache"):
            f._cache.clear()

    def __exit__(self, *a):
        if self.had:
            self.m.id = self.old
        else:
            del self.m.id
        f = getattr(self.m, "get_elements_by_nodes")
        if hasattr(f, "_cache"):
            f._cache.clear()


def nodes4(env, name, hi, fixed=()):
    """Four different node numbers in [0, hi]."""
    out = []
    for k in range(4):
        v = env.int(f"{name}{k}", 0, hi)
        for w in out:
            env.assume(v != w)
        out.append(int(v))
    return out


def tet_mesh(env, elems, npts):
    return mesh_with(env, "tet", np.array(elems).T, [[float(j), float(j * j % 5), float(j % 3)] for j in range(npts)])


def want_elements(t, nodes):
    return [e for e in range(t.shape[1]) if any(int(x) in nodes for x in t[:, e])]


def lookup(as_list, k):
    def body(env):
        ut = mod("sktopt.mesh.utils")
        n = 7
        elems = [[0, 1, 2, 3], [1, 2, 3, 4], [3, 4, 5, 6], [6, 5, 0, 2]]
        m = tet_mesh(env, elems, n + 1)
        tgt = [env.int(f"n{i}", 0, n) for i in range(k)]
        arr_ = lambda xs: np.array([int(x) for x in xs], dtype=np.int64)  # noqa: E731
        with patched_id(ut), env.code(ut):
            if as_list:
                got = ut.get_elements_by_nodes(m, [arr_(tgt[:1]), arr_(tgt[1:])])
            else:
                got = ut.get_elements_by_nodes(m, arr_(tgt))
            again = ut.get_elements_by_nodes(m, arr_(tgt[:1]))
        w = want_elements(m.t, {int(x) for x in tgt})
        env.check([int(e) for e in got] == w, "exactly the elements containing a given node, sorted, each once")
        env.check([int(e) for e in again] == want_elements(m.t, {int(tgt[0])}), "a second lookup on the same mesh")
        env.check(got.dtype.kind in "iu", "element numbers are integers")
    return body


def any_connectivity(env):
    ut = mod("sktopt.mesh.utils")
    e1 = nodes4(env, "a", 5 if thorough() else 4)
    m = tet_mesh(env, [[0, 1, 2, 3], e1], 6)
    q = int(env.int("q", 0, 5))
    with patched_id(ut), env.code(ut):
        got = ut.get_elements_by_nodes(m, np.array([q]))
    env.check([int(e) for e in got] == want_elements(m.t, {q}), "exactly the elements containing the node")


def histories(depth):
    """Lookups on a sequence of meshes, each dropped or kept before the next one."""
    def body(env):
        ut = mod("sktopt.mesh.utils")
        kept = []
        gc.freeze()
        pool = [[[0, 1, 2, 3]], [[0, 1, 2, 3], [1, 2, 3, 4]], [[1, 2, 3, 4], [0, 1, 2, 3], [2, 3, 4, 5]]]
        with patched_id(ut), env.code(ut):
            for s in range(depth):
                which = env.choice(f"mesh{s}", [0, 1, 2])
                reuse = kept and env.choice(f"reuse{s}", [False, True])
                m = kept[-1] if reuse else tet_mesh(env, pool[which], 6)
                q = int(env.int(f"q{s}", 0, 5)) if s == depth - 1 else 4
                got = [int(e) for e in ut.get_elements_by_nodes(m, np.array([q]))]
                w = want_elements(m.t, {q})
                env.check(got == w, f"lookup number {s} answers for its own mesh")
                if not reuse and s < depth - 1:
                    if env.choice(f"keep{s}", [False, True]):
                        kept.append(m)
                del m
                gc.collect(1)
    return body


def share(t, i, j):
    return len(set(int(x) for x in t[:, i]) & set(int(x) for x in t[:, j]))


def adjacency(env):
    ut = mod("sktopt.mesh.utils")
    comp = mod("sktopt.fea.composer")
    e1 = nodes4(env, "a", 5 if thorough() else 4)
    m = tet_mesh(env, [[0, 1, 2, 3], e1, [4, 5, 6, 7]], 8)
    with env.code(ut, comp):
        A = np.asarray(ut.build_element_adjacency_matrix(m).todense())
        F = ut.build_element_adjacency_matrix_fast(m)
        Fd = np.asarray(F.todense())
        face = comp.adjacency_matrix(m)
        nb = [[int(x) for x in ut.get_adjacent_elements(m, [i])] for i in range(3)]
        nbf = [[int(x) for x in ut.get_adjacent_elements_fast(F, [i])] for i in range(3)]
        two = [int(x) for x in ut.get_adjacent_elements(m, [0, 1])]
        twof = [int(x) for x in ut.get_adjacent_elements_fast(F, [0, 1])]
    for i in range(3):
        w = [j for j in range(3) if j != i and share(m.t, i, j) > 0]
        env.check([j for j in range(3) if A[i, j] != 0 and j != i] == w, f"node-sharing elements are adjacent [{i}]")
        env.check(A[i, i] != 0, f"an element is adjacent to itself in the plain matrix [{i}]")
        env.check([j for j in range(3) if Fd[i, j] != 0] == w, f"fast adjacency lists the other node-sharing elements [{i}]")
        env.check(all(int(Fd[i, j]) in (0, 1) for j in range(3)), f"fast adjacency holds zeros and ones [{i}]")
        env.check(nb[i] == w and nbf[i] == w, f"neighbours of one element [{i}]")
        f = [j for j in range(3) if j != i and share(m.t, i, j) == 3]
        if share(m.t, 0, 1) < 4:
            env.check(sorted(int(x) for x in face[i]) == f, f"elements sharing a face [{i}]")
    w2 = [2] if share(m.t, 1, 2) or share(m.t, 0, 2) else []
    env.check(two == w2 and twof == w2, "neighbours of a set exclude the set")


def harnesses():
    hs = [Harness("lookup_1", lookup(False, 1), FN, "4 tetrahedra over 7 nodes, any node 0..7 (7 unused)"),
          Harness("lookup_2", lookup(False, 2), FN, "4 tetrahedra, any two nodes 0..7 (possibly equal)"),
          Harness("lookup_list", lookup(True, 2), FN, "4 tetrahedra, list of two node arrays"),
          Harness("any_connectivity", any_connectivity, FN, "second element: any four different nodes", max_paths=3000),
          Harness("histories_2", histories(2), FN, "2 lookups, 3 meshes, kept or dropped", max_paths=3000),
          Harness("histories_3", histories(3), FN, "3 lookups, 3 meshes, kept or dropped, reused or new", max_paths=6000),
          Harness("adjacency", adjacency, FN, "3 elements, the second with any four different nodes", max_paths=3000)]
    if thorough():
        hs.append(Harness("lookup_3", lookup(True, 3), FN, "4 tetrahedra, list of node arrays, three nodes", max_paths=3000))
    return hs
