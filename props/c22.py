"""C22: choice of linear solver, its settings, its failure behaviour, and the PETSc options."""
import contextlib
import dataclasses
import sys
import types

import numpy as np

from sx.harness import Harness
from . import femlab, lab
from .common import mod, thorough

ASSUMPTIONS = ["the linear solvers (SuperLU, CG, PyAMG, PETSc) and the assembly are stand-ins that record what they are given; the "
               "stand-in matrix only reports a (symbolic) size, index sets over it stand for the first few unknowns",
               "petsc4py is a stand-in module with PETSc's interface"]
FN = ["solver_elastic.solve_u", "solver_elastic.compute_compliance_basis", "solver_elastic.solve_multi_load",
      "solver_elastic.compute_compliance_basis_multi_load", "solver_elastic.normalize_linear_solver_config",
      "solver_elastic.FEM_SimpLinearElasticity.__init__", "solver_heat.solve_heat_system_multi", "solver_heat.solve_multi_load",
      "solver_petsc.petsc_options_for_solver / merge_petsc_options / normalize_petsc_options",
      "solver_petsc.solve_u_petsc / solve_u_petsc_multi / _create_ksp"]
SOLVERS = ["auto", "spsolve", "cg_jacobi", "cg_pyamg", "petsc", "petsc_spdirect", "nonsense"]


class Boom(Exception):
    pass


class BigK:
    """A matrix of which only the size matters."""

    def __init__(self, n, tag="K"):
        self.shape = (n, n)
        self.tag = tag

    def tocsr(self, *a, **k):
        return self

    tocsc = tocsr

    def diagonal(self):
        return np.ones(3)


class ArangeNp:
    """numpy for the module under test: index ranges over the symbolic size stand for the first three."""

    def __init__(self, base):
        self.base = base

    def __getattr__(self, k):
        return getattr(self.base, k)

    def arange(self, *a, **k):
        return np.arange(3)

    def zeros(self, shape, *a, **k):
        return self.base.zeros(3 if not isinstance(shape, tuple) else (3,) + tuple(shape[1:]), *a, **k)


@contextlib.contextmanager
def stubs(env, n, fail=()):
    """Replace solvers and assembly; yields the list of recorded calls."""
    import pyamg
    import scipy.sparse.linalg as sl
    import skfem
    se, sh, cp = mod("sktopt.fea.solver_elastic"), mod("sktopt.fea.solver_heat"), mod("sktopt.fea.composer")
    calls = []

    def hit(name, **k):
        calls.append((name, k))
        if name in fail:
            raise Boom(name)

    class LU:
        def __init__(self, A, *a, **k):
            hit("splu", A=A)

        def solve(self, b, *a, **k):
            hit("lu.solve", b=b)
            return 2.0 * b

    def spsolve(A, b, *a, **k):
        hit("spsolve", A=A, b=b)
        return 2.0 * b

    def cg(A, b, x0=None, *, rtol=1e-5, atol=0.0, maxiter=None, M=None, callback=None, **k):
        hit("cg", A=A, b=b, rtol=rtol, maxiter=maxiter, M=M)
        return 3.0 * b, 0

    class Amg:
        def aspreconditioner(self, *a, **k):
            return "amg"

    def amg(A, *a, **k):
        hit("amg", A=A)
        return Amg()

    def petsc(K, F, rtol=None, maxiter=None, petsc_options=None):
        hit("petsc", A=K, b=F, rtol=rtol, maxiter=maxiter, options=petsc_options)
        return 4.0 * F, 0

    def petsc_multi(K, F, rtol=None, maxiter=None, petsc_options=None):
        hit("petsc_multi", A=K, b=F, rtol=rtol, maxiter=maxiter, options=petsc_options)
        return 4.0 * F, [0] * F.shape[1]

    def enforce(A, b=None, x=None, D=None, I=None, **k):
        f = np.array(b, dtype=float)
        f[0] = 0.0
        return BigK(A.shape[0], "K_e"), f

    def assemble(*a, **k):
        calls.append(("assemble", {}))
        return BigK(n)

    repl = {(sl, "spsolve"): spsolve, (sl, "splu"): LU, (sl, "cg"): cg,
            (sl, "LinearOperator"): lambda shape, matvec=None, **k: "jacobi", (pyamg, "smoothed_aggregation_solver"): amg,
            (skfem, "enforce"): enforce, (cp, "assemble_stiffness_matrix"): assemble, (cp, "assemble_conduction_matrix"): assemble}
    by_id = {id(getattr(m, k)): f for (m, k), f in repl.items()}
    ex = {}
    for (m, k), f in repl.items():
        ex.setdefault(m, {})[k] = f
    for m in (se, sh):
        for k, v in list(vars(m).items()):
            if id(v) in by_id:
                ex.setdefault(m, {})[k] = by_id[id(v)]
            elif k == "solve_u_petsc":
                ex.setdefault(m, {})[k] = petsc
            elif k == "solve_u_petsc_multi":
                ex.setdefault(m, {})[k] = petsc_multi
    saved = []
    with env.code(se, sh):
        try:
            for m, d in ex.items():
                for k, f in d.items():
                    saved.append((m, k, m.__dict__[k]))
                    setattr(m, k, f)
            for m in (se, sh):
                saved.append((m, "np", m.np))
                m.np = ArangeNp(m.np)
            yield calls, se, sh
        finally:
            for m, k, v in reversed(saved):
                setattr(m, k, v)


def names(calls):
    return [c[0] for c in calls if c[0] != "assemble"]


def settings(env):
    rtol = env.real("rtol", 1e-12, 1e-2)
    given = env.choice("maxiter_given", [False, True])
    return rtol, (env.int("maxiter", 1, 5000) if given else None)


def backend(se, solver, rtol, maxiter, fail):
    """Names of the calls made by a named single-load backend."""
    return {"spsolve": ["spsolve"], "cg_jacobi": ["cg"], "cg_pyamg": ["amg", "cg"], "petsc": ["petsc"], "petsc_spdirect": ["petsc"]}[solver]


def check_cg(env, calls, rtol, lo_hi, what):
    for name, k in calls:
        if name in ("cg", "petsc"):
            env.check_eq(k["rtol"], rtol, f"{what}: tolerance handed to {name}", tol=0)
            lo, hi = lo_hi
            if lo is None:
                env.check(k["maxiter"] is None, f"{what}: no iteration limit for {name}")
            else:
                env.check(k["maxiter"] is not None, f"{what}: an iteration limit for {name}")
                if k["maxiter"] is not None:
                    env.check(env.and_(k["maxiter"] >= lo, k["maxiter"] <= hi), f"{what}: iteration limit handed to {name}")


def default_limit(env, n):
    """A fifth of the unknowns, at least 300 and at most 1000."""
    return [env.mini(1000, env.maxi(300, (n - 4) / 5)), env.mini(1000, env.maxi(300, n / 5))]


def single(how):
    """One load case, any size of the system: the requested (or automatic) backend with the requested settings."""
    def body(env):
        s = env.choice("solver", SOLVERS)
        boom = env.choice("fails", ["nothing", "first", "all"])
        rtol, mi = settings(env)
        n = env.int("n_dof", 3, 2_000_000)
        first = {"auto": None, "nonsense": None}.get(s, backend(None, s, 0, 0, 0)[0] if s in SOLVERS[1:-1] else None)
        fail = ()
        if boom == "all":
            fail = ("spsolve", "cg", "amg", "petsc")
        elif boom == "first":
            fail = (first,) if first else ("amg",)
        F = np.array([5.0, -1.0, 2.0])
        u_all = np.full((3, 1), 7.0)
        with stubs(env, n, fail) as (calls, se, sh):
            se_cfg = se.LinearSolverConfig(solver=s, rtol=rtol, maxiter=mi)
            common = (None, np.array([1, 2]), np.array([0]), [F] if how != "basis" else F, 1.0, 1e-3, 3.0, 0.3, np.ones(2))

            def run():
                kw = {"solver_config": se_cfg} if env_cfg else {"solver": s, "rtol": rtol, "maxiter": mi}
                if how == "basis":
                    return se.compute_compliance_basis(*common, **kw)
                f = se.solve_multi_load if how == "solve" else se.compute_compliance_basis_multi_load
                return f(*common, u_all, **kw)
            env_cfg = env.choice("as_config", [True, False])
            err, out = env.raises(run)
        got = names(calls)
        if s == "nonsense":
            env.check(isinstance(err, ValueError), "an unknown solver is refused")
            env.check(got == [], "nothing is solved with an unknown solver")
            return
        if s == "auto":
            small = bool(n < 1000)
            want = ["spsolve"] if small else ["amg", "cg"]
            if "spsolve" in fail and small or boom == "all":
                env.check(isinstance(err, Boom), "a failing fallback is reported")
                return
            if not small and boom == "first":
                env.check(err is None and got == ["amg", "spsolve"], "automatic selection falls back to the direct solver")
                mult = 2.0
            else:
                env.check(err is None and got == want, "automatic selection: direct below 1000 unknowns, AMG-CG from there")
                mult = 2.0 if small else 3.0
        else:
            want = backend(se, s, rtol, mi, fail)
            if boom != "nothing":
                env.check(isinstance(err, Boom), f"{s}: failure of a requested solver is reported, not papered over")
                env.check(got == want[:1], f"{s}: no other solver is tried")
                return
            env.check(err is None and got == want, f"{s}: the requested solver is used, once")
            mult = {"spsolve": 2.0, "cg_jacobi": 3.0, "cg_pyamg": 3.0}.get(s, 4.0)
        check_cg(env, calls, rtol, (mi, mi) if mi is not None else default_limit(env, n), s)
        for name, k in calls:
            if name == "cg":
                env.check(k["M"] == ("jacobi" if s == "cg_jacobi" else "amg"), f"{s}: preconditioner")
            if name == "petsc":
                o = k["options"]
                env.check((o is None) if s == "petsc" else (o.ksp_type == "preonly" and o.pc_type == "lu"), f"{s}: PETSc options")
            if name in ("cg", "petsc", "spsolve"):
                env.check(k["A"].tag == "K_e" and list(k["b"]) == [0.0, -1.0, 2.0], f"{s}: the system with enforced supports is solved")
        if err is None:
            c = out[0] if how == "basis" else out[0]
            u = out[1] if how == "basis" else u_all[:, 0]
            env.check(list(u) == [0.0, -mult, 2 * mult], f"{s}: the solution is handed back")
            env.check_eq(c, mult * 5.0, f"{s}: compliance is the work of the load on the free unknowns")
    return body


def multi(how):
    """Several load cases: one factorisation for all, PETSc, or a refusal."""
    def body(env):
        s = env.choice("solver", SOLVERS)
        boom = env.choice("fails", [False, True])
        rtol, mi = settings(env)
        n = env.int("n_dof", 3, 2_000_000)
        Fs = [np.array([5.0, -1.0, 2.0]), np.array([1.0, 3.0, 0.5])]
        u_all = np.full((3, 2), 7.0)
        with stubs(env, n, ("splu", "petsc_multi") if boom else ()) as (calls, se, sh):
            cfg = se.LinearSolverConfig(solver=s, rtol=rtol, maxiter=mi)
            f = se.solve_multi_load if how == "solve" else se.compute_compliance_basis_multi_load
            err, out = env.raises(lambda: f(None, np.array([1, 2]), np.array([0]), Fs, 1.0, 1e-3, 3.0, 0.3, np.ones(2), u_all,
                                            solver_config=cfg))
        got = names(calls)
        if s in ("cg_jacobi", "cg_pyamg", "nonsense"):
            env.check(isinstance(err, NotImplementedError), f"{s}: refused for several load cases")
            env.check(got == [] and bool(np.all(u_all == 7.0)), f"{s}: nothing is solved or stored")
            return
        if boom:
            env.check(isinstance(err, Boom), f"{s}: a solver failure is reported")
            env.check(len(got) == 1, f"{s}: no other solver is tried")
            return
        if s in ("auto", "spsolve"):
            env.check(err is None and got == ["splu", "lu.solve"], f"{s}: one factorisation and one solve for all load cases")
            mult = 2.0
        else:
            env.check(err is None and got == ["petsc_multi"], f"{s}: PETSc is used")
            mult = 4.0
        for name, k in calls:
            if name == "petsc_multi":
                env.check_eq(k["rtol"], rtol, f"{s}: tolerance", tol=0)
                env.check((k["maxiter"] is None) if mi is None else True, f"{s}: no limit unless asked for")
                if mi is not None:
                    env.check(k["maxiter"] is not None and bool(k["maxiter"] == mi), f"{s}: iteration limit")
                o = k["options"]
                env.check((o is None) if s == "petsc" else (o.ksp_type == "preonly" and o.pc_type == "lu"), f"{s}: PETSc options")
        if err is None:
            for j, F in enumerate(Fs):
                env.check(list(u_all[:, j]) == [0.0, mult * F[1], mult * F[2]], f"{s}: solution of load case {j}")
                if how != "solve":
                    env.check_eq(out[j], mult * (F[1] ** 2 + F[2] ** 2), f"{s}: compliance of load case {j}")
    return body


def heat(env):
    s = env.choice("solver", SOLVERS)
    nl = env.choice("loads", [1, 2])
    rtol, mi = settings(env)
    n = env.int("n_dof", 3, 2_000_000)

    class D:
        N = 1

        def flatten(self):
            return np.array([0])
    u_all = np.full((3, nl), 7.0)
    with stubs(env, n) as (calls, se, sh):
        cfg = se.LinearSolverConfig(solver=s, rtol=rtol, maxiter=mi)
        err, out = env.raises(lambda: sh.solve_heat_system_multi(BigK(n), np.array([5.0, -1.0, 2.0]), [D()] * nl, [1.0, 2.0][:nl],
                                                                 u_all, cfg))
    got = names(calls)
    if s in ("cg_jacobi", "cg_pyamg", "nonsense"):
        env.check(isinstance(err, NotImplementedError), f"heat, {s}: refused")
        env.check(got == [] and bool(np.all(u_all == 7.0)), f"heat, {s}: nothing is solved or stored")
        return
    env.check(err is None, f"heat, {s}: solved")
    if s in ("auto", "spsolve"):
        env.check(got == ["splu", "lu.solve"], f"heat, {s}: direct solver, one factorisation")
        mult = 2.0
    else:
        env.check(got == ["petsc_multi"], f"heat, {s}: PETSc")
        mult = 4.0
    for name, k in calls:
        if name == "petsc_multi":
            env.check_eq(k["rtol"], rtol, f"heat, {s}: tolerance", tol=0)
            env.check((k["maxiter"] is None) if mi is None else bool(k["maxiter"] == mi), f"heat, {s}: iteration limit")
            o = k["options"]
            env.check((o is None) if s == "petsc" else (o.ksp_type == "preonly" and o.pc_type == "lu"), f"heat, {s}: PETSc options")
    for j in range(nl):
        env.check(list(u_all[:, j]) == [0.0, -mult, 2 * mult], f"heat, {s}: solution of load case {j}")


# ---- PETSc ---------------------------------------------------------------------------------------
class FakePetsc(types.SimpleNamespace):
    pass


def fake_petsc(log):
    class Vec:
        def createWithArray(self, a, comm=None):
            self.a = a
            return self

        def createSeq(self, n, comm=None):
            self.n = n
            return self

        def getArray(self):
            return self.a

    class Mat:
        def createAIJ(self, size=None, csr=None, comm=None):
            self.size, self.csr = size, csr
            return self

        def assemblyBegin(self):
            pass

        assemblyEnd = assemblyBegin

    class PC:
        def setType(self, t):
            log.append(("pc", t))

        def setFactorSolverType(self, t):
            log.append(("factor", t))

    class KSP:
        def create(self, comm=None):
            log.append(("ksp", None))
            self.pc = PC()
            return self

        def setOperators(self, A):
            self.A = A

        def setOptionsPrefix(self, p):
            log.append(("prefix", p))

        def setType(self, t):
            log.append(("type", t))

        def getPC(self):
            return self.pc

        def setTolerances(self, rtol=None, atol=None, divtol=None, max_it=None):
            log.append(("tol", (rtol, max_it)))

        def setFromOptions(self):
            log.append(("fromoptions", None))

        def solve(self, b, x):
            log.append(("solve", None))
            a = np.asarray(b.a)
            x.a = np.array([a[i] * (2.0 + i) for i in range(len(a))], dtype=a.dtype)

        def getConvergedReason(self):
            return 2
    return FakePetsc(Vec=Vec, Mat=Mat, KSP=KSP, COMM_SELF="self")


@contextlib.contextmanager
def petsc_module(env, log, present=True):
    sp = mod("sktopt.fea.solver_petsc")
    m = types.ModuleType("petsc4py")
    if present:
        m.PETSc = fake_petsc(log)
    old = sys.modules.get("petsc4py")
    sys.modules["petsc4py"] = m
    try:
        with env.code(sp):
            yield sp
    finally:
        if old is None:
            del sys.modules["petsc4py"]
        else:
            sys.modules["petsc4py"] = old


def override(env, sp, form):
    """Options as given by a user: none, an object, or a dictionary with some of the entries."""
    if form == "none":
        return None, {}
    vals = {"ksp_type": env.choice("ksp", ["absent", "preonly", "cg"]), "pc_type": env.choice("pc", ["absent", "lu", "gamg"]),
            "pc_factor_mat_solver_type": env.choice("factor", ["absent", "mumps"]),
            "options_prefix": env.choice("prefix", ["absent", "x_"]), "use_set_from_options": env.choice("from", ["absent", False])}
    given = {k: v for k, v in vals.items() if v != "absent"}
    return (given if form == "dict" else sp.PETScOptions(**given)), given


def petsc_options(env):
    """Direct solves accept only direct options; what the user gives is kept, what he leaves out is the default."""
    log = []
    solver = env.choice("solver", ["petsc", "petsc_spdirect", "spsolve"])
    form = env.choice("form", ["none", "dict", "object"])
    with petsc_module(env, log) as sp:
        opts, given = override(env, sp, form)
        err, o = env.raises(lambda: sp.petsc_options_for_solver(solver, opts))
        base = {"ksp_type": "cg", "pc_type": "gamg", "pc_factor_mat_solver_type": None, "options_prefix": None,
                "use_set_from_options": True}
        if solver != "petsc_spdirect":
            env.check(err is None, "options of other solvers are accepted")
            if opts is None:
                env.check(o is None, "no options stay no options")
            else:
                env.check(dataclasses.asdict(o) == {**base, **given}, "given options are kept, the rest is the default")
            return
        if form != "object":
            base.update(ksp_type="preonly", pc_type="lu")
        want = {**base, **given}
        if want["ksp_type"] != "preonly" or want["pc_type"] != "lu":
            env.check(isinstance(err, ValueError), "a direct solve with iterative options is refused")
        else:
            env.check(err is None and dataclasses.asdict(o) == want, "direct solve: given options are kept, the rest is direct")


def petsc_run(env):
    """What PETSc is told, and what is handed back."""
    import scipy.sparse
    log = []
    loads = env.choice("loads", [0, 1, 2])
    form = env.choice("form", ["none", "dict", "object"])
    rtol, mi = settings(env)
    b = env.array("b", (2, max(1, loads)), -5, 5)
    K = scipy.sparse.csr_matrix(np.array([[2.0, 0], [0, 3.0]]))
    with petsc_module(env, log) as sp:
        opts, given = (None, {})
        if form != "none":
            given = {"ksp_type": "gmres", "pc_type": "jacobi"}
            if env.choice("more", [False, True]):
                given.update(pc_factor_mat_solver_type="mumps", options_prefix="x_", use_set_from_options=False)
            opts = given if form == "dict" else sp.PETScOptions(**given)
        if loads == 0:
            u, info = sp.solve_u_petsc(K, b[:, 0], rtol=rtol, maxiter=mi, petsc_options=opts)
            u = [u]
        else:
            U, info = sp.solve_u_petsc_multi(K, b, rtol=rtol, maxiter=mi, petsc_options=opts)
            u = [U[:, j] for j in range(loads)]
            env.check(len(info) == loads, "one outcome per load case")
        for j, x in enumerate(u):
            for i in range(2):
                env.check_eq(x[i], b[i, j] * (2.0 + i), f"solution of load case {j} [{i}]")
    d = dict(log)
    env.check(d.get("type") == given.get("ksp_type", "cg") and d.get("pc") == given.get("pc_type", "gamg"), "solver and preconditioner")
    env.check(d.get("factor") == given.get("pc_factor_mat_solver_type"), "factorisation package")
    env.check(d.get("prefix") == given.get("options_prefix"), "options prefix")
    env.check(("fromoptions" in d) == given.get("use_set_from_options", True), "command-line options are read when wanted")
    env.check_eq(d["tol"][0], rtol, "tolerance", tol=0)
    env.check((d["tol"][1] is None) if mi is None else bool(d["tol"][1] == mi), "iteration limit")
    env.check(sum(1 for e in log if e[0] == "ksp") == 1, "one solver object for all load cases")
    env.check(sum(1 for e in log if e[0] == "solve") == max(1, loads), "one solve per load case")


def petsc_missing(env):
    import scipy.sparse
    K = scipy.sparse.identity(2).tocsr()
    f = env.choice("multi", [False, True])
    with petsc_module(env, [], present=False) as sp:
        err, _ = env.raises(lambda: (sp.solve_u_petsc_multi if f else sp.solve_u_petsc)(K, np.ones((2, 2)) if f else np.ones(2)))
    env.check(isinstance(err, RuntimeError), "missing PETSc is reported")


def fem_settings(env):
    """The response object uses the configuration it was given; the legacy selector only without one."""
    se, sh = mod("sktopt.fea.solver_elastic"), mod("sktopt.fea.solver_heat")
    heat_ = env.choice("heat", [False, True])
    cfg = env.choice("config", [None, "cg_pyamg", "petsc", "auto"])
    legacy = env.choice("legacy", ["spsolve", "petsc"])
    tsk = lab.heat_task() if heat_ else lab.elastic_task()
    C = sh.FEM_SimpLinearHeatConduction if heat_ else se.FEM_SimpLinearElasticity
    co = env.real("co", 1e-9, 0.5)
    rtol = env.real("rtol", 1e-12, 1e-2)
    with env.code(se, sh):
        c = None if cfg is None else se.LinearSolverConfig(solver=cfg, rtol=rtol)
        f = C(tsk, co, solver_config=c, solver_option=legacy)
    env.check(f.solver_config.solver == (legacy if cfg is None else cfg), "selected solver")
    if cfg is not None:
        env.check_eq(f.solver_config.rtol, rtol, "tolerance", tol=0)
    lo, hi = (f.k_min, f.k_max) if heat_ else (f.E_min, f.E_max)
    full = tsk.k if heat_ else tsk.E
    env.check_eq(hi, full, "full material value")
    env.check_eq(lo, full * co, "minimum material value")


def harnesses():
    B = "systems of 3 to 2e6 unknowns, rtol in [1e-12,1e-2], iteration limits 1..5000 or none, every solver, failing or not"
    hs = [Harness(f"single_{h}", single(h), FN, B) for h in ("basis", "solve", "compliance")]
    hs += [Harness(f"multi_{h}", multi(h), FN, B) for h in ("solve", "compliance")]
    hs += [Harness("heat", heat, FN, B), Harness("petsc_options", petsc_options, FN, "every combination of given and absent options"),
           Harness("petsc_run", petsc_run, FN, "two unknowns, up to two load cases, right-hand sides in [-5,5]"),
           Harness("petsc_missing", petsc_missing, FN, "without PETSc"),
           Harness("fem_settings", fem_settings, FN, "minimum coefficients in [1e-9,0.5]")]
    return hs
