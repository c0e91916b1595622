"""C03: stiffness/conductivity interpolation laws and their derivatives."""
import numpy as np

from sx import arr
from sx.core import Dual
from sx.harness import Harness
from .common import mod, thorough

ASSUMPTIONS = [
    "pow(x,p) with a symbolic exponent is an uninterpreted function with the axioms of sx/path.py (monotone, "
    "x^p = x * x^(p-1), Bernoulli bounds); integer exponents are expanded exactly",
    "0 < Emin <= E0 <= 1e12 ratio-free; rho in [1e-6, 1] for derivative claims (the code clamps below 1e-6)",
]


def mods():
    return mod("sktopt.core.derivatives"), mod("sktopt.fea.composer")


def laws():
    d, c = mods()
    return {"SIMP": (c.simp_interpolation, d.dE_drho_simp, d.dC_drho_simp),
            "RAMP": (c.ramp_interpolation, d.dE_drho_ramp, d.dC_drho_ramp)}


def params(env, pmode):
    E0 = env.real("E0", 1e-2, 1e3)
    Emin = env.real("Emin", 1e-9, None)
    env.assume(Emin <= E0)
    if pmode == "sym":
        p = env.real("p", 1, 8)
    else:
        p = env.choice("pc", [1.0, 2.0, 3.0, 4.0])
    return E0, Emin, p


def bounds_body(law, pmode):
    def body(env):
        d, c = mods()
        f = {"SIMP": c.simp_interpolation, "RAMP": c.ramp_interpolation}[law]
        E0, Emin, p = params(env, pmode)
        rho = env.array("rho", 2, 0, 1)
        with env.code(d, c):
            E = f(rho, E0, Emin, p)
            ends = f(env.wrap([0.0, 1.0]), E0, Emin, p)
        for i in range(2):
            env.check_le(Emin, E[i], f"{law} stays above the void modulus [{i}]", tol=1e-9)
            env.check_le(E[i], E0, f"{law} stays below the solid modulus [{i}]", tol=1e-9)
        env.check_eq(ends[0], Emin, f"{law} void end", tol=1e-9)
        env.check_eq(ends[1], E0, f"{law} solid end", tol=1e-9)
        env.check(env.implies(rho[0] <= rho[1], env.leq(E[0], E[1], 1e-9)), f"{law} is monotone")
        env.observe("E", E)
    return body


def deriv_body(law, pmode, which):
    """Code derivative == derivative of the interpolation obtained by differentiating the real code."""
    def body(env):
        d, c = mods()
        f, dE, dC = laws()[law]
        E0, Emin, p = params(env, pmode)
        rho = env.array("rho", 2, 1e-6 if law == "SIMP" else 0, 1)
        env.assume(E0 <= 100)
        U = env.array("U", 2, 0, 100)
        keep = rho.copy()
        with env.code(d, c):
            if env.symbolic:
                rd = env.wrap(np.zeros(2))
                rd[0] = env.dual(rho[0], 0)
                rd[1] = env.dual(rho[1], 1)
                Ed = f(rd, E0, Emin, p)
                true = [Ed[i].d[i] for i in range(2)]
                Ev = [Ed[i].v for i in range(2)]
            else:
                h = 1e-7
                Ev = f(rho, E0, Emin, p)
                true = (f(rho + h, E0, Emin, p) - f(rho - h, E0, Emin, p)) / (2 * h)
            if which == "dE":
                g = dE(rho, E0, Emin, p)
            elif which == "dC":
                g = dC(rho, U, E0, Emin, p)
            else:
                g = env.wrap(np.full(2, 7.0))
                if which == "dE_in":
                    d.dE_drho_ramp_inplace(rho, g, E0, Emin, p)
                else:
                    d.dC_drho_ramp_inplace(rho, U, g, E0, Emin, p)
        for i in range(2):
            want = true[i] if which.startswith("dE") else -2.0 * U[i] * true[i] / Ev[i]
            if env.symbolic:
                env.check_eq(g[i], want, f"{law} {which} is the true derivative [{i}]", tol=1e-3)
            else:
                sc = max(1.0, abs(want))
                env.check(abs(g[i] - want) <= 4e-4 * sc, f"{law} {which} is the true derivative [{i}]: {g[i]} vs {want}")
            if which.startswith("dC"):
                env.check_le(g[i], 0, f"{law} {which} is never positive [{i}]", tol=1e-9)
        env.check(bool(np.all(keep == rho)) if not env.symbolic else all(a is b for a, b in zip(keep, rho)),
                  "the density array is not modified")
    return body


def harnesses():
    hs = []
    fn = ["composer.simp_interpolation", "composer.ramp_interpolation", "derivatives.dE_drho_simp",
          "derivatives.dC_drho_simp", "derivatives.dE_drho_ramp", "derivatives.dC_drho_ramp",
          "derivatives.dE_drho_ramp_inplace", "derivatives.dC_drho_ramp_inplace"]
    for law in ("SIMP", "RAMP"):
        for pm in ("sym", "int"):
            hs.append(Harness(f"bounds_{law}_{pm}", bounds_body(law, pm), fn,
                              "2 elements, rho in [0,1], 1e-9<=Emin<=E0 in [0.01,1000], "
                              + ("p any real in [1,8]" if pm == "sym" else "p in {1,2,3,4}")))
            for w in ("dE", "dC") + (("dE_in", "dC_in") if law == "RAMP" else ()):
                hs.append(Harness(f"deriv_{law}_{w}_{pm}", deriv_body(law, pm, w), fn,
                                  "2 elements, E0<=100, energy in [0,100], "
                                  + ("p any real in [1,8]" if pm == "sym" else "p in {1,2,3,4}")))
    return hs
