"""C04: smooth Heaviside projection."""
import numpy as np

from sx.harness import Harness
from .common import mod

ASSUMPTIONS = [
    "tanh/cosh are uninterpreted with the axioms of sx/path.py (odd, strictly monotone, 1-Lipschitz, |tanh|<1, "
    "cosh^2 (1-tanh^2) = 1), refined with numeric bounds at model points",
    "sharpness in [0.01, 500], threshold in [0,1], densities in [0,1]",
]
FN = ["projection.heaviside_projection", "projection.heaviside_projection_derivative",
      "projection.heaviside_projection_inplace", "projection.heaviside_projection_derivative_inplace"]


def inp(env, n):
    beta = env.real("beta", 0.01, 500)
    eta = env.real("eta", 0, 1)
    rho = env.array("rho", n, 0, 1)
    return beta, eta, rho


def run_proj(env, P, which, rho, beta, eta):
    if which == "functional":
        return P.heaviside_projection(rho, beta, eta)
    if which == "inplace_out":
        out = env.wrap(np.full(len(rho), 9.0))
        r = P.heaviside_projection_inplace(rho, beta, eta=eta, out=out)
        env.check(r is out or r is None or bool(np.shares_memory(r, out)), "the result is delivered in the given buffer")
        return out
    if which == "inplace_alias":
        out = rho.copy()
        P.heaviside_projection_inplace(out, beta, eta=eta, out=out)
        return out
    return P.heaviside_projection_inplace(rho, beta, eta=eta)


def range_body(which):
    def body(env):
        P = mod("sktopt.core.projection")
        beta, eta, rho = inp(env, 2)
        keep = rho.copy()
        with env.code(P):
            v = run_proj(env, P, which, rho, beta, eta)
            ends = run_proj(env, P, which, env.wrap([0.0, 1.0]), beta, eta)
        for i in range(2):
            env.check_le(0, v[i], f"projection is non-negative [{i}]", tol=1e-9)
            env.check_le(v[i], 1, f"projection is at most one [{i}]", tol=1e-9)
        env.check_eq(ends[0], 0, "void stays void", tol=1e-6)
        env.check_eq(ends[1], 1, "solid stays solid", tol=1e-6)
        env.check(env.implies(rho[0] <= rho[1], env.leq(v[0], v[1], 1e-9)), "projection is monotone")
        if which != "inplace":
            env.check(all(a is b for a, b in zip(keep, rho)) if env.symbolic else bool(np.all(keep == rho)),
                      "the filtered densities are not modified")
        env.observe("v", v)
    return body


def same_body(which):
    def body(env):
        P = mod("sktopt.core.projection")
        beta, eta, rho = inp(env, 2)
        with env.code(P):
            a = P.heaviside_projection(rho, beta, eta)
            b = run_proj(env, P, which, rho.copy(), beta, eta)
        env.check_eq(a, b, f"functional and {which} projection agree", tol=1e-6)
    return body


def deriv_body(which):
    def body(env):
        P = mod("sktopt.core.projection")
        beta, eta, rho = inp(env, 2)
        keep = rho.copy()
        with env.code(P):
            if env.symbolic:
                rd = rho.copy()
                rd[0] = env.dual(rho[0], 0)
                rd[1] = env.dual(rho[1], 1)
                v = P.heaviside_projection(rd, beta, eta)
                true = [v[i].d[i] for i in range(2)]
            else:
                h = 1e-7 / max(1.0, beta)
                true = (P.heaviside_projection(rho + h, beta, eta) - P.heaviside_projection(rho - h, beta, eta)) / (2 * h)
            if which == "functional":
                g = P.heaviside_projection_derivative(rho, beta, eta)
            elif which == "out":
                g = env.wrap(np.full(2, 9.0))
                r = P.heaviside_projection_derivative_inplace(rho, beta, eta=eta, out=g)
                env.check(r is g or r is None or bool(np.shares_memory(r, g)),
                          "the derivative is delivered in the given buffer")
            else:
                g = P.heaviside_projection_derivative_inplace(rho, beta, eta=eta)
        for i in range(2):
            if env.symbolic:
                env.check_eq(g[i], true[i], f"projection derivative is the derivative [{i}]", tol=1e-3)
            else:
                env.check(abs(g[i] - true[i]) <= 3e-4 * max(1.0, abs(true[i])),
                          f"projection derivative is the derivative [{i}]: {g[i]} vs {true[i]}")
            env.check_le(0, g[i], f"projection derivative is non-negative [{i}]", tol=1e-9)
        env.check(all(a is b for a, b in zip(keep, rho)) if env.symbolic else bool(np.all(keep == rho)),
                  "the filtered densities are not modified")
    return body


def harnesses():
    B = "2 elements, rho in [0,1], beta in [0.01,500], eta in [0,1]"
    hs = [Harness(f"range_{w}", range_body(w), FN, B) for w in ("functional", "inplace_out", "inplace_alias", "inplace")]
    hs += [Harness(f"same_{w}", same_body(w), FN, B) for w in ("inplace_out", "inplace_alias", "inplace")]
    hs += [Harness(f"deriv_{w}", deriv_body(w), FN, B) for w in ("functional", "out", "noout")]
    return hs
