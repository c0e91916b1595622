SPECS = [
 dict(id="s01", property="C01", needs="a total number of iterations that the number of steps does not divide",
  breaks="the stages of a stepped schedule are no longer equal: a stage boundary moves by up to half an iteration per stage",
  edits=[("tools/scheduler.py", "    # Determine which step this iteration belongs to\n    step_length = total / num_steps\n    step_index = min(int(it // step_length), num_steps - 1)\n\n    # Linearly divide values between initial_value and target_value\n",
          "    # Determine which step this iteration belongs to\n    step_length = max(round(total / num_steps), 1)\n    step_index = min(int(it // step_length), num_steps - 1)\n\n    # Linearly divide values between initial_value and target_value\n")],
  demo='''
from sktopt.tools.scheduler import schedule_step
# 17 iterations, 5 levels: iteration 10 is in [2*17/5, 3*17/5) = [6.8, 10.2), the third level
v = schedule_step(10, 17, 0.0, 1.0, 5)
assert abs(v - 0.5) < 1e-12, v
'''),
 dict(id="s03", property="C03", needs="a density below one per cent (a small lower density bound) with the SIMP law",
  breaks="the SIMP derivative is no longer the derivative of the interpolation that is assembled",
  edits=[("core/derivatives.py", "    return p * (E0 - Emin) * np.maximum(rho, 1e-6) ** (p - 1)\n",
          "    return p * (E0 - Emin) * np.maximum(rho, 1e-2) ** (p - 1)\n")],
  demo="""
import numpy as np
from sktopt.core import derivatives as d
from sktopt.fea import composer as c
r = np.array([2e-3])
h = 1e-7
fd = (c.simp_interpolation(r + h, 1.0, 1e-9, 3.0) - c.simp_interpolation(r - h, 1.0, 1e-9, 3.0)) / (2 * h)
g = d.dE_drho_simp(r, 1.0, 1e-9, 3.0)
assert abs(fd[0] - g[0]) < 1e-3 * abs(fd[0]), (fd, g)
"""),
 dict(id="s05", property="C05", needs="an element within one move limit of the lower density bound whose growth factor asks for more than the move limit",
  breaks="such an element can gain more density than the move limit allows",
  edits=[("core/optimizers/oc.py", "        np.minimum(rho_e + move_limit, rho_max, out=rho_clip_upper)",
          "        np.add(rho_clip_lower, 2.0 * move_limit, out=rho_clip_upper)\n        np.minimum(rho_clip_upper, rho_max, out=rho_clip_upper)")],
  demo='''
import numpy as np
from sktopt.core.optimizers.oc import bisection_with_physical_volume
class F:
    def forward(self, r):
        return r
n = 2
b = lambda: np.zeros(n)
rho, out = np.array([0.04, 0.6]), np.zeros(n)
bisection_with_physical_volume(
    np.array([-1.0, -1e-3]), rho, rho.copy(), np.arange(n), F(), 0.01, 1.0, 0.05, 1.0, 1e-12, 0.6, 1.0, 0.5, b(), out, b(), b(),
    np.ones(n), float(n), 0.1, 5.0, b(), b(), b())
assert np.all(out - rho <= 0.05 + 1e-9), out - rho
'''),
 dict(id="s15", property="C15", needs="an inverted tetrahedron whose volume is small in absolute terms (a millimetre mesh in metres)",
  breaks="inverted small tetrahedra are left inverted by the orientation repair",
  edits=[("mesh/utils.py", """        vol = np.dot(np.cross(v1, v2), v3) / 6.0

        if vol < 0:
            t_fixed""", """        vol = np.dot(np.cross(v1, v2), v3) / 6.0

        if vol < -1e-9:
            t_fixed""")],
  demo="""
import numpy as np
import skfem
from sktopt.mesh import utils
p = np.array([[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1.0]]) * 1e-3
t = np.array([[0], [2], [1], [3]])
q = utils.fix_tetrahedron_orientation(t, p)
a, b, c, d = (p[:, i] for i in q[:, 0])
assert np.dot(np.cross(b - a, c - a), d - a) > 0, q
"""),
 dict(id="s06", property="C06", needs="a volume target whose multiplier is far from one (very small sensitivities or a large bracket)",
  breaks="the search stops after a relative bracket width, so with a large multiplier it ends away from the volume target",
  edits=[("core/optimizers/oc.py", "        if abs(l2 - l1) <= tolerance:\n", "        if abs(l2 - l1) <= tolerance * max(1.0, l2):\n")],
  demo='''
import numpy as np
from sktopt.core.optimizers.oc import bisection_with_physical_volume
class F:
    def forward(self, r):
        return r
n = 1
b = lambda: np.zeros(n)
rho, out = np.array([0.5]), np.zeros(n)
lm, err = bisection_with_physical_volume(
    np.array([-1.0e4]), rho, rho.copy(), np.arange(n), F(), 0.01, 1.0, 0.4, 1.0, 1e-12, 0.501, 2.0, 0.5, b(), out, b(), b(),
    np.ones(n), float(n), 0.5, 2.0, b(), b(), b(), tolerance=1e-3, vol_tol=1e-7, max_iter=1000)
assert abs(err) < 1e-6, (lm, err)
'''),
 dict(id="s16", property="C16", needs="two tetrahedra sharing the face opposite the first node of one, with that face numbered in another order in the other",
  breaks="face adjacency misses pairs of elements",
  edits=[("fea/composer.py", "            tuple(sorted([tet[0], tet[2], tet[3]])),\n            tuple(sorted([tet[1], tet[2], tet[3]])),\n        ]\n        for face in faces:",
          "            tuple(sorted([tet[0], tet[2], tet[3]])),\n            (tet[1],) + tuple(sorted([tet[2], tet[3]])),\n        ]\n        for face in faces:")],
  demo="""
import numpy as np
import skfem
from sktopt.fea import composer
p = np.random.RandomState(0).rand(3, 5)
m = skfem.MeshTet(p, np.array([[0, 1], [3, 2], [1, 3], [2, 4]]), validate=False, sort_t=False)
assert [list(map(int, a)) for a in composer.adjacency_matrix(m)] == [[1], [0]], composer.adjacency_matrix(m)
"""),
 dict(id="s19", property="C19", needs="a history aggregating arrays that is exported after exactly one entry",
  breaks="the single entry comes back as one entry per statistic",
  edits=[("tools/history.py", "                if arr.ndim == 2 and arr.shape[0] > 1:", "                if arr.ndim == 2 and arr.shape[1] > 1:")],
  demo="""
import tempfile, shutil
import numpy as np
from sktopt.tools.history import HistoryCollection
d = tempfile.mkdtemp()
try:
    c = HistoryCollection(d)
    c.add("a", plot_type="min-max-mean")
    c.feed_data("a", np.array([1.0, 2.0, 6.0]))
    c.export_histories("h.npz")
    assert np.allclose(c.latest("a"), [1.0, 3.0, 6.0]), c.latest("a")
    assert len(c.histories["a"].data) == 1, c.histories["a"].data
finally:
    shutil.rmtree(d)
"""),
 dict(id="s08", property="C08", needs="the volume-gradient normalisation switched on together with a volume below the target",
  breaks="the gain for too little material is applied after the other one instead of replacing it",
  edits=[("core/optimizers/logmoc.py", "                chain_gain = cfg.volume_chain_gain_under\n", "                chain_gain *= cfg.volume_chain_gain_under\n")],
  demo="""
import tempfile, shutil
import numpy as np
import sktopt
from sktopt.core.optimizers import logmoc
d = tempfile.mkdtemp()
class F:
    def forward(self, r):
        return r
    gradient = forward
class R:
    def __init__(self):
        self.h = {}
    def feed_data(self, n, v):
        self.h[n] = np.copy(v)
try:
    import skfem
    mesh = sktopt.mesh.toy_problem.create_box_hex(4.0, 1.0, 1.0, 1.0)
    b = skfem.Basis(mesh, skfem.ElementVector(skfem.ElementHex1()), intorder=2)
    t = sktopt.mesh.LinearElasticity.from_facets(
        b, mesh.facets_satisfying(lambda x: np.isclose(x[0], 0.0)), "all", mesh.facets_satisfying(lambda x: np.isclose(x[0], 4.0)),
        "u^3", -1.0, np.arange(4), 1.0, 0.3)
    S = sktopt.tools.SchedulerConfig
    o = logmoc.LogMOC_Optimizer(logmoc.LogMOC_Config(
        dst_path=d, filter_type="spacial", filter_radius=S.constant(target_value=1.2), normalize_volume_chain=True,
        volume_chain_gain=3.0, volume_chain_gain_under=0.5), t)
    o.parameterize(); o.init_schedulers(export=False); o._ensure_state_initialized()
    o.filter, o.recorder = F(), R()
    s = o._state
    n = len(t.design_elements)
    def scale(proj):
        o.rho_update(iter_num=1, rho_design_eles=np.full(n, .5), rho_projected=np.full(4, proj), dC_drho_design_eles=-np.arange(1.0, n + 1),
            u_dofs=s.u_dofs, strain_energy_mean=s.energy_mean, scaling_rate=s.scaling_rate, move_limit=.2, eta=.5, beta=2.0,
            rho_clip_lower=s.rho_clip_lower, rho_clip_upper=s.rho_clip_upper, percentile=None,
            elements_volume_design=s.elements_volume_design, elements_volume_design_sum=np.sum(s.elements_volume_design), vol_frac=0.4)
        return float(o.recorder.h["volume_chain_scale"])
    over, under = scale(0.9), scale(0.1)
    assert abs(over / under - 6.0) < 1e-6, (over, under)
finally:
    shutil.rmtree(d)
"""),
]
