SPECS=[dict(id="s01", property="C01", needs="an iteration less than one after a stage boundary of a decelerating schedule, i.e. a total that the number of steps does not divide",
  breaks="every stage of a decelerating schedule but the first begins one iteration late",
  edits=[("tools/scheduler.py", "    step_length = total / num_steps\n    step_index = min(int(it // step_length), num_steps - 1)\n\n    alpha = step_index / (num_steps - 1)\n    nonlinear_alpha = 1 -", "    step_length = total / num_steps\n    step_index = min(int((it - 1) // step_length), num_steps - 1)\n\n    alpha = step_index / (num_steps - 1)\n    nonlinear_alpha = 1 -")],
  demo='''
from sktopt.tools.scheduler import schedule_step_decelerating
# 17 iterations, 5 levels: iteration 7 is in [17/5, 2*17/5) = [6.8, 10.2), the third level
v = schedule_step_decelerating(7, 17, 0.0, 1.0, 5, curvature=2.0)
assert abs(v - 0.75) < 1e-12, v
''')]
