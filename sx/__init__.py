"""sx: path-exploring symbolic execution of the real scikit-topt Python code.

The real functions of /repo are executed with numpy object arrays whose
elements are symbolic scalars (z3 terms).  See DESIGN.md.
"""
