"""Planted bugs (source of /verif/seeded, see tools/mkseed.py). Written from the property texts."""
M, E, S, Z = "model.py", "elements/element_definition.py", "solvers/tpsolver.py", "solvers/zerosearch.py"
MT = "materials/material_definition.py"
COMMON = '''
import os, sys, numpy as np, trusspy as tp

def close(a, b, tol=1e-6):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=tol)

def need(c, msg):
    if not c:
        print("BROKEN:", msg)
        sys.exit(1)

def two(mat="el", E=1.0, coord2=(1, 0, 3), b2=(0, 0, 1), prop=None, typ=1, force=(0, 0, -1), area=(1, 1), **kw):
    M = tp.Model(log=0, **kw)
    M.Nodes.add_node(1, coord=(0, 0, 0))
    M.Nodes.add_node(2, coord=coord2)
    M.Nodes.add_node(3, coord=(2, 0, 0))
    M.Elements.add_element(1, conn=(1, 2), gprop=[area[0]])
    M.Elements.add_element(2, conn=(2, 3), gprop=[area[1]])
    M.Elements.assign_material("all", prop or [E])
    if typ != 1:
        M.Elements.assign_mtype("all", typ)
    M.Boundaries.add_bound_U(1, (0, 0, 0))
    M.Boundaries.add_bound_U(2, b2)
    M.Boundaries.add_bound_U(3, (0, 0, 0))
    if force is not None:
        M.ExtForces.add_force(2, force)
    return M
'''
SEEDS = {}


def seed(id, property, edits, needs, what, demo):
    SEEDS[id] = dict(property=property, needs=needs, what_it_breaks=what, edits=edits, demo=COMMON + demo)


seed("C01-log-strain", "C01", [(E, "E11 = lam - 1\n", "E11 = np.log(lam)\n")],
     "a converged increment at finite stretch of the element (small strains look alike)",
     "the element force is E*A*ln(lambda) instead of E*A*(lambda-1)",
'''
M = two()
M.Settings.incs = 30
M.Settings.du = M.Settings.dlpf = 0.05
M.build(); M.run()
R = M.Results.R[-1]
need(R.stretch[0] < 0.99, "no finite strain reached")
need(close(np.ravel(R.element_force), np.ravel(R.stretch) - 1), "force is not E*A*(stretch-1)")
''')
seed("C02-const-first-only", "C02", [(M, "for s in range(step):", "for s in range(min(step, 1)):")],
     "a model with at least three load steps whose second step carries a load",
     "the loads of the completed second step are not carried as constant loads in the third",
'''
M = two(b2=(0, 0, 1), force=None)
M.ExtForces.add_force(2, (0, 0, -0.01, 0, 0, -0.02, 0, 0, -0.03))
M.Settings.nsteps = 3
M.Settings.incs = 3
M.Settings.du = 1.0
M.Settings.dlpf = 0.5
M.Settings.xlimit = (1, 50.0)
M.build(); M.run()
R = M.Results.R[-1]
x = np.array([1, 0, 3]) + R.U[1]
n = x / np.linalg.norm(x)
N = np.ravel(R.element_force)[0]
e = M.Results.step_lpf_end
need(abs(e[1]) > 0.1, "second step carries no load")
ext = -0.01 * e[0] - 0.02 * e[1] - 0.03 * R.lpf
need(close(2 * N * n[2], ext, 1e-6), "internal force %r does not balance %r" % (2 * N * n[2], ext))
''')
seed("C03-geometric-length", "C03", [(E, "N / l * (J", "N / L * (J")],
     "a loaded state with finite stretch (the start state and small strains look alike)",
     "the geometric stiffness uses the undeformed length, the matrix is no longer the derivative of the residual",
'''
M = two(coord2=(1, 0, 1), b2=(1, 0, 1), force=(0.05, 0.0, -1.0))
M.Settings.incs = 2
M.Settings.du = M.Settings.dlpf = 0.2
M.build(); M.run()
A = M.Results.R[-1]
M.Analysis = A
V = np.append(A.Ured, A.lpf)
K = np.array(M.stiffness(A.Ured, analysis=A)).copy()
Kn = np.zeros_like(K)
h = 1e-6
for i in range(len(A.Ured)):
    p, q = V.copy(), V.copy()
    p[i] += h; q[i] -= h
    Kn[:, i] = -(M.equilibrium(p, V, analysis=A) - M.equilibrium(q, V, analysis=A)) / (2 * h)
need(close(K, Kn, 1e-5), "stiffness is not the derivative of the internal force")
''')
seed("C05-reset-yield", "C05", [(MT, "if state_v[0] == 0:", "if state_v[1] == 0:")],
     "a bar that yields in tension and then back in compression until its plastic strain is zero again",
     "the hardened yield stress is forgotten when the plastic strain passes through zero",
'''
from trusspy.materials import umat_elplast_iso as u
sv = np.array([1.25, 0.0])           # hardened, zero plastic strain
s, d, t, out = u(0.11, 0.0, np.array([10.0, 1.0, 1.0]), sv)
need(close(s, 1.1) and close(d, 10.0), "elastic below the hardened yield stress: %r %r" % (s, d))
''')
