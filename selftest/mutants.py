"""Edits for run.py."""
M, E, S, Z = "model.py", "elements/element_definition.py", "solvers/tpsolver.py", "solvers/zerosearch.py"
MT, A = "materials/material_definition.py", "core/analysis.py"
HN, HE, HB, HF = ("handlers/handler_%s.py" % x for x in ("node", "element", "boundary", "extforce"))
BUGS = [
    ("normal undeformed", "C01", E, "n = dx / np.linalg.norm(dx)", "n = dX / np.linalg.norm(dX)"),
    ("green strain", "C01", E, "E11 = lam - 1\n", "E11 = (lam**2 - 1) / 2\n"),
    ("force overwrite not add", "C01", E, "rA += N * -n", "rA[:] = N * -n"),
    ("true area", "C01", E, "N = stress * A\n", "N = stress * A / lam\n"),
    ("residual no reset", "C02", M, 'self.Analysis.r.fill(0.0)', 'self.Analysis.r.fill(0.0) if statev_write else None'),
    ("residual skips elements", "C02", M, "for e in self.Elements.labels:", "for e in self.Elements.labels[: self.nelems]:\n            if e > self.nnodes * self.nnodes:\n                continue"),
    ("lpf ignored", "C02", M, "lpf = Ured[-1]\n", "lpf = self.Analysis.lpf\n"),
    ("const load only step 1", "C02", M, "for s in range(step):", "for s in range(min(step, 1)):"),
    ("const load double", "C02", M, "+ self.Analysis.ExtForces.forces_const.flatten()", "+ lpf * self.Analysis.ExtForces.forces_const.flatten()"),
    ("K no reset", "C03", M, "self.Analysis.K.fill(0.0)", "pass"),
    ("K geo sign", "C03", E, "np.outer(n, n) + N / l", "np.outer(n, n) - N / l"),
    ("K geo undeformed", "C03", E, "N / l * (J", "N / L * (J"),
    ("K offdiag", "C03", E, "] += -KTEE  # KT[3:6, :3]# -KTEE", "] += KTEE  # KT[3:6, :3]# -KTEE"),
    ("statev not copied", "C06", M, "state_v = self.Analysis.state_v.copy()", "state_v = self.Analysis.state_v"),
    ("commit only last", "C06", M, "if statev_write and self.Settings.nstatev > 0:", "if statev_write and self.Settings.nstatev > 0 and e == self.Elements.labels[-1]:"),
    ("locked moves", "C17", M, "self.nproDOF0 = self.nproDOF.flatten()[np.where(self.nproBC.flatten() == 0)]", "self.nproDOF0 = self.nproDOF.flatten()[np.where(self.nproBC.flatten() != 0)]"),
    ("dof column major", "C17", M, "np.where(self.nproBC.flatten() == 1)", 'np.where(self.nproBC.flatten("F") == 1)'),
    ("mat type first element", "C29", M, "mat_type = self.Elements.get_material_type(e)\n", "mat_type = self.Elements.mat_type[0]\n"),
    ("nstatev by first", "C29", M, "if 2 in self.Elements.mat_type:", "if self.Elements.mat_type[0] == 2:"),
    ("unknown type elastic", "C29", M, "elif mat_type == 2:\n                umat = umat_elplast_iso\n            else:\n", "elif mat_type == 2:\n                umat = umat_elplast_iso\n            elif mat_type == 3:\n                umat = umat_el\n            else:\n"),
    ("success or", "C07", Z, "f_norm < ftol and x_norm < xtol", "f_norm < ftol or x_norm < xtol"),
    ("success le nan", "C07", Z, "if f_norm < ftol and x_norm < xtol:", "if not (f_norm >= ftol or x_norm >= xtol):"),
    ("newton old residual", "C07", Z, "f_norm = norm(f(x, *args))", "f_norm = norm(f(x - dx, *args))"),
    ("newton x norm", "C07", Z, "x_norm = norm(dx)", "x_norm = norm(x)"),
    ("newton one more", "C07", Z, "for n in range(nfev):", "for n in range(nfev + 1):"),
    ("newton count", "C07", Z, "return x, success, n + 1,", "return x, success, n,"),
    ("newton no break", "C07", Z, "            success = True\n            break", "            success = True"),
    ("newton frozen jacobian", "C07", Z, [(Z, "    success = False\n", "    success = False\n    x00 = x\n"), (Z, "dfdx(x, *args)", "dfdx(x00, *args)")][0:0] or "dfdx(x, *args)), -f(x, *args)", "dfdx(x, *args)), -f(x, args[0])"),
    ("control row abs", "C08", S, "    qc[abs(j) - 1] = 1", "    qc[j - 1] = 1"),
    ("load sign", "C08", S, "-analysis.f0red)", "analysis.f0red)"),
    ("target lim 0", "C08", S, "xmax = x[abs(j) - 1] + dxmax[abs(j) - 1] * np.sign(j)", "xmax = x[abs(j) - 1] + dxmax[0] * np.sign(j)"),
    ("target no sign", "C08", S, "            xmax = x[abs(j) - 1] + dxmax[abs(j) - 1] * np.sign(j)\n\n            # NEWTON", "            xmax = x[abs(j) - 1] + dxmax[abs(j) - 1]\n\n            # NEWTON"),
    ("stiffness at start", "C08", S, "stiffness(Vred[:-1], analysis=analysis)", "stiffness(V0red[:-1], analysis=analysis)"),
    ("record unconverged", "C09", S, "if solution_valid and nr_success:", "if solution_valid or nr_success:"),
    ("no stop", "C09", S, "        if stop:\n            break\n", "        if stop:\n            pass\n"),
    ("valid control only", "C09", S, "if np.all(abs(Dx / dxmax) <= dxtol):", "if np.any(abs(Dx / dxmax) <= dxtol):"),
    ("valid first comps", "C09", S, "if np.all(abs(Dx / dxmax) <= dxtol):", "if np.all(abs(Dx / dxmax)[:-1] <= dxtol):"),
    ("record Ured x0", "C09", S, "analysis.Ured = x[:-1]", "analysis.Ured = x0[:-1]"),
    ("restart from last try", "C10", S, "            x = x0.copy()\n            j0 = j", "            x = x0.copy() if z < 2 else x\n            j0 = j"),
    ("keep j after failure", "C10", S, "            if not nr_success:\n                j = j0", "            if not nr_success and z > 0:\n                j = j0"),
    ("predict unscaled", "C10", S, "x = x0 + Dx_pre / abs(Dxs_pre[-1])", "x = x0 + Dx_pre"),
    ("j unsigned", "C10", S, "                j = int(i1 * np.sign(v1))\n\n            # save", "                j = int(i1)\n\n            # save"),
    ("j second", "C10", S, "                j = int(i1 * np.sign(v1))\n\n            # save", "                j = int((i1 if z < 2 else i2) * np.sign(v1))\n\n            # save"),
    ("increase at recycle", "C11", S, "                if z > 0:\n                    pass", "                if z > 1:\n                    pass"),
    ("b less", "C11", S, "elif b <= 3:", "elif b < 3:"),
    ("min bound", "C11", S, "if dxmax[0] > dxmax0[0] * minfac:", "if dxmax[0] > dxmax[0] * minfac:"),
    ("b no reset", "C11", S, "                b = 0  # reset counter to increase width again", "                b = max(b - 4, 0)"),
    ("max only LPF", "C11", S, "dxmax = dxmax0.copy() * maxfac", "dxmax = dxmax * 1.0\n                dxmax[:-1] = dxmax0[:-1] * maxfac"),
    ("z reset always", "C12", S, "            if z + 1 == cycl:\n                z = 0\n                final", "            if z + 1 == cycl or j0 == j:\n                z = 0\n                final"),
    ("xlimit ge first", "C12", S, "if abs(x[xlimit[0] - 1]) > xlimit[1]:", "if x[xlimit[0] - 1] > xlimit[1]:"),
    ("error 2 off by", "C12", S, "if j0 == j and nr_success is False and sc_changed is False:", "if j0 == j and nr_success is False and sc_changed is False and z > 0:"),
    ("swap ftol xtol", "C18", S, "f, dfdx, x, max(nfev - n_pre, 1), ftol, xtol, verbose", "f, dfdx, x, max(nfev - n_pre, 1), xtol, ftol, verbose"),
    ("swap fac", "C18", S, "                    minfac,\n                    maxfac,\n                    reduce", "                    maxfac,\n                    minfac,\n                    reduce"),
    ("increase default", "C18", S, "                    reduce,\n                    increase,\n                    verbose=2", "                    reduce,\n                    verbose=2"),
    ("xtol from ftol", "C18", M, "xtol=10**-self.Settings.xtol", "xtol=10**-self.Settings.ftol"),
    ("cycl nfev", "C18", M, "cycl=self.Settings.cycl", "cycl=self.Settings.nfev"),
    ("incs first", "C18", M, "incs = self.Settings.incs[step]", "incs = self.Settings.incs[0]"),
    ("commit all converged", "C06", S, "            if solution_valid and nr_success:\n                # UPDATE STATE VARIABLES\n                args = x0, j0, xmax, g, dgdx, analysis, True\n                f(x, *args)\n", "            if nr_success:\n                f(x, x0, j0, xmax, g, dgdx, analysis, True)\n            if solution_valid and nr_success:\n"),
    ("commit at x0", "C06", S, "                f(x, *args)\n                b = b + 1", "                f(x0 if z > 0 else x, *args)\n                b = b + 1"),
    ("const last lpf", "C13", M, "self.Results.step_lpf_end[s]\n", "self.Results.step_lpf_end[-1]\n"),
    ("const first cols", "C13", M, "* self.ExtForces.forces[:, 3 * (s) : 3 * (s + 1)]", "* self.ExtForces.forces[:, 3 * (step - 1) : 3 * step]"),
    ("lpf end of results", "C13", M, "step_lpf_end.append(res_a[-1].lpf)", "step_lpf_end.append(self.Results.R[-1].lpf)"),
    ("f0red total", "C13", M, "f0red = self.Analysis.ExtForces.forces.flatten()[self.Analysis.DOF1]", "f0red = self.ExtForces.forces[:, :3].flatten()[self.Analysis.DOF1]"),
    ("lpf not reset", "C13", M, "                self.Analysis.lpf = 0.0\n", "                pass\n"),
    ("lpf reset step 1", "C13", M, "if step + 1 < self.Settings.nsteps:", "if step == 0 and self.Settings.nsteps > 1:"),
    ("start from zero", "C13", M, "                self.Analysis.Ured,\n                self.Analysis,\n", "                self.Analysis.Ured * (step < 2),\n                self.Analysis,\n"),
    ("incs first", "C13", M, "incs = self.Settings.incs[step]", "incs = self.Settings.incs[min(step, 1)]"),
    ("xlimit incs type", "C13", M, "if type(self.Settings.xlimit[0]) == tuple:", "if type(self.Settings.incs) == tuple:"),
    ("record shallow", "C14", S, "res_a.append(copy.deepcopy(analysis))", "res_a.append(copy.copy(analysis))"),
    ("record live", "C14", S, "res_a.append(copy.deepcopy(analysis))", "res_a.append(analysis)"),
    ("start live", "C14", S, "res_a = [copy.deepcopy(analysis)]", "res_a = [analysis]"),
    ("results skip last", "C14", M, "enumerate(zip(res_V[1:], res_a[1:]))", "enumerate(zip(res_V[1:-1], res_a[1:]))"),
    ("results with start", "C14", M, "enumerate(zip(res_V[1:], res_a[1:]))", "enumerate(zip(res_V[step:], res_a[step:]))"),
    ("no removal", "C14", M, "                self.Results.remove_last_increment()", "                pass"),
    ("first live", "C14", "handlers/handler_result.py", "result = copy.deepcopy(analysis)", "result = copy.copy(analysis)"),
    ("record ext alias", "C14", M, "                self.Results.R[-1] = r_a\n", "                r_a.ExtForces = self.Analysis.ExtForces\n                self.Results.R[-1] = r_a\n"),
    ("del node label idx", "C15", HN, "idx = np.where(self.labels == label)[0]", "idx = label - 1"),
    ("del node argmax", "C15", HN, "idx = np.where(self.labels == label)[0]", "idx = [np.argmax(self.labels == label)]"),
    ("del force first", "C15", HF, "self.forces = np.delete(self.forces, idx, axis=0)", "self.forces = np.delete(self.forces, idx % len(self.nodes), axis=0)"),
    ("del element conns", "C15", HE, "        self.conns = np.delete(self.conns, idx, axis=0)\n", "        self.conns = np.delete(self.conns, np.searchsorted(self.labels, label), axis=0)\n"),
    ("del bound ge", "C15", HB, "idx = np.where(self.Unodes == label)[0]", "idx = np.where(self.Unodes >= label)[0][:1]"),
    ("bounds default locked", "C16", HB, "B = BoundaryU(n, (1, 1, 1))", "B = BoundaryU(n, (1, 1, 0))"),
    ("bounds no take values", "C16", HB, "        self.Uvalues = self.Uvalues.take(indices, axis=0)\n", ""),
    ("bounds isin swapped", "C16", HB, "np.isin(nodelist, self.Unodes, invert=True)", "np.isin(nodelist, self.Unodes)"),
    ("bounds argsort list", "C16", HB, "indices = np.argsort(self.Unodes)", "indices = np.argsort(nodelist)"),
    ("force default ones", "C16", HF, "F = ExternalForce(n, np.zeros(comp))", "F = ExternalForce(n, np.ones(comp))"),
    ("force take axis", "C16", HF, "self.forces = self.forces.take(indices, axis=0)", "self.forces = self.forces[np.argsort(indices)]"),
    ("force isin self", "C16", HF, "mask = np.isin(nodelist, self.nodes, invert=True)", "mask = nodelist > self.nodes.max() if len(self.nodes) else np.ones(len(nodelist), dtype=bool)"),
    ("nodes inverse perm", "C16", HN, "self.coords = self.coords.take(indices, axis=0)", "self.coords = self.coords.take(np.argsort(indices), axis=0)"),
    ("nodes desc", "C16", HN, "indices = np.argsort(self.labels)", "indices = np.argsort(self.labels)[::-1]"),
    ("build no reject", "C16", "model.py", "            np.allclose(self.Nodes.labels, self.Boundaries.Unodes)\n            and np.allclose(self.Nodes.labels, self.ExtForces.nodes)", "            np.allclose(self.Nodes.labels, self.Boundaries.Unodes)"),
    ("build reject or", "C16", "model.py", "            and np.allclose(self.Nodes.labels, self.ExtForces.nodes)", "            or np.allclose(self.Nodes.labels, self.ExtForces.nodes)"),
    ("build reject len", "C16", "model.py", "            np.allclose(self.Nodes.labels, self.Boundaries.Unodes)\n            and np.allclose(self.Nodes.labels, self.ExtForces.nodes)", "            len(self.Nodes.labels) <= len(self.Boundaries.Unodes)\n            and len(self.Nodes.labels) <= len(self.ExtForces.nodes)"),
    ("build fix order", "C16", "model.py", "        self.Nodes.fix_nodes()\n        self.Boundaries.fix_bounds_U(self.Nodes.labels)\n", "        labels = self.Nodes.labels\n        self.Nodes.fix_nodes()\n        self.Boundaries.fix_bounds_U(labels[:-1])\n"),
    ("get nodes by index", "C15", HE, "return self.conns[np.where(self.labels == label)][0]\n", "return self.conns[label - 1]\n"),
    ("NE NA", "C15", HE, "return self.conns[np.where(self.labels == label)][0, -1]", "return self.conns[np.where(self.labels == label)][0, -2]"),
    ("pad nan", "C15", HE, "extend = np.zeros(self.material_properties.shape[1] - len(mprop))", "extend = np.full(self.material_properties.shape[1] - len(mprop), mprop[-1])"),
    ("assign mtype all", "C15", HE, "self.mat_type[np.where(self.labels == label)] = [mtype]", "self.mat_type[:] = [mtype]"),
    ("assign etype idx", "C15", HE, "self.elem_type[np.where(self.labels == label)] = elem_type", "self.elem_type[label - 1] = elem_type"),
    ("assign geos rev", "C15", HE, "for label, gprop in zip(labels, gprops):", "for label, gprop in zip(np.sort(labels), gprops):"),
    ("add prepend", "C15", HE, "self.mat_type = np.append(self.mat_type, E.mat_type)", "self.mat_type = np.append(E.mat_type, self.mat_type)"),
    ("add etype", "C15", HE, "self.elem_type = np.append(self.elem_type, E.elem_type)", "self.elem_type = np.append(self.elem_type, E.mat_type)"),
    ("add many first", "C15", HN, "        for N in NN:\n            self.add_node(N)", "        for N in NN[:2]:\n            self.add_node(N)"),
    ("extend ones", "C15", HE, "            extend = np.zeros(\n                (", "            extend = np.ones(\n                ("),
    ("assign mat set", "C15", HE, "        for label in labels:\n            self.material_properties[np.where(self.labels == label)]", "        for label in labels[:2]:\n            self.material_properties[np.where(self.labels == label)]"),
    ("rebuild keeps results", "C19", M, "        self.Results = ResultHandler()\n", "        if not hasattr(self, \"Results\"):\n            self.Results = ResultHandler()\n"),
    ("rebuild keeps lpf end", "C19", M, "        self.Results = ResultHandler()\n", "        last = getattr(self, \"Results\", None)\n        self.Results = ResultHandler()\n        if last is not None:\n            self.Results.step_lpf_end = last.step_lpf_end\n"),
    ("rebuild dof cache", "C19", M, "        self.nproDOF1 = self.nproDOF.flatten()[np.where(self.nproBC.flatten() == 1)]", "        if not hasattr(self, \"nproDOF1\"):\n            self.nproDOF1 = self.nproDOF.flatten()[np.where(self.nproBC.flatten() == 1)]"),
    ("results default arg", "C19", "handlers/handler_result.py", "    def __init__(self):\n        self.R = []", "    def __init__(self, R=[]):\n        self.R = R"),
    ("lpf end class level", "C19", "handlers/handler_result.py", "    def __init__(self):\n        self.R = []\n        self.step_lpf_end = []", "    step_lpf_end = []\n\n    def __init__(self):\n        self.R = []"),
    ("rebuild max nodes", "C19", M, "        self.nnodes = len(self.Nodes.labels)", "        self.nnodes = max(len(self.Nodes.labels), getattr(self, \"nnodes\", 0))"),
    ("lpf not zero", "C19", M, "            lpf=0,\n", "            lpf=self.Settings.lpf,\n"),
    ("run forces alias", "C20", M, "self.Analysis.ExtForces = copy.deepcopy(self.ExtForces)", "self.Analysis.ExtForces = self.ExtForces"),
    ("run const in place", "C20", M, """            f0_const = np.zeros_like(
                self.ExtForces.forces[:, 3 * (step) : 3 * (step + 1)]
            )
            for s in range(step):""", """            f0_const = self.ExtForces.forces[:, 0:3]
            if step == 0:
                f0_const = np.zeros_like(f0_const)
            for s in range(step):"""),
    ("run settings incs", "C20", M, "                incs = self.Settings.incs\n", "                incs = self.Settings.incs = int(self.Settings.incs)\n"),
    ("run dlpf adapted", "C20", M, "            # append last lpf value", "            self.Settings.dlpf = self.Settings.dlpf * 0.5\n            # append last lpf value"),
    ("plot coords in place", "C20", "tools/plot_utilities.py", "    return self.Nodes.coords + self.Results.R[-1].U", "    X = self.Nodes.coords\n    X += self.Results.R[-1].U\n    return X"),
    ("plot forces sorted", "C20", "tools/plot_utilities.py", "    f0_const = self.Results.R[inc].ExtForces.forces_const\n", "    f0_const = self.Results.R[inc].ExtForces.forces_const\n    f0_const += lpf * self.ExtForces.forces[:, 3 * (self.Results.R[inc].step - 1) : 3 * self.Results.R[inc].step]\n"),
    ("plot stretch abs", "C20", "tools/plot_utilities.py", "        con = contour, self.Results.R[inc].element_force[:, 0], contour_lim", "        f = self.Results.R[inc].element_force[:, 0]\n        f /= contour_lim[1]\n        con = contour, f, contour_lim"),
    ("history pops first", "C20", "tools/plot_utilities.py", "    for R in self.Results.R:\n", "    RR = self.Results.R\n    if len(RR) > 2:\n        RR.append(RR[-1])\n    for R in RR:\n"),
    ("results get pops", "C20", "handlers/handler_result.py", "        return self.R[i]", "        R = self.R[i]\n        R.i = i\n        return R"),
    ("getter reshapes", "C20", "core/analysis.py", "            return self.U.flatten()", "            self.U = self.U.flatten()\n            return self.U"),
    ("movie force scale", "C20", "tools/plot_utilities.py", "    png_to_gif(**kwargs)", "    self.Settings.log = 0\n    png_to_gif(**kwargs)"),
    ("stdout kept late", "C22", M, [(M, "        self.stdout = sys.stdout\n        self.logfile = logfile", "        self.logfile = logfile"), (M, "        if log > 1:\n            if self.logfile:", "        self.stdout = sys.stdout\n        if log > 1:\n            if self.logfile:")][0:0] or "        self.stdout = sys.stdout\n", "        self.stdout = sys.__stdout__\n"),
    ("stdout late", "C22", [(M, "        self.stdout = sys.stdout\n        self.logfile = logfile", "        self.logfile = logfile"), (M, "        if log > 1:\n            if self.logfile:", "        self.stdout = sys.stdout\n        if log > 1:\n            if self.logfile:")]),
    ("stdout no finally", "C22", M, "        try:\n            self._run()\n        finally:\n            # give back the standard output stream\n            if self.logfile:\n                sys.stdout = self.stdout", "        self._run()\n        if self.logfile:\n            sys.stdout = self.stdout"),
    ("stdout only value errors", "C22", M, "        try:\n            self._run()\n        finally:\n            # give back the standard output stream\n            if self.logfile:\n                sys.stdout = self.stdout", "        try:\n            self._run()\n        except ValueError:\n            sys.stdout = self.stdout\n            raise\n        if self.logfile:\n            sys.stdout = self.stdout"),
    ("stdout by log level", "C22", M, "            if self.logfile:\n                sys.stdout = self.stdout", "            if self.logfile and self.Settings.log > 1:\n                sys.stdout = self.stdout"),
    ("stdout always", "C22", M, "            if self.logfile:\n                sys.stdout = self.stdout", "            sys.stdout = self.stdout"),
    ("stdout run start", "C22", M, '        """Run job."""\n', '        """Run job."""\n        self.stdout = sys.stdout\n'),
    ("stdout replaced in step", "C22", M, "            self.Analysis.step = 1 + step\n", "            self.Analysis.step = 1 + step\n            if self.logfile is False and self.Settings.log > 1:\n                sys.stdout = sys.stderr\n"),
    ("material array alias", "C21", HE, "            self.material_properties = np.array([E.material_properties], dtype=float)", "            self.material_properties = np.asarray(E.material_properties, dtype=float).reshape(1, -1)"),
    ("add nodes pops", "C21", HN, "        for N in NN:\n            self.add_node(N)", "        while len(NN) > 0:\n            self.add_node(NN.pop(0))"),
    ("mprop extended", "C21", HE, "            extend = np.zeros(self.material_properties.shape[1] - len(mprop))\n            mprop = np.append(mprop, extend)", "            while len(mprop) < self.material_properties.shape[1]:\n                mprop.append(0.0)"),
    ("length cache", "C21", [(E, "import numpy as np\n", "import numpy as np\n\n_LENGTHS = {}\n"), (E, "    # normal force\n", "    if e not in _LENGTHS:\n        _LENGTHS[e] = L\n    L = _LENGTHS[e]\n    # normal force\n")]),
    ("history nodes default", "C21", "tools/plot_utilities.py", "    x, y = np.nan, np.nan\n    for R in self.Results.R:", "    x, y = np.nan, np.nan\n    if len(nodes) < 2:\n        nodes.append(nodes[0])\n    nodes[1] = int(nodes[1])\n    for R in self.Results.R:"),
    ("boundary class list", "C21", HB, "    def __init__(self):\n", "    history = []\n\n    def __init__(self):\n        self.history.append(self)\n"),
    ("settings class dict", "C21", "handlers/handler_settings.py", "        self.nsteps = 1\n", "        type(self).last_nsteps = 1\n        self.nsteps = 1\n"),
    ("truss function attr", "C21", E, "    # normal force\n", "    truss.last = L\n    # normal force\n"),
    ("global counter", "C21", [("handlers/handler_result.py", "class ResultHandler:", "COUNT = 0\n\n\nclass ResultHandler:"), ("handlers/handler_result.py", "        result.lpf = lpf\n", "        global COUNT\n        COUNT += 1\n        result.lpf = lpf\n")]),
    ("coords alias", "C21", [(HN, "self.coords = np.array([N.coord])", "self.coords = np.asarray(N.coord).reshape(1, -1)"), (HN, "        indices = np.argsort(self.labels)\n", "        indices = np.argsort(self.labels)\n        self.coords += 0.0\n")]),
    ("nodelist sorted", "C21", HB, "        indices = np.argsort(self.Unodes)\n", "        nodelist.sort()\n        indices = np.argsort(self.Unodes)\n"),
    ("newton start", "C21", Z, "    success = False\n", "    success = False\n    x += 0.0\n"),
    ("elements default store", "C21", "core/element.py", "        self.label = label\n", "        self.label = label\n        material_properties += []\n        if len(material_properties) == 0:\n            material_properties.append(np.nan)\n"),
    ("dxmax kept", "C21", S, "    verbose=0,\n):", "    verbose=0,\n    memory=[],\n):\n    memory.append(incs)"),
    ("nodes view swapped", "C25", "tools/helper_functions2.py", '    if view == "yz":\n        i, j = 1, 2\n\n    if view == "3d":\n        if fig is None:', '    if view == "yz":\n        i, j = 2, 1\n\n    if view == "3d":\n        if fig is None:'),
    ("elements view xy", "C25", "tools/helper_functions2.py", '    if view == "xy":\n        i, j = 0, 1\n    if view == "yz":\n        i, j = 1, 2\n\n    if contour', '    if view == "xy":\n        i, j = 0, 2\n    if view == "yz":\n        i, j = 1, 2\n\n    if contour'),
    ("force view yz", "C25", "tools/helper_functions2.py", "        i, j, k = 1, 2, 0", "        i, j, k = 1, 0, 2"),
    ("elements undeformed", "C25", "tools/plot_utilities.py", "        1 + np.searchsorted(self.Nodes.labels, self.Elements.conns),\n        self.Nodes.coords + self.Results.R[inc].U,", "        1 + np.searchsorted(self.Nodes.labels, self.Elements.conns),\n        self.Nodes.coords,"),
    ("force skips negative", "C25", "tools/helper_functions2.py", "                if f0i[k] != 0:", "                if f0i[k] > 0:"),
    ("force early skip", "C25", "tools/helper_functions2.py", "        if ~(f0i == np.zeros(3)).all():", "        if ~(f0i == np.zeros(3)).any():"),
    ("force 2d zero threshold", "C25", "tools/helper_functions2.py", "                if f0i[j] != 0:\n                    plt.arrow(", "                if abs(f0i[j]) > 1e-3:\n                    plt.arrow("),
    ("element start twice 3d", "C25", "tools/helper_functions2.py", "                [X[NA - 1][2], X[NE - 1][2]],\n                color=color,", "                [X[NA - 1][2], X[NA - 1][2]],\n                color=color,"),
    ("element skip last", "C25", "tools/helper_functions2.py", "    for k, e in enumerate(E):\n        NA", "    for k, e in enumerate(E[:-1] if len(E) > 3 else E):\n        NA"),
    ("force step columns", "C25", "tools/plot_utilities.py", "    f0_const = self.Results.R[inc].ExtForces.forces_const\n    step = self.Results.R[inc].step\n", "    f0_const = self.Results.R[inc].ExtForces.forces_const\n"),
    ("force const dropped", "C25", "tools/plot_utilities.py", "        f0_const + lpf * self.ExtForces.forces", "        lpf * self.ExtForces.forces"),
    ("force scale dropped 2d", "C25", "tools/helper_functions2.py", "                        0,\n                        scale * f0i[j],\n                        color=color,", "                        0,\n                        0.5 * f0i[j],\n                        color=color,"),
    ("view labels", "C25", "tools/plot_utilities.py", "        plt.ylabel(view[1])", "        plt.ylabel(view[-1 if view != 'xy' else 0])"),
    ("scale not passed", "C25", "tools/plot_utilities.py", "        scale=force_scale,\n", ""),
    ("deformed first increment", "C25", "tools/plot_utilities.py", "    return self.Nodes.coords + self.Results.R[-1].U", "    return self.Nodes.coords + self.Results.R[1].U"),
    ("zero based conns", "C25", "tools/helper_functions2.py", "        NA = int(e[-2])\n        NE = int(e[-1])", "        NA = int(e[-2])\n        NE = int(max(e))"),
    ("nodes only free", "C25", "tools/plot_utilities.py", "    fig, ax = plot_nodes(\n        self.Nodes.coords + self.Results.R[inc].U,", "    fig, ax = plot_nodes(\n        (self.Nodes.coords + self.Results.R[inc].U)[1:],"),
    ("negative inc off", "C26", "tools/plot_utilities.py", "        inc = len(self.Results.R) + inc\n", "        inc = len(self.Results.R) + inc - 1\n"),
    ("lpf of last", "C26", "tools/plot_utilities.py", "        lpf = self.Results.R[inc].lpf\n", "        lpf = self.Results.R[-1].lpf\n"),
    ("contour force abs", "C26", "tools/plot_utilities.py", "        con = contour, self.Results.R[inc].element_force[:, 0], contour_lim", "        con = contour, abs(self.Results.R[inc].element_force[:, 0]), contour_lim"),
    ("tuple contour stress", "C26", "tools/plot_utilities.py", "            con_data = self.Results.R[inc].element_stress[:, 0]", "            con_data = self.Results.R[inc].element_force[:, 0]"),
    ("tuple contour last inc", "C26", "tools/plot_utilities.py", "            con_data = self.Results.R[inc].stretch[:, 0]", "            con_data = self.Results.R[-1].stretch[:, 0]"),
    ("contour limits swapped 3d", "C26", "tools/helper_functions2.py", "Normalize(vmin=contour_lim[0], vmax=contour_lim[1])", "Normalize(vmin=-contour_lim[1], vmax=contour_lim[1])"),
    ("cbar ignored stress", "C26", "tools/plot_utilities.py", '    if contour == "stress":\n        if cbar_limits == "auto":', '    if contour == "stress":\n        if cbar_limits is not None:'),
    ("contour k shifted", "C26", "tools/helper_functions2.py", "            color = colormap(norm(contour[k]))", "            color = colormap(norm(contour[k - 1]))"),
    ("history y first node", "C26", "tools/plot_utilities.py", "                y = R.r[np.where(self.Nodes.labels == nodes[1])][0][dir_dict[Y[-1]]]".replace("                y", "            y"), "            y = R.r[np.where(self.Nodes.labels == nodes[0])][0][dir_dict[Y[-1]]]"),
    ("history axes dir", "C26", "tools/plot_utilities.py", "            x = R.r[np.where(self.Nodes.labels == nodes[0])][0][dir_dict[X[-1]]]", "            x = R.r[np.where(self.Nodes.labels == nodes[0])][0][dir_dict[Y[-1]] if Y[-1] in dir_dict else dir_dict[X[-1]]]"),
    ("history label as index", "C26", "tools/plot_utilities.py", "            x = R.U[np.where(self.Nodes.labels == nodes[0])][0][dir_dict[X[-1]]]", "            x = R.U[nodes[0] - 1][dir_dict[X[-1]]]"),
    ("history stale lpf", "C26", "tools/plot_utilities.py", '        elif "LPF" in X:\n            x = R.lpf', '        elif "LPF" in X:\n            x = R.lpf if R.lpf != 0 else x'),
    ("history state index", "C26", "tools/plot_utilities.py", "            stv_index = int(Y[-1]) - 1\n            y = R.state_v[np.where(self.Elements.labels == nodes[1])][0][stv_index]\n        xx.append(x)\n        yy.append(y)\n\n    if \"Incr", "            stv_index = int(Y[-1]) - 2\n            y = R.state_v[np.where(self.Elements.labels == nodes[1])][0][stv_index]\n        xx.append(x)\n        yy.append(y)\n\n    if \"Incr"),
    ("history skip first", "C26", "tools/plot_utilities.py", "    for R in self.Results.R:", "    for R in self.Results.R[1:]:"),
    ("history swapped", "C26", "tools/plot_utilities.py", "    fig, ax = plot_hist(xx, yy, nodes[0], X, Y, fig, ax)", "    fig, ax = plot_hist(yy, xx, nodes[0], X, Y, fig, ax)"),
    ("path increment", "C26", "tools/plot_utilities.py", "    R = self.Results.R[increment]\n", "    R = self.Results.R[min(increment, -1)]\n"),
    ("path reversed", "C26", "tools/plot_utilities.py", "    fig, ax = plot_pth(nodepath, yy, increment, Y, fig, ax)", "    fig, ax = plot_pth(sorted(nodepath), yy, increment, Y, fig, ax)"),
    ("path force dir", "C26", "tools/plot_utilities.py", "            y = R.r[np.where(self.Nodes.labels == node)][0][dir_dict[Y[-1]]]", "            y = R.r[np.where(self.Nodes.labels == node)][0][dir_dict.get(Y[-1:-2], 0)]"),
    ("undeformed contour", "C26", "tools/plot_utilities.py", "    if inc == 0:\n        lpf = 1.0", "    if inc <= 1:\n        lpf = 1.0"),
    ("limits of last", "C26", "tools/plot_utilities.py", "                -max(abs(self.Results.R[inc].element_stress[:, 0])),\n                max(abs(self.Results.R[inc].element_stress[:, 0])),", "                -max(abs(self.Results.R[-1].element_stress[:, 0])),\n                max(abs(self.Results.R[-1].element_stress[:, 0])),"),
    ("movie starts at 0", "C30", "tools/plot_utilities.py", "        incs = range(1, len(self.Results.R))", "        incs = range(0, len(self.Results.R))"),
    ("movie misses last", "C30", "tools/plot_utilities.py", "        incs = range(1, len(self.Results.R))", "        incs = range(1, max(2, len(self.Results.R) - 1))"),
    ("movie sort plain", "C30", "tools/movie_generator.py", "sorted(os.listdir(png_dir), key=lambda name: (len(name), name))", "sorted(os.listdir(png_dir))"),
    ("movie unsorted", "C30", "tools/movie_generator.py", "sorted(os.listdir(png_dir), key=lambda name: (len(name), name))", "os.listdir(png_dir)"),
    ("movie stale", "C30", "tools/plot_utilities.py", '    if os.path.isdir("figures/"):\n        shutil.rmtree("figures/")\n    os.mkdir("figures/")\n    os.mkdir("figures/png/")', '    os.makedirs("figures/png/", exist_ok=True)'),
    ("movie no mkdir", "C30", "tools/plot_utilities.py", '    os.mkdir("figures/png/")\n', '    if not os.path.isdir("figures/png"):\n        os.makedirs("figures/png2/")\n'),
    ("movie force scale", "C30", "tools/plot_utilities.py", "self.plot_model(view, contour, lim_scale, force_scale, nodesize, cbar_limits, i)", "self.plot_model(view, contour, force_scale, lim_scale, nodesize, cbar_limits, i)"),
    ("movie cbar dropped", "C30", "tools/plot_utilities.py", "self.plot_model(view, contour, lim_scale, force_scale, nodesize, cbar_limits, i)", "self.plot_model(view, contour, lim_scale, force_scale, nodesize, inc=i)"),
    ("movie nodesize dropped", "C30", "model.py", "            force_scale,\n            nodesize,\n            cbar_limits,\n            incs,", "            force_scale,\n            10,\n            cbar_limits,\n            incs,"),
    ("movie name modulo", "C30", "tools/plot_utilities.py", '"figures/png/fig_{:03d}.png".format(i)', '"figures/png/fig_{:03d}.png".format(i % 1000)'),
    ("movie name counter", "C30", "tools/plot_utilities.py", '    for i in incs:\n        self.plot_model(view, contour, lim_scale, force_scale, nodesize, cbar_limits, i)', '    for n, i in enumerate(incs):\n        self.plot_model(view, contour, lim_scale, force_scale, nodesize, cbar_limits, n + 1)'),
    ("movie filter", "C30", "tools/movie_generator.py", '        if file_name.endswith(".png"):', '        if file_name.endswith("0.png") or len(file_name) == 11:'),
    ("movie kwargs", "C30", "tools/movie_generator.py", "images, subrectangles=True, **kwargs)", "images, subrectangles=True)"),
    ("movie incs clipped", "C30", "tools/plot_utilities.py", '    if os.path.isdir("figures/"):', '    incs = [i for i in incs if i < 1000]\n    if os.path.isdir("figures/"):'),
    ("movie not closed", "C30", [("tools/plot_utilities.py", '        plt.close("all")\n', ''), ("tools/plot_utilities.py", "    con = None\n    plt.figure()\n", "    con = None\n")]),
    ("gif clears workdir", "C23", "tools/movie_generator.py", "    if os.path.isdir(gif_dir):\n        rmtree(gif_dir)", "    if os.path.isdir(gif_dir):\n        rmtree(workdir)\n        os.mkdir(workdir)"),
    ("gif deletes frames", "C23", "tools/movie_generator.py", "    imageio.mimwrite(gif_dir + r\"movie.gif\", images, subrectangles=True, **kwargs)", "    imageio.mimwrite(gif_dir + r\"movie.gif\", images, subrectangles=True, **kwargs)\n    rmtree(png_dir)"),
    ("gif to cwd", "C23", "tools/movie_generator.py", "imageio.mimwrite(gif_dir + r\"movie.gif\"", "imageio.mimwrite(gif_subdir + r\"../movie.gif\""),
    ("frames elsewhere", "C23", "tools/plot_utilities.py", 'plt.savefig("figures/png/fig_{:03d}.png".format(i), dpi=200)', 'plt.savefig("figures/png/fig_{:03d}.png".format(i), dpi=200)\n        plt.savefig("fig_last.png")'),
    ("view folder", "C23", "tools/plot_utilities.py", '    os.mkdir("figures/png/")\n', '    os.mkdir("figures/png/")\n    if view == "3d":\n        os.makedirs("figures3d/", exist_ok=True)\n'),
    ("log file at high level", "C23", "model.py", "        if self.logfile:\n            sys.stdout = open", "        if self.logfile or log > 4:\n            sys.stdout = open"),
    ("log name", "C23", "model.py", 'open(self.logfile_name + ".md", "w")', 'open(self.logfile_name.lower() + ".log", "w")'),
    ("results saved", "C23", "model.py", "        time_dclock_run = time.perf_counter() - self.clock0_run\n", "        if self.Settings.nsteps > 1:\n            np.save(\"results.npy\", self.Results.R[-1].U)\n        time_dclock_run = time.perf_counter() - self.clock0_run\n"),
    ("delete parent", "C23", "tools/plot_utilities.py", '        shutil.rmtree("figures/")', '        shutil.rmtree("figures/../")'),
    ("opens viewer", "C23", "tools/movie_generator.py", "    imageio.mimwrite(gif_dir", "    if kwargs.get(\"loop\") is not None:\n        os.system(\"open \" + gif_dir)\n    imageio.mimwrite(gif_dir"),
    ("path saved", "C23", "tools/helper_functions2.py", '    ax.set_xlabel("Nodepath")\n', '    ax.set_xlabel("Nodepath")\n    if inc < -1:\n        plt.savefig("nodepath.png")\n'),
    ("model pickled", "C23", "handlers/handler_result.py", "        \"remove last Result from ResultManager\"\n", "        \"remove last Result from ResultManager\"\n        import pickle\n\n        with open(\"last.pkl\", \"wb\") as f:\n            pickle.dump(self.R[-1], f)\n"),
    ("chdir", "C23", "tools/plot_utilities.py", '    os.mkdir("figures/png/")\n', '    os.mkdir("figures/png/")\n    os.chdir(".")\n'),
    ("time out", "C24", Z, "        if f_norm < ftol and x_norm < xtol:", "        import time\n\n        if time.perf_counter() > 1e9:\n            break\n        if f_norm < ftol and x_norm < xtol:"),
    ("random start", "C24", "model.py", "        self.Analysis.Vred = np.append(self.Analysis.Ured, 0)", "        self.Analysis.Vred = np.append(self.Analysis.Ured, 0) + 1e-14 * np.random.rand()"),
    ("random perturbation", "C24", S, "    res_x = x.copy()\n", "    x = x + 1e-300 * np.random.rand(len(x))\n    res_x = x.copy()\n"),
    ("empty residual", "C24", "core/analysis.py", "            self.element_stress0 = np.zeros((nelems, 1))", "            self.element_stress0 = np.empty((nelems, 1))"),
    ("empty const forces", "C24", "handlers/handler_result.py", "result.ExtForces.forces_const = np.zeros_like(result.U)", "result.ExtForces.forces_const = np.empty_like(result.U)"),
    ("environment log", "C24", "model.py", "                ftol=10**-self.Settings.ftol,", "                ftol=10 ** -(self.Settings.ftol if __import__(\"os\").getenv(\"TRUSSPY_FTOL\") is None else 4),"),
    ("stamp result", "C24", "model.py", "                self.Results.R[-1] = r_a\n", "                self.Results.R[-1] = r_a\n                r_a.time = time.time()\n"),
    ("budget", "C24", "model.py", "            if self.Settings.log > 0:\n                print(\"\\nEnd of Step\", step + 1)", "            if time.perf_counter() - self.clock0_run > 3600:\n                break\n            if self.Settings.log > 0:\n                print(\"\\nEnd of Step\", step + 1)"),
    ("getter typo", "C27", "handlers/handler_element.py", "        \"choose element label and return material type\"\n        return self.mat_type[", "        \"choose element label and return material type\"\n        return self.mat_types["),
    ("unbound contour", "C27", "tools/plot_utilities.py", "    con = None\n    plt.figure()\n", "    plt.figure()\n    if contour is None:\n        con = None\n"),
    ("unbound view", "C27", "tools/helper_functions2.py", '        i, j, k = 1, 2, 0\n    if view == "3d":\n        i, j, k = 0, 1, 2\n', '        i, j, k = 1, 2, 0\n'),
    ("movie keyword", "C27", "tools/plot_utilities.py", "self.plot_model(view, contour, lim_scale, force_scale, nodesize, cbar_limits, i)", "self.plot_model(view, contour, lim_scale, force_scale, nodesize, cbar_limits, increment=i)"),
    ("log text", "C27", "model.py", '                print("\\n## Step", step + 1)', '                print("\\n## Step" + (step + 1))'),
    ("three names", "C27", "model.py", "for i, (r_V, r_a) in enumerate(zip(res_V[1:], res_a[1:])):", "for i, (r_V, r_a) in zip(res_V[1:], res_a[1:]):"),
    ("path label", "C27", "tools/helper_functions2.py", 'label="Increment " + str(int(inc))', 'label="Increment " + inc'),
    ("bound T values", "C27", HB, "            self.add_bound_T(B)\n", "            self.add_bound_T(B.element, B.values)\n"),
    ("settings attr", "C27", "model.py", "                reduce=self.Settings.reduce,", "                reduce=self.Settings.reduction,"),
    ("flat getter", "C27", A, "        \"get flattened/reduced set of displacement vector U\"\n        if flat:\n            return self.U.flatten()", "        \"get flattened/reduced set of displacement vector U\"\n        if flat and not red:\n            return self.U.flatten().rows"),
    ("array truth", "C27", HE, "        if self.labels is None:\n            self.labels = np.array([E.label])", "        if self.labels is None or self.labels == [0]:\n            self.labels = np.array([E.label])"),
    ("array condition", "C27", "tools/plot_utilities.py", "    if inc == 0:\n        lpf = 1.0", "    if self.Results.R[inc].U == 0:\n        inc = inc\n    if inc == 0:\n        lpf = 1.0"),
    ("statev none", "C27", "model.py", "        if statev_write and self.Settings.nstatev > 0:", "        if statev_write and self.Analysis.state_v.size > 0:"),
    ("xlimit number", "C27", "model.py", "            if type(self.Settings.xlimit[0]) == tuple:\n                xlimit = self.Settings.xlimit[step]\n            else:\n                xlimit = self.Settings.xlimit\n", "            xlimit = self.Settings.xlimit\n            if isinstance(xlimit[0], tuple):\n                xlimits = xlimit[step]\n            xlimit = xlimits\n"),
    ("int tables", "C28", HE, "np.array([E.material_properties], dtype=float)", "np.array([E.material_properties])"),
    ("int sections", "C28", HE, "np.array([E.geometric_properties], dtype=float)", "np.array([E.geometric_properties])"),
    ("coords typed like first", "C28", HN, "            self.coords = np.vstack((self.coords, N.coord))", "            self.coords = np.vstack((self.coords, N.coord)).astype(self.coords.dtype)"),
    ("coords single", "C28", "core/node.py", "self.coord = np.array(coord)", "self.coord = np.array(coord, dtype=np.float32)"),
    ("coords row inserted", "C28", HN, "            self.coords = np.vstack((self.coords, N.coord))", "            c = np.zeros((len(self.labels), 3), dtype=self.coords.dtype)\n            c[:-1] = self.coords\n            c[-1] = N.coord\n            self.coords = c"),
    ("forces half", "C28", "core/external_force.py", "np.array(force, dtype=float)", "np.array(force, dtype=float).astype(np.float16)"),
    ("forces single table", "C28", "handlers/handler_extforce.py", "            self.forces = np.array([F.force])", "            self.forces = np.array([F.force], dtype=\"float32\")\n            self.forces[0] = F.force"),
    ("areas rounded", "C28", HE, "[np.where(self.labels == label)] = [gprop]\n\n    def assign_geometries", "[np.where(self.labels == label)] = np.round([gprop], 6)\n\n    def assign_geometries"),
    ("areas like labels", "C28", HE, "        for label, gprop in zip(labels, gprops):", "        gprops = np.asarray(gprops, dtype=self.labels.dtype)\n        for label, gprop in zip(labels, gprops):"),
    ("material kept type", "C28", HE, "            self.material_properties = np.hstack((self.material_properties, extend))", "            self.material_properties = np.hstack((self.material_properties, extend)).astype(type(mprop[0]))"),
    ("material padded int", "C28", HE, "            mprop = np.append(mprop, extend)", "            mprop = np.append(np.array(mprop, dtype=int), extend)"),
    ("element props int", "C28", "core/element.py", "            self.material_properties = mprop\n", "            self.material_properties = np.array(mprop).astype(np.array(conn).dtype)\n"),
    ("row in place", "C28", HE, "            self.geometric_properties = np.vstack(\n                (self.geometric_properties, E.geometric_properties)\n            )", "            rows = np.tile(E.geometric_properties, (len(self.labels), 1))\n            rows[:-1] = self.geometric_properties\n            self.geometric_properties = rows"),
    ("force int fill", "C28", "handlers/handler_extforce.py", "        indices = np.argsort(self.nodes)\n", "        forces = np.zeros_like(self.nodes)[:, None] * np.ones(comp, dtype=int)\n        forces[:] = self.forces\n        self.forces = forces\n        indices = np.argsort(self.nodes)\n"),
]
SAME = [
    ("copy increment shallow", "handlers/handler_result.py", "self.R.append(copy.deepcopy(self.R[-1]))", "self.R.append(copy.copy(self.R[-1]))"),
    ("dup alias", "handlers/handler_result.py", "self.R = [copy.deepcopy(self.R[0])] + self.R", "self.R = [self.R[0]] + self.R"),
    ("U0 alias", M, "self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)", "self.Results.R[-1].U0 = self.Results.R[-2].U"),
]
