"""Further rewritings without a change of behaviour, see ``refactoring.py``."""

import ast
import sys

B = sys.argv[1] + "/src/hyperelastic/"


def body(f, name, new, cls=None):
    s = open(B + f).read()
    scope = ast.parse(s).body
    if cls:
        scope = [n for n in scope if isinstance(n, ast.ClassDef) and n.name == cls][0].body
    n = [n for n in scope if isinstance(n, ast.FunctionDef) and n.name == name][0]
    L = s.splitlines(keepends=True)
    ind = "    " if cls else ""
    L[n.lineno - 1 : n.end_lineno] = ["".join(ind + l + "\n" if l else "\n" for l in new.strip("\n").splitlines())]
    open(B + f, "w").write("".join(L))


M = "models/stretches/_generalized_invariants.py"
body(M, "gradient", '''
def _state(self, stretches):
    E, dE, d2E = self.strain(stretches, **self.kwargs)[:3]
    e1, e2, e3 = E
    J1, J2, J3 = e1 + e2 + e3, e1 * (e2 + e3) + e2 * e3, e1 * e2 * e3
    I1 = self.I10 + self.c1 * (J1 - self.I10)
    I2 = self.I20 + self.c2 * (J2 - self.I20)
    D1 = np.full_like(1.0 * E, self.c1)
    D2 = self.c2 * (E.sum(axis=0) - E)
    D3 = np.stack([e2 * e3, e1 * e3, e1 * e2])
    return (I1, I2, J3), (D1, D2, D3), E, dE, d2E

def gradient(self, stretches, statevars):
    I, D, E, dE, d2E = self._state(stretches)
    *w, new = self.material.gradient(*I, statevars)
    total = np.zeros(np.shape(stretches))
    for a, d in zip(w, D):
        if a is not None:
            total = total + a * d
    return total * dE, new
''', "GeneralizedInvariantsModel")
body(M, "hessian", '''
def hessian(self, stretches, statevars):
    I, D, E, dE, d2E = self._state(stretches)
    *w, new = self.material.gradient(*I, statevars)
    h = self.material.hessian(*I, statevars)
    rows, cols = (0, 1, 2, 0, 1, 0), (0, 1, 2, 1, 2, 2)
    out = []
    for n, (i, j) in enumerate(zip(rows, cols)):
        v = np.zeros(np.shape(stretches)[1:])
        for a, (p, q) in zip(h, [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]):
            if a is None:
                continue
            v = v + a * (D[p][i] * D[q][j] if p == q else D[p][i] * D[q][j] + D[q][i] * D[p][j])
        if i != j:
            if w[1] is not None:
                v = v + w[1] * self.c2
            if w[2] is not None:
                v = v + w[2] * E[3 - i - j]
        v = v * dE[i] * dE[j]
        if i == j:
            for a, d in zip(w, D):
                if a is not None:
                    v = v + a * d[i] * d2E[i]
        out.append(v)
    return np.array(out)
''', "GeneralizedInvariantsModel")
T = "models/invariants/_torch.py"
body(T, "gradient", '''
def gradient(
    self,
    I1,
    I2,
    I3,
    statevars,
    tensor=False,
    numpy=True,
    create_graph=False,
    retain_graph=True,
):
    args = [I1, I2, I3] if tensor else self._astensors(I1, I2, I3)
    energy = self.fun(*args, **self.kwargs)
    out = []
    for arg in args:
        out.append(
            self._grad(energy, arg, numpy=numpy, create_graph=create_graph, retain_graph=retain_graph)
        )
    out.append(statevars)
    return tuple(out)
''', "TorchModel")
body(T, "hessian", '''
def hessian(self, I1, I2, I3, statevars, numpy=True):
    args = self._astensors(I1, I2, I3)
    first = self.gradient(*args, statevars, tensor=True, create_graph=True, numpy=False)[:3]
    pairs = ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))
    return [self._grad(first[a], args[b], numpy=numpy, retain_graph=True) for a, b in pairs]
''', "TorchModel")
G = "models/generalized/_stretch.py"
body(G, "strain", '''
def strain(stretch, exponent):
    k = float(exponent)
    power = stretch**k
    return (power - 1) / k, stretch ** (k - 1), (k - 1) * stretch ** (k - 2), 0.0, 1.0, 1.0
''')
body(G, "deformation", '''
def deformation(stretch, exponent):
    k = float(exponent)
    out = []
    factor = 1.0
    for order in range(3):
        out.append(factor * stretch ** (k - order))
        factor = factor * (k - order)
    return (*out, 1, 2, 2)
''')
body("models/stretches/_ogden.py", "hessian", '''
def hessian(self, stretches, statevars):
    s = np.asarray(stretches, dtype=float)
    out = np.zeros_like(s)
    for m, a in zip(self.mu, self.alpha):
        out += (2 * m * (a - 1) / a) * s ** (a - 2)
    zero = np.zeros_like(out[0])
    return np.array([*out, zero, zero, zero])
''', "Ogden")
L = "lab/_load_case.py"
for name, x2, x3 in [
    ("Uniaxial", "x**-0.5", "x**-0.5"), ("Biaxial", "x", "x**-2.0"), ("Planar", "x**0", "1 / x")
]:
    body(L, "defgrad", f'''
def defgrad(self, stretch):
    x = np.asarray(stretch, dtype=float)
    F = np.zeros((3, 3, *x.shape))
    for i, v in enumerate([x, {x2}, {x3}]):
        F[i, i] = v
    return F
''', name)
body(L, "stress", '''
def stress(self, F, P, axis=0, traction_free=-1):
    λ, λt = F[axis, axis], F[traction_free, traction_free]
    pressure = -P[traction_free, traction_free] * λt
    return P[axis, axis] + pressure / λ
''', "IncompressibleHomogeneousStretch")
O = "lab/_optimize.py"
body(O, "init_curve_fit", '''
def init_curve_fit(self, *args, **kwargs):
    self.f, self.x, self.y, self.residuals = [], [], [], []
    for simulation, experiment, mask in zip(self.simulations, self.experiments, self.mask):
        self.f.append(simulation.stress_curve_fit)
        self.x.append(experiment.stretch[mask])
        self.y.append(experiment.stress()[mask])
        self.residuals.append(self.f[-1](self.x[-1], *self.parameters) - self.y[-1])
        simulation.parameters = self.parameters
    self.residuals = np.hstack(self.residuals)
    self.errors = np.full(len(self.parameters), np.nan)
    return self.parameters
''', "Optimize")
body(O, "norm_residuals", '''
def norm_residuals(self):
    return np.sqrt(self.residuals @ self.residuals)
''', "Optimize")
body(O, "mean_relative_std", '''
def mean_relative_std(self):
    return 100 * np.abs(self.errors / self.parameters).mean()
''', "Optimize")
body(O, "plot", '''
def plot(self, title=None):
    ax = None
    for i, (simulation, experiment) in enumerate(zip(self.simulations, self.experiments)):
        style = dict(color=f"C{i}", ax=ax)
        ax = simulation.plot_stress_stretch(label=experiment.label, linewidth=3, **style)[1]
        style["ax"] = ax
        experiment.plot_stress_stretch(label=experiment.label + " (Experiment)", linewidth=0.7, **style)
    ax.legend(loc="upper left")
    lines = []
    for n, p, s in zip(simulation.labels, self.parameters, self.errors):
        lines.append(r"%s = %s $\\pm$ %s" % (n, format(p, "1.2g"), format(2 * s, "1.2g")))
    lines.append("")
    lines.append(f"Absolute Norm of Residuals = {self.norm_residuals(): 1.4g}")
    lines.append(f"Mean Std. Deviation of Parameters = {self.mean_relative_std(): 1.1f}%")
    ax.text(0.98, 0.02, "\\n".join(lines), ha="right", va="bottom", fontsize="small", transform=ax.transAxes)
    if title is not None:
        ax.set_title(title)
    ax.figure.tight_layout()
    return ax.figure, ax
''', "Optimize")
body("lab/_plotting.py", "plot_force_displacement", '''
def plot_force_displacement(
    self,
    *args,
    xlabel=r"Displacement $d$",
    ylabel=r"Force $F$",
    ax=None,
    label=None,
    **kwargs,
):
    ax = plt.subplots()[1] if ax is None else ax
    ax.plot(self.displacement, self.force, *args, label=self.label if label is None else label, **kwargs)
    ax.set(xlabel=xlabel, ylabel=ylabel)
    return ax.get_figure(), ax
''', "LabPlotter")
S = "spaces/_dilatational.py"
body("spaces/_deformation.py", "gradient", '''
def gradient(self, x):
    F, statevars = x[0], x[-1]
    S, new = self._material_stress(F, statevars)
    return [self.piola(F=F, S=S), new]

def _material_stress(self, F, statevars):
    self.C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))
    half, new = self.material.gradient(self.C, statevars)
    return half + half, new
''', "Deformation")
body("spaces/_deformation.py", "hessian", '''
def hessian(self, x):
    F, statevars = x[0], x[-1]
    S, new = self._material_stress(F, statevars)
    C4 = 4 * self.material.hessian(self.C, statevars)
    return [self.piola(F=F, S=S, C4=C4)]
''', "Deformation")
