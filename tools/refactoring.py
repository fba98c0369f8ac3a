"""Rewrites functions of a clone of the library without a change of behaviour.

    git clone -q /repo /tmp/x/repo && python tools/refactoring.py /tmp/x/repo

The checks have to stay quiet on the result (point ``harness/boot.py`` of a copy of /verif
to the clone)."""

import os
import re
import sys

B = os.path.join(sys.argv[1], "src/hyperelastic/")
def body(f,name,new,cls=None):
    "replace function def (top-level or method) keeping nothing"
    import ast
    s=open(B+f).read(); t=ast.parse(s)
    scope=t.body
    if cls: scope=[n for n in t.body if isinstance(n,ast.ClassDef) and n.name==cls][0].body
    n=[n for n in scope if isinstance(n,ast.FunctionDef) and n.name==name][0]
    L=s.splitlines(keepends=True)
    ind="    " if cls else ""
    new="".join(ind+l+"\n" if l else "\n" for l in new.strip("\n").splitlines())
    L[n.lineno-1:n.end_lineno]=[new]
    open(B+f,"w").write("".join(L))
V="math/_voigt.py"
body(V,"asvoigt",'''
_ROW = (0, 1, 2, 0, 1, 0)
_COL = (0, 1, 2, 1, 2, 2)


def asvoigt(A, mode=2):
    if mode == 2:
        return A[list(_ROW), list(_COL)]
    elif mode == 4:
        r, c = np.array(_ROW), np.array(_COL)
        return 1.0 * A[r[:, None], c[:, None], r[None, :], c[None, :]]
''')
body(V,"astensor",'''
def astensor(A, mode=2):
    full = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])
    if mode == 2:
        return np.take(A, full, axis=0)
    if mode == 4:
        return A[full[:, :, None, None], full[None, None, :, :]]
''')
body(V,"trace","def trace(A):\n    return A[0] + A[1] + A[2]\n")
body(V,"transpose","def transpose(A):\n    return np.moveaxis(A, 0, 1)\n")
body(V,"det",'''
def det(A):
    a, b, c, d, e, f = A
    return a * (b * c - e * e) - d * (d * c - e * f) + f * (d * e - b * f)
''')
body(V,"inv",'''
def inv(A, determinant=None, out=None):
    a, b, c, d, e, f = 1.0 * A
    adj = [b * c - e * e, a * c - f * f, a * b - d * d, e * f - c * d, d * f - a * e, d * e - b * f]
    detA = det(A) if determinant is None else determinant
    if out is None:
        out = np.empty(np.shape(A), dtype=np.result_type(A, 1.0))
    detA = np.broadcast_to(detA, out.shape[1:]).copy()
    for k in range(6):
        out[k] = adj[k] / detA
    return out
''')
body(V,"dot",'''
def dot(A, B, mode=(2, 2)):
    if mode == (2, 2):
        return np.einsum("ij...,jk...->ik...", 1.0 * astensor(A), 1.0 * astensor(B))
    return C
''')
body(V,"ddot",'''
def ddot(A, B, mode=(2, 2)):
    def weight(T, axis):
        w = np.array([1, 1, 1, 2, 2, 2]).reshape([6 if a == axis else 1 for a in range(T.ndim)])
        return T * w

    if mode == (2, 2):
        return np.einsum("i...,i...->...", weight(A, 0), B)
    elif mode == (4, 4):
        return np.einsum("ik...,kj...->ij...", weight(A, 1), B)
    elif mode == (4, 2):
        return np.einsum("ij...,j...->i...", A, weight(B, 0))
    elif mode == (2, 4):
        return np.einsum("i...,ij...->j...", weight(A, 0), B)
''')
body(V,"cdya",'''
def cdya(A, B, out=None):
    A, B = 1.0 * A, 1.0 * B
    p = np.array([0, 1, 2, 0, 1, 0])
    q = np.array([0, 1, 2, 1, 2, 2])
    b = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])
    i, j = p[:, None], q[:, None]
    k, l = p[None, :], q[None, :]
    i, j, k, l = np.broadcast_arrays(i, j, k, l)
    res = (A[b[i, k]] * B[b[j, l]] + A[b[i, l]] * B[b[k, j]] + B[b[i, k]] * A[b[j, l]] + B[b[i, l]] * A[b[k, j]]) / 4
    if out is None:
        return res
    out[...] = res
    return out
''')
body(V,"eigh",'''
def eigh(A, fun=None):
    T = np.moveaxis(astensor(A), (0, 1), (-2, -1))
    w, v = np.linalg.eigh(T)
    v = -v
    M = np.empty((3, 6, *A.shape[1:]))
    r, c = [0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]
    for a in range(3):
        for n in range(6):
            M[a, n] = v[..., r[n], a] * v[..., c[n], a]
    w = np.moveaxis(w, -1, 0).copy()
    return (w if fun is None else fun(w)), M
''')
body(V,"dev","def dev(A):\n    m = trace(A) / 3\n    B = 1.0 * A\n    B[:3] = B[:3] - m\n    return B\n")
F="frameworks/_invariants.py"
body(F,"gradient",'''
def gradient(self, C, statevars):
    I1, I2, I3 = self._invariants(C)
    *dW, new = self.material.gradient(I1, I2, I3, statevars)
    res = np.zeros((6, *np.ones(len(C.shape[1:]), dtype=int)))
    for w, dI in zip(dW, self._derivatives(C, I1, I3)):
        if w is None:
            continue
        res = res + w * dI
    return res, new

@staticmethod
def _invariants(C):
    I1 = trace(C)
    I2 = C[0] * C[1] + C[1] * C[2] + C[0] * C[2] - C[3] ** 2 - C[4] ** 2 - C[5] ** 2
    return I1, I2, det(C)

@staticmethod
def _derivatives(C, I1, I3):
    return eye(C), I1 * eye(C) - C, I3 * inv(C, determinant=I3)
''',"Invariants")
body(F,"hessian",'''
def hessian(self, C, statevars):
    I1, I2, I3 = self._invariants(C)
    dW = self.material.gradient(I1, I2, I3, statevars)[:3]
    d2W = self.material.hessian(I1, I2, I3, statevars)
    dI = self._derivatives(C, I1, I3)
    I = eye(C)
    iC = inv(C, determinant=I3)
    out = np.zeros((6, 6, *np.ones(len(C.shape[1:]), dtype=int)))
    for w, (a, b) in zip(d2W, [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]):
        if w is not None:
            t = dya(dI[a], dI[b])
            out = out + w * (t if a == b else t + transpose(t))
    if dW[2] is not None:
        out = out + dW[2] * I3 * (dya(iC, iC) - cdya(iC, iC))
    if dW[1] is not None:
        out = out + dW[1] * (dya(I, I) - cdya(I, I))
    return out
''',"Invariants")
s=open(B+F).read()
imp=re.search(r"from \.\.math import .*",s).group(0); print(imp)
s=s.replace(imp,"from ..math import cdya, ddot, det, dya, eye, inv, trace, transpose"); open(B+F,"w").write(s)
G="frameworks/_stretches.py"
body(G,"gradient",'''
def gradient(self, C, statevars):
    lam, M = eigh(C, fun=np.sqrt)
    g, new = self.material.gradient(lam, statevars)
    g = np.asarray(g) / lam / 2
    return np.einsum("a...,ai...->i...", g, M), new
''',"Stretches")
body(G,"hessian",'''
def hessian(self, C, statevars):
    lam, M = eigh(C, fun=np.sqrt)
    g = np.asarray(self.material.gradient(lam, statevars)[0]) / lam / 2
    h = self.material.hessian(lam, statevars)
    full = np.zeros((6, *lam.shape[1:]))
    for k in range(6):
        if h[k] is not None:
            full[k] = h[k]
    pairs = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
    for k, (a, b) in enumerate(pairs):
        full[k] /= 4 * lam[a] * lam[b]
        if a == b:
            full[k] -= g[a] / (2 * lam[a] ** 2)
    out = np.zeros((6, 6, *g.shape[1:]))
    for k, (a, b) in enumerate(pairs):
        D = dya(M[a], M[b])
        if a == b:
            out += full[k] * D
            continue
        v = lam[a] ** 2 - lam[b] ** 2
        near = np.abs(v) <= 1e-8 * lam[b] ** 2
        f = np.where(near, full[b] - full[k], (g[a] - g[b]) / np.where(near, 1.0, v))
        out += full[k] * (D + transpose(D)) + 2 * f * cdya(M[b], M[a])
    return out
''',"Stretches")
D="spaces/_distortional.py"
body(D,"gradient",'''
def gradient(self, x):
    F, statevars, = x[0], x[-1]
    S, new, C, I3, _, iC, _ = self._stress(F, statevars)
    return [self.piola(F=F, S=S, detF=np.sqrt(I3), invC=iC), new]

def _stress(self, F, statevars):
    C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))
    I3 = det(C)
    factor = np.cbrt(1 / I3)
    g, new = self.material.gradient(factor * C, statevars)
    Sb = 2 * factor * g
    p = ddot(Sb, C) / 3
    iC = inv(C, determinant=I3)
    return Sb - p * iC, new, C, I3, Sb, iC, p
''',"Distortional")
body(D,"hessian",'''
def hessian(self, x):
    F, statevars = x[0], x[-1]
    S, new, C, I3, Sb, iC, p = self._stress(F, statevars)
    factor = np.cbrt(1 / I3)
    h = 4 * factor**2 * self.material.hessian(factor * C, statevars)
    I = eye(C)
    P = cdya(I, I) - dya(iC, C) / 3
    sym = dya(S, iC)
    C4 = 2 * p * cdya(iC, iC) - 2 / 3 * (sym + transpose(sym)) - 2 / 3 * p * dya(iC, iC)
    C4 = C4 + ddot(P, ddot(h, transpose(P), mode=(4, 4)), mode=(4, 4))
    return [self.piola(F=F, S=S, detF=np.sqrt(I3), C4=C4, invC=iC)]
''',"Distortional")
P="spaces/_dilatational.py"
body(P,"hessian",'''
def hessian(self, x):
    F, statevars = x[0], x[-1]
    self.gradient(x)
    J23 = np.cbrt(self.I3)
    h = self.material.hessian(self.Co, statevars)
    bulk = 4 * J23**2 * np.sum(h[:3, :3], axis=(0, 1))
    iC = self.invC
    C4 = dya(iC, iC) * ((bulk + 2 * self.tr_Sb) / 9) - cdya(iC, iC) * (self.tr_Sb * 2 / 3)
    return [self.piola(F=F, S=self.S, detF=np.sqrt(self.I3), C4=C4, invC=iC)]
''',"Dilatational")
O="models/stretches/_ogden.py"
body(O,"gradient",'''
def gradient(self, stretches, statevars):
    stretches = np.array(stretches, dtype=float)
    terms = [2 * m / a * stretches ** (a - 1) for m, a in zip(self.mu, self.alpha)]
    return sum(terms, np.zeros_like(stretches)), statevars
''',"Ogden")
T="models/invariants/_third_order_deformation.py"
body(T,"gradient",'''
def gradient(self, I1, I2, I3, statevars):
    a, b = I1 - self.undeformed, I2 - self.undeformed
    dWdI1 = self.C10 + self.C11 * b + a * (2 * self.C20 + 3 * self.C30 * a)
    dWdI2 = self.C01 + self.C11 * a
    return dWdI1, dWdI2, None, statevars
''',"ThirdOrderDeformation")
body(T,"hessian",'''
def hessian(self, I1, I2, I3, statevars):
    first = 2 * self.C20 + 6 * self.C30 * (I1 - self.undeformed)
    return [first, None, None, self.C11, None, None]
''',"ThirdOrderDeformation")
L="lab/_optimize.py"
body(L,"curve_fit",'''
def curve_fit(self, *args, **kwargs):
    start = self.init_curve_fit(*args, **kwargs)
    best, covariance = concatenate_curve_fit(
        self.f, self.x, self.y, start.copy(), *args, **kwargs
    )
    predicted = np.hstack([fun(x, *best) for fun, x in zip(self.f, self.x)])
    np.copyto(self.parameters, best)
    self.errors = np.sqrt(covariance.diagonal())
    self.residuals = predicted - np.hstack(self.y)
    for simulation in self.simulations:
        simulation.parameters = np.array(self.parameters)
    return self.parameters, covariance
''',"Optimize")
body("lab/_plotting.py","plot_stress_stretch",'''
def plot_stress_stretch(
    self,
    *args,
    ax=None,
    xlabel=r"Stretch $l/L$",
    ylabel=r"Force per undeformed area $F/A$",
    label=None,
    **kwargs,
):
    if ax is None:
        ax = plt.figure().add_subplot()
    kwargs["label"] = self.label if label is None else label
    x, y = self.stretch, self.stress()
    ax.plot(x, y, *args, **kwargs)
    ax.set(xlabel=xlabel, ylabel=ylabel)
    return ax.figure, ax
''',"LabPlotter")
body("lab/_experiment.py","stress",'''
def stress(self):
    return np.divide(self.force, self.area)
''',"Experiment")
body("lab/_simulation.py","stress_curve_fit",'''
def stress_curve_fit(self, x, *parameters):
    mat = self.material(**dict(zip(self.labels, parameters)))
    F = self.loadcase.defgrad(x)
    P, _ = mat.gradient([F[:, :, None], None])
    P = np.reshape(P, (3, 3, -1))
    return self.loadcase.stress(F, P)
''',"Simulation")
M="models/stretches/_generalized_invariants.py"
body("spaces/_space.py","piola",'''
def piola(self, F, S, detF=None, C4=None, invC=None):
    if not self.finalize:
        return S if C4 is None else C4
    if C4 is None:
        T = astensor(S)
        T = np.broadcast_to(T, np.broadcast_shapes(F.shape, T.shape))
        if self.force is None:
            T = self.einsum("iI...,IJ...->iJ...", F, T)
        if self.area is None:
            J = self._detF(F) if detF is None else detF
            T = self.einsum("jJ...,iJ...->ij...", F, T) / J
        return np.array(T)
    A = astensor(C4, 4)
    A = np.broadcast_to(A, np.broadcast_shapes((3, 3, *F.shape), A.shape)).copy()
    if self.force is None:
        A = self.einsum("iI...,IJKL...->iJKL...", F, A)
        A = self.einsum("kK...,iJKL...->iJkL...", F, A)
        A = A + cdya_ik(eye(S), S)
    else:
        if invC is None:
            C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))
            invC = inv(C)
        A = A + cdya_ik(invC, S)
    if self.area is None:
        J = self._detF(F) if detF is None else detF
        A = self.einsum("jJ...,iJkL...->ijkL...", F, A)
        A = self.einsum("lL...,ijkL...->ijkl...", F, A) / J
    return A

@staticmethod
def _detF(F):
    return np.linalg.det(np.moveaxis(F, (0, 1), (-2, -1)))
''',"Space")
