"""Second-order forward differentiation in a few variables, with running magnitudes.

A :class:`Jet` carries value, gradient and Hessian, and for each an un-cancelled
magnitude: the size the quantity would have if nothing cancelled, including how an error
of an argument is amplified.  Tolerances are set relative to these magnitudes.
"""

import numpy as np


class Jet:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, v, g, h, mv=None, mg=None, mh=None):
        self.v, self.g, self.h = v, g, h
        self.mv = np.abs(v) if mv is None else mv
        self.mg = np.abs(g) if mg is None else mg
        self.mh = np.abs(h) if mh is None else mh

    @staticmethod
    def variables(values, n=None):
        "Independent variables with the given values (equal shapes)."
        values = [np.asarray(v, dtype=float) for v in values]
        n = len(values)
        out = []
        for i, v in enumerate(values):
            g = np.zeros((n, *v.shape))
            g[i] = 1.0
            out.append(Jet(v, g, np.zeros((n, n, *v.shape))))
        return out

    def _lift(self, other):
        if isinstance(other, Jet):
            return other
        v = np.broadcast_to(np.asarray(other, dtype=float), self.v.shape)
        return Jet(v, np.zeros_like(self.g), np.zeros_like(self.h))

    def __neg__(self):
        return Jet(-self.v, -self.g, -self.h, self.mv, self.mg, self.mh)

    def __add__(self, other):
        o = self._lift(other)
        return Jet(
            self.v + o.v, self.g + o.g, self.h + o.h,
            self.mv + o.mv, self.mg + o.mg, self.mh + o.mh,
        )  # fmt: skip

    __radd__ = __add__

    def __sub__(self, other):
        return self + (-self._lift(other))

    def __rsub__(self, other):
        return (-self) + other

    def __mul__(self, other):
        if not isinstance(other, Jet):
            c = np.asarray(other, dtype=float)
            a = np.abs(c)
            return Jet(
                self.v * c, self.g * c, self.h * c,
                self.mv * a, self.mg * a, self.mh * a,
            )  # fmt: skip

        def prod(v, g, h, w, k, l):
            x = g[:, None] * k[None, :]
            return v * w, g * w + v * k, h * w + v * l + x + np.swapaxes(x, 0, 1)

        s, o = self, other
        return Jet(
            *prod(s.v, s.g, s.h, o.v, o.g, o.h),
            *prod(s.mv, s.mg, s.mh, o.mv, o.mg, o.mh),
        )

    __rmul__ = __mul__

    def fun(self, f0, f1, f2, f3, size=None):
        """Composition with a scalar function given by its derivatives (and their
        un-cancelled sizes)."""
        gg = self.g[:, None] * self.g[None, :]
        mm = self.mg[:, None] * self.mg[None, :]
        a0, a1, a2, a3 = map(np.abs, (f0, f1, f2, f3) if size is None else size)
        return Jet(
            f0,
            f1 * self.g,
            f1 * self.h + f2 * gg,
            a0 + a1 * self.mv,
            (a1 + a2 * self.mv) * self.mg,
            (a1 + a2 * self.mv) * self.mh + (a2 + a3 * self.mv) * mm,
        )

    def __truediv__(self, other):
        if isinstance(other, Jet):
            return self * other**-1.0
        return self * (1.0 / np.asarray(other, dtype=float))

    def __rtruediv__(self, other):
        return self**-1.0 * other

    def __pow__(self, p):
        if isinstance(p, (int, np.integer)) and 0 <= p <= 8:
            out = self._lift(1.0)
            for _ in range(int(p)):
                out = out * self
            return out
        v, p = self.v, float(p)
        return self.fun(
            v**p,
            p * v ** (p - 1),
            p * (p - 1) * v ** (p - 2),
            p * (p - 1) * (p - 2) * v ** (p - 3),
        )


def _unary(f0, fj):
    def f(x):
        return fj(x) if isinstance(x, Jet) else f0(x)

    return f


def _exp(x):
    e = np.exp(x.v)
    return x.fun(e, e, e, e)


def _log(x):
    v = x.v
    return x.fun(np.log(v), 1 / v, -1 / v**2, 2 / v**3)


def _tanh(x):
    t = np.tanh(x.v)
    s = 1 - t**2
    b = 1 + t**2
    return x.fun(
        t, s, -2 * t * s, -2 * s**2 + 4 * t**2 * s, (t, b, 2 * t * b, 2 * b**2 + 4 * t**2 * b)
    )


exp = _unary(np.exp, _exp)
log = _unary(np.log, _log)
tanh = _unary(np.tanh, _tanh)
sqrt = _unary(np.sqrt, lambda x: x**0.5)
