"""Reference models in plain float64 numpy. Nothing in here uses JAX or jaxfg."""

import itertools

import numpy as np

# Lie groups. Parameters and tangent vectors use jaxlie's conventions:
#   SO2 (cos, sin) / (theta)             SE2 (cos, sin, x, y) / (x, y, theta)
#   SO3 (w, x, y, z) / (omega)           SE3 (w, x, y, z, tx, ty, tz) / (v, omega)


def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0.0]])


def quat_mul(a, b):
    w1, x1, y1, z1 = a
    w2, x2, y2, z2 = b
    return np.array(
        [
            w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
            w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
            w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
            w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2,
        ]
    )


def quat_rot(q):
    w, x, y, z = q
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
        ]
    )


def _a(t2):  # sin(t)/t
    t = np.sqrt(t2)
    return 1 - t2 / 6 + t2**2 / 120 if t < 1e-3 else np.sin(t) / t


def _b(t2):  # (1-cos(t))/t^2
    t = np.sqrt(t2)
    return 0.5 - t2 / 24 + t2**2 / 720 if t < 1e-3 else (1 - np.cos(t)) / t2


def _c(t2):  # (t-sin(t))/t^3
    t = np.sqrt(t2)
    return 1 / 6 - t2 / 120 + t2**2 / 5040 if t < 1e-2 else (t - np.sin(t)) / (t2 * t)


def _d(t2):  # (1 - (t/2)cot(t/2))/t^2
    t = np.sqrt(t2)
    if t < 1e-2:
        return 1 / 12 + t2 / 720 + t2**2 / 30240
    return (1 - (t / 2) / np.tan(t / 2)) / t2


class SO2:
    name, dim, ldim = "SO2", 2, 1
    identity = np.array([1.0, 0.0])

    @staticmethod
    def exp(d):
        return np.array([np.cos(d[0]), np.sin(d[0])])

    @staticmethod
    def log(p):
        return np.array([np.arctan2(p[1], p[0])])

    @staticmethod
    def mul(a, b):
        return np.array([a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]])

    @staticmethod
    def inv(a):
        return np.array([a[0], -a[1]])

    @staticmethod
    def angle(p):
        return abs(np.arctan2(p[1], p[0]))

    @staticmethod
    def same(a, b):
        return np.max(np.abs(a - b))

    @staticmethod
    def off_manifold(p):
        return abs(np.hypot(p[0], p[1]) - 1)


class SE2:
    name, dim, ldim = "SE2", 4, 3
    identity = np.array([1.0, 0.0, 0.0, 0.0])

    @staticmethod
    def _v(t):
        a, b = _a(t * t), _b(t * t) * t
        return np.array([[a, -b], [b, a]])

    @staticmethod
    def exp(d):
        t = d[2]
        return np.concatenate([SO2.exp([t]), SE2._v(t) @ d[:2]])

    @staticmethod
    def log(p):
        t = np.arctan2(p[1], p[0])
        return np.concatenate([np.linalg.solve(SE2._v(t), p[2:]), [t]])

    @staticmethod
    def mul(a, b):
        R = np.array([[a[0], -a[1]], [a[1], a[0]]])
        return np.concatenate([SO2.mul(a[:2], b[:2]), R @ b[2:] + a[2:]])

    @staticmethod
    def inv(a):
        R = np.array([[a[0], a[1]], [-a[1], a[0]]])
        return np.concatenate([SO2.inv(a[:2]), -R @ a[2:]])

    angle = SO2.angle
    same = SO2.same
    off_manifold = SO2.off_manifold


class SO3:
    name, dim, ldim = "SO3", 4, 3
    identity = np.array([1.0, 0.0, 0.0, 0.0])

    @staticmethod
    def exp(d):
        t = np.linalg.norm(d)
        return np.concatenate([[np.cos(t / 2)], _a(t * t / 4) / 2 * np.asarray(d)])

    @staticmethod
    def log(p):
        p = np.asarray(p) * (-1.0 if p[0] < 0 else 1.0)
        n = np.linalg.norm(p[1:])
        if n < 1e-10:
            return 2 * p[1:] / p[0]
        return 2 * np.arctan2(n, p[0]) / n * p[1:]

    mul = staticmethod(quat_mul)

    @staticmethod
    def inv(a):
        return np.array([a[0], -a[1], -a[2], -a[3]])

    @staticmethod
    def angle(p):
        return 2 * np.arctan2(np.linalg.norm(p[1:4]), abs(p[0]))

    @staticmethod
    def same(a, b):
        s = 1.0 if np.dot(a[:4], b[:4]) >= 0 else -1.0
        return np.max(np.abs(np.concatenate([a[:4] - s * b[:4], a[4:] - b[4:]])))

    @staticmethod
    def off_manifold(p):
        return abs(np.linalg.norm(p[:4]) - 1)


class SE3:
    name, dim, ldim = "SE3", 7, 6
    identity = np.array([1.0, 0, 0, 0, 0, 0, 0])

    @staticmethod
    def exp(d):
        w = np.asarray(d[3:])
        t2 = w @ w
        W = hat(w)
        V = np.eye(3) + _b(t2) * W + _c(t2) * W @ W
        return np.concatenate([SO3.exp(w), V @ d[:3]])

    @staticmethod
    def log(p):
        w = SO3.log(p[:4])
        W = hat(w)
        Vi = np.eye(3) - 0.5 * W + _d(w @ w) * W @ W
        return np.concatenate([Vi @ p[4:], w])

    @staticmethod
    def mul(a, b):
        return np.concatenate([quat_mul(a[:4], b[:4]), quat_rot(a[:4]) @ b[4:] + a[4:]])

    @staticmethod
    def inv(a):
        qi = SO3.inv(a[:4])
        return np.concatenate([qi, -quat_rot(qi) @ a[4:]])

    angle = SO3.angle
    same = SO3.same
    off_manifold = SO3.off_manifold


GROUPS = {g.name: g for g in (SO2, SE2, SO3, SE3)}


def numdiff(f, n, h=1e-3):
    """Five-point central differences of a vector function at zero."""
    columns = []
    for j in range(n):
        e = np.zeros(n)
        e[j] = h
        columns.append((8 * (f(e) - f(-e)) - (f(2 * e) - f(-2 * e))) / (12 * h))
    return np.stack(columns, axis=-1)


def complexdiff(f, n):
    """Complex-step derivative of an analytic vector function at zero: exact up to rounding."""
    columns = []
    for j in range(n):
        e = np.zeros(n, complex)
        e[j] = 1e-30j
        columns.append(np.imag(f(e)) / 1e-30)
    return np.stack(columns, axis=-1)
