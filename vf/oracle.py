"""Independent reference computations (written from the documentation, not from the code)."""
import numpy as np


def act(name, z):
    with np.errstate(all="ignore"):
        if name == "lin":
            return z
        if name == "sigm":
            return 1.0 / (1.0 + np.exp(z))
        if name == "tanh":
            return np.tanh(z)
        return getattr(np, name[3:])(z)


def hidden(X, groups, eps):
    """Reference hidden layer and elementwise tolerance. groups: list of (func name, W [d,n], B [n]) in column order."""
    X = np.asarray(X, dtype=np.float64)
    Hs, tols = [], []
    with np.errstate(all="ignore"):
        for f, W, B in groups:
            W = np.asarray(W, dtype=np.float64)
            B = np.asarray(B, dtype=np.float64)
            d = W.shape[0]
            if f.startswith("rbf"):
                H = np.empty((X.shape[0], W.shape[1]))
                tol = np.empty_like(H)
                for j in range(W.shape[1]):
                    D = np.abs(X - W[:, j])
                    rep = (np.abs(X) + np.abs(W[:, j])) * (eps if eps > 1e-10 else 0.0)   # rounding of the data to single
                    if f == "rbf_l1":
                        dist, dd = D.sum(1), rep.sum(1)
                    elif f == "rbf_l2":
                        dist, dd = np.sqrt((D**2).sum(1)), np.sqrt((rep**2).sum(1))
                    else:
                        dist, dd = D.max(1), rep.max(1)
                    arg = dist**2 / B[j]
                    darg = 4*(d + 4)*eps*np.abs(arg) + 2*(2*dist*dd + dd**2)/np.abs(B[j])
                    H[:, j] = np.exp(-arg)
                    tol[:, j] = np.maximum(np.exp(-arg + darg) - H[:, j], H[:, j] - np.exp(-arg - darg)) + 8*eps*H[:, j]
            else:
                z = X.dot(W) + B
                dz = 4*(d + 4)*eps*(np.abs(X).dot(np.abs(W)) + np.abs(B))
                H = act(f, z)
                tol = np.maximum(np.abs(act(f, z + dz) - H), np.abs(act(f, z - dz) - H)) + 8*eps*np.abs(H)
            Hs.append(H)
            tols.append(tol)
    return np.hstack(Hs), np.hstack(tols) + (1e-290 if eps < 1e-10 else 1e-30)


class Ridge(object):
    """Exact solution of min |HB-T|^2 + norm|B|^2 by SVD, with the accuracy that a solution through the
    normal equations in the given precision must reach."""
    def __init__(self, H, T, norm, eps, w=None, dH=0.0):
        """dH: elementwise rounding uncertainty of H (array)."""
        H = np.array(H, dtype=np.float64)
        dH = np.broadcast_to(dH, H.shape)
        T = np.array(T, dtype=np.float64)
        if w is not None:
            s = np.sqrt(np.asarray(w, dtype=np.float64))[:, None]
            H, T, dH = H * s, T * s, dH * s
        self.H, self.T, self.norm, self.eps = H, T, norm, eps
        N, L = H.shape
        U, s, Vt = np.linalg.svd(H, full_matrices=False)
        full = np.zeros(L)
        full[:len(s)] = s
        lam = full**2
        lmax = max(lam.max() if L else 0.0, 0.0) + norm
        e = eps
        dn = float(np.linalg.norm(dH))
        noise = (L + 4) * e * lmax + 2*dn*np.sqrt(lmax)  # rounding of the matrix itself
        self.lmax = lmax
        good = (lam + norm) > 300 * noise
        null = (lam <= 1e-4 * e * lmax) | (lam == 0)     # exactly singular directions carry (almost) no data
        self.gap = bool(np.all(good | null))             # nothing in the grey zone
        self.regular = bool(np.all(good))
        keep = good[:len(s)] & (s > 0)
        with np.errstate(all="ignore"):
            g = np.where(keep, s / (s**2 + norm), 0.0)
        g[~np.isfinite(g)] = 0
        self.B = (Vt.T * g).dot(U.T.dot(T))
        lmin = (lam + norm)[good].min() if good.any() else lmax
        nT, nB = np.linalg.norm(T), np.linalg.norm(self.B)
        k = lmax / max(lmin, 1e-300)
        f = 8 * (L + np.sqrt(N) + 8) * e
        self.dn = dn
        hb = 2*dn*np.sqrt(lmax/max(lmin, 1e-300)) + dn         # ... effect of the uncertainty of H, per |B|
        base = (lmax * nB + np.sqrt(lmax) * nT) / np.sqrt(max(lmin, 1e-300))
        self.tol = f * base * (1 + 0.3*np.sqrt(k)) + 2*(hb*nB + dn*nT/np.sqrt(max(lmin, 1e-300))) + 1e-30    # bound for |H(B-B*)|_F and sqrt(norm)|B-B*|_F
        self.tolB = f * lmax / np.sqrt(max(lmin, 1e-300))      # ... plus this times |B| of the solution at hand
        self.null_H = 0.0 if self.regular else float(np.sqrt(lam[null & ~good].max())) if (null & ~good).any() else 0.0
        self.nT = nT
        self.cond = k

    @property
    def strict(self):
        return self.gap and self.tol <= 0.01 * self.nT + 1e-25

    def miss(self, B):
        """|H(B-B*)|_F: how far the fitted outputs are from the exact ones."""
        return float(np.linalg.norm(self.H.dot(np.asarray(B, dtype=np.float64) - self.B)))

    def check(self, B, mon, what, extra=0.0):
        B = np.asarray(B, dtype=np.float64)
        mon.ok(B.shape == self.B.shape, "%s: solution has shape %s, expected %s", what, B.shape, self.B.shape)
        mon.ok(bool(np.isfinite(B).all()), "%s: solution is not finite", what)
        if self.strict:
            mon.hit("strict least-squares comparisons")
            slack = (2*self.null_H + self.tolB) * np.linalg.norm(B)
            m = self.miss(B)
            mon.ok(m <= self.tol + slack + extra, "%s: fitted outputs are off the exact regularised solution by %g, rounding allows %g (|T|=%g)",
                   what, m, self.tol + slack + extra, self.nT)
            if self.regular:
                m = np.sqrt(self.norm) * np.linalg.norm(B - self.B)
                mon.ok(m <= self.tol + extra, "%s: weights are off the exact regularised solution by %g (scaled), rounding allows %g", what, m, self.tol + extra)
        else:
            mon.hit("numerically singular problems (finite only)")


def same_fit(R, B1, B2, mon, what):
    """Two solutions of the same problem agree up to rounding (as fitted outputs)."""
    if R.strict:
        m = float(np.linalg.norm(R.H.dot(np.asarray(B1, dtype=np.float64) - np.asarray(B2, dtype=np.float64))))
        tol = 2*R.tol + (2*R.null_H + R.tolB)*(np.linalg.norm(B1) + np.linalg.norm(B2))
        mon.ok(m <= tol, "%s: fitted outputs differ by %g, rounding allows %g (|T|=%g)", what, m, tol, R.nT)
        return True
    mon.weak(bool(np.isfinite(B1).all() and np.isfinite(B2).all()), "%s: solution is not finite", what)
    return False


def corr_tol(H, T, norm, eps, w=None, dH=0.0):
    """Elementwise tolerance of H'H+norm*I and H'T accumulated in any order."""
    H, T = np.abs(np.asarray(H, dtype=np.float64)), np.abs(np.asarray(T, dtype=np.float64))
    dH = np.broadcast_to(dH, H.shape)
    if w is not None:
        s = np.sqrt(np.asarray(w, dtype=np.float64))[:, None]
        H, T, dH = H*s, T*s, dH*s
    n = H.shape[0] + 16
    C = H.T.dot(dH)
    a = 4 * n * eps * (H.T.dot(H) + norm) + C + C.T + dH.T.dot(dH)
    b = 4 * n * eps * H.T.dot(T) + dH.T.dot(T)
    return a + 1e-30, b + 1e-30


def corr(H, T, norm, w=None):
    H, T = np.asarray(H, dtype=np.float64), np.asarray(T, dtype=np.float64)
    if w is not None:
        s = np.sqrt(np.asarray(w, dtype=np.float64))[:, None]
        H, T = H*s, T*s
    return H.T.dot(H) + norm*np.eye(H.shape[1]), H.T.dot(T)


def class_weights(T, wc):
    """Weight of each sample from its class."""
    return np.asarray(wc, dtype=np.float64)[np.argmax(np.asarray(T, dtype=np.float64), axis=1)]


def auto_weights(T):
    n = np.asarray(T, dtype=np.float64).sum(0)
    return n.sum() / n


def error(mode, T, Y, wc=None):
    T, Y = np.asarray(T, dtype=np.float64), np.asarray(Y, dtype=np.float64)
    if mode == "c":
        return float(np.mean(Y.argmax(1) != T.argmax(1)))
    if mode == "ml":
        return float(np.mean((Y > 0.5) != (T > 0.5)))
    if mode == "wc":
        wc = np.asarray(wc, dtype=np.float64)
        y, t = Y.argmax(1), T.argmax(1)
        e = [float(np.mean(y[t == i] != i)) if (t == i).any() else 0.0 for i in range(T.shape[1])]
        return float(np.sum(np.array(e) * wc) / wc.sum())
    return float(np.mean((T - Y)**2))


def confusion(mode, T, Y):
    T, Y = np.asarray(T, dtype=np.float64), np.asarray(Y, dtype=np.float64)
    c = T.shape[1]
    M = np.zeros((c, c))
    if mode == "ml":
        for i in range(c):
            for j in range(c):
                M[i, j] = np.sum((T[:, i] > 0.5) & (Y[:, j] > 0.5))
    else:
        for t, y in zip(T.argmax(1), Y.argmax(1)):
            M[t, y] += 1
    return M
