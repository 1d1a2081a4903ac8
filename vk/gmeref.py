"""Reference guided-mode expansion, written from the definition.

Basis functions: Bloch waves e^{i(k+G).r} times slab guided modes of the
effective multilayer (vk.slab).  Operator: <curl H_mu | 1/eps | curl H_nu> with
1/eps the inverse of the truncated permittivity matrix eps(G_i-G_j) of each
layer, integrated over z with Gauss quadrature inside layers and exactly in the
claddings.  q = (g_y,-g_x)/g, p = g/g:
   TE: E = phi q,  H = phi' p - i g phi z,   curl H = om^2 eps phi q
   TM: H = phi q,  curl H = phi' p - i g phi z
"""
import numpy as np
from vk import slab, structs

NQ = 28


def eta_matrices(layers, area, gvec):
    """Inverse truncated permittivity matrix per layer (exact coefficients)."""
    n = gvec.shape[1]
    dg = (gvec[:, :, None] - gvec[:, None, :]).reshape(2, -1)
    epsm = [structs.eps_ft(l, area, dg).reshape(n, n) for l in layers]
    return epsm, [np.linalg.inv(e) for e in epsm]


class Basis:
    def __init__(self, gvec, k, eps_eff, d, inds):
        self.eps, self.d = list(map(float, eps_eff)), list(map(float, d))
        self.gvec, self.k = gvec, np.asarray(k, float)
        self.kg = gvec + self.k[:, None]
        self.g = np.maximum(np.hypot(*self.kg), 1e-4)
        gx = self.kg[0] + 1e-15
        gn = np.hypot(gx, self.kg[1])
        self.px, self.py = gx / gn, self.kg[1] / gn
        self.qx, self.qy = self.py, -self.px
        self.near_cutoff = False
        self.mode, self.gi, self.fn = [], [], []
        memo = {}
        for m in sorted(inds):
            pol = "TM" if m % 2 else "TE"
            nmax = 1 + max(i for i in inds if i % 2 == m % 2) // 2
            for i, g in enumerate(self.g):
                key = (round(g, 10), pol)
                if key not in memo:
                    oms = slab.modes(g, self.eps, self.d, pol, nmax + 1)
                    ub = g / np.sqrt(max(self.eps[0], self.eps[-1]))
                    if g > 1e-3 and any(abs(o - ub) < 1e-8 * ub
                                        for o in oms[:nmax]):
                        self.near_cutoff = True
                    if len(oms) > 1 and min(np.diff(oms)) < 1.01e-2:
                        self.near_cutoff = True
                    oms = [o for o in oms if o < ub * (1 - 1e-10)]
                    memo[key] = [slab.Mode(o, g, self.eps, self.d, pol)
                                 for o in oms[:nmax]]
                ms = memo[key]
                if len(ms) > m // 2:
                    self.mode.append(m)
                    self.gi.append(i)
                    self.fn.append(ms[m // 2])
        self.mode, self.gi = np.array(self.mode), np.array(self.gi)
        self.mismatch = max([f.mismatch for f in self.fn] or [0])
        self.nl = len(self.eps)
        self.zb = np.concatenate(([0.], np.cumsum(self.d)))
        self.om = np.array([f.om for f in self.fn])

    def vec(self, f, h, il, what):
        """Cartesian (3, nbasis, ...) vectors from phi=f and p*phi'=h."""
        sh = (slice(None), ) + (None, ) * (np.ndim(f) - 1)
        gi = self.gi
        g = np.array([m.g for m in self.fn])[sh]
        px, py, qx, qy = (x[gi][sh] for x in (self.px, self.py, self.qx,
                                              self.qy))
        te = (self.mode % 2 == 0)[sh]
        e = self.eps[il]
        z = np.zeros_like(f)
        if what == "curlH":
            a = np.where(te, z, e * h)              # phi' along p
            b = np.where(te, self.om[sh]**2 * e * f, z)   # along q
            c = np.where(te, z, -1j * g * f)
        else:
            a = np.where(te, h, z)
            b = np.where(te, z, f)
            c = np.where(te, -1j * g * f, z)
        return np.array([a * px + b * qx, a * py + b * qy, c])

    def samples(self, il):
        """phi, p phi' of every basis function at the quadrature points (inner
        layers) or at the interface (claddings), with decay constants."""
        if il == 0:
            f = np.array([m.bnd[0] for m in self.fn]).T
            return f[0], f[1], np.array([m.k0 for m in self.fn])
        if il == self.nl - 1:
            f = np.array([m.bnd[-1] for m in self.fn]).T
            # p phi' just above the top interface (continuous)
            return f[0], f[1], np.array([m.kN for m in self.fn])
        x, w = np.polynomial.legendre.leggauss(NQ)
        d = self.d[il - 1]
        t = .5 * d * (x + 1)
        fh = [m.layer(il - 1, t) for m in self.fn]
        return (np.array([a for a, _ in fh]), np.array([b for _, b in fh]),
                .5 * d * w)

    def layer_gram(self, il, what="curlH"):
        """int_layer V_mu^* . V_nu dz without the in-plane factor."""
        f, h, w = self.samples(il)
        v = self.vec(f, h, il, what)
        if il in (0, self.nl - 1):
            return np.einsum("cm,cn->mn", v.conj(), v) / (w[:, None] + w)
        return np.einsum("cmz,cnz,z->mn", v.conj(), v, w)

    def matrix(self, eta, diag=False):
        n = len(self.fn)
        M = np.zeros((n, n), complex)
        for il in range(self.nl):
            M += eta[il][np.ix_(self.gi, self.gi)] * self.layer_gram(il)
        return M

    def at(self, z, what):
        """Vectors of all basis functions at height z, and the layer index."""
        il = int(np.searchsorted(self.zb, z, side="left"))
        f = np.array([m.at(np.array([z])) for m in self.fn])[:, :, 0]
        return self.vec(f[:, 0], f[:, 1], il, what), il


def eff_eps(stack, area, mode):
    if mode == "average":
        return [structs.eps_avg(l, area) for l in structs.stack_layers(stack)]
    return [l[0] for l in structs.stack_layers(stack)]


def rad_state(om, g, eps, d, pol, clad):
    """phi for the state with unit |H| outgoing wave in cladding `clad`
    (time convention exp(+i om t)) and no outgoing wave in the other one.
    Returns dict of coefficients: far (t) and near (1, r), boundary values."""
    n = len(eps)
    p = [1.] * n if pol == "te" else [1. / e for e in eps]
    ch = []
    for e in eps:
        s = e * om * om - g * g
        ch.append(complex(np.sqrt(s)) if s >= 0 else 1j * np.sqrt(-s))
    if clad == 1:       # mirror so that the radiating cladding is the lower one
        eps, d, p, ch = eps[::-1], d[::-1], p[::-1], ch[::-1]
    # far side (upper): t e^{i ch z}; propagate down to the lower interface
    b = [(1. + 0j, 1j * p[-1] * ch[-1])]
    for i in reversed(range(len(d))):
        f, h = b[-1]
        q, s = ch[i + 1], -d[i]
        c = np.cos(q * s)
        sn = np.sin(q * s) / q if abs(q) > 1e-12 else s
        b.append((c * f + sn * h / p[i + 1], -q * q * p[i + 1] * sn * f +
                  c * h))
    b = b[::-1]
    # lower: a e^{i ch z} + r e^{-i ch z}
    f, h = b[0]
    a = .5 * (f + h / (1j * p[0] * ch[0]))
    r = .5 * (f - h / (1j * p[0] * ch[0]))
    amp = 1. / (np.sqrt(eps[0]) * om) if pol == "te" else 1.
    s = amp / a
    return dict(bnd=[(x * s, y * s) for x, y in b], r=r * s, a=a * s, ch=ch,
                p=p, eps=eps, d=d, t=b[-1][0] * s)


def rad_layer(st, i, t):
    """phi, p phi' at heights t above the lower interface of inner layer i."""
    f, h = st["bnd"][i]
    q, p = st["ch"][i + 1], st["p"][i + 1]
    c = np.cos(q * t)
    sn = np.sin(q * t) / q if abs(q) > 1e-12 else t
    return c * f + sn * h / p, -q * q * p * sn * f + c * h


def couplings(B, eta, evecs, omr, clad):
    """Channel amplitudes c (nch, 2 pols, nmodes_in_cluster) for eigenvectors
    (columns) at angular frequency omr, and the channel index list."""
    e_c = B.eps[0] if clad == 0 else B.eps[-1]
    gtrue = np.hypot(B.kg[0] + 1e-15, B.kg[1])
    chans = [i for i in range(len(gtrue)) if gtrue[i]**2 <= e_c * omr**2]
    out = np.zeros((len(chans), 2, evecs.shape[1]), complex)
    nl = B.nl
    mir = clad == 1
    samp = [B.samples(il) for il in range(nl)]
    for ic, G in enumerate(chans):
        g = gtrue[G]
        chi = np.sqrt(e_c * omr**2 - g * g)
        P = np.array([B.px[G], B.py[G], 0])
        Q = np.array([B.qx[G], B.qy[G], 0])
        Z = np.array([0, 0, 1.])
        for ip, pol in enumerate(("te", "tm")):
            st = rad_state(omr, g, B.eps, B.d, pol, clad)

            def vec(f, h, e):
                # f, p phi' (true direction of z)
                if pol == "te":
                    return 1j * omr**2 * e * f * Q[:, None]
                return e * h * P[:, None] - 1j * g * f * Z[:, None]

            tot = np.zeros(len(B.fn), complex)
            for il in range(nl):
                jl = nl - 1 - il if mir else il
                e = B.eps[il]
                w_eta = eta[il][B.gi, G]
                fs, hs, wk = samp[il]
                if jl == 0:
                    q = st["ch"][0]
                    parts = [(st["a"], 1j * q), (st["r"], -1j * q)]
                elif jl == nl - 1:
                    q = st["ch"][-1]
                    parts = [(st["t"], 1j * q)]
                if jl in (0, nl - 1):
                    gv = B.vec(fs, hs, il, "curlH")     # (3,n)
                    I = 0
                    for amp, iq in parts:
                        # jl==0: z<0, guided e^{+k z};  jl==nl-1: z>0 e^{-k z}
                        s = -1. if mir else 1.
                        ph = st["p"][jl] * iq * amp * s
                        v = vec(np.array([amp]), np.array([ph]), e)[:, 0]
                        den = wk + iq if jl == 0 else wk - iq
                        I = I + v[:, None] / den
                    tot += w_eta * np.sum(gv.conj() * I, axis=0)
                else:
                    x, _ = np.polynomial.legendre.leggauss(NQ)
                    dd = B.d[il - 1]
                    t = .5 * dd * (x + 1)
                    if mir:
                        f, h = rad_layer(st, jl - 1, dd - t)
                        h = -h
                    else:
                        f, h = rad_layer(st, jl - 1, t)
                    v = vec(f, h, e)
                    gv = B.vec(fs, hs, il, "curlH")
                    tot += w_eta * np.einsum("cmz,cz,z->m", gv.conj(), v, wk)
            out[ic, ip] = np.sqrt(e_c / 4 / chi) * (evecs.conj().T @ tot)
    return out, chans
