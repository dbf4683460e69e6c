"""
Reference semantics, written independently of refellips.

Optics: reflection amplitudes of a planar stack by the Airy recursion from the
backing medium towards the fronting medium (a backward recursion of bounded
quantities, unlike the transfer-matrix product of the implementation).
"""

import numpy as np

HC = 1239.841984055  # eV nm


# ------------------------------------------------------------------ optics
def kz_forward(n, s):
    """z component (in units of k0) of the forward wave, n sin(theta) = s"""
    q = np.sqrt(np.asarray(n, complex) ** 2 - s**2 + 0j)
    # propagating (absorption at rounding level): Re > 0 decides
    prop = np.abs(q.imag) <= 1e-13 * np.abs(q.real)
    flip = np.where(prop, q.real < 0, q.imag < 0)
    return np.where(flip, -q, q)


def amplitudes(n, d, aoi, wav):
    """
    n : (L,) or (L, P) complex indices; d : (L,) thickness in nm (ends ignored)
    aoi : (P,) degrees; wav : (P,) nm.   Returns rs, rp of shape (P,)
    """
    aoi = np.atleast_1d(np.asarray(aoi, float))
    wav = np.broadcast_to(np.asarray(wav, float), aoi.shape)
    n = np.asarray(n, complex)
    if n.ndim == 1:
        n = n[:, None]
    n = np.broadcast_to(n, (n.shape[0], aoi.size)).copy()
    n[0] = n[0].real
    s = n[0].real * np.sin(np.deg2rad(aoi))
    q = kz_forward(n, s)
    e = n**2
    k0 = 2 * np.pi / wav
    out = []
    for pol in "sp":
        if pol == "s":
            y = q
        else:
            y = q / e
        num = y[:-1] - y[1:]
        den = y[:-1] + y[1:]
        with np.errstate(all="ignore"):
            r = num / den
        r = np.where(num == 0, 0, r)
        R = r[-1]
        for j in range(n.shape[0] - 2, 0, -1):
            ph = np.exp(2j * k0 * q[j] * d[j])
            R = (r[j - 1] + R * ph) / (1 + r[j - 1] * R * ph)
        out.append(R)
    return out[0], out[1]


def min_kz(n, aoi):
    n = np.asarray(n, complex)
    if n.ndim == 1:
        n = n[:, None]
    s = n[0].real * np.sin(np.deg2rad(np.atleast_1d(np.asarray(aoi, float))))
    n = n.copy()
    n[0] = n[0].real
    return np.maximum(np.min(np.abs(kz_forward(n, s)), axis=0), 1e-9)


def stokes(rs, rp):
    """(N, C, S) = (cos 2psi, sin 2psi cos delta, sin 2psi sin delta)"""
    I = np.abs(rs) ** 2 + np.abs(rp) ** 2
    z = 2 * rp * np.conj(rs)
    with np.errstate(all="ignore"):
        return np.array(
            [(np.abs(rs) ** 2 - np.abs(rp) ** 2) / I, z.real / I, -z.imag / I]
        )


def stokes_from(psi, delta):
    p = np.deg2rad(2 * np.asarray(psi, float))
    d = np.deg2rad(np.asarray(delta, float))
    return np.array([np.cos(p), np.sin(p) * np.cos(d), np.sin(p) * np.sin(d)])


def psi_delta(n, d, aoi, wav):
    rs, rp = amplitudes(n, d, aoi, wav)
    with np.errstate(all="ignore"):
        rho = rp / rs
        psi = np.rad2deg(np.arctan2(np.abs(rp), np.abs(rs)))
        delta = np.rad2deg(-np.angle(rho)) % 360
    return psi, delta


def reflect(delta):
    delta = np.asarray(delta, float)
    return np.where(delta > 180, 360 - delta, delta)


def circ(a, b):
    d = np.abs((np.asarray(a, float) - np.asarray(b, float) + 180) % 360 - 180)
    return d


def compare_psi_delta(
    ctx, got_psi, got_delta, n, d, aoi, wav, msg, tol=1e-7, flipped=False, **detail
):
    """implementation against the exact solution, where the stack reflects"""
    psi = np.asarray(got_psi, float)
    delta = np.asarray(got_delta, float)
    rs, rp = amplitudes(n, d, aoi, wav)
    amp = np.hypot(np.abs(rs), np.abs(rp))
    live = amp > 1e-6
    ctx.skip(int((~live).sum()))
    ctx.check(
        psi.shape == rs.shape and delta.shape == rs.shape,
        msg + ": shape of the result",
        got=[psi.shape, delta.shape],
        want=rs.shape,
        **detail,
    )
    ok = np.isfinite(psi) & np.isfinite(delta)
    ctx.check(
        bool(np.all(ok[live])),
        msg + ": not finite",
        psi=psi,
        delta=delta,
        aoi=aoi,
        wav=wav,
        **detail,
    )
    want = stokes(rs, rp)
    if flipped:
        # reflection about 180 maps S to |S|
        want[2] = np.abs(want[2])
    got = stokes_from(psi, delta)
    with np.errstate(all="ignore"):
        # conditioning: faint reflection, or grazing propagation in a layer
        t = tol + (1e-11 + 1e-13 / min_kz(n, aoi)) / amp
    err = np.max(np.abs(got - want), axis=0)
    bad = live & ~(err <= t)
    if bad.any():
        i = int(np.argmax(bad))
        wp, wd = psi_delta(n, d, aoi, wav)
        ctx.fail(
            msg,
            point=[float(np.broadcast_to(wav, rs.shape)[i]), float(aoi[i])],
            got=[psi[i], delta[i]],
            want=[wp[i], reflect(wd[i]) if flipped else wd[i]],
            **detail,
        )
    ctx.compared += 1


# ----------------------------------------------------------- effective media
def linear(na, nb, f, L=None):
    return np.sqrt((1 - f) * na**2 + f * nb**2 + 0j)


def maxwell_garnett(na, nb, f, L):
    ea, eb = na**2 + 0j, nb**2 + 0j
    return np.sqrt(
        ea
        * (ea + (L * (1 - f) + f) * (eb - ea))
        / (ea + L * (1 - f) * (eb - ea))
    )


def bruggeman_roots(ea, eb, f, L):
    """both roots of (1-f)(ea-e)/(e+L(ea-e)) + f(eb-e)/(e+L(eb-e)) = 0"""
    # expanded: (1-L) e^2 - b e - L ea eb = 0
    b = (1 - f) * ea * (1 - L) - f * ea * L + f * eb * (1 - L) - (1 - f) * eb * L
    if L == 1:
        return np.array([-ea * eb / b] * 2)
    disc = np.sqrt(b * b + 4 * L * (1 - L) * ea * eb + 0j)
    # cancellation-free pair
    t = b + disc if abs(b + disc) >= abs(b - disc) else b - disc
    e1 = t / (2 * (1 - L))
    e2 = -L * ea * eb / ((1 - L) * e1) if e1 != 0 else 0
    return np.array([e1, e2])


def bruggeman(na, nb, f, L):
    """
    Physical root.  A homogenised passive medium stays passive when both
    constituents are multiplied by the same phase factor, so the phase of e
    lies between those of ea and eb; the other root is a half turn away.
    """
    ea, eb = complex(na) ** 2, complex(nb) ** 2
    if ea == eb:
        return complex(na)
    ta, tb = np.angle(ea), np.angle(eb)
    mid = (ta + tb) / 2
    r = bruggeman_roots(ea, eb, f, L)
    d = [np.cos(np.angle(e) - mid) if e != 0 else -2 for e in r]
    n = np.sqrt(r[int(np.argmax(d))] + 0j)
    return -n if n.imag < -0.5 * abs(n) else n


def mix(rule, na, nb, f, L):
    if rule == "linear":
        return linear(na, nb, f)
    if rule == "maxwell-garnett":
        return maxwell_garnett(na, nb, f, L)
    if rule == "bruggeman":
        return bruggeman(na, nb, f, L)
    raise ValueError(rule)


# --------------------------------------------------------------- dispersion
def cauchy(p, wav):
    A, B, C = p
    um = np.asarray(wav, float) / 1000
    return A + B / um**2 + C / um**4 + 0j


def sellmeier_eps(p, wav):
    Am, En, P, Einf = p
    um2 = (np.asarray(wav, float) / 1000) ** 2
    return Einf + Am * um2 / (um2 - En**2) - P * um2 + 0j


def lorentz_eps(osc, einf, E):
    E = np.asarray(E, float)
    return einf + sum(A / (En**2 - E**2 - 1j * B * E) for A, B, En in osc)


def gauss_eps(osc, einf, E):
    """closed form: Gaussian absorption and its Hilbert transform (Dawson)"""
    from scipy.special import dawsn

    E = np.asarray(E, float)
    out = np.zeros(E.shape, complex) + einf
    for A, B, En in osc:
        s = B / 2 / np.sqrt(np.log(2))
        e2 = A * (np.exp(-(((E - En) / s) ** 2)) - np.exp(-(((E + En) / s) ** 2)))
        e1 = 2 * A / np.sqrt(np.pi) * (dawsn((E + En) / s) - dawsn((E - En) / s))
        out = out + e1 + 1j * e2
    return out


def tl_eps2(A, C, En, Eg, E):
    E = np.asarray(E, float)
    v = A * En * C * (E - Eg) ** 2 / ((E**2 - En**2) ** 2 + C**2 * E**2) / E
    return np.where(E > Eg, v, 0.0)


def tl_eps1(A, C, En, Eg, E):
    """
    Jellison & Modine (1996, with erratum) closed form for one oscillator,
    written with the combined logarithm so that it has no singularity at Eg.
    """
    E = np.asarray(E, float)
    al = np.sqrt(4 * En**2 - C**2)
    g2 = En**2 - C**2 / 2
    z4 = (E**2 - g2) ** 2 + al**2 * C**2 / 4
    aln = (Eg**2 - En**2) * E**2 + Eg**2 * C**2 - En**2 * (En**2 + 3 * Eg**2)
    aat = (E**2 - En**2) * (En**2 + Eg**2) + Eg**2 * C**2
    t = A * C * aln / (2 * np.pi * z4 * al * En) * np.log(
        (En**2 + Eg**2 + al * Eg) / (En**2 + Eg**2 - al * Eg)
    )
    t = t - A * aat / (np.pi * z4 * En) * (
        np.pi - np.arctan((2 * Eg + al) / C) + np.arctan((al - 2 * Eg) / C)
    )
    t = t + 2 * A * En * Eg / (np.pi * z4 * al) * (E**2 - g2) * (
        np.pi + 2 * np.arctan(2 * (g2 - Eg**2) / (al * C))
    )
    # the two logarithms, regrouped by log|E-Eg|, log(E+Eg) and the constant
    dm = np.abs(E - Eg)
    with np.errstate(all="ignore"):
        lm = np.where(dm > 0, -((E - Eg) ** 2) / E * np.log(np.where(dm > 0, dm, 1)), 0.0)
    lp = (E + Eg) ** 2 / E * np.log(E + Eg)
    K = np.sqrt((En**2 - Eg**2) ** 2 + Eg**2 * C**2)
    t = t + A * En * C / (np.pi * z4) * (lm + lp - 2 * Eg * np.log(K))
    return t


def tl_eps(osc, Eg, einf, E):
    return einf + sum(
        tl_eps1(A, C, En, Eg, E) + 1j * tl_eps2(A, C, En, Eg, E)
        for A, C, En in osc
    )


# ------------------------------------------------------------------ profile
def erf_step(z, loc, sigma):
    from scipy.special import erf

    if sigma == 0:
        return np.heaviside(np.asarray(z, float) - loc, 0.5)
    return 0.5 * (1 + erf((np.asarray(z, float) - loc) / sigma / np.sqrt(2)))
