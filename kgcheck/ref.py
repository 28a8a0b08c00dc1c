"""Independent reference model of bound timelike Kerr geodesics.

Nothing in this file imports kerrgeopy.  Constants of motion come from a
high-precision (mpmath) elimination of the two turning-point equations; radial
roots from Vieta / mpmath polyroots; frequencies and trajectories from
spectrally convergent (periodic trapezoid / Fourier) quadrature of the geodesic
equations in Darwin-like angles -- no elliptic functions anywhere.
"""
import math
import numpy as np
import mpmath as mp

DPS = 50
PI = math.pi


# --------------------------------------------------------------------------
# constants of motion
# --------------------------------------------------------------------------
def _quad(a, r, x):
    """R(r) = A E^2 + B E l + C l^2 + D   with  L = x*l,
    Q = (1-x^2)(a^2(1-E^2)+l^2)."""
    dl = r * r - 2 * r + a * a
    A = (r * r + a * a) ** 2 - dl * a * a * x * x
    B = -4 * a * r * x
    C = a * a * x * x - dl
    D = -dl * (r * r + (1 - x * x) * a * a)
    return A, B, C, D


def _quad_d(a, r, x):
    """d/dr of _quad."""
    dl = r * r - 2 * r + a * a
    dp = 2 * r - 2
    A = 4 * r * (r * r + a * a) - dp * a * a * x * x
    B = -4 * a * x
    C = -dp
    D = -dp * (r * r + (1 - x * x) * a * a) - dl * 2 * r
    return A, B, C, D


class Const:
    """High precision constants of a (would-be) bound orbit with turning points
    p/(1-e), p/(1+e) and inclination x.  a may be any sign; the orbit is put in
    the frame a >= 0 (x -> -x for a < 0)."""

    __slots__ = ("a", "p", "e", "x", "E", "L", "Q", "l", "b", "mE", "ok",
                 "r1", "r2", "r3", "r4", "slope", "cands")


def constants(a, p, e, x, dps=DPS):
    """Return a Const (mp numbers) or None if there is no real solution."""
    with mp.workdps(dps):
        a, p, e, x = mp.mpf(a), mp.mpf(p), mp.mpf(e), mp.mpf(x)
        if a < 0:
            a, x = -a, -x
        r2 = p / (1 + e)
        best = None
        cands = []
        if e == 1:
            A, B, C, D = _quad(a, r2, x)
            for l in _roots2(C, B, A + D):
                cands.append((mp.mpf(1), l))
        else:
            r1 = p / (1 - e)
            A1, B1, C1, D1 = _quad(a, r1, x)
            if e == 0:
                A2, B2, C2, D2 = _quad_d(a, r2, x)
            else:
                A2, B2, C2, D2 = _quad(a, r2, x)
            for y in _roots2(C1 * D2 - C2 * D1, B1 * D2 - B2 * D1, A1 * D2 - A2 * D1):
                den = A1 + B1 * y + C1 * y * y
                if den == 0:
                    continue
                E2 = -D1 / den
                if E2 <= 0:
                    continue
                E = mp.sqrt(E2)
                cands.append((E, y * E))
        good = []
        for E, l in cands:
            if l <= 0:
                continue
            L = x * l
            # future directed at periapsis: E(r^2+a^2) - aL > 0
            if E * (r2 * r2 + a * a) - a * L <= 0:
                continue
            good.append((E, l))
        if not good:
            return None
        # at most one physical candidate is expected; keep the lower energy one
        good.sort(key=lambda t: t[0])
        E, l = good[0]
        c = Const()
        c.cands = len(good)
        c.a, c.p, c.e, c.x = a, p, e, x
        c.E, c.l = E, l
        c.L = x * l
        c.mE = 1 - E * E
        c.b = a * a * c.mE
        c.Q = (1 - x * x) * (c.b + l * l)
        c.r2 = r2
        c.ok = False
        A2, B2, C2, D2 = _quad_d(a, r2, x)
        if e == 0:
            c.r1 = r2
            # -R''(r)/2 : positive when stable
            mEE = c.mE
            c.slope = -(6 * (-mEE) * r2 * r2 + 6 * r2 + (a * a * E * E - c.L**2 - c.Q - a * a))
        else:
            c.slope = A2 * E * E + B2 * E * l + C2 * l * l + D2
            c.r1 = p / (1 - e) if e != 1 else mp.inf
        if e == 1:
            # R = 2 r^3 + c2 r^2 + c1 r + c0
            c2 = -(c.L**2 + c.Q)
            s = -c2 / 2 - r2
            pr = a * a * c.Q / (2 * r2)
        else:
            s = 2 / c.mE - c.r1 - r2
            pr = a * a * c.Q / (c.mE * c.r1 * r2)
        disc = s * s / 4 - pr
        if disc >= 0:
            c.r3 = s / 2 + mp.sqrt(disc)
            c.r4 = pr / c.r3 if c.r3 != 0 else mp.mpf(0)
            c.ok = bool(c.r3 < r2 and c.slope > 0 and c.mE >= 0
                        and r2 > 1 + mp.sqrt(1 - a * a))
        else:
            c.r3 = c.r4 = None
        return c


def _roots2(a, b, c):
    if a == 0:
        return [] if b == 0 else [-c / b]
    d = b * b - 4 * a * c
    if d < 0:
        if d > -mp.mpf(10) ** (-mp.mp.dps + 10) * (b * b + abs(4 * a * c)):
            d = mp.mpf(0)
        else:
            return []
    s = mp.sqrt(d)
    q = -(b + (s if b >= 0 else -s)) / 2
    out = []
    if q != 0:
        out.append(c / q)
    out.append(q / a)
    return out


def R_coeffs(a, E, L, Q):
    """radial potential coefficients, ascending."""
    return [-a * a * Q,
            2 * (L - a * E) ** 2 + 2 * Q,
            a * a * (E * E - 1) - L * L - Q,
            2 + 0 * E,
            E * E - 1]


def R_of(a, E, L, Q, r):
    return (E * (r * r + a * a) - a * L) ** 2 - (r * r - 2 * r + a * a) * (
        r * r + (a * E - L) ** 2 + Q)


def Z_of(a, E, L, Q, z):
    return Q - z * z * (a * a * (1 - E * E) * (1 - z * z) + L * L + Q)


# --------------------------------------------------------------------------
# metric and conserved quantities
# --------------------------------------------------------------------------
def metric(a, r, th):
    s2 = math.sin(th) ** 2
    sg = r * r + a * a * math.cos(th) ** 2
    dl = r * r - 2 * r + a * a
    g = np.zeros((4, 4))
    # ds^2 = -(D/S)(dt - a s2 dphi)^2 + (s2/S)((r^2+a^2)dphi - a dt)^2 + S/D dr^2 + S dth^2
    w1 = np.array([1.0, 0.0, 0.0, -a * s2])
    w2 = np.array([-a, 0.0, 0.0, r * r + a * a])
    g += -(dl / sg) * np.outer(w1, w1) + (s2 / sg) * np.outer(w2, w2)
    g[1, 1] += sg / dl
    g[2, 2] += sg
    return g


def conserved(a, r, th, u):
    """(E, L, Q) of a unit timelike vector u at (r, th)."""
    low = metric(a, r, th) @ np.asarray(u, float)
    E, L, pth = -low[0], low[3], low[2]
    c, s = math.cos(th), math.sin(th)
    Q = pth * pth + c * c * (a * a * (1 - E * E) + L * L / (s * s))
    return E, L, Q


# --------------------------------------------------------------------------
# spectral quadrature helpers
# --------------------------------------------------------------------------
class EvenSeries:
    """f(psi) even, 2pi periodic, smooth: cosine series with adaptive length."""

    def __init__(self, f, n0=64, nmax=1 << 15, tol=2e-15):
        n = n0
        while True:
            psi = np.arange(n) * (2 * PI / n)
            v = f(psi)
            c = np.fft.rfft(v).real / n
            c[1:] *= 2
            m = np.max(np.abs(c)) or 1.0
            k = len(c)
            tail = np.max(np.abs(c[3 * k // 4:]))
            if tail < tol * m or n >= nmax:
                break
            n *= 2
        keep = np.nonzero(np.abs(c) > 1e-18 * m)[0]
        kk = (keep[-1] + 1) if len(keep) else 1
        self.tail = tail / m
        self.c = c[:kk]
        self.mean = c[0]
        self.k = np.arange(1, kk)
        self.s = self.c[1:] / self.k if kk > 1 else np.zeros(0)

    def osc(self, psi):
        """integral of (f - mean) from 0 to psi"""
        psi = np.asarray(psi, float)
        if len(self.s) == 0:
            return np.zeros_like(psi)
        return np.tensordot(np.sin(np.multiply.outer(psi, self.k)), self.s, axes=([-1], [0]))

    def val(self, psi):
        psi = np.asarray(psi, float)
        return self.mean + np.tensordot(
            np.cos(np.multiply.outer(psi, self.k)), self.c[1:], axes=([-1], [0]))


class PoleSeries:
    """integral of L / (D sqrt(l2 + b D)) over chi with D = w^2 + zm2 sin^2(chi) and L^2 = l2 w^2.
    The part with poles near the real axis, sign(L) w/D, integrates to an arctangent"""

    def __init__(self, L, l2, b, w, zm2):
        l = math.sqrt(max(l2, 0))
        self.sg, self.w = math.copysign(1, L) if L else 0.0, w

        def f(chi):
            if L == 0:  # (away from the axis: the jumps of phi there are not described)
                return 0 * chi
            s = np.sqrt(l2 + b * (w * w + zm2 * np.sin(chi) ** 2))
            return -L * b / (s * l * (s + l))
        self.ser = EvenSeries(f)
        self.tail = self.ser.tail
        self.mean = self.ser.mean + self.sg

    def osc(self, chi):
        s, c = np.sin(chi), np.cos(chi)
        return self.ser.osc(chi) + self.sg * np.arctan2((1 - self.w) * s * c, self.w * c * c + s * s)


class Angle:
    """lambda(psi) = mean*psi + osc(psi); phase q = psi + osc/mean ; invertible."""

    def __init__(self, f):
        self.ser = EvenSeries(f)
        self.f = f
        self.upsilon = 1.0 / self.ser.mean  # dq/dlambda, one q-cycle = one psi-cycle
        self.tail = self.ser.tail

    def psi_of_q(self, q):
        q = np.asarray(q, float)
        n = np.floor(q / (2 * PI))
        y = q - 2 * PI * n
        lo = np.zeros_like(y)
        hi = np.full_like(y, 2 * PI)
        psi = y.copy()
        m = self.ser.mean
        for _ in range(80):
            g = psi + self.ser.osc(psi) / m - y
            hi = np.where(g > 0, psi, hi)
            lo = np.where(g > 0, lo, psi)
            d = self.f(psi) / m
            new = psi - g / d
            bad = ~((new > lo) & (new < hi))
            new = np.where(bad, 0.5 * (lo + hi), new)
            if np.all(np.abs(new - psi) < 1e-15 * 4) :
                psi = new
                break
            psi = new
        return psi + 2 * PI * n


# --------------------------------------------------------------------------
# stable orbits
# --------------------------------------------------------------------------
class Stable:
    """Reference stable bound orbit (0 <= a < 1 frame), e < 1."""

    def __init__(self, a, p, e, x, c=None):
        if c is None:
            c = constants(a, p, e, x)
        if c is None or not c.ok:
            raise ValueError("not a stable orbit")
        self.c = c
        a = self.a = float(c.a)
        p = self.p = float(c.p)
        e = self.e = float(c.e)
        self.x = float(c.x)
        E = self.E = float(c.E)
        L = self.L = float(c.L)
        Q = self.Q = float(c.Q)
        self.r1, self.r2, self.r3, self.r4 = (float(v) for v in (c.r1, c.r2, c.r3, c.r4))
        with mp.workdps(DPS):
            ratio = float((1 - c.e ** 2) / c.mE)
            self.gap23 = float(c.r2 - c.r3)
            self.b = float(c.b)
            self.l2 = float(c.l ** 2)
            self.zm2 = float(1 - c.x ** 2)
            rp = 1 + mp.sqrt(1 - c.a ** 2)
            self.rp, self.rm = float(rp), float(c.a ** 2 / rp)
            self.gap2p = float(c.r2 - rp)
        self.zm = math.sqrt(self.zm2)
        sq = math.sqrt(ratio)

        # r - r3 = (r2 - r3) + (r - r2),  r - r2 = p e (1-cos psi)/((1+e)(1+e cos psi))
        def rr(psi):
            s = 2 * np.sin(psi / 2) ** 2
            den = (1 + e) - e * s
            dr = p * e * s / ((1 + e) * den)
            return self.r2 + dr, dr, den

        self._rr = rr

        def fr(psi):
            r, dr, den = rr(psi)
            return sq / (den * np.sqrt((self.gap23 + dr) * (r - self.r4)))

        def fth(chi):
            return 1 / np.sqrt(self.b + self.l2 - self.b * self.zm2 * np.cos(chi) ** 2)

        self.ar = Angle(fr)
        self.at = Angle(fth)
        self.upsilon_r = self.ar.upsilon
        self.upsilon_theta = self.at.upsilon

        def Tr(psi):
            r, dr, den = rr(psi)
            rp2 = r * r + a * a
            dl = (self.gap2p + dr) * (r - self.rm)
            return rp2 / dl * (E * rp2 - a * L)

        def Pr(psi):
            r, dr, den = rr(psi)
            rp2 = r * r + a * a
            dl = (self.gap2p + dr) * (r - self.rm)
            return a / dl * (E * rp2 - a * L) - a * E

        def Tt(chi):
            return -a * a * E * (1 - self.zm2 * np.cos(chi) ** 2) + a * L

        def Pt(chi):
            # 1 - z^2 = x^2 + zm2 sin^2
            return L / (self.x ** 2 + self.zm2 * np.sin(chi) ** 2)

        self._Tr, self._Pr, self._Tt, self._Pt = Tr, Pr, Tt, Pt
        self.str_ = EvenSeries(lambda s: Tr(s) * fr(s))
        self.spr = EvenSeries(lambda s: Pr(s) * fr(s))
        self.stt = EvenSeries(lambda s: Tt(s) * fth(s))
        self.spt = PoleSeries(L, self.l2, self.b, abs(self.x), self.zm2)
        ur, ut = self.upsilon_r, self.upsilon_theta
        self.gamma_r = self.str_.mean * ur
        self.gamma_t = self.stt.mean * ut
        self.gamma = self.gamma_r + self.gamma_t
        self.phi_r = self.spr.mean * ur
        self.phi_t = self.spt.mean * ut
        self.upsilon_phi = self.phi_r + self.phi_t
        self.tail = max(s.tail for s in
                        (self.ar.ser, self.at.ser, self.str_, self.spr, self.stt, self.spt))

    # oscillating parts as a function of phase
    def r_of(self, q):
        return self._rr(self.ar.psi_of_q(q))[0]

    def theta_of(self, q):
        chi = self.at.psi_of_q(q)
        z = self.zm * np.cos(chi)
        s = np.sqrt(self.x ** 2 + self.zm2 * np.sin(chi) ** 2)
        return np.arctan2(s, z)

    def dt_r(self, q):
        psi = self.ar.psi_of_q(q)
        return self.str_.mean * psi + self.str_.osc(psi) - self.gamma_r / self.upsilon_r * np.asarray(q)

    def dt_t(self, q):
        chi = self.at.psi_of_q(q)
        return self.stt.mean * chi + self.stt.osc(chi) - self.gamma_t / self.upsilon_theta * np.asarray(q)

    def dphi_r(self, q):
        psi = self.ar.psi_of_q(q)
        return self.spr.mean * psi + self.spr.osc(psi) - self.phi_r / self.upsilon_r * np.asarray(q)

    def dphi_t(self, q):
        chi = self.at.psi_of_q(q)
        return self.spt.mean * chi + self.spt.osc(chi) - self.phi_t / self.upsilon_theta * np.asarray(q)

    def trajectory(self, lam, phases=(0, 0, 0, 0)):
        lam = np.asarray(lam, float)
        qt, qr, qth, qp = phases
        a, b = self.upsilon_r * lam + qr, self.upsilon_theta * lam + qth
        t = qt + self.gamma * lam + self.dt_r(a) - self.dt_r(qr) + self.dt_t(b) - self.dt_t(qth)
        ph = (qp + self.upsilon_phi * lam + self.dphi_r(a) - self.dphi_r(qr)
              + self.dphi_t(b) - self.dphi_t(qth))
        return t, self.r_of(a), self.theta_of(b), ph

    def velocity(self, lam, phases=(0, 0, 0, 0)):
        """four-velocity (proper time) at Mino time lam"""
        lam = np.asarray(lam, float)
        qt, qr, qth, qp = phases
        psi = self.ar.psi_of_q(self.upsilon_r * lam + qr)
        chi = self.at.psi_of_q(self.upsilon_theta * lam + qth)
        r, dr, den = self._rr(psi)
        z2 = self.zm2 * np.cos(chi) ** 2
        s = np.sqrt(self.x ** 2 + self.zm2 * np.sin(chi) ** 2)
        sg = r * r + self.a ** 2 * z2
        rdot = (self.p * self.e * np.sin(psi) / den ** 2) / self.ar.f(psi)
        thdot = self.zm * np.sin(chi) / s / self.at.f(chi)
        tdot = self._Tr(psi) + self._Tt(chi)
        pdot = self._Pr(psi) + self._Pt(chi)
        return tdot / sg, rdot / sg, thdot / sg, pdot / sg


# --------------------------------------------------------------------------
# plunging orbits
# --------------------------------------------------------------------------
class PlungeError(ValueError):
    pass


class Plunge:
    """Reference plunging orbit: E<1, Q>=0, a != 0 (either sign)."""

    def __init__(self, a, E, L, Q, dps=40):
        with mp.workdps(dps):
            ma, mE, mL, mQ = (mp.mpf(v) for v in (a, E, L, Q))
            m1 = 1 - mE * mE
            if m1 <= 0:
                raise PlungeError("unbound")
            co = [v for v in reversed(R_coeffs(ma, mE, mL, mQ))]
            if mQ == 0:
                rts = list(mp.polyroots(co[:-1], maxsteps=200, extraprec=200)) + [mp.mpc(0)]
            else:
                rts = list(mp.polyroots(co, maxsteps=200, extraprec=200))
            real = sorted([mp.re(v) for v in rts if abs(mp.im(v)) < mp.mpf(10) ** (-dps // 2) * (1 + abs(v))])
            cplx = [v for v in rts if abs(mp.im(v)) >= mp.mpf(10) ** (-dps // 2) * (1 + abs(v))]
            sq = mp.sqrt(1 - ma * ma)
            rp = 1 + sq
            rm = ma * ma / rp
            self.kind = "complex" if len(real) == 2 else "real"
            if len(real) == 2:
                lo, hi = real
                oth = (mp.re(cplx[0]), mp.im(cplx[0]) ** 2)  # (r-re)^2 + im2
                # q(r) = r^2 + B r + C
                Bq, Cq = -2 * oth[0], oth[0] ** 2 + oth[1]
                self.sep_scale = float(abs(mp.im(cplx[0])))
                self.others = (complex(cplx[0]), complex(cplx[0]).conjugate())
            elif len(real) == 4:
                r4, r3, r2, r1 = real
                if r3 > rm:           # r4 | horizons | r3 < r2 < r1 : plunge in [r4, r3]
                    lo, hi, c1, c2 = r4, r3, r2, r1
                    self.kind = "real_inner"
                    self.sep_scale = float(r2 - r3)
                else:                 # r4 < r3 < r2 | horizons | r1
                    lo, hi, c1, c2 = r2, r1, r4, r3
                    self.kind = "real_outer"
                    self.sep_scale = float(r2 - r3)
                Bq, Cq = -(c1 + c2), c1 * c2
                self.others = (float(c1), float(c2))
            else:
                raise PlungeError("no bound plunging motion")
            if not (lo <= rm * (1 + mp.mpf(10) ** -15) and hi >= rp * (1 - mp.mpf(10) ** -15)):
                raise PlungeError("interval does not contain the horizons")
            self.a, self.E, self.L, self.Q = a, E, L, Q = float(a), float(E), float(L), float(Q)
            self.rmin, self.rmax = float(lo), float(hi)
            self.rp, self.rm = float(rp), float(rm)
            mid, half = (lo + hi) / 2, (hi - lo) / 2
            cp, cm = (mid - rp) / half, (mid - rm) / half   # cos psi at horizons
            self.psi_p = float(mp.acos(cp)) if abs(cp) < 1 else None
            self.psi_m = float(mp.acos(cm)) if abs(cm) < 1 else None
            # polar
            bb = ma * ma * m1
            X = bb + mL * mL + mQ
            # beta z^4 - X z^2 + Q = 0
            disc = mp.sqrt(X * X - 4 * bb * mQ)
            zz = 2 * mQ / (X + disc)          # z_-^2
            bzp = (X + disc) / 2              # beta z_+^2
            self.zm2, self.bzp, self.bb = float(zz), float(bzp), float(bb)
            self.omz2 = float(1 - zz)         # 1 - z_-^2
            # c+/- coefficients
            def res(rh, ro):
                K = mE * (rh * rh + ma * ma) - ma * mL
                return K / (rh - ro)
            kp, km = res(rp, rm), res(rm, rp)
            self.kp, self.km = float(kp), float(km)
            hh = float(half)
            self.mid, self.half = float(mid), hh
            Bq, Cq, m1f = float(Bq), float(Cq), float(m1)
        if self.kind.startswith("real"):
            o1, o2 = self.others
            q = (lambda r: (r - o1) * (r - o2))
        else:
            re, im2 = float(oth[0]), float(oth[1])
            q = (lambda r: (r - re) ** 2 + im2)
        self.zm = math.sqrt(max(self.zm2, 0))
        sqm = 1 / math.sqrt(m1f)
        self._r = lambda psi: self.rmin + (self.rmax - self.rmin) * np.sin(psi / 2) ** 2

        def fr(psi):
            return sqm / np.sqrt(q(self._r(psi)))

        def fth(chi):
            return 1 / np.sqrt(self.bzp - self.bb * self.zm2 * np.cos(chi) ** 2)

        self.ar, self.at = Angle(fr), Angle(fth)
        self.upsilon_r, self.upsilon_theta = self.ar.upsilon, self.at.upsilon

        # divided difference of f at horizon: (f(r)-f(rh))/(r-rh)
        def dd(rh):
            qh = float(q(np.float64(rh)))
            sh = math.sqrt(qh)

            def g(psi):
                r = self._r(psi)
                qv = q(r)
                s = np.sqrt(qv)
                return sqm * (-(r + rh + Bq)) / (s * sh * (s + sh))
            return EvenSeries(g), sqm / sh
        self.dp, self.fp = dd(self.rp)
        self.dm, self.fm = dd(self.rm)
        self.s1 = EvenSeries(lambda s: self._r(s) * fr(s))
        self.s2 = EvenSeries(lambda s: self._r(s) ** 2 * fr(s))
        self.szz = EvenSeries(lambda c: self.zm2 * np.cos(c) ** 2 * fth(c))
        self.spt = PoleSeries(L, float(bzp - bb), self.bb, math.sqrt(self.omz2), self.zm2)
        self.tail = max(s.tail for s in (self.ar.ser, self.at.ser, self.dp, self.dm, self.s1,
                                         self.s2, self.szz, self.spt))

    def integrals(self, q):
        """I_r, I_r2, I_+, I_- : PV integrals in Mino time from q=0"""
        psi = self.ar.psi_of_q(q)
        I1 = self.s1.mean * psi + self.s1.osc(psi)
        I2 = self.s2.mean * psi + self.s2.osc(psi)
        with np.errstate(divide="ignore", invalid="ignore"):
            Ip = self.dp.mean * psi + self.dp.osc(psi) + self.fp * -1 * self._pvneg(psi, self.psi_p)
            Im = self.dm.mean * psi + self.dm.osc(psi) + self.fm * -1 * self._pvneg(psi, self.psi_m)
        return I1, I2, Ip, Im

    def _pvneg(self, psi, psi_h):
        # integral of dpsi / (cos psi - cos psi_h) / half = ln|sin((psi+ph)/2)/sin((psi-ph)/2)| / sin ph
        if psi_h is None:
            return np.full_like(np.asarray(psi, float), np.nan)
        return np.log(np.abs(np.sin((psi + psi_h) / 2) / np.sin((psi - psi_h) / 2))) / (
            math.sin(psi_h) * self.half)

    def rad(self, q):
        """(int T_r dlambda, int Phi_r dlambda) from q = 0, T_r=(r^2+a^2)K/Delta, Phi_r = a K/Delta - aE"""
        a, E, L = self.a, self.E, self.L
        psi = self.ar.psi_of_q(q)
        lam = self.ar.ser.mean * psi + self.ar.ser.osc(psi)
        I1, I2, Ip, Im = self.integrals(q)
        # K/Delta = E*(r^2+a^2)-aL over (r-rp)(r-rm) = E + kp/(r-rp) + km/(r-rm)
        # (r^2+a^2)K/Delta = E(r^2+a^2) + (r^2+a^2)(kp/(r-rp)+km/(r-rm));
        # (r^2+a^2)/(r-rh) = r + rh + 2 rh/(r-rh)   since rh^2+a^2 = 2 rh
        T = (E * (I2 + a * a * lam) + self.kp * (I1 + self.rp * lam + 2 * self.rp * Ip)
             + self.km * (I1 + self.rm * lam + 2 * self.rm * Im))
        P = a * (self.kp * Ip + self.km * Im)
        return T, P

    def pol(self, q):
        """(int T_th, int Phi_th) with T_th=-a^2E(1-z^2)+aL, Phi_th = L/(1-z^2); from q=0 (theta_min)"""
        a, E, L = self.a, self.E, self.L
        chi = self.at.psi_of_q(q)
        lam = self.at.ser.mean * chi + self.at.ser.osc(chi)
        zz = self.szz.mean * chi + self.szz.osc(chi)
        T = (a * L - a * a * E) * lam + a * a * E * zz
        P = self.spt.mean * chi + self.spt.osc(chi)
        return T, P

    def r_of(self, q):
        return self._r(self.ar.psi_of_q(q))

    def theta_of(self, q):
        chi = self.at.psi_of_q(q)
        return np.arctan2(np.sqrt(self.omz2 + self.zm2 * np.sin(chi) ** 2), self.zm * np.cos(chi))

    def trajectory(self, lam, phases=(0, 0, 0, 0)):
        lam = np.asarray(lam, float)
        qt, qr, qth, qp = phases
        A, B = self.upsilon_r * lam + qr, self.upsilon_theta * lam + qth
        T1, P1 = self.rad(A)
        T0, P0 = self.rad(np.float64(qr))
        U1, V1 = self.pol(B)
        U0, V0 = self.pol(np.float64(qth))
        return (qt + T1 - T0 + U1 - U0, self.r_of(A), self.theta_of(B), qp + P1 - P0 + V1 - V0)

    def velocity(self, lam, phases=(0, 0, 0, 0)):
        lam = np.asarray(lam, float)
        a, E, L = self.a, self.E, self.L
        qt, qr, qth, qp = phases
        psi = self.ar.psi_of_q(self.upsilon_r * lam + qr)
        chi = self.at.psi_of_q(self.upsilon_theta * lam + qth)
        r = self._r(psi)
        z2 = self.zm2 * np.cos(chi) ** 2
        s2 = self.omz2 + self.zm2 * np.sin(chi) ** 2
        sg = r * r + a * a * z2
        dl = (r - self.rp) * (r - self.rm)
        K = E * (r * r + a * a) - a * L
        ut = ((r * r + a * a) / dl * K - a * a * E * s2 + a * L) / sg
        up = (a / dl * K - a * E + L / s2) / sg
        ur = self.half * np.sin(psi) / self.ar.f(psi) / sg
        uth = self.zm * np.sin(chi) / np.sqrt(s2) / self.at.f(chi) / sg
        return ut, ur, uth, up


# --------------------------------------------------------------------------
# float64 separatrix (bisection on the stability condition itself)
# --------------------------------------------------------------------------
def _froots2(a, b, c):
    if a == 0:
        return [] if b == 0 else [-c / b]
    d = b * b - 4 * a * c
    if d < 0:
        if d > -1e-13 * (b * b + abs(4 * a * c)):
            d = 0.0
        else:
            return []
    s = math.sqrt(d)
    q = -(b + (s if b >= 0 else -s)) / 2
    out = [c / q] if q != 0 else []
    out.append(q / a)
    return out


def fslope(a, p, e, x):
    """R'(r2) (or -R''/2 for e = 0) of the orbit with these turning points in
    float64, or None when there is none.  Positive means stable."""
    r2 = p / (1 + e)
    cands = []
    if e == 1:
        A, B, C, D = _quad(a, r2, x)
        cands = [(1.0, l) for l in _froots2(C, B, A + D)]
    else:
        r1 = p / (1 - e)
        A1, B1, C1, D1 = _quad(a, r1, x)
        A2, B2, C2, D2 = _quad_d(a, r2, x) if e == 0 else _quad(a, r2, x)
        for y in _froots2(C1 * D2 - C2 * D1, B1 * D2 - B2 * D1, A1 * D2 - A2 * D1):
            den = A1 + B1 * y + C1 * y * y
            if den != 0 and -D1 / den > 0:
                E = math.sqrt(-D1 / den)
                cands.append((E, y * E))
    good = [(E, l) for E, l in cands
            if l > 0 and E * (r2 * r2 + a * a) - a * x * l > 0]
    if not good:
        return None
    E, l = min(good)
    L = x * l
    if e == 0:
        Q = (1 - x * x) * (a * a * (1 - E * E) + l * l)
        return -(-6 * (1 - E * E) * r2 * r2 + 6 * r2 + (a * a * E * E - L * L - Q - a * a)), E
    A2, B2, C2, D2 = _quad_d(a, r2, x)
    return A2 * E * E + B2 * E * l + C2 * l * l + D2, E


def fsep(a, e, x):
    """separatrix by bisection; relative accuracy ~1e-9 away from degenerate limits"""
    if a < 0:
        a, x = -a, -x
    if a == 0:
        return 6.0 + 2 * e
    if 0 < e < 2e-3:
        # the turning points nearly coincide: quadratic interpolation in e
        f0, f1, f2 = (fsep(a, v, x) for v in (0.0, 2e-3, 4e-3))
        s = e / 2e-3
        return f0 + s * (f1 - f0) + s * (s - 1) / 2 * (f2 - 2 * f1 + f0)

    def stable(p):
        s = fslope(a, p, e, x)
        if s is None:
            return False
        return s[0] > 0 and s[1] <= 1
    lo, hi = (1 + e) * (1 + math.sqrt(1 - a * a)), 13.0
    for _ in range(48):
        mid = 0.5 * (lo + hi)
        if stable(mid):
            hi = mid
        else:
            lo = mid
    return hi
