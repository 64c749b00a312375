"""Reference model of potentiometric alkalinity titrations.

Written from the published equations and the documented behaviour, sharing no
code with Calkulate.  PyCO2SYS (public interface only) supplies equilibrium
constants and salinity-based totals.
"""
import math

import numpy as np
import PyCO2SYS as pyco2

F = 96.4853365  # kC / mol
R = 8.3144621  # J / K / mol
T0 = 273.15

NUTRIENTS = ("total_ammonia", "total_phosphate", "total_silicate", "total_sulfide")
SALTS = ("total_borate", "total_fluoride", "total_sulfate")
K_NAMES = (
    "k_ammonia k_bisulfate k_borate k_carbonic_1 k_carbonic_2 k_fluoride "
    "k_phosphoric_1 k_phosphoric_2 k_phosphoric_3 k_silicate k_sulfide k_water"
).split()
OPT_DEFAULTS = dict(
    opt_k_carbonic=10, opt_k_bisulfate=1, opt_k_fluoride=1, opt_total_borate=1
)


# --- Nernst ---------------------------------------------------------------
def nernst_mV(temperature):
    """mV per unit of ln[H+]."""
    return R * (np.asarray(temperature, dtype=float) + T0) / F


def emf_from_pH(pH, emf0, temperature):
    return emf0 - np.asarray(pH, dtype=float) * math.log(10) * nernst_mV(temperature)


def pH_from_emf(emf, emf0, temperature):
    return (emf0 - np.asarray(emf, dtype=float)) / (
        math.log(10) * nernst_mV(temperature)
    )


# --- densities (kg / l) -----------------------------------------------------
def rho_seawater(t, s):
    """Millero & Poisson (1981), one atmosphere."""
    a = [8.24493e-1, -4.0899e-3, 7.6438e-5, -8.2467e-7, 5.3875e-9]
    b = [-5.72466e-3, 1.0227e-4, -1.6546e-6]
    c = 4.8314e-4
    w = [999.842594, 6.793952e-2, -9.095290e-3, 1.001685e-4, -1.120083e-6, 6.536336e-9]
    poly = lambda cs: sum(k * float(t) ** i for i, k in enumerate(cs))  # noqa: E731
    s = float(s)
    return (poly(w) + poly(a) * s + poly(b) * s * math.sqrt(s) + c * s * s) / 1000


def rho_HCl_NaCl(m_hcl, m_nacl):
    """Dickson et al. (2007) SOP 3b: Young's rule mixture at 25 C."""
    m = m_hcl + m_nacl
    phi_h = 17.854 + 1.460 * math.sqrt(m) - 0.307 * m
    phi_n = 16.613 + 1.811 * math.sqrt(m) + 0.094 * m
    rw = 0.99704
    salt = 36.46 * m_hcl + 58.44 * m_nacl
    vol = phi_h * m_hcl + phi_n * m_nacl
    return rw * (1000 + salt) / (1000 + vol * rw)


def rho_H2SO4(m):
    return 0.99750018 + m * (0.06181819 - 0.00285491 * m)


# --- totals and constants ---------------------------------------------------
def salts_from_salinity(salinity, opts):
    """Salinity-based totals in umol/kg, from PyCO2SYS."""
    r = pyco2.sys(
        salinity=float(salinity),
        opt_k_carbonic=int(opts.get("opt_k_carbonic", 10)),
        opt_total_borate=int(opts.get("opt_total_borate", 1)),
    )
    return {k: float(r[k]) for k in SALTS}


def base_totals(meta):
    """Undiluted totals in mol/kg for a metadata dict (values in umol/kg)."""
    est = None
    tot = {"dic": float(meta.get("dic", 0)) * 1e-6}
    for k in NUTRIENTS + ("total_alpha", "total_beta"):
        tot[k] = float(meta.get(k, 0)) * 1e-6
    for k in SALTS:
        if meta.get(k) is not None:
            tot[k] = float(meta[k]) * 1e-6
        else:
            if est is None:
                est = salts_from_salinity(meta["salinity"], meta)
            tot[k] = est[k] * 1e-6
    return tot


def constants(meta, temperature, totals, factor):
    """Free-scale constants along the titration, from PyCO2SYS.

    `factor` multiplies the totals used for pH scale conversions.
    """
    kw = dict(OPT_DEFAULTS)
    kw.update({k: int(meta[k]) for k in OPT_DEFAULTS if meta.get(k) is not None})
    user = {k: float(meta[k]) for k in K_NAMES if meta.get(k) is not None}
    temperature = np.asarray(temperature, dtype=float)
    one = np.ones_like(temperature)
    r = pyco2.sys(
        salinity=float(meta["salinity"]),
        temperature=temperature,
        pressure=0,
        opt_pH_scale=3,
        opt_gas_constant=3,
        **{k: totals[k] * 1e6 * factor * one for k in SALTS},
        **kw,
        **user,
    )
    ks = {k: np.broadcast_to(np.asarray(r[k], dtype=float), one.shape) for k in K_NAMES}
    for k, v in user.items():
        ks[k] = v * one
    for k in ("k_alpha", "k_beta"):
        if meta.get(k) is not None:
            ks[k] = float(meta[k]) * one
    return ks


# --- speciation ---------------------------------------------------------------
ZLP = 4.5


def fractions(h, ks):
    """Fractions of a polyprotic acid by charge step: [fully protonated, ...]."""
    terms = [np.ones_like(h)]
    for k in ks:
        terms.append(terms[-1] * k / h)
    s = sum(terms)
    return [t / s for t in terms]


def alkalinity(pH, tot, ks):
    """Total alkalinity (Dickson 1981) in mol/kg on the Free scale."""
    h = 10.0 ** -np.asarray(pH, dtype=float)
    out = ks["k_water"] / h - h
    f = fractions(h, [ks["k_carbonic_1"], ks["k_carbonic_2"]])
    out = out + tot["dic"] * (f[1] + 2 * f[2])
    out = out + tot["total_borate"] * fractions(h, [ks["k_borate"]])[1]
    f = fractions(h, [ks["k_phosphoric_1"], ks["k_phosphoric_2"], ks["k_phosphoric_3"]])
    out = out + tot["total_phosphate"] * (f[2] + 2 * f[3] - f[0])
    out = out + tot["total_silicate"] * fractions(h, [ks["k_silicate"]])[1]
    out = out + tot["total_ammonia"] * fractions(h, [ks["k_ammonia"]])[1]
    out = out + tot["total_sulfide"] * fractions(h, [ks["k_sulfide"]])[1]
    out = out - tot["total_sulfate"] * fractions(h, [ks["k_bisulfate"]])[0]
    out = out - tot["total_fluoride"] * fractions(h, [ks["k_fluoride"]])[0]
    for x in ("alpha", "beta"):
        if np.any(np.asarray(tot[f"total_{x}"]) > 0):
            k = ks[f"k_{x}"]
            f = fractions(h, [k])
            out = out + tot[f"total_{x}"] * np.where(
                -np.log10(k) <= ZLP, -f[0], f[1]
            )
    return out


def solve_pH(alk, tot, ks, lo=-1.0, hi=14.0, iters=62):
    """Free pH at which the alkalinity is `alk`: bisection on a monotone curve."""
    alk = np.asarray(alk, dtype=float)
    lo = np.full(alk.shape, lo)
    hi = np.full(alk.shape, hi)
    for _ in range(iters):
        mid = 0.5 * (lo + hi)
        up = alkalinity(mid, tot, ks) < alk
        lo = np.where(up, mid, lo)
        hi = np.where(up, hi, mid)
    return 0.5 * (lo + hi)


# --- conversions of a file's data -----------------------------------------------
def titrant_mass_kg(amount, meta):
    amount = np.asarray(amount, dtype=float)
    unit = meta.get("titrant_amount_unit", "ml").lower()
    if unit == "kg":
        return amount * 1.0
    if unit == "g":
        return amount / 1000
    rho = meta.get("titrant_density")
    if rho is None:
        if meta.get("titrant", "HCl").upper() == "H2SO4":
            rho = rho_H2SO4(meta.get("molinity_H2SO4", 0.1))
        else:
            rho = rho_HCl_NaCl(
                meta.get("molinity_HCl", 0.1), meta.get("molinity_NaCl", 0.6)
            )
    return amount * rho / 1000


def titrant_amount(mass_kg, meta):
    """Inverse of titrant_mass_kg."""
    return np.asarray(mass_kg) / titrant_mass_kg(1.0, meta)


def analyte_mass_kg(meta, temperature):
    if meta.get("analyte_mass") is not None:
        return float(meta["analyte_mass"])
    return (
        float(meta["analyte_volume"])
        * rho_seawater(float(np.asarray(temperature)[0]), meta["salinity"])
        / 1000
    )


class Mixture:
    """Everything along a titration, from file data and metadata."""

    def __init__(self, meta, amount, temperature, molinity=None):
        t = np.asarray(temperature, dtype=float)
        if meta.get("temperature_override") is not None:
            t = np.full(t.shape, float(meta["temperature_override"]))
        self.meta = meta
        self.temperature = t
        self.mt = titrant_mass_kg(amount, meta)
        self.ma = analyte_mass_kg(meta, t)
        self.dil = self.ma / (self.ma + self.mt)
        self.acid_frac = self.mt / (self.ma + self.mt)
        self.tot0 = base_totals(meta)
        self.ks = constants(
            meta, t, self.tot0, self.dil if meta.get("dilute_totals_for_ks") else 1.0
        )
        self.normality = float(meta.get("titrant_normality", 1))
        self.molinity = molinity
        self.set_molinity(molinity)

    def set_molinity(self, molinity):
        self.molinity = molinity
        self.tot = {k: v * self.dil for k, v in self.tot0.items()}
        if molinity is not None:
            for x in ("sulfate", "phosphate", "fluoride"):
                f = self.meta.get(f"titrant_total_{x}")
                if f is not None:
                    self.tot[f"total_{x}"] = (
                        self.tot[f"total_{x}"] + self.acid_frac * molinity * f
                    )

    def acid(self):
        """Acid equivalents added per kg of mixture."""
        return self.acid_frac * self.molinity * self.normality

    def alkalinity_points(self, pH):
        """Analyte alkalinity implied by each point, umol/kg."""
        return (alkalinity(pH, self.tot, self.ks) + self.acid()) / self.dil * 1e6

    def true_pH(self, alk):
        """Equilibrium free pH along the titration for analyte alkalinity."""
        return solve_pH(alk * 1e-6 * self.dil - self.acid(), self.tot, self.ks)


# --- Gran ---------------------------------------------------------------------
def linfit(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    xm, ym = x.mean(), y.mean()
    sxx = np.sum((x - xm) ** 2)
    slope = np.sum((x - xm) * (y - ym)) / sxx
    return slope, ym - slope * xm


class Gran:
    """Gran estimates (DAA03 eqs. 10 and 11)."""

    def __init__(self, mt, emf, temperature, ma, molinity, normality=1, logic="v23.7+"):
        nv = nernst_mV(temperature)
        self.gfunc = (mt + ma) * np.exp(emf / nv)
        self.margin = np.min(np.abs(self.gfunc / np.max(self.gfunc) - 0.1))
        if logic == "legacy":
            rel = self.gfunc / np.max(self.gfunc)
            self.used = (rel > 0.1) & (rel < 0.9)
            self.margin = min(self.margin, np.min(np.abs(rel - 0.9)))
        else:
            first = int(np.argmax(self.gfunc > 0.1 * np.max(self.gfunc)))
            self.used = np.arange(len(mt)) >= first
        if self.used.sum() < 2:
            self.ok = False
            return
        self.ok = True
        slope, intercept = linfit(mt[self.used], self.gfunc[self.used])
        self.slope, self.intercept = slope, intercept
        self.intercept_x = -intercept / slope
        self.alkalinity = self.intercept_x * molinity * normality / ma
        with np.errstate(all="ignore"):
            self.emf0s = emf - nv * np.log(
                (mt * molinity * normality - ma * self.alkalinity) / (mt + ma)
            )
        self.emf0 = np.mean(self.emf0s[self.used])
        self.pH = pH_from_emf(emf, self.emf0, temperature)


# --- solvers --------------------------------------------------------------------
class Indeterminate(Exception):
    """A yes/no decision lies within rounding of its threshold."""


class Best:
    pass


def best_fit(mix, emf, used, alk0, emf00):
    """Minimise the sum of squared residuals (alkalinity, EMF0) by Gauss-Newton
    with step halving, to machine precision."""
    t = mix.temperature[used]
    tot = {k: np.broadcast_to(v, mix.mt.shape)[used] for k, v in mix.tot.items()}
    ks = {k: v[used] for k, v in mix.ks.items()}
    dil, acid, e = mix.dil[used], mix.acid()[used], emf[used]

    def res(p):
        return alkalinity(pH_from_emf(e, p[1], t), tot, ks) - p[0] * dil + acid

    p = np.array([alk0, emf00], dtype=float)
    r = res(p)
    for _ in range(60):
        d = 1e-3
        j1 = (res(p + [0, d]) - res(p - [0, d])) / (2 * d)
        jac = np.stack([-dil, j1], axis=1)
        q, rr = np.linalg.qr(jac)
        try:
            step = np.linalg.solve(rr, -q.T @ r)
        except np.linalg.LinAlgError:
            return None
        step[1] = np.clip(step[1], -20, 20)
        lam = 1.0
        while lam > 1e-8:
            pn = p + lam * step
            rn = res(pn)
            if np.sum(rn**2) <= np.sum(r**2) * (1 + 1e-14) + 1e-40:
                break
            lam /= 2
        else:
            break
        done = abs(pn[0] - p[0]) < 1e-15 and abs(pn[1] - p[1]) < 1e-10
        p, r = pn, rn
        if done:
            break
    def gradient(alk, emf0):
        q = np.array([alk, emf0])
        d = 1e-3
        j1 = (res(q + [0, d]) - res(q - [0, d])) / (2 * d)
        rq = res(q)
        return np.array([-np.sum(dil * rq), np.sum(j1 * rq)])

    out = Best()
    out.gradient = gradient
    out.alk, out.emf0 = p[0] * 1e6, p[1]
    out.residuals = r
    out.cond = np.linalg.cond(jac / np.linalg.norm(jac, axis=0))
    out.jac = jac
    return out


class Expected:
    """Reference result of solving one titration."""


def _mask(pH, lo, hi, margin):
    if margin and np.min(np.minimum(np.abs(pH - lo), np.abs(pH - hi))) < margin:
        raise Indeterminate("point on the window edge")
    return (pH >= lo) & (pH <= hi)


# Largest error the code's own convergence criteria leave in EMF0 (as pH), and
# rounding differences in Gran quantities
EDGE = 2e-4
EDGE_GRAN = 1e-9


def process(meta, amount, measurement, temperature, molinity, mix=None):
    """Solve a titration following the documented procedure."""
    mix = mix or Mixture(meta, amount, temperature, molinity=molinity)
    lo, hi = meta.get("pH_min", 3), meta.get("pH_max", 4)
    mode = meta.get("solve_mode", "emf").lower()
    meas = np.asarray(measurement, dtype=float)
    ex = Expected()
    ex.mode, ex.mix = mode, mix
    ex.temperature_init = mix.temperature[0]
    if mode in ("ph", "ph_gran"):
        ex.used = _mask(meas, lo, hi, 0)
        ex.pH = meas
        ex.npts = int(ex.used.sum())
        ex.emf0 = ex.gran = None
        if mode == "ph":
            ex.all = mix.alkalinity_points(meas)
            if ex.npts:
                ex.alkalinity = np.mean(ex.all[ex.used])
                ex.std = np.std(ex.all[ex.used])
        else:
            g = (mix.mt + mix.ma) * 10.0**-meas
            ex.gfunc = g
            if ex.npts >= 2:
                slope, intercept = linfit(mix.mt[ex.used], g[ex.used])
                ex.slope, ex.intercept = slope, intercept
                ex.alkalinity = (
                    -intercept / slope * molinity * mix.normality / mix.ma * 1e6
                )
        return ex
    if mode == "emf":
        emf, emf0_init = meas, meta.get("emf0_init")
    elif mode == "ph_adjust":
        emf, emf0_init = emf_from_pH(meas, 0.0, mix.temperature), 0.0
    else:
        raise ValueError(mode)
    gran = Gran(
        mix.mt, emf, mix.temperature, mix.ma, molinity, mix.normality,
        meta.get("gran_logic", "v23.7+"),
    )
    ex.gran = gran
    if not gran.ok or gran.margin < EDGE_GRAN:
        raise Indeterminate("Gran selection")
    alk0 = gran.alkalinity
    if meta.get("alkalinity_init") is not None:
        alk0 = meta["alkalinity_init"] * 1e-6
    emf00, pH = gran.emf0, gran.pH
    edge = 1e-8
    if emf0_init is not None:
        emf00 = float(emf0_init)
        pH = pH_from_emf(emf, emf00, mix.temperature)
        edge = 1e-9
    if not (np.isfinite(alk0) and np.isfinite(emf00)):
        raise Indeterminate("no Gran estimate")
    passes = 2 if meta.get("double", True) else 1
    for i in range(passes):
        used = _mask(pH, lo, hi, edge)
        if used.sum() < 3:
            raise Indeterminate("too few points")
        fit = best_fit(mix, emf, used, alk0, emf00)
        if fit is None or fit.cond > 1e4:
            raise Indeterminate("ill-conditioned")
        alk0, emf00 = fit.alk * 1e-6, fit.emf0
        pH = pH_from_emf(emf, emf00, mix.temperature)
        edge = EDGE
    ex.used, ex.fit = used, fit
    ex.gradient = fit.gradient
    ex.npts = int(used.sum())
    ex.alkalinity, ex.emf0 = fit.alk, fit.emf0
    ex.pH = pH
    ex.all = mix.alkalinity_points(pH)
    ex.std = np.std(ex.all[used])
    ex.emf = emf
    return ex
