"""Materials, described independently of the project's own parameter files."""
from gm import GPRpy, np

EOS = dict(vac=-1, sg=0, smg=1, jwl=2, cc=3, gr=4)
REACT = dict(d=0, a=1, i=2)


def par(eos, kind="fluid", **k):
    """kind: fluid (Newtonian, mu), powerfluid (mu, n), elastic, plastic
    (σY, τ0, n), bingham (mu, σY)"""
    M = GPRpy.classes.Par()
    M.EOS = EOS[eos]
    M.REACTION = -1
    M.δp = np.zeros(3)
    if eos == "vac":
        return M
    M.SOLID = kind in ("elastic", "plastic")
    M.POWER_LAW = kind in ("powerfluid", "plastic")
    M.BINGHAM = kind == "bingham"
    M.MULTI = False
    M.n = 1.
    for name, v in k.items():
        if name == "REACTION":
            v = REACT[v]
        if not hasattr(M, name):
            raise AttributeError(name)
        setattr(M, name, v)
    return M


# name -> (constructor arguments, reference density, reference pressure)
TABLE = {}


def define(name, rho, p, vel, *a, **k):
    TABLE[name] = (a, k, rho, p, vel)


# rho, p, velocity scale
define("air", 1.18, 101325., 100., "sg", "fluid", ρ0=1.18, cv=718., γ=1.4,
       b02=2500., μ=1.85e-5, cα2=2500., κ=0.026)
define("airnd", 1., 1., 1., "sg", "fluid", ρ0=1., cv=2.5, γ=1.4, b02=1.,
       μ=1e-2, cα2=4., κ=0.05)
define("ideal", 1., 1., 1., "sg", "fluid", ρ0=1., cv=2.5, γ=1.4, b02=1e-8,
       μ=1e-4, cα2=1e-8, κ=1e-4)
define("viscous", 1., 1., 1., "sg", "fluid", ρ0=1., cv=1., γ=5 / 3, b02=25.,
       μ=2e-2, cα2=25., κ=9.3333e-2)
define("helium", 0.163, 101325., 100., "sg", "fluid", ρ0=0.163, cv=3127.,
       γ=5 / 3, b02=1., μ=1.99e-5, cα2=1., κ=0.15)
define("water", 997., 101325., 100., "sg", "fluid", ρ0=997., cv=950., γ=4.4,
       pINF=6e8, b02=1., μ=1e-3, cα2=1., κ=0.6)
define("dilatant", 1., 1., 1., "sg", "powerfluid", ρ0=1., cv=1., γ=1.4, b02=1.,
       μ=1e-2, n=1.5, cα2=1., κ=1e-2)
define("shearthin", 1., 1., 1., "sg", "powerfluid", ρ0=1., cv=1., γ=1.4,
       b02=1., μ=1e-2, n=0.7, cα2=1., κ=1e-2)
define("bingham", 1., 1., 1., "sg", "bingham", ρ0=1., cv=1., γ=1.4, b02=1.,
       μ=1e-2, σY=0.1, cα2=1., κ=1e-2)
define("cu_gr", 8930., 1e5, 300., "gr", "elastic", ρ0=8930., cv=390., Tref=300.,
       c02=3909. ** 2 - 4 / 3 * 2141. ** 2, α=1., β=3., γ=2., b02=2141. ** 2,
       cα2=100. ** 2, κ=400.)
define("al_grp", 2710., 1e5, 300., "gr", "plastic", ρ0=2710., cv=900.,
       Tref=300., c02=5037. ** 2, α=1., β=3.577, γ=2.088, b02=3160. ** 2,
       σY=4e8, n=100., τ0=1., cα2=2. ** 2, κ=204.)
define("cu_smg", 8930., 1e5, 300., "smg", "plastic", ρ0=8930., cv=390.,
       Tref=300., Γ0=2., c02=3909. ** 2, s=1.48, b02=2141. ** 2, σY=9e7,
       n=10., τ0=1., cα2=100. ** 2, κ=400.)
define("w_smg", 17600., 1e5, 300., "smg", "plastic", ρ0=17600., cv=134.,
       Γ0=1.43, c02=4030. ** 2, s=1.24, b02=2888. ** 2, σY=1.1e9, n=100.,
       τ0=1., cα2=100. ** 2, κ=170.)
define("steel_el", 7860., 1e5, 300., "smg", "elastic", ρ0=7860., cv=477.,
       Γ0=1.7, c02=4610. ** 2, s=1.275, b02=3235. ** 2, cα2=100. ** 2, κ=50.)
define("cu_nd", 8.9, 1e-3, 0.3, "gr", "elastic", ρ0=8.9, cv=4e-4, Tref=300.,
       c02=4.6 ** 2 - 4 / 3 * 2.1 ** 2, α=1., β=3., γ=2., b02=2.1 ** 2,
       cα2=1., κ=1e-3)
define("jwl", 1601., 1e5, 300., "jwl", "fluid", ρ0=1601., cv=2.487e6 / 1601,
       Γ0=0.8938, A=7.781e13, B=-5.031e9, R1=11.3, R2=1.13, b02=300. ** 2,
       μ=1e3, cα2=1., κ=1.)
define("c4_el", 1601., 1e5, 300., "jwl", "elastic", ρ0=1601., cv=1e6 / 1601,
       Γ0=0.25, A=6.0977e11, B=0.1295e11, R1=4.5, R2=1.4, b02=1487. ** 2,
       cα2=1., κ=1.)
define("nm_cc", 1134., 1e5, 300., "cc", "fluid", ρ0=1134., cv=1714., Γ0=1.19,
       A=0.819e9, B=1.51e9, R1=4.53, R2=1.42, b02=1., μ=6e-4, cα2=1., κ=0.2)

FLUIDS = ["air", "airnd", "viscous", "helium", "water", "jwl", "nm_cc"]
POWERFLUIDS = ["dilatant", "shearthin"]
ELASTIC = ["cu_gr", "steel_el", "cu_nd", "c4_el"]
PLASTIC = ["al_grp", "cu_smg", "w_smg"]
ALL = FLUIDS + POWERFLUIDS + ELASTIC + PLASTIC


def mat(name, **over):
    if name == "vac":
        return par("vac")
    a, k, rho, p, vel = TABLE[name]
    kk = dict(k)
    kk.update(over)
    return par(*a, **kk)


def some(g, name):
    """The material, sometimes with a shear speed which varies with density."""
    M = mat(name)
    if M.EOS in (0, 1, 2, 3) and g.random() < .3:
        M.β = float(g.uniform(-.5, .5)) * (M.γ - 1 if M.EOS == 0 else M.Γ0)
    return M


def ref(name):
    return TABLE[name][2:]
