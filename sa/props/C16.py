"""C16: conversions between units of length and energy, and between wavelength and energy."""
from ..spec import table
from ..solverspec import fn

METRIC = {"km": "0.001", "m": "1", "cm": "100", "mm": "1000", "um": "1000000", "nm": "1000000000", "a": "10000000000"}
ENERGY = {"GeV": "0.000000001", "MeV": "0.000001", "keV": "0.001", "eV": "1", "meV": "1000", "ueV": "1000000"}
U = "corrct.physics.units."
K = "scipy.constants.physical_constants['electron volt-inverse meter relationship'][0]"
NUM = ("physics.units.ConversionMetric", "physics.units.ConversionEnergy")


def rows():
    out = []
    for cls, tab, what in (("ConversionMetric", METRIC, "lengths"), ("ConversionEnergy", ENERGY, "energies")):
        for a, x in tab.items():
            for b, y in tab.items():
                out.append((f"{a} -> {b}", f"physics.units.{cls}.convert", f"the factor between two units of {what} is wrong", fn("v: float", ret=f"v * {U}{cls}.convert('{a}', '{b}')"), fn("v: float", ret=f"v * ({y} / {x})")))
    for f, what in (("energy_to_wlength", "the wavelength is not h c / E in the requested units"), ("wlength_to_energy", "the energy is not h c / lambda in the requested units")):
        for wl in METRIC:
            for en in ENERGY:
                out.append((f"{f}, {wl}, {en}", "physics.units." + f, what, fn("v: float", ret=f"{U}{f}(v, unit_wl='{wl}', unit_en='{en}')"), "import scipy.constants\n" + fn("v: float", ret=f"({METRIC[wl]} * {ENERGY[en]}) / ({K} * v)")))
        out.append((f"{f}, default units", "physics.units." + f, "the default units are not metres and keV", fn("v: float", ret=f"{U}{f}(v)"), "import scipy.constants\n" + fn("v: float", ret=f"0.001 / ({K} * v)")))
    P = "c: dict, nrg: float, px: float, rho: float"
    A = "corrct.physics.attenuation.get_linear_attenuation_coefficient"
    X = dict(opaque=("physics.xraylib_helper.get_compound",))
    CS = "corrct.physics.xraylib_helper.get_compound_cross_section"
    out += [("attenuation coefficient per pixel, pixel size in micrometres", A[7:], "the coefficient is not pixel size in cm * density * cross-section", fn(P, ret=f"{A}(c, nrg, px)"), fn(P, ret=f"px * 0.0001 * c['density'] * {CS}(c, nrg)"), X),
            ("attenuation coefficient per pixel, given density", A[7:], "the given density is not used", fn(P, ret=f"{A}(c, nrg, px, rho)"), fn(P, "d = {**c, 'density': rho}", ret=f"px * 0.0001 * rho * {CS}(d, nrg)"), X),
            ("attenuation coefficient per pixel, compound name", A[7:], "the named compound is not looked up", fn("n: str, nrg: float, px: float", ret=f"{A}(n, nrg, px)"), fn("n: str, nrg: float, px: float", "c = corrct.physics.xraylib_helper.get_compound(n)", ret=f"px * 0.0001 * c['density'] * {CS}(c, nrg)"), X)]
    return out


def run(chk, prog):
    chk.rule("unit-conversion", "the factor between any two listed units is the ratio of their SI prefixes; wavelength and energy are related by h c with both units honoured")
    chk.need("unit-conversion", table(chk, prog, "unit-conversion", rows()))
