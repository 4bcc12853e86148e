"""Which monitors decide which property."""
from . import models_em, models_fluid, models_gm, models_aniso, models_emp, models_qi   # noqa: F401 (register SPECS)
from . import rel_em, rel_fluid, rel_gm, rel_aniso, rel_qi
import os
from . import usage
from .engine import model_tasks
from .guide import tasks_of

_N = {
    "C03": ("EM", "VRH cripor cripor_reuss HS"),
    "C04": ("EM", "MT_average PQ PQ_vectorize Berryman_func DEM Swiss_cheese SC SC_flex SC_dilute"),
    "C05": ("EM", "hudson hudson_rand hudson_ortho hudson_cone Eshelby_Cheng Dilute_crack OConnell_Budiansky OC_R_funcs"),
    "C06": ("Fluid", "Brie Gassmann Gassmann_sub vels Gassmann_vels Gassmann_approx"),
    "C07": ("Fluid", "Brown_Korringa_dry2sat Brown_Korringa_sat2dry Brown_Korringa_sub"),
    "C08": ("Fluid", "Biot Biot_HF Geertsma_Smit_HF Geertsma_Smit_LF"),
    "C09": ("Fluid", "Mavko_Jizba Squirt_anisotropic White_Dutta_Ode"),
    "C10": ("GM", "hertzmindlin Walton Digby johnson"),
    "C11": ("GM", "softsand stiffsand contactcement constantcement MUHS"),
    "C12": ("GM", "pcm vpcm diluting"),
    "C13": ("GM", "ThomasStieber silty_shale shaly_sand"),
    "C14": ("Anisotropy", "Thomsen Thomsen_Tsvankin vel_azi_VTI vel_azi_HTI"),
    "C15": ("Anisotropy", "Bond_trans"),
    "C16": ("Anisotropy", "Backus Backus_log"),
    "C17": ("utils", "crack_por V poi lame M_from_V write_VTI_matrix write_HTI_matrix write_VTI_compliance write_matrix write_iso v_to_c_VTI"),
    "C18": ("AVO", "AVO_HTI Aki_Richards zoeppritz AVO_abe AVO_ortho"),
    "C19": ("AVO", "EI_ref"),
    "C20": ("BW", "dz_dp pseudo_p_t rho_K_gas rho_K_co2 rho_K_oil rho_K_go v_water rho_K_water v_brine rho_K_brine co2_brine"),
    "C21": ("Permeability", "Kozeny_Carman Kozeny_Carman_Percolation Owolabi Perm_logs Panda_Lake Panda_Lake_cem Revil Fredrich Bloch Bernabe"),
    "C22": ("Empirical", "krief esti_VS han ehrenberg yu_segment_trend ramm_porosity ramm_porosity_segment empirical_StPeter Scherbaum Sclater Storvoll Hillis Japsen hjelstuen Cp"),
    "C23": ("QI", "matrix_modulus den_matrix screening normalize cst_vels cal_v_const"),
}
FUNCS = {p: ["%s.%s" % (c, f) for f in fs.split()] for p, (c, fs) in _N.items()}

REL = {}
for _m in (rel_em, rel_fluid, rel_gm, rel_aniso, rel_qi):
    for _p, _fs in _m.REL.items():
        REL.setdefault(_p, []).extend(_fs)

# workload multipliers (quick calls per function) where functions are few or cheap
_Q = {"C15": dict(q_case=1500), "C16": dict(q_case=1500), "C19": dict(q_case=1200), "C07": dict(q_case=1500)}


def tasks(prop):
    if prop == "C01":
        from . import purity
        return purity.tasks()
    if prop == "C02":
        from . import containers
        return containers.tasks()
    if prop == "C24":
        from . import figures
        return figures.tasks()
    if prop == "C25":
        from . import scaling
        return scaling.tasks()
    t = model_tasks(FUNCS[prop], **_Q.get(prop, {}))
    t += [("relation:" + f.__name__, f) for f in REL.get(prop, [])]
    t += tasks_of([("relation " + f.__name__, f) for f in REL.get(prop, [])], 120, 3000)
    if os.environ.get("RPMON_TIER") == "thorough":
        t.append(("usage", usage.task(FUNCS[prop])))
    return t


ALL = ["C%02d" % i for i in range(1, 26)]
