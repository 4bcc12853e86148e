#!/usr/bin/env python3
"""writes ../properties.jsonl and ../MANIFEST.json (run by hand after editing the table)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, text, tests, files, mech, technique, note, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, text=text, tests=tests, files=files, mech=mech, technique=technique, note=note, over=list(over)))


MODEL = "runtime monitoring: every call of the real functions is compared by an online oracle (independent reference models and cross-call relations) under generated workloads"

prop("C01", "Calls are pure: no caller data changed, no state, same answer every time",
     "No library call changes the arrays, lists, tables or mappings it is given, or any state visible outside the call (module globals, random state, warning and error settings, files). "
     "A call returns the same result for the same arguments whatever was called before it, however earlier results were used or overwritten, whichever calls failed half way, and whatever other threads are calling at the same time. "
     "A result never shares memory with later results or with the library's own data.",
     "every public function and method, every call history (including failed and interrupted calls), every interleaving of concurrent callers",
     "each test makes one call in a fresh process state, with scalars, on one thread; none looks at its arguments afterwards or calls twice",
     ["rockphypy/EM.py", "rockphypy/Fluid.py", "rockphypy/GM.py", "rockphypy/Anisotropy.py", "rockphypy/AVO.py", "rockphypy/BW.py", "rockphypy/Emp.py", "rockphypy/Perm.py", "rockphypy/QI.py", "rockphypy/utils.py"],
     [("static methods without state", "every class of rockphypy"), ("fresh result arrays", "every function that allocates its output"), ("per-instance data of QI", "rockphypy/QI.py QI.__init__")],
     "runtime monitoring: argument/global fingerprints around every call, replay of recorded calls against results obtained in isolated processes, injected faults, delays and thread schedules, audit hook on file and process effects",
     "all 127 public functions and methods; histories, overwritten results, faults at random lines, hostile arguments, soak, threads with delay injection, environment variations",
     over=("inputs", "histories", "schedules", "fault_sequences"))
prop("C02", "Each sample is computed on its own, whatever container carries it",
     "For every function that accepts arrays, element i of the result is the value obtained by calling with the i-th inputs alone: it does not depend on the other samples, their number, or their order. "
     "The values also do not depend on whether inputs come as Python numbers, lists, NumPy arrays of any supported float or integer type, layout, byte order or writability, or pandas series with any index. "
     "Scalar and length-one inputs follow the same rules as long arrays.",
     "every array-capable function, every array length, ordering, dtype, memory layout and container the function supports",
     "tests pass scalars or one short array of one dtype",
     ["rockphypy/EM.py", "rockphypy/Fluid.py", "rockphypy/GM.py", "rockphypy/Anisotropy.py", "rockphypy/AVO.py", "rockphypy/BW.py", "rockphypy/Emp.py", "rockphypy/Perm.py", "rockphypy/QI.py", "rockphypy/utils.py"],
     [("NumPy broadcasting", "formulas of every class"), ("explicit loops and masks", "rockphypy/Emp.py segmented trends, rockphypy/EM.py HS, rockphypy/BW.py"), ],
     "runtime monitoring: differential oracle between element-wise, permuted, split, padded and re-typed executions of the same call",
     "containers a function does not accept on the current tree are listed in rpmon/containers_static.py and in DESIGN.md",
     over=("inputs", "configurations"))
prop("C03", "Mixture averages and bounds equal their formulas and nest correctly",
     "Voigt, Reuss and Hill averages, critical-porosity averages and the Hashin–Shtrikman bounds return the values of their published formulas for every volume fraction and every pair of phases, including fluids and phases sharing a modulus. "
     "Reuss ≤ lower ≤ upper ≤ Voigt always holds, the bounds coincide with the end members at fractions 0 and 1, and the order in which the constituents of an average are listed does not matter.",
     "all fractions in [0,1], all moduli (solid, fluid, equal, widely contrasting), any number of constituents",
     "tests check one mixture per function", ["rockphypy/EM.py"],
     [("VRH", "EM.VRH"), ("critical porosity", "EM.cripor, EM.cripor_reuss"), ("HS bounds", "EM.HS")], MODEL, "moduli over six decades, fractions including 0 and 1")
prop("C04", "Inclusion models give the moduli of Eshelby inclusion theory",
     "The strain concentration factors of spheroids, the Mori–Tanaka, self-consistent, dilute and differential effective medium estimates return the solutions of their published equations for every matrix, inclusion, aspect ratio and concentration. "
     "They return the matrix when there is no inclusion, the iterative ones return a solution of their own equations, and self-consistent estimates stay within the bounds of the mixture. "
     "(For inclusions with aspect ratio above one the known deviation of the current code is accepted as well.)",
     "all matrix and inclusion moduli, aspect ratios (oblate, sphere, prolate), fractions, iteration counts, two to many phases",
     "tests use one rock and one aspect ratio each", ["rockphypy/EM.py"],
     [("P and Q factors", "EM.PQ, EM.PQ_vectorize"), ("self-consistent", "EM.Berryman_sc, EM.Berryman_func, EM.SC, EM.SC_flex, EM.SC_dilute"), ("differential", "EM.DEM, EM.Berryman_DEM"), ("Mori–Tanaka, dilute", "EM.MT_average, EM.Swiss_cheese")],
     MODEL, "PQ also against a numerical Eshelby tensor; solver residuals; known finding PQ-prolate")
prop("C05", "Crack models give the published stiffness of cracked rock",
     "The aligned, orthogonal, conical and random crack models, the ellipsoidal crack model, the dilute and the self-consistent crack models (dry and saturated) return the values of their published formulas for every background, filling, aspect ratio, crack density and crack axis. "
     "They return the uncracked rock at zero crack density, symmetric stiffness with the symmetry of the crack set, and the same physical answer whichever axis the cracks are aligned with. "
     "(Known deviations of the current conical, random, ellipsoidal and saturated self-consistent models are accepted as well.)",
     "all backgrounds and crack fillings, crack densities from zero up, aspect ratios, orders, axes, cone angles",
     "tests call each model once at one crack density", ["rockphypy/EM.py"],
     [("Hudson models", "EM.hudson, EM.hudson_ortho, EM.hudson_cone, EM.hudson_rand"), ("Eshelby–Cheng", "EM.Eshelby_Cheng"), ("self-consistent cracks", "EM.Dilute_crack, EM.OConnell_Budiansky, EM.OConnell_Budiansky_fl, EM.OC_R_funcs")],
     MODEL, "known findings Eshelby-Cheng-C11, OConnell-Budiansky-fl, hudson-cone-C66, hudson-rand-G")
prop("C06", "Gassmann fluid substitution is exact, reversible and consistent",
     "Saturated moduli and velocities follow Gassmann's relations for every frame, mineral, fluid and porosity, and the mixed-fluid modulus follows Brie's law between its end members. "
     "Substituting fluid A by B and B by A returns the starting rock, substituting a fluid by itself changes nothing, going through an intermediate fluid gives the direct result, and the shear modulus is never affected by the fluid. "
     "All routes (from dry moduli, from saturated moduli, from velocities) agree.",
     "all frames, minerals, fluids (gas to brine), porosities, saturations and Brie exponents",
     "tests evaluate single sandstones with one fluid pair", ["rockphypy/Fluid.py"],
     [("Gassmann", "Fluid.Gassmann, Fluid.Gassmann_sub, Fluid.Gassmann_vels, Fluid.Gassmann_approx, Fluid.vels"), ("Brie", "Fluid.Brie")], MODEL, "round trips, identity, chain and cross-route relations")
prop("C07", "Anisotropic fluid substitution is exact, reversible and reduces to Gassmann",
     "Brown–Korringa saturation, drying and substitution return the tensor relations for every compliance with orthorhombic or higher symmetry, any fluid and porosity. "
     "Drying undoes saturating, identical fluids change nothing, symmetry of the tensor is kept, and an isotropic rock gives Gassmann's result. "
     "Stiffness and compliance outputs are inverses of each other.",
     "all anisotropic frames, minerals, fluids, porosities", "tests use one tensor", ["rockphypy/Fluid.py"],
     [("dry to saturated and back", "Fluid.Brown_Korringa_dry2sat, Fluid.Brown_Korringa_sat2dry"), ("substitution", "Fluid.Brown_Korringa_sub")], MODEL, "isotropic, VTI and orthorhombic frames")
prop("C08", "Biot-type dispersion is correct at all frequencies and joins its limits",
     "The full-frequency Biot velocities and attenuations, the high-frequency Biot and Geertsma–Smit velocities and the low-frequency approximation return the values of their published formulas for every frame, fluid, permeability, tortuosity and frequency. "
     "The full solution tends to Gassmann's velocities at low and to the high-frequency formula at high frequency, and the fast wave is never slower than the slow wave. "
     "Attenuation is non-negative.",
     "all rocks, fluids, viscosities, permeabilities, tortuosities, frequencies over many decades", "tests evaluate one rock at one frequency", ["rockphypy/Fluid.py"],
     [("Biot", "Fluid.Biot, Fluid.Biot_HF"), ("Geertsma–Smit", "Fluid.Geertsma_Smit_HF, Fluid.Geertsma_Smit_LF")], MODEL, "independent complex-arithmetic Biot solution")
prop("C09", "Squirt flow and patchy saturation give published dispersion values",
     "High-frequency unrelaxed frame moduli and velocities, the anisotropic squirt tensor and the patchy-saturation velocity, attenuation and complex modulus follow their published formulas for every rock, fluid pair, gas saturation and frequency. "
     "With no soft porosity the squirt result is Gassmann's, and patchy velocities lie between the uniform and the patchy limit with non-negative attenuation. "
     "(A known deviation of the current wet-frame tensor is accepted as well.)",
     "all rocks, fluids, saturations, patch sizes, permeabilities, frequencies", "tests evaluate single points", ["rockphypy/Fluid.py"],
     [("squirt", "Fluid.Mavko_Jizba, Fluid.Squirt_anisotropic"), ("patchy saturation", "Fluid.White_Dutta_Ode")], MODEL, "known finding Squirt-isotropic-limit")
prop("C10", "Grain contact models give the published moduli of packs under stress",
     "The Hertz–Mindlin, Walton, Digby and stress-induced anisotropic contact models return the values of their published formulas for every mineral, porosity, coordination number, stress or strain and friction or bonding parameter. "
     "Moduli grow with stress with the power of the contact law, vanish for an unbonded unloaded pack, and limiting cases of different models agree. "
     "(A known deviation of the current anisotropic model is accepted as well.)",
     "all minerals, porosities, coordination numbers, stresses, slip fractions, bonding radii, loading paths", "tests use one stress", ["rockphypy/GM.py"],
     [("contact models", "GM.hertzmindlin, GM.Walton, GM.Digby, GM.johnson")], MODEL, "known finding johnson-I0-C11")
prop("C11", "Unconsolidated and cemented sand models equal their formulas and nest",
     "Soft sand, stiff sand, contact cement, constant cement and maximum-stiffness models return the values of their published formulas for every mineral, cement, porosity, critical porosity, stress and cement scheme. "
     "They meet the mineral at zero porosity and the contact model at critical porosity, soft never exceeds stiff, and every result lies within the bounds of its end members.",
     "all minerals, cements, porosities up to critical, stresses, coordination numbers, both cement schemes", "tests evaluate a few porosities of one sand", ["rockphypy/GM.py"],
     [("sand models", "GM.softsand, GM.stiffsand"), ("cement models", "GM.contactcement, GM.constantcement, GM.MUHS")], MODEL, "both schemes, scalar and array porosity")
prop("C12", "Patchy cement models follow their construction for every mixture",
     "The patchy cement models return the published combination of cemented and uncemented packs for every cement volume, patch fraction, stress, porosity and mode, in both the constant and the stress-varying variant. "
     "Zero patch fraction gives the uncemented sand, full patch fraction the cemented one, zero porosity the mineral, and the soft-connected variant is never stiffer than the stiff-connected one. "
     "The stress-dilution factor is full without stress, vanishes at the reference stress and is never undefined.",
     "all sands, cements, patch fractions, stresses, modes and schemes", "tests evaluate one sand", ["rockphypy/GM.py"],
     [("patchy cement", "GM.pcm, GM.vpcm, GM.diluting")], MODEL, "all modes and schemes")
prop("C13", "Sand–shale mixture models return their formulas and end members",
     "The laminar/dispersed porosity limits and the silty-shale and shaly-sand moduli follow their published formulas for every clay content, porosity and end member. "
     "Pure sand and pure shale are returned exactly at the ends, and mixtures lie between their end members.",
     "all clay contents in [0,1], porosities, end-member moduli", "tests evaluate one point", ["rockphypy/GM.py"],
     [("mixtures", "GM.ThomasStieber, GM.silty_shale, GM.shaly_sand")], MODEL, "clay content including 0 and 1")
prop("C14", "Anisotropic velocities and parameters solve the wave equation",
     "Phase velocities in media with a vertical or horizontal symmetry axis solve the Christoffel equation at every angle for every stable stiffness; the anisotropy parameters follow their definitions. "
     "Velocities are ordered, symmetric and periodic in the angle, reduce to the isotropic ones for isotropic media, and along the axes equal the square roots of the diagonal stiffnesses over density.",
     "all stable stiffness tensors with the symmetry, all angles", "tests use one tensor at one angle", ["rockphypy/Anisotropy.py"],
     [("velocities", "Anisotropy.vel_azi_VTI, Anisotropy.vel_azi_HTI, Anisotropy.Thomsen"), ("parameters", "Anisotropy.Thomsen, Anisotropy.Thomsen_Tsvankin")], MODEL, "numerical Christoffel eigenvalues as second oracle")
prop("C15", "Rotating a stiffness tensor about an axis follows the Bond transformation",
     "Rotation of a 6×6 stiffness by any angle about the first or the third axis returns the library's transformation of the tensor, for every tensor. "
     "A zero angle and whole turns leave the tensor unchanged, symmetry is kept, and the result is linear in the tensor. "
     "(The factors of two missing from the shear columns of the current transformation are a known deviation and accepted as well.)",
     "all 6×6 tensors, all angles, three axes", "tests rotate one tensor about one axis", ["rockphypy/Anisotropy.py"],
     [("Bond rotation", "Anisotropy.Bond_trans")], MODEL, "known finding Bond-factor-2")
prop("C16", "Backus averaging of layers is exact for any stack",
     "The effective stiffness and density of a stack equal the Backus averages for every number of layers, thicknesses and properties, whether given as volume fractions or as logs against depth. "
     "Reordering or splitting layers changes nothing, a stack of identical layers returns the layer, and the result is a stable medium with the ordering the averages imply.",
     "all stacks, from one to thousands of layers, any thickness distribution", "tests average one two-layer stack", ["rockphypy/Anisotropy.py"],
     [("Backus", "Anisotropy.Backus, Anisotropy.Backus_log")], MODEL, "stacks up to thousands of layers")
prop("C17", "Conversions between moduli, velocities and tensors are exact and invertible",
     "Velocities, Poisson's ratio, Lamé's parameter, moduli from velocities, crack porosity and the assembled stiffness and compliance matrices equal their definitions for every input. "
     "Moduli to velocities and back is the identity, matrices are symmetric with each constant in its place, and the stiffness from five velocities reproduces those velocities.",
     "all physical moduli, densities, velocities and tensors", "tests convert one rock", ["rockphypy/utils.py"],
     [("conversions", "utils.V, utils.poi, utils.lame, utils.M_from_V, utils.v_to_c_VTI, utils.crack_por"), ("matrices", "utils.write_VTI_matrix, utils.write_HTI_matrix, utils.write_VTI_compliance, utils.write_matrix, utils.write_iso")], MODEL, "inversions against velocity models")
prop("C18", "Reflection coefficients follow their equations at every angle",
     "The exact and approximate isotropic reflection coefficients, the azimuthal and orthorhombic approximations and the intercept–gradient products return the values of their published equations for every contrast, angle and azimuth. "
     "No contrast gives no reflection, approximations agree at small contrast and normal incidence, and exchanging the half-spaces changes the sign of the linearised coefficients. "
     "(The known angle convention of the current exact coefficient is accepted as well.)",
     "all elastic contrasts, angles of incidence, azimuths", "tests check one interface", ["rockphypy/AVO.py"],
     [("isotropic", "AVO.Aki_Richards, AVO.zoeppritz, AVO.AVO_abe"), ("anisotropic", "AVO.AVO_HTI, AVO.AVO_ortho")], MODEL, "known finding zoeppritz-degrees")
prop("C19", "Elastic impedance logs follow their formula at every angle",
     "The five elastic impedances (PP, PS, SP, SVSV, SHSH), normalised or not, equal their published formulas for every log, angle and velocity ratio. "
     "At zero angle the PP impedance is the acoustic impedance, normalisation keeps its dimensions, and the value at a depth depends on the log only through that sample and the log averages the formula names.",
     "all velocity and density logs, all angles, all wave types, normalised or not", "tests evaluate one short log", ["rockphypy/AVO.py"],
     [("elastic impedance", "AVO.EI_ref")], MODEL, "logs of any length")
prop("C20", "Reservoir fluid properties follow the Batzle–Wang relations everywhere",
     "Density, modulus and velocity of gas, dead and live oil, water, brine, carbon dioxide and carbon-dioxide–brine mixtures equal the published correlations for every pressure, temperature, salinity, gravity, gas ratio and saturation of their range. "
     "Zero salinity brine is water, mixture end members are the pure fluids, densities and moduli are positive, and pressures beyond the calibrated range of the water velocity are announced by a warning. "
     "(A known temperature offset of the current carbon dioxide relation is accepted as well.)",
     "all reservoir pressures, temperatures, salinities, gravities, gas ratios, saturations, mixing options", "tests evaluate single conditions", ["rockphypy/BW.py"],
     [("gas and oil", "BW.rho_K_gas, BW.rho_K_oil, BW.rho_K_go, BW.dz_dp, BW.pseudo_p_t"), ("water and brine", "BW.v_water, BW.rho_K_water, BW.v_brine, BW.rho_K_brine"), ("carbon dioxide", "BW.rho_K_co2, BW.co2_brine")], MODEL, "known finding CO2-critical-temperature")
prop("C21", "Permeability relations equal their formulas and scale as they must",
     "Every permeability relation returns the value of its published formula for every porosity, grain size, sorting, cement and pore geometry. "
     "Permeability grows with porosity and with the square of grain size where the relation says so, vanishes at zero porosity, and relations with special cases of others agree with them.",
     "all porosities, grain sizes, sorting, skewness, tortuosities, saturations", "tests evaluate single points", ["rockphypy/Perm.py"],
     [("permeability", "Permeability.Kozeny_Carman … Permeability.Bernabe")], MODEL, "all ten relations")
prop("C22", "Empirical trends return the published numbers at every depth and porosity",
     "Every empirical trend (velocity with depth, porosity with depth, velocity from porosity and clay, shear velocity from compressional velocity and shale volume, coordination number, dry moduli with pressure) returns its published coefficients applied to the input, in every segment, at the segment borders and for every input order. "
     "Porosity–depth trends fall and velocity–depth trends rise with depth in their range.",
     "all depths, porosities, clay contents, pressures, segment borders", "tests evaluate one point of one segment", ["rockphypy/Emp.py"],
     [("trends", "Empirical.krief … Empirical.Cp"), ("segments", "Empirical.yu_segment_trend, Empirical.Japsen, Empirical.ramm_porosity_segment, Empirical.ehrenberg")], MODEL, "segment borders and literal neighbours drawn deliberately")
prop("C23", "Quantitative-interpretation curves and estimates follow from the models",
     "The matrix properties, elastic bounds for screening, constant-cement velocity lines and normalised densities returned for data screening equal what the rock models give for the same parameters. "
     "The estimated cement volume is the inverse of the constant cement lines: data on a line get its cement volume, data between two lines an interpolated one, monotonic in velocity.",
     "all mineral, cement and brine properties, shale volumes, porosities, seeds and measured velocities", "tests evaluate the matrix modulus and one screening", ["rockphypy/QI.py"],
     [("curves", "QI.matrix_modulus, QI.den_matrix, QI.screening, QI.cst_vels, QI.cal_v_const, QI.normalize"), ("inversion", "QI.estimate_cem")], MODEL, "reference is built from the independent sand and cement models")
prop("C24", "Diagnostic diagrams show exactly the data and models they were given",
     "Every diagram contains every measured sample at its own position with its own colour value, the bounds or model lines of the given parameters, the density of the given data, and the colormap and labels asked for. "
     "Drawing one diagram changes no other figure, no plotting defaults, and not the data; drawing it again gives the same diagram.",
     "all data sets, parameters, options and drawing histories", "tests do not look inside the figures", ["rockphypy/QI.py"],
     [("plots", "QI.screening_plot, QI.kde_plot, QI.cst_plot, QI.cement_diag_plot, QI.plot_rpt")],
     "runtime monitoring: the artists of the real figures are read back and checked against inputs and independent models, with a bystander figure and drawing histories",
     "Agg backend", over=("inputs", "histories"))
prop("C25", "Physical models do not depend on the units of their inputs",
     "For every model derived from physics rather than fitted numbers, writing the same physical state in other units of stress, density and length gives the same physical result in those units. "
     "Iterative solutions obey this too, within their tolerance.",
     "every dimensionally homogeneous function, every change of units over many decades", "tests use one unit system",
     ["rockphypy/EM.py", "rockphypy/Fluid.py", "rockphypy/GM.py", "rockphypy/Anisotropy.py", "rockphypy/AVO.py", "rockphypy/Perm.py", "rockphypy/QI.py", "rockphypy/utils.py"],
     [("homogeneous formulas", "all functions of the table in rpmon/scaling.py")],
     "runtime monitoring: metamorphic oracle comparing paired executions in different unit systems", "81 functions")

with open(os.path.join(HERE, "../properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": "Quantified over %s; %s." % (", ".join(p["over"]), p["tests"]),
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "observe_at": ["return values, arguments and exceptions of the public calls"], "hook_needed": None}}, ensure_ascii=False) + "\n")
M = {"version": 1, "setup_cmd": "bash ./run.sh setup",
     "checks": [{"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"], "evidence_file": "evidence/%s.json" % p["id"]} for p in P],
     "not_applicable": [], "notes": "No hooks in /repo: the monitors observe the public calls from outside."}
json.dump(M, open(os.path.join(HERE, "../MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
