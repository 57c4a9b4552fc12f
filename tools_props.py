#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing): python3 tools_props.py"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, level_note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, level_note))


ABS = "pyrtlib/absorption_model.py"
RTE = "pyrtlib/rt_equation.py"
TB = "pyrtlib/tb_spectrum.py"
UT = "pyrtlib/utils.py"
LS = "pyrtlib/_lineshape/"
TRUST = "Trusts the independently written reference in /verif/pbt/ref and the shipped data files; "

prop("C01", "Water-vapour absorption follows the selected published model",
     "For every supported water-vapour model, every atmospheric state and every frequency from 1 to 1000 GHz, the line "
     "and the continuum absorption equal that model's published formula evaluated on its own line list (widths, pressure "
     "shifts, speed-dependent shape near line centre, local-line cut-off at 750 GHz, self and foreign continuum). "
     "Both terms are finite and non-negative, and exactly zero when there is no vapour.",
     ["inputs", "configurations"], "all 14 models x (pressure, temperature, vapour pressure, frequency)",
     "Tests compare one brightness-temperature table per model at integer frequencies 20-200 GHz for six fixed climatology "
     "profiles, rounded to a few decimals; line cores, far wings, submillimetre lines and extreme states are never reached.",
     [ABS, LS + "h2ll.py".replace("h2ll", "h2oll"), UT],
     [("line sum with per-model branches", ABS + ": H2OAbsModel.h2o_absorption"),
      ("continuum variants", ABS + ": H2OAbsModel.h2o_continuum, h2o_continuum_mwl24"),
      ("line-list columns", LS + "h2oll.py"), ("complex error function", UT + ": _dcerror")],
     ["return value of the water-vapour absorption call, converted to Np/km"],
     TRUST + "tolerance 1e-9 of the summed term magnitude plus the rounding condition of narrow lines.")

prop("C02", "Oxygen absorption follows the selected published model",
     "For every supported oxygen model, every atmospheric state and every frequency from 1 to 1000 GHz, the oxygen "
     "absorption (resonant lines with line mixing, second-order mixing where the model has it, and the non-resonant term) "
     "equals that model's published formula evaluated on its own line list. The result is finite, and non-negative for "
     "every model newer than the 1998 one, which is not clipped at zero.",
     ["inputs", "configurations"], "all 12 models x (pressure, temperature, vapour pressure, frequency)",
     "Tests see oxygen only through rounded brightness temperatures on a 1 GHz grid; single lines, the 118 GHz core, "
     "submillimetre lines, high-altitude pressures and the clipping branch are not sampled.",
     [ABS, LS + "o2ll.py", UT],
     [("line sum with per-model branches", ABS + ": O2AbsModel.o2_absorption"), ("line list", LS + "o2ll.py")],
     ["return value of the oxygen absorption call, converted to Np/km"],
     TRUST + "tolerance 1e-9 of the summed term magnitude plus the rounding condition of narrow lines.")

prop("C03", "Nitrogen, ozone and cloud absorption follow the published formulas",
     "For every supported model name and every state and frequency, nitrogen collision-induced absorption, ozone line "
     "absorption (lines within 1 GHz, Voigt or approximate width as the model prescribes) and cloud liquid-water and ice "
     "absorption equal the published formulas. They scale with the square of dry-air pressure, linearly with ozone "
     "number density and linearly with cloud water content respectively, and vanish when the absorber is absent. "
     "A model name for which no nitrogen or cloud-liquid formula exists is rejected with an error, never silently computed.",
     ["inputs", "configurations"], "all model names x (state, absorber amount, frequency)",
     "Tests exercise one ozone case and two cloud cases; no test varies pressure, density or distance from a line.",
     [ABS, RTE, UT, LS + "o3ll.py"],
     [("nitrogen", ABS + ": N2AbsModel"), ("ozone", ABS + ": O3AbsModel.o3_absorption"),
      ("liquid", ABS + ": LiqAbsModel.liquid_water_absorption"), ("ice", RTE + ": cloudy_absorption"),
      ("permittivity", UT + ": dilec12")],
     ["return values of the absorption calls"], TRUST + "ozone Voigt profile also compared with scipy's Faddeeva function.")

prop("C04", "Clear-sky absorption separates by constituent and by level",
     "For any profile, the wet absorption profile is the water-vapour absorption alone and the dry profile is the sum of "
     "oxygen, nitrogen and, only when an ozone profile is supplied and an ozone model selected, ozone. Each level's value "
     "depends only on that level's pressure, temperature, vapour pressure and ozone, so the profile computed at once equals "
     "the levels computed one by one, in any order. Without vapour the wet profile is zero everywhere, and all profiles "
     "are finite.",
     ["inputs", "configurations"], "all profiles (length, order, content) x model combinations x frequency",
     "Tests only look at the vertically integrated end result for fixed 50-level profiles.",
     [RTE, ABS], [("per-level sum", RTE + ": RTEquation.clearsky_absorption")],
     ["the wet and dry absorption profiles returned"], TRUST + "per-level differential plus metamorphic relations.")

prop("C05", "Model selection is complete, exclusive and history-independent",
     "Every model the library advertises for water vapour, oxygen or ozone can be selected and then computes with exactly "
     "its own coefficients; selecting a name that is not advertised fails with the model error when its line list is "
     "requested. Results depend only on the model currently selected, never on which models were selected or evaluated "
     "before, and selecting a model for one gas does not change another gas.",
     ["histories", "configurations"], "all sequences of selections, evaluations and rejected selections",
     "Tests select each model once, in a fixed order; the selection is process-global mutable state, so only histories "
     "can show leakage.",
     [ABS, UT, LS + "h2oll.py", LS + "o2ll.py", LS + "o3ll.py"],
     [("registry", ABS + ": AbsModel.implemented_models"), ("line-list loading", ABS + ": set_ll; " + UT + ": import_lineshape")],
     ["absorption values after each selection", "the advertised model lists"],
     TRUST + "random operation sequences against a model whose only state is the selected names.",
     [("selected model", "process-wide current model name per gas", ABS),
      ("line list", "process-wide coefficient table per gas", LS)])

prop("C06", "Layer optical depths integrate the profile along the path",
     "Integrating a non-negative profile over a path gives, for each layer, the path length times the mean of a quantity "
     "decaying exponentially between the two levels (arithmetic mean or zero, as requested, when one of them is zero), and "
     "the total is the sum over the requested layers times the given factor. Each layer mean lies between its two level "
     "values, integrals are non-negative and scale linearly with the profile and with the path. A negative value stops "
     "the integration with a warning, and what was accumulated before it is returned.",
     ["inputs"], "all profiles, path-length vectors, level ranges and factors",
     "No test calls the integration directly or varies its zero handling.",
     [RTE], [("exponential layer integration", RTE + ": RTEquation.exponential_integration")],
     ["returned total and per-layer integrals"], TRUST + "exact reference on generated profiles incl. zeros, equal and tiny values.")

prop("C07", "Brightness temperatures solve the radiative transfer equation",
     "For any temperature profile and layer optical depths, the up- and down-welling radiances, their cumulative profiles, "
     "the background term and the mean radiating temperature are those of the discretised radiative transfer equation "
     "(cosmic background from the ground, emitting surface from a satellite). An isothermal atmosphere over a black surface "
     "is seen at exactly its temperature from a satellite, brightness temperatures never leave the range spanned by the "
     "sources, an opaque atmosphere hides the background, and a transparent one shows it. Conversion between temperature "
     "and modified Planck radiance is an exact inverse pair.",
     ["inputs", "configurations"], "all temperature profiles, layer optical depths 0..300, frequencies, both viewing modes, emissivities 0..1",
     "Tests compare tabulated totals for realistic profiles only; no test checks opaque, transparent or isothermal limits.",
     [RTE, UT], [("recursion", RTE + ": RTEquation.planck"), ("inverse", RTE + ": RTEquation.bright; " + UT + ": tk2b_mod")],
     ["radiances and temperatures returned"], TRUST + "differential plus physical bounds.",
     [("viewing mode, emissivity", "process-wide switches set by a simulation", RTE)])

prop("C08", "Slant paths follow refracted spherical geometry",
     "For every elevation angle from 5 to 90 degrees and every refractive profile without ducting, the slant path length of "
     "each layer equals the refracted ray's length through that spherical shell; within one degree of the zenith it is the "
     "layer thickness. Paths are never shorter than the layer, never longer than the flat-earth secant path, "
     "and grow as the elevation decreases. An index below one is refused with a warning and no path.",
     ["inputs"], "all height profiles, refractive profiles, observer heights and elevations",
     "Tests use ray tracing only at zenith, where no refraction is computed.",
     [RTE], [("ray tracing", RTE + ": RTEquation.ray_tracing")], ["the per-layer path lengths"],
     TRUST + "compared with own implementation of the algorithm and with direct quadrature of Snell's law.")

prop("C09", "Vapour, refractivity and integrated columns are consistent",
     "For every profile the vapour pressure and density, the dry and wet refractivity and the refractive index equal the "
     "reference formulas (saturation over water, ideal gas, compressibility-corrected refractivity), level by level. "
     "The column amounts reported with a simulation are the path integrals of these profiles in centimetres for each "
     "elevation angle.",
     ["inputs"], "all profiles and elevation angles",
     "The reported column amounts are checked by no test; vapour and refractivity only indirectly.",
     [RTE, TB], [("vapour", RTE + ": RTEquation.vapor"), ("refractivity", RTE + ": RTEquation.refractivity"),
                 ("columns", TB + ": TbCloudRTE.execute")],
     ["returned profiles; column entries of the detailed simulation output"], TRUST + "differential.")

prop("C10", "A simulation equals the reference forward model end to end",
     "For any valid profile, channel set, elevation angles, viewing mode, surface emissivity, ozone profile and model "
     "selection, every reported quantity (total, atmospheric and mean radiating temperature, wet and dry optical depths, "
     "per-layer optical depths, per-level absorption, angle labels) equals the reference forward model. Reported optical "
     "depths are the sums of the reported layers, and rows are ordered by angle, then by channel.",
     ["inputs", "configurations"], "all combinations of profile, channels, angles, geometry, mode, emissivity and models",
     "Tests fix zenith view, unit emissivity, 50-level profiles and one channel grid, and never read the detailed output.",
     [TB, RTE, ABS], [("driver", TB + ": TbCloudRTE.execute")], ["result table and detailed output"],
     TRUST + "whole-chain differential.")

prop("C11", "Channels and angles are simulated independently",
     "The result for one channel and one elevation angle does not depend on which other channels and angles are simulated "
     "with it: a batch equals the single simulations, and permuting or repeating channels, emissivities or angles permutes "
     "or repeats the rows. This holds for clear and cloudy simulations, in both viewing modes, and with or without ray tracing.",
     ["inputs", "configurations"], "all channel/angle sets, their subsets and permutations",
     "Tests always run one channel grid and one angle.",
     [TB, RTE], [("per-channel loop", TB + ": TbCloudRTE.execute")], ["result rows"],
     "Metamorphic (batch against singles, permutations); no numeric reference needed.")

prop("C12", "Simulations are repeatable and leave their inputs untouched",
     "Running a simulation never modifies the arrays or parameter sets the caller passed in, and running the same "
     "simulation again gives bit-identical results whatever happened in between: other simulations, other models, other "
     "viewing modes, perturbed parameters, rejected calls. Results already returned do not change afterwards when "
     "simulations are built or run. The values alone decide: arrays that the caller fills with new values between two "
     "simulations or calls, or drops and allocates again, give the result for the values they hold at that time.",
     ["histories"], "all interleavings of building, configuring and running several simulations in one process",
     "Each test builds a fresh object, runs it once and never looks at its inputs again; process-global state makes "
     "interleavings the only way to see leakage.",
     [TB, RTE, ABS, UT], [("state set at run time", TB + ": TbCloudRTE.execute, _init_linelist")],
     ["result tables, input arrays"], "Stateful generated histories of up to 12 steps on up to three live simulations.",
     [("viewing mode, emissivity, models, line lists", "process-wide state", RTE + ", " + ABS)])

prop("C13", "Profile orientation and invalid input are handled",
     "A profile given top-down gives the same result as the same profile given bottom-up, including its ozone, "
     "and a height profile that is neither strictly increasing nor strictly decreasing is refused before anything is "
     "computed. Invalid viewing-mode, emissivity, model-name and frequency-array settings are refused and leave the "
     "previous setting in force.",
     ["inputs", "histories"], "all profiles, their reversals and corruptions; all invalid settings",
     "Tests only pass well-formed ascending profiles and valid settings.",
     [TB, ABS, "pyrtlib/weighting_functions.py"], [("orientation check", TB + ": TbCloudRTE.__init__"), ("setters", TB)],
     ["result table or error"], "Metamorphic relation (reversal) and explicit rejection oracle.")

prop("C14", "Cloud layers contribute exactly their own absorption",
     "For every cloud layer set on profile levels, liquid and ice optical depths, integrated cloud liquid and ice, and the "
     "cloud radiating temperature equal the reference, and the layer optical depth is the sum of gas, liquid and ice. "
     "A cloud with no water gives the clear-sky result, and optical depth grows when water is added. "
     "A cloud set up on a simulation that was not switched to cloudy is ignored with a warning.",
     ["inputs", "configurations"], "all cloud base/top levels, liquid and ice density profiles, models, modes",
     "Two tests use one cloud configuration each and check only the total.",
     [TB, RTE, ABS], [("cloud set-up", TB + ": TbCloudRTE.init_cloudy"),
                      ("cloud terms", RTE + ": cloudy_absorption, cloud_integrated_density, cloud_radiating_temperature")],
     ["cloud columns of the result table and detailed output"], TRUST + "differential plus metamorphic relations.")

prop("C15", "Humidity conversions are exact and mutually inverse",
     "For every pressure, temperature and humidity, the conversions between mixing ratio, vapour pressure, vapour density, "
     "relative humidity (both definitions) and dew point equal their defining formulas, and each forward/backward pair "
     "returns the original value. All of them are increasing in the humidity argument, map zero to zero, "
     "and treat arrays element by element.",
     ["inputs"], "all tropospheric and stratospheric states, scalars and arrays",
     "Tests check single literal values of each conversion.",
     [UT], [("conversions", UT + ": mr2rh, mr2rho, mr2e, e2mr, rho2mr, rho2rh, satmix, dewpoint2rh")],
     ["returned values"], TRUST + "round trips and differential.")

prop("C16", "Saturation vapour pressure and its ice/water switch",
     "Saturation vapour pressure over water and over ice equals the Goff-Gratch formulation for every temperature from "
     "160 to 370 K, increases with temperature, and ice is below water under the triple point. With a switch temperature, "
     "levels at or below it, and only those, use the ice formula, in every quantity that accepts the switch; "
     "the caller's temperatures are not modified.",
     ["inputs"], "all temperature arrays and switch temperatures (below, inside and above the range)",
     "Tests check single temperatures and one switch value.",
     [UT, RTE], [("Goff-Gratch", UT + ": eswat_goffgratch, esice_goffgratch, satvap, satmix, mr2rh")],
     ["returned values"], TRUST + "differential and monotonicity.")

prop("C17", "Height, pressure, thickness and virtual temperature are consistent",
     "Pressure-to-height and height-to-pressure in the standard atmosphere are inverse of each other and monotonic. Layer "
     "thickness from pressure, temperature and optional humidity equals the hypsometric integral accumulated from the first "
     "level, in kilometres, is additive over sub-ranges, and uses the virtual temperature when humidity is given, "
     "which is never below the temperature.",
     ["inputs"], "all pressures, heights and profiles",
     "Tests check one value of each function.",
     [UT], [("formulas", UT + ": pressure_to_height, height_to_pressure, atmospheric_tickness, virtual_temperature")],
     ["returned values"], TRUST + "differential, inverse and additivity.")

prop("C18", "Gas masses, concentration and unit conversions are correct for every gas",
     "For every gas identifier the molecular mass is that of its chemical formula, and mixing-ratio conversions to mass "
     "ratio and number density follow from it and the ideal gas law, linearly in the amount and element by element. "
     "The density of moist air follows the ideal gas law with the humidity-dependent gas constant. "
     "Celsius and Kelvin conversions are mutual inverses 273.15 apart. Named physical constants have their documented values and unknown names are refused.",
     ["inputs"], "all gas identifiers, amounts, pressures, temperatures",
     "Tests check two gases and one constant.",
     [UT], [("tables and formulas", UT + ": gas_mass, ppmv2gkg, ppmv_to_moleculesm3, kgkg_to_kgm3, constants")],
     ["returned values"], TRUST + "exhaustive over gases, generated over amounts.")

prop("C19", "Instrument channel lists are the instruments' channels",
     "For every instrument name, in any letter case, the channel list has exactly the documented centre frequencies and "
     "side bands; every side-band channel appears in pairs symmetric about its centre frequency. Unknown names are refused, "
     "and changing a returned list does not change later answers.",
     ["inputs", "histories"], "all instrument names in all spellings, repeated calls",
     "Tests compare one instrument, once.",
     [UT], [("tables", UT + ": get_frequencies, get_frequencies_sat")], ["returned lists"],
     "Exhaustive over names, generated spellings and mutation histories; tables transcribed independently.")

prop("C20", "Climatology profiles are addressed correctly",
     "For each of the six climatologies the returned height, pressure, density and temperature profiles and the gas "
     "concentrations addressed by gas identifier are those of the tabulated atmosphere: heights increase, pressures decrease "
     "hydrostatically consistent with temperature and density, and each gas, minor or trace, is found under its own "
     "identifier while an identifier the table does not hold is refused. Changing a returned array does not change what later calls return.",
     ["inputs", "histories"], "all climatologies, gases, levels, and mutation histories",
     "Tests use the profiles as input data and never check gas addressing.",
     ["pyrtlib/climatology/atmospheric_profiles.py"],
     [("tables", "pyrtlib/climatology/atmospheric_profiles.py: gl_atm, gl_atm_minor, gl_atm_trace")],
     ["returned arrays"], "Exhaustive over tables with physical cross-checks (ideal gas, hydrostatic) and pinned digests of the tables.")

EX = "pyrtlib/climatology/extrapolation.py"
prop("C21", "Reference atmospheres follow the ITU-R P.835 formulas",
     "For every latitude, height from 0 to 100 km and season, temperature, pressure and water-vapour density equal the "
     "ITU-R P.835 reference formulas of the latitude band (low, mid summer/winter, high summer/winter) and of the "
     "global mean atmosphere. Pressure is positive and decreasing with height, vapour density non-negative, "
     "the hemisphere's sign of latitude is irrelevant to the band, and heights are treated element by element.",
     ["inputs"], "all latitudes, seasons and height grids",
     "Tests evaluate a few heights in some of the bands.",
     [EX], [("piecewise formulas", EX + ": ProfileExtrapolation.temperature, pressure, water_vapour_density, standard_*")],
     ["returned profiles"], TRUST + "own transcription of the recommendation.")

prop("C22", "Extending a measured profile keeps the measurement",
     "Extending a measured profile to the top of the atmosphere keeps every measured level unchanged at the front, appends "
     "only levels of the reference atmosphere for that latitude and month that lie above the measurement (southern latitudes "
     "follow the northern seasons half a year later), "
     "in the same units, with height strictly increasing. A profile that already reaches the top is returned unchanged. "
     "The result depends only on the arguments, not on earlier uses of the same object, and the arguments are not modified.",
     ["inputs", "histories"], "all measured profiles, latitudes, months, and sequences of calls on one object",
     "One test extends one profile once and checks only shapes and a few values.",
     [EX], [("extension", EX + ": ProfileExtrapolation.profile_extrapolation")], ["returned profiles"],
     TRUST + "generated call histories.")

WF = "pyrtlib/weighting_functions.py"
prop("C23", "Weighting functions are local absorption times transmittance to the observer",
     "For any profile, grid step, channel set, angle and viewing mode, the profile is interpolated linearly to the regular grid "
     "and the weighting function at each level is the total absorption there times the transmittance accumulated over the "
     "layers towards the observer, the layer on the far side of the level included. It is non-negative and never exceeds the local absorption, is independent per channel, "
     "and band-averaged plots show the mean over each channel's sub-bands, normalized plots that scaled to a maximum of one, and each curve is labelled with its frequency and the height of its peak. "
     "Computing or plotting does not change settings or inputs, so repeating gives the same result.",
     ["inputs", "histories"], "all profiles, grid steps, channels, bandpass groupings, modes and call sequences",
     "Tests compute a handful of cases and compare stored numbers for a single configuration.",
     [WF], [("computation", WF + ": WeightingFunctions.generate_wf"), ("band mean", WF + ": _mean_channel, plot_wf")],
     ["returned matrix, plotted curves"], TRUST + "reference built on the verified forward model.")

UN = "pyrtlib/uncertainty/absmod_uncertainty.py"
prop("C24", "Spectroscopic perturbations act as if the line list had those values",
     "A simulation run with the unperturbed parameter set (continuum scaling factors at one) equals the run without any, "
     "for every model the parameter set supports, and a run with some parameters changed equals the forward model evaluated on a line list with exactly those "
     "values changed. The supplied parameter set is not modified, and a later run without it is "
     "unaffected.",
     ["inputs", "histories", "configurations"], "all supported models, parameters, indices, perturbation sizes and run orders",
     "Tests perturb one or two parameters of one model.",
     [UN, ABS, TB], [("injection", ABS + ": amu blocks of the absorption models"), ("parameter sets", UN + ": water_parameters, oxygen_parameters, ozono_parameters")],
     ["brightness temperatures and absorption"], TRUST + "differential on a modified line list.")

prop("C25", "A perturbation changes exactly the requested parameters",
     "Perturbing by plus or minus one uncertainty changes exactly the named parameters, at exactly the requested index (or "
     "as a whole where the value or its uncertainty is a scalar), by exactly their uncertainty, and nothing else; the no-change mode returns equal values. A freshly requested set holds the "
     "model's own coefficients with no uncertainty, except the two published continuum factors of the 2016 and 2017 models (and of models whose continuum has none). The stored "
     "parameter set is never altered, so any sequence of perturbations starts from the same "
     "values. Unknown or unavailable modes are refused.",
     ["inputs", "histories"], "all parameter names, indices, modes, and sequences of calls",
     "Tests perturb a few fixed parameters once.",
     [UN], [("perturbation", UN + ": AbsModUncertainty.parameters_perturbation, SpectroscopicParameter.set_parameters")],
     ["returned parameter dictionaries"], "Model-based: a plain dictionary copy is the oracle.")

prop("C26", "Uncertainty propagation is first-order correct and covariances are valid",
     "For every supported function of two variables the propagated value is the function itself and the propagated standard "
     "deviation is the first-order formula in the derivatives, variances and covariance, element by element; "
     "unsupported functions are refused. The shipped parameter covariance matrices are symmetric, positive semi-definite, "
     "with non-negative variances, and equal to the published ones.",
     ["inputs"], "all values, uncertainties, multipliers and covariances; all shipped matrices",
     "Tests check one number per function.",
     [UN, "pyrtlib/uncertainty/covariance_matrix"], [("formulas", UN + ": AbsModUncertainty.uncertainty_propagation")],
     ["returned pair; matrices"], "Oracle: exact derivatives of the functions; own snapshot of the published matrices. Known finding C26-indefinite.")

IG = "pyrtlib/apiwebservices/igra2.py"
prop("C27", "Radiosonde archive files are decoded faithfully",
     "Every sounding written in the archive's fixed-width format (standard or derived-parameter files) is returned with exactly the "
     "values written, in the documented units, with missing-value codes as missing, headers attached to "
     "the right sounding, and levels without temperature, wind and humidity (dew point) dropped. A date or date range selects exactly the soundings in it, an "
     "empty selection is an error, and the requested product determines the file that is fetched.",
     ["inputs"], "all archives (soundings, levels, values, missing codes) and date selections",
     "The existing tests need the network and are not run; no parsing is tested offline.",
     [IG], [("decoder", IG + ": IGRAUpperAir")], ["returned table and header, the requested address"],
     "Round trip: generated soundings are encoded by an own writer and served by a stand-in for the HTTP layer.")

WY = "pyrtlib/apiwebservices/wyomingupperair.py"
WS = "pyrtlib/apiwebservices/webservices.py"
prop("C28", "Sounding pages are decoded faithfully and HTTP failures surface",
     "Every sounding page is returned with exactly the values (blank ones as missing), units and station metadata it contains, "
     "levels lacking temperature or dew point dropped, and the request carries the asked-for station and time; a region's "
     "station list is returned completely. Options set for HTTP sessions apply to every later request. "
     "A page without data and every non-success HTTP status are reported as errors that name the problem, never as "
     "an empty or partial result.",
     ["inputs", "fault_sequences"], "all pages, stations, times, HTTP statuses",
     "The existing tests need the network and are not run.",
     [WY, WS], [("page decoder", WY + ": WyomingUpperAir"), ("HTTP layer", WS + ": HTTPEndPoint")],
     ["returned table, raised error, requested address"],
     "Round trip through an own page writer and a stand-in HTTP session with injected faults.")

ER = "pyrtlib/apiwebservices/erafive.py"
prop("C29", "Reanalysis profiles come from the nearest grid column in the right order",
     "For every reanalysis file and requested location, the returned profile is the grid column whose latitude and "
     "longitude are nearest to the request, ordered from the ground up, with every variable taken from that same "
     "column, humidity as a fraction and height from the hypsometric equation. The file requested for a location and time "
     "covers that location and time and all the variables read.",
     ["inputs"], "all grids (shape, spacing, orientation), locations and field contents",
     "One test reads one file at one point.",
     [ER, UT], [("column extraction", ER + ": ERA5Reanalysis.read_data, _find_nearest")], ["returned table"],
     "Generated netCDF files with cell-unique contents; the oracle is a brute-force nearest search. Known finding C29-column.")

prop("C30", "A simulation object depends only on its current settings",
     "A simulation object whose settings are changed between runs (viewing mode, emissivity, channels, angles, ray-tracing and "
     "cloudy flags, cloud, ozone profile, parameter set, absorption model) gives exactly the result of an object freshly built "
     "with the settings then in force, in any order of changes and runs, and results it returned earlier stay as they were.",
     ["histories"], "all sequences of setting changes and runs on one object",
     "Tests build an object, set it once and run it once; what a run leaves behind only shows in a second run.",
     [TB], [("settings and run", TB + ": TbCloudRTE")], ["result tables and profiles"],
     "Stateful generated histories; the reference is a fresh object, whose result C10 and C14 decide.",
     [("output arrays of the object", "carried from run to run", TB + ": TbCloudRTE.execute")])

prop("C31", "Results do not depend on how the numbers are stored",
     "Every function, simulation, weighting function and profile extension gives the same result whether its array arguments are "
     "contiguous floating-point arrays or the same numbers held as integers, in another byte order, as strided or reversed views, "
     "as a column of a two-dimensional array, or read-only.",
     ["inputs"], "all inputs in every storage form",
     "Tests pass contiguous floating-point arrays.",
     [TB, RTE, UT, ABS], [("array handling", TB + ", " + RTE + ", " + UT)], ["returned values"],
     "Metamorphic: the plain call is the reference, other checks decide its value.")

prop("C32", "Doubtful input is announced and sound input is not",
     "A simulation warns when it is set up with fewer than 25 levels or with a profile whose lowest pressure is 10 hPa or more, and only "
     "then; a run warns exactly when it needs cloud absorption from the 1998 or 2003 model; giving cloud densities to a "
     "simulation whose cloudy flag is off warns and changes nothing. A trapped (ducted) ray is announced and its path is zero from "
     "the trapping layer on; an index below one is announced and no path is returned. A cloud "
     "behind more than 125 Np has no radiating temperature, which is announced.",
     ["inputs", "configurations"], "all level counts, top pressures, cloud models and flags, grazing rays, opaque layers",
     "Tests never look at warnings, and use profiles far from each border.",
     [TB, RTE], [("set-up and run warnings", TB + ": TbCloudRTE.__init__, init_cloudy, execute"),
                 ("refused rays and clouds", RTE + ": ray_tracing, cloud_radiating_temperature")],
     ["Python warnings raised; returned paths and temperatures"],
     "Own border conditions; any warning text is accepted, numpy and deprecation warnings are not counted.")

prop("C33", "Archived observations simulate as the same atmosphere given directly",
     "For every sounding page, radiosonde archive and reanalysis file, the documented workflow - fetch or open the file, select the "
     "sounding or grid column, drop incomplete levels, convert units, possibly extend the profile with climatology, set the "
     "cloud from the water contents, simulate - gives the brightness temperatures and optical depths of exactly the atmosphere "
     "written in the file, for every absorption model, viewing mode, angle and emissivity.",
     ["inputs", "configurations"], "all profiles in all three formats, with all simulation settings",
     "Tests decode fixed files and simulate fixed profiles, never the one from the other with an independent result.",
     ["pyrtlib/apiwebservices/", TB, UT], [("from files to profiles", "pyrtlib/apiwebservices/wyomingupperair.py, igra2.py, erafive.py"),
                                          ("from profiles to brightness temperatures", TB + ": TbCloudRTE.execute"),
                                          ("unit conversions and extension", UT + ", pyrtlib/climatology/extrapolation.py: ProfileExtrapolation")],
     ["result tables of the simulation"],
     "End to end: own encoders of the three formats, own forward model. Kelvin conversion is done by the check (known finding C18-kelvin).")

NOT_APPLICABLE = []


def main():
    with open(os.path.join(H, 'properties.jsonl'), 'w') as fh:
        for p, _ in P:
            assert len(p['title']) <= 80, p['id']
            fh.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks = []
    for p, note in P:
        if not os.path.exists(os.path.join(H, 'pbt', 'checks', p['id'].lower() + '.py')):
            continue
        checks.append({"property": p['id'], "quick_cmd": "./check %s --tier quick" % p['id'],
                       "thorough_cmd": "./check %s --tier thorough" % p['id'],
                       "evidence_file": "evidence/%s.json" % p['id'],
                       "technique": "property-based testing (Hypothesis generation and shrinking, explicit oracle)",
                       "level": "exploration", "level_note": note})
    done = {c['property'] for c in checks}
    na = NOT_APPLICABLE + [{"property": p['id'], "reason": "check not built yet"} for p, _ in P if p['id'] not in done]
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Tier from VERIF_TIER, seed from VERIF_SEED. Replay a violation: ./check <ID> --replay <file>. "
                  "No hooks are needed in /repo."}
    with open(os.path.join(H, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1, ensure_ascii=False)
        fh.write('\n')


main()
