"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          **({"state": state} if state else {}),
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {}),
                          "hook_needed": None}})
G = "cosipy/cpkernel/grid.py"; N = "cosipy/cpkernel/node.py"
prop("C01", "Merging two neighbouring layers conserves mass, water, heat and geometry",
 "Merging layer k with the layer below it leaves one layer fewer; the merged layer's thickness is the sum of the two thicknesses, and its ice, its liquid water and its thickness-weighted temperature equal the sums of the two originals. Every other layer keeps its thickness, temperature, ice fraction and liquid water content and the order of layers is preserved, and the fresh-snow bookkeeping is untouched. The same holds for converting a snow layer into the ice below it: total domain loses one layer, the ice layer grows by the snow layer's mass expressed at ice density, and keeps its own temperature and ice fraction.",
 ["inputs"], "every layer profile (any number of layers >= 2, positive thicknesses, fractions in [0,1]) and every valid layer index",
 "The tests merge one or two hand-built profiles at fixed indices; conservation and the frame quantify over all profiles, all indices and all other layers.",
 [G, N], [("merge_nodes", G), ("merge_snow_with_glacier", G), ("update_node / remove_node", G)], ["layer profiles before and after the call"])
prop("C02", "Resizing a layer to a target thickness conserves mass and hits the target",
 "Adjusting a layer to a positive target thickness conserves the total thickness, ice, liquid water and thickness-weighted temperature of the column. Layers above the adjusted one keep their state, snow is never merged with ice, and afterwards the adjusted layer is no thicker than the target, and thinner than it only if there is no further layer of the same kind directly below to merge with. When the layer is cut, the part below holds the remaining thickness with the same temperature and ice fraction, and the upper part keeps at most the water its own retention capacity allows for the whole uncut layer, the rest going below.",
 ["inputs"], "every valid layer profile, layer index and positive target thickness",
 "Tests call it on one profile with one target; the merge loop length and the water split depend on arbitrary profiles.",
 [G, N], [("correct_layer", G), ("merge_nodes", G)], ["layer profiles before and after the call"])
prop("C03", "Remeshing never creates mass or heat and keeps the column well formed",
 "Remeshing the column (either remeshing method) never increases the column's total thickness, ice or liquid water; with the logarithmic method these totals and the thickness-weighted temperature are exactly conserved, except that a top layer thinner than the minimum layer height is discarded whole. After remeshing every layer still has positive thickness, the layer count equals the number of layers, and no layer's temperature or ice fraction lies outside the range spanned by the column before. The fresh-snow bookkeeping is not changed by remeshing.",
 ["inputs", "configurations"], "every valid column with two ice layers at the bottom that together are at least as thick as the first layer, and a total height of at least the first-layer height plus the stretching factor times the snow height; both remeshing methods, any positive layer heights with the first-layer height not below the minimum layer height, any stretching factor of at least 1 and any merging thresholds",
 "Tests run remeshing on one small fixture; the loops' interplay of merge, split and removal depends on arbitrary column histories.",
 [G], [("update_grid", G), ("log_profile", G), ("adaptive_profile", G), ("correct_layer", G), ("merge_nodes", G), ("remove_node", G)])
prop("C04", "Melt removes exactly the requested mass from the top of the column",
 "Removing an amount of melt (m w.e.) lowers the column's mass by exactly that amount, or by the whole column's mass if less is available, and a non-positive amount changes no layer. Layers are consumed from the surface downwards: layers below the last affected one are unchanged, the partially melted layer keeps its temperature, ice fraction and liquid water content, and all remaining thicknesses stay positive. The returned amount is exactly the liquid water that was stored in the layers removed completely.",
 ["inputs"], "every valid column and every melt amount from negative to more than the whole column",
 "Tests remove a fixed melt from one profile; the number of layers consumed is unbounded.",
 [G, N], [("remove_melt_weq", G), ("remove_node", G)], ["layer profiles, returned water"])
prop("C05", "Percolation conserves water and leaves no layer above its retention capacity",
 "Percolation conserves liquid water: the water stored in the column before plus the water supplied at the surface equals the water stored afterwards plus the returned runoff. Afterwards every layer except the deepest one holds at most its irreducible water content, the deepest holds none, no layer is drained below the smaller of its own water and its retention capacity (the deepest excepted), no layer's water content is negative and the runoff is never negative. Thickness, temperature, ice fraction and number of layers are unchanged.",
 ["inputs"], "every valid column with any number of layers >= 1 and every non-negative surface water input",
 "Tests percolate through one fixture and check one sum; the balance and the retention bound quantify over every profile and every layer.",
 ["cosipy/modules/percolation.py", G, N], [("percolation", "cosipy/modules/percolation.py"), ("get_runoff", "cosipy/modules/percolation.py"), ("irreducible water content", N)])
prop("C06", "Refreezing conserves mass, never overheats a layer and reports what froze",
 "In every layer, refreezing turns liquid water into ice mass-for-mass: the gain in ice mass equals the loss of liquid water mass, thicknesses do not change and the returned total equals the column's loss of liquid water (m w.e.), also recorded per layer. Water only freezes in layers at or below the melting temperature; no layer gains water, loses ice, cools, or is warmed above the melting temperature, and the warming equals the latent heat released divided by the layer's heat capacity. The density limit is respected: a layer gains no ice beyond the pore close-off ice fraction.",
 ["inputs"], "every valid column (temperatures of at least 150 K, water and ice fractions that sum to at most one)",
 "Tests refreeze a few uniform profiles; the four competing limits give different binding constraints per layer state.",
 ["cosipy/modules/refreezing.py", G, N], [("refreezing", "cosipy/modules/refreezing.py"), ("check_oob", "cosipy/modules/refreezing.py")])
prop("C07", "Penetrating radiation respects melting point, energy and mass",
 "Absorption of penetrating radiation never cools a layer and leaves every layer it heats to melting exactly at the melting temperature, with the excess energy converted to meltwater that stays in that layer; ice mass lost equals water mass gained there (for layers that remain), and only layers that melt entirely are removed. The penetrating flux is 10 % of the net shortwave for a snow surface and 20 % for an ice surface, and the heat absorbed by the layers never exceeds it. The reported subsurface melt is the amount of ice (m w.e.) that was melted, non-negative, and zero when nothing reaches melting; the deepest layer is untouched.",
 ["inputs"], "every valid column at or below the melting temperature and every positive net shortwave flux and time step",
 "Tests check return types and a sample profile; per-layer energy/mass conversion depends on every profile and flux.",
 ["cosipy/modules/penetratingRadiation.py", G, N], [("method_Bintanja", "cosipy/modules/penetratingRadiation.py"), ("get_depth", G)])
prop("C08", "Heat conduction never creates new temperature extremes",
 "Solving the heat equation for one time step keeps every layer temperature within the range of the column's temperatures before the step. The temperatures of the top and bottom layers, and all thicknesses, ice fractions and water contents are unchanged; a column of uniform temperature stays uniform, and the internal sub-steps add up to exactly the requested time step. In a column of identical layers a linear temperature profile is left unchanged.",
 ["inputs"], "every valid column of at least three layers with arbitrary positive thicknesses and diffusivities, and every positive time step",
 "Tests compare one profile with stored numbers; stability must hold for every combination of thin layers, diffusivities and step lengths.",
 ["cosipy/modules/heatEquation.py", G, N], [("solveHeatEquation", "cosipy/modules/heatEquation.py"), ("stability limit", "cosipy/modules/heatEquation.py")])
prop("C09", "Compaction never thickens, loosens or heats a layer, on any slope",
 "Densification only compacts: no layer becomes thicker and no layer's ice fraction decreases, for every densification method and every terrain slope from 0 to under 90 degrees; the constant method changes nothing. Ice layers (density at or above the snow-ice threshold), layer temperatures, the number of layers and the layer order are unchanged. For the overburden methods a snow layer at or below the minimum layer height is unchanged, and a deeper, otherwise identical snow layer never compacts less than the one above it.",
 ["inputs", "configurations"], "every valid snow-on-ice column, slope in [0,90) degrees, every densification method and every time step whose relative height change stays below one",
 "Tests use one column, slope 0 and compare to loose numbers; the direction of change must hold for all states and slopes.",
 ["cosipy/modules/densification.py", G], [("densification", "cosipy/modules/densification.py"), ("method_Boone / method_Vionnet / method_empirical", "cosipy/modules/densification.py")])
prop("C10", "Albedo stays within the configured bounds and decays with age",
 "The surface albedo always lies between the smallest and largest of the configured ice, firn and fresh-snow albedos; it equals the ice albedo whenever the surface layer is ice. For a snow surface the ageing scheme gives the fresh-snow albedo at zero age and infinite depth, decays exponentially with the configured age and depth scales, never increases with snow age and moves towards the ice albedo as the snow gets thinner; the temperature-dependent scheme moves from its previous value towards the firn albedo and is reset by a snowfall. When the fresh snow has vanished within the ageing time scale, the snow age reverts to that of the underlying snow and otherwise the fresh-snow bookkeeping is not changed.",
 ["inputs", "configurations"], "every column, snow age, surface temperature, previous snow albedo within bounds, both albedo schemes and any configuration with ice <= firn <= fresh albedo and decay times of at least one time step",
 "Tests evaluate a few ages and depths; bounds and monotonicity quantify over all of them.",
 ["cosipy/modules/albedo.py", G], [("updateAlbedo", "cosipy/modules/albedo.py"), ("get_simple_albedo / get_albedo_with_decay", "cosipy/modules/albedo.py"), ("get_surface_properties", "cosipy/modules/albedo.py")])
prop("C11", "Roughness length grows with snow age between its configured limits",
 "For a snow surface the roughness length starts at the fresh-snow value, grows linearly with the time since the last snowfall and is capped at the firn value; for an ice surface it is the configured ice value. The result is in metres (configured millimetres divided by 1000), and computing it does not modify the column.",
 ["inputs", "configurations"], "every column state, every non-negative snow age and every positive roughness configuration",
 "Tests sample a few ages; the cap and linearity hold for all.",
 ["cosipy/modules/roughness.py"], [("updateRoughness / method_Moelg", "cosipy/modules/roughness.py")])
S = "cosipy/modules/surfaceTemperature.py"
prop("C12", "Surface energy fluxes have the right sign, zero points and driving gradients",
 "Outgoing longwave radiation is minus emissivity times Stefan-Boltzmann times surface temperature to the fourth, incoming longwave is the measured value when given (otherwise derived from cloud cover and humidity), and the rain heat flux is the rain's heat content relative to the surface. With bulk-Richardson correction the sensible (latent) heat flux has the sign of the air-minus-surface temperature (humidity) difference, is zero without wind or gradient, is proportional to the cosine of the slope, and both vanish for Richardson numbers above 0.2. The ground heat flux vanishes for an isothermal profile and is directed towards the surface when the subsurface is warmer, computing fluxes never modifies the column, and sublimation latent heat is used below melting and vaporisation latent heat at melting.",
 ["inputs", "configurations"], "every surface temperature and air temperature between 150 and 400 K, meteorological forcing with pressure above the vapour pressure, slope in [0,90) degrees and surface layer",
 "Tests evaluate single points; signs and zero points must hold over the whole forcing space.",
 [S, N], [("eb_fluxes", S), ("get_sensible_heat_flux / get_latent_heat_flux", S), ("method_EW_Sonntag", S)])
prop("C13", "The solved surface temperature is physical and consistent with its fluxes",
 "Solving the surface energy balance returns a surface temperature that is never above the melting temperature and never below the lower bound of 220 K, and stores exactly that temperature in the top layer; apart from the top layer's temperature the column is unchanged. The returned fluxes are those evaluated at the returned temperature with the given forcing, whichever longwave input (measured or cloud fraction) is used. The quantity driven to zero is the sum of the net shortwave and the six reported fluxes at the trial temperature; where a bounded minimiser is used, the magnitude of that sum is minimised.",
 ["inputs", "configurations"], "every column, forcing combination, solver method and longwave input option",
 "Tests check a handful of forcings; clamping and flux consistency must hold for whatever the root finder returns.",
 [S, "cosipy/modules/secant.py"], [("update_surface_temperature", S), ("check_residual_clip / call_secant_jitted", S), ("secant", "cosipy/modules/secant.py")])
prop("C14", "Subsurface temperatures are interpolated between the bracketing layers",
 "The subsurface temperature at a given depth is the linear interpolation (in cumulative depth) between two adjacent layers that bracket the depth whenever the depth lies within the range of the layers' cumulative depths; it then lies between the temperatures of these two layers and equals a layer's temperature when the depth coincides with that layer's cumulative depth. Computing it does not modify the column.",
 ["inputs"], "every column with at least two layers and every depth between the first and last cumulative layer depth",
 "Tests interpolate in one profile; bracket selection depends on the layering.",
 [S], [("get_subsurface_temperature / interp_subT", S)])
CORE = "cosipy/cpkernel/cosipy_core.py"
prop("C15", "Every time step's reported mass and energy terms add up",
 "At every time step the reported mass balance is surface plus internal mass balance, the surface mass balance is snowfall - surface melt + sublimation + deposition + evaporation, and the internal one is refreezing - subsurface melt; surface melt is the reported melt energy times the time step over the latent heat of melting, and the melt energy is the positive part of the sum of net shortwave left after penetration and all reported fluxes. Reported sublimation and evaporation are never positive, deposition and condensation never negative, at most one of the four is non-zero and it equals the latent heat flux divided by the matching latent heat (sublimation below melting, vaporisation at melting). Snowfall plus rain equals the supplied precipitation except for amounts below the minimum snowfall threshold, which are set to zero, and neither is ever negative. The surface energy balance is solved with the step's own forcing, melt less sublimation and deposition is what is removed from the column, and melt, condensation, rain and the water of removed layers all percolate.",
 ["inputs", "histories"], "every forcing series (any length), every column state at every time step, all precipitation and longwave input combinations",
 "Tests run a few steps and check types; the identities must hold at each step of every run.",
 [CORE], [("cosipy_core time loop", CORE)], ["the result arrays of one grid point"])
IOF = "cosipy/cpkernel/io.py"
prop("C16", "Each output variable receives its own result at its own grid cell",
 "Every output variable written for a simulated grid cell contains exactly the series the model computed for that quantity at that cell, for every selection of output variables; cells that were not simulated stay missing and storing one cell never changes another. Only glacier cells (mask 1) are simulated, each once and with its own forcing (and restart state), and the final arrays do not depend on the order in which workers finish.",
 ["inputs", "schedules", "configurations"], "every grid size, mask, completion order of workers and selection of output variables",
 "Tests copy constant arrays for one cell; a swapped position in the long positional interface or an order dependence is invisible to them.",
 ["COSIPY.py", IOF, CORE], [("run_cosipy", "COSIPY.py"), ("copy_local_to_global / copy_local_restart_to_global", IOF), ("write_results_to_file / write_restart_to_file", IOF), ("return tuple of cosipy_core", CORE)])
prop("C17", "A restart reproduces the saved column exactly",
 "The restart state saved for a grid cell describes the column at the end of the run: number of layers, every layer's thickness, density, temperature, liquid water content and ice fraction, and the fresh-snow height and ages. Loading it yields a column with the same number of layers and for each layer the same thickness, temperature, liquid water content and ice fraction, and the same fresh-snow height and ages, so the run continues from the same column.",
 ["inputs", "histories", "crash_points"], "every column reachable at the end of a run, any number of layers up to the configured maximum",
 "Tests load one synthetic restart namespace; field-by-field identity must hold for every column and through the file variable names.",
 ["cosipy/cpkernel/init.py", IOF, CORE, G], [("load_snowpack / create_grid_jitted", "cosipy/cpkernel/init.py"), ("create_local_restart_dataset / copy_local_restart_to_global / write_restart_to_file", IOF), ("restart block of cosipy_core", CORE)])
prop("C18", "The initial column has the configured height, density and temperature profile",
 "A new column consists of the initial snow (input snow height if given, 0 if missing, otherwise the configured constant) on top of the configured glacier: total snow thickness equals the initial snow height, and ice layers have ice density and the configured thickness. Temperatures run linearly with depth from the air temperature limited to melting at the surface towards the configured bottom temperature and never leave the range spanned by the two, and snow densities lie between the configured top and bottom densities. No layer contains liquid water and the fresh-snow bookkeeping starts at zero.",
 ["inputs", "configurations"], "every initial snow height >= 0 (including missing), every air temperature and every valid initial-condition configuration",
 "Tests build one or two columns; layer counts and profiles depend on real-valued inputs.",
 ["cosipy/cpkernel/init.py", G, N], [("init_snowpack", "cosipy/cpkernel/init.py"), ("create_grid_jitted", "cosipy/cpkernel/init.py"), ("Grid / Node construction", G)])
prop("C19", "Layer properties derive consistently from ice, water and air fractions",
 "A layer's density, specific heat and (bulk) thermal conductivity are the fraction-weighted sums of the ice, water and air values with air filling the remaining volume (never negative); cold content is minus heat capacity times mass times the temperature relative to melting, and diffusivity is conductivity over density and specific heat. A layer created from a dry density has that density (within 0.01 kg m-3); irreducible water content is non-negative and zero for ice fractions above 0.812. Column profiles list every layer's own value in order, setting a profile then reading it returns it, layer depths are mid-layer depths increasing downwards, and snow height plus ice height equals total height for snow-on-ice columns.",
 ["inputs"], "every fraction combination with ice in (0,1], water in [0,1], every density from air density to ice density and every column",
 "Tests check sampled nodes; algebraic identities hold for all fractions and layer counts.",
 [N, G], [("Node getters", N), ("Grid profile getters/setters, get_depth, totals", G)])
prop("C20", "Fresh snow enters the column with its own mass and resets the snow age",
 "Adding fresh snow puts exactly one new layer on top, with the given thickness, temperature and water content and the ice content matching the given density, and leaves all other layers unchanged and in order. A snowfall at or above the minimum snowfall sets the fresh-snow height to its thickness, its age to zero and moves the previous age to the old-snow age; a smaller one, like a step without snowfall, only advances both ages by the time step. Removing layers removes exactly the requested ones and keeps the layer count equal to the number of layers.",
 ["inputs", "histories"], "every column, every snowfall amount and time step, every sequence of such operations and every set of valid distinct indices to remove",
 "Tests add snow to one fixture; bookkeeping across arbitrary sequences is not reached.",
 [G, N], [("add_fresh_snow", G), ("set_fresh_snow_props / set_fresh_snow_props_update_time / set_fresh_snow_props_to_old_props", G), ("remove_node", G)])
A = "cosipy/utilities/aws2cosipy/aws2cosipy.py"
prop("C21", "Forcing preparation keeps physical bounds and exact altitude corrections",
 "Relative humidity of prepared forcing always lies between 0 (resp. the lower limit) and 100 %, values already inside are untouched, and temperatures out of the plausible range are rejected. Pressure and lapse-rate corrections are the identity for zero altitude difference, the pressure correction decreases with altitude and correcting from the station to sea level and back to the station altitude reproduces the measured pressure. Latitude coordinates carry latitude values and longitude coordinates longitude values in every prepared dataset.",
 ["inputs", "configurations"], "every measurement series, altitude and lapse rate",
 "Tests apply sampled values; the identities quantify over all inputs.",
 [A, "cosipy/utilities/wrf2cosipy/wrf2cosipy.py"], [("set_relative_humidity_bounds, check_temperature_bounds, set_bias, get_pressure_bias, set_dataset_coordinates", A)])
R = "cosipy/modules/radCor.py"
prop("C22", "Radiation and terrain geometry helpers respect their physical limits",
 "Correcting shortwave radiation for slope and aspect leaves flat terrain unchanged, and everywhere once the sun is lower than the zenith threshold (all diffuse); otherwise only the beam part is scaled by the ratio of the cosines of incidence and zenith angle. The diffuse fraction always lies between its configured minimum and 1 and never grows as the sky gets clearer. Solar elevation lies in [-90, 90] degrees, zenith is its complement, the sun culminates at noon, where its azimuth is due south or north, and stands east before and west after noon. Great-circle distances are non-negative, symmetric, zero for identical points and at most half the circumference. The Moelg scheme gives exactly 0 on glacier cells at night, is never negative for plausible input, gives shaded cells only the diffuse part, and its sky-view factor lies in [0, 1].",
 ["inputs"], "every radiation value, solar geometry, slope, aspect and pair of coordinates",
 "Tests compare sampled values; limits must hold for all geometries.",
 [R], [("correctRadiation, radCor2D, Fdif_Neustift, solarFParallel, haversine", R)])
prop("C23", "Configuration is loaded faithfully and coupled-mode overrides are consistent",
 "Every parameter in the configuration, constants and Slurm files is available to the model under its own name with exactly its own value. WRF input switches the horizontal dimension names to the WRF names, coupled WRF simulations force full-field output together with the albedo and stability schemes they require, and zero workers means all available cores; nothing else is altered.",
 ["configurations"], "every configuration file content",
 "Tests load the shipped files; faithfulness quantifies over every file.",
 ["cosipy/config.py", "cosipy/constants.py", "cosipy/utilities/config_utils.py"], [("Config / Constants / TomlLoader", "cosipy/config.py")])
json_path = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(json_path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
