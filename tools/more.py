prop(
    "P04", "Taylor coefficients off the midplane solve the equations order by order",
    "The first, second and third order coefficients used to step off the "
    "midplane have the parity of their quantity and make mass, flux, "
    "vertical-momentum and radial-momentum conservation, the B²/ρ "
    "diffusivity law and Faraday's law vanish order by order. The remaining "
    "coefficients (v_φ'', B_φ''', B_r''') equal the formulas on record.",
    ["inputs", "configurations"],
    "every real start state, field index, sound speed, diffusivities, option",
    "Tests run whole solutions; an error in a θ³ coefficient is far below "
    "the pinned digits.",
    ["solve/deriv_midplane.py"],
    [("series", "solve/deriv_midplane.py:taylor_series"),
     ("orders", "solve/deriv_midplane.py:get_taylor_third_order")],
)
prop(
    "P03", "Midplane start conditions satisfy the midplane balances or are refused",
    "The start state derived from an input has the input's speeds and "
    "diffusivities, unit density and vertical field, no vertical flow and no "
    "other field; its rotation speed is the faster solution of the radial "
    "force balance, its azimuthal field gradient (or radial electric field) "
    "follows from azimuthal balance and Ohm's law, and its angles run evenly "
    "from start to stop. Inputs whose rotation speed would be complex or "
    "that contain NaN are refused with an error, and no others are.",
    ["inputs", "configurations"],
    "every real input (or one NaN among them), both closures",
    "Tests use a few inputs whose Hall terms are tiny.",
    ["solve/config.py"],
    [("start conditions", "solve/config.py:define_conditions")],
)
prop(
    "P05", "The step off the midplane is the Taylor series and is continued",
    "The state after the Taylor step is the start state plus the series of "
    "the coefficients through third order at the requested angle, the start "
    "and end of the step are recorded, and the remaining angle grid starts "
    "exactly at the angle the state belongs to. When the step is integrated "
    "instead, the velocity and density derivatives used are the linear "
    "expansions, the integrator is told to stop at the requested angle, and "
    "anything but stopping there is an error.",
    ["inputs", "configurations", "fault_sequences"],
    "every start state, stop angle, increasing grid, integrator outcome",
    "Tests only see whole solutions, where a misplaced start of one grid "
    "step is invisible.",
    ["solve/solution.py"],
    [("series step", "solve/solution.py:taylor_jump"),
     ("integrated step", "solve/solution.py:taylor_solution")],
)
prop(
    "P06", "Sonic crossing and assembly keep every part, in order, unaltered",
    "A solution consists of the Taylor part, the main part and the parts "
    "after a sonic crossing in that order with their states unaltered, each "
    "part starting at the angle and state its predecessor (or the jump, or "
    "the given modified conditions) ended with, integrated with the same "
    "equations, tolerances and stops. The sonic jump is one Euler step of the "
    "requested velocity width from the last subsonic state; the "
    "interpolated crossing uses the stored slopes of the polar velocity. "
    "Conflicting or incomplete sonic options are refused before anything is "
    "integrated.",
    ["inputs", "configurations", "fault_sequences"],
    "every combination of options; arbitrary states along every part",
    "Needs all combinations of crossing method, Taylor method and integrator "
    "outcome; tests run few and compare pinned digits.",
    ["solve/solution.py"],
    [("assembly", "solve/solution.py:solution"),
     ("jump", "solve/solution.py:jump_across_sonic"),
     ("interpolated crossing", "solve/solution.py:interp_cross_sonic"),
     ("stops", "solve/solution.py:main_solution")],
)
prop(
    "P07", "A shock conserves mass and momentum flux and restarts from its state",
    "The places tried for a shock are exactly the stored points whose polar "
    "speed lies strictly between the limits, past the minimum angle and past "
    "the fastest point. Across the shock mass flux and isothermal momentum "
    "flux are kept on the shocked branch and everything else is unchanged; "
    "the continuation starts from that state at the angles from the shock "
    "on, with the original equations and an input cleared of midplane and "
    "sonic options. Neither the original start conditions nor the original "
    "solution are altered, and a file and plot are only reported when every "
    "step worked.",
    ["inputs", "fault_sequences"],
    "every stored solution, limits, jump angle, failing step",
    "Nothing in the test suite runs the shock code.",
    ["solve/shock.py", "file_format/_containers.py"],
    [("jump", "solve/shock.py:get_shock_modified_initial_conditions"),
     ("candidates", "solve/shock.py:find_shock_test_values")],
)
prop(
    "P08", "MHD wave speeds, Mach numbers and critical points are right",
    "Slow and fast speeds are the smaller and larger root of the "
    "magnetosonic dispersion relation for waves along the polar direction, "
    "the Alfvén speed is that of the polar field, and each Mach number is "
    "the polar speed over its wave speed. The angle of a critical point is "
    "where its Mach number first reaches one, exactly at a stored point or on "
    "the chord between the two stored points around it, and absent when one "
    "is never exceeded.",
    ["inputs"],
    "every real state; every sequence of Mach numbers and angles",
    "Tests only see smooth monotonic solutions.",
    ["critical_points.py", "utils.py"],
    [("speeds", "critical_points.py:mhd_wave_speeds"),
     ("crossing", "utils.py:interp_for_value")],
)
prop(
    "P09", "Scaling to other radii and to cylindrical coordinates",
    "Moving a state to another radius scales velocities by r^-1/2, fields by "
    "r^(γ-5/4), density by r^(2γ-3/2) and diffusivities by r^1/2. Conversion "
    "to cylindrical form gives each state at cylindrical radius one with its "
    "height in scale heights and its vectors turned into outward and upward "
    "parts, for single states and arrays, refusing the radial electric field "
    "and leaving stored states alone; physical norms follow from the input's "
    "ratios.",
    ["inputs"],
    "every real state, radius, angle in (-90°, 90°), field index, ratio",
    "Tests only draw pictures of the result.",
    ["utils.py"],
    [("scaling", "utils.py:scale_solution_to_radii"),
     ("conversion", "utils.py:convert_spherical_to_cylindrical")],
)
prop(
    "P10", "Configuration, solver input and overrides mean the same everywhere",
    "Each configuration text becomes the solver input field by field, with "
    "empty or 'None' meaning no value, and turning an input into "
    "configuration text or a file and reading it back gives the same input "
    "and label; keys missing from a file take their recorded defaults. "
    "Overrides win over everything, then a solution's own input, then the "
    "configuration it came from, and nothing given is altered. Only names of "
    "existing fields can be overridden.",
    ["inputs", "configurations"],
    "every number, option spelling, missing key, differing field, override",
    "Tests use a few complete files.",
    ["file_format/_containers.py", "solve/config.py", "solve/utils.py"],
    [("parse", "file_format/_containers.py:ConfigInput.to_soln_input"),
     ("overrides", "solve/config.py:new_inputs_with_overrides")],
)
prop(
    "P11", "Everything written to a solution file is read back unchanged",
    "Solver inputs, configurations, start conditions, solutions, internal "
    "data and whole runs come back from a file with the same kind and the "
    "same values, whether an optional value is present or absent, for empty "
    "and filled data, and whether a solution was added before or after the "
    "run was written. The solution marked as final, or by default the last "
    "one, is the final solution read back.",
    ["inputs", "configurations", "histories"],
    "every number, every presence of optional values, order of writing",
    "Tests write one typical run and do not read every part of it back.",
    ["file_format/_dumpers.py", "file_format/_loaders.py",
     "file_format/_containers.py"],
    [("dumpers", "file_format/_dumpers.py"),
     ("loaders", "file_format/_loaders.py")],
)
prop(
    "P12", "Solution files of every earlier version still load",
    "A file holding what any earlier version stored loads, and every stored "
    "value arrives under its present meaning, with the field index obtained "
    "from the older exponent as 5/4 minus it. What a version did not store "
    "is unset or as it was at that time, and a run that recorded whether the "
    "radial electric field was used passes this to entries that do not say.",
    ["inputs", "configurations", "histories"],
    "every version, every number, presence of optional values",
    "Tests contain no files of earlier versions.",
    ["file_format/_loaders.py", "file_format/_utils.py"],
    [("loaders", "file_format/_loaders.py")],
)
prop(
    "P13", "Joining, reversing and collecting results loses and mixes nothing",
    "Joining the records of two parts gives the rows of the first followed "
    "by those of the second for every quantity, and reversing turns all "
    "quantities around together. Problems are kept per angle in order; "
    "solutions get consecutive names, never replace one another, the last is "
    "the one with the highest number and the final one cannot be changed. "
    "Start conditions always hold one consistent set of diffusivities.",
    ["inputs", "histories"],
    "parts of 0-2 rows with arbitrary values; sequences of additions",
    "Tests never join, reverse or re-read more than a single solution.",
    ["file_format/_containers.py"],
    [("containers", "file_format/_containers.py")],
)
prop(
    "P14", "Solver runs do what was asked and record it",
    "Each program hands the settings of its file, table row or earlier "
    "solution, with overrides applied, to the solver named, and stores the "
    "configuration, method, versions, origin and every solution found; an "
    "existing file is never overwritten and earlier files are not changed. "
    "Tables of inputs give exactly one result per row, in order, no row's "
    "failure affecting others, and the exit status and result tell whether a "
    "solution was found. A solution asked for by name is the one used.",
    ["inputs", "configurations", "fault_sequences"],
    "every number, method, option, solver outcome, table of up to 3 rows",
    "Tests run one configuration and check only that no error is raised.",
    ["solve/__init__.py", "solve/resolve.py", "solve/csvrunner.py",
     "solve/hdf5runner.py", "solve/single.py", "utils.py"],
    [("solve", "solve/__init__.py:solve"),
     ("resolve", "solve/resolve.py:resolve"),
     ("tables", "solve/csvrunner.py:csvrunner")],
)
prop(
    "P15", "Tables of inputs and configuration files read back as written",
    "A table of inputs gives one input per row whatever the order of its "
    "columns, with or without header, with surplus columns and comments "
    "anywhere, and rows lacking newer fields take their defaults. What the "
    "programs dump (inputs as a table, statistics, a configuration file) "
    "reads back as the same solver inputs, with origin and label, for every "
    "solution stored and the final one.",
    ["inputs", "configurations"],
    "every number, optional value, column order, header, comment place",
    "Tests never read a dumped file back and have no table without header.",
    ["solve/utils.py", "analyse/dump_csv.py", "analyse/dump_config.py",
     "analyse/stats.py"],
    [("read", "solve/utils.py:get_csv_inputs"),
     ("write", "analyse/dump_csv.py:dump_csv")],
)
prop(
    "P16", "Solutions are accepted and told apart exactly by their profile",
    "A solution is valid if the integrator finished and no density or polar "
    "velocity is negative or decreases, and the one searched for if it also "
    "comes near the sonic speed without accelerating. Any other one counts "
    "as turning over or as diverging by whether it recorded a negative "
    "velocity, whether it comes near or beyond the sonic speed and whether "
    "it keeps accelerating there, and by nothing else (up to the case on "
    "record). Judging changes nothing, and an unset or unknown way of "
    "judging falls back to this one.",
    ["inputs", "configurations"],
    "every velocity and density profile, flag, recorded rates and problems",
    "Tests never call the classification; a wrong one only shows as a search "
    "of hours going astray.",
    ["solve/stepper.py", "solve/utils.py"],
    [("split", "solve/stepper.py:v_θ_deriv_splitter"),
     ("validity", "solve/utils.py:validate_solution")],
)
prop(
    "P17", "A step search brackets the threshold and halves the bracket",
    "A step search moves the field index by whole steps, down from "
    "diverging and up from turning solutions, until the kind changes, then "
    "halves the step each time, so that the threshold stays bracketed, and "
    "changes nothing else of the input. It ends at the limit of trials or "
    "steps, at the best solution or when numbers run out, and says "
    "truthfully whether it succeeded, with the right final solution. Every "
    "trial is recorded in order with the input it was made for.",
    ["inputs", "histories", "fault_sequences"],
    "every start, step and threshold; error, stop or success at any trial",
    "Tests run two searches and compare nothing but the end of the run.",
    ["solve/stepper.py"],
    [("stepper", "solve/stepper.py:stepper_creator"),
     ("binary search", "solve/stepper.py:binary_searcher")],
)
prop(
    "P18", "The search for the largest angle climbs, then narrows its bracket",
    "The search over start velocity goes up, then down, by one hundredth of "
    "the start velocity while the angle reached grows, then continues as a "
    "golden-section search that never leaves the limits found. Each trial is "
    "a complete step search followed by one long solution of the field it "
    "found; a failed trial counts as reaching nothing. The result is the "
    "last long solution, every solution is recorded with its own input, and "
    "a search without any solution reports so.",
    ["inputs", "histories", "fault_sequences"],
    "every start velocity, every angle reached as a function of it, failures",
    "Tests never run this solver.",
    ["solve/fast_crosser.py"],
    [("search", "solve/fast_crosser.py:stepper_creator"),
     ("trial", "solve/fast_crosser.py:solution_generator")],
)
prop(
    "P19", "The Monte Carlo search scores, records and selects truthfully",
    "Each trial solves the start input with exactly the chosen parameters "
    "replaced; inputs that are not positive are refused unsolved. A failed "
    "or unusable trial scores as impossible and leaves no record, every "
    "other one is recorded in order and scored by the velocity reached and "
    "the smoothness of the profile. The best-scored trial becomes the final "
    "solution, and walkers start around the start input.",
    ["inputs", "configurations", "fault_sequences"],
    "every parameter value, choice of parameters, profile, failing trial",
    "Tests only check that a very short search raises no error.",
    ["solve/mcmc.py"],
    [("trial", "solve/mcmc.py:LogProbGenerator"),
     ("search", "solve/mcmc.py:solver")],
)
prop(
    "P20", "The sonic-point match compares and joins both sides faithfully",
    "Solutions from the sonic point start at exactly the guessed state with "
    "polar velocity one and end where the midplane solution ended, whose "
    "start conditions stay unchanged; guesses with NaN and empty solutions "
    "count as failures only of that guess. The mismatch handed to the root "
    "finder is the difference of the two ends, the first guess is the "
    "extrapolation to the sonic speed, and each pair is recorded as the "
    "midplane part followed by the sonic part turned around.",
    ["inputs", "fault_sequences"],
    "every state, angle, guess, flag, with and without internal data",
    "Tests run it only where the match fails at once.",
    ["solve/sonic_root.py"],
    [("match", "solve/sonic_root.py:generate_root_func"),
     ("join", "solve/sonic_root.py:write_solution")],
)
prop(
    "P21", "Jacobians are the central differences of the solved equations",
    "The Jacobian at a point of a solution is, for every pair of quantities, "
    "the symmetric difference quotient of the very equations that were "
    "solved (same parameters, start conditions and closure) at that point "
    "and angle; the solution is not changed. Unusable entries give NaN "
    "instead of an error. The eigenvector coefficients rebuild the "
    "difference of each point from the critical point.",
    ["inputs", "configurations"],
    "every solution, parameter, offset, point; both closures; η rates on/off",
    "Tests only check that these plots raise no error.",
    ["analyse/compute_jacobian.py"],
    [("differences", "analyse/compute_jacobian.py:"
      "compute_jacobian_from_solution"),
     ("coefficients", "analyse/compute_jacobian.py:"
      "get_eigenvector_coef_around_critical_point")],
)
prop(
    "P22", "A scan of start conditions reports the coefficients of its inputs",
    "Each sample of the scan lies in the ranges asked for, its input has "
    "exactly the sampled values and the three diffusivities each in its own "
    "role, and what is reported for it are the start state and the first "
    "three Taylor coefficients of that very input. Value lists of different "
    "length are refused.",
    ["inputs", "configurations"],
    "every range, sampled value and diffusivity, both closures",
    "Tests run no scan with different diffusivities and compare no value.",
    ["solve/taylor_space.py"],
    [("scan", "solve/taylor_space.py:compute_taylor_space"),
     ("values", "solve/taylor_space.py:compute_taylor_values")],
)
prop(
    "P25", "The checks of a solution compute the residuals of its equations",
    "The residuals reported for a solution are those of continuity, the "
    "solenoidal condition, momentum and induction that were solved, at each "
    "stored point with its rates (stored or estimated from the values); "
    "currents and electric fields are those of Maxwell's and Ohm's laws. "
    "The parts of each equation shown add up to its sum, which is the rate "
    "the equation requires.",
    ["inputs"],
    "every state, rate, angle and parameter, with and without stored rates",
    "Tests only check that the plots of the residuals raise no error.",
    ["analyse/validate_plot.py", "analyse/component_plot.py",
     "analyse/j_e_plot.py"],
    [("residuals", "analyse/validate_plot.py:validate_polar_induction"),
     ("values", "analyse/validate_plot.py:get_values"),
     ("parts", "analyse/component_plot.py:compute_components")],
)
prop(
    "P30", "Plots show the asked part of a solution, at its angles",
    "Each panel shows the quantity it names, at the stored points whose "
    "angle in degrees lies between start and stop, in the stated units and "
    "with the stated offset; what else is drawn (wave speeds, sonic point, "
    "roots, Taylor series, rates, surface density, projections on height) "
    "is that of the same solution. A run stored with a radial electric "
    "field is labelled so.",
    ["inputs", "configurations"],
    "every state, angle, limit and option of each plot, both closures",
    "Tests only check that drawing raises no error.",
    ["analyse/plot.py", "analyse/derivs_plot.py", "analyse/taylor_plot.py",
     "analyse/params_plot.py", "analyse/vert_plot.py"],
    [("solution", "analyse/plot.py:generate_plot"),
     ("series", "analyse/taylor_plot.py:generate_taylor_plot"),
     ("limits", "analyse/utils.py:get_common_plot_args")],
)
prop(
    "P31", "Plots comparing solutions show each under its own name",
    "In a plot of several solutions each curve carries the name of its file "
    "and solution, its own colour, and the values of that very solution at "
    "its angles within the limits asked for; final solutions that do not "
    "exist are left out, missing internal data are refused, and solutions "
    "of one file come in the order of their numbers or of the filter.",
    ["inputs", "configurations"],
    "1-3 solutions, every state, angle, limit and option",
    "Tests only check that drawing raises no error.",
    ["analyse/compare_plot.py", "analyse/diverge_plot.py",
     "analyse/conserve_plot.py", "analyse/sonic_ratio_plot.py",
     "analyse/v_deriv_cmp.py"],
    [("compare", "analyse/compare_plot.py:generate_plot"),
     ("filter", "analyse/diverge_plot.py:parse_solution_filter")],
)
prop(
    "P26", "Statistics of a solution are those of its values",
    "Largest Mach numbers, jet speed, residuals in size and field ratio are "
    "attained by the solution and exceeded nowhere, with the angle or height "
    "of that point; unknown (NaN) values are passed over. Surface density "
    "and mass fluxes are the integrals over the angle of the points asked "
    "for. A statistic that cannot be computed loses only its own row.",
    ["inputs", "fault_sequences"],
    "every state, angle and parameter, NaN at any points, any failing rows",
    "Tests only check that the command raises no error.",
    ["analyse/stats.py", "analyse/phys_ratio_plot.py"],
    [("maxima", "analyse/stats.py:get_max_mach_numbers"),
     ("residuals", "analyse/stats.py:compute_max_difference_in_equations"),
     ("fluxes", "analyse/phys_ratio_plot.py:compute_M_dot_out_on_M_dot_in")],
)
prop(
    "P23", "Hydrostatic solvers follow their reduced equations",
    "In the hydrostatic solver and the one joined to it, the rates of the "
    "radial and polar field, density, diffusivities and (where it is "
    "integrated) the electric field satisfy their equations without polar "
    "flow, integrated speeds keep the balance of the state, and the speeds "
    "used, stored and started from balance the radial and azimuthal forces "
    "in the manner stated. A state no rotation can balance is refused, a "
    "negative density is refused and recorded.",
    ["inputs"],
    "every state, angle, diffusivity, parameter and root of the cubic; both "
    "closures",
    "Tests run two problems and check that nothing raises.",
    ["solve/hydrostatic.py", "solve/mod_hydro.py"],
    [("rates", "solve/hydrostatic.py:ode_system"),
     ("rates", "solve/mod_hydro.py:ode_system"),
     ("stored", "solve/mod_hydro.py:fix_solution")],
)
prop(
    "P28", "Stream and field lines follow the solution",
    "A line starts at the place asked for, each step goes along the velocity "
    "or field of the stored state scaled to that radius, of the length asked "
    "for, and it ends only where the solution does or the steps run out. "
    "Lines stored and drawn are those computed; the value at an angle is that "
    "of the closest stored one.",
    ["inputs", "configurations"],
    "every state, angle, place and step; the solution ending at any step",
    "Tests only check that the commands raise no error.",
    ["analyse/trajectory.py", "utils.py"],
    [("direction", "analyse/trajectory.py:compute_values"),
     ("line", "analyse/trajectory.py:follow_trajectory"),
     ("file", "analyse/trajectory.py:save_trajectory"),
     ("closest", "utils.py:get_closest_value_sorted")],
)
prop(
    "P29", "What is told about a stored run is true of it",
    "Each line told about a run (status, input, start conditions, run record, "
    "critical points and their heights, the fastest wave crossed, ranking of "
    "solutions) is the stored or derived value under its name, of the "
    "solution asked for, nothing left out; the ranking is by likelihood; an "
    "unknown question is refused.",
    ["inputs", "configurations"],
    "every stored number, presence of each optional part, final solution and "
    "number of solutions",
    "Tests only check that each question raises no error.",
    ["analyse/info.py", "utils.py"],
    [("answers", "analyse/info.py:info"),
     ("ranking", "analyse/info.py:sort_solutions"),
     ("which", "utils.py:get_solutions")],
)
