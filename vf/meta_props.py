T = "Trusted: harness recording, the double arithmetic of spec/java/Flt.java, TLC. "
prop("C01", "Date arithmetic follows the 365-day circular calendar",
     "Adding any non-negative number of days, hours, minutes or seconds to a date gives the valid date exactly that much later in a "
     "circular 365-day year, whatever the size of the jump. Day-of-year, its inverse, interpolation between dates, ordering and "
     "difference, and conversion to and from a calendar date-time agree with that position in the year. Impossible days of the "
     "year are refused.",
     ["inputs", "histories"], "every date, every increment (including many years), every sequence of increments",
     "Tests add a handful of small increments; the quantifier ranges over all dates, jumps and chains of jumps, including ones that cross "
     "several months and new year.",
     ["calendar/src/date.rs"],
     [("Date::add_days/add_hours/add_minutes/add_seconds", "calendar/src/date.rs"), ("Date::day_of_year/from_day_of_year", "calendar/src/date.rs"),
      ("Date::interpolate, comparisons, subtraction", "calendar/src/date.rs")],
     ["calendar::Date public methods"], "Calendar",
     T + "The clock is explored exhaustively on the hour grid in the specification; the code is bound on every day of the year, month "
     "boundaries, large jumps and random chains.")
prop("C02", "A period visits exactly its instants, in order, and then ends",
     "Iterating a period yields start+dt, start+2dt, ... as long as the period's end is not passed, also through new year, then ends "
     "and stays ended, never looping for ever and never yielding an instant outside the period. Membership of a date in a period "
     "does not depend on the year and agrees with the same interval, including its two ends.",
     ["inputs", "histories"], "every start, end and time step; every position inside and outside the period",
     "Tests iterate a few periods inside one year; termination and completeness range over all start/end/step combinations, in particular "
     "steps that cross new year and the end at once.",
     ["calendar/src/period.rs"], [("Period::next", "calendar/src/period.rs"), ("Period::contains", "calendar/src/period.rs")],
     ["calendar::Period iterator and contains()"], "Period",
     T + "All start/end/step triples of a model year are checked (refinement, termination); the code runs all generated periods and random ones.")
prop("C03", "Weather look-up interpolates between the neighbouring records",
     "Asking a weather for a date returns the record at that instant if there is one, and otherwise every quantity interpolated linearly in "
     "time between the nearest earlier and nearest later record, around new year between the last and the first record, never outside the "
     "two neighbours. Sorting yields the same records in chronological order, concatenation keeps all records, and a synthetic weather "
     "returns its schedules or the documented defaults.",
     ["inputs", "histories"], "every set of dated records, every query instant, every field",
     "Tests query a few instants of one file; the guarantee ranges over all record sets and instants, including those before the first and after "
     "the last record of the year.",
     ["weather/src/lib.rs", "weather/src/synthetic_weather.rs", "weather/src/current_weather.rs"],
     [("Weather::find_weather_line / get_weather_data", "weather/src/lib.rs"), ("CurrentWeather::interpolate", "weather/src/current_weather.rs")],
     ["weather::WeatherTrait::get_weather_data"], "Weather",
     T + "All record sets of a small circular year are checked against nearest-neighbour semantics; the code is checked on generated and random sets.")
prop("C04", "An EPW file is read completely, each value in its place and unit",
     "Reading an EPW file yields its location, ground temperatures and every data row in order with every column in its own field, whatever "
     "the quoting of header text, line endings or final newline. Converting it to a weather keeps every row, with angles in radians, sky cover "
     "and humidity as fractions and other quantities in SI units, and a missing wind direction never exceeds a full turn.",
     ["inputs"], "every well-formed EPW text",
     "The tests read one file and look at a few columns; a swapped, scaled or dropped column in other rows or files is not seen.",
     ["weather/src/epw/scanner.rs", "weather/src/epw/weather.rs", "weather/src/epw/weather_line.rs"],
     [("EPWScanner", "weather/src/epw/scanner.rs"), ("EPWWeatherLine parsing", "weather/src/epw/weather_line.rs"),
      ("Into<Weather>/CurrentWeather", "weather/src/epw/weather.rs")],
     ["weather::EPWWeather::from_file and its conversion"], "Epw",
     T + "The scanner is checked against a declarative reading on all short texts; the code on generated layouts and random contents.")
prop("C05", "The state header keeps each class of state contiguous and consistent",
     "A state header admits an element only if no element of a later class (personal, then operational, then physical) is already there and its "
     "values have not been taken; an admitted element gets the next index and its value, and a refused one changes nothing. Counts, class of "
     "each element and value list always match the admitted elements, the values can be taken exactly once, and copying one class between "
     "states changes exactly that class.",
     ["histories", "inputs"], "every sequence of pushes and takes, every kind of element",
     "Tests push one or two elements; the invariant ranges over all histories and all 28 element kinds.",
     ["model/src/simulation_state.rs", "model/src/simulation_state_element.rs"],
     [("SimulationStateHeader::push/take_values", "model/src/simulation_state.rs"),
      ("is_personal/is_operational/is_physical", "model/src/simulation_state_element.rs")],
     ["model::SimulationStateHeader, copy functions"], "StateHeader",
     T + "All push/take histories up to the bound are checked in the specification and replayed.")
prop("C06", "Assembling a model keeps references and state indices consistent",
     "An object that refers to a construction, space or parent surface the model lacks, a window that does not fit in its parent, or a device "
     "already added is refused with the model and its state unchanged; anything else is added at the end. A window with a parent cuts its area out "
     "of it and takes the parent's boundaries (swapped when it faces the other way), every window, HVAC and luminaire owns exactly one state "
     "element at the index it reports; the floor area of the model is the sum over its spaces, and look-ups by name "
     "return the first object so called.",
     ["histories", "inputs"], "every sequence of additions, valid and invalid",
     "Tests build a few valid models; consistency must survive every order of additions and every refused addition.",
     ["model/src/model.rs"],
     [("Model::add_*", "model/src/model.rs"), ("Model::get_*", "model/src/model.rs"), ("Model::get_space_sizes", "model/src/model.rs")],
     ["model::Model add_*/get_*/take_state/get_space_sizes"], "Assembly",
     T + "Exhaustive over small universes of names in the specification; random histories of 17 additions replayed in the code.")
prop("C07", "Matrix and polynomial algebra is exact, and refused operations change nothing",
     "Every matrix operation (element access, sum, difference, scaling, product, product of a banded matrix, concatenation, comparison) gives the "
     "value of linear algebra, for full and compact n-diagonal matrices of any shape, and operands of unfitting size or elements outside the matrix or its "
     "band are refused without changing the matrix. Solving a regular banded system (directly or iteratively) gives a solution with vanishing residual; "
     "a singular system or lack of convergence is reported. Polynomials evaluate to the sum of their terms.",
     ["inputs", "histories"], "every matrix shape, content, band width and sequence of updates",
     "Tests use a few fixed small matrices; the algebra must hold for every shape, including ones narrower than the band.",
     ["matrix/src/generic_matrix.rs", "matrix/src/matrix.rs", "matrix/src/n_diag_generic_matrix.rs", "matrix/src/n_diag_matrix.rs", "polynomial/src/lib.rs"],
     [("mut_n_diag_gaussian, gauss_seidel", "matrix/src/matrix.rs"), ("compact index", "matrix/src/n_diag_generic_matrix.rs"), ("Polynomial::eval", "polynomial/src/lib.rs")],
     ["public API of matrix and polynomial"], "MatAlg",
     T + "Banded elimination is checked for all small banded systems over a prime field and the compact layout for all shapes up to 7x7.")
prop("C08", "Infiltration follows each space's own data and the current weather only",
     "At every step each space with an infiltration object gets as infiltration temperature the outdoor dry bulb and as infiltration volume the "
     "flow its type prescribes (constant; EnergyPlus design flow rate, Blast or DOE-2 with the site's terrain wind profile; effective leakage area with "
     "its building's given or tabulated stack and wind coefficients), computed from its own temperature and the current weather with no memory. "
     "Spaces without infiltration and every other element of the state stay unchanged. Leakage without sufficient building data is refused at "
     "creation.",
     ["inputs", "histories"], "every combination of spaces, infiltration types, building descriptions, terrains, temperatures, wind, and sequences of steps",
     "Tests check one equation at a few points; which space and building the numbers come from, all table entries and repeated steps are not settled by them.",
     ["air/src/air_model.rs", "air/src/resolvers.rs", "air/src/eplus.rs", "model/src/site_details.rs"],
     [("resolvers", "air/src/resolvers.rs"), ("design_flow_rate, effective_leakage_area", "air/src/eplus.rs"), ("wind_speed_modifier", "model/src/site_details.rs")],
     ["air::air_model::AirFlowModel::new/march"], "AirFlow",
     T + "All building descriptions and terrains are replayed; temperatures, winds and flows are sampled.")
prop("C09", "The default occupant runs every heater and cooler as a thermostat",
     "At each control step a device with a target space and a heating set point and power is at full heating power when that space is colder than the "
     "set point; an ideal heater-cooler with a cooling set point and power is at full cooling power (negative) when the space is warmer than that; "
     "otherwise it is off. Devices without a target space or sufficient data, and every other element of the state, stay untouched, whatever the previous "
     "power. A device whose target space is not in the model makes the controller report an error.",
     ["inputs", "histories"], "every set of devices and spaces, every history of temperatures and powers",
     "Tests run one device; the guarantee ranges over sets of devices sharing spaces, missing data, exact set-point temperatures and left-over powers.",
     ["src/occupant_behaviour.rs"], [("OccupantBehaviour::control", "src/occupant_behaviour.rs")],
     ["simple::OccupantBehaviour::control"], "HvacControl",
     T + "All single devices at all characteristic temperatures and all pairs are checked and replayed; random homes extend them.")
prop("C10", "The air of every space obeys its own heat balance at every sub-step",
     "A thermal step is a number of equal sub-steps (twice the largest number any construction asks for), each with the weather at its own end; in each, "
     "the temperature of every space moves along the exact solution of C dT/dt = A - B T, where C is the heat capacity of its own air at its "
     "temperature, A and B collect the power of all HVACs and luminaires targeting it, its infiltration and ventilation, and the convection (coefficient and surface "
     "temperature at the end of the sub-step, times area) of each face of a surface or window that looks into it, and a space that exchanges no heat with anything "
     "still keeps the heat it is given. Powers and air flows in the state stay unchanged. A space without volume, or an HVAC or luminaire without a target or with an unknown "
     "target space, is refused at creation.",
     ["inputs", "histories"], "every set of spaces, devices, air flows and faces, every history of powers and weather",
     "Tests follow one zone; which gains, flows and faces go to which space, their signs, and the composition of sub-steps are sampled by them only in one arrangement.",
     ["heat/src/heat_model.rs", "heat/src/zone.rs", "heat/src/heating_cooling.rs", "heat/src/luminaire.rs"],
     [("calculate_zones_abc, estimate_zones_future_temperatures, march", "heat/src/heat_model.rs"), ("ThermalZone::mcp", "heat/src/zone.rs"), ("ThermalHVAC::from", "heat/src/heating_cooling.rs")],
     ["heat::heat_model::ThermalModel::new/march, state vector"], "ZoneHeat",
     T + "The specification is checked for energy balance, approach to equilibrium and composition of steps; the code on all small arrangements and random ones, sub-step by sub-step and in whole steps.")
prop("C12", "Heat flow through walls and windows follows their layers and both surroundings",
     "In each thermal sub-step the node temperatures of every surface and window follow from the temperatures at its start: nodes without mass settle where the heat "
     "flows balance (within 0.01 K), massive nodes take one fourth-order Runge-Kutta step, with solid links, cavities, absorbed sun (negative or NaN sun counts as "
     "none), convection and long-wave radiation at either face. Each face sees its own surroundings: outdoor air, wind by its own side's orientation and height and the incident infrared; a space "
     "or ambient temperature with TARP natural convection (warm face up or cold face down enhanced); an adiabatic back sees what the front sees; given coefficients replace "
     "calculated ones. Afterwards the state holds the convection coefficients and the convective flows (surface minus air, times coefficient) of the new temperatures, and the sun and "
     "infrared unchanged; turning a wall around changes nothing but the order of its nodes.",
     ["inputs", "histories"], "every build-up, tilt, pair of boundaries and history of weather, sun and temperatures",
     "Tests use one vertical wall between two boundaries; sides, tilts, wind sectors, boundary pairs and mixed massive and light layers are not settled by them.",
     ["heat/src/surface.rs", "heat/src/convection.rs", "heat/src/discretization.rs", "heat/src/heat_model.rs"],
     [("ThermalSurfaceData::march, calc_border_conditions, is_windward, rk4", "heat/src/surface.rs"), ("TARP", "heat/src/convection.rs"), ("get_k_q", "heat/src/discretization.rs"), ("iterate_surfaces", "heat/src/heat_model.rs")],
     ["heat::heat_model::ThermalModel::march, ThermalSurfaceData fields, state vector"], "Wall",
     T + "The specification is checked for range, balance, mirror symmetry and monotony in the sun; the code on every boundary pair x build-up x tilt and random worlds.")
prop("C14", "Gas-filled cavities follow ISO 15099 in every tilt and direction",
     "The heat transfer coefficient of a cavity is its radiative part plus the Nusselt number times the conductivity of its gas at the mean temperature over the thickness, "
     "with the Rayleigh number of that gas and the correlation of ISO 15099 for the tilt; when the front is the warmer side the complement of the tilt applies, so that a "
     "horizontal cavity heated from above only conducts and looking from the other side changes nothing. The properties of air, argon, krypton and xenon are those of the standard, and no combination of tilt, size and temperatures "
     "panics or gives a non-positive coefficient.",
     ["inputs"], "every gas, thickness, height, tilt, emissivity and pair of temperatures",
     "Tests compare a few published values for vertical cavities; correlations for other tilts, heat flow directions and regimes have branch points between their samples.",
     ["heat/src/gas.rs", "heat/src/cavity.rs"],
     [("cavity_convection, nusselt", "heat/src/gas.rs"), ("Cavity::u_value", "heat/src/cavity.rs")],
     ["heat::cavity::Cavity::u_value, heat::gas::Gas"], "Cavity",
     T + "Symmetry, stratification and approach to equilibrium are checked in the specification; the code in every regime (29k generated cases) and random ones.")
prop("C13", "A construction becomes a thermal network that loses nothing and stays stable",
     "Every solid layer is divided into the fewest equal elements no thicker than the maximum (0.05 m in the thermal model), and has mass if for some division of the time step "
     "into 1 to 13 parts, none shorter than the minimum (60 s), an element is at least twice the thinnest that this part cannot make oscillate; the construction asks for the largest of the smallest such divisions. "
     "Other solid layers become one link without mass and gas layers a cavity between the emissivities of the two faces it touches (0.84 when not given); half the mass of an element goes to each of its nodes, so that total "
     "mass and resistance are those of the layers, and runs of nodes with and without mass are told apart in order. "
     "A gas at either end or next to another gas is an error, and a wall between two constant temperatures never leaves their range.",
     ["inputs"], "every sequence of layers, every time step and limits",
     "Tests discretize a handful of walls and compare a few numbers; the quantifier ranges over all sequences of massive, light and gas layers and time steps.",
     ["heat/src/discretization.rs", "heat/src/heat_model.rs"],
     [("discretize_construction, nsegments, min_dx, build, get_chunks, r_value", "heat/src/discretization.rs"), ("ThermalModel::new", "heat/src/heat_model.rs")],
     ["heat::discretization::Discretization::new and its fields, get_chunks, r_value", "heat::heat_model::ThermalModel surfaces"], "Discretization",
     T + "The search is explored for all constructions of up to three (thorough: four) layers of a catalogue, with minimality, conservation and stability as invariants. Known finding: massive "
     "layers in contact with thin conductive ones are marched unstably; the listed pairs are exempt from the range check.")
prop("C15", "Sun absorbed in a construction adds up with what it reflects and transmits",
     "A stack of panes, given by transmittance and both reflectances, transmits, reflects (from either side) and absorbs per pane what the sum of all inter-reflections gives, so that the "
     "absorbed fractions, the transmitted and the reflected one add up to 1. A construction meets the sun from its front as the panes between its gas layers up to and including the first opaque layer, each with "
     "its own transmittance (default 0) and absorptances (default 0.84) and, from its back, the same with order and faces swapped. What a translucent layer absorbs is spread evenly over its nodes, what an opaque one "
     "absorbs goes to its exposed node, and no other node absorbs anything.",
     ["inputs"], "every stack of panes and every alternation of panes and gases in a construction",
     "Tests have one double glazing with equal faces; different faces, three and more panes, opaque layers behind glass and the back side are not settled by them.",
     ["heat/src/glazing.rs", "heat/src/surface.rs"],
     [("combine_layers, alphas, get_front_glazing_system, get_back_glazing_system", "heat/src/glazing.rs"), ("ThermalSurfaceData::new (front_alphas, back_alphas)", "heat/src/surface.rs")],
     ["heat::glazing::Glazing, ThermalSurfaceData::front_alphas/back_alphas"], "Glazing",
     T + "Light is followed bounce by bounce in the specification (energy is conserved at every bounce; the limit is the closed form); the code is compared with the closed form on generated and random stacks and constructions.")
prop("C11", "A simulation reports one row per time step, controlled, marched, in order",
     "A run over a weather file with n steps per hour (n over 60 counts as 60) visits start + k/n hours for k = 1, 2, ... up to 0.1 h before the last record; for each, "
     "the controller (a control script given as text or file, or none) acts once on the state left by the previous one, then the physics marches (air flow, then heat) with the weather of that instant, and one row is written. "
     "The report has the requested outputs that the model has, in the requested order (all if none exists), named in a first line, one complete comma separated row per instant with at least three decimals, also "
     "when the writer accepts only part of what it is given, and a failing controller ends the run with an error after the rows completed. "
     "With n = 0, a bad weather, model or script, or a model whose state was taken, the run is an error and writes nothing.",
     ["histories", "inputs", "fault_sequences"], "every house, weather, control script, time step, list of outputs and writer",
     "Tests run a few models and do not look at the rows; pacing, order of controller, physics and report, and failures in the middle range over whole histories.",
     ["src/run_simulation.rs", "src/multiphysics_model.rs", "src/rhai_script_controller.rs", "src/void_control.rs"],
     [("run_simulation", "src/run_simulation.rs"), ("MultiphysicsModel::new/march", "src/multiphysics_model.rs"),
      ("RhaiControlScript::new/control", "src/rhai_script_controller.rs")],
     ["simple::run_simulation::run_simulation and what it writes", "communication::SimulationModel for MultiphysicsModel"], "RunLoop",
     T + "The loop is explored with controllers that fail at every point; every row of runs of 960 generated houses and scripts is compared with the specification's.")
prop("C16", "A control script reads and writes exactly the property it names",
     "A control script finds spaces, surfaces, fenestrations, luminaires and HVACs by name or by index (from 0, in the order of the model), and reads and assigns (numbers with or without decimals) each of their "
     "documented properties at the place of the state that this property was given, seeing what was assigned before; nothing else in the state changes. "
     "A statement that names an absent object, an index out of range or negative, an unknown property, one without a place, or assigns something other than a number is an error that stops the script, changes nothing and undoes nothing before it, and text that is not a script is refused. "
     "In Rust, a property without a place reads as nothing and cannot be set, and its place can be given only once.",
     ["programs", "histories", "inputs"], "every model, every subset of properties with a place, every script",
     "Tests run a few scripts on one object; thirty properties of five kinds of object are generated by macros, and a wrong place, kind or partial effect shows only with several objects of several kinds.",
     ["derive/src/field.rs", "derive/src/object_struct.rs", "derive/src/object_enum.rs", "model/src/rhai_api.rs", "src/rhai_script_controller.rs"],
     [("api_getter, api_setter", "derive/src/field.rs"), ("gen_object_api, getters and setters of state fields", "derive/src/object_struct.rs"), ("gen_group_api", "derive/src/object_enum.rs"),
      ("RhaiControlScript", "src/rhai_script_controller.rs")],
     ["simple::RhaiControlScript", "accessors of model::{Space, Surface, Fenestration, Luminaire, HVAC}"], "ControlApi",
     T + "All scripts of up to two statements over a small model are explored; every shape of statement is run inside scripts on random models, and every accessor is called before and after its property has a place.")
prop("C17", "The sun stands where Duffie and Beckman put it, and only by day",
     "For every latitude, longitude and standard meridian (west positive) and day of the year n, the equation of time, declination, extraterrestrial radiation, hour angle, sunrise and sunset, clear-sky radiation and conversions between solar and standard time are those of "
     "chapters 1 and 2 of Duffie and Beckman, with B = (n - 1) 360/365 and n counted as Date::day_of_year does. "
     "The sun's direction (x east, y north, z up; a date or a Time::Standard is converted to solar time first) is the unit vector of that declination and hour angle, east before solar noon and west after it, in both hemispheres and within the polar circles; within 0.8 degrees of the zenith it may be given as straight up. "
     "There is none when it is below the horizon.",
     ["inputs"], "every place, every instant, both kinds of time",
     "Tests sample a few instants of a few cities; hemispheres, tropics, polar days, times near sunrise, sunset and midnight and far from the meridian are not settled by them.",
     ["weather/src/solar/mod.rs"],
     [("Solar", "weather/src/solar/mod.rs"), ("air_mass", "weather/src/solar/mod.rs")],
     ["weather::Solar, weather::Time, weather::solar::air_mass"], "Sun",
     T + "The path of the sun is explored over places and days (it climbs until noon, the two hemispheres mirror each other, it is up exactly between sunrise and sunset); every quantity is recorded for classes of latitude, season, time of day and distance to the meridian.")
prop("C18", "Reinhart's patches cover the sky once, each found from any direction in it",
     "For every subdivision m >= 1 the sky has 144 m^2 + 2 patches: the ground (0), the cap (the last one) and Tregenza's rows (30, 30, 24, 24, 18, 12 and 6 patches) divided in m rows of m times as many patches, numbered from the horizon up and, in a row, clockwise from the one centred on north (y). "
     "The rows are equally high and the cap is half a row around the zenith, so the solid angles of the patches (ground 2 pi) add up to 2 pi above the horizon. "
     "Every direction belongs to the one patch that contains it (below the horizon, to the ground), and the direction of a patch is that of its centre.",
     ["inputs"], "every subdivision, patch and direction",
     "Tests look at a few directions of a few subdivisions; a wrong row or wrap around north shows only in some rows and sectors.",
     ["weather/src/solar/reinhart_sky.rs"],
     [("ReinhartSky", "weather/src/solar/reinhart_sky.rs")],
     ["weather::ReinhartSky: n_bins, bin_dir, bin_solid_angle, dir_to_bin"], "Dome",
     T + "A walk visits every patch of every subdivision in the specification; all patches of six subdivisions and directions inside, at the edges and beyond are asked to the code.")
prop("C19", "A sky vector holds Perez's sky, the sun and the ground, and nothing else",
     "The sky vector of an instant is zero when there is no sun or no radiation; otherwise the ground has albedo times the global horizontal radiation over pi, each sky patch (when the sky is asked for) Perez's all-weather radiance in the direction of its centre (never negative), scaled so that Tregenza's 145 patches give the diffuse horizontal radiation, "
     "and the direct radiation (when the sun is asked for) goes to the four patches with centres nearest to the sun, weighted by 1/(1.002 - cosine) and divided by their solid angles. "
     "Clearness, brightness, coefficients and luminous efficacies (for visible units) are those of Perez 1990 and 1993 with gendaymtx's limits, and the sky function gives the same radiance in any direction. "
     "Updating a vector forgets its previous values; one of the wrong size is refused untouched.",
     ["inputs", "histories"], "every place, instant, weather, subdivision, kind of units and selection of sun, sky and ground",
     "Tests compare a few instants with Radiance; categories of clearness, low suns, negative patches and reused vectors are not among them.",
     ["weather/src/solar/perez.rs", "weather/src/solar/reinhart_sky.rs"],
     [("PerezSky", "weather/src/solar/perez.rs")],
     ["weather::PerezSky: gen_sky_vec, update_sky_vec, get_sky_func_standard_time and its parts"], "PerezSky",
     T + "A vector is updated through days of changing weather in the specification (radiation is conserved, the night is dark); every element of recorded vectors is compared for classes of sun height, clearness, units, subdivision and selection.")
prop("C20", "Loops stay simple, and polygons with holes have the right inside and area",
     "A loop built vertex by vertex takes a vertex in line with the last edge as that edge's new end (unless asked not to), refuses one that is out of its plane, comes after closing or whose edge crosses an earlier edge, leaving the loop as it was, and closes dropping a first or last vertex in line with its neighbours; its area, perimeter, mean vertex, box and normal (right-hand rule) are those of its vertices, whatever the plane, first vertex and direction. "
     "For a simple loop, a point is inside exactly when it is in its plane and within or on its edges, a segment between vertices is a diagonal only if it is no side, crosses no side and runs inside (and always if it also touches nothing), and two loops are equal exactly when their vertices are the same from some start and in either direction. "
     "A polygon refuses holes out of its plane, with a vertex outside it or in another hole, or that swallow another hole; holes apart from each other and the outer loop are accepted, take their own area and inside away, turn with it, and are joined by get_closed_loop in one path around what is left: each side once, each bridge twice.",
     ["inputs", "histories"], "every sequence of pushed vertices, every plane, every polygon and set of holes",
     "Tests use a few rectangles in the horizontal plane; rays through vertices, concave shapes, holes near each other, reversed holes and other planes are not settled by them.",
     ["geometry/src/loop3d.rs", "geometry/src/polygon3d.rs", "geometry/src/segment3d.rs"],
     [("Loop3D::push, close, test_point, is_diagonal, is_equal, get_reversed", "geometry/src/loop3d.rs"), ("Polygon3D::cut_hole, area, test_point, get_closed_loop", "geometry/src/polygon3d.rs"), ("Segment3D::intersect, contains", "geometry/src/segment3d.rs")],
     ["geometry::{Loop3D, Polygon3D, Segment3D}"], "Loops",
     T + "Vertices are lattice points, so that the specification is exact: all loops of up to five vertices on a small lattice and shapes with up to three holes are explored (Pick's theorem, no crossing edge, the joined path has the area left); random loops and polygons are replayed in random planes and scales. Holes that only touch another loop, or reach across a notch of it, are not judged, as the documentation gives no guarantee for them; nor is the joined path when a nearest pair of vertices does not see each other.")
prop("C21", "The triangles of a polygon cover it exactly once",
     "A polygon without holes, or with holes that are apart from each other and the outer loop and are each joined through a nearest vertex in plain view, is always triangulated, whatever its plane, shape and number of vertices. "
     "The triangles have the polygon's vertices as corners and its normal, lie within it (none reaches outside or over a hole), do not overlap, and their areas add up to the polygon's.",
     ["inputs"], "every polygon, every plane",
     "Tests triangulate a few polygons and count triangles; concave corners, holes and the order in which corners are cut are not settled by them.",
     ["geometry/src/triangulation3d.rs", "geometry/src/polygon3d.rs", "geometry/src/loop3d.rs"],
     [("TryFrom<&Polygon3D> for Triangulation3D", "geometry/src/triangulation3d.rs"), ("Polygon3D::get_closed_loop", "geometry/src/polygon3d.rs"), ("Loop3D::is_diagonal, remove", "geometry/src/loop3d.rs")],
     ["geometry::Triangulation3D"], "Triangulation",
     T + "Every order of cutting ears off joined paths is explored on lattice polygons with up to two holes (area conserved, nothing outside, never stuck); the triangles of random simple polygons, strips of up to 120 vertices and shapes with holes are checked exactly.")

prop("C22", "A ray finds the first surface in its way, and the scene is the model's",
     "Whatever the triangles and the order they are added in, casting a ray tells the nearest triangle it hits (further than a couple of millimetres, whatever the triangle's size), the point, the direction it came from and a unit normal facing the ray with the side it belongs to; the way is free for a distance if and only if nothing is hit before it; and building the tree only reorders triangles, together with their materials and normals, as the mapping it returns says. "
     "A meshed sphere is a closed mesh of outward triangles at its radius. "
     "A scene made from a model has exactly the triangles of the surfaces (not smaller than 1e-5 m2) and of the fenestrations (not openings), with the front material from the front absorptance of the first layer and the back one from the back absorptance of the last, or glass of the given transmittance.",
     ["inputs"], "every scene, every ray, every model",
     "Tests cast a few rays in one or two scenes; which subtree hides what depends on how the triangles lie and on the direction of the ray.",
     ["rendering/src/bvh.rs", "rendering/src/scene.rs", "rendering/src/triangle/mod.rs", "rendering/src/triangle/fallback.rs", "rendering/src/from_simple_model.rs", "geometry/src/bbox3d.rs"],
     [("BoundingVolumeTree::new, intersect, unobstructed_distance", "rendering/src/bvh.rs"), ("Scene::push_object, build_accelerator, cast_ray", "rendering/src/scene.rs"),
      ("baricentric_coordinates", "rendering/src/triangle/fallback.rs"), ("mesh_sphere, new_info", "rendering/src/triangle/mod.rs"), ("SimpleModelReader::build_scene", "rendering/src/from_simple_model.rs")],
     ["rendering::Scene::cast_ray", "rendering::Scene::unobstructed_distance", "rendering::SimpleModelReader"], "Bvh",
     T + "Every way of splitting small scenes and walking the tree is explored (permutation, partition, nested boxes, first hit, free way, nodes visited once); in the code every ray is compared with looking at each triangle of the scene.")

prop("C23", "Transforms place things and undo it; rays find the first part of a shape",
     "Transforms composed in any order apply the last one first to points, vectors, normals, rays and boxes (a transformed box is the smallest around the transformed corners), their inverses undo them exactly, normals stay perpendicular to what they were perpendicular to, and handedness changes with each mirroring. "
     "A ray meets a sphere, cylinder (also partial, or between two points), disk or annulus (also partial), triangle, plane or distant source, transformed or not, at the first point of it ahead of the ray's origin and only there: the point is told within the shape's bounding box, with a normal along the shape's that faces the ray, tangents perpendicular to it, and the right side (the outside of a sphere, or where the normal of a disk or triangle points to, is the front). "
     "Areas, centroids, circumcentres and the solid-angle densities of sampling a triangle, a sphere or a distant source are those of the geometry.",
     ["inputs"], "every chain of transforms, every shape, every ray",
     "Tests apply single transforms and cast a few rays at shapes in simple positions; chains, partial shapes and rays from inside or behind are not settled by them.",
     ["geometry/src/transform.rs", "geometry/src/sphere3d.rs", "geometry/src/cylinder3d.rs", "geometry/src/disk3d.rs", "geometry/src/triangle3d.rs", "geometry/src/plane3d.rs", "geometry/src/distant_source3d.rs", "geometry/src/intersection.rs", "rendering/src/primitive_samplers.rs"],
     [("Transform", "geometry/src/transform.rs"), ("Sphere3D, Cylinder3D, Disk3D, Triangle3D, DistantSource3D: intersect, simple_intersect, world_bounds, area", "geometry/src/intersection.rs"),
      ("sphere_solid_angle_pdf, triangle_solid_angle_pdf, source_solid_angle_pdf", "rendering/src/primitive_samplers.rs")],
     ["geometry::{Transform, Sphere3D, Cylinder3D, Disk3D, Triangle3D, Plane3D, DistantSource3D}", "rendering::primitive_samplers"], "Placement",
     T + "Chains of signed permutations, shifts and scalings of a lattice are explored exactly (composition, inverses, normals, hands, boxes, first crossing); random chains and shapes are then followed step by step, every crossing of every ray being classified as certain, impossible or too close to an edge to tell. The length of transformed normals and the side of cylinders are not judged.")

prop("C24", "Radiation estimated from clouds is that of the published models, hour by hour",
     "Filling the solar radiation of a weather gives each record, by day, the global horizontal radiation of Zhang and Huang's equation with the average coefficients of Bre et al. (never negative; the temperature three records before, when there is one), the direct normal radiation of the DISC model corrected by DIRINT's coefficient (classes of clearness, zenith, stability and precipitable water of Ineichen, Perez et al. 1992; zero beyond 80 degrees of zenith; the stability from the radiation of the records before and after as they were given, at the height of the sun of the record itself), and the diffuse one that is left over; by night all are zero. "
     "Nothing is NaN or panics, other data and records stay as they were, and records are estimated from those given, not from those already filled. "
     "Called on their own, disc_direct_solar, perez_direct_normal_radiation, hourly_clearness_index and diffuse_fraction (Erbs) give the same values.",
     ["inputs", "histories"], "every place, instant, weather and neighbouring records",
     "The test of this estimation only writes a report; the one of the coefficients looks at three entries of each table by position, not at which entry is used.",
     ["weather/src/solar/mod.rs", "weather/src/lib.rs"],
     [("Weather::fill_solar_radiation_data", "weather/src/lib.rs"), ("Solar::direct_diffuse_from_cloud_generic, estimate_global_horizontal_radiation, disc_direct_solar, perez_direct_normal_radiation, diffuse_fraction", "weather/src/solar/mod.rs")],
     ["weather::Weather::fill_solar_radiation_data", "weather::Solar"], "Clouds",
     T + "Histories of up to four records are filled in the specification (numbers, night, balance, sorted classes, full table); recorded fillings and direct calls are recomputed, both classes being accepted within 1e-7 of an edge. With one neighbour missing half or all of the difference is accepted, with none the class of unknown stability too.")

prop("C25", "Walls and windows receive the radiation of what they see",
     "The view factors of a side of a surface are those of the scene in front of it: ground is the part of cosine-weighted rays that reaches nothing going down, what reaches nothing going up (s) is shared as sky s^1.5 and air s(1 - s^0.5), rays that hit something are air, and the three add up to one; its daylight coefficients get from each patch of the sky what reaches the side, directly or reflected, and nothing through other objects. "
     "Every step sets the long-wave irradiance of each side: outdoors sigma T^4 of the air for ground and air and the horizontal infrared radiation (derived by Clark and Allen's formula when it is not given) for the sky, that of its own surface next to a space, that of the ambient temperature next to an ambient, and unchanged elsewhere. "
     "The short-wave one moves, by day, half way from its previous value to the coefficients times the Perez sky, and is zero by night and on sides which are neither outdoors nor in a space; optical information is written to the file asked for, read back the same, and refused if it cannot be read.",
     ["inputs", "histories"], "every wall, window, boundary, weather and sequence of steps",
     "Tests look at a single surface in an empty scene, vertical or horizontal, and at one run against another program's results.",
     ["light/src/solar_surface.rs", "light/src/solar_model.rs", "light/src/optical_info.rs"],
     [("SolarSurface::calc_view_factors, calc_solar_dc_matrix, solar_irradiance", "light/src/solar_surface.rs"), ("SolarModel::march, update_ir_radiation, update_solar_radiation", "light/src/solar_model.rs"),
      ("OpticalInfo", "light/src/optical_info.rs")],
     ["light::SolarModel", "light::OpticalInfo"], "Radiation",
     T + "Histories of weather on every kind of side are explored (bounds between air and sky, no exchange with spaces, dark nights, half way every step); recorded steps are recomputed from the optical information used, and the views are compared with closed forms (tilted planes, facing rectangles) within six standard deviations of their sampling.")

prop("C26", "The text of a model is read whole, and a model written is the model read",
     "A .spl text is a list of entries (a known class and a JSON5 object) with blanks and comments around them, and, whatever the order of the entries and whatever the braces, quotes and comments inside of objects, it gives a model with exactly the objects written in it: those of each class in their order, with the values given, the last SiteDetails and SolarOptions, holes in walls with windows, and a state for each fenestration, HVAC and luminaire. "
     "Anything else (other classes or words, entries without end, malformed objects, unknown fields, vertices which are not triplets of numbers, references to constructions, spaces and surfaces that are nowhere) is an error which tells a line of an offending entry, never a panic, a hang or a part of the model. "
     "A model written as text or JSON, to a string or a file, is read again as the same model, and JSON fields are accepted in any order.",
     ["inputs", "round trips"], "every text, every model",
     "Tests read a few well-formed files, and never read back what they write.",
     ["model/src/scanner.rs", "model/src/model.rs"],
     [("SimpleScanner::skip_white_space, identifier, object, parse_model", "model/src/scanner.rs"), ("Display for Model, from_json, from_bytes, from_file, print_to_file, print_to_json_file", "model/src/model.rs"), ("Deserialize for Loop3D", "geometry/src/loop3d.rs")],
     ["model::Model::{from_bytes, from_file, from_json, from_json_file, print_to_file, print_to_json_file}"], "Spl",
     T + "The scanner is an automaton checked against documents put together piece by piece with their meaning, and against all short texts; recorded texts are scanned character by character by the same automaton. A comment that does not end, and in JSON references of surfaces and objects, are not judged.")

prop("C27", "Images are the same on file and in memory, and in false colours",
     "An image saved and read again has the same size, the same order of pixels (rows from the top) and the same colours within one part in 128 of its brightest component, the file being a Radiance picture any reader understands (four bytes per pixel, an exponent shared by three mantissas, zero for what is darker than 1e-19). "
     "A file without a size, in another order, of another format or whose body is not exactly four bytes for each pixel is an error, never a panic or a part of an image; the difference of two images is that of their radiances pixel by pixel, an error if their sizes differ. "
     "False colours place the luminance of each pixel between the minimum and maximum given (or zero, or 0.001 if logarithmic, and the brightest pixel), linearly or by logarithms, take the ends of the scale for what is out of it, and interpolate the colours of scales that go gradually from dark to bright.",
     ["inputs", "round trips"], "every image, file and scale",
     "Tests save one image and compare a few colours by eye; damaged files and automatic limits are not tried.",
     ["rendering/src/image.rs", "rendering/src/colourmap/mod.rs", "rendering/src/colour.rs"],
     [("ImageBuffer: save_hdre, from_file, diff, save_falsecolour, save_log_falsecolour", "rendering/src/image.rs"), ("Colourmap::map_linear", "rendering/src/colourmap/mod.rs")],
     ["rendering::image::ImageBuffer", "rendering::colourmap::Colourmap"], "Pictures",
     T + "Small images of whole colours are saved, cut and read exhaustively; recorded files are decoded by the specification byte by byte. False colours are written as JPEG, which the recorder decodes: colours are judged within ten of 255 levels there and exactly through map_linear.")

prop("C28", "Matrices on file are read as they were written, or refused",
     "A matrix saved as a file, of numbers or of colours, is read again with the same size and the same numbers (colours with five decimals), rows in order, and the file carries its kind and the numbers of rows, columns and components. "
     "A file is refused, without a panic, unless it announces rows and columns, it is of the kind asked for, and it has exactly as many lines as rows and as many numbers in each of them as columns times components, whatever the blanks between them. "
     "Radiance and luminance of matrices of colours are those of each colour, and the average of a matrix over its rows is the mean of each column.",
     ["inputs", "round trips"], "every matrix and file",
     "Tests read one file made by another program; nothing damaged is ever read, and nothing written is read again.",
     ["rendering/src/colour_matrix.rs"],
     [("save_colour_matrix, save_matrix, read_colour_matrix, read_matrix, colour_matrix_to_radiance, colour_matrix_to_luminance, average_matrix", "rendering/src/colour_matrix.rs")],
     ["rendering::colour_matrix"], "MatrixFiles",
     T + "Every damage to every small file is explored (a damaged file is never read); recorded files, whole, damaged or written by other hands, are parsed independently and judged by the same rule.")

prop("C29", "A camera sees each pixel along its own ray, and an image is what it sees",
     "The ray of a pixel of a pinhole camera starts at the view point and is a unit vector through the centre of the pixel, on a film whose width is the field of view, whose pixels are square, and whose rows go down and columns to the right of the view direction, whatever the lengths of the direction and the up given. "
     "A ray from the view point leads back to the pixel it goes through with weight one, or to weight zero if it goes backwards or out of the film; random samples are pixels of the film, and pixels are indexed by rows. "
     "A rendered image has the size of the film and each pixel is the radiance along its own ray: the colour of the sky where nothing is, that of a light it hits, that of what a mirror shows, and black if no more bounces are allowed.",
     ["inputs"], "every view, film, direction and number of samples",
     "Tests go through square films only, and compare images of big scenes by eye.",
     ["rendering/src/camera/pinhole.rs", "rendering/src/camera/view.rs", "rendering/src/camera/camera_trait.rs", "rendering/src/ray_tracer.rs"],
     [("Pinhole::gen_ray, pixel_from_ray, gen_random_sample", "rendering/src/camera/pinhole.rs"), ("RayTracer::render, render_into, trace_ray", "rendering/src/ray_tracer.rs")],
     ["rendering::{Pinhole, View, Film, Camera}", "rendering::RayTracer::render"], "Camera",
     T + "Every pixel of small films is explored for several views (each leads back to itself, in order, within the field of view); recorded rays, pixels and images of an affine sky with a light, a mirror or a matt triangle in it are recomputed, pixels within 1e-6 of an edge being free.")

prop("C30", "Light goes its paths: no energy is lost or made, each light counts once",
     "Among surfaces which absorb nothing, under an even sky of one, every ray brings one, and a point receives pi from the patches of the sky; the paths stopped by lot leave the average what it is, and none is followed beyond the limit of bounces. "
     "A mirror reflects, a pane of glass reflects and transmits straight, and a dielectric reflects and refracts, in the directions and shares of Snell and Fresnel (the pane with all its inner reflections); light a dielectric reflects stays in the medium it was in, light it transmits enters the other, and what a body of dielectric takes in leaves it through its faces by those rules. "
     "A matt surface shows of each small light or sun in front of it, not hidden, colour times radiance times cosine times solid angle over pi; hidden lights, and those behind it, add nothing to what it shows, and a mirror shows the lights and suns it reflects once.",
     ["inputs"], "every scene, material, ray, limit and random choice",
     "Tests compare averages of whole images with reference values, with tolerances that hide a lost bounce or a wrong medium.",
     ["rendering/src/ray_tracer.rs", "rendering/src/daylight_coefficients.rs", "rendering/src/material/mod.rs", "rendering/src/material/dielectric.rs", "rendering/src/material/glass.rs", "rendering/src/material/mirror.rs", "rendering/src/material/diffuse.rs", "rendering/src/material/specular.rs"],
     [("RayTracer::trace_ray, get_local_illumination", "rendering/src/ray_tracer.rs"), ("Material::sample_bsdf", "rendering/src/material/mod.rs"), ("Glass::sample_bsdf", "rendering/src/material/glass.rs"), ("Dielectric::sample_bsdf", "rendering/src/material/dielectric.rs"), ("DCFactory::calc_dc", "rendering/src/daylight_coefficients.rs")],
     ["rendering::RayTracer", "rendering::material::*", "rendering::DCFactory::calc_dc"], "LightPaths",
     T + "Every path of matt surfaces and mirrors up to the bound is explored (each light counted once, weights those of the reflectances met); recorded scenes (closed and open white ones, one surface, a dielectric block, small lights with something between, beside or beyond) are recomputed way by way, with how often each is taken within six deviations. Lobes of plastics and metals of specularity above zero and lights that look large are not judged.")
