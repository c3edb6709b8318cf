"""Writes /verif/properties.jsonl (one place to keep the wording)."""
import json
import os
P = []


def add(id, title, statement, over, text, why, files, mech, observe,
        state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c)
                            for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))


LW, PT = 'dorado/lagrangian_walker.py', 'dorado/particle_track.py'
RO, SP = 'dorado/routines.py', 'dorado/spatial.py'
PR = 'dorado/parallel_routing.py'

add('C01', 'Routing weights are valid at every cell of every domain',
    'For every accepted depth, stage, discharge and cell-type field and every gamma in [0,1], theta >= 0 and dry depth, each routing weight of a cell towards itself and its eight neighbours is non-negative (an undefined weight counts as zero), and cells on the outermost row or column have none. An option that is land or not deeper than the dry depth has zero weight, except in a dead end (no option with positive weight by the routing formula), where exactly the deepest of the nine cells are selected, with equal weight. Hence every interior cell has at least one positive weight.',
    ['inputs', 'configurations'],
    'all real-valued fields on the grid, all cell types, gamma, theta and '
    'dry depth',
    'Tests compare a few hand-made 3x3 to 5x5 fields; a sign, masking or '
    'normalisation slip that needs a particular wet/dry pattern, a '
    'zero-slope cell or undefined stage is not among them.',
    [LW, PT],
    [('per-component masking, normalisation, dead-end rule, border clearing',
      LW + ': make_weight, clear_borders, big_sliding_window')],
    ['routing weights of a constructed particle object'])
add('C02', 'Routing probabilities follow the documented gamma/theta formula',
    'At a cell with a downstream option, the weight towards an admissible '
    'neighbour is its depth to the power theta times gamma * S + (1-gamma) * '
    'I, where S is the positive part of the water-surface drop over the step '
    'length and I the positive part of the discharge projected on the step '
    'direction over the step length, each normalised by its sum over the '
    'admissible neighbours (or zero when that sum is zero). Nothing '
    'else about the fields, the grid shape or the position influences it.',
    ['inputs', 'configurations'],
    'all fields, gamma in [0,1], theta >= 0, positions and (non-square) '
    'grid shapes',
    'Tests pin a handful of numeric weights; swapped axes, a wrong neighbour '
    'order or a wrong exponent can coincide with them on symmetric inputs.',
    [LW],
    [('surface-slope and inertial components, gamma blend, theta power',
      LW + ': make_weight'),
     ('neighbour stacking', LW + ': big_sliding_window, tile_local_array, '
      'tile_domain_array')],
    ['routing weights of a constructed particle object'])
add('C03', 'Random selection is proportional to weight, never weightless',
    'Given any weights, the random choice maps the uniform draw onto the '
    'options so that each option is chosen on a set of draws whose measure is '
    'its share of the total weight. An option with zero or undefined weight '
    'is never chosen; if no option has weight the particle stays where it '
    'is. Random seeding picks each listed location with equal share, and '
    'never anything else.',
    ['inputs', 'histories'],
    'all weight vectors (including zeros and undefined entries) and every '
    'value of the random draw including its end points',
    'Tests fix one seed or one certain outcome; the distribution over all '
    'draws and the end points of the draw are never exercised.',
    [LW], [('cumulative sum and search', LW + ': random_pick, '
            'random_pick_seed, get_weight')],
    ['chosen cell as a function of the draw'])
add('C04', 'Steepest descent takes a maximal-weight option or stays',
    'With steepest descent enabled a particle moves only to a neighbour whose weight is the maximum over all options of the cell, ties being broken with equal chance, and never to an option of zero or undefined weight. If the current cell alone carries the maximum, or no option has any weight, the particle stays; asking again at the same cell offers the same choice.',
    ['inputs', 'histories'],
    'all weight vectors, all draws, repeated visits',
    'Tests use one weight vector with a unique maximum away from the centre.',
    [LW], [('maximum selection', LW + ': steep_descent, get_weight')],
    ['chosen cell as a function of weights and draw'])
add('C05', 'A step stays in the domain and moves to an adjacent cell',
    'From any cell of any domain and for every draw, one step leaves the particle inside the grid, at its cell or at the adjacent cell that was selected. A particle on, or next to, a cell marked as domain edge never moves again, also when it is on the first or last row or column.',
    ['inputs', 'histories'],
    'all start cells, weights, cell types and draws; sequences of steps',
    'Tests step from interior cells of one or two domains; start cells on '
    'the border, corner or next to an edge with arbitrary draws are not '
    'covered.',
    [LW, PT], [('boundary check', LW + ': check_for_boundary, '
                'particle_stepper, calculate_new_ind'),
               ('boundary test in target-time loop',
                PT + ': Particles.run_iteration')],
    ['positions appended to the walk history'])
add('C06', 'Travel time is the projected step over harmonic mean speed',
    'The time added by a step equals half the step length times the positive '
    'part of its projection on the flow direction at the origin, times the '
    'sum of the inverse speeds at origin and destination, times one plus the '
    'dispersion coefficient times a draw in [-1/2, 1/2]. It is finite and '
    'never negative for a coefficient below 2, zero for a step that does '
    'not move and for steps '
    'orthogonal to or against the flow, and a diagonal step is sqrt(2) cells '
    'long.',
    ['inputs', 'histories'],
    'all velocity fields, step directions, cell sizes, dispersion '
    'coefficients and draws',
    'Tests evaluate one or two velocity fields without dispersion.',
    [LW, PT], [('projection and inverse mean speed',
                LW + ': calc_travel_times, step_update'),
               ('velocity, its floor and its angle',
                PT + ': Particles.__init__')],
    ['travel times in the walk history'])
add('C07', 'Walk histories are append-only, aligned and complete',
    "Each iteration extends every moved particle's positions, times and tracked variables by exactly one entry and leaves all earlier entries and all unmoved particles unchanged, so that the lists of a particle always have equal length, times never decrease, and consecutive positions differ. Every tracked variable equals the model's grid value at the recorded position (the region flag is 1 exactly inside the region). Particles do not influence each other.",
    ['histories', 'inputs'],
    'all step sequences of several particles, sets of tracked variables, '
    'draws',
    'Tests run one or two particles with a fixed seed and check one entry.',
    [PT, LW], [('history bookkeeping', PT + ': Particles.run_iteration'),
               ('tracked variables', LW + ': particle_stepper')],
    ['returned walk data and the object\'s walk data'],
    [('walk data', 'positions, times and tracked variables per particle',
      PT + ': Particles.walk_data')])
add('C08', 'Target-time runs stop as near the target as the step allows',
    "With a target time, each particle takes further steps exactly while its expected next time (its last time plus its last step's duration, taken as at least 0.1) is at least as near to the target as its last time, unless it is at an edge, cannot move, or has taken as many steps as the iteration limit allows. The result covers all particles, also when there are none. The warning about the iteration limit names exactly the particles that reached it.",
    ['histories', 'inputs', 'configurations'],
    'all histories, travel times, target times, iteration limits',
    'Tests use one particle and one target; last-step lengths of zero, '
    'several limited particles and no particles are not exercised.',
    [PT], [('target-time loop', PT + ': Particles.run_iteration')],
    ['walk data', 'warnings'])
add('C09', 'Particle generation honours counts, locations and history',
    "Generating particles adds exactly the requested number, each starting at one of the given rows and one of the given columns with the seed time and the tracked grid values there, after all earlier particles (previous data first, then the object's own), whose histories are kept unchanged and aligned. Exact seeding gives the paired locations counts that differ by at most one, earlier ones first; random seeding can reach every listed coordinate. Invalid arguments are rejected.",
    ['inputs', 'histories', 'configurations'],
    'all counts, location lists, methods, previous data and tracked '
    'variables',
    'Tests use one or two locations and one prior set.',
    [PT, LW], [('seeding', PT + ': Particles.generate_particles, '
                'gen_input_check'),
               ('random choice', LW + ': random_pick_seed')],
    ['walk data after generation'])
add('C10', 'Equivalent model inputs give the same hydrodynamic state',
    'Depth, stage and bed elevation are mutually consistent whichever two are given; undefined depth or flow values act as zero; x/y flow input is rotated into row/column components unless the source model already uses them; discharge input and the corresponding velocity input give the same velocities and discharges. Speed is positive everywhere and the flow direction is that of the flow. Missing required inputs are rejected and omitted options take their documented defaults.',
    ['inputs', 'configurations'],
    'all fields including undefined entries, every accepted combination of '
    'inputs',
    'Tests check single combinations on constant fields.',
    [PT], [('input completion', PT + ': Particles.__init__')],
    ['depth, stage, discharge, velocity and direction fields'])
add('C11', 'Building and walking never corrupt the model inputs',
    'Constructing particles twice from the same parameters gives the same model, and constructing or walking particles leaves defined values of the given fields, the cell types and the routing choices unchanged. Running the same walk with the same random draws gives the same history, independently of what other particle objects did.',
    ['inputs', 'histories', 'configurations'],
    'all fields, input kinds and draws',
    'Tests construct each object once.',
    [PT, LW], [('field setup without aliasing', PT + ': Particles.__init__'),
               ('choice functions', LW + ': random_pick, steep_descent')],
    ['fields of two objects', 'walk histories'])
add('C12', 'Exposure time accounts for all travel time, half at crossings',
    'A particle\'s exposure time is the sum over its steps of the step '
    'duration times one, one half or zero as both, one or none of the step\'s '
    'end points lie in the region. Hence exposure to a region and to '
    'its complement add up to the particle\'s total travel time, exposure '
    'lies between zero and that total, and results come in particle order.',
    ['inputs', 'histories'],
    'all histories, regions and times',
    'Tests use two tiny walks.',
    [PT, LW], [('step accounting', PT + ': exposure_time')],
    ['returned exposure times'])
add('C13', 'Nourishment area counts visits, normalised to one',
    'Without smoothing, the nourishment area of a cell is its number of '
    'visits, clipped at the requested percentile of all cells and divided '
    'by the largest clipped value, and undefined where never visited. Values '
    'lie in [0,1] with maximum one, with smoothing as well, where the '
    'ordering comes from the Gaussian-filtered clipped counts. Particle '
    'and visit order do not matter.',
    ['histories', 'inputs'],
    'all walk histories, domain shapes, clip percentiles',
    'Tests use one walk.',
    [PT], [('visit count and clipping', PT + ': nourishment_area')],
    ['returned raster'])
add('C14', 'Nourishment time averages the occupation time per visit',
    'Without smoothing, the nourishment time of a cell is the mean, over all '
    'visits that are neither the first nor last record of a particle, of half '
    'the time of the step into and half the time of the step out of it, '
    'clipped at the requested percentile over all cells; cells never '
    'so visited, or with zero time, are undefined. Smoothing applies a '
    'Gaussian filter to that field. All values are non-negative.',
    ['histories', 'inputs'],
    'all walk histories and times',
    'Tests use one walk.',
    [PT], [('time accumulation', PT + ': nourishment_time')],
    ['returned raster'])
add('C15', 'Coordinates and raster indices convert consistently',
    'Converting raster indices to coordinates and back returns the same '
    'indices for every origin, cell size and (non-square) raster shape. '
    'Converting coordinates to indices and back moves a point by at most half '
    'a cell in each direction. Rows count downwards from the top, columns '
    'rightwards from the origin, and the walk data keeps its other content.',
    ['inputs'],
    'all coordinates, origins, raster sizes and cell sizes',
    'Tests convert two points on one raster.',
    [PT], [('index transforms', PT + ': coord2ind, ind2coord')],
    ['returned indices and coordinates'])
add('C16', 'Gridded values interpolate the nearest unstructured data',
    'Gridding covers the extent of the points with the requested cell size, top row at the largest y, and assigns each cell the value of the nearest point or the inverse-distance weighted mean of the k nearest points. Hence values stay within the range of the data, constants are reproduced, and a cell on a data point takes its value; cells outside a given boundary are undefined, and cropping removes the border rows and columns that are wholly undefined and nothing else. The returned interpolator applied to other data gives the same as gridding that data.',
    ['inputs', 'configurations'],
    'all data values, point sets, cell sizes, k, boundaries',
    'Tests grid one or two point sets.',
    [PT], [('interpolation', PT + ': unstruct2grid')],
    ['returned rasters and interpolator'])
add('C17', 'Flux-proportional seeding is exact and proportional',
    'The particle counts per time step are non-negative whole numbers that add up exactly to the requested total, each differing from the exact share of the absolute discharge by less than one. Leftover particles go to the steps with the largest fractional share, for row and column input alike. Too few steps or zero total discharge is rejected.',
    ['inputs'],
    'all discharge series (with reversals), totals and shapes',
    'Tests use one or two series.',
    [PT], [('largest remainder', PT + ': flux_proportional_seeding')],
    ['returned counts'])
add('C18', 'State queries return the right entry of each history',
    'Asking for the state at an iteration returns, for each particle, the position, time and every tracked variable recorded at that iteration, or at its last one if it has fewer (or none is given). Asking for the state at a time returns for each particle the record whose time is nearest to it. The walk data is unchanged.',
    ['histories', 'inputs'],
    'all histories of different lengths, iterations, times',
    'Tests ask one or two questions of one history.',
    [RO], [('state lookup', RO + ': get_state, get_time_state')],
    ['returned state lists'])
add('C19', 'Spatial statistics assign each particle to its own window',
    "The systemwide and localized statistics tile the domain with non-overlapping windows of the given size (the last row and column of windows taking the remainder) and attribute each particle to exactly the one window in which it starts. A window's result is the list of the exposure times of its own particles, in particle order, to the whole region (systemwide) or to the region inside that window (localized). It is undefined exactly when the window contains no region cell.",
    ['inputs', 'histories', 'configurations'],
    'all histories, regions, domain and window sizes',
    'Tests use one domain and one window size.',
    [SP], [('window partition', SP + ': systemwide, localized, '
            '_find_common_indices_info')],
    ['returned maps'])
add('C20', 'Outlier filter and percentile maps are exact and ordered',
    "The outlier filter replaces each defined cell by the mean of those defined values of the window around it (clipped at the edges) that deviate from the window's median by at most the given multiple of the median absolute deviation, or by the median if that deviation is zero, and leaves undefined cells undefined. A percentile read from a cumulative curve is the first grid value at which the curve reaches the level, undefined if it never does. The unsmoothed 50, 75 and 90 percent maps have one entry per window, never decrease from one to the next, lie within the range of the window's non-zero exposure times, scale with the time unit, and are undefined for windows with fewer than five distinct non-zero exposure times.",
    ['inputs'], 'all value sets, thresholds and percentages',
    'Tests use one array.',
    [SP], [('filter and thresholds', SP + ': median_absolute_deviation_filter, '
            'percentile_from_cdf, compute_thresholds')],
    ['returned arrays'])
add('C21', 'Exposure-time curves are valid distributions',
    'The plotted cumulative exposure curve starts at zero at time zero, rises by one over the number of particles at each exposure time that is positive and below 99 percent of the end time, never decreases, and ends at the end time with the fraction of such particles; the differential curve is its numerical derivative, and both are in the chosen time unit. Any walk data a run produces is accepted, with or without tracked variables, and the exposure times saved are those given; every reported threshold time is the first at which the curve reaches the threshold, and a threshold that is not reached is reported as such.',
    ['inputs', 'histories'],
    'all exposure times, walk data with any tracked variables',
    'Tests only check that files appear.',
    [RO], [('curves', RO + ': plot_exposure_time, '
            'plot_exposure_time_thresholds')],
    ['curve data handed to the plotter', 'returned values'])
add('C22', 'Parallel routing equals independent serial runs',
    "Routing with several cores yields, for every core, one complete result with its own particles, each equal to a serial run of the requested iterations with that core's random draws; the cores use independent random streams. Combining results keeps every particle's full history, in core order, exactly once.",
    ['schedules', 'inputs', 'configurations'],
    'all numbers of cores, particles, iterations, completion orders',
    'Tests run two cores and look at types.',
    [PR], [('worker and combination', PR + ': run_iter, combine_result, '
            'parallel_obj, parallel_routing')],
    ['returned list and combined data'])
add('C23', 'Simulation drivers advance, save and return the same history',
    "The steady, time-coloured and unsteady drivers advance the particles by exactly the requested iterations or to the requested times, draw one picture per iteration or time step of the current positions, and return the final walk data, which is what they save. The unsteady driver routes each time step on the fields loaded for that step, in order, up to that step's time. They accept particles with or without tracked variables.",
    ['histories', 'configurations', 'inputs'],
    'all iteration counts, time series, file orders, draws',
    'Tests run one or two iterations of one example.',
    [RO], [('drivers', RO + ': steady_plots, time_plots, unsteady_plots')],
    ['returned data, saved data, calls to the walker'])
add('C24', 'Path and state plots show the recorded positions',
    "Path plots draw each selected particle's recorded positions at the requested interval, in order, column on the horizontal and row on the vertical axis, and state plots draw each particle's position at the requested iteration or time. Snake plots draw only segments of positions recorded up to the frame's iteration by particles that have got that far, among them the newest. The walk data is not changed by plotting, and tracked variables do not matter.",
    ['histories', 'configurations'],
    'all histories, particle selections, iterations',
    'Tests only check that a figure file appears.',
    [RO], [('plots', RO + ': draw_travel_path, plot_state, snake_plots')],
    ['data handed to the plotter'])
add('C25', 'The deprecated verbosity switch maps onto log levels',
    'Setting the verbosity switch to true or false sets the package log level to informational or errors-only and warns about deprecation; leaving it unset changes nothing and does not warn, also in every routine that takes the switch, whose messages appear accordingly. Setting the level by name accepts any case, refuses unknown names without effect, and setting up logging repeatedly attaches one handler at most, the given one if there is one and none was attached.',
    ['configurations', 'histories'], 'switch values, initial levels, handlers, call orders, message levels',
    'Tests cover the individual values.',
    ['dorado/logging_config.py', RO, PT],
    [('level mapping', 'dorado/logging_config.py: setup_logging, '
      'handle_verbose_deprecation')],
    ['log level, handlers, messages shown, warnings'])
add('C26', 'Heat maps and percentile maps are drawn to scale',
    "The nourishment plots draw one picture of the map's shape whose colours run linearly from the smallest defined value to one (area) or to the largest defined value (time, which the colour bar shows too), with opacity that never falls as the value rises, lies between the given least opacity and one, and is full at the largest value; undefined cells stay blank. The background is the given grid, the seed marker is at the first particle's first location (column, row) and only if asked for, and a figure that is already open is used. The percentile plot shows the maps in order, each over the elevation and stretched over the whole domain with rows counted downwards, with even levels from zero to the given limit. None of the inputs is changed.",
    ['inputs', 'configurations'],
    'all positive maps with undefined cells, opacities, limits',
    'No test calls the percentile plot, and the others only look for a figure.',
    [RO, SP], [('heat maps', RO + ': show_nourishment_area, '
            'show_nourishment_time'), ('percentile plot', SP + ': plot_spatial')],
    ['data handed to the plotter'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
