#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note, observe=list(observe))


PROPS = [
    P('C01', 'JIT and SciPy execution give the same simulation',
      'For any fieldset, any release of particles and any of the shipped kernels, running the simulation with compiled (JIT) particles and with pure-Python (SciPy) particles gives the same trajectories, the same particle times and variables, and the same set of surviving particles, up to floating-point rounding.',
      ['inputs', 'configurations'],
      'every grid type, mesh, interpolation method, time axis, release and built-in kernel',
      'The tests run both modes on a few hand-written flows and compare each to a loose analytic answer; agreement on arbitrary grids, data and starting points is never compared.',
      ['parcels/kernel.py', 'parcels/field.py', 'parcels/include/parcels.h', 'parcels/include/index_search.h', 'parcels/compilation/codegenerator.py'],
      [('execute_jit / execute_python', 'parcels/kernel.py'), ('spatial interpolation', 'parcels/field.py and parcels/include/parcels.h')],
      'differential property-based testing (Hypothesis)',
      'generated fieldsets and releases executed in both modes and compared step by step; chaotic amplification bounded by few steps'),
    P('C02', 'Sampling a field returns the documented interpolation of its data',
      'Sampling a scalar field at any position and time inside its domain returns the value that its chosen interpolation method (linear, nearest neighbour, inverse-distance near land, C-grid tracer, B-grid tracer) defines on the grid cell and depth and time interval containing that point, linear in time, converted to the mesh\'s units. This holds in both execution modes, on rectilinear and curvilinear, z-level and terrain-following (also time-varying) grids, whatever the particle sampled before; a position or time outside the domain is reported as the corresponding out-of-bounds, through-surface or time-extrapolation error instead of a value.',
      ['inputs', 'histories', 'configurations'],
      'every grid, data array, interpolation method, particle position and time, and order of sampling',
      'Tests sample a handful of analytic fields at a few points on one or two grids per method; cell edges, irregular and descending axes, rotated meshes and index caching across calls are not covered.',
      ['parcels/field.py', 'parcels/include/index_search.h', 'parcels/include/parcels.h', 'parcels/grid.py', 'parcels/tools/converters.py'],
      [('index search', 'parcels/field.py search_indices*, parcels/include/index_search.h'), ('interpolators', 'parcels/field.py interpolator2D/3D, parcels/include/parcels.h'), ('unit conversion', 'parcels/tools/converters.py')],
      'property-based testing against a reference interpolator (Hypothesis)',
      'independent float64 reference interpolator over all admissible cells'),
    P('C03', 'Sampled velocities follow the grid staggering convention',
      'Sampling the velocity vector at any point inside the domain returns, for A-, B- and C-grid data, the velocity defined by the grid\'s staggering and indexing convention (NEMO, MITgcm, MOM5 or POP): component-wise interpolation on an A-grid, corner velocities on a B-grid, and flux-consistent face interpolation within the possibly rotated cell on a C-grid. The result is expressed per mesh unit, identical in both execution modes and independent of previously sampled positions.',
      ['inputs', 'configurations', 'histories'],
      'every staggering, indexing convention, grid shape and orientation, depth axis, velocity data and sample position',
      'Tests use one small file per model and compare a few numbers or uniform flows, which hide index shifts, Jacobian and rotation errors.',
      ['parcels/field.py', 'parcels/include/parcels.h', 'parcels/fieldset.py'],
      [('VectorField interpolation', 'parcels/field.py spatial_c_grid_interpolation*, parcels/include/parcels.h')],
      'property-based testing against a reference C/B-grid interpolator (Hypothesis)',
      'reference computed from cell geometry and face fluxes, plus uniform-flow and no-flow-through-closed-face relations'),
    P('C04', 'A user kernel means the same compiled as interpreted',
      'Any kernel written in the supported Python subset (arithmetic, comparisons and boolean logic, conditionals, while loops, local variables, math and random functions, particle variables, constants, field sampling, deletion) has in JIT mode exactly the effect that the Python code has when interpreted, up to floating-point rounding; code that cannot be compiled faithfully is refused. Combining kernels runs them one after the other for every particle in the order given.',
      ['programs'],
      'every kernel program in the supported subset and every particle state',
      'Tests compile about twenty fixed kernels; operator precedence, nesting, control flow and statement ordering combine in ways only generated programs reach.',
      ['parcels/compilation/codegenerator.py', 'parcels/kernel.py', 'parcels/compilation/codecompiler.py'],
      [('KernelGenerator and LoopGenerator', 'parcels/compilation/codegenerator.py'), ('kernel merging', 'parcels/kernel.py')],
      'generated kernel programs, differential JIT vs Python (Hypothesis)',
      'grammar-based program generator; the oracle is CPython executing the same function'),
    P('C05', 'Advection and diffusion kernels implement their numerical schemes',
      'One execution step of each shipped advection kernel (Euler, RK4 in two and three dimensions, adaptive RK45, analytical) moves a particle exactly as the published scheme prescribes for the velocity field as sampled, and the diffusion kernels add the increments of their stochastic scheme for the field diffusivities and the same random numbers, forward and backward in time.',
      ['inputs', 'histories'],
      'every velocity and diffusivity field, starting position, time step (either sign) and tolerance',
      'Tests check convergence to analytic trajectories with loose tolerances for one flow each, which a wrong stage weight, stage time or random increment can survive.',
      ['parcels/kernels/advection.py', 'parcels/kernels/advectiondiffusion.py', 'parcels/rng.py'],
      [('kernels', 'parcels/kernels/advection.py, parcels/kernels/advectiondiffusion.py')],
      'property-based testing against reference integrators (Hypothesis)',
      'reference integrators over an exact reference velocity; both modes'),
    P('C06', 'Every particle is stepped from its start to exactly the end time',
      'During an execution every particle is advanced from its own start time to exactly the requested end time, forward or backward, in consecutive steps of the requested size, only the last of which (or one before an output or release time) may be shorter, and the kernel is called once per step with the particle\'s current time and that step. Particles released in the future wait for their release time, and a zero-length or zero-step execution calls the kernel exactly once without changing time.',
      ['inputs', 'histories', 'configurations'],
      'every combination of start times, time step, runtime or end time, output interval and direction, including incommensurate ones',
      'Tests use a few commensurate combinations; off-by-one steps and drift appear for particular ratios, delayed starts and repeated executions only.',
      ['parcels/particlesets/baseparticleset.py', 'parcels/kernel.py', 'parcels/compilation/codegenerator.py'],
      [('execute loop', 'parcels/particlesets/baseparticleset.py execute'), ('inner time loops', 'parcels/kernel.py, LoopGenerator in parcels/compilation/codegenerator.py')],
      'model-based testing of the stepping schedule (Hypothesis)',
      'kernels accumulate call counts, dt sums and times; compared with a schedule model in both modes'),
    P('C07', 'Trajectories do not depend on how the run is organised',
      'A particle\'s trajectory is the same whether the simulation is executed in one go or in several consecutive executions, with or without an output file and at whatever output interval that is a multiple of the time step, whether the particle is run alone or together with any other particles in any order, and whether kernels are handed over as a function or as a kernel object.',
      ['histories', 'schedules', 'configurations'],
      'every way to split, batch, order and observe the same simulation',
      'Each test runs one organisation of a run; no test compares two organisations on generated simulations.',
      ['parcels/particlesets/baseparticleset.py', 'parcels/kernel.py', 'parcels/include/index_search.h'],
      [('execute loop', 'parcels/particlesets/baseparticleset.py'), ('per-particle state', 'parcels/particlesets/collectionsoa.py')],
      'metamorphic property-based testing (Hypothesis)',
      'same generated simulation organised in several ways, bitwise or near-bitwise comparison'),
    P('C08', 'Deferred and chunked loading is invisible in the results',
      'A simulation gives the same trajectories and sampled values whether the field data are loaded entirely in memory, loaded time slice by time slice when needed, or read in chunks of any size, forward and backward in time, for any distribution of time slices over files and for subsets of indices.',
      ['configurations', 'histories'],
      'every chunking, number of files and time slices, direction of time, and particle path',
      'Tests try a few chunk sizes on one dataset and check the number of loaded chunks or one value; stale or missing slices depend on the path and the time order.',
      ['parcels/field.py', 'parcels/fieldset.py', 'parcels/fieldfilebuffer.py', 'parcels/grid.py', 'parcels/kernel.py'],
      [('computeTimeChunk', 'parcels/field.py, parcels/fieldset.py'), ('chunk loading', 'parcels/field.py chunk_setup/chunk_data, parcels/kernel.py load_fieldset_jit'), ('file buffers', 'parcels/fieldfilebuffer.py')],
      'differential property-based testing over loading configurations (Hypothesis)',
      'generated NetCDF files; eager in-memory fieldset is the oracle'),
    P('C09', 'Time-periodic and extrapolated fields wrap or clamp in time',
      'With a time-periodic fieldset, sampling at time t gives the value at t shifted by a whole number of periods into the data range, for any number of periods forward or backward; with time extrapolation allowed, sampling outside the time range gives the first or last snapshot, and without it a time-extrapolation error.',
      ['inputs', 'configurations', 'histories'],
      'every period, time axis, sampling time and loading mode',
      'Tests check one or two periods of one axis in one direction.',
      ['parcels/field.py', 'parcels/grid.py', 'parcels/include/index_search.h', 'parcels/fieldset.py'],
      [('time search', 'parcels/field.py time_index, parcels/include/index_search.h search_time_index')],
      'property-based testing against a reference time model (Hypothesis)',
      'reference value by modular arithmetic on the time axis; both modes; memory and deferred loading'),
    P('C10', 'Fields are imported and exported faithfully',
      'A fieldset built from arrays, from NetCDF files or from xarray datasets holds, for every variable, exactly the source values at the source coordinates after the requested operations (index subsetting, transposition, latitude or depth reordering, masking of NaN and out-of-range values, scaling, time stamping, concatenation of files), and writing a fieldset and reading it back gives the same fields. The source arrays and settings of one variable never leak into another.',
      ['inputs', 'configurations'],
      'every data array, coordinate set, dimension order, index range, file split and variable mapping',
      'Tests use a few fixed shapes (often all variables alike and symmetric), which hide transposition, leakage and off-by-one indexing.',
      ['parcels/fieldset.py', 'parcels/field.py', 'parcels/fieldfilebuffer.py', 'parcels/grid.py'],
      [('constructors', 'parcels/fieldset.py from_*'), ('Field.reshape, from_netcdf, write', 'parcels/field.py')],
      'round-trip and differential property-based testing (Hypothesis)',
      'generated datasets written to scratch NetCDF; oracle is plain numpy indexing of the source'),
    P('C11', 'A periodic halo extends fields periodically',
      'After adding a zonal and/or meridional periodic halo of any size up to the size of the domain, every point of the extended domain samples to the value of the periodically equivalent point of the original domain, coordinates continue with the period of the domain, the original data are unchanged, positions beyond the halo are out of bounds, and all fields (members of summed and nested fields included) are extended consistently in every loading mode.',
      ['inputs', 'configurations'],
      'every grid, halo size and direction, and sample position',
      'Tests check one halo size on one analytic field.',
      ['parcels/field.py', 'parcels/grid.py', 'parcels/fieldset.py'],
      [('add_periodic_halo', 'parcels/field.py, parcels/grid.py, parcels/fieldset.py')],
      'property-based testing against a periodic reference (Hypothesis)',
      'reference is numpy padding and modular coordinates'),
    P('C12', 'Summed and nested fields combine their members as documented',
      'Sampling a summed field gives the sum of the samples of its members, and sampling a nested field gives the sample of the first member for which the point is not out of bounds, for scalar and vector fields in any combination and in both execution modes. A sum reports the error of a member that cannot be sampled; a nested field reports out of bounds only when no member contains the point, and reports any other error of the member in turn (time extrapolation, through surface) at once.',
      ['inputs', 'configurations'],
      'every list of member fields on different grids and every sample position',
      'Tests combine two or three uniform fields.',
      ['parcels/field.py', 'parcels/fieldset.py', 'parcels/compilation/codegenerator.py'],
      [('SummedField, NestedField', 'parcels/field.py'), ('generated evaluation code', 'parcels/compilation/codegenerator.py')],
      'property-based testing, members sampled separately as oracle (Hypothesis)',
      'members sampled separately and combined by the definition'),
    P('C13', 'A particle set behaves as an ordered collection of independent particles',
      'After any sequence of creating, adding, removing (by position, by identity, by condition), slicing, iterating, indexing and assigning, a particle set contains exactly the particles a list model predicts, in order, each with its own unchanged values for every variable and with an id that is unique and never reused.',
      ['histories'],
      'every finite sequence of collection operations with valid and invalid arguments',
      'Tests perform each operation once from a fresh set; corruption comes from sequences.',
      ['parcels/particlesets/particlesetsoa.py', 'parcels/particlesets/collectionsoa.py', 'parcels/particlesets/iterators.py'],
      [('SoA storage operations', 'parcels/particlesets/collectionsoa.py')],
      'stateful model-based testing (Hypothesis)',
      'generated operation sequences against a list-of-dicts model'),
    P('C14', 'Errors and deletion of one particle do not disturb the others',
      'When a particle leaves the domain, hits a sampling or kernel error or is deleted at any step, exactly the recovery action given for that kind of error runs for that particle and no other; deleted particles disappear and are never executed again, recovered particles continue to the end time, an error without recovery is raised to the caller, and every other particle finishes exactly as if the failing one had not been there.',
      ['inputs', 'fault_sequences', 'histories'],
      'every subset of failing particles, failing step and recovery mapping',
      'Tests fail or delete one pattern of particles with one recovery kernel.',
      ['parcels/kernel.py', 'parcels/tools/statuscodes.py', 'parcels/particlesets/baseparticleset.py', 'parcels/compilation/codegenerator.py'],
      [('error handling loop', 'parcels/kernel.py execute'), ('recovery map', 'parcels/tools/statuscodes.py')],
      'fault-injecting property-based testing with a per-particle model (Hypothesis)',
      'kernels that fail or delete on scripted steps; model predicts state of every particle in both modes'),
    P('C15', 'The output file records every particle at every output time, once',
      'After export the trajectory file contains, for every particle that existed, one row with exactly one observation of every written variable per output time at which it was alive and started and one when it was deleted by a kernel (or only the latter if so requested), in time order, with the values the particle had at that time; write-once variables are recorded once, variables not to be written are absent, and memory-buffered pieces never lose, duplicate or reorder data.',
      ['histories', 'inputs', 'configurations'],
      'every release pattern, deletion pattern, output interval, direction of time, variable set and number of buffered pieces',
      'Tests check counts for a few patterns.',
      ['parcels/particlefile.py', 'parcels/particlesets/collectionsoa.py', 'parcels/particlesets/particlesetsoa.py'],
      [('ParticleFile write and export', 'parcels/particlefile.py'), ('toDictionary', 'parcels/particlesets/collectionsoa.py')],
      'model-based testing of recorded histories (Hypothesis)',
      'expected observation table predicted from the schedule and compared with the exported NetCDF'),
    P('C16', 'Restarting from an output file continues the simulation',
      'Creating a particle set from an exported trajectory file at its last (or a given earlier) time restores every particle alive then, with its identity, position, time and variables, so that continuing the run gives the same trajectories as the uninterrupted run.',
      ['histories', 'crash_points'],
      'every run, restart time, release and deletion pattern',
      'One test restarts one run at one time.',
      ['parcels/particlesets/particlesetsoa.py', 'parcels/particlesets/baseparticleset.py', 'parcels/particlefile.py'],
      [('from_particlefile', 'parcels/particlesets/particlesetsoa.py')],
      'metamorphic property-based testing (Hypothesis)',
      'interrupted and uninterrupted generated runs compared'),
    P('C17', 'Repeated release adds the same particles at every release time',
      'With a repeat interval, a copy of the originally given particles (positions, depths and given variables) is released at the start and after every interval up to the end of the execution, with new ids and the release time as their time, also across consecutive executions, forward or backward, independent of time step and output interval, until the interval is removed.',
      ['histories', 'configurations'],
      'every release set, interval, time step, output interval and split of the execution',
      'Tests check counts for one interval.',
      ['parcels/particlesets/baseparticleset.py', 'parcels/particlesets/particlesetsoa.py'],
      [('repeat release', 'parcels/particlesets/baseparticleset.py execute')],
      'model-based testing (Hypothesis)',
      'release schedule model in both modes'),
    P('C18', 'Calendar times convert to model seconds and back without loss',
      'For datetime64, timedelta64, cftime and plain float time axes, the model time of an instant is its signed number of seconds since the time origin, conversion back gives the same instant, ordering and differences are preserved, and giving run times, release times or sampling times as dates is equivalent to giving the corresponding seconds.',
      ['inputs'],
      'every calendar, origin and instant',
      'Tests convert a few dates.',
      ['parcels/tools/converters.py', 'parcels/fieldset.py', 'parcels/particlesets/baseparticleset.py', 'parcels/field.py'],
      [('TimeConverter', 'parcels/tools/converters.py')],
      'round-trip property-based testing (Hypothesis)',
      'oracle is Python/cftime date arithmetic'),
    P('C19', 'Random numbers are reproducible and within their stated ranges',
      'Setting the seed makes every following random draw and every simulation using random kernels reproducible, in each execution mode, and the same seed gives the same draws in both modes; every draw lies in the range of its function (random: the unit interval; uniform: between its bounds, to single-precision rounding; randint: low, ..., high - 1, each equally likely; expovariate: finite and not negative; vonmisesvariate: an angle between 0 and 2 pi; normalvariate: finite) and follows the stated distribution.',
      ['inputs', 'histories'],
      'every seed, parameter range and sequence of draws',
      'Tests seed once and compare a few draws or loosely check a mean.',
      ['parcels/rng.py', 'parcels/include/random.h', 'parcels/kernels/advectiondiffusion.py'],
      [('ParcelsRandom', 'parcels/rng.py'), ('C generators', 'parcels/include/random.h')],
      'property-based testing (Hypothesis)',
      'range invariants, cross-mode equality, sequence reproducibility and distribution bounds'),
    P('C20', 'Particles start exactly as specified',
      'A particle set created from lists, a line, a start field or with given times, depths and variable values contains one particle per given entry with exactly those values and the declared initial value (constant, per-particle attribute or field sample at its position and time) for every other variable; particles drawn from a start field follow its cell-by-cell density and start inside cells where that field is non-zero, and counting particles per grid cell gives back the number of particles in each cell.',
      ['inputs', 'configurations'],
      'every list of entries, variable declarations, start field and grid',
      'Tests create a few fixed sets.',
      ['parcels/particlesets/particlesetsoa.py', 'parcels/particlesets/baseparticleset.py', 'parcels/particlesets/collectionsoa.py', 'parcels/particle.py'],
      [('constructors', 'parcels/particlesets/'), ('Variable', 'parcels/particle.py'), ('density', 'parcels/particlesets/particlesetsoa.py')],
      'property-based testing against a direct model (Hypothesis)',
      'entry-by-entry model; histogram model for density'),
    P('C21', 'Compiled execution never touches memory outside the field arrays',
      'While executing any kernel on any fieldset, at any particle position and time including those outside or on the boundary of the domain, the compiled code reads and writes only memory belonging to the particle and field arrays.',
      ['inputs', 'histories', 'configurations'],
      'every grid, interpolation method, indexing convention, position, time and halo',
      'An out-of-bounds read usually returns a plausible number, so tests pass.',
      ['parcels/include/index_search.h', 'parcels/include/parcels.h', 'parcels/compilation/codegenerator.py'],
      [('index search and interpolation in C', 'parcels/include/')],
      'fuzzing of generated C under AddressSanitizer (Hypothesis-driven)',
      'the generated kernels are compiled with -fsanitize=address,undefined and driven with generated grids and positions'),
    P('C22', 'Seawater property kernels evaluate the published equations',
      'For every latitude, depth, salinity, temperature and pressure in the range of the equations, the shipped kernels for pressure, adiabatic temperature gradient, potential temperature and its inverse, UNESCO (EOS-80) density and polyTEOS10 density write to the particle the value of the publication they cite, in both execution modes.',
      ['inputs', 'configurations'],
      'every salinity, temperature, pressure, depth, latitude and reference pressure',
      'Tests evaluate one or two points, at some of which wrong terms happen to cancel.',
      ['parcels/kernels/EOSseawaterproperties.py', 'parcels/kernels/TEOSseawaterdensity.py'],
      [('UNESCODensity, PtempFromTemp, TempFromPtemp, AdiabticTemperatureGradient, PressureFromLatDepth', 'parcels/kernels/EOSseawaterproperties.py'),
       ('PolyTEOS10_bsq', 'parcels/kernels/TEOSseawaterdensity.py')],
      'property-based testing against an independent implementation of the published equations (Hypothesis)',
      'reference equations anchored at the check values printed in the publications; round trip of potential temperature'),
    P('C23', 'Unit conversion and cell geometry follow the mesh',
      'A field on a spherical mesh is converted with the factor that belongs to its name or given field type (velocities per degree, diffusivities per square degree, with the cosine of the latitude in zonal direction) or with the converter assigned by the user, on a flat mesh not at all, identically for sampling in kernels of both modes, in vectors and in Python; conversions to and from the mesh unit are inverse. The cell edge sizes and areas of a rectilinear grid, also after adding a halo, and the particle density scaled by them are those of its coordinates in metres.',
      ['inputs', 'configurations'],
      'every field name, field type, mesh, converter, position and rectilinear grid',
      'Tests check one uniform grid and converters one at a time.',
      ['parcels/tools/converters.py', 'parcels/field.py', 'parcels/grid.py', 'parcels/particlesets/particlesetsoa.py'],
      [('UnitConverter', 'parcels/tools/converters.py'), ('calc_cell_edge_sizes, cell_areas', 'parcels/field.py'), ('density', 'parcels/particlesets/particlesetsoa.py')],
      'property-based testing against closed-form factors (Hypothesis)',
      'closed-form conversion factors and finite differences of the coordinates'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe'] or ['public Python API: particle variables, field samples, output files'],
                            'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(HERE, 'vp', 'checks', p['id'].lower() + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': '/opt/venv/bin/python check.py %s' % p['id'],
                           'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'the technique applies; the check is not built yet'})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        f.write(json.dumps(m, indent=1) + '\n')


main()
