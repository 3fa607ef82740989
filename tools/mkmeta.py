"""Writes properties.jsonl and MANIFEST.json (run by hand after an edit)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ARR = 'pvfactors/geometry/pvarray.py'
ROW = 'pvfactors/geometry/pvrow.py'
GND = 'pvfactors/geometry/pvground.py'
TS = 'pvfactors/geometry/timeseries.py'
BASE = 'pvfactors/geometry/base.py'
GUT = 'pvfactors/geometry/utils.py'
VFM = 'pvfactors/viewfactors/vfmethods.py'
VFC = 'pvfactors/viewfactors/calculator.py'
AOI = 'pvfactors/viewfactors/aoimethods.py'
IRM = 'pvfactors/irradiance/models.py'
IRB = 'pvfactors/irradiance/base.py'
IRU = 'pvfactors/irradiance/utils.py'
ENG = 'pvfactors/engine.py'
RUN = 'pvfactors/run.py'
REP = 'pvfactors/report.py'

P = []


def prop(pid, title, statement, over, text, tests, files, mech, state=(),
         at=()):
    assert len(title) <= 80, title
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': tests,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'state': [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state],
            'observe_at': list(at), 'hook_needed': None}})


LAY = ('every array layout (number, height, width and spacing of the rows, '
       'axis direction, cuts), every row orientation from 0 to 180 degrees '
       'tilt and every sun position above the horizon')

prop('P01', 'The fitted geometry is the described PV array at every timestep',
     'At every timestep each row is a line of the requested width, centred at '
     'the requested height and spacing, and inclined so that its front faces '
     'the requested tilt and azimuth. Each side is cut in the requested number '
     'of equal segments, each made of one shaded and one illuminated part '
     'that fill it exactly, with normals pointing out of that side. The ground '
     'is the horizontal line at height zero between the documented bounds.',
     ['inputs', 'configurations'], LAY,
     'The tests compare coordinates of two or three hand drawn arrays with '
     'tilts of 0, 20 or 45 degrees; the guarantee is over all layouts, '
     'orientations (including vertical, upside down, east and west) and cuts.',
     [ARR, ROW, TS, BASE],
     [('OrderedPVArray.fit and init_from_dict', ARR),
      ('TsPVRow.from_raw_inputs, TsSide, TsSegment', ROW),
      ('_get_rotation_from_tilt_azimuth', BASE),
      ('TsLineCoords, TsSurface', TS)],
     [('ts_pvrows', 'timeseries rows with sides and segments', ARR),
      ('rotation_vec', 'signed tilt of the rows', ARR)],
     ['coordinates, lengths and normals of all surfaces after a fit'])

prop('P02', 'Direct shading on the rows is what tracing the sun rays gives',
     'At every timestep the shaded part of each side of each row is the part '
     'that the sun facing side has hidden by the other rows, from the edge '
     'hit first, and no other part. Sides that the sun cannot see have no '
     'shaded part, and outer rows are shaded only by rows in front of them.',
     ['inputs', 'configurations'], LAY,
     'Tests check shaded lengths at a handful of sun positions; the formula '
     'must agree with ray tracing for every combination of sun, tilt, '
     'spacing and cut, including suns behind the rows and tilts over 90.',
     [ARR, ROW],
     [('_calculate_sun_alpha, shading in fit', ARR),
      ('TsSegment shaded and illuminated coords', ROW)],
     [('has_direct_shading', 'flags of shaded timesteps', ARR)],
     ['coordinates of the shaded surfaces of the rows'])

prop('P03', 'The ground is tiled once and its shaded part is the rows shadows',
     'At every timestep the ground surfaces cover the ground from one bound '
     'to the other exactly once. The shaded ones together are the union of '
     'the projections of the rows along the sun direction, clipped to the '
     'ground, and the cut points where the planes of the rows meet the ground '
     'separate surfaces.',
     ['inputs', 'configurations'], LAY,
     'Tests look at shadows of a few fixed arrays; overlaps, merging, '
     'clipping at the bounds and cut points interact over all suns and tilts.',
     [GND, ARR],
     [('TsGround.from_ts_pvrows_and_angles, from_ordered_shadows_coords', GND),
      ('TsGroundElement', GND)],
     [('shadow_elements, illum_elements, cut_point_coords',
       'partition of the ground', GND)],
     ['coordinates of the ground surfaces after a fit'])

prop('P04', 'View factors close, are in range, reciprocal and zero when blind',
     'At every timestep each surface of positive length sees its '
     'surroundings, including the sky, with fractions that are between 0 and '
     '1 and add up to 1. Fractions times lengths are the same in both '
     'directions, and surfaces that face away from each other, are on the '
     'same side, or are hidden by a row in between do not see each other.',
     ['inputs', 'configurations'], LAY,
     'Tests compare stored matrices of a few arrays; closure and reciprocity '
     'are required of every entry for every geometry.',
     [VFM, VFC],
     [('VFTsMethods.vf_* and hottel string methods', VFM),
      ('VFCalculator.build_ts_vf_matrix', VFC)],
     [('vf_matrix', 'timeseries matrix of view factors', VFC)],
     ['matrix given by the view factor calculator or by the engine'])

prop('P05', 'View factors are the geometric ones',
     'At every timestep the fraction of the view of each surface taken by '
     'each other surface, and by the sky, is the one obtained by casting rays '
     'in the geometry with the rows as opaque obstacles.',
     ['inputs', 'configurations'], LAY,
     'Closed forms (crossed strings with obstructions at both ends) are '
     'tested against a few published values; agreement with geometry is '
     'needed for every relative position.',
     [VFM, VFC],
     [('_vf_hottel_gnd_surf, _calculate_vf_surf_to_surf, vf_pvrow_*', VFM),
      ('build_ts_vf_matrix', VFC)],
     [('vf_matrix', 'timeseries matrix of view factors', VFC)],
     ['matrix given by the view factor calculator'])

prop('P06', 'Full mode is the exact equilibrium of all reflections',
     'In full mode the outgoing light of each surface equals its '
     'reflectivity times its incident light, and the incident light equals '
     'the direct, circumsolar and horizon light it receives plus the light '
     'coming from all other surfaces and the sky, weighted by how much it '
     'sees of them. The reported reflection, isotropic and absorbed parts add '
     'up to these values.',
     ['inputs', 'configurations'],
     LAY + ', every irradiance model and reflectivity',
     'Tests compare stored results of a few timesteps; being the solution of '
     'the balance equations is required at all surfaces for all inputs.',
     [ENG, IRM, VFC],
     [('PVEngine.run_full_mode', ENG),
      ('get_full_ts_modeling_vectors', IRB)],
     [('q0, qinc, isotropic, reflection, qabs', 'results per surface', ENG)],
     ['results of all surfaces after a full mode run'])

prop('P07', 'Energy is neither created nor lost over the whole array',
     'At every timestep the light that enters the scene from the sun and the '
     'sky equals the light absorbed by all surfaces plus the light sent back '
     'to the sky, when all surfaces are accounted for with their lengths.',
     ['inputs', 'configurations'],
     LAY + ', every irradiance model, transparency and reflectivity',
     'A global balance ties all entries of all matrices and all irradiance '
     'components together; tests only sample individual values.',
     [ENG, IRM, VFM, ARR],
     [('run_full_mode', ENG), ('irradiance models transform', IRM)],
     [('q0, qinc, qabs', 'results per surface', ENG)],
     ['results of all surfaces after a full mode run'])

prop('P08', 'Each surface receives the right direct and diffuse sky components',
     'At every timestep each illuminated surface receives the direct and '
     'circumsolar light of its own orientation, each shaded one only what '
     'the modules of the row in front of it let through, and each row side '
     'the horizon light left by the rows in front of it. Reflectivities, '
     'inverse reflectivities, totals and absorbed counterparts are consistent '
     'with these values.',
     ['inputs', 'configurations'],
     LAY + ', both irradiance models with all of their options',
     'Tests fix one or two arrays and suns per option; orientation, sun '
     'side, shading, transparency and band angle interact.',
     [IRM, IRB, IRU],
     [('IsotropicOrdered and HybridPerezOrdered fit/transform', IRM),
      ('calculate_circumsolar/horizon shading', IRU)],
     [('direct, circumsolar, horizon', 'components per surface', IRM)],
     ['irradiance parameters of all surfaces', 'attributes of the models'])

prop('P09', 'Every timestep is simulated on its own',
     'The results of a timestep depend on the inputs of that timestep only: '
     'they are the same alone, in any longer series, in any order, and with '
     'any repetition. Timesteps that are not simulated (sun below the '
     'horizon, missing data) do not influence others.',
     ['inputs', 'histories'],
     'every series of timesteps, its subsets, permutations, repetitions and '
     'insertions of unusable timesteps, in full and fast mode',
     'Vectorised code mixes timesteps easily (masks, broadcasting, any/all); '
     'tests run single fixed series.',
     [ENG, ARR, GND, ROW, VFM, VFC, IRM],
     [('vectorised fit, matrices and solving', ENG)],
     [('skip_step', 'timesteps that are not simulated', ENG)],
     ['results of series and of their pieces'])

prop('P10', 'The physics does not depend on how the same scene is described',
     'Turning the whole scene with the sun, raising it with its ground, '
     'scaling all lengths, mirroring left and right, exchanging front and '
     'back, or giving other angles for the same orientation leaves the light '
     'received by each corresponding surface unchanged. Rows added beyond the '
     'neighbours of a row change neither its shading nor the sun, horizon '
     'and row light that it sees.',
     ['inputs', 'configurations'], LAY,
     'Symmetries relate pairs of runs; no test compares two descriptions of '
     'one scene.',
     [ARR, BASE, VFM, IRM, GND],
     [('_get_rotation_from_tilt_azimuth, _get_solar_2d_vectors', BASE),
      ('left/right handling of shading and obstruction', VFM)],
     [('rotation_vec, solar_2d_vectors', 'orientation in 2D', ARR)],
     ['results of transformed scenes'])

prop('P11', 'Fast mode is one bounce from known surroundings with true views',
     'In fast mode the light on the back of the chosen row is the direct, '
     'circumsolar and horizon light it receives, plus the sky, ground and '
     'neighbouring fronts weighted by the true geometric views, the ground '
     'and the fronts reflecting the light that reaches them unreflected. '
     'Asking for a segment gives the values of that segment.',
     ['inputs', 'configurations'], LAY + ', every chosen row and segment',
     'Tests compare stored values for one array; the views of shaded and '
     'illuminated ground seen between neighbours vary with every geometry.',
     [ENG, VFC, VFM],
     [('PVEngine.run_fast_mode', ENG),
      ('build_ts_vf_matrix_fast / get_vf_ts_pvrow_element', VFC)],
     [('vf, reflection and qinc parameters', 'results per surface', ENG)],
     ['results of the back surfaces after a fast mode run'])

prop('P12', 'A parallel run gives the report of a serial run',
     'For any number of processes, and any number of timesteps, running the '
     'timesteps in parallel gives the same merged report, in the same order, '
     'as running them in one process. Every timestep appears once.',
     ['inputs', 'configurations', 'schedules'],
     'every number of processes, length of series, report builder and '
     'relative speed of the processes',
     'The existing test uses two processes on one file; splits that are '
     'uneven, empty or larger than the series, and workers that end out of '
     'order, are not reached.',
     [RUN, REP],
     [('run_parallel_engine, _run_serially', RUN),
      ('ExampleReportBuilder.build, merge', REP)],
     [('report', 'dictionary of lists, one entry per timestep', REP)],
     ['reports returned by both functions'])

prop('P13', 'Results do not depend on what the objects did before',
     'Fitting and running again gives exactly what new objects would give, '
     'whatever was fitted, run, plotted or read before and whatever other '
     'objects do in the meantime, and running twice changes nothing. Input '
     'data, settings given in dictionaries and results handed out earlier are '
     'never modified.',
     ['histories', 'inputs'],
     'every sequence of operations on shared engines, arrays, models and '
     'calculators',
     'Tests use new objects each time; stale state shows only after '
     'particular sequences.',
     [ENG, ARR, IRM, VFC],
     [('fit and run methods overwriting their state', ENG)],
     [('attributes kept between fits', 'models, arrays, calculators', ENG)],
     ['results after histories of operations', 'input arrays'])

prop('P14', 'Cutting a side refines results without moving light',
     'Cutting row sides into segments leaves the geometry of everything else '
     'and the light reaching a whole side unchanged for light that does not '
     'depend on uneven reflections, and the parts of the side add up to the '
     'whole. Shadows cross segments without gaps or overlaps.',
     ['configurations', 'inputs'], LAY,
     'Tests use cuts of two or three segments of one row; shadow limits '
     'inside, at, and between cuts matter for all suns.',
     [ROW, VFM, IRM],
     [('TsSide.from_raw_inputs segments', ROW)],
     [('list_segments', 'segments of a side', ROW)],
     ['surfaces, views and results with and without cuts'])

prop('P15', 'Absorbed light loses what its angle of incidence costs',
     'When angle-of-incidence functions are given, the weighted view of each '
     'surface is the integral of the function over the angles in which it '
     'really sees each other surface, and absorbed light uses these weights '
     'for reflected and diffuse light and the function itself for direct '
     'light. The unweighted results are unchanged.',
     ['inputs', 'configurations'],
     LAY + ', every angle-of-incidence function and number of integral '
     'sections',
     'Tests use one module and one geometry; what is integrated depends on '
     'every angle between surfaces and obstacles.',
     [AOI, VFC, ENG],
     [('AOIMethods.fit, rho_from_faoi_fn, _vf_aoi_*', AOI),
      ('build_ts_vf_aoi_matrix', VFC)],
     [('vf_aoi_matrix', 'weighted views', VFC)],
     ['weighted matrix and absorbed results of full mode'])

prop('P16', 'A snapshot or plot shows exactly what was simulated',
     'Asking for the array at a timestep gives the surfaces, coordinates, '
     'shading, normals, indices and results that were simulated for that '
     'timestep, and nothing else. Plots draw these surfaces at these places '
     'with the colors of their shading, and the indices when asked.',
     ['inputs', 'histories', 'configurations'],
     LAY + ', every timestep asked for in any order',
     'Tests look at index 0 or 1 of small series; mixing up timesteps, or '
     'surfaces and parameters, shows only elsewhere.',
     [ROW, GND, TS, BASE],
     [('at methods, surfaces_at_idx, non_point_surfaces_at', TS),
      ('plot_at_idx', BASE)],
     [('params', 'timeseries values per surface', TS)],
     ['snapshot objects and drawn lines'])

prop('P17', 'Aggregates are length weighted, and updates reach what they name',
     'Weighted values of collections, segments, sides, rows and grounds are '
     'the length weighted averages of the values of their surfaces at every '
     'timestep. Updating parameters of a part updates all and only the '
     'surfaces of that part.',
     ['inputs', 'histories'], LAY + ', every level of aggregation',
     'Tests aggregate a few sides; zero length surfaces, timesteps of '
     'different shading, and all levels are not covered.',
     [TS, ROW, GND, BASE],
     [('get_param_weighted, get_param_ww, update_params', TS)],
     [('params', 'values per surface', TS)],
     ['values returned by the aggregation methods'])

prop('P18', 'Geometry editing behaves as editing intervals on a line',
     'Casting shadows on, cutting, merging, adding to and removing from '
     'segments, sides, rows, grounds and collections of any slope changes '
     'exactly the covered intervals, keeps normals and shading flags, and '
     'keeps lengths, counts and lists consistent. Line differences, '
     'containment and projections are the geometric ones, and separate '
     'objects share nothing.',
     ['histories', 'inputs'],
     'every sequence of edits, slope, position and relative placement of '
     'the lines',
     'Tests apply one or two edits to unit lines in one direction; stale '
     'caches, reversed and covering lines and empty collections need '
     'sequences.',
     [BASE, GUT, ROW, GND],
     [('PVSegment.cast_shadow, cut_at_point; ShadeCollection edits', BASE),
      ('difference, contains, projection', GUT)],
     [('list_surfaces of the shade collections', 'the intervals', BASE)],
     ['surfaces, lengths and counts after each edit'])

prop('P19', 'Results are finite, non-negative and bounded by available light',
     'For every usable timestep all results are finite numbers, and all '
     'lights are non-negative and no larger than what the sources and the '
     'multiple reflections can supply. Timesteps that lack an input are '
     'missing in the results, and only them; those without light have no '
     'light, and those that cannot be simulated are flagged.',
     ['inputs', 'configurations'],
     LAY + ', including singular positions of the sun and degenerate layouts',
     'Singular inputs (sun in the plane of the rows, sun at the zenith, flat '
     'rows) are measure zero and are absent from the tests.',
     [ENG, IRM, VFM, ARR],
     [('skip_step and NaN handling', ENG), ('np.where guards', IRM)],
     [('skip_step', 'timesteps that are not simulated', ENG)],
     ['all results of full and fast mode'])

prop('P20', 'The same data in another input form gives the same results',
     'Scalars, arrays, integers, read-only or strided arrays, series with '
     'any index and any timestamp container holding the same values give the '
     'same results. Optional inputs left out behave as documented.',
     ['inputs'],
     'every combination of input forms, for engine, models, array and '
     'runner',
     'Tests pass float arrays or series with one kind of index.',
     [ENG, IRM, IRU, BASE, RUN],
     [('input conversion in PVEngine.fit', ENG),
      ('conversion in irradiance models', IRM)],
     [('inputs kept by the engine', 'params', ENG)],
     ['results for each form'])

prop('P21', 'Light adds up, and more light or reflection never means less',
     'With the isotropic sky the results of the sum of two skies are the sum '
     'of the results, scaling all lights scales all results, and more light '
     'never lowers the light on any surface. With any sky, a higher albedo, '
     'reflectivity, transparency, module spacing or horizon band never '
     'lowers the light on any surface, spacing and transparency matter only '
     'through the share they let through together, and fully transparent '
     'modules cast no shade.',
     ['inputs', 'configurations'], LAY,
     'Relations between runs are not tested at all.',
     [ENG, IRM],
     [('linear system', ENG), ('irradiance components', IRM)],
     [('irradiance parameters of surfaces', 'sources', IRM)],
     ['pairs of runs'])

prop('P22', 'Partial shading of circumsolar disk and horizon band is geometric',
     'The shaded share of the circumsolar disk for a covered distance is the '
     'share of the area of the disk (or of its gaussian weight) that is '
     'covered, and of the horizon band the share of its angle. Both are 0 '
     'when nothing and 1 when everything is covered, and never decrease.',
     ['inputs'],
     'every covered distance or angle, disk size and input shape',
     'Tests use a few interior values; limits, small sizes and shapes are '
     'not covered.',
     [IRU, IRM],
     [('calculate_circumsolar_shading, calculate_horizon_band_shading', IRU)],
     [], ['returned percentages'])

prop('P23', 'The report is what an independent simulation of the scene gives',
     'From raw inputs to reported light of a row side or segment, the result '
     'agrees with an independent simulation that traces rays and solves the '
     'reflections, whichever way the simulation is started. Only timesteps '
     'that cannot be simulated are missing.',
     ['inputs', 'configurations'],
     LAY + ', both models, all entry points',
     'End to end values are tested on stored outputs of a few runs.',
     [ENG, RUN, REP, ARR, IRM, VFC],
     [('PVEngine.fit, run_full_mode', ENG), ('run_timeseries_engine', RUN)],
     [('report', 'values per timestep', REP)],
     ['reports and results of sides and segments'])

prop('P24', 'The sky is the measured one, whatever the rows do',
     'The isotropic, circumsolar and horizon light attributed to the sky are '
     'those of the measured diffuse light by the Perez model of that time of '
     'year, and do not depend on how the rows are oriented. The light on open '
     'ground is the global horizontal irradiance.',
     ['inputs'],
     'every sky, sun position, day of year and orientation, including rows '
     'facing away from the sun and down',
     'Tests use one day of clear data; the luminance is recovered from one '
     'of the two sides of the rows depending on orientation.',
     [IRU, IRM],
     [('perez_diffuse_luminance, calculate_luminance_poa_components', IRU)],
     [('isotropic_luminance, gnd_illum', 'sky light', IRM)],
     ['frame of luminance values', 'sky and ground light of the models'])

prop('P25', 'Reflectivities come from the user, else from losses, else default',
     'A reflectivity given by the user is used as it is; a missing one is '
     'one minus the average of the angle-of-incidence function over the '
     'hemisphere when functions are given for both sides, and the documented default otherwise. '
     'The simulation then uses these values.',
     ['inputs', 'configurations'],
     'every combination of given and missing values, functions and models',
     'Tests cover one combination with one module.',
     [AOI, IRM, VFC],
     [('rho_from_faoi_fn, faoi_fn_from_pvlib_sandia', AOI),
      ('initialize_rho', IRM)],
     [('rho_front, rho_back', 'reflectivities of the modules', IRM)],
     ['initialised values and results of the simulation'])

prop('P26', 'Building blocks of the geometry are what they are built from',
     'Timeseries points, lines, surfaces, collections, segments, sides, rows '
     'and grounds built from coordinates or raw inputs (any centre, slope, '
     'cut, shaded length, ground height) have at every timestep the ends, '
     'lengths, centres, highest and lowest points, normals and shaded extents '
     'of the geometry described, whether it is horizontal, vertical, upside '
     'down or reduced to a point, and so do their snapshots, which keep the '
     'index, shading and parameters of that timestep and leave points out.',
     ['inputs', 'configurations'],
     'coordinates, degenerate lines, slopes, cuts, shades and ground heights '
     'that a fitted array never has',
     'Tests build each block once, with one set of coordinates.',
     [TS, ROW, GND],
     [('TsLineCoords, TsPointCoords, TsSurface, TsShadeCollection', TS),
      ('TsPVRow.from_raw_inputs, TsSide, TsSegment', ROW),
      ('TsGround.from_ts_pvrows_and_angles', GND)],
     [('coords, n_vector, params, index, shaded', 'state of a block', TS)],
     ['coordinates and lengths of blocks and their snapshots'])

TECH = {
    'P01': 'runtime monitor: fitted coordinates against a reference model of the layout',
    'P02': 'runtime monitor: shaded lengths against a ray tracing oracle',
    'P03': 'runtime monitor: ground partition and shadow union invariants on fitted state',
    'P04': 'runtime monitor: conservation and reciprocity invariants on every matrix',
    'P05': 'runtime monitor: view factors against a ray casting oracle',
    'P06': 'runtime monitor: balance equations checked on every result',
    'P07': 'runtime monitor: energy conservation over recorded results',
    'P08': 'runtime monitor: irradiance components against a reference model',
    'P09': 'differential runtime monitor over histories of timesteps',
    'P10': 'differential runtime monitor over transformed scenes',
    'P11': 'runtime monitor: fast mode against a ray casting oracle',
    'P12': 'runtime monitor: recorded parallel reports against serial ones, with injected delays',
    'P13': 'runtime monitor: state histories against fresh objects, input guards',
    'P14': 'differential runtime monitor: cut against uncut runs',
    'P15': 'runtime monitor: weighted views against a numerical integration oracle',
    'P16': 'runtime monitor: snapshots and recorded drawing calls against simulated state',
    'P17': 'runtime monitor: aggregates recomputed from recorded surfaces',
    'P18': 'runtime monitor: edit histories against an executable interval model',
    'P19': 'runtime monitor: range assertions on all results under hostile inputs',
    'P20': 'differential runtime monitor over input forms',
    'P21': 'differential runtime monitor: superposition and monotonicity relations',
    'P22': 'runtime monitor: shading functions against numerical integration',
    'P23': 'runtime monitor: reports against an independent ray-cast radiosity simulation',
    'P24': 'runtime monitor: luminances against a reference Perez model',
    'P25': 'runtime monitor: reflectivities against numerical integration',
    'P26': 'runtime monitor: state of directly built blocks against their description',
}
NOTE = ('Held on the executions explored (counts in the evidence file): the '
        'oracle judges every timestep of random, directed and hostile '
        'workloads against an independent model. Trusts numpy, scipy, pandas, '
        'the reference model in harness/ref.py and pvlib where the code '
        'delegates to it; says nothing on inputs outside the stated domain.')


def main():
    import sys
    sys.path.insert(0, ROOT)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "import numpy, pandas, '
                        'pvlib, shapely, matplotlib"',
           'checks': [{
               'property': p['id'],
               'quick_cmd': 'bash run_check.sh %s quick' % p['id'],
               'thorough_cmd': 'bash run_check.sh %s thorough' % p['id'],
               'technique': TECH[p['id']], 'level': 'exploration',
               'level_note': NOTE} for p in P],
           'not_applicable': [],
           'notes': 'No hooks in /repo: everything is observed through public '
                    'objects. Known findings are in known-findings.json.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
