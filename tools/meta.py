#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SN = 'pysnobal/point/snobal.py'
ST = 'pysnobal/point/snow_state.py'
IN = 'pysnobal/point/input.py'
LS = 'pysnobal/point/libsnobal.py'
FN = 'pysnobal/core/functions.py'
SW = 'pysnobal/core/snow.py'
PY = 'pysnobal/pysnobal.py'
UT = 'pysnobal/utils.py'
CF = 'pysnobal/pysnobal_core_config.ini'
SP = 'pysnobal/spatial/isnobal.py'

P = []


def prop(pid, title, statement, over, quant, why, files, mech, state=(),
         observe=(), na=None):
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': quant},
              'why_tests_cant': why,
              'anchors': {
                  'files': files,
                  'mechanism': [{'name': a, 'where': b} for a, b in mech],
                  'state': [{'name': a, 'meaning': b, 'where': w}
                            for a, b, w in state],
                  'observe_at': list(observe), 'hook_needed': None},
              'na': na})


GOLD = ('The tests compare one reference winter with recorded output to a '
        'few digits; ')

prop('C01', 'The snowpack is always split into a valid set of layers',
     'A snowpack is partitioned into no layer, a surface layer, or a surface '
     'and a lower layer, purely from its depth, mass, the maximum depth of '
     'the surface layer and the mass threshold. At or below the threshold '
     'there is no layer; a lower layer exists only if it weighs at least the '
     'threshold, and then the surface layer has exactly the maximum depth. '
     'The depths of the layers add up to the depth of the pack.',
     ['inputs', 'configurations'],
     'every depth, density, active-layer depth and threshold, for a new pack '
     'and for one re-partitioned from one or two layers',
     'Four example packs with the default settings are tested; which side '
     'of the thresholds a pack falls on, and leftovers of an earlier '
     'partition, are not.',
     [ST], [('layer rule', ST + ' calc_layers'),
            ('cached number of layers', ST + ' layer_count')],
     [('z_s_0, z_s_l', 'depth of the two layers', ST)])

prop('C02', 'Snowpack bookkeeping stays consistent through every process',
     'After every process of a time step, mass equals density times depth, '
     'the depths and masses of the layers add up to those of the pack, and '
     'density never exceeds 600 kg/m3. If less than the threshold is left '
     'the pack is reset to bare ground in every one of its properties and '
     'the rest becomes liquid water.',
     ['inputs', 'histories'],
     'every process (settling, wetting, precipitation, melt, evaporation, '
     'drainage) from every consistent pack, so by induction every history',
     GOLD + 'the packs it visits never become very dense, and it looks at '
     'the state once an hour only.',
     [SN, ST], [('mass and depth adjustment', SN + ' adj_snow'),
                ('layer adjustment', SN + ' adj_layers'),
                ('layer masses', ST + ' layer_mass')],
     [('m_s, rho, z_s', 'mass, density, depth of the pack', ST)])

prop('C03', 'Water is conserved over a time step',
     'Over a time step, precipitation plus condensation (minus evaporation) '
     'equals the change in the mass of the pack plus the runoff. This holds '
     'also when snow begins or vanishes within the step.',
     ['inputs', 'histories'],
     'every combination of precipitation phase, surface energy, cold '
     'content, liquid water and vapour flux, on bare ground, thin, '
     'one-layer, two-layer and very dense packs',
     GOLD + 'no test adds up the water.',
     [SN], [('sequence of mass processes', SN + ' mass_balance'),
            ('precipitation', SN + ' precip_event'),
            ('phase change', SN + ' snowmelt'),
            ('vapour exchange', SN + ' evap_cond'),
            ('runoff', SN + ' runoff')],
     [('h2o_total', 'liquid water during the step', ST)], ['swi', 'm_s'])

prop('C04', 'Energy is conserved by melting and refreezing',
     'The energy a layer receives in a step warms it towards the freezing '
     'point, the excess melts ice, and a deficit first refreezes the '
     "layer's share of the liquid water: change in cold content plus latent "
     'heat of melted and refrozen water equals the energy received. Cold '
     'content is never positive, and no layer both melts and stays cold. '
     'The depth of the snow that melted is gone, its mass stays as water.',
     ['inputs'],
     'every pack, cold content, liquid water amount, energy flux and time '
     'step',
     GOLD + 'energy budgets are not added up by any test.',
     [SN, SW], [('melt and refreezing', SN + ' snowmelt'),
                ('energy to melt', SW + ' melt')],
     [('cc_s_0, cc_s_l', 'cold content of the layers', ST)])

prop('C05', 'The energy budget of surface and pack closes',
     'With snow, the energy of the surface layer is the sum of net '
     'radiation, sensible and latent heat, conduction from below and heat '
     'carried by precipitation, and that of the pack has the heat from the '
     'ground in place of the conduction between layers. Net radiation is net '
     'solar plus 98 % of the difference between incoming thermal radiation '
     'and black-body emission. Without snow every term is zero.',
     ['inputs'],
     'every forcing and every snowpack of no, one or two layers',
     GOLD + 'terms missing from, or counted twice in, one budget are only '
     'seen there if they matter in that winter.',
     [SN], [('budget', SN + ' energy_balance'),
            ('radiation', SN + ' net_radiation')],
     [('R_n, H, L_v_E, G, G_0, M', 'energy terms', ST)])

prop('C06', 'Forcing is interpolated, precipitation is spread evenly',
     'Within a data step each sub-step sees radiation, temperatures, '
     'humidity and wind on the straight line between the two records, '
     'however the step is divided. Precipitation is spread in proportion to '
     'the length of the sub-steps, so that exactly the amount of the record '
     'falls, with its phase, density and temperature unchanged.',
     ['inputs', 'histories', 'configurations'],
     'every pair of records, every division of the data step into normal, '
     'medium and small sub-steps, and several settings of their lengths',
     GOLD + 'its settings are the default ones and its output is hourly.',
     [SN, IN], [('deltas', IN + ' InputDeltas.calculate'),
                ('advance', IN + ' add_deltas'),
                ('precipitation share', IN + ' update_precip_deltas'),
                ('division', SN + ' divide_tstep, do_tstep')])

prop('C07', 'Thin layers are simulated with the fine time step they need',
     'Before each step the masses of the layers are compared with the '
     'thresholds: any layer below the normal threshold makes the model use '
     'medium steps, any below the medium threshold small steps, and bare '
     'ground the longest steps. The executed sub-steps always add up to '
     'exactly the data step.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of layer masses before the sub-steps of a data step, '
     'every pair of thresholds, several step lengths',
     'Which sub-steps ran is not visible in the output the tests compare.',
     [SN], [('refinement', SN + ' divide_tstep'),
            ('test of the masses', SN + ' below_thold')])

prop('C08', 'Output records cover all the time, each part once',
     'There is one record per data step (or one per executed sub-step if all '
     'are requested), stamped with the end of the period it covers. Energy '
     'fluxes in it are time-weighted means, evaporation, melt and runoff '
     'are sums over exactly the sub-steps since the record before, and the '
     'state is that at the end of the period.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of fluxes over two data steps divided in any of several '
     'ways, both output modes',
     'The test of the sub-step output cannot run at this commit, and the '
     'hourly one cannot tell a wrong weighting apart from rounding.',
     [SN, ST, FN], [('accumulation', ST + ' time_average, value_to_bar'),
                    ('record', SN + ' output'),
                    ('weighting', FN + ' time_average')])

prop('C09', 'Precipitation is split into rain and snow consistently',
     'Rain and snow make up the precipitation in the given proportion, and '
     'the depth of new snow is its mass over its density. Rain is never '
     'colder and snow never warmer than freezing; snow falling with rain or '
     'above freezing is saturated with water and at the freezing point, '
     'cold snow is dry. Snow without a positive density is rejected.',
     ['inputs'],
     'every amount, snow fraction, density and temperature, at and around '
     'each limit',
     'One example per phase is tested.',
     [IN], [('phases', IN + ' precipitation_inputs')])

prop('C10', 'Snow only ever gets denser by ageing and wetting',
     'Ageing and liquid water never reduce density nor change mass, and '
     'stop acting at 550 kg/m3. The rate of ageing is the documented sum of '
     'temperature and overburden terms scaled with the length of the step; '
     'wetting follows the documented half-saturation curve towards 550 '
     'kg/m3.',
     ['inputs'],
     'every pack, temperature, amount of added water and step length, '
     'including packs heavier than 2000 kg/m2',
     GOLD + 'its packs stay light and its depth is compared loosely.',
     [SN], [('ageing', SN + ' time_compact'),
            ('wetting', SN + ' h2o_compact')])

prop('C11', 'Snow holds liquid water up to its capacity, the rest runs off',
     'The pack retains liquid water up to the configured share of its pore '
     'volume; exactly the excess leaves as runoff and lowers the mass but '
     'not the depth. Runoff is never negative; on bare ground, and when the '
     'pack vanishes, all water runs off in the same step.',
     ['inputs', 'configurations'],
     'every pack, amount of liquid water and capacity, including none',
     GOLD + 'only one capacity is configured.',
     [SN, SW], [('drainage', SN + ' runoff'),
                ('capacity', SW + ' h2o_left')],
     [('h2o, h2o_max, swi', 'held, maximum held, runoff', ST)])

prop('C12', 'Vapour exchange takes and gives the mass it reports',
     'The mass exchanged with the air is the vapour flux times the length of '
     'the step, and with the soil the diffusive flux along the humidity '
     'difference to the layer in contact. Liquid water takes its share of '
     'the loss but is never overdrawn, half of the exchanged ice changes '
     'the depth, and the mass of the pack changes by exactly the reported '
     'amount. Bare ground exchanges nothing.',
     ['inputs'],
     'every pack, vapour flux, liquid water amount, soil temperature and '
     'step length',
     GOLD + 'the exchange is a small term there.',
     [SN, FN], [('exchange', SN + ' evap_cond'),
                ('flux', FN + ' vapor_flux')])

prop('C13', 'Cold content and temperature of a layer describe the same state',
     'A layer at freezing has no cold content and a colder layer has the '
     'energy that warms its mass to freezing, so that temperature follows '
     'cold content in every step and never exceeds freezing. A pack '
     'without cold content is isothermal at freezing; a layer that comes '
     'into being takes the temperature of the pack and the cold content that '
     'belongs to it.',
     ['inputs', 'histories'],
     'every pack of one or two layers, cold content and mass, and every '
     'transition between one and two layers',
     GOLD + 'the relation is not checked and transitions are rare in it.',
     [SN, ST, SW], [('cold content', SN + ' cold_content'),
                    ('new temperature', SW + ' new_tsno'),
                    ('layers', ST + ' adjust_layer_temps'),
                    ('transition', SN + ' adj_layers')])

prop('C14', 'Saturation vapour pressure follows Goff-Gratch',
     'Saturation vapour pressure is that of Goff and Gratch over ice up to '
     'the freezing point and over water above, positive, increasing with '
     'temperature, and continuous at freezing. Negative absolute '
     'temperatures are rejected, and the array version agrees with the '
     'scalar one in every element.',
     ['inputs'], 'every temperature from 200 to 330 K, arrays of up to '
     'three of them', 'Two temperatures are tested.',
     [LS], [('over ice', LS + ' sati, sati_np'),
            ('over water', LS + ' satw, satw_np')])

prop('C15', 'Turbulent fluxes follow similarity theory, in range',
     'Sensible and latent heat and the vapour flux follow the '
     'stability-corrected logarithmic profiles for wind, temperature and '
     'humidity; in still air and without differences there is no flux, and '
     'heat and vapour are carried alike. Latent heat is that of sublimation '
     'at or below freezing, of vaporization above; meaningless inputs are '
     'rejected and missing convergence is reported.',
     ['inputs'],
     'every weather, surface state and measurement setup in the stated '
     'ranges, every stability',
     'A table of recorded weather is tested, none of it calm, neutral or '
     'failing.',
     [LS], [('iteration', LS + ' hle1'),
            ('stability functions', LS + ' psi')])

prop('C16', 'Heat is conducted from warm to cold through both layers',
     'Heat between soil and snow, and between the layers, flows from warm to '
     'cold in steady state through two media in series, each with '
     'the conductivity of its material plus that of vapour diffusion. A '
     'pack of one layer exchanges with the soil by its only layer, a pack '
     'of two by its lower layer; equal temperatures exchange nothing.',
     ['inputs'],
     'every pack, temperature, soil state and pressure in the stated ranges',
     GOLD + 'the fluxes are small in it.',
     [SN, LS, ST], [('steady-state transfer', LS + ' ssxfr'),
                    ('effective conductivity', LS + ' efcon'),
                    ('soil', SN + ' g_soil'), ('layers', SN + ' g_snow'),
                    ('snow conductivity', ST + ' kts')])

prop('C17', 'Derived quantities never lag behind what they derive from',
     'Vapour pressures at the surface, in the lower layer, in the soil and '
     'at saturation of the air, and the number of layers, always belong to '
     'the current temperatures and depths, however often and in whatever '
     'order state is changed and derived quantities are read.',
     ['histories', 'inputs'],
     'every sequence of up to four reads and changes, any values',
     'Single read-change-read examples are tested for one quantity.',
     [ST, IN], [('vapour pressure caches', ST + ' e_s_0, e_s_l'),
                ('caches of the forcing', IN + ' sat_vp, e_g'),
                ('number of layers', ST + ' layer_count')])

prop('C18', 'Input files are read completely, in time order, in Kelvin',
     'Reading the forcing file keeps exactly the records from the start to '
     'one interval after the end, in time order whatever the order of the '
     'file, with temperatures in Kelvin and every other quantity unchanged '
     'under its own name. Precipitation that holds any rain is '
     'never colder than freezing.',
     ['inputs', 'configurations'],
     'every content of files of a few records in any order, any start and '
     'end within them, two intervals and time zones with and without '
     'summer time',
     'One well-formed file is read in the tests.',
     [PY], [('reading', PY + ' read_input_data'),
            ('names', PY + ' map_input_data')])

prop('C19', 'The output file reports each result under its name and unit',
     'Every record of the run appears once, in time order, in the output '
     'file, with each quantity in its own column, temperatures in Celsius '
     'and everything else as computed. With formatting each quantity '
     'has the number of digits of the original model, and without it the '
     'values are not rounded.',
     ['inputs', 'configurations'],
     'every content of runs of up to three records in any order, both '
     'formats',
     'Values that are zero or equal in the reference hide swapped or '
     'rounded columns.',
     [PY], [('writing', PY + ' output_to_file')])

prop('C20', 'The configuration determines the run as documented',
     'Step lengths, thresholds, water capacity, active-layer depth, '
     'elevation, heights, start date, output mode and initial snow in the '
     'configuration reach the model in its units, temperatures given in '
     'Celsius. The sub-steps of each level fill the step above exactly when '
     'they divide it evenly, as documented. Records are used in pairs, in '
     'time order, and each data step is simulated over its whole length and '
     'stamped with its end.',
     ['configurations'],
     'every value of each setting, step lengths in minutes that divide '
     'evenly',
     'All tests run one configuration, bare ground and default steps.',
     [PY, CF, UT], [('steps', PY + ' parse_time_steps'),
                    ('parameters', PY + ' parse_params'),
                    ('initial snow', PY + ' parse_initial_conditions')])

prop('C21', 'Measurement heights refer to what the configuration says',
     'Heights above ground shrink by the depth of the snow before they enter '
     'the turbulent transfer, heights above the snow surface do not. Vapour '
     'pressure above saturation is limited to saturation; site pressure, '
     'surface temperature and roughness are those of the state.',
     ['inputs', 'configurations'],
     'every height, snow depth, roughness, vapour pressure and both kinds of '
     'heights',
     'All tests use heights above ground, and thin snow.',
     [SN], [('heights', SN + ' h_le'), ('setting', SN + ' __init__')])

prop('C22', 'Thermodynamic helper relations are the documented ones',
     'Air pressure is hydrostatic for the elevation, and densities, specific '
     'and latent heats, virtual temperature, mixing ratio, diffusion '
     'coefficient, vapour flux, melt energy and water capacity follow their '
     'documented formulas and directions over the range of temperatures, '
     'pressures and humidities in which snow occurs.',
     ['inputs'], 'every value in the stated ranges',
     'They are only run at the values that occur in the reference winter.',
     [FN, SW], [('functions', FN), ('snow functions', SW)])

prop('C23', 'Initial snow starts as a consistent pack',
     'Any initial depth, density, temperatures and saturation yield a pack '
     'whose mass, layers, cold contents and liquid water belong '
     'together; below the threshold it starts as bare ground, its mass '
     'counted as liquid water.',
     ['inputs', 'configurations'],
     'every initial snow and every threshold, active-layer depth and water '
     'capacity',
     'All tests start from bare ground.',
     [SN, ST], [('start', SN + ' init_snow, create_snow_state'),
                ('dry density', ST + ' dry_snow_density')])

prop('C24', 'Precipitation brings the heat of its mass and temperature',
     'Heat advected by precipitation is that of its rain at the heat '
     'capacity of water and its snow at that of ice, relative to the '
     'surface, per second of the step; the whole record brings the same '
     'heat however the step is divided, and dry steps bring none.',
     ['inputs'],
     'every amount, phase, temperature, surface temperature and step length',
     GOLD + 'precipitation temperatures are near that of the surface.',
     [SN], [('advection', SN + ' advec')])

prop('C25', 'Model instances do not influence each other',
     'A run depends on its own configuration, initial snow and forcing '
     'only: two models stepped alternately, the second of two runs, and a '
     'run from copies of its inputs give what each gives alone, and settings '
     'handed to a model are not changed by it.',
     ['histories', 'inputs'],
     'every forcing and initial state of two models, several interleavings '
     'of their steps',
     'The tests run one model at a time.',
     [SN, ST, IN], [('instance state', SN + ' __init__'),
                    ('forcing state', IN + ' InputData')])

prop('C26', 'New snow joins or founds the pack with its own properties',
     'Snow on bare ground founds a pack with the depth, density, temperature '
     'and wetness of the precipitation if it exceeds the threshold; on '
     'existing snow depth and mass add up, and the density is that of the '
     'mixture. Rain alone never builds snow.',
     ['inputs'],
     'every precipitation on bare ground and on every pack',
     GOLD + 'only its storms are seen.',
     [SN], [('event', SN + ' precip_event'),
            ('new pack', SN + ' init_snow')])

prop('C27', 'A grid cell gives what a point gives',
     'The gridded model run over a grid gives in each cell the results of '
     'the point model run with the forcing of that cell.',
     ['inputs', 'configurations'],
     'every grid and forcing',
     'The test of the gridded model asserts nothing.',
     [SP, 'pysnobal/ipysnobal.py'], [('gridded model', SP)],
     na='the gridded model cannot be constructed at this commit: its '
        'constructor calls init_snow(True), create_snow_state() and '
        'get_measurement_height_rec(), none of which match or exist, and its '
        'driver uses undefined names, so there is no execution to encode')

prop('C28', 'A whole time step conserves energy and water',
     'Over one time step from forcing to runoff, the net energy of the step '
     'is what warmed the pack, melted ice and was set free by freezing; the '
     'liquid water left and the runoff are what the pack held, fell as rain '
     'and melted, less what froze and evaporated; and the mass changes by '
     'precipitation, exchange and runoff only.',
     ['inputs', 'histories'],
     'every forcing on packs of every shape, temperature and wetness',
     GOLD + 'which shows that results stay the same, not that they balance.',
     [SN], [('time step', SN + ' do_tstep'),
            ('energy', SN + ' energy_balance'),
            ('mass', SN + ' mass_balance')])

prop('C29', 'The snow state of the grid follows the rules of a point in '
     'every cell',
     'The gridded snow state gives a cell the temperatures, the isothermal '
     'state, the conductivity and the dry density that the point model gives '
     'for the same pack, averages fluxes over time and adds up masses cell '
     'by cell, and clears exactly the fields it is told to.',
     ['inputs', 'histories'],
     'every pack in a cell and every history of fluxes',
     'No test constructs the gridded snow state.',
     ['pysnobal/spatial/snow_state.py'],
     [('gridded state', 'pysnobal/spatial/snow_state.py SpatialSnowState')])

NOTES = {}


def main():
    done = [p for p in P if p['na'] is None and os.path.exists(
        os.path.join(ROOT, 'props', p['id'].lower() + '.py'))]
    ids = [p['id'] for p in done]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = dict(p)
            q.pop('na')
            if not q['anchors']['state']:
                q['anchors'].pop('state')
            if not q['anchors']['observe_at']:
                q['anchors'].pop('observe_at')
            f.write(json.dumps(q) + '\n')
    checks = [{
        'property': i,
        'quick_cmd': './check %s --tier quick' % i,
        'thorough_cmd': './check %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of the real Python functions, '
                     'obligations decided by SMT (z3, cvc5)',
        'level': 'model_checking',
        'level_note': 'Holds for every value within the bounds listed in the '
                      'evidence, over exact reals; trusts the symbolic '
                      'executor, the solvers and bounds on '
                      'exp/log/pow/cos/atan; counterexamples are replayed on '
                      'the unpatched code before they are reported.',
    } for i in ids]
    na = [{'property': p['id'], 'reason': p['na'] or
           'no check yet: its harness is still being built'}
          for p in P if p['id'] not in ids]
    m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': checks,
         'not_applicable': na,
         'notes': 'No hooks in /repo. Known findings and fixed defects: '
                  'known_findings.txt; design and bounds: DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(ids), 'claimed')


main()
