"""The properties, and what is derived from them: run `python tools/spec.py` to
rewrite properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'simim/map/gridder.py'
I = 'simim/instrument/instrument.py'
IH = 'simim/instrument/_helpers.py'
GP = 'simim/galprops/galprops.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe))


prop('C01', 'Gridding a catalogue puts each object once into the cell that contains it',
     'Adding a catalogue of positions and values to a grid increases each cell, in each selected property, by the sum of '
     'the values of exactly the objects whose positions lie inside that cell (lower edge included, upper edge excluded), the '
     'i-th value column going to the i-th selected property; objects outside the grid, and refused requests, change nothing. The outcome is the '
     'same whether the objects come in one call or many and in whatever order, and number types do not matter. A grid whose '
     'extent is found automatically contains every object. A side length that is not a whole number of cells is increased to the next whole number, so that the grid covers at least what was asked for.',
     ['inputs', 'histories'],
     'every grid geometry (1-4 dimensions, unequal axes, single-pixel axes), every catalogue, with objects on cell edges, outside, repeated; every split of a catalogue into additions',
     'the tests grid one random cube of objects on cubic grids and compare totals; they never look at edges, unequal axes, property subsets or repeated additions',
     [G], [{'name': 'np.digitize/np.add.at style placement with in-bounds mask', 'where': G + ': Grid.add_from_cat, Grid.add_from_pixels'},
           {'name': 'automatic extent', 'where': G + ': Gridder'}],
     'runtime monitoring: one-object-at-a-time reference model as oracle over random and edge-exact catalogues',
     'Exact on dyadic geometries (edges decided exactly); on generic geometries objects within rounding of an edge are set aside.')
prop('C02', "Adding spectra puts each object's values once along its own line of cells",
     "Adding one array of values per object along a chosen axis adds, for every object that lies inside the other axes, each "
     "of its values to the cell of its own line with that index, exactly once, whatever the size of the calculation chunks; objects outside add nothing, and values that cannot be added leave the grid as it was. "
     "With a spectrum function the values are the function at the cell centers, or its difference between cell edges when it is declared cumulative, evaluated with that object's own parameters.",
     ['inputs', 'configurations'],
     'every grid of 2-4 dimensions, choice of axis, set of objects, property subset, chunk size, vectorised or looped evaluation',
     'the tests add a few spectra on one axis of one cube; chunk limits, unequal axes, multiple properties and objects outside are not reached',
     [G], [{'name': 'spectral addition', 'where': G + ': Grid.add_from_spec, Grid.add_from_spec_func, Grid.add_from_pos'}],
     'runtime monitoring: one-object-at-a-time reference model as oracle, with a recording spectrum function',
     'Trusts numpy; values compared to relative 1e-9.')
prop('C03', 'Reshaping keeps every cell value at its place in the grid coordinates',
     'Through any history of padding, unpadding, cropping, rescaling axes, down-sampling, collapsing axes and adding or summing properties, '
     'the number of cells, side lengths, centers and edges of each axis agree with each other and with the data array, and every surviving cell keeps its value and its (rescaled, where asked) position; '
     'padding cells are empty, down-sampled and collapsed cells hold the sum or mean asked for of exactly the cells they replace. Operations that are refused, for any of the axes, leave the grid as it was. '
     'The same operations on a grid that holds no data yet give the same geometry.',
     ['histories', 'inputs'],
     'every history of reshaping operations from every starting geometry, on any subset of axes, before and after Fourier transforms',
     'the tests apply one operation to one cubic grid; combinations, unequal axes and paddings, and grids without data are not reached',
     [G], [{'name': 'geometry bookkeeping next to each operation', 'where': G + ': Grid.pad, unpad, crop, scale_axis, down_sample, collapse_dimension, add_new_prop, collapse_properties'},
           {'name': 'axis construction', 'where': G + ': Grid._set_axes, GridFromAxes'}],
     'runtime monitoring: state monitor comparing the grid with an independent model after every operation of random histories',
     'Exploration over random histories; tolerance relative 1e-9.')
prop('C04', 'Sampling a grid returns the value of the cell that contains each position',
     'Sampling a grid at positions returns, for each position and each selected property, the value stored in the cell that contains it, and the fill '
     'value for positions outside, also after the grid has been reshaped. Sampling changes nothing, and agrees with gridding: an object added at a position is found by sampling there.',
     ['inputs', 'histories'], 'every grid geometry, history of reshaping, and set of positions in, outside and on the edges of cells',
     'the tests sample a single cubic grid at cell centers',
     [G], [{'name': 'position lookup', 'where': G + ': Grid.sample'}],
     'runtime monitoring: per-position reference lookup as oracle',
     'Exact at edges for dyadic geometries; otherwise positions within rounding of an edge are set aside.')
prop('C05', 'Fourier transforms and power spectra are those of the data, and reversible',
     'A Fourier transform over any set of axes gives, at each frequency of the transformed axes, the discrete Fourier sum of the data with the documented '
     'normalisation and frequencies, and transforming back by any route restores data and coordinates. A power or cross power spectrum is the product of the transforms '
     'of the two grids, one conjugated, with the documented normalisation, and leaves the grids it was made from unchanged unless done in place; grids of other sizes or cells are refused and left as they are.',
     ['inputs', 'histories'], 'every geometry, every sequence of forward and inverse transforms over subsets of axes, both normalisations, every pair of compatible grids',
     'the tests transform one field over all axes and look at shapes and a few values',
     [G], [{'name': 'transforms', 'where': G + ': Grid.fourier_transform, Grid.power_spectrum, Grid.cross_power_spectrum'}],
     'runtime monitoring: explicit sum over cells as oracle after each transform of a random history',
     'Small grids (explicit sums); relative 1e-8.')
prop('C06', 'Shell averages include every cell of a shell once, with its weight',
     'A spherical average over any set of axes gives, for every shell, the (weighted) mean, count and deviation of exactly the cells whose distance from the center lies in it, '
     'for every combination of the axes that are not averaged. With default shells every cell belongs to exactly one shell.',
     ['inputs', 'configurations'], 'every grid, center, set of averaged axes, set of shells (linear, logarithmic, explicit), weights',
     'the tests average one cubic power spectrum and look at shapes',
     [G], [{'name': 'shell average', 'where': G + ': Grid.spherical_average'}],
     'runtime monitoring: loop-over-cells reference as oracle, plus a conservation monitor',
     'Cells within rounding of a shell edge make a case set aside.')
prop('C07', 'Convolution is a linear convolution that keeps flux; beams are as declared',
     'Convolving a grid with a source along chosen axes gives in each cell the sum over source cells of the data at the opposite offset, with zero (or the padding) outside the grid and no wrap-around, for every property and every combination of the other axes; a source that does not fit is refused and the grid left as it is. '
     'A beam grid holds a Gaussian of the requested width on the requested pixels, normalised to unit sum or unit peak as asked, separately for each spectral channel.',
     ['inputs', 'configurations'], 'every grid, source shape, set of axes, padding and in-place choice; every beam width and pixel scale',
     'the tests convolve with one symmetric beam and check that the call works',
     [G], [{'name': 'convolution', 'where': G + ': Grid.convolve'}, {'name': 'beams', 'where': G + ': PSF, SpectralPSF'}],
     'runtime monitoring: explicit sum over source cells as oracle',
     'FFT rounding: tolerance relative to the largest value.')
prop('C08', 'Copies of a grid are independent, and a saved grid comes back as it was',
     'A copy of a grid, and a grid saved and loaded again, has the same data, coordinates, units and Fourier and property state as the original, and behaves the same under any further operation. '
     'Changing a copy never changes the original or the other way round, and saving never overwrites an existing file unless asked to.',
     ['histories', 'inputs'], 'every state a history of operations can bring a grid into (with and without data, in Fourier space, power spectrum, several properties)',
     'the tests copy and save one freshly gridded cube',
     [G], [{'name': 'copy and persistence', 'where': G + ': Grid.copy, Grid.save, loadgrid'}],
     'runtime monitoring: bisimulation of original and copy through random operations, with mutation monitors',
     'Aliasing is found by mutating one side and comparing digests of the other.')
prop('C09', "A mapped field is the field seen through each detector's own response",
     "The map an instrument makes of a field for a detector is, in each cell, the sum over the field's spectral channels of that detector's own spectral response times the field convolved with that detector's own beam at that frequency, of the property selected for that field. "
     'Detectors that share responses get the same result as if each were mapped alone, and the source field is not changed.',
     ['inputs', 'configurations'], 'every set of detectors sharing or not sharing spectral and spatial responses, every field geometry, beam normalisation and kernel size, given or calculated beams',
     'the tests map one flat field with one detector and check that a map exists',
     [I, IH, 'simim/instrument/spatial_response.py', 'simim/instrument/spectral_response.py'],
     [{'name': 'mapping and reuse of beams', 'where': I + ': Instrument.map_fields'}, {'name': 'responses', 'where': 'simim/instrument/spatial_response.py, spectral_response.py'}],
     'runtime monitoring: explicit sum over channels and beam cells as oracle for every map',
     'Beams are taken from the documented response functions; relative 1e-7.')
prop('C10', 'Sampling never uses a map that no longer matches the instrument',
     'Once detectors or fields have been added, replaced or removed after mapping, sampling refuses for every detector and field whose map is missing or was made with something that has since changed, until it is mapped again. '
     'Where it does not refuse, the samples are those of maps made with the detectors and fields as they are now.',
     ['histories'], 'every history of adding, removing and replacing detectors and fields, mapping and sampling',
     'the tests map once and sample once',
     [I, IH], [{'name': 'map bookkeeping', 'where': I + ': Instrument.map_fields, sample_fields, del_detector, del_field'}],
     'runtime monitoring: online trace monitor that keeps its own record of what each map was made with',
     'Exploration over random histories.')
prop('C11', "Timestreams are the map at each detector's position plus its own noise",
     "Each sample of a detector's timestream is the value of that detector's own map of that field in the cell at the pointing plus the detector's own offset (the fill value outside the map), plus exactly what its own noise function returned for that sample when noise is asked for. "
     'Samples come in the order of the pointings, for every requested detector and field.',
     ['inputs', 'configurations'], 'every set of detectors, offsets, fields, pointings, sampling rates, with signal, noise or both',
     'the tests sample a handful of positions of one flat map without noise',
     [I, 'simim/instrument/noise_functions.py'], [{'name': 'sampling', 'where': I + ': Instrument.sample_fields'}],
     'runtime monitoring: recording noise functions and per-sample reference lookup as oracle',
     'Positions within rounding of a cell edge are set aside.')
prop('C12', 'Detectors and fields are as declared; refused requests change nothing',
     'An instrument lists exactly the detectors and fields that were added and not removed, each with the responses, offsets and units it was declared with or else the instrument defaults. '
     'A request that is refused (duplicate or unknown name, malformed response, wrong units or property) leaves detectors, fields, existing maps and their usability unchanged.',
     ['histories', 'fault_sequences'], 'every history of valid and invalid requests',
     'the tests add a few valid detectors and check single invalid requests, not what those leave behind',
     [I, IH], [{'name': 'declaration and validation', 'where': I + ': Instrument.add_detector, add_field, del_detector, del_field; ' + IH}],
     'runtime monitoring: model of the declared instrument compared after every valid or refused request',
     'Exploration over random histories.')

H = 'simim/_handlers.py'
S = 'simim/siminterface/simhandler.py'
prop('C13', 'A handler returns what its catalogue holds, in the units asked for',
     'Through any history of loading, unloading, making, renaming, writing and deleting properties, selecting objects and switching default units, a handler '
     'of a snapshot lists exactly the properties that exist, are saved, or are loaded, and returns for each exactly its values, for all or for the active objects in catalogue order, multiplied by the power of '
     'little h its unit carries when little-h-free values are asked for (or are the default). Properties made for the active objects only are NaN elsewhere; existing '
     'properties are not replaced unless asked; returned arrays are not the stored ones; refused requests change nothing.',
     ['histories', 'inputs'], 'every history of handler operations, catalogue, number type, h dependence and selection',
     'the tests load and make one property of one snapshot in one unit system; they cannot cover the histories in which listing, memory, disk and units get out of step',
     [H, S, 'simim/galprops/galprops.py'], [{'name': 'property bookkeeping', 'where': H + ': Handler.load_property, unload_property, return_property, make_property, write_property, delete_property'},
                                           {'name': 'units', 'where': H + ': Handler.set_in_h_units, properties_h_dependence; galprops.py: MultiProp.evaluate_all'}],
     'runtime monitoring: model of the handler compared with every visible value after every operation of random histories',
     'Exploration over random histories of synthetic simulations formatted by the package itself; values to relative 3e-6 (catalogues are single precision).')
prop('C14', 'Selections contain exactly the objects that satisfy every condition',
     'After any sequence of range selections, combined or replaced, the active objects of a handler are exactly those whose values (in the units the limits are given in, limits included) satisfy every condition '
     'since the last reset; NaN satisfies none. Their number, returned values and the arguments of statistics and property functions all agree with that set, in catalogue order, and a selection made for a simulation applies to each of its snapshots.',
     ['histories', 'inputs'], 'every sequence of selections over every kind of property, limits at, between and beyond values, both unit systems, ties, NaN and infinities',
     'the tests make one selection by mass',
     [H, S], [{'name': 'active indices', 'where': H + ': Handler.set_property_range, inds_active, nhalos_active'}, {'name': 'all snapshots', 'where': S + ': SimHandler.set_property_range'}],
     'runtime monitoring: one-object-at-a-time evaluation of the conditions as oracle after every selection',
     'Limits at values are used only where no unit conversion (rounding) is involved.')
prop('C16', 'What is written to disk is what comes back; nothing else on disk changes',
     'A property written to disk, for one snapshot or for all, is there with its values, unit and h dependence when any handler is opened later, until it is deleted; '
     'every other property, snapshot and all metadata in the file stay bit for bit as they were. Nothing on disk is replaced unless asked, a property known for only some objects is not made straight onto disk, and catalogue properties cannot be deleted for a whole simulation. '
     'Interrupted at any point, writing or deleting leaves every snapshot readable, with that property as it was, as asked, or without it, and can be done again.',
     ['histories', 'fault_sequences'], 'every history of making, writing, overwriting with other number types, deleting and reopening, through snapshot and simulation handlers, with refused requests in between',
     'the tests write and read back a single property',
     [H, S], [{'name': 'persistence', 'where': H + ': Handler.write_property, delete_property, make_property(write_to_disk)'}, {'name': 'all snapshots', 'where': S + ': SimHandler.make_property, delete_property'}],
     'runtime monitoring: raw file contents compared with a model after every operation, plus reopened handlers; injected interruptions at random lines',
     'Interruptions come between lines of the package (as Ctrl-C does), not inside HDF5.')
prop('C17', 'Snapshots, masses and volumes are looked up correctly',
     'A simulation handler maps every redshift to the snapshot whose range contains it and refuses redshifts outside, returns the snapshot with a given number (metadata, halos, default units) and refuses others, also when only some snapshots were formatted. '
     'The mass index includes every halo above a mass, in the units the mass is given in, and none more than a step of its table below. Numbers of volumes follow from the box size; statistics are evaluated once per requested snapshot, in order, on that snapshot; '
     'gridding a snapshot puts each active object once into its cell.',
     ['inputs', 'configurations'], 'every simulation and subset of its snapshots, redshift, mass, unit system, selection, grid geometry',
     'the tests look up one snapshot of a complete simulation in default units',
     [S], [{'name': 'lookups', 'where': S + ': SimHandler.z_to_snap, get_snap, get_snap_from_z, get_mass_index, number_volumes, snap_stat, set_in_h_units'}, {'name': 'gridding', 'where': S + ': SnapHandler.grid'}],
     'runtime monitoring: answers compared with the table and halos a synthetic simulation was made from',
     'Redshifts exactly at the boundary of two snapshots are not judged; redshifts in gaps between formatted snapshots neither.')

R = 'simim/siminterface/'
RAW = [R + 'universemachine.py', R + 'uchuu.py', R + 'illustris.py', R + '_illustris_datahandling.py', R + '_rawsiminterface.py']
prop('C18', 'Formatting keeps every raw halo once, with its values, ordered by mass',
     'Formatting the raw catalogue of a snapshot (UniverseMachine text and binary, Uchuu, Illustris, TNG, or any class built on the raw interface) stores every halo of every raw file of that snapshot exactly once, in order of decreasing mass, '
     'every stored field being that same halo\'s raw value converted to the unit and h dependence it is labeled with; positions lie in the box, and halos without a counterpart (orphans) are treated as documented. Snapshots without halos and with one halo are no exception.',
     ['inputs', 'configurations'], 'every raw catalogue: any split over files, order, number of halos, ties, listing order, field values in range',
     'the tests format one small random catalogue made inside the package; none of the published raw formats is read by a test',
     RAW, [{'name': 'readers', 'where': R + 'universemachine.py, uchuu.py, illustris.py: _loader'}, {'name': 'ordering and writing', 'where': R + '_rawsiminterface.py: SimCatalogs.format'}],
     'runtime monitoring: halo-by-halo comparison of the formatted file with synthetic raw data written in the published formats',
     'Raw data are synthetic; the formats are those the package documents.')
prop('C19', 'Snapshot metadata tile redshift and distance, and go with the right files',
     'The metadata of a simulation hold its cosmology and box, and for each of its snapshots number, redshift, and the ranges of redshift and distance it stands for, which touch without gap or overlap, each containing its own snapshot, whatever order snapshots are listed or requested in. '
     'What is downloaded for a snapshot is stored under the name from which that snapshot is later read. Unknown simulations and snapshots are refused.',
     ['inputs', 'configurations'], 'every simulation the package knows, every set and order of snapshots and of the listing of the server',
     'the tests make metadata of one invented simulation; listing, parsing and downloads need a network and are not tested',
     RAW + [R + '_sims.py'], [{'name': 'metadata', 'where': RAW[0] + ', uchuu.py, illustris.py: __init__, _rawsiminterface.py: SimCatalogs'}, {'name': 'download', 'where': R + ': download'}],
     'runtime monitoring: a stand-in server records the requests; metadata compared with ages and distances integrated independently',
     'No network: the server is a stand-in that publishes listings and files as the package documents them.')
prop('C20', 'Formatting adds or replaces only what is asked, and cleaning only raw data',
     'Through any history of formatting runs (new file, added, replaced, basic or extra fields, subsets of snapshots) the formatted file holds exactly the snapshots and fields asked for and those it had before, with existing data replaced only when asked. '
     'Deleting raw data removes exactly the raw files of the formatted snapshots, only with consent, and never anything else, whatever characters paths contain. '
     'A run that is interrupted at any point has lost nothing (each snapshot is still raw or formatted whole, others are untouched), and running it again completes it.',
     ['histories', 'fault_sequences'], 'every history of formatting runs and of raw data changing in between, snapshot files and directories, with and without consent',
     'the tests format once into an empty directory and never clean',
     RAW, [{'name': 'format modes', 'where': R + '_rawsiminterface.py: SimCatalogs.format'}, {'name': 'cleaning', 'where': R + '_rawsiminterface.py: clean_raw and overrides'}],
     'runtime monitoring: file contents and directory tree compared with a model after every run; removals are observed and confined to a scratch directory; injected interruptions at random lines',
     'Interruptions come between lines of the package (as Ctrl-C does), not inside HDF5.')

L = 'simim/lightcone/'
LM, LH = L + 'lcmaker.py', L + 'lchandler.py'
prop('C15', 'Statistics see exactly the values they ask for and leave no trace',
     'Evaluating a statistic of a snapshot, of a light cone, or of a light cone in bins of redshift calls its function once (per bin) with exactly the values it names: properties of all or of the active objects, renamed where asked, in the units asked for, quantities of the simulation, and keyword arguments, '
     'and returns what the function returns. Bins of redshift hold each object once. Whether the function succeeds or fails, loaded properties, selection, units and the arguments passed in are afterwards as they were.',
     ['inputs', 'histories', 'fault_sequences'], 'every statistic (arguments, renamings, units, functions that fail), handler state and division into redshift bins',
     'the tests evaluate one statistic with default choices and check that it runs',
     [H, LH, 'simim/galprops/galprops.py'], [{'name': 'evaluation', 'where': H + ': Handler.eval_stat; ' + LH + ': LCHandler.eval_stat_evo'}],
     'runtime monitoring: statistics whose functions record what they are given, compared with a model of the handler',
     'Exploration over random histories; redshift bins of a light cone start from the whole light cone, as documented in the code.')
prop('C21', 'Objects of a light cone are halos seen from the observer, with matching data',
     'Every object of a light cone is an image of a halo of the snapshot that stands for its distance, moved by whole boxes and by the flips, exchanges and shift recorded for that light cone; it lies in front of the observer, within the angle or circle, redshift range and mass limit asked for; '
     'its angles and redshift are those of its position, its mass the one of the halo, and each object appears in both unit systems alike.',
     ['inputs', 'configurations', 'schedules'], 'every simulation, light cone geometry (box or circle, any aspect), limits, and random orientation',
     'the tests build one light cone from one random simulation and check a few ranges',
     [LM, LH], [{'name': 'placing halos', 'where': LM + ': LCMaker.build_lightcones and helpers'}],
     'runtime monitoring: every object looked up among all periodic images of all halos, worked out independently from the recorded orientation',
     'The table of distances is integrated by a faster stand-in (checked to 1e-11); objects within rounding of a limit are set aside.')
prop('C22', 'A light cone holds every halo image in its field exactly once',
     'A light cone holds every image of every halo that lies in its field, redshift range and mass limit, exactly once: across boundaries of snapshots and of periodic boxes, for light cones longer than the box, at its edges, and for halos exactly at the mass limit; with one observer for the whole light cone.',
     ['inputs', 'configurations', 'schedules'], 'every simulation, light cone geometry and limits, number of boxes along the line of sight, and random orientation',
     'the tests count objects of one light cone made of one random simulation against nothing',
     [LM], [{'name': 'tiling of boxes and snapshots', 'where': LM + ': LCMaker.build_lightcones'}],
     'runtime monitoring: offline exactly-once check of all objects against all periodic images of all halos',
     'The table of distances is integrated by a faster stand-in (checked to 1e-11); images within rounding of a limit are set aside.')
prop('C23', 'A light cone records what it is, and what does not fit is refused',
     'The record a light cone or sphere keeps (simulation, cosmology, geometry, limits, number of objects, orientation, metadata per snapshot) is what was asked for and what is in it; its objects are ordered and its redshift index leads to exactly the objects of each bin; the volume it reports, for all or part of it, is that of the region. '
     'Requests and regions that do not fit the simulation or the light cone are refused, and leave existing light cones untouched. '
     'Whenever making light cones or adding to them is interrupted, only those that are whole say that they are finished, only complete properties become part of them, and it can be done again.',
     ['inputs', 'configurations'], 'every light cone and sphere, part of it (box or circle, angles, redshifts), and request',
     'the tests compare one volume with a number and check two refusals',
     [LM, LH], [{'name': 'metadata and index', 'where': LM + ': LCMaker, SphereMaker'}, {'name': 'volume', 'where': LH + ': LCHandler.volume'}],
     'runtime monitoring: files and handlers compared with the request, and volumes with solid angle times shell, after every build; injected interruptions at random lines',
     'Light cones within rounding of fitting are not generated.')
prop('C24', 'A sphere holds every halo within its distances exactly once',
     'A sphere, hemisphere, quarter or eighth of a sphere holds every halo around its observer that lies within its distances, part of the sky and mass limit exactly once, each from the snapshot that stands for its distance, with angles, redshift and mass of that halo, and nothing else; spheres that do not fit the box are refused.',
     ['inputs', 'configurations', 'schedules'], 'every simulation, part of the sphere, limits and random orientation',
     'the tests build one sphere and check that it runs',
     [LM], [{'name': 'spheres', 'where': LM + ': SphereMaker'}],
     'runtime monitoring: offline exactly-once check of all objects against all periodic images of all halos',
     'Known finding: the size limit compares Mpc/h with Mpc. Objects within rounding of a limit are set aside.')
prop('C25', 'Properties added to light cones belong to their objects, and turn with them',
     'A property added to light cones or spheres has for each object the value of the halo it is an image of, with its type, unit and h dependence; velocities, spins and centers of mass are turned and flipped with the light cone as positions are (spins as pseudovectors), centers of mass lie where the object lies. '
     'A handler of a light cone keeps the guarantees of a handler of a snapshot, and its objects put on a grid land where their coordinates are, with their values.',
     ['inputs', 'configurations', 'histories', 'schedules'], 'every simulation, set of light cones, order of additions, and history of the handler',
     'the tests add two properties to one light cone and check that they exist',
     [LM, LH, H], [{'name': 'adding properties', 'where': LM + ': add_properties, add_pos_properties'}, {'name': 'gridding', 'where': LH + ': LCHandler.grid'}],
     'runtime monitoring: value by value comparison with the halo found through the unique mass, turned independently as recorded',
     'Halos have unique masses so that objects can be told; single precision tolerances.')

prop('C26', 'A set of light cones can be made again, and read together as one by one',
     'Given the same simulation, request and random numbers, a set of light cones or spheres is made again with the same contents; other random numbers change only the orientation, not the rules; the light cones of a set start anywhere in the box, with flips, position angles and lines of sight of their own, no line of sight closer to the axes of the box than the limits for the width of the field. '
     'A set handled together gives for every light cone, through any history of operations, what handling it alone gives, in memory and in the files, and results given before stay as they are; a set whose light cones differ in shape, angles or redshifts is refused, or where that is allowed, has volumes of single light cones only.',
     ['inputs', 'configurations', 'histories'], 'every simulation and set of light cones or spheres, random generator and history of operations on the set',
     'the tests make one set once, and never compare two',
     [LM, LH], [{'name': 'orientation drawn from the generator', 'where': LM + ': LCMaker, SphereMaker'}, {'name': 'iterator over sets', 'where': LH + ': LCIterator'}],
     'runtime monitoring: file by file comparison of repeated builds, and differential histories of an iterator next to single handlers',
     'Exploration over random sets of 1-4 light cones.')
prop('C27', 'Data are found where they were put, and replaced only with consent',
     'A data directory, once set up, and every simulation, light cone and property directory registered in it, is found again by every later session where it was put, whatever characters its path contains (line breaks are refused); '
     'setting up or registering again replaces what is there only after the user has agreed; a refusal or a nonsensical answer changes nothing, and paths that do not exist are refused.',
     ['histories', 'inputs'], 'every history of setting up, registering, creating, asking and answering',
     'the tests set up one directory once with the expected answers',
     ['simim/_paths.py'], [{'name': 'registry file and questions', 'where': 'simim/_paths.py: _SimIMPaths, setupsimim'}],
     'runtime monitoring: model of the registry compared with new sessions and the files after every step of random histories, with scripted answers',
     'Answers come from a stand-in for input(); interrupted writes of the registry are not explored.')

prop('C28', "A property's function gets what it asks for; its values are kept as declared",
     'Evaluating a property on a snapshot, light cone or sphere calls its function once, with exactly the arguments it names: the named (or remapped) properties of exactly the selected objects in the declared unit system, metadata as they are, and the additional arguments; '
     "what it returns is recorded under the declared (or new) names, units and h dependences, converted by powers of h, and not evaluated objects are NaN; nothing else changes, whatever the function does to its arguments, nor do the caller's objects. "
     'Missing arguments, wrong numbers of values and contradictory declarations are refused. The predefined properties can be made on any of these.',
     ['inputs', 'configurations', 'histories'], 'every function signature, remapping, container, h dependence and state of the catalogue',
     'the tests make two properties of one argument',
     [GP, GP[:-11] + 'galprops_builtin.py', H], [{'name': 'evaluation protocol', 'where': GP + ': MultiProp.evaluate_all, Prop.evaluate'}, {'name': 'recording', 'where': H + ': Handler.make_property'}],
     'runtime monitoring: functions that record and tamper with what they are given, judged against a model of the catalogue',
     'Functions are random combinations of arguments; values compared to relative 3e-6.')

prop('C29', 'Lines, SFRs and stellar masses follow the published relations, object by object',
     'Without scatter, each luminosity, star formation rate or stellar mass is that of the published relation with the options given, evaluated for that object alone: single objects, parts and other orders give the same. '
     'Scatter is log-normal with the width asked for around that value (preserving median or mean as documented), duty cycles switch on the documented fraction, independently for each object; all random numbers come from the generator given, so that the same generator gives the same values. '
     'Unknown lines, sets and transitions are refused, inputs are left as they are, and the rest frequencies and constants used are the physical ones.',
     ['inputs', 'configurations'], 'every model, option, number and kind of objects, and random generator',
     'no test evaluates any of these models',
     ['simim/galprops/line_co.py', 'simim/galprops/line_co_dutycycle.py', 'simim/galprops/line_densegas.py', 'simim/galprops/line_fir.py', 'simim/galprops/line_fir_yang.py',
      'simim/galprops/sfr_behroozi13.py', 'simim/galprops/log10normal.py', 'simim/constants.py', 'simim/galprops/sfr_bethermin17.py', 'simim/galprops/sfr_ir.py'],
     [{'name': 'scatter', 'where': 'simim/galprops/log10normal.py: log10normal'}, {'name': 'piecewise fits', 'where': 'simim/galprops/line_fir_yang.py: yang22'}],
     'runtime monitoring: independent evaluation of the published relations as oracle, metamorphic and statistical monitors',
     'Tables of coefficients are pinned as in the current tree; statistics decide at 6.5 sigma on seeded generators.')

prop('C30', 'Abundance matching keeps abundances, in catalogues, distributions and models',
     'Matching two properties by abundance (am_dfcat, am_dfdf) gives functions under which an object and its match have the same fraction of all objects below them, '
     'up to one object of the catalogue and taking account of the mass said to be missing at either end and of the limits given, in the same or in reversed order; the two '
     'functions are monotone and each others inverses, the same for single values as for arrays, and give the requested value (NaN, limit, number) where there is no '
     'counterpart; impossible missing masses and unknown extrapolations are refused. The luminosity functions to match with (Schechter, double and modified Schechter, '
     'double power law) are normalised distributions: density, cumulative, integral, inverse and draws agree with one another and with the stated law above the lower limit, '
     'with nothing below it. The stellar mass and infrared luminosity models built on a simulation (bethermin17_base, g13irlf_base) give every matched halo a value such '
     'that the volume of the box holds as many galaxies above it as halos above the halo (halos below the lower limit do not matter), per snapshot, linear in redshift between, NaN elsewhere; the table is kept until it '
     'is asked to be remade and required before use; main sequence, star-forming and starburst fractions and the star formation rates drawn from the generator given follow the '
     'published relations with the parameters set.',
     ['inputs', 'configurations', 'histories'], 'every catalogue, distribution, missing mass, limit, simulation and parameter set',
     'no test runs abundance matching at all',
     ['simim/galprops/galprops_am.py', 'simim/galprops/sfr_bethermin17.py', 'simim/galprops/sfr_ir.py'],
     [{'name': 'matching', 'where': 'simim/galprops/galprops_am.py: am_dfcat, am_dfdf'}, {'name': 'tables', 'where': 'simim/galprops/sfr_bethermin17.py: _make_stellarmass_function'}],
     'runtime monitoring: counting objects above both sides of every observed match, numerical integration as oracle for the distributions, statistical monitors',
     'Table entries above the most massive and below the least massive halo are not judged (known finding).')

prop('C31', 'Plots show the data asked for, where it belongs, and change nothing',
     'Handler.plot and Handler.hist draw exactly the values of the properties asked for, of the active or of all objects (or both, to compare), in the units asked for, logarithms where '
     'asked; Grid.visualize colours each cell of the grid, at its place along the two axes asked for in either order, by its sum over the other axes or its value at the slices given, '
     'of the property asked for; Grid.animate shows every slice in turn along the axis asked for (and the still the slice asked for), with the position marked; LightCone animations show in each step the objects between its distances, at their place across the field and the sky, with the outline of the light cone there and its redshift; the response plots of '
     'an instrument show the spectral and spatial response of each detector asked for, with x along x, over the region and frequencies asked for (by default around their reference '
     'frequencies). Keyword arguments reach the plot and are not changed; neither are the data, the selection, the units, or matplotlib\'s settings; a file is written when asked. '
     'Unknown properties, detectors, axes and slices are refused, and a detector without a nominal frequency takes the frequency of the peak of its response as reference, NaN where there is none.',
     ['inputs', 'configurations'], 'every catalogue, selection, grid, axis order, slice, instrument and choice of arguments',
     'no test looks at what a plot contains',
     [H, G, I, 'simim/galprops/sfr_behroozi13.py'],
     [{'name': 'figures', 'where': 'simim/map/gridder.py: Grid.visualize, Grid.animate'}, {'name': 'catalogue plots', 'where': 'simim/_handlers.py: plot, hist'}],
     'runtime monitoring: monitors on the figures drawn (lines, bars, coloured cells and their corners, labels, frames of animations) against brute-force references, before/after monitors on arguments, data and settings',
     'Animations of lightcones, figures of grids in Fourier space and the horizontal offset of the summed panel of animate are not judged.')

# MORE

NA = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': p['mech']}}
            if p['state']:
                d['anchors']['state'] = list(p['state'])
            if p['observe']:
                d['anchors']['observe_at'] = list(p['observe'])
            f.write(json.dumps(d) + '\n')
    py = '/opt/venv/bin/python'
    m = {'version': 1, 'setup_cmd': py + ' tools/setup.py',
         'checks': [{'property': p['id'], 'quick_cmd': '%s checks/run.py %s --tier quick' % (py, p['id']),
                     'thorough_cmd': '%s checks/run.py %s --tier thorough' % (py, p['id']),
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'],
                     'level': 'exploration', 'level_note': p['note']} for p in P if p['id'] not in dict(NA)],
         'not_applicable': [{'property': k, 'reason': r} for k, r in NA]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
