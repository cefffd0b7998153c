"""Writes /verif/properties.jsonl (run by hand when the properties change)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over.split(), text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files.split(),
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe.split('; '), hook_needed=None)))


R = 'karabo_data/reader.py'
RM = 'karabo_data/read_machinery.py'
prop('C01', 'Reading one train returns exactly the rows the file index assigns to it', """
Reading a train by ID or by position returns, for every source and key of the collection, exactly the dataset
rows which the file's index assigns to that train: the row itself when there is one entry, the consecutive rows
in order when there are several, and no entry for the key when the train has none or no file of the source
contains the train. Every source's metadata carries its name and the train ID, and an ID which is not in the
collection raises an error.""",
'inputs configurations', """all train IDs, all index contents (first row and count per train, in any order and
with gaps), both index layouts, trains spread over several files in any order""",
"""The existing tests read one or two trains of files with a fixed, regular index (one count for all trains, rows
stored back to back from 0), so wrong offsets, stale file choices or off-by-one slices that only show for other
indexes pass.""",
R, [('train_from_id / train_from_index', R), ('_find_data', R), ('get_index', R)],
'DataCollection.train_from_id; DataCollection.train_from_index')

prop('C02', 'Iterating over trains agrees with reading them one by one', """
Iterating over a collection yields every selected train exactly once, in increasing order of ID, with the same
content as reading that train by its ID. When all data is required, exactly those trains are left out for
which some selected source has no entry for some selected group of keys.""",
'inputs histories', """all train IDs and index contents, any division of a source's trains over files, with and
without requiring complete data, after selections of sources, keys and trains""",
"""Tests compare a handful of trains with regular indexes; the iterator keeps per-source caches of the last
file used, so correctness depends on the sequence of files visited and on trains missing from some of them.""",
R, [('TrainIterator', R), ('_check_data_missing', R)], 'DataCollection.trains',
[('_datasets_cache', 'last file and dataset used for each source and key', R)])

prop('C03', 'A labelled array holds every row of the selected trains with its train ID', """
Reading a data field as a labelled array returns all rows belonging to the selected trains, ordered by train ID
and in stored order within a train, each labelled with its train's ID, with dtype and trailing shape of the file.
A region of interest gives the same result as applying that index expression to the trailing dimensions of the
full array.""",
'inputs configurations', """all train IDs, counts (including zero) and starting rows; up to four trains in up to
three files given in any order; all contiguous or scattered train selections; all slice bounds of the region of
interest""",
"""Tests use fixed counts and contiguous selections; chunk boundaries between selected and unselected trains,
trains without data and regions of interest with negative or out-of-range bounds are not reached.""",
R + ' ' + RM, [('get_array', R), ('_find_data_chunks', R), ('contiguous_regions', RM), ('_expand_trainids', R)],
'DataCollection.get_array')

prop('C04', 'Series, dataframes and data counts line up with the stored index', """
A series for a one-dimensional field contains exactly the rows of the selected trains in order, indexed by train
ID (and by pulse ID where a train has several entries); a dataframe has one column per selected field, each row
aligned on these labels. The data counts of a field give, for every selected train in files of its source, the
number of entries the index records.""",
'inputs configurations', """all train IDs, counts, pulse IDs and data values within the bounds; any division over
files; selected subsets of trains""",
"""Tests look at a few series of regular mock data; trains without entries, files without data for the source and
unequal counts change which alignment is right and are not sampled.""",
R, [('get_series', R), ('get_dataframe', R), ('get_data_counts', R)],
'DataCollection.get_series; DataCollection.get_dataframe; DataCollection.get_data_counts')

prop('C05', 'A lazily loaded array has the same content as the array read directly', """
Computing the lazy (Dask) array of a data field gives the same values in the same order, with the same shape and
dtype, as reading the field directly, whatever trains are selected, and including fields or files without any
entries.""",
'inputs configurations', """all train IDs, counts and starting rows, any division over files, any selection of
trains""",
"""The one existing test uses files with equal counts for every train; empty chunks and uneven files decide
whether chunk sizes and slices are right.""",
R, [('get_dask_array', R), ('_find_data_chunks', R)], 'DataCollection.get_dask_array')

prop('C06', 'Selecting trains keeps exactly the trains asked for', """
A selection by a slice of train IDs keeps exactly the trains of the collection in that half-open interval (with
the given step), whether or not its bounds occur in the data; a selection by position keeps the trains Python
indexing would; a list of IDs or positions keeps exactly those present, in increasing order. A slice of train
IDs which ends before the first or starts after the last train of the collection, and a list of only unknown IDs,
raise an error, and files without selected trains are dropped.""",
'inputs', """all sets of up to five train IDs, all slice bounds (inside, between, before, after or equal to the
train IDs), all positions and steps in range, all lists of IDs""",
"""Tests try a few slices whose bounds are existing IDs; gaps between train IDs, bounds outside the run and
steps are where slices go wrong.""",
R + ' ' + RM, [('select_trains', R), ('_tid_to_slice_ix', RM)], 'DataCollection.select_trains')

prop('C07', 'Selecting and deselecting sources and keys follow set algebra', """
Selecting by glob patterns, by lists of patterns or by a dictionary keeps exactly the sources and keys that
match (a key pattern also matches the implied value field of control sources) and that were part of the
collection before, so repeated selections only narrow; a pattern without any match raises an error. Deselecting
with the same arguments keeps exactly the complement, and neither changes the trains or the original
collection.""",
'inputs configurations', """all sub-collections of a run of control and instrument sources, all pairs of
selections and deselections built from a vocabulary of literal and wildcard source and key patterns, applied in
sequence""",
"""Tests check a few patterns applied once; the effect of applying selections one after another, on already
narrowed keys, with overlapping patterns, is a property of all combinations.""",
R + ' ' + RM, [('_expand_selection', R), ('_select_glob', R), ('deselect', R), ('union_selections', RM)],
'DataCollection.select; DataCollection.deselect; DataCollection.keys_for_source')

prop('C08', 'Joining collections merges sources and trains and rejects conflicts', """
The union of collections has the trains of all of them, in increasing order and without duplicates, and for each
source the union of the keys selected in any of them; reading a train gives what the collection containing it
gives. If two different files hold the same source for the same train, building the collection is refused, and
it never is refused otherwise.""",
'inputs configurations', """all train IDs of up to three files (equal, overlapping, disjoint), sources shared or
not, whole or narrowed collections, any order of arguments""",
"""Tests build one union and one conflict; conflicts depend on whether any train ID coincides between files,
which is a question over all combinations of IDs.""",
R + ' ' + RM, [('union', R), ('union_selections', RM), ('_check_source_conflicts', R)],
'DataCollection.union; DataCollection constructor')

prop('C09', 'Every supported file layout yields the same trains, sources and index', """
Opening a file recognises all train IDs it holds, ignoring zero padding, and every control and instrument source
listed in its metadata (in either metadata layout, ignoring blank entries), with all keys below it. The number of
entries per train is the same whether the index stores counts, or first, last and status.""",
'inputs configurations', """all train IDs, padding lengths, metadata layouts, source lists including blank
entries, and index contents in both index layouts""",
"""Tests use two example files, neither with a mix of padding, layouts and empty trains; a wrong count for a
train without entries or a dropped train only shows for particular contents.""",
R, [('FileAccess', R), ('_read_data_sources', R), ('_read_index', R), ('get_keys', R)],
'H5File; DataCollection.all_sources; DataCollection.train_ids; DataCollection.get_data_counts')

prop('C10', 'A written copy reads back the same as the collection it was written from', """
Writing a selection to a new file and opening that file gives the same trains, the same sources and keys for
which there is data, and for each train the same data as the original selection; trains for which a source has
no data have no entries in the copy. Where data cannot be represented, writing fails with an error instead of
producing a file that assigns rows to the wrong trains.""",
'inputs configurations', """all train IDs, counts and starting rows over several files, any train selection and
key selection, sources missing from some files, trains without entries""",
"""The existing test writes one regular collection; alignment of the new index with the copied rows depends on
counts, missing trains and file order.""",
R + ' karabo_data/writer.py', [('FileWriter', 'karabo_data/writer.py')], 'DataCollection.write; H5File on the result')

prop('C11', 'Virtual datasets show the same data as the collection', """
A virtual file or virtual dataset made from a selection reads back the same trains and the same data per train
as the selection itself, through links to exactly the source rows that belong to the selected trains, in train
order.""",
'inputs configurations', """all train IDs, counts and starting rows over several files, any selection of trains,
files and trains without entries""",
"""The existing tests compare one regular run; where links start and end depends on counts, gaps in the
selection and trains without data.""",
R + ' karabo_data/writer.py', [('VirtualFileWriter', 'karabo_data/writer.py'), ('get_virtual_dataset', R)],
'DataCollection.write_virtual; DataCollection.get_virtual_dataset')

V = 'karabo_data/validation.py'
prop('C12', 'The validator reports a file if and only if its index is inconsistent', """
Validating a file reports a problem exactly when its train IDs (before trailing zero padding) are not strictly
increasing or contain zeros, or the index of some instrument data group refers to rows outside one of the
group's datasets, does not start at row 0, has gaps or overlaps between consecutive trains, or lacks
entries for some of the trains (entries beyond the last train are padding). It reports each of these as a problem rather than failing
with another error, and a run is reported exactly if one of its files is, a file cannot be opened, no file is
usable, or the cached file information disagrees with a file, wherever the run's folder is. The command line tool
gives the same verdict, also as its exit status.""",
'inputs fault_sequences', """all train IDs, first and count values and dataset lengths for up to three trains and
two groups; index datasets of differing lengths; unreadable files; folder names""",
"""The single existing test validates one well-formed file, so nothing checks that any class of broken index is
reported, or that every correct file passes.""",
V, [('FileValidator', V), ('check_index_contiguous', V), ('RunValidator', V)],
'FileValidator.run_checks; RunValidator.run_checks')

F = 'karabo_data/run_files_map.py'
prop('C13', 'The cached map of a run never changes what is read', """
Opening a run directory gives the same collection whether or not a cached map of its files exists, and whatever
happened to the directory since the cache was written: entries whose recorded size or modification time differ
from the file are ignored, missing files are ignored, new files are read and added. Saving and loading the map
preserves the trains and sources of each file exactly.""",
'histories inputs', """all histories of writing a cache, then adding, removing or replacing files with any size,
modification time and content, then opening again; cache in the run directory or in the scratch directory; all
train IDs""",
"""Tests save and load one map of an unchanged directory; staleness is decided by comparisons over file states
that tests do not vary.""",
F + ' ' + R, [('RunFilesMap.load / get / save', F), ('RunDirectory', R)], 'RunDirectory; RunFilesMap.get',
[('files_data', 'valid cache entries by file name', F)])

prop('C14', 'Writing the cache is atomic and never prevents a run from being opened', """
At every point at which writing the cached map can be interrupted, fail or be overtaken by another process doing the same, the cache file either has its previous
content or the complete new content, and no temporary file is left behind by a failure the program sees. A cache
which is absent, unreadable for lack of permission or not valid JSON, and a location where the cache may not be
written, never make opening the run fail; the next location is tried instead.""",
'crash_points fault_sequences', """a crash or an error at every file-system operation of loading and saving the
map, permission errors at each location, and every truncated or invalid cache content modelled""",
"""Tests inject no faults and run as root, where permission errors do not occur.""",
F, [('atomic_dump', F), ('RunFilesMap.load / save', F)], 'RunDirectory; file-system state after each fault')

K = 'karabo_data/components.py'
prop('C15', 'Detector arrays contain exactly the selected pulses of every module', """
The array of per-pulse detector data has, for every module, selected train and pulse chosen by pulse ID or by
position within the train, exactly the value stored for that module, train and pulse, at the coordinates that
name them, and no other pulses; cells without data are filled with the missing value. Modules are labelled with
their number, and data per train that is not pulse-resolved is returned as the plain field would be. Negative pulse
numbers are refused.""",
'inputs configurations', """all pulse IDs, counts and starting rows for up to two modules, three trains and three
pulses; every pulse selection by ID or position, as single number, list or slice; trains split over files and
missing from some modules""",
"""Tests select one pulse range from mock data in which pulse IDs are 0..n-1 for every train, so that selection
by ID and by position cannot be told apart and offsets of later trains are regular.""",
K, [('_get_module_pulse_data', K), ('_select_pulse_ids / _select_pulse_indices', K), ('_check_pulse_selection', K)],
'MPxDetectorBase.get_array')

prop('C16', 'Iterating over detector trains yields the selected pulses of each module', """
Iterating over detector data yields, in order, every train in which all modules used have data for all keys, and
for each key the stored values of the selected pulses of each module, labelled with module number, train and
pulse ID; the pulses selected for a train are those the same selection keeps when reading all trains at once.""",
'inputs histories', """all pulse IDs, counts and starting rows for up to two modules, three trains and three
pulses; every pulse selection by ID or position; trains split over files""",
"""Tests read the first train of mock data with consecutive pulse IDs; selections that miss all pulses, ordered
slices over IDs and later trains with other offsets are not reached.""",
K, [('MPxDetectorTrainIterator', K)], 'MPxDetectorBase.trains')

prop('C17', 'A detector interface picks the right modules, trains and frame count', """
A detector interface uses exactly the sources of its detector type (or the named detector and modules), numbered
by the module in the source name (modules whose files hold none of these trains are left out), and exactly the trains in which at least the required number of modules have
data. Frame counts that differ between modules or trains, data from several detectors, or no data at all are
refused, and nothing else is.""",
'inputs configurations', """all counts per module and train (0 up to 2), modules present or absent, minimum
numbers of modules, module subsets, single and several detectors in one run""",
"""Tests construct interfaces on complete data, with one case of a missing module; which trains qualify depends
on all combinations of counts.""",
K, [('MPxDetectorBase.__init__', K), ('_identify_sources', K), ('_select_trains', K)],
'AGIPD1M / LPD1M / DSSC1M constructors; train_ids; frames_per_train; data')

X = 'karabo_data/write_cxi.py'
prop('C18', 'The virtual CXI file maps each frame of each module to its own data', """
In the virtual CXI file, frame i of module m shows exactly the stored image, gain, mask and cell ID of module m
for the train and pulse that the file's train ID and pulse ID lists name for frame i, and the fill value where
the module has no data for that train. There is one frame per pulse of each selected train, in order, and pulse
IDs that differ between modules, or are missing, are refused. The links, identifiers and axes which CXI prescribes
lead to and describe these datasets.""",
'inputs configurations', """all train IDs, pulse IDs and starting rows for up to two modules, three trains and two
frames per train, trains missing from some modules, data split over files, raw and corrected layouts""",
"""Tests check shapes and a few values of a regular run; the mapping must hold for gaps that differ between
modules.""",
X, [('VirtualCXIWriter', X), ('_map_chunk', X), ('collect_pulse_ids', X)], 'write_virtual_cxi')

S = 'karabo_data/stacking.py'
prop('C19', 'Stacked detector data puts each module in its place', """
Stacking the modules of a train gives an array in which the entry for module m along the stacking axis equals
that module's data, and entries of missing or empty modules equal the fill value (0 for integer data unless
given); the view that avoids copying shows the same values for every supported index expression. Module numbers
out of range, differing shapes or differing dtypes are refused, and stacking other devices orders them by the
numbers in their names.""",
'inputs configurations', """all data values, all sets of present, missing and empty modules among up to four, all
stacking axes, floating-point and integer dtypes, with and without copying""",
"""Tests stack complete data and one missing module on the default axis.""",
S, [('stack_detector_data', S), ('StackView', S), ('stack_data', S)], 'stack_detector_data; stack_data')

E_ = 'karabo_data/export.py'
prop('C20', 'Streamed messages decode to the data that was fed in', """
For every train the message parts decode, by the published bridge protocol, to the same sources, metadata and
values: arrays with identical dtype, shape and content regardless of memory layout, numpy numbers as equal plain
numbers, other values unchanged (protocol 1.0 carries only metadata which is part of the data). Dummy timestamps are added only where asked for and only to sources without a
timestamp.""",
'inputs', """all integer and floating-point values, array shapes up to two dimensions in any memory order, with
and without separate metadata and dummy timestamps, for both protocol versions""",
"""Tests serialise one example in default memory order.""",
E_, [('ZMQStreamer._serialize', E_)], 'parts put on the wire by ZMQStreamer')

prop('C21', 'Streaming delivers every train once, in order, to the requesting clients', """
Whatever the relative speed of producer and clients, each request is answered with exactly one train, trains are
answered in the order they were fed, none is lost or duplicated while the streamer runs, and no more than the
configured number wait in the queue. A request other than the protocol's is never answered with data, and
serving files delivers every train of the selected sources and keys before it stops: trains fed before the
streamer is asked to stop are still served to clients requesting them.""",
'schedules inputs', """all interleavings of one feeding thread, the serving thread and client requests for up to
three trains and a queue of length one or two, with valid and invalid requests""",
"""Tests run one schedule of one client and one server.""",
E_, [('REPInterface.run', E_), ('ZMQStreamer.feed / start / stop', E_), ('serve_files', E_)],
'sequence of replies; queue length',
[('_buffer', 'bounded queue of serialised trains', E_), ('_stop_event', 'asks the serving thread to stop', E_)])

G = 'karabo_data/geometry2/__init__.py'
prop('C22', 'Pixel positions follow from each tile, and agree between the two lookups', """
The position of every pixel (corner or centre) equals the tile's corner plus its steps along slow and fast scan
for the tile which holds that pixel in the module's data, with the half-pixel shift of odd rows for hexagonal
pixels. Looking up the position of data coordinates gives the same answer for pixel centres (and for any
fractional position inside a pixel's tile) for every module and pixel, for the detectors which offer that lookup
(AGIPD and LPD).""",
'inputs configurations', """all tile corner positions and step vectors (real-valued), all modules and tiles, all
pixel indices and fractional coordinates inside the module""",
"""Tests compare one module of one geometry within tolerances; a wrong tile order shows only for some tiles, and
generic vectors are never used.""",
G, [('get_pixel_positions', G), ('_tile_slice', G), ('data_coords_to_positions', G), ('_module_coords_to_tile', G)],
'get_pixel_positions; data_coords_to_positions')

prop('C23', 'Assembling an image puts every data pixel where the geometry says', """
In the assembled image every pixel of every module appears exactly at the grid location nearest to its position
in the geometry (for geometries whose tiles are aligned with the grid and do not overlap), for any tile
orientation; the reported centre is the location of the origin, all other pixels are unset or left unchanged in
a given output array, and leading dimensions of the data are preserved. An output array of the wrong shape, or
which cannot hold the data, is refused.""",
'inputs configurations', """all tile positions on and off the pixel grid, all eight orientations of tiles, data
values of all pixels, with and without a given output array, one or more frames""",
"""Tests check shape and centre of one or two real layouts, not where individual pixels land.""",
G, [('GeometryFragment.snap', G), ('GridGeometryFragment', G), ('SnappedGeometry', G), ('split_tiles', G)],
'position_modules_fast; output_array_for_position_fast')

prop('C24', 'The distortion array lists the true corners of every pixel', """
For every pixel, the distortion array holds the (z, y, x) positions of the pixel's corners derived from the tile
geometry, in the module order of concatenated data. Without negative coordinates the result is shifted by one
constant so that the smallest x and y are zero; otherwise the origin is kept.""",
'inputs configurations', """all tile corner positions and step vectors (real-valued), all pixels and corners of
whole detectors of each kind""",
"""Tests check a few bounds of one layout.""",
G, [('to_distortion_array', G), ('_distortion_array_slice', G)], 'to_distortion_array')

prop('C25', 'A geometry written to a CrystFEL file describes the same detector', """
Reading back a written CrystFEL geometry file gives a geometry with the same corner position, step vectors and
size for every tile, and every tile names the data region (including module offset or module index, according to
the given dimensions) that holds its pixels. The optional settings appear with the given values, rigid groups
list every tile exactly once, and leaving out the frame dimension is an error.""",
'inputs configurations', """all tile positions and vectors (real-valued, up to the text representation of
numbers), all tiles of every detector type, all dimension layouts""",
"""Tests round-trip one idealised layout with zero z components and compare within tolerances.""",
'karabo_data/geometry2/crystfel_fmt.py ' + G,
[('write_crystfel_geom', 'karabo_data/geometry2/crystfel_fmt.py'), ('from_panel_dict', G)],
'write_crystfel_geom; from_crystfel_geom')

prop('C26', 'Geometries built from quadrant positions place tiles as documented', """
Building a geometry from quadrant positions, or from a geometry file and quadrant positions, places each tile's
first pixel, pixel steps and size according to the documented layout of the detector: module and tile order,
orientation per quadrant, tile size and gaps, offsets from the file. The pixel steps always have the detector's
physical pixel size, and expressing the same lengths in another unit gives the same geometry. Inverting a
geometry file negates every position in it.""",
'inputs', """all quadrant positions, gaps, units and file offsets (real-valued), every module and tile of AGIPD,
LPD and DSSC""",
"""Tests use one or two real layouts in the default unit.""",
G, [('AGIPD_1MGeometry.from_quad_positions', G), ('LPD_1MGeometry.from_quad_positions', G),
    ('from_h5_file_and_quad_positions', G), ('invert_xfel_lpd_geom', G)],
'tile corner positions and vectors of constructed geometries')

prop('C27', 'Proposal and run identifiers open the intended directory and files', """
Opening a run by proposal and run, given as numbers, digit strings, prefixed names or a path, uses the directory
of exactly that proposal, data kind and run, and a proposal that does not exist is an error. Opening a run
directory reads exactly the HDF5 files that match the given file name pattern, reports and skips files which
cannot be opened, and fails if none match or none is usable.""",
'inputs configurations', """all proposal and run numbers, all spellings of each, directory contents chosen from
matching, non-matching, unreadable and other files""",
"""Tests open one run with one or two spellings.""",
R + ' ' + RM, [('open_run', R), ('find_proposal', RM), ('RunDirectory', R), ('from_paths', R)],
'open_run; RunDirectory')

O = 'karabo_data/geometry.py'
prop('C28', 'The older LPD geometry places each tile at its offset', """
The older LPD geometry interface assembles an image in which each tile of each module appears, rotated by half a
turn as documented, at the pixel location of the summed offsets of quadrant, module and tile relative to the
reported centre, inside the output array, and nothing else appears; offsets are read in the given unit at every level.""",
'inputs', """all quadrant positions, module and tile offsets and units (real-valued), one or more frames""",
"""The one test checks the shape of one layout.""",
O, [('LPDGeometry', O), ('splitChannelDataIntoTiles', O), ('GeometryFragment.from_h5_group', O)],
'LPDGeometry.position_all_modules; find_offset')

prop('C29', 'Run and file summaries report the true contents', """
Summaries of a run or file give the number of trains, first and last train ID and duration, the detector modules
with their dimensions and frames, and the instrument and control sources of the selection; details on a train
list exactly the sources of the files containing it; detector information gives the frame count and dimensions
stored. The command-line listing summarises files, runs and proposal directories, each under its name, without
failing on any supported layout.""",
'inputs configurations', """all train IDs and counts, all selections of sources, detector and other files""",
"""Tests run the summaries on example data without looking at most of the output.""",
R + ' karabo_data/lsxfel.py', [('info / train_info / detector_info', R), ('describe / summarise', 'karabo_data/lsxfel.py')],
'printed output; detector_info')

prop('C30', 'The image viewer shows the frame it is positioned at', """
Given a stack of images, the viewer's position always stays within the stack, moving to the next or previous
image or setting a position shows exactly the image at the new position, and positions outside the stack and
data of other shapes are refused.""",
'histories inputs', """all sequences of moves, assignments and new stacks""",
"""Tests construct the viewer once and check the refusal of wrong data.""",
'karabo_data/utils.py', [('QuickView', 'karabo_data/utils.py')], 'QuickView')

prop('C31', "An interpolated image shows each tile's data at its physical position", """
The image an AGIPD geometry assembles with interpolation covers the whole detector and shows the data of each tile,
in whatever direction the tile is turned, within half a pixel of its physical position relative to the centre
reported with the image. Pixels not covered by a tile are NaN. Data of another shape than the detector's is refused.""",
'inputs', """all positions and orientations of tiles, including oblique ones""",
"""Tests run one interpolation and check its shape only.""",
G, [('position_modules_interpolate', G), ('_get_dimensions', G)],
'position_modules_interpolate')

prop('C32', 'The virtual CXI command uses the run, detector, trains and file asked for', """
The command which makes virtual CXI files reads exactly the run named by a run directory or by a proposal
directory and run number, uses its AGIPD data or otherwise its LPD data, and includes exactly the trains for
which at least the requested number of modules (9 unless told otherwise) have data. The file is written where
asked, or else in the scratch directory of the proposal under a name which differs between runs and between raw
and processed data. A run, detector or output directory which does not exist is an error, as is a run directory
outside a proposal's raw and proc folders when no output file is named, and then nothing is written.""",
'inputs configurations', """all run numbers, with or without leading zeros, forms of run directories, positions of the
options, train and pulse IDs, and sets of modules with data in a train""",
"""The tests run the command twice on one example run and check that the output file exists.""",
'karabo_data/cli/make_virtual_cxi.py karabo_data/components.py',
[('main / _get_detector', 'karabo_data/cli/make_virtual_cxi.py'), ('write_virtual_cxi', 'karabo_data/components.py')],
'exit status; files written')

prop('C33', 'Leaving a with block closes every file that was opened', """
A collection made by opening a file, several files or a run can be used in a with statement: when the block is
left, normally or by an exception (which is passed on), none of its files is open any more, whatever was read or
derived in the block and whatever the user still holds. Other collections of the same files are not affected,
and reading the collection again still gives the right data. Collections made by selecting or joining are
refused in a with statement.""",
'histories inputs', """all sequences of reading, selecting and writing in the block, ways of opening and of leaving
it""",
"""One test uses a with statement and checks that a selection is refused; none checks that files are closed.""",
R, [('__enter__ / __exit__', R), ('FileAccess.close', R)], 'open file descriptors; DataCollection.__enter__',
[('_file', 'open handle of each file, made when first needed', R)])

prop('C34', 'Plots of a geometry show tiles and images where the geometry says', """
A drawn layout outlines every tile at its physical place, in the unit asked for (pixels unless told otherwise), marks the
first pixel and first row of each module and labels modules and tiles at their places. A comparison of two AGIPD geometries shows
the layout of the first, in pixels, with arrows from corners of every moved tile towards their place in the other, scaled as asked,
and all of it inside the picture. A plotted image is the one assembled from the data, at its place relative to the centre of
the detector in the unit asked for and with circles looking like circles, in the given axes if any, with a colour bar if asked, and
further options are passed on. x increases to the left in the front view only. Unknown units are refused.""",
'inputs configurations', """all positions and orientations of tiles, units, views and options""",
"""Tests run inspect and plot_data_fast without looking at what is drawn.""",
G, [('inspect', G), ('compare', G), ('plot_data_fast / plot_data', G)],
'matplotlib axes')

prop('C35', 'Exported images and listings of files have what the file contains', """
Converting an image of a detector file (with image sources in its METADATA/dataSourceId) to CBF writes exactly the
image asked for, with the header asked for, to the file asked for. The listing of an HDF5 file names every dataset once with its shape and
type, sorted by path; the tree of a file shows every group and dataset below its group.""",
'inputs', """all images, indices, headers and places of the image source in the list of sources; nesting of groups""",
"""One test converts one image and checks that a file was written.""",
'karabo_data/utils.py karabo_data/h5index.py', [('numpy_to_cbf / hdf5_to_cbf / hdf5_paths', 'karabo_data/utils.py'), ('hdf5_datasets / main', 'karabo_data/h5index.py')],
'arguments of fabio; printed output')

prop('C36', 'Exactly the trains, sources and keys of a collection can be read from it', """
After any selections, deselections and unions, every method which takes a source and a key accepts every field which is part of the
collection (for a series: every one-dimensional field), whether or not it has data in the selected trains, and refuses every other with an error which names it (SourceNameError
if the source isn't part of the collection, PropertyNameError if the key isn't; both are KeyErrors), without writing anything. The same goes for sources and
keys named in a dictionary for selecting. Asking for one train works for exactly the trains of the collection: other train IDs
are refused with a TrainIDError (a ValueError in the train summary), other positions with an IndexError.""",
'histories inputs', """all sequences of selections and unions, train IDs, fields and near misses of their names""",
"""Tests try one unknown source and one unknown train on a whole run.""",
R, [('_check_field / keys_for_source', R), ('train_from_id / train_from_index / train_info', R), ('get_array / get_dask_array / get_series / get_data_counts / get_virtual_dataset', R), ('_create_dataset', 'karabo_data/writer.py')],
'results and errors of the reading methods',
[('selection', 'which keys of which sources are part of the collection', R), ('train_ids', 'which trains are part of it', R)])

for p in P:
    assert len(p['title']) <= 80, p['title']
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
