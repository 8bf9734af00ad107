"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
B = 'beam_telescope_analysis/'
NOTEST = 'The tests that run here are nine fixed-input examples (six array helpers, three geometry helpers); all recorded detector data they would need is absent. '


def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {'files': [B + f for f in files], 'mechanism': [{'name': m.strip(), 'where': B + files[0]} for m in mechanism.split(';')]}
    if state:
        a['state'] = [{'name': state, 'where': B + files[0]}]
    if observe:
        a['observe_at'] = [observe]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


p('C01', 'Local and global device coordinates are rigidly and invertibly related',
  'For every device translation and rotation, converting a point or a direction from the device frame to the global frame and back returns it unchanged, and so does the reverse order. '
  'The conversion is a proper rigid motion (it preserves distances and handedness): it turns right-handedly about x, then y, then z by the configured angles and then adds the translation, which is skipped for directions, and explicitly given translations or rotations replace the configured ones.',
  ['inputs', 'configurations'], 'all points (including NaN entries), translations, rotation triples, device types and override combinations',
  'Existing tests compare a few fixed angles; the inverse law and the rotation order must hold for every pose.',
  ['tools/geometry_utils.py', 'telescope/dut.py'],
  'rotation_matrix_x/y/z, rotation_matrix, translation_matrix, local_to_global_transformation_matrix, global_to_local_transformation_matrix, apply_transformation_matrix; Dut.local_to_global_position / global_to_local_position')

p('C02', 'Rotation angles extracted from any rotation rebuild that rotation',
  'For every proper rotation, the three angles reported for it reproduce the same rotation when fed back, including orientations turned by exactly 90 degrees about y where the angles are not unique.',
  ['inputs'], 'all rotations, including products of rotations and exact gimbal-lock orientations',
  NOTEST + 'One angle triple is checked; the degenerate branch is never executed.',
  ['tools/geometry_utils.py'], 'euler_angles, used by alignment to write back device rotations')

p('C03', 'Track-plane intersections lie on both the track and the plane',
  'The intersection reported for a track line and a device plane lies on the line and in the plane, for every line (either direction sense, any length of the direction vector) and every plane pose, and is independent of which other tracks are processed with it. '
  'A track parallel to the plane yields NaN for that track only.',
  ['inputs', 'configurations'], 'all lines, planes and device poses, batches mixing parallel and crossing tracks',
  NOTEST + 'No test calls the intersection code.',
  ['tools/geometry_utils.py'], 'get_line_intersections_with_plane, get_line_intersections_with_dut')

p('C04', 'Spherical and Cartesian direction conversion is a consistent round trip',
  'Converting any Cartesian vector (not pointing exactly along -z) to spherical coordinates and back returns the vector, with the polar angle in [0, pi), a non-negative radius, and the azimuth in the quadrant of (x, y). '
  'Spherical input with a polar angle outside [0, pi), an azimuth outside [0, 2 pi) or a negative radius is rejected.',
  ['inputs'], 'all vectors, including those on the axes and the origin; all in-range and out-of-range angles',
  'The existing test converts a fixed handful of vectors, none with x equal to zero.',
  ['tools/geometry_utils.py'], 'cartesian_to_spherical, spherical_to_cartesian')

p('C05', 'Pixel index and local position are inverse maps on every device type',
  'On every supported pixel device with a regular grid, each valid column/row index maps to a local position inside the active area and back to the same index; neighbouring pixels are one pitch apart, the matrix is centred on the device origin, and the reported extents bound exactly the active area. '
  'Column/row indices outside the matrix are rejected instead of being converted. '
  'On the 3D diamond devices the pixels outside the sensor sit at their bump bonds, 100 um towards the next column of the pair, and inside the sensor every pixel has its own position, which depends only on its place in the repeating pattern of rerouted cells relative to the sensor position.',
  ['inputs', 'configurations'], 'all device types, matrix sizes, pitches, integer and fractional indices',
  NOTEST + 'No test converts device indices for any device type.',
  ['telescope/dut.py'], 'RectangularPixelDut.index_to_local_position, local_position_to_index, x_extent, y_extent, and the device subclasses')

p('C06', 'Mapping positions into the primitive cell is periodic and stays in the cell',
  'For every pixel device, mapping a position into the primitive cell gives a value inside the cell, leaves positions that differ by whole cells indistinguishable, and preserves relative distances within a cell; double-column devices use a cell of two columns.',
  ['inputs', 'configurations'], 'all positions inside and outside the matrix, all device types',
  NOTEST + 'The mapping is never called by a test.',
  ['telescope/dut.py'], 'map_to_primitive_cell and its DoubleColumns variants', observe='in-pixel plots and residual maps')

p('C07', 'A saved telescope configuration loads back identically',
  'Saving a telescope and loading it reproduces every device with its type, identity and all settings, and repeated save/load and edit histories keep unrelated entries of the file when asked to. '
  'Iteration visits devices in ascending identifier order whatever order they were added in, copying a device reproduces its settings independently of the original, and a configuration is the same whether given as dict, text, path or open file.',
  ['histories', 'configurations'], 'all sequences of adding, replacing, editing, saving and loading devices of every type',
  NOTEST + 'No test saves and reloads a telescope.',
  ['telescope/telescope.py', 'telescope/dut.py'], 'Telescope.load_configuration / save_configuration / add_dut / __iter__, Dut.from_dut', state='the YAML telescope file between analysis steps')

p('C08', 'Event-number array operations agree with plain set and multiset semantics',
  'For sorted event-number arrays, the common events, the membership mask and the maximum-multiplicity union equal what set and multiset arithmetic gives, and re-indexing clusters onto a common event list keeps each cluster in its own event and leaves absent events empty. '
  'Looking up the rows of an event range returns exactly the rows whose event number lies in the half-open range.',
  ['inputs'], 'all sorted non-negative event arrays with repeats, gaps, and empty arrays, of every length',
  'The tests use one pair of arrays per function; boundary placements and empty inputs are not sampled.',
  ['tools/analysis_utils.py', 'cpp/analysis_functions.pyx', 'cpp/Basis.h'],
  'get_events_in_both_arrays, get_max_events_in_both_arrays, in1d_events, map_cluster, get_data_in_event_range and the C++ loops behind them')

p('C09', 'Index histograms count every entry exactly once and reject out-of-range indices',
  'One-, two- and three-dimensional index histograms contain, in every bin, exactly the number of input entries with that index (for indices that fit 32 bits), so the total equals the number of entries. '
  'An index outside the requested shape is rejected rather than counted elsewhere or written outside the histogram.',
  ['inputs'], 'all index arrays, shapes and integer types, including empty arrays and boundary indices',
  'The tests use a single array per dimension and the 3D test is skipped.',
  ['tools/analysis_utils.py', 'cpp/analysis_functions.pyx'], 'hist_1d_index, hist_2d_index, hist_3d_index and the C++ histogram loops')

p('C10', 'Reading a table in chunks loses, repeats and splits nothing',
  'For every event-sorted table and every chunk size, the delivered chunks put together are exactly the selected rows in order, no event is split over two chunks, and the reported index is where the next read would start. '
  'Start/stop row limits and start/stop event limits select exactly the rows they name (a read that is ended by a row limit withholds its last event, which may be incomplete), and an event that does not fit into the chunk size is reported as an error instead of being cut.',
  ['inputs', 'configurations'], 'all event-sorted tables, chunk sizes, row and event limits and option combinations',
  NOTEST + 'No test exercises the chunked reader, on which every analysis step relies.',
  ['tools/analysis_utils.py'], 'data_aligned_at_events')

p('C11', 'Joining two hit lists by event pairs every hit of the same event',
  'Joining two event-sorted tables yields, for every event present in both, every combination of an entry of the first with an entry of the second exactly once, with fields taken from the right side, and nothing for events present in only one.',
  ['inputs'], 'all pairs of event-sorted hit tables with any multiplicities per event',
  NOTEST + 'The join helpers are never called by a running test.',
  ['tools/analysis_utils.py'], 'merge_on_event_number, correlate_position_on_event_number, correlate_hits_on_event_range')

p('C12', 'Clustering partitions the hits of each event',
  'Clustering assigns every hit that is neither masked nor rejected by its charge to exactly one cluster of its own event; two hits share a cluster exactly when a chain of hits, each within the configured column, row and frame distance of the next, links them as documented, and cluster size, summed charge, seed and mean position agree with the member hits. '
  'Disabled pixels are dropped, and a noisy pixel alone makes no cluster. Events are processed independently and the result does not depend on the chunk size.',
  ['inputs', 'configurations'], 'all hit tables, neighbourhood settings, charge thresholds, masks and chunk sizes',
  NOTEST + 'Clustering tests need absent data files.',
  ['hit_analysis.py'], 'cluster_hits and its end-of-cluster function', observe='Hits and Clusters tables of the cluster file')

p('C13', 'Cluster shape codes are unique and decodable',
  'For every set of hit pixels inside the 8 by 8 window, the cluster shape code identifies exactly that pattern: decoding the code returns the pattern, different patterns have different codes, and the code stored for a cluster does not depend on where on the matrix the cluster lies (a code of 2^63 or more is stored as -1). '
  'Interleaved-coordinate encoding and decoding are inverse for every coordinate pair in range, and bit counting equals the number of set bits.',
  ['inputs'], 'all pixel patterns in the window, coordinates and 32-bit words',
  NOTEST + 'The shape code is never decoded by a test.',
  ['tools/analysis_utils.py', 'hit_analysis.py'], 'calculate_cluster_shape, calculate_cluster_array, xy2d_morton, d2xy_morton, number_of_set_bits')

p('C14', 'Noisy and disabled pixel masks mark exactly the pixels that qualify',
  'The pixel mask written for a device marks a pixel as noisy or disabled exactly when its hit count satisfies the documented criterion against the threshold, the occupancy stored equals the true hit count of every pixel, and neither depends on the chunk size or on the order of hits.',
  ['inputs', 'configurations'], 'all hit tables, matrix sizes, thresholds and chunk sizes',
  NOTEST + 'The masking test needs an absent data file.',
  ['hit_analysis.py'], 'mask_pixels', observe='HistOcc, NoisyPixelMask, DisabledPixelMask')

p('C15', 'The hit-file check reports exactly what the file contains',
  'Checking a hit file writes histograms that equal the file content (the event numbers, the differences of successive event numbers, and the correlation of columns and of rows of every pair of hits at most the given number of events apart) and reports failure exactly when event numbers decrease or an index or position lies outside of the pixel matrix, independent of the chunk size.',
  ['inputs', 'configurations'], 'all hit tables, sorted or not, and chunk sizes',
  NOTEST + 'No test covers the file check.',
  ['hit_analysis.py'], 'check_file')

p('C16', 'Converting hit positions between index and length keeps every hit in place',
  'Converting a hit file from column/row indices to local positions yields for every hit the position of its pixel, and converting back yields the original indices; all other information, the number of hits and their order stay unchanged for every chunk size.',
  ['inputs', 'configurations'], 'all hit tables, device types, conversion directions and chunk sizes',
  NOTEST + 'No test covers the conversion.',
  ['hit_analysis.py'], 'convert_coordinates')

p('C17', 'Correlation histograms count every same-event cluster pair once',
  'The correlation between two devices counts, for each axis, every pair of clusters of the same event exactly once in the bin of their two positions, and nothing from different events, independent of the chunk size and of which events are missing in one device.',
  ['inputs', 'configurations'], 'all cluster tables per device, device poses, resolutions, reference choices and chunk sizes',
  NOTEST + 'The correlation test needs absent data files.',
  ['hit_analysis.py'], 'correlate', observe='Correlation_x/y arrays of the output file')

p('C18', 'Merging cluster files keeps every cluster in its event',
  'The merged table contains every cluster of every device exactly once, in the row group of its own event and with its own values, and marks missing hits as NaN/zero; no device data moves to another event or another device, for every chunk size and pattern of missing events.',
  ['inputs', 'configurations'], 'all sets of per-device cluster tables and chunk sizes',
  NOTEST + 'The merge test needs absent data files.',
  ['hit_analysis.py'], 'merge_cluster_data', observe='MergedClusters table')

p('C19', 'Parallel chunked table processing equals applying the function once',
  'Splitting a table over any number of processes and chunks gives the same output table, in the same order, or the same summed histograms as applying the function to the whole table, and events are never split when event alignment is requested. '
  'An exception raised by the function reaches the caller.',
  ['inputs', 'configurations', 'schedules'], 'all tables, chunk sizes, process counts, and table or histogram results',
  NOTEST + 'No test covers the parallel processing helper.',
  ['tools/smc.py'], 'SMC map, work and combine steps')

p('C20', 'Combining files keeps all rows and keeps events of different files apart',
  'The combined table is the input tables one after another with every field unchanged except event numbers, which are shifted so that order and grouping within each file are preserved and no event number is shared between two input files, for every chunk size and also when an input file has no rows.',
  ['inputs', 'configurations'], 'all lists of event-sorted tables and chunk sizes',
  NOTEST + 'No test covers combining files.',
  ['tools/data_selection.py'], 'combine_files')

p('C21', 'Limiting the number of events keeps whole events',
  'Reducing a table to a maximum number of events keeps only complete, unmodified events of the input in order and never more than requested; it keeps everything when there are no more events than requested, exactly the requested number when the table fits into one chunk, and terminates without error for every chunk size.',
  ['inputs', 'configurations'], 'all event-sorted tables, maxima and chunk sizes',
  NOTEST + 'No test covers event reduction.',
  ['tools/data_selection.py', 'track_analysis.py'], 'reduce_events; max_events of find_tracks and fit_tracks')

p('C22', 'Track selection keeps exactly the tracks that meet all requested criteria',
  'The selected table of each device contains, unmodified and in order, exactly the tracks that have a hit on all required devices, no hit on all vetoed devices, the required quality and isolation flags (quality and hit isolation are required only of devices with a hit), and satisfy the query expression; this holds for every chunk size, including when no track qualifies.',
  ['inputs', 'configurations'], 'all track tables, flag patterns, criteria combinations, queries and chunk sizes',
  NOTEST + 'No test covers track selection.',
  ['tools/data_selection.py'], 'select_tracks')

p('C23', 'Output files record the arguments they were produced with',
  'Every analysis step that writes a file stores in it the argument values the step was called with under the name of the step, whatever the call style, and steps that write into the same file do not overwrite one another.',
  ['inputs', 'histories'], 'all argument values and call styles (positional, keyword, defaults)',
  NOTEST + 'No test reads the stored arguments.',
  ['tools/storage_utils.py'], 'save_arguments decorator')

p('C24', 'Track finding only regroups hits within their own event',
  'In every event, track finding outputs for each device exactly the hits it was given, each once, with all values unchanged, and a hit flag exactly where a track candidate has a hit. '
  'Hits of well separated straight tracks that are all seen by the first device end up in the same candidate whatever their input order, also when the beam is inclined by the rotation of the telescope and when the tracks are separated only on the first two devices and cross each other behind them, and results do not depend on the chunk size or on other events.',
  ['inputs', 'configurations'], 'all merged cluster tables, numbers of devices, poses, hit orders, missing hits and chunk sizes',
  NOTEST + 'Track-finding tests need absent data files.',
  ['track_analysis.py'], 'find_tracks, _find_tracks_loop, _swap_hits, _set_dut_track')

p('C25', 'Straight-line fits are the least-squares line of the selected hits',
  "The track fitted for a candidate is the straight line minimising the summed squared distance to the hits of the selected fit devices, its stored offset for each device is where that line meets the device plane, and excluding a device from the fit makes its track independent of that device's hit. "
  'Exactly the candidates with the required and enough hits are fitted, event numbers and hits are carried over unchanged, and chi-squared (of tracks of more than two hits) and residual-based values agree with the stored hits and offsets.',
  ['inputs', 'configurations'], 'all track candidate tables, device poses, device selections, hit requirements and chunk sizes',
  NOTEST + 'Track-fitting tests need absent data files.',
  ['track_analysis.py'], 'fit_tracks, line_fit_3d, store_track_data', observe='Tracks_DUT tables')

p('C26', 'Quality and isolation flags follow the documented distance criteria',
  'For every fitted track and device, the quality flag is set exactly when the device hit lies within the configured distance of the track, and the isolation flags are set exactly when no other track, respectively no other hit, of the same event lies within the configured distances. '
  'Flags of one event never depend on another event.',
  ['inputs', 'configurations'], 'all events with any number of tracks, missing hits, distance settings and device poses',
  NOTEST + 'No test checks the flags.',
  ['track_analysis.py'], 'quality and isolation sections of fit_tracks')

p('C27', 'The Kalman track fit is the best linear estimate with multiple scattering',
  "For straight tracks through devices of any pose, the smoothed track state and its covariance equal the least-squares solution of the same measurement, scattering and initial-state model (state of the track before each device's scattering); with negligible scattering it equals the straight-line fit, and noiseless straight tracks are reproduced exactly. "
  'Missing or excluded hits contribute nothing.',
  ['inputs', 'configurations'], 'all telescope geometries, material budgets, resolutions, hit patterns and device selections',
  NOTEST + 'The Kalman test needs absent data files.',
  ['tools/kalman.py', 'track_analysis.py'], 'KalmanFilter, smoothing and fit_tracks with the Kalman method')

p('C28', 'Applying and undoing an alignment returns the original data',
  'Applying an alignment to cluster, candidate or track tables transforms positions, errors, offsets and slopes of each device consistently with its pose, leaves all other columns, rows and invalid hits untouched, and the inverse application restores the input (except for position errors of rotated devices), for every chunk size.',
  ['inputs', 'configurations'], 'all tables, device poses, device selections and chunk sizes',
  NOTEST + 'No test applies an alignment both ways.',
  ['dut_alignment.py'], 'apply_alignment')

p('C29', 'Alignment recovers known misalignment from clean tracks',
  'When clean straight tracks are reconstructed with a device displaced or rotated by a known small amount in the enabled degrees of freedom, the alignment correction returns that device to its true pose to numerical accuracy; with noisy hits or wrong kept parameters the selected ones still minimise the hit-track distances. It leaves devices and degrees of freedom that were not selected unchanged, and does not depend on chunking.',
  ['inputs', 'configurations'], 'all small misalignments, free-parameter selections, geometries and chunk sizes',
  NOTEST + 'Alignment tests need absent data files.',
  ['dut_alignment.py'], 'align, align_kalman, calculate_transformation')

p('C30', 'Pre-alignment recovers relative device shifts from correlations',
  'When the correlation of two devices has one dominant straight line, pre-alignment returns the device translation (and axis inversion) relative to the reference it implies within the histogram resolution, leaves the reference and unselected devices unchanged, and never widens the device limits.',
  ['inputs', 'configurations'], 'all device shifts, inversions, noise backgrounds and resolutions',
  NOTEST + 'The pre-alignment test needs absent data files.',
  ['dut_alignment.py'], 'prealign, find_inliers, find_line_model')

p('C31', 'Residual histograms contain every selected hit-track distance once',
  'The histograms of the local x and y residual of a device contain the hit minus track intersection of every track that has a hit there and lies inside the device limits, once and in the right bin, and so do the histograms of both residuals against the x and y position of the intersection (there only the limit of the other position applies); entries and edges are consistent and results do not depend on the chunk size apart from the documented binning from the first chunk.',
  ['inputs', 'configurations'], 'all track tables, poses, limits, bin settings and chunk sizes',
  NOTEST + 'The residual test needs absent data files.',
  ['result_analysis.py', 'tools/residuals.py'], 'calculate_residuals')

p('C32', 'Efficiency is hits over tracks in every bin and region',
  'In every bin the reported efficiency is the number of tracks with a matching hit divided by the number of tracks in that bin, so that it lies between 0 and 100 percent, track counts equal the input tracks inside the area, and a region\'s total efficiency is the ratio of its sums. '
  'Bins without enough tracks are undefined rather than zero, and results do not depend on the chunk size.',
  ['inputs', 'configurations'], 'all track tables, bin sizes, regions, cut distances, masks and chunk sizes',
  NOTEST + 'The efficiency test needs absent data files.',
  ['result_analysis.py'], 'calculate_efficiency')

p('C33', 'Purity is matched hits over all hits in every bin',
  'In every bin the reported purity is the number of hits matched to a track divided by the number of hits in that bin, lies between 0 and 100 percent with its fractional part kept, and is undefined for bins without hits.',
  ['inputs', 'configurations'], 'all track tables, bin sizes, cut distances and chunk sizes',
  NOTEST + 'No test covers purity.',
  ['result_analysis.py'], 'calculate_purity')

p('C34', 'Track angle histograms count every track at its true angle',
  'The angle histograms contain every track once at the angle between its direction and the device or beam axis, total angles are non-negative and consistent with the two projected angles, and rotating the device shifts local angles accordingly (for devices not facing backwards).',
  ['inputs', 'configurations'], 'all track directions, device rotations and chunk sizes',
  NOTEST + 'No test covers the angle histograms.',
  ['result_analysis.py'], 'histogram_track_angle, get_angles')

p('C35', 'Simulated data is reproducible, complete and geometrically consistent',
  'With the same seed the simulation writes the same data; event numbers are ascending and only the requested events occur; every hit pixel lies on the matrix, and without charge sharing, noise and scattering it is the pixel in which the straight track crosses the plane of the posed device; beam position, angle and momentum follow the settings. '
  'Shared charges are non-negative, follow the Gaussian charge cloud and never exceed the deposited charge; only charges above the threshold are seen.',
  ['inputs', 'configurations'], 'all beam and device settings, event and chunk counts, and seeds',
  NOTEST + 'The simulation tests need absent reference data.',
  ['tools/simulate_data.py'], 'SimulateData')

p('C36', 'File and array comparison tools find every difference and invent none',
  'Comparing two files (tables, arrays and YAML) or arrays succeeds exactly when they hold the same nodes, types, shapes and values (NaN equal to NaN, within tolerances in tolerant mode), whatever the table size relative to the comparison chunk, and respecting the required and ignored node lists; fixtures created for comparison hold the data they were created from.',
  ['inputs', 'configurations'], 'all pairs of files and structured or plain arrays, with one injected difference or none',
  NOTEST + 'No test tests the comparison tools that other tests depend on.',
  ['tools/test_tools.py'], 'nan_equal, nan_close, get_array_differences, compare_h5_files, compare_yaml_files')

p('C37', 'Statistics computed from histograms equal those of the underlying entries',
  'Mean, spread, median, quantiles and error bounds computed from a histogram equal the statistics of the list of entries it represents at bin centres, binned statistics equal a direct per-bin evaluation, fits of Gaussian and straight-line data recover their parameters, and helper lookups (closest element, peaks, duplicates, neighbours, dominant lines) return what their definition says, for every histogram.',
  ['inputs'], 'all non-negative histograms, bin positions, and value arrays',
  NOTEST + 'No test covers these helpers.',
  ['tools/analysis_utils.py'], 'get_mean_from_histogram, get_rms_from_histogram, get_median_from_histogram, hist_quantiles, get_mean_efficiency, binned_statistic, find_closest, fwhm, peak_detect, in1d_index, unique_in_array, count_unique_neighbors, hough_transform, fit_residuals')

p('C38', 'Voronoi cells tile the plane region and polygon areas are exact',
  'The finite Voronoi cell of every point contains all sampled locations closer to it than to any other point and no others within the covered region, the cells tile the region, and polygon areas equal the true enclosed area for either orientation and any starting vertex.',
  ['inputs'], 'all sets of points that are not on one line and simple polygons',
  NOTEST + 'No test covers these helpers.',
  ['tools/analysis_utils.py'], 'voronoi_finite_polygons_2d, polygon_area, polygon_area_multi')

p('C39', 'Telescope alignment moves the device axis onto the beam axis',
  'Aligning the telescope to the beam shifts the selected devices in x and y such that the line fitted through them becomes parallel to z with the reference device on it at x = y = 0, keeps z and rotations of devices and all devices not selected, and corrects the telescope rotation by the projected angles of the line.',
  ['inputs', 'configurations'], 'all telescope geometries and device selections',
  NOTEST + 'No test covers it.',
  ['dut_alignment.py'], 'align_telescope')
p('C40', 'Converters keep every hit of the interpreted data',
  'Converting interpreted FE-I4 or Mimosa26 data writes every hit of the selected planes exactly once and in order, with event number, pixel (counted from 1), frame and charge of the source, one file per plane under the requested or default name, for every chunk size; decreasing event numbers anywhere are refused.',
  ['inputs', 'configurations'], 'all hit tables, header ID lists, chunk sizes and file name lists',
  NOTEST + 'No test imports the converters.',
  ['converter/pybar_fei4_converter.py', 'converter/pymosa_converter.py'], 'format_hit_table, process_dut')

p('C41', 'Kalman alignment recovers the true poses and moves nothing else',
  'Given straight tracks, the Kalman Filter alignment puts displaced devices back to their true translations and rotations, for rotated and flipped devices alike; devices and parameters which are not selected and the fixed first and last telescope plane keep their values. '
  'Its output records one row per used track, errors that never grow and the annealing from the requested factor down to one, independent of chunking; impossible settings are refused before any file is written.',
  ['inputs', 'configurations'], 'all telescope geometries, displacements, parameter selections and DUT groups',
  NOTEST + 'The only test needs absent reference data and unrotated planes.',
  ['dut_alignment.py'], 'align_kalman, _duts_alignment_kalman, _update_alignment_parameters, _combine_karimaki')

p('C42', 'The whole analysis chain reconstructs the true tracks from raw hits',
  'Following hits of known straight tracks through clustering, correlation, pre-alignment, merging, alignment, track finding, fitting, residuals and efficiency, the aligned geometry brings the true hits onto straight lines, every true track with hits in all fit devices is found exactly once with its own hits, '
  'tracks lie at their true position within the pixel resolution, no wrong track appears where none is possible, and the efficiency equals the share of the tracks with a hit.',
  ['inputs', 'configurations'], 'all shifts, quarter turns, flips and small rotations of overlapping devices, track densities, noise, inefficiencies, charge sharing and chunk sizes',
  NOTEST + 'The steps are tested one by one at most; errors that cancel or only show when files of one step are read by the next one stay unnoticed.',
  ['hit_analysis.py', 'dut_alignment.py', 'track_analysis.py', 'result_analysis.py'], 'cluster, correlate, prealign, merge_cluster_data, align, find_tracks, fit_tracks, calculate_residuals, calculate_efficiency')

p('C43', 'Making plots changes no result, never fails and shows the recorded data',
  'Every analysis step writes the same results with and without plots, and asking for plots never makes a step fail on data it otherwise accepts. '
  'The pages show what was recorded: bars, images and lines hold the counts and values of the output files at the right positions (axes not mirrored, units converted once), the numbers in the titles equal the entries, each selected device has its pages, and nothing depends on the chunk size.',
  ['inputs', 'configurations'], 'all telescopes, hit and track tables, regions, device selections and chunk sizes',
  NOTEST + 'The tests run without plots or only test that a file exists.',
  ['tools/plot_utils.py', 'hit_analysis.py', 'result_analysis.py'], 'plot_masked_pixels, plot_cluster_hists, plot_correlations, plot_checks, plot_tracks_per_event, plot_events, plot_track_chi2, plot_track_density, plot_charge_distribution, efficiency_plots, purity_plots, plot_2d_map')

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
