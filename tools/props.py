"""The property list: the single source of properties.jsonl and MANIFEST.json."""
AI = 'path-sensitive abstract interpretation of the source'
NOTE = ('Decides the listed clauses on every abstract case; the code is '
        'analysed from its AST, never run. Trusts the stated models of '
        'pandas/numpy/os primitives; constructs outside the modelled '
        'fragment are counted as undecided in the evidence, never as passed.')
PROPS = []
NA = []


def P(id, title, statement, over, forall, why, files, mech,
      technique=AI, note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      forall=forall, why=why, files=files, mech=mech,
                      technique=technique, note=note))


def N(id, title, statement, over, forall, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over,
                   forall=forall, why=why, files=files, mech=mech,
                   reason=reason))


P('C01', 'Intersection and overlap of time frames are exact interval algebra',
  'The intersection of two time frames (and of two groups of time frames) '
  'covers exactly the instants covered by both operands, whichever operand '
  'is open ended, disabled or empty, and is marked empty exactly when no '
  'such span exists. It inherits the "end included" mark of the operand '
  'that supplies its end, leaves both operands unchanged, and the overlap '
  'test reports an overlap exactly when the intersection is not empty.',
  ['inputs'], 'every ordering of the bounds of two time frames, each bound '
  'present or absent, each frame enabled, disabled or empty',
  'The tests try four hand-picked pairs of closed intervals; open, disabled, '
  'touching and end-including operands are not reached.',
  ['nilmtk/timeframe.py', 'nilmtk/timeframegroup.py'],
  [('TimeFrame.intersection', 'nilmtk/timeframe.py'),
   ('TimeFrame.check_for_overlap', 'nilmtk/timeframe.py'),
   ('TimeFrameGroup.intersection', 'nilmtk/timeframegroup.py')])

P('C02', 'A time frame is always a well-formed value',
  'No construction of a time frame, and no assignment to an enabled one, '
  'yields a start that is not before its end: it is refused and the frame stays as it was; missing '
  'bounds (none or not-a-time) mean unbounded, and a disabled frame behaves '
  'as unbounded without forgetting its bounds. Bounds given as text become '
  'time stamps. Equality, hash, ordering, '
  'truth value and duration agree with the bounds and emptiness; writing a '
  'frame to its dictionary form and back, or copying it, gives an equal '
  'frame, and a requested time zone is attached to both bounds.',
  ['inputs', 'histories'], 'every ordering of old and new bounds, every '
  'combination of missing, present and not-a-time bounds, enabled or not',
  'The tests set three dates; assignment order, missing bounds, equal '
  'bounds, hashing and round trips of open frames are not sampled.',
  ['nilmtk/timeframe.py'],
  [('TimeFrame bounds and setters', 'nilmtk/timeframe.py'),
   ('TimeFrame.__eq__/__lt__/__hash__/__bool__', 'nilmtk/timeframe.py'),
   ('TimeFrame.to_dict/from_dict', 'nilmtk/timeframe.py')])

P('C03', 'Splitting, merging and grouping time frames conserve time',
  'Splitting a time frame by a maximum duration gives consecutive pieces, '
  'each no longer than the maximum, that join up to exactly the original '
  'span. Merging sorted frames joins exactly those separated by no more '
  'than the allowed gap and covers every instant of its inputs, in order; '
  'the total up-time of a group is the sum of its durations, and removing '
  'short frames keeps exactly those at least as long as the threshold. A '
  'group made from calendar periods has one frame per period.',
  ['inputs'], 'every start, end, gap and threshold (symbolic), lists of up '
  'to three frames, up to five pieces',
  'The tests split one frame and merge one list with fixed gaps.',
  ['nilmtk/timeframe.py', 'nilmtk/timeframegroup.py'],
  [('TimeFrame.split', 'nilmtk/timeframe.py'),
   ('merge_timeframes', 'nilmtk/timeframe.py'),
   ('TimeFrame.adjacent/union', 'nilmtk/timeframe.py'),
   ('TimeFrameGroup', 'nilmtk/timeframegroup.py')])

P('C04', 'One boundary convention; no read escapes the store window',
  'Every way of selecting readings by time - slicing a table with a time '
  'frame, querying a store, loading a section from an HDF or CSV store - '
  'keeps a reading exactly when it lies at or after the start and before '
  'the end (or at the end, if the frame includes its end). A load or a '
  'store time frame never reaches outside the store window, unless the '
  'window is disabled; setting the window on a data set interprets the '
  'dates in the data set time zone and is refused without one.',
  ['inputs', 'configurations'], 'every ordering of a reading time stamp and '
  'the bounds of window and section, each bound present or absent',
  'The store tests need data files and sample a few sections; readings '
  'exactly on a bound and disabled windows are not reached.',
  ['nilmtk/timeframe.py', 'nilmtk/datastore/hdfdatastore.py',
   'nilmtk/datastore/csvdatastore.py', 'nilmtk/dataset.py'],
  [('TimeFrame.slice / query_terms', 'nilmtk/timeframe.py'),
   ('HDFDataStore.load/get_timeframe', 'nilmtk/datastore/hdfdatastore.py'),
   ('CSVDataStore.load/get_timeframe', 'nilmtk/datastore/csvdatastore.py'),
   ('DataSet.set_window', 'nilmtk/dataset.py')])

P('C05', 'Loading in chunks delivers every reading of a section, in order',
  'Loading from the HDF store with any chunk size delivers, for each '
  'requested section in the order given, every reading of that section and '
  'no other: chunks follow one another without gaps (two neighbours may '
  'share one boundary reading), none is empty or longer than the chunk size '
  'plus one, an empty section gives one empty table. Each chunk carries a '
  'time frame that starts and ends with its readings, or with the section '
  'at the outer ends, and the look-ahead holds exactly the requested number '
  'of readings that follow the chunk on disk. The flag saying that every '
  'section fitted in one chunk is right, and the requested columns, no '
  'others, are read. The CSV store in turn delivers the readings of the '
  'requested sections inside its window once each and in order, with the '
  'requested columns, the time frame of each chunk, the look-ahead readings '
  'that follow the chunk in the file and the same flag.',
  ['inputs', 'configurations'], 'every section start (symbolic row number), '
  'every section length up to three chunks plus one reading, chunk sizes 1 '
  'to 4, several sections, any number of look-ahead readings; for the CSV '
  'store files of several chunks, sections inside, across and outside them',
  'The store tests need a data file and try two chunk sizes; the left-over '
  'reading in the last chunk and multiple sections are not reached.',
  ['nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/csvdatastore.py'],
  [('HDFDataStore.load', 'nilmtk/datastore/hdfdatastore.py'),
   ('CSVDataStore.load', 'nilmtk/datastore/csvdatastore.py'),
   ('_timeframe_for_chunk', 'nilmtk/datastore/hdfdatastore.py')])

P('C06', 'A store write that returns is complete, exact and durable',
  'When append, put, remove or save_metadata of an HDF, CSV or temporary '
  'store returns, exactly the named table or metadata has changed (append '
  'adds after what was there, put replaces it, remove deletes it), no other '
  'table or metadata is touched, nothing is left in an unflushed buffer or '
  'an open file, the caller\'s metadata is not altered and reading the '
  'metadata back gives an equal, independent copy. A failure of the '
  'underlying store or file is reported to the caller, never swallowed, and '
  'leaves no file open.',
  ['inputs', 'crash points'], 'every write operation of every store, on new '
  'and existing keys, at the root and below it, with a failure injected at '
  'each external call',
  'The tests never interrupt a write, look at buffers or make the disk '
  'fail.',
  ['nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/csvdatastore.py',
   'nilmtk/datastore/datastore.py', 'nilmtk/datastore/tmpdatastore.py'],
  [('HDFDataStore.append/put/remove/save_metadata',
    'nilmtk/datastore/hdfdatastore.py'),
   ('CSVDataStore.append/put/remove/save_metadata',
    'nilmtk/datastore/csvdatastore.py'),
   ('write_yaml_to_file', 'nilmtk/datastore/datastore.py')],
  technique='abstract interpretation with effect traces and fault branches')

P('C07', 'Files, stores and connections are released and not used after',
  'Every file, data store, HDF store, database connection or descriptor a '
  'function opens for its own use is closed on every normal way out of that '
  'function and is never used after it was closed; metadata is added to an '
  'output file by its name only once the store writing that file is closed. '
  'Closing a temporary store closes it before removing its file and leaves '
  'no file or descriptor behind.',
  ['histories', 'inputs'], 'every function of the package, every branch '
  'combination through it',
  'Leaks and use-after-close show up only under load or on other platforms, '
  'and the converters need data sets that are not in the repository.',
  ['nilmtk/dataset_converters', 'nilmtk/datastore', 'nilmtk/utils.py'],
  [('dataset converters', 'nilmtk/dataset_converters'),
   ('TmpDataStore', 'nilmtk/datastore/tmpdatastore.py')],
  technique='path-sensitive typestate analysis over every function',
  note='Whole package; handles that escape to an unknown callee, a '
  'container or the caller are not tracked further.')

P('C08', 'Data stores are interchangeable and addressed by the same keys',
  'The HDF, CSV and temporary stores provide the same operations with the '
  'same parameters, accept a key with or without a leading slash, list the '
  'elements below a key by the same names, raise KeyError for an unknown '
  'table, and read back exactly the table written under that key: its '
  'columns (named, typed or untyped), its instants whatever the time zone '
  'and its values, from a CSV file as from an HDF table. Keys '
  'parse to building, utility and meter number and print back, malformed '
  'ones are refused; converting one store into another copies the data set '
  'metadata, every building\'s metadata and every meter\'s readings in '
  'order, and nothing from the cache. Opening by format gives the matching '
  'store in the requested mode; unknown formats, missing names and missing '
  'files are refused.',
  ['inputs', 'configurations'], 'every store class, key spelling, listing '
  'level and conversion direction, buildings and meters with several digits',
  'The tests use one HDF file; the CSV store and conversions are not run.',
  ['nilmtk/datastore', 'nilmtk/utils.py'],
  [('DataStore interface', 'nilmtk/datastore/datastore.py'),
   ('Key', 'nilmtk/datastore/key.py'),
   ('convert_datastore', 'nilmtk/datastore/datastore.py'),
   ('get_datastore', 'nilmtk/utils.py')])

TAB = ('abstract interpretation over small tables whose readings are named '
       'atoms')

P('C09', 'Nodes pass every chunk on, in order, after checking requirements',
  'A preprocessing or statistics node checks its requirements against the '
  'dry-run metadata of its upstream before it reads anything and refuses to '
  'run when one is unmet: a nested requirement is met when the key is there '
  'and the value equals the required one or any value is allowed. It then '
  'passes chunks on one at a time, in order, each exactly once, with the '
  'same instants, time frame and look-ahead; statistics leave readings as '
  'they are, Apply yields the function of the chunk, Clip limits exactly '
  'the readings of a measurement for which both limits are known (those set '
  'on the node, else those of that very measurement). Dry-run metadata '
  'holds the promises of the node and everything upstream; neither the '
  'upstream metadata nor the promises of the class are ever changed, and '
  'two nodes never share results.',
  ['inputs', 'histories'], 'every Node class of the package, pipelines of 0 '
  'to 3 chunks, each requirement missing in turn, limits above, below, '
  'inside and absent',
  'The only unit test of the node layer compares flat requirement '
  'dictionaries; order, look-ahead and aliasing are never observed.',
  ['nilmtk/node.py', 'nilmtk/preprocessing', 'nilmtk/stats'],
  [('Node', 'nilmtk/node.py'), ('Clip', 'nilmtk/preprocessing/clip.py'),
   ('Apply', 'nilmtk/preprocessing/apply.py'),
   ('find_unsatisfied_requirements', 'nilmtk/node.py')], technique=TAB)

P('C10', 'Statistics are exactly what the readings say',
  'Total energy of a chunk is given per AC type from the preferred quantity '
  '(cumulative energy before energy before power): the difference of last '
  'and first, the sum, or the sum of power times the time to the next '
  'present reading, capped at the maximum sample period, in kWh; totals of '
  'chunks add up. The drop-out rate is one minus the readings present over '
  'those expected between first and last, never negative, undefined below '
  'five readings, and chunks combine weighted by their number of readings. '
  'Good sections are exactly the maximal runs of present readings no '
  'further apart than the maximum sample period, whatever the chunk size, '
  'and asking twice gives the same answer.',
  ['inputs', 'histories'], 'every reading value (symbolic), regular and '
  'irregular instants, gaps at, below and above the limit, every column '
  'combination, every chunking of up to nine readings',
  'The unit tests of the statistics need data files and check one column '
  'and one series each.',
  ['nilmtk/stats'],
  [('get_total_energy', 'nilmtk/stats/totalenergy.py'),
   ('get_dropout_rate', 'nilmtk/stats/dropoutrate.py'),
   ('get_good_sections', 'nilmtk/stats/goodsections.py'),
   ('GoodSectionsResults.combined', 'nilmtk/stats/goodsectionsresults.py')],
  technique=TAB)

P('C11', 'Results of periods stay apart and the cache never changes an answer',
  'Results hold one row per period, sorted; appending or merging in a '
  'period that overlaps one already there is refused and changes nothing, '
  'results of another statistic or other periods are refused. Unifying two '
  'meters adds energies, averages drop-out rates and intersects good '
  'sections period by period and leaves the other results alone; the table '
  'handed out is a copy. A statistic of a meter is the same whether it is '
  'computed afresh or partly or wholly read from the cache, in whatever '
  'order periods were asked for before; cached periods are not computed '
  'again, a period is only reused for exactly the same start and end, '
  'different meters, buildings and statistics never share an entry, and '
  'clearing the cache of a meter removes all its entries.',
  ['inputs', 'histories'], 'every Results class, all orders of up to three '
  'periods, touching, overlapping and equal periods, nine request histories '
  'per statistic',
  'The tests append two periods and read a cached statistic once.',
  ['nilmtk/results.py', 'nilmtk/stats', 'nilmtk/elecmeter.py'],
  [('Results', 'nilmtk/results.py'),
   ('GoodSectionsResults', 'nilmtk/stats/goodsectionsresults.py'),
   ('TotalEnergyResults', 'nilmtk/stats/totalenergyresults.py'),
   ('DropoutRateResults', 'nilmtk/stats/dropoutrateresults.py'),
   ('ElecMeter._get_stat_from_cache_or_compute', 'nilmtk/elecmeter.py')],
  technique=TAB)

P('C12', 'A meter delivers exactly the measurements asked for',
  'Loading from a meter asks the data store for exactly the columns the '
  'request names: all of them without a request, those of the physical '
  'quantities and AC types given, the preferred AC type (active, apparent, '
  'reactive) per quantity for "best", or the columns listed; anything not '
  'recorded or not in the vocabulary is refused with MeasurementError, and '
  'columns together with a quantity or type with ValueError. Readings then '
  'pass through the preprocessing steps in order, and last through the '
  'resampling (only when asked for; fill limit ceil(max_sample_period / '
  'period) unless given; of repeated instants the first reading counts, and '
  'where the own time zone has a midnight twice the resampling happens in '
  'UTC), and the arguments of the caller are not altered. '
  'A meter finds its upstream meter in its own building and data set, '
  'matches a key exactly when every entry agrees, equals another meter '
  'exactly when their identifiers are equal (with equal hashes), registers '
  'once, and what one meter is told about its device does not reach others.',
  ['inputs', 'configurations'], 'sets of up to six recorded measurements '
  'by 99 requests; 26 loading configurations, each also repeated; all pairs '
  'of 21 matching conditions; all AC type subsets',
  'The tests load one meter of one fixture file.',
  ['nilmtk/elecmeter.py', 'nilmtk/measurement.py', 'nilmtk/hashable.py',
   'nilmtk/electric.py'],
  [('ElecMeter.load', 'nilmtk/elecmeter.py'),
   ('ElecMeter.matches', 'nilmtk/elecmeter.py'),
   ('ElecMeter.upstream_meter', 'nilmtk/elecmeter.py'),
   ('select_best_ac_type', 'nilmtk/measurement.py'),
   ('measurement_columns', 'nilmtk/measurement.py'),
   ('Hashable', 'nilmtk/hashable.py')],
  technique=TAB)

P('C13', 'A group of meters is the set of meters its metadata describes',
  'A MeterGroup built from metadata holds every enabled site meter and every '
  'meter which feeds an appliance exactly once, with the appliances metadata '
  'gives them; meters of a dual supply appliance form one nested group. Each '
  'documented form of key (instance, appliance type or synonym, tuple, '
  'identifier, dict) returns exactly the meter it names, or KeyError when '
  'none does; select, select_using_appliances, groupby, from_list, '
  'from_other_metergroup and the listing functions return exactly the meters '
  'or appliances which match, none twice; union and the groups of mains, '
  'submeters, site and downstream meters are set operations on them. The '
  'wiring graph and the meters upstream and downstream follow submeter_of. '
  'Two groups are equal exactly when they hold the same meters, with equal '
  'hashes; labels are the documented names; and combining or selecting alters '
  'neither operand.',
  ['inputs', 'configurations'], 'two buildings of eight meters and seven '
  'appliances, all orders of their metadata; every key form; every single '
  'and pair of selection conditions; all pairs of subsets for combinations',
  'The tests build two small groups and call a handful of functions.',
  ['nilmtk/metergroup.py', 'nilmtk/appliance.py', 'nilmtk/electric.py',
   'nilmtk/elecmeter.py'],
  [('MeterGroup.import_metadata', 'nilmtk/metergroup.py'),
   ('MeterGroup.__getitem__', 'nilmtk/metergroup.py'),
   ('MeterGroup.select', 'nilmtk/metergroup.py'),
   ('MeterGroup.from_list', 'nilmtk/metergroup.py'),
   ('MeterGroup.wiring_graph', 'nilmtk/metergroup.py'),
   ('Appliance.matches', 'nilmtk/appliance.py')],
  technique=TAB)

P('C14', 'A group of meters reports the combination of its meters',
  'Loading a MeterGroup gives, for each section, one row per sample period '
  '(the largest of its meters unless asked for) with the union of the '
  'columns asked for: power, energy and current are the sums, voltage, '
  'frequency, power factor and phase angle the means, of the readings which '
  'are present, and a cell is missing exactly when no meter has a reading. '
  'Chunks cover the sections without gap or overlap, are never longer than '
  'chunksize, and say which time they cover; every meter is asked for the '
  'same section with unaltered arguments. total_energy adds the meters per '
  'AC type (also nested and period by period for full results, which need '
  'sections), dropout_rate is the mean, the time frame the union, the '
  'sample period the largest; dataframe_of_meters, energy_per_meter (with '
  'the remainder of the mains in the matching AC type), fraction_per_meter, '
  'pairwise, proportion_of_energy_submetered (without counting a meter below '
  'another twice), select_top_k with its remainder, simultaneous_switches '
  'and train_test_split are what their names say; describe gives the number '
  'of all meters and site meters, the sample period, uptime and energy of '
  'the mains and the sample period of the submeters under those names.',
  ['inputs', 'configurations'], 'twelve groups of up to three meters, also '
  'nested, by requests and sections; all combinations of AC types of two '
  'meters; all k of seven meters in both orders; all triples of four spans',
  'The tests compare one group of one fixture with one total.',
  ['nilmtk/metergroup.py', 'nilmtk/measurement.py', 'nilmtk/timeframe.py'],
  [('MeterGroup.load', 'nilmtk/metergroup.py'),
   ('combine_chunks_from_generators', 'nilmtk/metergroup.py'),
   ('MeterGroup.total_energy', 'nilmtk/metergroup.py'),
   ('MeterGroup.energy_per_meter', 'nilmtk/metergroup.py'),
   ('MeterGroup.select_top_k', 'nilmtk/metergroup.py'),
   ('MeterGroup.get_timeframe', 'nilmtk/metergroup.py')],
  technique=TAB)

P('C15', 'The power series of a meter and the activations found in it',
  'load_series gives for each chunk a series whose rows are the sum over the '
  'AC types of the quantity asked for, missing where any of them is missing, '
  'named by quantity and AC types, carrying the time frame and look-ahead '
  'rows of the chunk, and an empty series for an empty chunk. '
  'power_series asks for the best AC type unless told otherwise; '
  'power_series_all_data joins the chunks, each reading once, or gives None '
  'when there are none. when_on is true exactly for readings at or above the '
  'threshold, which is the smallest of the appliances of the meter (10 W by '
  'default); min_on_duration and min_off_duration are the largest of the '
  'appliance types (0 by default). get_activations returns the runs of '
  'readings at or above the threshold whose beginning and end lie within the '
  'chunk: off periods shorter than min_off_duration join two runs, runs '
  'shorter than min_on_duration are dropped (both counted in seconds between '
  'time stamps), each comes with the last reading before it, `border` '
  'readings more on either side, and none holds a missing reading. '
  'switch_times are the time stamps at which the power changed by more than '
  'the threshold. activity_histogram counts, over chunks of at least five '
  'bins, how often the appliance was on in each bin of the period, counted '
  'from midnight. align_two_meters pairs, per good section of the master '
  'with at least two readings, both meters on the sample period of the '
  'master.',
  ['inputs', 'configurations'], 'all on/off patterns of up to six readings '
  '(seven in the thorough tier), all with missing readings of up to four, on '
  'regular and irregular time stamps, by six settings of the durations and '
  'border; all pairs of appliances; all chunkings listed',
  'No test of the repository calls these functions.',
  ['nilmtk/electric.py', 'nilmtk/appliance.py'],
  [('Electric.load_series', 'nilmtk/electric.py'),
   ('Electric.power_series_all_data', 'nilmtk/electric.py'),
   ('get_activations', 'nilmtk/electric.py'),
   ('Electric.activity_histogram', 'nilmtk/electric.py'),
   ('Electric.on_power_threshold', 'nilmtk/electric.py'),
   ('align_two_meters', 'nilmtk/electric.py')],
  technique=TAB)

P('C17', 'Shares, averages and correlations of meters are as defined',
  'proportion_of_energy divides the energy of a meter by that of the other, '
  'both over the sections asked for or else the good sections of the other: '
  'the mean share over the AC types both measure, or the best AC type of '
  'each when they share none; 0 when the meter used no energy and NaN when '
  'the other used none. proportion_of_upstream is the share, over the good '
  'sections of the upstream meter, in the best AC type both measure. '
  'average_energy_per_period is the energy per AC type times the length of '
  'the period over the uptime (or the time frame), NaN without any; uptime '
  'is the total length of the good sections. correlation is Pearson\'s over '
  'the readings present, however they are cut into chunks, at the larger '
  'sample period, and NaN for fewer than two. vampire_power is the smallest '
  'reading, NaN without any. entropy and mutual_information are the estimates '
  'of Kozachenko-Leonenko and Kraskov from the k nearest neighbours by the '
  'largest difference, in the base asked for, averaged over the chunks. '
  'histogram_from_generator counts all chunks over '
  'the range and bins of the first. A plot asks for a sample period of at '
  'least one second and about one row per pixel.',
  ['inputs', 'configurations'], 'all pairs of sets of AC types with symbolic '
  'energies; all chunk orders of three chunks by six ranges and three bin '
  'counts; eleven pairs of reading sequences by their chunkings; entropy and '
  'information of nine readings for three numbers of neighbours',
  'No test of the repository calls these functions.',
  ['nilmtk/electric.py', 'nilmtk/stats/histogram.py'],
  [('Electric.entropy', 'nilmtk/electric.py'),
   ('Electric.mutual_information', 'nilmtk/electric.py'),
   ('Electric.proportion_of_energy', 'nilmtk/electric.py'),
   ('Electric.proportion_of_upstream', 'nilmtk/electric.py'),
   ('Electric.average_energy_per_period', 'nilmtk/electric.py'),
   ('Electric.correlation', 'nilmtk/electric.py'),
   ('histogram_from_generator', 'nilmtk/stats/histogram.py')],
  technique=TAB)

P('C16', 'Every name, function and argument the code uses exists',
  'No operation of the package fails because of what it is called: every '
  'name it reads is defined, no local is read that no path has assigned, '
  'every module, function and class it imports or reaches exists in the '
  'package or in the installed libraries and is callable where it is called; '
  'every method and attribute asked of self exists on the classes that can '
  'be self; every call passes arguments the callee takes; format strings fit '
  'their arguments; values made by pandas constructors are only asked for '
  'methods that pandas has, with arguments it takes; iterators are not used '
  'as sequences, quotients not as counts, and time zones are not taken to '
  'have a name. A use whose failure is handled on the spot is exempt.',
  ['call sites', 'paths'], 'every name, dotted path, import, call, format '
  'string and local variable of every module of the package, converters, '
  'disaggregators, plots and legacy code included, whether or not a test '
  'reaches it',
  'Most of these paths (converters, plots, statistics, legacy code) run in '
  'no test, and need data sets that cannot be shipped.',
  ['nilmtk/'],
  [('all functions', 'nilmtk/')],
  technique='scope-aware name resolution, class-hierarchy lookup, '
  'interprocedural class inference and call-signature matching over the '
  'syntax tree, against the interfaces of the installed libraries',
  note='Attributes of values of unknown class are only required to exist '
  'somewhere. Packages that are not installed are trusted. The code under '
  'analysis is parsed, not imported.')

P('C18', 'Appliances, buildings and data sets are what their metadata say',
  'Appliance.matches is true exactly when every pair of the query agrees '
  'with the appliance: its type (or, unless switched off, a synonym), its '
  'instance, its own metadata first, else a category of its type or the '
  'value its type has (an element, where that is a list); an unknown key is '
  'a KeyError, an empty query matches. The on power threshold is its own, '
  'else its nominal power, else that of its type, else 10 W, whatever the '
  'values are. Reading an appliance changes neither its metadata nor the '
  'shared table of types. Appliances are equal, with equal hashes, exactly '
  'when type and instance are. A building takes its meters and appliances '
  'from its own metadata and is identified by its instance and its data set '
  '(its own, else the one it is read from); a data set holds exactly the '
  'buildings its store holds, each under its instance; describe names every '
  'documented fact, one column per building; the activity script holds the '
  'start and the end of every activation of every submeter, under the '
  'documented key, in a file that is closed.',
  ['inputs'], 'every query of one or two pairs against appliances with and '
  'without own values; thresholds given, zero and absent at every level; '
  'buildings with and without meters, appliances and data set; data sets '
  'whose buildings are in any order or have gaps',
  'The tests match one type of appliance and open data files that are not '
  'shipped; precedence, synonyms switched off, zero thresholds and building '
  'numbers above nine are not sampled.',
  ['nilmtk/appliance.py', 'nilmtk/building.py', 'nilmtk/dataset.py',
   'nilmtk/hashable.py'],
  [('Appliance.matches', 'nilmtk/appliance.py'),
   ('Appliance.on_power_threshold', 'nilmtk/appliance.py'),
   ('Building.import_metadata', 'nilmtk/building.py'),
   ('DataSet._init_buildings', 'nilmtk/dataset.py'),
   ('DataSet.get_activity_script', 'nilmtk/dataset.py')], technique=TAB)

P('C19', 'The scores of a disaggregation are the documented ones',
  'Each metric pairs every submeter of the prediction with the meter of the '
  'same identity in the ground truth (nested groups included) and reports '
  'under the meter\'s instance: error_in_assigned_energy the absolute '
  'difference of the energies per AC type, both over the good sections of '
  'the prediction; mean_normalized_error_power the absolute errors over the '
  'true power, rms_error_power the root of the mean squared error, both over '
  'all readings common to the two meters in all good sections; f1_score the '
  'mean of the F1 scores of the on states of the chunks weighted by their '
  'common readings; NaN when there are none. '
  'fraction_energy_assigned_correctly sums the smaller of the true and '
  'predicted shares of the submeters. The losses are the formulas of their '
  'names, and compute_rmse gives the root mean squared error of each column '
  'pair, over the times present in both, under labels that tell appliances '
  'of one type apart.',
  ['inputs'], 'readings present or missing on either side, good sections of '
  'every length, one or several chunks, meters without common readings, one '
  'or several meters, nested groups, one or several AC types, tables with '
  'gaps and other times',
  'No test calls a metric or a loss; they need predictions and data sets '
  'that are not shipped.',
  ['nilmtk/metrics.py', 'nilmtk/losses.py', 'nilmtk/utils.py'],
  [('error_in_assigned_energy', 'nilmtk/metrics.py'),
   ('fraction_energy_assigned_correctly', 'nilmtk/metrics.py'),
   ('rms_error_power', 'nilmtk/metrics.py'),
   ('f1_score', 'nilmtk/metrics.py'), ('losses', 'nilmtk/losses.py'),
   ('compute_rmse', 'nilmtk/utils.py')], technique=TAB)

P('C20', 'The methods predict what they have learnt, for every reading',
  'Every bundled method (Mean, CO, FHMMExact, Hart85 of nilmtk.disaggregate) '
  'returns, for each frame of mains it is given, one frame with the index of '
  'that frame and a column per appliance learnt. Mean predicts the mean of '
  'all readings it was trained on (missing ones do not count), over repeated '
  'training and after saving and loading. CO predicts, for each row, the '
  'combination of learnt states whose sum is nearest to the mains, each '
  'appliance with its power in that combination. FHMMExact combines the '
  'models of the appliances into the model of the sum of all combinations of '
  'states (sorting states by power reorders all parameters alike) and '
  'decodes each combination into the power of each appliance. cluster() '
  'clusters readings above the threshold, with the best number of clusters, '
  'into sorted distinct rounded states including off. Hart85 finds steady '
  'states and transitions larger than the noise, pairs a rise with the '
  'nearest later matching unmatched fall in the buffer, clusters the mean '
  'sizes of the pairs, and has the appliance with the nearest size on from '
  'its rise to its fall, also after exporting and importing the model.',
  ['inputs', 'sequences'], 'training data, mains, thresholds and parameters '
  'of the methods',
  'No test trains a method; wrong predictions still look like power.',
  ['nilmtk/disaggregate', 'nilmtk/feature_detectors/cluster.py',
   'nilmtk/feature_detectors/steady_states.py'],
  [('Mean', 'nilmtk/disaggregate/mean.py'),
   ('CO', 'nilmtk/disaggregate/combinatorial_optimisation.py'),
   ('FHMMExact', 'nilmtk/disaggregate/fhmm_exact.py'),
   ('Hart85', 'nilmtk/disaggregate/hart_85.py'),
   ('cluster', 'nilmtk/feature_detectors/cluster.py'),
   ('find_steady_states', 'nilmtk/feature_detectors/steady_states.py')],
  technique=TAB)
P('C21', 'An experiment trains and scores every method on the same readings',
  'nilmtk.api.API trains every method on the readings of its training data '
  'sets, buildings and windows, in order: at once, or, for a method that '
  'trains by chunks in an experiment with chunks, chunk by chunk, once per '
  'epoch it asks for, with the number of the epoch; a pretrained method is '
  'not trained; nothing is trained after testing began. Mains and '
  'appliances have the same times, at which none misses, unless missing '
  'readings are kept; each appliance goes by its own name, in the order of '
  'the experiment, whatever the others lack; an artificial aggregate is the '
  'sum of the appliances. Every method is asked about the same test '
  'readings, once per building (per chunk, with chunks). For each of these '
  'and each known metric, in order, there is one table of scores, under a '
  'key naming data set, building, chunk and metric: the loss of the true '
  'and the predicted power of each appliance and method, paired by name and '
  'row; predictions beyond the last true reading do not count. An unknown '
  'metric is skipped, and a test without common readings has no score.',
  ['inputs', 'sequences'], 'experiments over data sets, buildings, windows, '
  'chunk sizes, missing readings of mains and appliances, kinds of methods, '
  'metrics and options',
  'No test runs an experiment; it needs data sets that are not shipped, and '
  'what is trained and scored wrongly still gives plausible numbers.',
  ['nilmtk/api.py'],
  [('API.experiment', 'nilmtk/api.py'), ('API.train_chunk_wise',
   'nilmtk/api.py'), ('API.train_jointly', 'nilmtk/api.py'),
   ('API.test_chunk_wise', 'nilmtk/api.py'), ('API.test_jointly',
   'nilmtk/api.py'), ('API.dropna', 'nilmtk/api.py'), ('API.call_predict',
   'nilmtk/api.py'), ('API.predict', 'nilmtk/api.py')], technique=TAB)


P('C22', 'A disaggregated data set holds every prediction under its meter',
  'The older disaggregators (nilmtk.legacy.disaggregate: CombinatorialOptimisation, '
  'FHMM, also across buildings, Hart85 and MLE) ask the mains for the given '
  'sample period and for its good sections unless told otherwise (MLE takes '
  'all and resamples), and write, for every chunk of mains (CO and FHMM: of at least MIN_CHUNK_LENGTH rows), '
  'in order, the predictions of each appliance under /buildingB/elec/meterI of '
  'its own meter, one row per reading (FHMM: per reading which is not '
  'missing), and the mains themselves under meter1, with columns for the '
  'physical quantity and type of the mains. The metadata written describe '
  'exactly the written meters: where their data are, that they are submeters '
  'of meter 1, sample period, measurement, appliances, names and a time frame '
  'spanning the chunks used. The predictions are the nearest combination of '
  'states (CO), the decoded states (FHMM), the power of the paired events '
  '(Hart85) and the likeliest pairs that do not overlap (MLE). An untrained '
  'CO, FHMM or Hart85 raises RuntimeError and writes nothing; CO and FHMM '
  'write nothing without a usable chunk. An exported and imported model '
  'predicts the same. Hart85.best_matched_appliance pairs each predicted '
  'appliance with the submeter of least error.',
  ['inputs', 'sequences'], 'mains in any number of chunks of any length, '
  'missing readings, buildings, appliances, models and options',
  'The test suite of the older package needs data files and an interface of '
  'hmmlearn that are not there; what is written under a wrong key or '
  'described wrongly is found only when the file is analysed.',
  ['nilmtk/legacy/disaggregate'],
  [('CombinatorialOptimisation.disaggregate',
    'nilmtk/legacy/disaggregate/combinatorial_optimisation.py'),
   ('FHMM.disaggregate', 'nilmtk/legacy/disaggregate/fhmm_exact.py'),
   ('FHMM.disaggregate_across_buildings',
    'nilmtk/legacy/disaggregate/fhmm_exact.py'),
   ('Hart85.disaggregate', 'nilmtk/legacy/disaggregate/hart_85.py'),
   ('Hart85.best_matched_appliance',
    'nilmtk/legacy/disaggregate/hart_85.py'),
   ('MLE.disaggregate',
    'nilmtk/legacy/disaggregate/maximum_likelihood_estimation.py'),
   ('Disaggregator._save_metadata_for_disaggregation',
    'nilmtk/legacy/disaggregate/disaggregator.py')], technique=TAB)
P('C23', 'Converting a data set stores each reading once, where it belongs',
  'The dataset converters (nilmtk.dataset_converters: REDD, UK-DALE, REFIT, '
  'DRED, iAWE, CAXE, AMPds, COMBED, HIPE, DEDDIAG, ECO, IDEAL, GREEND, HES, '
  'SMART* and Dataport) put every reading of the raw files into the store exactly '
  'once: under the key /buildingB/elec/meterM of its own house and channel, '
  'at its own instant in the time zone of the data set, in its own unit (kW '
  'become W), under a physical quantity and type that NILMTK knows and the '
  'metadata of the meter device give, with columns named physical_quantity '
  'and type, in time order where the converter sorts. Readings the publisher '
  'marks as missing are left out (or filled as the converter documents), of '
  'several readings at one instant the first is kept where the converter '
  'drops duplicates, and readings of 0 are kept. Files which do not belong '
  'and the order in which directories are listed make no difference. The '
  'metadata are those of the converter; written once, after the data; '
  'generated buildings (HES, Dataport) describe exactly the meters which '
  'were stored. The working directory and the raw files are left as they '
  'were; raw files which are missing altogether end in an error.',
  ['inputs', 'histories'], 'raw files of any number of buildings, channels, '
  'days and blocks, in any listing order, with repeated, unsorted or missing '
  'readings',
  'The raw data sets are gigabytes and are not part of the repository, so '
  'no test runs a converter; a reading under the wrong meter or an hour off '
  'is found only in later analyses.',
  ['nilmtk/dataset_converters'],
  [('convert_redd', 'nilmtk/dataset_converters/redd/convert_redd.py'),
   ('convert_ukdale', 'nilmtk/dataset_converters/ukdale/convert_ukdale.py'),
   ('convert_eco', 'nilmtk/dataset_converters/eco/convert_eco.py'),
   ('convert_iawe', 'nilmtk/dataset_converters/iawe/convert_iawe.py'),
   ('convert_caxe', 'nilmtk/dataset_converters/caxe/convert_caxe.py'),
   ('convert_ampds', 'nilmtk/dataset_converters/ampds/convert_ampds.py'),
   ('convert_greend', 'nilmtk/dataset_converters/greend/convert_greend.py'),
   ('convert_hes', 'nilmtk/dataset_converters/hes/convert_hes.py'),
   ('convert_smart', 'nilmtk/dataset_converters/smart/convert_smart.py'),
   ('convert_dataport',
    'nilmtk/dataset_converters/dataport/csv_converter.py'),
   ('convert_ideal', 'nilmtk/dataset_converters/ideal/convert_ideal.py')],
  technique=TAB)

P('C24', 'The shipped data set metadata are coherent',
  'The metadata that come with each dataset converter describe a data set '
  'that can be used: every file is readable YAML in which no key is given '
  'twice; the data set has a name, a time zone that exists and a time frame '
  'that starts before it ends; every meter device measures at least one '
  'quantity, each once, all of them quantities NILMTK knows, with a known AC '
  'type exactly where NILMTK requires one, lower limits below upper limits, '
  'a positive sample period and a largest sample period not below it; each '
  'building file describes the building of its number; every meter is of a '
  'described device, and is the site meter or a submeter of the mains or of '
  'another meter of the building, with no meter upstream of itself; every '
  'appliance is on meters that exist, each named once, and appliances of one '
  'type are numbered from 1 without gaps.',
  ['configurations'], 'every dataset.yaml, meter_devices.yaml and '
  'buildingN.yaml of every dataset converter',
  'No test reads the metadata of the converters; an appliance on the wrong '
  'meter number is found when somebody asks for it.',
  ['nilmtk/dataset_converters', 'nilmtk/measurement.py'],
  [('metadata of the converters', 'nilmtk/dataset_converters'),
   ('PHYSICAL_QUANTITIES', 'nilmtk/measurement.py')],
  technique='schema and reference rules over the syntax tree of every YAML '
  'file; known quantities and AC types are taken from the source')

P('C25', 'The shared helpers keep their meaning',
  'The helpers of nilmtk.utils which the rest of the package is written with '
  'do what they say on every argument: flatten_2d_list flattens one level and '
  'keeps strings and numbers whole; simplest_type_for gives None, the only '
  'element or a tuple; append_or_extend_list adds the elements of a list, one '
  'other value, or nothing for None; convert_to_list of None is empty; '
  'container_to_string joins with the separator and leaves strings alone; '
  'most_common is a most frequent entry; capitalise_first_letter changes only '
  'the first letter; index_of_column_name is the position, or KeyError; '
  'get_index gives the index of a frame, series or index, else TypeError; '
  'tree_root is the only node without a parent, else RuntimeError, and '
  'nodes_adjacent_to_root its children; timestamp_is_naive tells times '
  'without an offset; tz_localize_naive reads naive times as UTC and converts '
  'to the zone asked for, NaT for no time, and leaves the time alone without '
  'a zone; convert_to_timestamp keeps None; get_tz is the zone of the rows; '
  'normalise_timestamp is the start of the period the time lies in; '
  'offset_alias_to_seconds and timedelta64_to_secs give seconds; '
  'check_directory_exists raises unless it does; dict_to_html lists all '
  'entries, nested ones too, and links addresses; find_nearest gives the '
  'index of a closest value and the difference to it.',
  ['inputs'], 'lists of up to three of ten kinds of items; all parent '
  'choices of up to four nodes; naive, aware and missing times by zones; '
  '35 period lengths',
  'No test calls the helpers by themselves; they are used on whatever '
  'metadata and data contain.',
  ['nilmtk/utils.py'],
  [(f, 'nilmtk/utils.py') for f in (
      'flatten_2d_list', 'simplest_type_for', 'append_or_extend_list',
      'container_to_string', 'most_common', 'tree_root', 'tz_localize_naive',
      'timestamp_is_naive', 'normalise_timestamp', 'offset_alias_to_seconds',
      'dict_to_html', 'find_nearest')],
  technique=TAB)

P('C26', 'Clearing and restoring files touches exactly the files meant',
  'Disaggregator.clear_model_checkpoints removes from the working directory '
  'exactly the files (not folders) whose names start with file_prefix and end '
  'in .h5, nothing in other directories, and nothing at all when no prefix is '
  'set. setup_package copies every HDF file and the CSV store of the test '
  'data and changes nothing else; whatever the tests do to those files, '
  'after teardown_package each holds again what it held, no copy is left '
  'behind, and a file which cannot be restored does not keep the others from '
  'being restored.',
  ['histories', 'configurations'], 'thirteen file names and two folders by '
  'seven prefixes; five kinds of changes between setup and teardown; both '
  'listing orders',
  'No test clears checkpoints; the set-up code is not run by the test runner '
  'used here.',
  ['nilmtk/disaggregate/disaggregator.py', 'nilmtk/__init__.py'],
  [('Disaggregator.clear_model_checkpoints',
    'nilmtk/disaggregate/disaggregator.py'),
   ('setup_package', 'nilmtk/__init__.py'),
   ('teardown_package', 'nilmtk/__init__.py')],
  technique='abstract interpretation over a model of the file system')

N('N01', 'Disaggregation predictions approach the true appliance power',
  'Trained on a house, a disaggregator predicts appliance power whose error '
  'on unseen data of that house is below that of the mean.',
  ['inputs'], 'every data set with enough training data',
  'The error depends on the data; tests have none.',
  ['nilmtk/disaggregate', 'nilmtk/legacy/disaggregate'],
  [('CO.disaggregate_chunk', 'nilmtk/disaggregate/co.py')],
  'the error is a statistical quantity of measured data and of fitted '
  'estimators (k-means, EM); no static argument bounds it. The parts that '
  'are exact (state search, decoding, keys, metadata) are C20 and C22')
N('N02', 'Entropy and mutual information estimates converge',
  'entropy, proportion and mutual information statistics of meters and '
  'groups approach the quantity they estimate as readings accumulate.',
  ['inputs'], 'every distribution of power readings',
  'An estimate has to be compared with the true distribution.',
  ['nilmtk/electric.py'],
  [('Electric.entropy', 'nilmtk/electric.py')],
  'a limit statement about numerical nearest-neighbour estimators '
  '(scipy KDTree, digamma) over real data; that the estimator is computed as '
  'published is C17, which readings reach it C15')
N('N03', 'Statistics over long recordings stay within memory',
  'Chunked loading keeps the memory a statistic needs independent of the '
  'length of the recording.',
  ['inputs'], 'recordings of any length',
  'Tests use short recordings.',
  ['nilmtk/datastore', 'nilmtk/stats'],
  [('HDFDataStore.load', 'nilmtk/datastore/hdfdatastore.py')],
  'peak memory depends on pandas/PyTables buffers at run time, which the '
  'source does not show; that data are loaded and processed chunk by chunk '
  'is part of C04, C05 and C10')
