_D = 'py/koladata/ext/storage/'
_KD = ' The storage code runs on an executable model of the native kd module, which cannot be built here.'
PROPS = [
 dict(id='B01', title='Stored bags come back exactly as added, with their dependencies',
  statement='''Every bag added to a persistent collection can be loaded afterwards, by the same or a later process, with exactly the contents,
   name, dependencies and metadata it was added with. Loading given bags loads exactly those and, unless told otherwise, everything they
   transitively depend on, merged in an order in which later bags win.''',
  over=['inputs','histories'], text='every sequence of additions, dependency graph and reopening',
  why='Tests add a few bags; order and dependency mistakes show up only in particular graphs and after reopening.',
  files=[_D+'data_bag_manager.py', _D+'data_bag_manager_metadata.proto'],
  mech=[('dependency closure and topological merge','data_bag_manager.py'),('metadata files per revision','data_bag_manager.py')],
  technique='reference-model monitor over generated histories on a recording in-memory file system',
  note='Held on the generated histories.'+_KD),
 dict(id='B02', title='An interrupted or failed addition of bags leaves a usable collection',
  statement='''If a process dies or any file operation fails at any moment while bags are being added, the stored collection is afterwards
   readable and contains either all or none of the bags of that addition, and everything added earlier unchanged. Adding can then be
   retried and continued.''',
  over=['fault_sequences','histories'], text='every crash point and failing file operation of an addition',
  why='No test injects crashes or failing operations.',
  files=[_D+'data_bag_manager.py','py/koladata/file_io/fs_util.py'],
  mech=[('commit by one atomic metadata write','data_bag_manager.py')],
  technique='fault-injection monitor: crash or error at every file operation, then reopen and compare with the allowed states',
  note='Held at every injected crash and fault point of the generated additions.'+_KD),
 dict(id='B03', title='Of several writers adding bags concurrently each revision has one winner',
  statement='''When several writers extend the same stored collection concurrently, every successful addition is in the collection
   afterwards, no addition overwrites another, and a writer that lost a race is told so and changes nothing. Readers that open the
   collection meanwhile see a consistent earlier or later state.''',
  over=['schedules','histories'], text='every interleaving of the file operations of writers and readers',
  why='Tests have no concurrent writers.',
  files=[_D+'data_bag_manager.py'],
  mech=[('exclusive creation of the next metadata file','data_bag_manager.py')],
  technique='controlled-schedule monitor over gated file operations, offline check that successes equal stored history',
  note='Held on the explored interleavings (distinct ones are counted in the evidence).'+_KD),
 dict(id='B04', title='Branches and extracts of a collection are complete and independent',
  statement='''A branch or an extract of a stored collection contains exactly the requested bags and what they depend on, with identical
   contents, dependencies and metadata. Later changes to the source never show in it, and changes to it never show in the source; an
   existing or non-empty destination is refused.''',
  over=['inputs','histories'], text='every dependency graph, request, nesting of branches and later change',
  why='Chains of branches with partial closures are not sampled by tests.',
  files=[_D+'data_bag_manager.py'],
  mech=[('external bag metadata','data_bag_manager.py create_branch'),('extract_bags','data_bag_manager.py')],
  technique='reference-model monitor over trees of branches and extracts',
  note='Held on the generated trees.'+_KD),
 dict(id='B05', title='The cache of loaded bags never changes what is read and keeps its limit',
  statement='''Whatever the size limit, history of loads, clears and limit changes, what is read through the cache is exactly what is stored,
   two collections never see each other\'s entries, and the total size of the entries never exceeds the limit.''',
  over=['histories','schedules'], text='every sequence of cache operations by several managers and threads',
  why='Tests use one or two entries.',
  files=[_D+'lru_size_tracking_cache.py', _D+'global_cache_lib.py', _D+'data_bag_manager.py'],
  mech=[('size-tracking LRU','lru_size_tracking_cache.py')],
  technique='online invariant monitor on the cache plus comparison with an uncached reader',
  note='Held on the generated operation sequences.'+_KD),
 dict(id='B06', title='Stored collections work in directories of any name',
  statement='''A collection can be created, extended, reopened, branched and extracted in a directory whatever characters its name contains,
   including glob metacharacters, spaces and non-ASCII, and never reads or touches files outside its own directories.''',
  over=['inputs'], text='every directory name and sibling layout',
  why='Tests only use temporary directories with plain names.',
  files=[_D+'data_bag_manager.py', _D+'data_slice_manager.py'],
  mech=[('directory scans','data_bag_manager.py')],
  technique='file-access trace monitor on hostile directory names with decoy siblings',
  note='Held on the generated names after the recorded fix.'+_KD),
 dict(id='M01', title='A managed slice equals the same updates applied in memory',
  statement='''After any sequence of updates, loading everything gives the slice that results from applying the same updates in memory, and
   loading any set of paths gives populated, up-to-date and valid data at those paths and nothing that is not in the slice. Slices loaded
   separately combine to what loading them together gives, the reported schema and paths are those of the slice, and invalid paths are refused.''',
  over=['histories','inputs'], text='every sequence of updates with shared, recursive, aliased and retyped data',
  why='Whether a needed bag is loaded depends on the whole update history, of which tests sample a few.',
  files=[_D+'data_slice_manager.py', _D+'schema_helper.py', _D+'stubs_and_minimal_bags_lib.py', _D+'value_presence_util.py'],
  mech=[('index of bags by schema node','data_slice_manager.py'),('minimal bags','stubs_and_minimal_bags_lib.py')],
  technique='differential monitor against plain in-memory application after every update',
  note='Held on the generated histories after the two recorded fixes.'+_KD),
 dict(id='M02', title='Every revision can be reopened and never changes',
  statement='''Reopening a managed slice, now or at any earlier revision, gives exactly the slice and history as of that revision, also after its
   directory was moved; read-only copies stay at their revision whatever is written later. A writer that is not at the latest revision, an
   unknown revision and any write through a read-only handle are refused without changing anything.''',
  over=['histories'], text='every history, revision and moment of taking a copy',
  why='Tests check one or two revisions.',
  files=[_D+'data_slice_manager.py'],
  mech=[('revision metadata files','data_slice_manager.py')],
  technique='differential monitor per revision, with stale writers and pinned readers',
  note='Held on the generated histories.'+_KD),
 dict(id='M03', title='Branches start from the chosen revision and are independent',
  statement='''A branch taken from any revision of a managed slice, or of another branch, has exactly the data of that revision and records its
   origin. From then on updates to the branch, its origin and its siblings never affect one another, also after reopening.''',
  over=['histories'], text='every tree of branches and interleaving of updates',
  why='Tests have one level of branching.',
  files=[_D+'data_slice_manager.py', _D+'data_bag_manager.py'],
  mech=[('branch','data_slice_manager.py')],
  technique='differential monitor over generated trees of branches, each with its own in-memory twin',
  note='Held on the generated trees.'+_KD),
 dict(id='M04', title='A crash or failing file operation never corrupts a managed slice',
  statement='''If a process dies or a file operation fails at any moment during creation, an update or branching, the stored slice afterwards is
   the one before or after that operation, all of it readable. A live instance whose update failed still serves its revision and can retry,
   and another process can carry on.''',
  over=['fault_sequences','histories'], text='every crash point and failing operation, also repeatedly',
  why='No test injects crashes or failing operations.',
  files=[_D+'data_slice_manager.py', _D+'data_bag_manager.py'],
  mech=[('single commit point','data_slice_manager.py')],
  technique='fault-injection monitor at every file operation, then reopen, compare and continue',
  note='Held at every injected point.'+_KD),
 dict(id='M05', title='Concurrent writers and readers of a managed slice stay consistent',
  statement='''When several processes update and read the same managed slice, the successful updates form the history, each on top of the one
   before, losers are told and change nothing, and a reader that opens it at any moment sees the complete data of one revision.''',
  over=['schedules','histories'], text='every interleaving of file operations of writers and readers',
  why='Tests have no concurrency.',
  files=[_D+'data_slice_manager.py', _D+'data_bag_manager.py'],
  mech=[('exclusive creation of revision files','data_slice_manager.py')],
  technique='controlled-schedule monitor over gated file operations with an offline history check',
  note='Held on the explored interleavings.'+_KD),
 dict(id='M06', title='Refused requests leave a managed slice unchanged',
  statement='''Updates that the rules forbid (unsupported types such as objects or schemas, structured schema metadata, paths that do not exist
   or are no entities, values of the wrong shape, read-only slices, unsuitable roots) raise an error. The slice, its history, its schema and
   its files are then exactly as before and later valid updates work.''',
  over=['inputs','histories'], text='every forbidden request at every point of a history',
  why='Tests check the error, rarely that nothing changed.',
  files=[_D+'data_slice_manager.py', _D+'schema_helper.py', _D+'bare_root_initial_data_manager.py'],
  mech=[('validation before mutation','data_slice_manager.py update')],
  technique='snapshot monitor around refused requests in generated histories',
  note='Held on the generated requests.'+_KD),
 dict(id='M07', title='Loading some paths does not read data of unrelated features',
  statement='''Loading a primitive attribute reads no data file that was written only for other primitive attributes, so that the cost of loading
   a feature does not grow with the number of unrelated features.''',
  over=['histories','inputs'], text='every history of unrelated updates and every requested path',
  why='Tests look at which bags are loaded in a few cases only.',
  files=[_D+'data_slice_manager.py', _D+'schema_helper.py'],
  mech=[('schema node index','schema_helper.py')],
  technique='file-read trace monitor on the in-memory file system',
  note='Held on the generated histories; attributes whose type changed are excluded, since their older files may be needed.'+_KD),
 dict(id='M08', title='Combining managed slices equals enriching the slices they contain',
  statement='''A slice that starts from several others contains what enriching the first with the following ones in order gives, at every path and
   level of loading, stays at the revisions it was built from, and can be updated, reopened and branched like any other.''',
  over=['histories','inputs'], text='every combination of component histories',
  why='Tests combine two small slices.',
  files=[_D+'composite_initial_data_manager.py', _D+'data_slice_manager.py'],
  mech=[('composite initial data','composite_initial_data_manager.py')],
  technique='differential monitor against enriching in memory',
  note='Held on the generated combinations; components that disagree about a type are excluded, as the outcome is unspecified.'+_KD),
 dict(id='M09', title='The in-memory manager behaves like plain updates',
  statement='''The manager that keeps everything in memory gives, after any updates, the plainly updated slice, schema and paths, refuses invalid paths and
   updates when read-only, and slices obtained earlier never change.''',
  over=['histories'], text='every history of updates and reads',
  why='It has no tests of its own for histories.',
  files=[_D+'simple_in_memory_data_slice_manager.py', _D+'schema_helper_mixin.py'],
  mech=[('update','simple_in_memory_data_slice_manager.py')],
  technique='differential monitor against plain updates, with held slices re-checked',
  note='Held on the generated histories.'+_KD),
 dict(id='S01', title='The schema graph names, relates and selects exactly the schema parts',
  statement='''For any schema, shared, recursive or with arbitrary attribute names, two paths get the same node name exactly when they lead to the same
   part (one per use for primitives), and parents, children, ancestors, descendants, leaves, the nodes needed for paths and those an update can affect
   are those of the schema\'s graph. The schema bag for a set of nodes relates exactly these nodes and keeps their names and metadata.''',
  over=['inputs'], text='every schema, set of nodes, path and update',
  why='A missing node silently loses data; collisions and cycles need particular schemas.',
  files=[_D+'schema_helper.py', _D+'data_slice_path.py'],
  mech=[('_analyze_schema','schema_helper.py'),('get_schema_node_name','schema_helper.py')],
  technique='reference-graph monitor over generated schemas',
  note='Held on the generated schemas.'+_KD),
 dict(id='S02', title='Path strings and paths convert both ways without loss',
  statement='''Printing any path and parsing it gives the same path whatever the attribute names, every documented spelling parses to its meaning,
   and any other string is refused with an error. Concatenation, extension, equality and evaluation agree with the sequence of steps.''',
  over=['inputs'], text='every sequence of steps, attribute name and string',
  why='Tests list examples; the grammar and names are unbounded.',
  files=[_D+'data_slice_path.py'],
  mech=[('parse_from_string','data_slice_path.py'),('base64 attribute names','data_slice_path.py')],
  technique='round-trip and independent-parser monitor over generated and mutated strings',
  note='Held on the generated strings; whether non-canonical base64 is accepted is left open.'+_KD),
 dict(id='S03', title='Presence masks and minimal bags state exactly what is known',
  statement='''For any slice of entities and attribute, each present entity is in exactly one of the present, missing and removed masks, according to
   what the slice\'s bag says. The minimal bag for an attribute, list or dict states exactly the known values of the given items and nothing else, and
   is absent exactly if nothing is known.''',
  over=['inputs'], text='every combination of presence states, types, shapes and repeated items',
  why='Combinations of types, repeats and removed values are sampled by a few tests.',
  files=[_D+'value_presence_util.py', _D+'stubs_and_minimal_bags_lib.py'],
  mech=[('sentinel fallback','value_presence_util.py'),('minimal_bag_*','stubs_and_minimal_bags_lib.py')],
  technique='reference monitor reading the bag facts directly',
  note='Held on the generated slices. For attributes of type NONE only the present mask is judged.'+_KD),
 dict(id='N01', title='Manager views navigate, update and filter exactly their path',
  statement='''A view reaches exactly the parents, children and descendants of its path in the documented order, reads and updates the data there, and
   reports itself invalid while its path does not exist. Filtering keeps exactly the selected items and the containers that still hold something,
   leaves everything else as it was, does nothing if all is selected, and selecting instead of filtering leaves the original untouched.''',
  over=['inputs','histories'], text='every nesting of lists, dicts and entities, path and mask',
  why='Filtering is recursive over arbitrary nestings; tests cover a few.',
  files=[_D+'data_slice_manager_view.py'],
  mech=[('filter/select','data_slice_manager_view.py')],
  technique='nested-value model monitor over generated slices, paths and masks',
  note='Held on the generated slices. Regular-expression search is judged through the predicate search it delegates to, as re2 is not installed.'+_KD),
]
