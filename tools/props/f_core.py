_I = 'koladata/internal/'
_R = 'koladata/'
_SH = ' Arolla and parts of abseil are replaced by stand-ins (arrays, types, edges, shapes); the bags, sources, slices and operators are the repository\'s own.'
_T = 'model-based monitoring of the real C++ under AddressSanitizer and UBSan: random programs, with a plain model compared after every step'
_W = 'Tests write a few values of one type to a few objects; what is stored depends on types, sizes of allocations, order, density and removals, of which there are unboundedly many combinations.'
PROPS = [
 dict(id='G01', title='Attributes read back exactly what was last written to them',
  statement='''After any sequence of writes of attributes to a bag, reading an attribute of any objects yields for each the value last written to it, of the
   same type; a removed one counts as removed and one that was never set as never set. With fallback bags each object takes its value from the
   first bag where it is set or removed, and reading one object or many at once agrees.''',
  over=['inputs','histories'], text='every sequence of writes, every selection of objects from any allocations, every chain of fallbacks',
  why=_W, files=[_I+'data_bag.cc', _I+'dense_source.cc', _I+'sparse_source.cc', _I+'slice_builder.h'],
  mech=[('dense and sparse sources per allocation','DataBagImpl::SetAttr, GetAttr'),('fallback chain','DataBagImpl::GetAttrWithFallbacks')],
  technique=_T, note='Allocations up to some hundred objects, up to eight bags.'+_SH),
 dict(id='G02', title='Lists behave like lists under every edit',
  statement='''After any sequence of appends, extensions, replacements of ranges, assignments and removals on lists of a bag, every list holds exactly the items which
   a plain list holds after the same edits: negative and out-of-range positions are treated alike for one list and many, missing lists are left alone,
   and a list of a fallback bag is seen only where no earlier bag has the list.''',
  over=['inputs','histories'], text='every sequence of list edits, every selection of lists, every range',
  why=_W, files=[_I+'data_bag.cc', _I+'data_list.cc'], mech=[('typed list storage','DataList'),('list operators','DataBagImpl::*List*')],
  technique=_T, note='As G01.'+_SH),
 dict(id='G03', title='Dicts and schemas behave like maps under every edit',
  statement='''After any sequence of assignments, removals and clearings, every dict and every schema of a bag holds exactly the keys and values of a plain map after the
   same edits; keys and values are listed in matching order and sizes agree with them. With fallback bags each key takes its value from the first bag
   where it is set or removed; asking strictly for a schema attribute that is not there is an error.''',
  over=['inputs','histories'], text='every sequence of edits of dicts and schemas, every key type, every chain of fallbacks',
  why=_W, files=[_I+'data_bag.cc', _I+'dict.cc'], mech=[('layered dicts','Dict'),('schemas as dicts and sources','DataBagImpl::*SchemaAttr*')],
  technique=_T, note='As G01.'+_SH),
 dict(id='G04', title='Forks of a bag never see writes to each other',
  statement='''A fork of a bag holds what the bag held when it was forked and is apart from it and from all other forks: a write to one, of whatever kind, changes
   nothing in another, however deep or wide the tree of forks is and whichever of the bags are dropped meanwhile.''',
  over=['histories'], text='every tree of forks and every interleaving of writes in it',
  why='Sharing structure between forks pays off because of laziness; a leak shows only for the right mix of layers, types and order.', files=[_I+'data_bag.cc', _I+'dict.cc', _I+'data_list.cc'],
  mech=[('parent chain','DataBagImpl::PartiallyPersistentFork'),('copy on write','GetMutableDenseSource, GetOrCreateMutableLists, GetOrCreateMutableDicts')],
  technique=_T, note='Trees up to twelve bags.'+_SH),
 dict(id='G05', title='Merging bags resolves every conflict as its options say',
  statement='''Merging one bag into another yields exactly the union of both: where both set something, the value of the one that the conflict policy prefers, for data and
   schemas apart, and an error exactly if the policy is to raise and values differ. The merged bag is unchanged and stays apart, also when the two share ancestors;
   an overwriting update made of two bags turns one into their merge.''',
  over=['inputs','histories'], text='every pair of bags, related or not, and every combination of options',
  why=_W, files=[_I+'data_bag.cc', _I+'dense_source.cc', _I+'sparse_source.cc', _I+'dict.cc'],
  mech=[('merging of sources, lists and dicts','DataBagImpl::MergeInplace, Merge*'),('updates','DataBagImpl::CreateOverwritingMergeUpdate')],
  technique=_T, note='As G01.'+_SH),
 dict(id='G06', title='The content taken out of a bag is all of it',
  statement='''Extracting the content of a bag yields every attribute, list, dict and schema it holds with what was removed, so that writing it into an empty bag gives a bag
   that reads the same in every respect, fallbacks included; the reported statistics count exactly what is there.''',
  over=['inputs','histories'], text='every bag, with layers of forks and removals',
  why=_W, files=[_I+'data_bag.cc', _I+'dense_source.cc'], mech=[('content extraction','DataBagImpl::ExtractContent'),('statistics','DataBagImpl::GetStatistics')],
  technique=_T, note='As G01.'+_SH),
 dict(id='G07', title='Object ids never clash and name what they are made from',
  statement='''Objects allocated anew, from whatever threads, never share an id with others, every id turned to text reads back as the same id, and sets of allocations hold exactly what
   was put in. Ids made from content are equal exactly when that content is, whatever the order of its fields, and say of which kind of object they are.''',
  over=['inputs','schedules'], text='every content, every number of objects, every concurrent use of the allocator',
  why='A clash or a lost bit merges two objects silently; a test sees only a few ids.', files=[_I+'object_id.cc', _I+'uuid_object.cc', _I+'op_utils/base62.cc', _I+'op_utils/new_ids_like.cc', _I+'op_utils/agg_uuid.cc'],
  mech=[('allocation of ids','AllocateSingleObject, Allocate, AllocationIdSet'),('ids from content','CreateUuidFromFields, CreateListUuidFromItemsAndFields, CreateDictUuidFromKeysValuesAndFields'),('text form','base62')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: random ids, contents and threads, with sets and texts kept as the model', note='Up to some thousand ids a case.'+_SH),
 dict(id='G08', title='Vector operators act on each item as they would alone',
  statement='''Selecting, inverting a selection, picking by position, expanding, collapsing, reversing, grouping, comparing, merging by presence and building of slices give for each item what
   its definition says of that item alone: missing items stay missing, types are kept in mixed slices, and objects of the result can still be found in their bags.''',
  over=['inputs'], text='every slice: any mix of types, any pattern of missing items, any shape',
  why='Slices have a compact form for each type mix and take separate paths by density and size.', files=[_I+'data_slice.cc', _I+'slice_builder.cc', _I+'op_utils/select.cc', _I+'op_utils/reverse.cc', _I+'op_utils/at.cc', _I+'op_utils/equal.cc', _I+'op_utils/has.cc', _I+'op_utils/collapse.h', _I+'op_utils/expand.h', _I+'op_utils/group_by_utils.h', _I+'op_utils/presence_or.h', _I+'op_utils/presence_and.h'],
  mech=[('slices of mixed types','DataSliceImpl, SliceBuilder'),('operators','SelectOp, AtOp, ReverseOp, PresenceOrOp, CollapseOp')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: every result compared item by item with the definition', note='Slices up to some hundred items.'+_SH),
 dict(id='G09', title='Common types are the least that hold all, and casts keep values',
  statement='''The common type of several types does not depend on their order or grouping, each of them can be turned into it, and no smaller type will do. Casting a slice gives for each item
   what casting that item alone gives, fails exactly if some item's cast fails, and to the common type of its items never fails.''',
  over=['inputs'], text='every set of types, every slice of mixed items and target type',
  why='The order of types and the casts are kept in separate tables; only comparing all pairs and values shows that they agree.', files=[_I+'casting.cc', _I+'casting.h', _I+'schema_utils.cc', _I+'op_utils/agg_common_schema.cc'],
  mech=[('lattice of types','CommonSchema'),('casts','schema::To*, CastDataTo')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: laws of the order checked on random sets, slices compared with their items', note='Primitive and object types.'+_SH),
 dict(id='G10', title='Extracting takes along all that can be reached, and nothing else',
  statement='''Extracting items into a new bag yields a bag in which everything reachable from them by their schemas reads as it did before, fallbacks included, and which holds nothing
   that cannot be reached; extracting again changes nothing, the source is left as it was, and later writes to it do not show.''',
  over=['inputs','histories'], text='every graph of entities, objects, lists, dicts and schemas, cyclic or not, over any chain of bags, and every selection of roots',
  why='Objects are copied in groups by schema and allocation with a fast path for whole allocations; which path is taken depends on the mix of types, schemas and sizes in the graph.',
  files=[_I+'op_utils/extract.cc', _I+'op_utils/extract.h', _I+'data_bag.cc', _I+'data_slice.cc'],
  mech=[('traversal in slices','ExtractOp, CopyingProcessor'),('whole allocations','GetMaybeFullAllocAttrWithRemoved, SetAttrFullAlloc')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: random graphs, with a canonical text of all that is reachable compared before and after', note='Graphs of up to some hundred objects in up to three bags; each object is reached under one schema.'+_SH),
 dict(id='G11', title='A clone is alike in all respects and shares no object',
  statement='''A deep clone of items is a graph of the same shape and values in which every object reached is a new one and shared objects are shared in the same way, and a shallow clone replaces
   only the roots; schemas made for a single object are made anew for its clone and others kept, and later writes to the original do not show.''',
  over=['inputs'], text='every graph of entities, objects, lists, dicts, cyclic or not, over any chain of bags, and every selection of roots',
  why='Aliasing left behind in a clone shows only for the one path by which it is reached.', files=[_I+'op_utils/deep_clone.cc', _I+'op_utils/extract.cc', _I+'op_utils/new_ids_like.cc', _I+'op_utils/traverser.h'],
  mech=[('deep clone','DeepCloneOp'),('shallow clone','ShallowCloneOp')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: random graphs, the canonical text of original and clone compared, and their ids', note='As G10.'+_SH),
 dict(id='G12', title='Ids derived from whole values are equal exactly for equal values',
  statement='''The id computed from a whole value is the same for two items exactly if they are alike by value all the way down, whichever bag, ids, order of creation or other items beside them,
   and differs for other seeds; values with cycles are refused or end, and never hang.''',
  over=['inputs'], text='every value: nested entities, objects, lists and dicts over any chain of bags',
  why='A digest that forgets one part or confuses two shapes makes different values equal, only for that part or shape.', files=[_I+'op_utils/deep_uuid.cc', _I+'op_utils/traverser.h', _I+'uuid_object.cc'],
  mech=[('bottom-up digest','DeepUuidOp'),('post-order traversal','Traverser')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: random graphs, ids of all pairs of items compared with equality by value', note='As G10.'+_SH),
 dict(id='G13', title='Comparing finds exactly the differences, and finding gives true paths',
  statement='''Comparing two values all the way down reports a difference exactly if they are not alike by value, cycles included, and every path it reports leads to items which differ. Looking through
   all that is reachable visits every object, and the path given for each leads to it.''',
  over=['inputs'], text='every pair of graphs, alike or changed anywhere, and every selection of roots',
  why='A difference that is passed over looks like equality; which one is passed over depends on kind and place.', files=[_I+'op_utils/deep_equivalent.cc', _I+'op_utils/deep_comparator.h', _I+'op_utils/deep_diff.cc', _I+'op_utils/object_finder.h', _I+'op_utils/traverse_helper.h'],
  mech=[('pairwise traversal','DeepComparator, DeepEquivalentOp'),('recording of differences','DeepDiff'),('paths','ObjectFinder')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: random graphs and changed clones, compared with a bisimulation and a walk along each path', note='As G10. Missing items at the end of a list or under a key only one side has are left open.'+_SH),
 dict(id='G14', title='Attributes read back what was written, under the schema, or are refused',
  statement='''Reading an attribute gives for each item what was last written to it, of the type the schema says (or, for objects with schemas of their own, of the smallest type that covers all), with the missing
   values kept; a write casts to the schema where that loses nothing, or else is refused and changes nothing. Items without the attribute are an error, or missing where that is asked for, and other
   items, attributes and copies are never affected.''',
  over=['inputs','histories'], text='every sequence of writes, removals and reads of attributes of entities, objects and schemas, of any shapes with repeated and missing items, one or several names at once, over any chain of bags',
  why='Data, schema and casts are combined in one path for each kind of schema; a combination that is off shows as a wrong or lost value only for its own mix of types.', files=[_R+'data_slice.cc', _R+'casting.cc', _R+'schema_utils.cc', _R+'internal/schema_utils.cc'],
  mech=[('write with cast','DataSlice::SetAttr, RhsHandler'),('read','DataSlice::GetAttr, GetAttrOrMissing, GetAttrWithDefault, HasAttr'),('removal','DataSlice::DelAttr')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: random programs compared step by step with an obvious model of bags, schemas and casts', note='As G01; reads of values that do not fit their schema are left open.'+_SH),
 dict(id='G15', title='Lists and dicts as slices behave like lists and dicts, item by item',
  statement='''Getting, setting, appending, replacing, removing and popping in slices of lists, and getting, setting and listing in slices of dicts, does for every item what the same operation on one list or dict would,
   negative and out-of-range indices, missing items and broadcast included, with values cast to the schema of items, keys and values. A refused operation changes nothing.''',
  over=['inputs','histories'], text='every sequence of operations on lists and dicts of any shapes, index types and ranges, over any chain of bags',
  why='The batched paths, index casts and broadcasts differ from the simple ones in code only.', files=[_R+'data_slice.cc', _I+'data_bag.cc', _I+'data_list.cc', _I+'dict.h'],
  mech=[('lists','DataSlice::GetFromList, SetInList, AppendToList, ReplaceInList, RemoveInList, PopFromList, ExplodeList'),('dicts','DataSlice::GetFromDict, SetInDict, GetDictKeys, GetDictValues')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: random programs compared step by step with an obvious model', note='As G01; setting at no present index with shapes that do not fit is left open.'+_SH),
 dict(id='G16', title='What is frozen never changes, and never counts as frozen too early',
  statement='''No operation changes what a frozen bag holds, all that would are refused, and no later change of the bag it was made from, or of copies, shows in it; freezing, copying, falling back to others and merging them
   all read as what they were made from, and merging a bag with itself changes nothing. A value counts as frozen exactly if all bags in it are, and what is kept beside a frozen bag stays the first that was put there.''',
  over=['inputs','histories'], text='every history of copies, freezing, chains of any length and changes of those that may change, and every value nested in tuples',
  why='Frozen bags share storage with those that go on changing; a share that is written to, or a missed check, changes what others rely on.', files=[_R+'data_bag.cc', _R+'data_bag.h', _R+'check_frozen.cc', _R+'object_factories.cc', _R+'data_slice.cc'],
  mech=[('freezing and forking','DataBag::Freeze, Fork, UnsafeMakeImmutable'),('refusal','DataBag::GetMutableImpl'),('fallbacks','VisitFallbacks, MergeFallbacks'),('check','CheckFrozen')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: random families of bags, each compared after each step with what it has to hold', note='As G01.'+_SH),
 dict(id='G17', title='New items hold what they were made of, and are new',
  statement='''Making entities, objects, lists and dicts (from values, of a shape, like another slice, by content, with given ids) gives items of the asked shape with new ids, or exactly the given ones, that
   hold the given values cast to the given schema, with everything reachable from the values taken over from their bags. Equal content gives equal ids, what cannot be made is refused, and neither the
   sources nor other items change.''',
  over=['inputs','histories'], text='every mix of shapes, schemas, ids and values from several bags, frozen or not',
  why='Adoption, casts, broadcasts and ids come together here; one that is left out shows only when its part is used later.', files=[_R+'object_factories.cc', _R+'adoption_utils.cc', _R+'uuid_utils.cc', _R+'casting.cc'],
  mech=[('entities and objects','EntityCreator, ObjectCreator, CreateUu, CreateUuObject'),('lists and dicts','CreateListShaped, CreateListLike, CreateNestedList, Implode, CreateDictShaped, CreateDictLike'),('adoption','AdoptionQueue')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: random programs compared with a model that makes the same items', note='As G01; casts of values that end up nowhere are left open.'+_SH),
 dict(id='G18', title='Bags that nobody changes, and ids, can be shared between threads',
  statement='''Threads that read, copy, freeze and merge the same bags at once, keep things beside a frozen one, and change only copies of their own, each see exactly what they would see alone, also when the first bag
   is changed after it was copied, without data races. Ids made in several threads never collide.''',
  over=['schedules','inputs'], text='every interleaving of reads, copies, changes of copies and new ids in any number of threads',
  why='Copies share storage and are completed lazily, ids come from blocks for each thread; a missing synchronisation shows in rare interleavings only.', files=[_R+'data_bag.h', _R+'data_bag.cc', _I+'data_bag.h', _I+'object_id.cc'],
  mech=[('lazy copy after a fork','DataBag::GetMutableImpl, FallbackFreeFork'),('kept metadata','DataBag::SetCachedMetadata'),('ids','Allocate, AllocateSingleObject')],
  technique='monitoring of the real C++ under ThreadSanitizer: random threads on shared bags, all reads compared with a model, ids compared', note='As G01.'+_SH),
 dict(id='G19', title='Taking values over from other bags brings all of them and nothing else',
  statement='''Taking values or whole bags over into a bag, in one step or through a queue, adds exactly what is reachable from each value and all of each whole bag, each bag once, keeps what was there, and refuses what
   contradicts it; the common bag of several is the only one if there is only one, and otherwise holds what they hold together. Bags taken as fallbacks read as all of them with the stated precedence, stubs keep
   the schemas of objects, lists with their items and dicts without theirs, and the sources never change.''',
  over=['inputs','histories'], text='every mix of values, bags that are copies of each other or contradict each other, and targets that hold some of it already',
  why='Everything that combines values of different bags goes through it; what is left out or taken twice shows only when it is read much later.', files=[_R+'adoption_utils.cc', _R+'adoption_utils.h', _R+'extract_utils.cc', _R+'data_bag.cc'],
  mech=[('queue','AdoptionQueue::AdoptInto, GetCommonOrMergedDb, GetBagWithFallbacks'),('stubs','AdoptStub'),('values','WithAdoptedValues')],
  technique='monitoring of the real C++ under AddressSanitizer and UBSan: random sets of values and bags, the result compared with a model that copies what is reachable', note='As G01; which value is found first among several fallbacks is left open.'+_SH),
]
