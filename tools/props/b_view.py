PROPS = [
 dict(id='V01', title='View operations act per item with prefix broadcasting',
  statement='''Mapping, comparing, masking, combining, looking up and aligning views gives, at every position, the plain Python result of
   the items at that position, where a view of lower depth is repeated along the deeper one only if its shape is a prefix of it; other
   shapes and implicitly boxed containers are refused. The function is called once per position in order, never for a missing item unless
   asked, missing stays missing, and values keep their type and identity.''',
  over=['inputs','programs'], text='every combination of jagged shapes, items and operations',
  why='The operator tests need the native module and check fixed small arrays; broadcasting bugs depend on the shape combination.',
  files=['py/koladata/ext/view/view.py','py/koladata/ext/view/clib.cc','py/koladata/ext/view/operators.py','py/koladata/ext/view/mask_constants.py'],
  mech=[('shape-checked recursion','clib.cc MapImpl'),('map_, align, expand_to','view.py')],
  technique='flat reference-model monitor over generated jagged arrays, with call-sequence recording',
  note='Held on the generated arrays; the native mapper is compiled from the tree with a 60-line stand-in for the missing Arolla Python helper header.'),
 dict(id='V02', title='View shape operations preserve items and produce the right nesting',
  statement='''Exploding, imploding, flattening, taking, grouping, collapsing, selecting and inverse-selecting yield exactly the documented
   items in the documented order and nesting, for any depth and ragged or empty rows. Imploding undoes exploding, selecting then
   inverse-selecting gives the masked original, grouping loses and duplicates nothing that has its keys, and mismatched arguments are refused.''',
  over=['inputs','programs'], text='every jagged array, dimension range, key set and filter',
  why='Fixed examples cannot cover dimension ranges times raggedness times filters.',
  files=['py/koladata/ext/view/view.py','py/koladata/ext/view/operators.py'],
  mech=[('flatten/select/group_by/inverse_select','view.py')],
  technique='flat reference-model monitor plus algebraic-law monitors',
  note='Held on the generated arrays. A filter value that is not a mask is only required to be refused where some item meets it.'),
 dict(id='V03', title='Views write exactly the addressed objects and reading changes nothing',
  statement='''Setting attributes or items and appending through a view changes exactly the addressed objects as if assigned one by one in
   order, skipping missing objects and keys and out-of-range positions, and refuses values deeper than the target. Reading operations leave
   every viewed object and view untouched, and a deep clone shares no mutable object with its source while keeping its aliasing.''',
  over=['inputs','histories'], text='every object graph with aliasing and every operation',
  why='Aliasing and repeated objects are not sampled by tests.',
  files=['py/koladata/ext/view/view.py','py/koladata/ext/view/operators.py'],
  mech=[('set_attrs/set_item/append','view.py')],
  technique='shadow-copy monitor with write logs and whole-graph snapshots',
  note='Held on the generated object graphs.'),
 dict(id='V04', title='The native view mapper never corrupts memory or leaks references',
  statement='''Whatever the arguments and whatever the callback does (raise at any call, drop references, collect garbage, re-enter), the
   native mapper returns a result or raises, never reads or writes out of bounds, uses freed memory or crashes. After each call, successful
   or not, every object has the reference count it should have.''',
  over=['inputs','fault_sequences'], text='every argument shape, malformed argument and callback failure point',
  why='No test watches memory or reference counts, and error paths are hit at one point at most.',
  files=['py/koladata/ext/view/clib.cc','py/koladata/ext/view/clib_module.cc'],
  mech=[('owned/borrowed reference discipline','clib.cc MapImpl')],
  observe=['sanitizer reports; reference counts and allocated blocks around each call'],
  technique='AddressSanitizer + UBSan build under hostile callbacks, reference-count conservation monitor',
  note='Held on the executed calls.'),
]
