_I = 'koladata/internal/op_utils/'
_O = 'koladata/operators/'
_F = 'koladata/functor/parallel/stream_filter_json.cc'
_SH = ' Arolla, the data slices and parts of abseil are replaced by stand-ins; the processors, the parser, the operators and the streams are the repository\'s own.'
_T = 'model-based monitoring of the real C++ under AddressSanitizer and UBSan: generated texts and cuttings against an independent JSON model'
_W = 'Tests have some dozens of texts; there are unboundedly many texts, and for each exponentially many ways of cutting it.'
PROPS = [
 dict(id='J01', title='How text is cut into chunks never changes a JSON stream result',
  statement='''Every operator on chunked JSON text yields the same text, or the same values where it yields values, whatever the chunks the input
   comes in: single bytes, empty and missing chunks included. No text, valid or not, makes one crash or touch memory it does not own.''',
  over=['inputs'], text='every text, every cutting, every operator on JSON streams',
  why=_W, files=[_O+'json_stream.cc', _I+'json_stream.cc', _O+'json_stream_parser.cc', _F], mech=[('incremental state machines','json_stream.cc *::Process'),('missing chunks','json_stream.cc, stream_filter_json.cc')],
  technique=_T, note='Texts up to some kilobytes; three cuttings each.'+_SH),
 dict(id='J02', title='Salvaged text is always valid JSON, and valid JSON keeps its meaning',
  statement='''Salvaging any text at all yields valid, newline-separated compact JSON, in ASCII if so asked, without NaN unless allowed, and nested no
   deeper than the limit. If the text was valid JSON within that limit, the values that come out are the same, numbers with unlimited precision.''',
  over=['inputs'], text='every byte sequence and every combination of options',
  why=_W, files=[_I+'json_stream.cc', _I+'json_stream.h'], mech=[('salvage state machine','JsonSalvageStreamProcessor')],
  technique=_T, note='Hostile texts up to some hundred tokens.'+_SH),
 dict(id='J03', title='Salvaging reads JSON5, Python and JavaScript variants as they mean',
  statement='''Salvaging text in the documented variants of JSON (JSON5, and the listed Python and JavaScript syntax: quotes, escapes, comments,
   numbers, atoms, tuples, trailing commas) yields exactly the values which that text denotes.''',
  over=['inputs'], text='every combination of the documented syntax',
  why=_W, files=[_I+'json_stream.cc', _I+'json_stream.h'], mech=[('string, number, comment and base rules','Process*Rules')],
  technique=_T, note='Two deviations from JSON5 in unquoted keys are known findings.'+_SH),
 dict(id='J04', title='Reshaping a JSON stream yields exactly the values it should',
  statement='''Taking the first values of a JSON stream, selecting values, imploding them into an array, exploding arrays, taking an array element,
   splitting into one chunk per value and prettifying yield exactly the documented values, in order and none twice, with their text unchanged
   but for whitespace. Taking the first values ends as soon as the last of them has come.''',
  over=['inputs'], text='every stream of valid JSON, every argument',
  why=_W, files=[_I+'json_stream.cc', _O+'json_stream.cc'], mech=[('one processor per operator','json_stream.cc')],
  technique=_T, note='Streams of up to six values, nested up to 90 deep.'+_SH),
 dict(id='J05', title='Extraction from JSON streams finds exactly the values at a path',
  statement='''Extracting by a key or by a path yields, for each value of the stream, exactly the values at that place, in order, with their text
   unchanged: keys are compared by what they denote and not by how they are escaped, and keys of nested values never match.''',
  over=['inputs'], text='every stream of valid JSON, every key and set of paths',
  why=_W, files=[_I+'json_stream.cc', _O+'json_stream.cc'], mech=[('path stack','JsonExtractValuesStreamProcessor')],
  technique=_T, note='As J04.'+_SH),
 dict(id='J06', title='Quoting and unquoting JSON strings invert each other',
  statement='''Quoting any text yields one valid JSON string that denotes this text, and unquoting yields the text of all strings of a stream in order,
   so that unquoting what was quoted gives the text back.''',
  over=['inputs'], text='every text',
  why=_W, files=[_I+'json_stream.cc'], mech=[('escaping','JsonQuoteStreamProcessor'),('unescaping','JsonUnquoteStreamProcessor')],
  technique=_T, note='As J04.'+_SH),
 dict(id='J07', title='Filtering JSON finds values at their paths in every accepted form',
  statement='''The incremental parser and the filters on it report every value at its path, in order, as valid compact JSON that denotes what the text
   does, also where it uses the tolerated forms (single quotes, unquoted keys, bare words, line breaks in strings, trailing commas).
   A string streamed out comes out decoded and whole. Text which is cut short or has unbalanced brackets is reported as an error.''',
  over=['inputs'], text='every text in the accepted forms, every path and every cutting',
  why=_W, files=[_O+'json_stream_parser.cc', _O+'json_stream_parser.h', _F], mech=[('parser','JsonStreamParser'),('filters','StreamFilterJsonHooks, StreamStringFromJsonHooks')],
  technique=_T, note='As J04.'+_SH),
 dict(id='J08', title='JSON stream operators survive every schedule, error and cancellation',
  statement='''Whatever the schedule of writer, executor and reader, an operator on a JSON stream yields what it yields when run at once, and ends the
   same way: with the error of its input, after which nothing more is written, or refusing an item that is not a string. Cancelled, abandoned or dropped by its executor it yields a
   beginning of that and ends with an error instead of success or never.''',
  over=['schedules','histories'], text='every schedule, every point of failure or cancellation',
  why='Tests run one schedule per execution; the guarantee is about all of them.', files=[_O+'json_stream.cc', _F, 'koladata/functor/parallel/basic_routine.cc'],
  mech=[('hooks run by a basic routine','StreamProcessorHooks, StreamFilterJsonHooks')],
  technique='controlled-schedule exploration of the real C++ under ASan/UBSan, and free threads under ThreadSanitizer, with trace oracles',
  note='Held on the explored schedules.'+_SH),
]
