"""What decides each property: contracts (module.Class), lemmas and the bounded probe next to them."""
from .contracts import scan, layout, schema, prog, printer, fields, token, read, values, base64, streams, obf, messages, jsonio

TRUST = ' Trusted: clang -O0 IR as the meaning of the source, the IR verifier irv/, z3, the library contracts of irv/stl.py.'
B = 'bounded check (no contract yet); contracts to follow.'
NEXT = ['token.ParseNumber', 'token.ParseIdentifier', 'token.Next', 'token.Construct', 'token.Expect', 'token.TokError']
IGN = ['token.IgnoreArray', 'token.IgnoreObject', 'token.IgnoreValue']
INTS = ['read.ReadInt', 'read.ReadUInt', 'read.ReadLong', 'read.ReadULong', 'read.ReadBool']
FLOATS = ['read.ReadFloat', 'read.ReadDouble']

_isf = lambda n: 'Float' in n or 'Double' in n
NUMS = [n for n in values.WRITES + values.READS if 'Str' not in n]
INT_IO = [n for n in NUMS if not _isf(n)]
FLOAT_IO = [n for n in NUMS if _isf(n)]


def bounded(pid, what=''):
    return dict(level='exploration', probes=[pid], contracts=[], lemmas=[], technique='bounded check (stand-in)', note='bounded: ' + (what or 'inputs enumerated and drawn by the probe; no contract yet.'))

PRINTER = list(printer.PRINTER)
VALUEOPS = (['base64.Empty', 'base64.Clear', 'base64.Equal', 'base64.Swap'] + list(values.WRAPOPS) + messages.VECOPS + messages.MSGOPS + messages.ENTOPS + messages.COPIES)

WRITE_ALL = list(jsonio.VECWRITE + jsonio.MSGWRITE + jsonio.DOCWRITE)
READ_ALL = list(jsonio.VECREAD + jsonio.MSGREAD + jsonio.DOCREAD)
SCH = ' The code generated for schemas/all.proto (every field kind, repeated, nested, transient and renamed fields) is what is proved; other schemas by bounded check.'

PROPS = {
    'P01': dict(level='proof', probes=['P01'],
                contracts=['strings.ParseString', 'strings.StringWrite', 'values.StrRead', 'values.StrFieldRead', 'values.StrFieldWrite'],
                lemmas=['strings.TakeAll', 'strings.DecodeAgrees', 'strings.RoundTrip'],
                note='Writer and reader of string literals proved for all strings and inputs, round trip by lemma; the member around the value by bounded check.' + TRUST),
    'P02': dict(level='proof', probes=['P02'], contracts=['strings.StringWrite'], lemmas=['strings.TakeAll'],
                note='json<std::string>::write proved for every string against an RFC 8259 literal automaton.' + TRUST),
    'P03': dict(level='proof', probes=['P03'], contracts=['strings.ParseString'], lemmas=[],
                note='tokenizer::parse_string proved for every input against a decoding function.' + TRUST),
    'P04': dict(level='proof', probes=['P04'], contracts=['strings.StringWrite', 'values.StrFieldWrite'] + WRITE_ALL, lemmas=[],
                note='json<std::string>::write proved to refuse exactly invalid UTF-8 under ensure_ascii, and the writers of repeated fields and messages up to serialize to fail exactly when one of the values to be written is refused.' + SCH + TRUST),
    'P05': dict(level='proof', probes=['P05'], contracts=base64.ALL, lemmas=['strings.TakeAll', 'base64.RoundTrip', 'base64.Literal'],
                note='json<bytes> read and write proved for every text and vector against a decoder and an encoder of standard base64; round trip by lemma for every length.' + TRUST),
    'P06': dict(level='proof', probes=['P06'], contracts=INTS + INT_IO, lemmas=['values.NumToken', 'values.NumRoundTrip'],
                note='json<T> and json<field<T>> read and write of every integer type and bool proved for every value and token; round trip by lemma over the library contract of to_string/strtol; the member around the value by bounded check.' + TRUST),
    'P07': dict(level='proof', probes=['P07'], contracts=FLOATS + FLOAT_IO, lemmas=['values.NumToken', 'values.FloatRoundTrip'],
                note='json<float/double> and their wrappers proved to convert in the "C" locale with max_digits10 digits and to leave the process locale as it was; round trip by lemma over the library contract of printf/strtod.' + TRUST),
    'P08': dict(level='proof', probes=['P08'], contracts=list(jsonio.MSGWRITE + jsonio.DOCWRITE + jsonio.MSGREAD + jsonio.DOCREAD), lemmas=[],
                note='json<T>::write and read of every message proved against the text and the object a value or document stands for, under both settings of serialize_null.' + SCH + TRUST),
    'P09': dict(level='proof', probes=['P09'], contracts=list(fields.NUMBER) + list(fields.STRING), lemmas=[],
                note='Every method of field<T> (7 element types) and string_field proved for all states and values.' + TRUST),
    'P10': dict(level='proof', probes=['P10'], contracts=list(jsonio.VECWRITE + jsonio.VECREAD) + ['jsonio.ArrPairRead', 'jsonio.ArrIntRead', 'jsonio.ArrPairWrite', 'jsonio.ArrIntWrite'], lemmas=[],
                note='read and write of repeated fields proved for every length and document, for 8 element types of std::vector; std::list by bounded check.' + TRUST),
    'P11': dict(level='proof', probes=['P11'], contracts=IGN + list(jsonio.MSGREAD), lemmas=['token.Progress'],
                note='ignore_value/ignore_array/ignore_object proved to skip exactly one value or to fail, and json<T>::read of every message to step over a member of another name that way and keep the object.' + SCH + TRUST),
    'P12': dict(level='proof', probes=['P12'], contracts=NEXT + IGN + READ_ALL, lemmas=['token.Progress'],
                note='The tokenizer and every reader up to deserialize proved free of undefined operations and terminating on every input, and deserialize to return true exactly when it leaves no error code.' + SCH + TRUST),
    'P13': dict(level='proof', probes=['P13'], contracts=NEXT + INTS + FLOATS + streams.SOURCES + READ_ALL, lemmas=['streams.Positions'],
                note='Token positions, the position of every error of the tokenizer and of the readers up to deserialize, and the line and column kept by each of the four input streams proved.' + SCH + TRUST),
    'P14': dict(level='proof', probes=['P14'], contracts=streams.SOURCES + streams.READERS, lemmas=['streams.Positions'],
                note='Each of the four input streams proved to implement the interface the readers are proved against, every deserialize overload proved to read the given bytes and no others and to restore the flags of a std::istream; that readers use nothing but the interface is by bounded check.' + TRUST),
    'P15': dict(level='proof', probes=['P15'], contracts=streams.SINKS + streams.WRITERS, lemmas=[],
                note='Each of the four output streams and every serialize overload proved for every text written and every buffer length.' + TRUST),
    'P16': dict(level='proof', probes=['P16'], contracts=obf.ALL, lemmas=['strings.TakeAll', 'obf.Denotes', 'obf.Reveals'],
                note='obfuscate() and reveal() proved for every name, with a decoder of C++ literals between them; where the generated code uses them is by bounded check.' + TRUST),
}
PROPS['P17'] = dict(level='proof', probes=['P17'], contracts=list(scan.SCAN), lemmas=scan.LEMMAS + layout.LAYOUT,
                    note='The tokenizer proved for every text: it ends, every call gives the token the grammar says or refuses (a stray character, an unterminated string or comment), and lemmas: inserted layout does not change the tokens. '
                         'The contracts of the parser, up to Proto3::parse (check of P18), make what it accepts and builds a function of the tokens alone; the contract of main (check of P24) makes the result of a run a function of that.' + TRUST)
PROPS['P18'] = dict(level='proof', probes=['P18'], contracts=list(schema.SCHEMA), elsewhere=['scan.Next', 'scan.TzUnget'], lemmas=list(schema.LEMMAS),
                    note='The parser proved for every list of tokens: it accepts exactly the sentences of the grammar whose field numbers are in range and whose field numbers, field names and message names are distinct, '
                         'and builds the fields, options and messages the grammar says, up to Proto3::parse with the references resolved; that an accepted schema has valid and distinct numbers and names is a lemma. Numbers are what strtol reads.' + TRUST)
PROPS['P24'] = dict(level='proof', probes=['P24'], contracts=prog.PROG + ['top.Generate', 'top.Inclusions'], elsewhere=['schema.Whole', 'top.Model', 'printer.Print', 'printer.PrintValues', 'printer.PrintText', 'printer.MakePrinter'], lemmas=[],
                    assume=['what the system answers (whether a file opens, can be read, is written in full) is left open; the file streams, exit and std::sort behave as the C++ standard says'],
                    note='main proved for every number of arguments, every text of the schema and every failure of a file: it ends with status 0 exactly when the schema was accepted and the header that the generator prints was written and flushed in full '
                         'to the output asked for, and every other end has a non-zero status and a message on standard error. It calls Proto3::parse (schema.Whole, proved by the check of P18) and CppGenerator::generate, proved here to print the header that the schema stands for.' + TRUST)
PROPS['P19'] = dict(level='proof', probes=['P19'], contracts=['top.SortAll', 'top.Model', 'schema.Find', 'schema.FieldP', 'schema.Whole'], elsewhere=['emit.MessageText', 'printer.Print', 'printer.PrintValues', 'printer.PrintText', 'schema.Proto', 'schema.FieldOptions', 'scan.Next', 'scan.TzUnget'],
                    lemmas=['schema.' + x for x in ('Identities', 'Resolving', 'HeapL', 'Found', 'RefsIn', 'Lead')] + ['order.' + x for x in ('Reaches', 'Circle', 'Stays', 'DoneStays', 'Further', 'Apart', 'Fewer', 'Found', 'Known', 'NoCircle')],
                    assume=['what sort() asks of a schema, that references lead to its messages, is proved here of what Proto3::parse accepts (contract schema.Whole, lemma schema.Lead); main, which hands the one to the other, is proved by the check of P24'],
                    note='sort() proved for every schema: the messages come in an order in which each is after all it refers to, each once, none missing, and an exception means a circular reference; '
                         'an ordered list has no circular reference (lemma); generateModel prints them in that order. findMessage, parseField and Proto3::parse proved to resolve every reference or refuse; parseProto, which gathers the messages, by the check of P18.' + TRUST)
PROPS['P20'] = dict(level='proof', probes=['P20'], contracts=['gen.FieldType', 'gen.NativeType', 'gen.NativePackage', 'emit.Struct', 'schema.FieldP'], elsewhere=['schema.FieldOptions', 'schema.Find', 'scan.Next', 'scan.TzUnget', 'emit.Namespace', 'printer.Print', 'printer.PrintValues', 'printer.PrintText'],
                    lemmas=['strings.TakeAll'],
                    note='fieldType proved to give the documented type for every field, nativePackage for every package, and the structure of a message to have one member of that type for every field; that the parser gives a field the type written is the contract of parseField, proved here.' + TRUST)
PROPS['P21'] = dict(level='proof', probes=['P21'], contracts=['emit.ReadField', 'emit.Write', 'emit.Index', 'emit.Serializer', 'schema.Option', 'schema.FieldOptions', 'schema.StandardOption'], elsewhere=['scan.Next', 'scan.TzUnget', 'emit.Empty', 'emit.Clear', 'emit.Equal', 'emit.Swap', 'gen.ObfuscatedLiteral', 'gen.NativePackage'],
                    lemmas=['emit.Distinct'],
                    note='read_field, write and index proved to be printed for exactly the persistent fields, with the same number and JSON name in each, and to refuse a name met twice; distinct names by lemma; the options of fields and schemas are read as written (parseOption, parseFieldOptions, parseStandardOption); '
                         'the printed C++ itself is proved for schemas/all.proto (P08, P11) and by bounded check for others.' + TRUST)
PROPS['P23'] = dict(level='proof', probes=['P23'], contracts=PRINTER + ['emit.Namespace', 'emit.Entity', 'emit.EntityJson', 'emit.MessageText'],
                    elsewhere=['emit.Struct', 'emit.Serializer', 'gen.NativePackage'], lemmas=[],
                    note='Printer proved for every template and every value: placeholders are replaced by the values, which are carried verbatim, and nothing else changes; what is printed around the names of a message proved for every message.' + TRUST)
PROPS['P22'] = dict(level='proof', probes=['P22'], contracts=VALUEOPS + ['emit.Empty', 'emit.Clear', 'emit.Equal', 'emit.Swap'], elsewhere=['printer.Print', 'printer.PrintValues', 'printer.PrintText'], lemmas=[],
                    note='clear, empty, equal and swap of every kind of field, repeated field and message of the schema schemas/all.proto, its constructors and copies, proved for all values; '
                         'for every other schema these functions are proved to be printed with one term for every field, transient ones included.' + TRUST)
PROPS['P16']['contracts'] = PROPS['P16']['contracts'] + ['gen.ObfuscatedLiteral', 'emit.Write', 'emit.Index']
PROPS['P16']['elsewhere'] = ['gen.IsTransient', 'gen.JsonName', 'printer.Print', 'printer.PrintValues', 'printer.PrintText']
PROPS['P16']['note'] = ('obfuscate() and reveal() proved for every name, with a decoder of C++ literals between them, and the generated code proved to use them for every JSON name it writes or compares.' + TRUST)

NOT_APPLICABLE = {}
