#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'src/kiutils/'
ITEMS = [I + 'items/' + x + '.py' for x in ('brditems', 'common', 'dimensions', 'fpitems', 'gritems', 'schitems', 'syitems', 'zones')]
DOCF = [I + x + '.py' for x in ('board', 'dru', 'footprint', 'libraries', 'schematic', 'symbol', 'wks')]
TESTS = 'The tests compare about 70 fixed sample files with stored expectations'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level='exploration'):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)),
              technique, note, level))


prop('C01', 'The parser returns exactly what an S-expression text says',
     'Parsing any well-formed S-expression text yields the same nesting and the same items in the same order as the text: quoted strings as '
     'text with escaped quotes resolved and every other character unchanged, unquoted words as text, and unquoted numbers (integers of up to '
     '4000 digits, decimals, signed exponents) as numbers of exactly that value. Any kind and amount of ASCII white space between tokens, no white space '
     'next to a bracket, any length and any depth make no difference. Words that merely look similar to numbers (hexadecimal stamps such as '
     '5e123456, dates, 3V3, digits of other scripts) stay text.',
     ['inputs'], 'every well-formed text; excluded: strings ending in a backslash (known finding), spellings +5, 5. and .5',
     TESTS + '; the tokeniser is a regular expression whose corner cases (adjacent brackets, escapes, exponents, line breaks) they do not enumerate.',
     [I + 'utils/sexpr.py'], [('token expression and bracket stack', I + 'utils/sexpr.py:parse_sexp')], ['result of parse_sexp'],
     'differential monitor: parse results against an independent reference reader on generated, scrambled, deep and long texts',
     'Every parse_sexp result is compared with an independent character-level reader and, for generated trees, with the generator itself. '
     'Trusts kv/sx.py. Says nothing about texts not generated.')
prop('C02', 'Truncated or unbalanced input is rejected, never loaded in part',
     'A text or file that is empty, cut off, has an unclosed, surplus or misplaced bracket or an unterminated string, or goes on after its expression '
     'is closed, is rejected with an exception by the '
     'parser and by every file loader, also when Python runs with assertions disabled. A rejected input leaves the file as it was and does not '
     'influence later loads.',
     ['inputs', 'configurations', 'histories'], 'every cut position, every removed, added or moved bracket and any trailing text of any document; with and without python -O',
     'No test feeds damaged input or runs with -O.',
     [I + 'utils/sexpr.py'] + DOCF, [('bracket stack and quote checks', I + 'utils/sexpr.py:parse_sexp')], ['exception raised by parse_sexp / from_file'],
     'fault workload (cuts, removed and added brackets) under python, -O and -OO with a must-raise monitor',
     'Inputs are judged damaged by the reference reader. A string cut right after an escaped quote is a known finding and left out.')
prop('C03', 'Loading keeps every token of the file in the right field',
     'Loading the text of any KiCad board, footprint, schematic, symbol library, library table, design rule or worksheet file, or of any single '
     'item in one, gives an object whose fields hold exactly the values written in the text: every documented token, flag, number, text and '
     'list element, and the documented default (usually unset) where the token is absent. The order in which named child tokens appear, the layout and the '
     'quoting of words make no difference, and taking a token out of a text changes nothing but the value it stood for.',
     ['inputs'], 'every combination of present and absent tokens, every value, every order of named children, for all data classes',
     TESTS + ' and mostly compare saved text, so a token read into the wrong field, or only in one order, goes unnoticed.',
     DOCF + ITEMS, [('from_sexpr of every class', 'src/kiutils/**'), ('from_file of the document classes', 'src/kiutils/*.py')],
     ['fields of the returned objects'],
     'model-based monitor: loaded object trees compared field by field with the specification model the text was generated from',
     'The declarative format specification (kv/spec.py) generates model and text; kiutils is only compared with it. Trusts the specification.')
prop('C04', 'Saving loses nothing: saved objects load back equal',
     'Any object of the library, however it was made (constructed, filled attribute by attribute, loaded, copied), is saved as text that '
     'contains each of its values as the token the KiCad format prescribes, and loading that text or file gives an object equal to the saved '
     'one in every field. Values that happen to be zero, empty or false are kept apart from values that are not set.',
     ['inputs'], 'every field value in the documented domain of every class, alone and inside documents, via text and via files',
     TESTS + '; objects built by a program, zero or empty optional values and rarely used tokens never occur in them.',
     DOCF + ITEMS, [('to_sexpr of every class', 'src/kiutils/**'), ('to_file of the document classes', 'src/kiutils/*.py')],
     ['text returned by to_sexpr', 'written files', 'fields after reload'],
     'model-based round-trip monitor: saved text read by a reference reader against the specified token tree, reloaded fields against the model',
     'Same trusted specification as C03; values are drawn from the documented domains plus constants found in the code.')
prop('C05', 'Files are byte-stable: load and save changes nothing',
     'Loading a file that is in the canonical layout and saving it again reproduces it byte for byte, and repeating this any number of times '
     'never changes a byte. A file with the same content in another layout or token order is normalised to the canonical text by the first '
     'save and is stable from then on.',
     ['inputs', 'histories'], 'every canonical document and item text, every relayout of it, repeated load/save chains',
     'The tests check this for their sample files only.',
     DOCF + ITEMS, [('layout produced by to_sexpr', 'src/kiutils/**')], ['bytes of saved files and texts'],
     'byte-level monitor over load/save chains against the canonical text of the format specification and the shipped sample files',
     'Canonical layout is defined by kv/spec.py, which agrees with all 88 sample files of the repository. Leading zeros of unquoted digit strings are a known finding.')
prop('C06', 'Serialised text is always well-formed KiCad syntax',
     'Serialising any object, with any indentation and with or without final newline, gives one balanced expression with the same tokens in '
     'the same order, ending in its closing bracket or in exactly one newline as requested; without arguments the documented indentation and newline '
     'are used. Unset optional values, including those of freshly '
     'created default objects, are left out and never appear as Python constants such as None.',
     ['inputs', 'configurations'], 'every object, indent and newline setting (design rules: fixed file layout)',
     TESTS + ', almost always with default indentation and fully populated objects.',
     DOCF + ITEMS, [('to_sexpr(indent, newline) of every class', 'src/kiutils/**')], ['text returned by to_sexpr'],
     'well-formedness monitor: every serialised text parsed by the reference reader and compared with the specified token tree for varied indent/newline',
     'Trusts kv/sx.py and kv/spec.py. Dimension, Zone and the text boxes refuse to be written while incomplete; that is not judged.')
prop('C07', 'An edit changes exactly what was edited',
     'After any sequence of edits to a loaded, constructed or copied document (changing, setting or clearing a value, adding, inserting, '
     'removing, replacing, reordering or copying list items, adding or removing mapping entries, at any depth), each save contains exactly the '
     'edited content. Everything that was not edited stays byte for byte the same, also when edits, saves and reloads alternate.',
     ['histories'], 'every history of edits, saves and reloads on every document type and item',
     'The tests make a handful of single edits to sample files.',
     DOCF + ITEMS, [('plain data fields written by to_sexpr', 'src/kiutils/**')], ['text after every step'],
     'history monitor: random edit histories mirrored in the specification model, text compared after each step',
     'Fields that only make sense together (e.g. paper size and its dimensions) are edited by replacing the object that holds them.')
prop('C08', 'Text values are opaque: any text survives and cannot inject tokens',
     'Any text put into a text field (quotes, brackets, backslashes, line breaks, keywords, numbers, format characters, any Unicode) is '
     'written as one quoted token and comes back unchanged after loading, from text and from files. No text can add, remove or change other '
     'tokens or fields.',
     ['inputs'], 'every text not ending in a backslash, in every text field of every class; carriage returns only without files',
     'The tests use plain texts and one or two with quotes.',
     [I + 'utils/strings.py', I + 'utils/sexpr.py'] + DOCF + ITEMS, [('quote escaping', I + 'utils/strings.py:dequote'), ('string unescaping', I + 'utils/sexpr.py')],
     ['saved text', 'fields after reload'],
     'injection monitor: hostile strings in all or in single text fields, saved text judged by the reference reader and reloaded fields by the model',
     'Text ending in a backslash is a known finding and excluded.')
prop('C09', 'Saving and loading are pure and deterministic',
     'Saving does not change the object and loading does not change the expression it is given; neither prints anything or changes settings of '
     'the process (working directory, environment, recursion limit), and doing either again gives the same result. '
     'The result depends on nothing but the input: not on hash seed, working directory, environment variables, time, time zone, locale, platform or what was done before.',
     ['inputs', 'histories', 'configurations'], 'every object and text; processes that differ in hash seed, time, time zone, directory and locale',
     'The tests serialise each object once, in one environment.',
     DOCF + ITEMS + [I + 'utils/sexpr.py'], [('to_sexpr / from_sexpr without side effects', 'src/kiutils/**')],
     ['complete snapshots of objects and expressions before and after', 'digests of the same cases from differently configured processes'],
     'snapshot monitor around every save and load, plus an offline comparison of event logs from eight differently configured processes',
     'The default time stamp of a footprint made without one is not part of the comparison.')
prop('C10', 'Objects are independent: no shared state, no residue, thread-safe use',
     'Objects share no mutable state unless the user puts the same object in two places: changing anything in one object, default object, '
     'new document or loaded document never shows up in another object, in the expression it was loaded from, in later loads of the same text or in '
     'later default objects. Failed loads leave no trace, and threads working on their own documents do not influence each other.',
     ['histories', 'schedules', 'inputs'], 'every pair of objects of every class; every mutation below one of them; interleavings of 2 to 4 threads',
     'The tests never hold two objects of a class and change one, and are single-threaded.',
     DOCF + ITEMS, [('field(default_factory=...) of the data classes', 'src/kiutils/**')],
     ['identity of reachable lists, mappings and objects', 'snapshots after mutation', 'results in threads'],
     'aliasing monitor (identity graph, mutate-everything-and-compare), failed-load residue monitor, threads with microsecond switch interval',
     'Thread interleavings are sampled, not enumerated.')
prop('C11', 'File loading and saving touch the right file, path and encoding',
     'Loading a file remembers its path, decodes it with the requested encoding, or that of the platform if none is named (rejecting bytes that are invalid in it) and writes nothing; saving writes exactly the serialised text '
     'in the requested encoding to the given path, or else to the remembered one, creates or changes no other file, closes it and leaves the '
     'remembered path alone when a path is given. Loading something that is not a file, or saving without any known path or below something that is not a directory, raises and creates nothing.',
     ['inputs', 'histories', 'configurations'], 'every document type, content, encoding, path form (text, path-like, relative) and history of loads and saves',
     'The tests save to one fixed path with default or UTF-8 encoding and look at the content only.',
     DOCF, [('from_file / to_file / filePath', 'src/kiutils/*.py')], ['directory contents', 'audit events', 'open descriptors', 'filePath'],
     'file-system monitor: directory snapshots, open-for-write audit events, descriptor table and path attribute over load/save histories',
     'Loaded content is judged with the specification model. Runs in a scratch directory.')
prop('C12', 'A failed save leaves the existing file intact',
     'If saving a document to a file fails because a part of it cannot be serialised, because the text cannot be represented in the requested '
     'encoding or because the encoding is unknown, the exception is reported, the target file keeps its previous content (or still does not '
     'exist), no other file appears and the object is unchanged. A later save works.',
     ['crash_points', 'fault_sequences', 'inputs'], 'failure at every nested serialisation step of every document type, every unencodable text',
     'No test makes a save fail.',
     DOCF + [I + 'utils/strings.py'], [('serialise and encode before opening the file', 'to_file of the document classes')],
     ['directory contents after the exception'],
     'fault injection at every nested serialisation call (entry and exit), poisoned values, unencodable text; directory compared byte by byte',
     'All fault points of documents with up to 40 nested calls are enumerated, larger ones are sampled. I/O errors of the device are out of scope.', 'fault_enumeration')
prop('C13', 'Library identifiers, nicknames, entry and unit names stay consistent',
     'For footprints, library symbols and schematic symbols, reading the identifier after setting it gives the same identifier; setting '
     'nickname:entry splits it at the first colon, a plain name clears the nickname, a symbol name ending in _unit_style sets unit and style as '
     'integers, and later changes of nickname or entry show in the identifier. Setting a symbol identifier renames all its units, and the '
     'identifier survives saving and loading.',
     ['histories', 'inputs'], 'every history of identifier, nickname and entry changes; nicknames without colon',
     'The tests set two or three identifiers once.',
     [I + 'footprint.py', I + 'symbol.py', I + 'items/schitems.py'], [('identifier property', 'Footprint / Symbol / SchematicSymbol libId')],
     ['identifier, nickname, entry, unit and style after each step', 'saved text'],
     'reference-model monitor over histories of identifier operations, including saved and reloaded identifiers',
     'Nicknames with colons are outside the domain; entry names of symbols are set through the identifier.')
prop('C14', 'New documents and items are complete, valid and carry their arguments',
     'Every data class called without arguments gives the documented default values, and with arguments (by position or by name) an object that '
     'carries them verbatim. Every create function returns an object that carries its arguments verbatim with the documented skeleton (layers, net 0, sheet '
     'instance, texts, properties, version, generator), has no file path, can be saved, loads back equal and can be extended like a loaded '
     'one. Unsupported footprint types are rejected.',
     ['inputs'], 'every argument of the constructors; every argument text of the create functions of boards, schematics, footprints, symbols, library tables, rules and worksheets',
     'The tests call each create function once with one set of arguments.',
     DOCF + [I + 'misc/config.py'], [('create_new', 'src/kiutils/*.py')], ['fields of the new object', 'saved text', 'reloaded fields'],
     'contract monitor on every create call: arguments, skeleton, saved text by the reference reader, reload and edit by the model',
     'The expected skeleton is written down in kv/checks.py; the documented defaults are recorded in kv/defaults.json, reviewed against the docstrings.')
prop('C15', 'Input of the wrong kind is rejected, never misread',
     'Every item and document class raises an exception when asked to load something that is not a list or an expression with another head '
     'token, even if the rest of the expression would fit; every document class raises when given a file of another document type.',
     ['inputs'], 'every class, every non-list value, every other head, every other document type; classes without a head token of their own only reject non-lists',
     'The tests check one wrong head per class with an otherwise empty expression at most.',
     DOCF + ITEMS, [('type and head checks at the start of from_sexpr', 'src/kiutils/**')], ['exception raised'],
     'must-raise monitor over wrong values, complete expressions under wrong heads and files of other types',
     'Layer table entries and positions have no head of their own; only non-lists are judged for them.')
prop('C16', 'Legacy module footprints load completely and are upgraded once',
     'Footprints written in the KiCad 5 form (head module, names and texts without quotes or consisting of digits, attribute virtual, arcs given by an angle), alone or on a board, load with all '
     'their content and order, are saved in the current form, and further load/save rounds change nothing.',
     ['inputs', 'histories'], 'every footprint content in the old form, alone and mixed with new ones on boards; numeric names in canonical spelling',
     'The tests contain a single legacy footprint.',
     [I + 'footprint.py', I + 'board.py'], [('module head accepted', 'Footprint.from_sexpr, Board.from_sexpr')], ['fields', 'saved text'],
     'model-based monitor on generated legacy texts: fields, upgraded text and stability over further rounds',
     'Same trusted specification as C03.')
prop('C17', 'Numbers keep their exact value',
     'Every numeric token, however spelled (integers of up to 4000 digits, trailing zeros, sign, signed exponent), is loaded as a number of exactly '
     'that value, and every number set by a program is saved so that it is read back with exactly that value. A number never turns into text, '
     'gets rounded, truncated or dropped because it is zero, negative, tiny or large.',
     ['inputs'], 'every integer and every finite float in every plain numeric field; fixed-decimal fields with values of that precision',
     'The sample files only contain short decimals.',
     [I + 'utils/sexpr.py'] + DOCF + ITEMS, [('number tokens', I + 'utils/sexpr.py'), ('numbers formatted by to_sexpr', 'src/kiutils/**')],
     ['numeric fields', 'number tokens in saved text'],
     'numeric differential monitor: spelled variants and computed values through load and save, compared by exact value with the model and reference reader',
     'Infinite and undefined floats and exponents beyond the range of floats are outside the domain.')
prop('C18', 'Collections keep their length, order and duplicates',
     'Lists and mappings of any length come through loading and saving with all their elements, in their order, including equal elements and '
     'elements of different kinds in one list, and every token of the input occurs exactly as often in the output.',
     ['inputs'], 'lists up to some hundreds (thorough: thousands) of elements, repeated equal elements, mixed kinds, in every collection of every class',
     'The sample files have short lists of distinct elements.',
     DOCF + ITEMS, [('append in document order', 'from_sexpr'), ('iteration in list order', 'to_sexpr')], ['list fields', 'token counts of input and output'],
     'conservation and ordering monitor: token counts in = out, list order and multiplicity in memory and in saved text',
     'Pins of schematic symbols are a mapping by number; two pins with the same number are a known finding.')
prop('C19', 'Unknown tokens of other KiCad versions are skipped without harm',
     'Named tokens this library does not know at their place (also names that mean something elsewhere), anywhere among the named children of any item or document, never make loading fail, never change '
     'any known value, and the saved text is the one that would have been saved without them.',
     ['inputs'], 'every position among named children at any depth, any content of the unknown token; where the format tells children apart by position only (pin effects, model offset/scale/rotate), after them',
     'No test has unknown tokens at chosen positions.',
     DOCF + ITEMS, [('items not recognised are passed over', 'from_sexpr of every class')], ['fields', 'saved text'],
     'injection monitor: foreign tokens inserted at random positions, loaded fields and saved text compared with the model without them',
     'Collections whose children all have one kind (points, members, layer tables) are not injected into.')
prop('C20', 'Objects behave as values: equality, copies, pickles',
     'Two objects of a class with the same content are equal and any difference in content makes them unequal; deep copies and pickles are '
     'equal to the original, serialise to the same text and share nothing with it.',
     ['inputs', 'histories'], 'every pair of equal objects and every single edit of one of them',
     'The tests do not compare or copy objects.',
     DOCF + ITEMS, [('dataclass equality', 'src/kiutils/**')], ['result of ==, !=, copy.deepcopy, pickle'],
     'value-semantics monitor: equality after identical construction and after single mirrored edits, identity graph of copies',
     'Identifiers made of digits only are left out (loaded as numbers, constructed as text).')

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p, *_ in P:
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='python3 check.py --selftest', checks=[
    dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
         evidence_file='evidence/%s.json' % p['id'], technique=t, level=lv, level_note=n) for p, t, n, lv in P],
    not_applicable=[], notes='No hooks in /repo: all instrumentation is attached from outside (kv/monitor.py).')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), max(len(p['title']) for p, *_ in P))
