#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "No document and no public call makes the library panic",
 "Loading any text or any tree of files, and then querying, comparing, formatting or writing the values obtained, returns a value or an error and never panics. The only exceptions are the documented panics of the convenience macros (arr!, obj!, frac!) and exhaustion of memory or stack (stack use has its own properties, C02 and C24).",
 ["inputs", "fault_sequences"], "all documents, file trees, I/O failures and argument values of the public API",
 "The stable tests load a dozen well-formed documents; the panicking inputs are malformed ones (truncated after a prefix operator, odd brackets, division by zero, non-UTF-8 paths), an unbounded set.",
 ["src/parse/parser.rs", "src/parse/format.rs", "src/parse/char_stream.rs", "src/obj.rs", "src/arr.rs", "src/tup.rs", "src/value.rs"],
 [("unwraps of the stream guarded by a look-ahead", "src/parse/parser.rs"), ("zero tests before division", "binary_op_on_values"), ("bounds test before indexing", "Arr::get, Tup::get"), ("indent subtraction only when nested", "src/parse/format.rs")],
 observe=["Obj::from_file", "Obj::from_str", "all public functions"])

prop("C02", "Parser recursion is bounded by a constant, whatever the document",
 "However objects, arrays, tuples, includes (also across files), prefix operators and dotted accesses are nested in a document, the parser recurses at most a constant number of levels; deeper nesting is answered with the maximum-depth error.",
 ["inputs"], "all documents and include trees, of any nesting and any mixture of nesting constructs",
 "A test can only try particular nestings; an unguarded construct overflows the stack (aborting the process) only for the mixture that uses it.",
 ["src/parse/parser.rs", "src/parse/mod.rs"],
 [("depth check at the entry of each nesting construct", "parse_obj, parse_arr, parse_tup, parse_include, parse_unary_op, parse_variable"), ("depth + 1 on every recursive descent", "parse_value"), ("MAX_DEPTH", "src/parse/mod.rs")],
 state=[("depth", "current nesting level", "parameter of the parse functions")], observe=["Obj::from_file", "Obj::from_str"])

prop("C03", "Loading terminates: every parser step consumes input",
 "Loading any document ends after finitely many steps: every repetition in the loader consumes at least one character of the (finite) input or removes an element of a finite collection before it repeats, including at the end of the input.",
 ["inputs"], "all documents",
 "A loop that makes no progress hangs only on the particular character (or end of input) that it fails to consume.",
 ["src/parse/parser.rs", "src/parse/char_stream.rs"],
 [("next() on every iteration", "find_char, parse_field, parse_numeric, parse_variable, parse_str"), ("a parsed value consumes input", "parse_value")], observe=["Obj::from_file", "Obj::from_str"])

prop("C04", "The unsafe character reader never reads freed or changed memory",
 "The characters being parsed are read through a borrow whose lifetime was erased with unsafe code: the text it points into is owned together with the reader, stays allocated, and is never changed, moved out or replaced while any reader can still be used. No reader derived from it escapes into safe code with a longer life, and no other unsafe code exists.",
 ["programs", "histories"], "all sequences of operations the crate performs on a reader, including clones of it",
 "Undefined behaviour need not show in a test; the tests exercise one order of creation, cloning and dropping.",
 ["src/parse/char_stream.rs"],
 [("owner and iterator stored in one private struct", "Inner"), ("contents never touched after construction", "CharStream"), ("clones share the same allocation", "CharStream::clone (Rc)")],
 state=[("Inner.contents", "text that the erased borrow points into", "src/parse/char_stream.rs"), ("Inner.stream", "iterator with erased lifetime", "src/parse/char_stream.rs")])

prop("C05", "Cyclic file includes are rejected; repeated includes are not",
 "If a file is included while it is still being loaded - by itself or through any chain of other includes, under any spelling of its path - loading fails with the cyclic-include error. A file that is merely included several times (also from different files) is never reported as cyclic.",
 ["inputs", "histories"], "all include graphs and path spellings",
 "The error tests (one self-include, one two-file cycle) are not in the stable suite, and no test covers other chains, other spellings or diamonds after a cycle check.",
 ["src/parse/parser.rs"],
 [("set of canonical paths being loaded", "parse_include (included.1)"), ("insert before, membership test, remove after", "parse_include")],
 state=[("included.1", "canonical paths of the files currently being loaded", "IncludedMap")], observe=["Obj::from_file"])

prop("C06", "An include yields the declared type, loaded from the named file",
 "An include expression evaluates to a value of the type it names (an object when none is named), obtained by loading the file it names, resolved against the directory of the including file. Including the same file again as the same type during one load yields the same instance, including it as another type yields that other type, and anything but a type keyword and a string path inside the include is an error.",
 ["inputs", "histories"], "all include expressions and histories of earlier includes in the load",
 "The include test reads each file in one order; a stale cache entry or a mixed-up type needs a second include of the same file.",
 ["src/parse/parser.rs"],
 [("include keyword sentinels", "parse_variable, parse_include"), ("cache keyed by canonical path and type", "parse_include (included.0)")],
 state=[("included.0", "values of the includes already loaded", "IncludedMap")], observe=["Obj::from_file"])

prop("C07", "Names resolve only inside their scope",
 "A plain name in a value refers only to a field already defined in the innermost enclosing object (or, after a dot, to a field of the object on its left), and a global name only to a global already defined in the same file. Neither fields nor globals of an including file are visible in an included file, nor the other way round, and a global is never a field of the resulting object.",
 ["inputs"], "all documents and include trees",
 "Leakage shows only when a document uses a name that ought to be unknown, and the stable tests only use names that resolve.",
 ["src/parse/parser.rs"],
 [("fresh field list for every object, fresh globals for every file", "parse_obj, parse_obj_stream, parse_arr_file, parse_tup_file"), ("lookup in the list and map passed down", "parse_variable")],
 state=[("globals", "globals of the file being parsed", "GlobalMap"), ("obj_pairs", "fields of the innermost object", "Pairs")], observe=["Obj::from_file", "Obj::from_str"])

prop("C08", "Every string survives writing and reading character by character",
 "For every character of a string, what the writer emits for it inside the quotes is read back as exactly that character, and the emitted text of a string never ends the quotes early. The reader accepts exactly the documented escapes and takes every other character, including line breaks, literally up to the closing quote.",
 ["inputs"], "all Unicode characters in all positions of a string",
 "The tests write and read a handful of escapes; a missing or asymmetric entry of either table shows only for its character.",
 ["src/parse/format.rs", "src/parse/util.rs", "src/parse/parser.rs"],
 [("escape table of the writer", "get_char_map, replace_all"), ("escape table of the reader", "get_escape_char"), ("escape state", "parse_str")], observe=["Obj::write_to_string", "Obj::from_str"])

prop("C09", "The writer emits every part of a value in the reader's syntax",
 "Written text contains, for every value, the token from which the reader produces a value of the same kind: the same keywords, the bracket pair of its container, quotes for strings, and a decimal point or quotient for every fraction. Every element, every field with its name, and the parent are written exactly once, in order, and the top-level form differs only by leaving out the outer brackets.",
 ["inputs"], "all values of every kind and shape, including empty, single-element and nested containers and objects with parents",
 "The only stable write test compares a few fixed objects; a kind or shape that is written wrongly is noticed only if it is among them.",
 ["src/parse/format.rs", "src/parse/parser.rs"],
 [("Format implementations", "src/parse/format.rs"), ("dispatch on the first character", "parse_value"), ("keywords", "parse_variable")], observe=["Obj::write_to_string", "Display of Value, Obj, Arr, Tup"])

prop("C10", "Arrays hold a single element type",
 "Every array obtained from loading, from concatenation or from a checking constructor reports an inner type that is compatible with every one of its elements and that is the most specific such type; combining elements or arrays whose types have no common type is an error.",
 ["inputs"], "all element sequences, including empty arrays and tuples of arrays nested to any depth",
 "Type compatibility is a recursive relation over an infinite set of types; tests check a few pairs.",
 ["src/arr.rs", "src/types.rs", "src/parse/parser.rs"],
 [("running most specific type", "Arr::from_values, parse_arr, parse_arr_file"), ("type algebra", "Type::most_specific, Type::eq, Type::is, Type::has_any"), ("unchecked construction only with a computed type", "callers of Arr::from_values_unchecked")], observe=["Arr::inner_type", "Value::get_type"])

prop("C11", "Defining a name twice is an error",
 "A document that defines the same field twice in one object, two parents for one object, or the same global twice in one file is rejected with the duplicate error naming it; no loaded object contains two fields of one name. Definitions of the same name in different objects, and fields that only override a parent's, are accepted.",
 ["inputs"], "all documents",
 "The duplicate tests are few and not part of the stable suite; dropping the check for one kind of definition changes no stable test.",
 ["src/parse/parser.rs"],
 [("membership test before insertion", "parse_field_value_pair")],
 state=[("obj_pairs", "fields defined so far", "parse_field_value_pair"), ("globals", "globals defined so far", "parse_field_value_pair")], observe=["Obj::from_file", "Obj::from_str"])

prop("C12", "Only valid field names get into objects",
 "A field name accepted by the checked constructor or by the parser is non-empty, starts with a letter or underscore and continues with letters, ASCII digits or underscores; '^' alone means the parent and '@' introduces a global, in documents only. The reserved words are refused as field names in documents, and a name that is not valid gives an error rather than a truncated or altered name.",
 ["inputs"], "all strings used as names",
 "Names are drawn from all of Unicode; tests try a few.",
 ["src/obj.rs", "src/parse/parser.rs", "src/parse/util.rs"],
 [("character predicate", "Obj::is_valid_field_char"), ("name predicate", "Obj::is_valid_field"), ("scanner and reserved words", "parse_field, is_reserved")], observe=["Obj::from_pairs", "Obj::is_valid_field", "Obj::from_str"])

prop("C13", "Objects, arrays and tuples are immutable and shareable",
 "Once created, an Obj, Arr or Tup never changes through any public operation, on it or on a clone of it, and all three (and Value) can be sent to and shared between threads. Cloning one shares the instance instead of copying it.",
 ["programs", "schedules"], "all programs that use the public API, single- or multi-threaded",
 "A test cannot quantify over client programs; one added accessor or interior-mutable field breaks it for some program.",
 ["src/obj.rs", "src/arr.rs", "src/tup.rs", "src/value.rs"],
 [("private Arc to an inner struct that is only ever built", "Obj, Arr, Tup")],
 state=[("inner", "shared data", "Obj, Arr, Tup")], observe=["Obj", "Arr", "Tup", "ReferenceType"])

prop("C14", "Every created instance gets its own ID",
 "Every construction of an Obj, Arr or Tup, in any thread, gives the new instance an ID that no other instance of the process has; clones keep the ID of the instance they share.",
 ["schedules", "histories"], "all interleavings of constructions in any number of threads",
 "Races between two constructions are not exercised by single-threaded tests, and the tests never compare IDs of many instances.",
 ["src/lib.rs", "src/obj.rs", "src/arr.rs", "src/tup.rs"],
 [("atomic fetch-and-add", "gen_id"), ("ID assigned where the inner struct is built", "from_pairs_unchecked, from_values_unchecked, Tup::from_values")],
 state=[("CUR_ID", "next ID", "src/lib.rs")], observe=["ReferenceType::id", "ReferenceType::ptr_eq"])

prop("C15", "Equality compares content and nothing else",
 "Two objects are equal exactly when their fields (names and values, in order) are equal and both have equal parents or neither has one; two arrays or tuples when their types are compatible and their elements are equal; two values when they are of the same kind with equal content. IDs, reference counts and sharing never influence equality.",
 ["inputs"], "all pairs of values",
 "Equality is recursive over all values; the tests compare few pairs, mostly equal ones.",
 ["src/obj.rs", "src/arr.rs", "src/tup.rs", "src/value.rs"],
 [("PartialEq implementations", "src/obj.rs, src/arr.rs, src/tup.rs, src/value.rs")], observe=["== on Obj, Arr, Tup, Value, Pair"])

prop("C16", "Typed getters return the content or a truthful type error",
 "For every kind of value, the getter of that kind returns exactly its content, every other getter fails with a mismatch error naming the wanted type and the value's actual type (an integer also being readable as a fraction of the same value), and the getters of an object behave as looking the field up and then using the value's getter, reporting the missing field by name.",
 ["inputs"], "all values and all getters",
 "There are 8 kinds times 7 getters on two types, over all contents; tests sample the matching ones.",
 ["src/value.rs", "src/obj.rs", "src/arr.rs", "src/tup.rs"],
 [("getter macros", "src/value.rs, src/obj.rs"), ("Value::get_type", "src/value.rs")], observe=["Value::get_*", "Obj::get_*", "Value::get_type"])

prop("C17", "Comparisons with and conversions from Rust types are exact",
 "Comparing a value with a Rust primitive, string, big number or container is true exactly when the value is of the corresponding kind and holds that very content, in both operand orders, with no truncation or wrap-around; converting a Rust value into a value and comparing it with the original is always true.",
 ["inputs"], "all values and all primitives, including out-of-range integers",
 "Truncation shows only for integers outside the primitive's range; tests compare small ones.",
 ["src/value.rs"],
 [("impl_eq, impl_eq_int, impl_from macros", "src/value.rs")], observe=["== between Value and primitives", "Value::from"])

prop("C18", "Field lookup finds the nearest definition, everywhere alike",
 "Looking a field up by name - through the API or with dot notation in a document - yields the object's own field if it has one and otherwise that of the nearest ancestor that has it, and nothing otherwise; the source variant also returns the object it was found in. Containment, length, emptiness, iteration and indexing consider exactly the instance's own fields or elements, and an index is in bounds exactly when it is below the length.",
 ["inputs"], "all objects with parent chains of any length, all names and indices",
 "Shadowing and multi-level chains are sampled by one test; dot notation through parents by none.",
 ["src/obj.rs", "src/arr.rs", "src/tup.rs", "src/parse/parser.rs"],
 [("own fields, then recursion into the parent", "Obj::get, Obj::get_with_source"), ("dot notation", "parse_variable"), ("bounds tests", "Arr::get, Tup::get")], observe=["Obj::get", "Obj::get_with_source", "Obj::contains", "Obj::len", "Arr::get", "Tup::get"])

prop("C19", "I/O failures are reported, never swallowed",
 "Writing to a file reports success only after the whole text has been handed to the operating system without error, and reading a document or include reports success only if the whole file was opened and read. Every I/O error that occurs while loading or writing reaches the caller as an error.",
 ["fault_sequences", "crash_points"], "all failures of open, metadata, read, create and write calls, including short writes and invalid UTF-8",
 "Tests run on a healthy file system; none injects a failing or short write.",
 ["src/util.rs", "src/parse/util.rs", "src/parse/char_stream.rs", "src/parse/parser.rs", "src/obj.rs"],
 [("? on every I/O call, write_all", "write_file_str, read_file_str, CharStream::from_file")], observe=["Obj::write_to_file", "Obj::from_file"])

prop("C20", "Parse errors name the file and position of the offending text",
 "Every error raised by the parser carries the path of the file being parsed at that point (none for text), and the line and column it reports were taken together from that file's reader, in that order: the reader's current place, the place of the character just consumed, or the start of the construct being parsed. An error inside an included file names the included file.",
 ["inputs"], "all failing documents and include trees",
 "The error tests check about thirty messages and are not in the stable suite; each of the about sixty error sites has its own position operands.",
 ["src/parse/parser.rs", "src/parse/error.rs"],
 [("parse_err with stream.file(), line and column", "src/parse/parser.rs")], observe=["OverError::ParseError text"])

prop("C21", "Operators accept exactly the defined types and give the defined result",
 "+ adds two numbers, joins two strings and concatenates two compatible arrays; - and * take two numbers; / divides two numbers into a fraction; % takes two integers; an integer and a fraction combine as fractions; prefix + and - take one number. Operands are used in order, division or remainder by zero is a numeric error, and every other combination of types is an operator error.",
 ["inputs"], "all operators and operand types",
 "5 operators times 9 times 9 kinds; the stable tests use only succeeding combinations and few of them.",
 ["src/parse/parser.rs", "src/parse/mod.rs"],
 [("operator table", "binary_op_on_values, unary_op_on_value"), ("operator characters", "BinaryOp::get_op, BinaryOp::is_op")], observe=["Obj::from_str"])

prop("C22", "Products bind tighter than sums; equal operators group to the left",
 "In an operator expression, *, / and % are applied before + and -, operators of the same class from left to right, and each operator is applied to exactly its neighbouring operands in their written order; a prefix sign applies to the single operand that follows it.",
 ["inputs"], "all operator sequences of any length",
 "Grouping matters only for longer mixed sequences of non-associative operators; the tests evaluate a few.",
 ["src/parse/parser.rs", "src/parse/mod.rs"],
 [("operand and operator queues", "parse_value"), ("operator class", "BinaryOp::is_priority")], observe=["Obj::from_str"])

prop("C23", "Loading reads only the named files; only write_to_file writes",
 "Loading text without includes touches no file; loading a file reads that file and the files it includes and creates, changes, deletes or executes nothing. The only public operation that writes to the file system is write_to_file, which writes only the given path; nothing uses the network, environment, processes or standard streams.",
 ["inputs", "programs"], "all documents and all public operations",
 "A test sees only the effects it looks for on the documents it loads.",
 ["src/parse/parser.rs", "src/parse/util.rs", "src/parse/char_stream.rs", "src/util.rs", "src/obj.rs"],
 [("File::open for reading, File::create only in write_to_file", "src/util.rs, src/parse/util.rs, src/parse/char_stream.rs")], observe=["Obj::from_file", "Obj::from_str", "Obj::write_to_file"])

prop("C24", "Deeply nested data does not overflow the stack",
 "Operations on a loaded value (dropping, cloning, comparing, formatting, typing, looking up) do not recurse deeper than a bound that does not depend on the document.",
 ["inputs"], "all loadable documents, including data nested through variables, globals and parents",
 "Nesting through variables is not limited by the nesting of the text, and needs tens of thousands of levels to show.",
 ["src/obj.rs", "src/arr.rs", "src/tup.rs", "src/types.rs", "src/value.rs", "src/parse/format.rs"],
 [("(none: recursive functions over values)", "Format, PartialEq, Drop, Type")], observe=["Drop, Display, == of Value"])

prop("C25", "Results do not depend on anything but the input",
 "Loading the same files gives equal values with the fields in the order of the document, and writing the same value gives the same text: no result depends on hash iteration order, time, randomness, addresses, instance IDs, the environment or earlier loads in the process.",
 ["inputs", "histories", "schedules"], "all documents, all histories of earlier operations",
 "Hash order and shared state vary between runs, not within a test's single comparison.",
 ["src/parse/parser.rs", "src/parse/format.rs", "src/obj.rs"],
 [("fields in a Vec; maps only used for lookup", "src/parse/parser.rs"), ("per-load include state", "parse_obj_file, parse_obj_str")], observe=["Obj::from_file", "Obj::write_to_string"])

prop("C26", "Line and column always denote the next unread character",
 "After any sequence of reads, the reported line is one more than the number of line feeds consumed and the column one more than the number of characters consumed since the last of them; peeking changes nothing and shows exactly the character the next read returns; all handles on a stream share one position.",
 ["histories", "inputs"], "all texts and all interleavings of peeking, reading and cloning handles",
 "The positions are visible only in error messages, whose tests are not stable; multi-line and non-ASCII sequences are not sampled.",
 ["src/parse/char_stream.rs"],
 [("line and column update in next", "CharStream"), ("shared state", "Rc<RefCell<Inner>>")],
 state=[("line, col", "position of the next character", "Inner")], observe=["positions in parse error messages"])

prop("C27", "Error messages contain everything the error knows",
 "The displayed text of every error contains each piece of information the error carries - names, types, operators, characters, indices, line and column, each in its place - and is prefixed with the file name when there is one; converting a parse or I/O error to the public error keeps its text.",
 ["inputs"], "all error kinds and payloads",
 "Each kind has its own format string; the tests comparing messages are not in the stable suite.",
 ["src/parse/error.rs", "src/error.rs"],
 [("Display implementations", "src/parse/error.rs, src/error.rs, src/types.rs, src/parse/mod.rs"), ("From conversions", "src/error.rs, src/parse/error.rs")], observe=["Display of OverError"])

prop("C28", "Numeric literals are read exactly",
 "A number literal is accepted exactly when it consists of ASCII digits with at least one digit, at most one decimal separator ('.' or ',') and no two adjacent underscores; it denotes exactly the decimal number written, of any length: an integer without a separator, otherwise an exact fraction. Numbers never pass through floating point or fixed-width integers.",
 ["inputs"], "all literals of any length",
 "Precision and width limits show only for long literals; the tests use short ones.",
 ["src/parse/parser.rs", "src/parse/util.rs"],
 [("digit accumulation and parsing", "parse_numeric"), ("exact rational", "frac_from_whole_and_dec")], observe=["Obj::from_str"])

prop("C29", "Brackets, strings and values must be properly closed",
 "Every object, array, tuple and include is ended only by its own closing bracket, and every string by a quote: another closing bracket, a stray closing bracket at top level, or the end of the input inside any of them is an error. A value is followed only by whitespace, a comment, an operator, the closing bracket of its container or the end of the input.",
 ["inputs"], "all documents",
 "There are four bracket kinds times all wrong successors and all truncation points; the stable tests contain only well-formed documents.",
 ["src/parse/parser.rs", "src/parse/util.rs"],
 [("closing bracket checks", "parse_field_value_pair, parse_arr, parse_tup, parse_include, check_value_end"), ("end-of-input checks", "find_char callers, parse_str")], observe=["Obj::from_str"])

prop("C30", "Whitespace and comments are skipped wherever the format allows them",
 "At the start and end of a file, after an opening bracket, after a field's colon and after a value in a container, an include or a file, any amount of whitespace (every Unicode whitespace character, line breaks included) and of comments may stand and is skipped: none of it is an error, ends or becomes part of a value, or is decided by line or column. A comment starts with '#' and lasts exactly to the end of its line or of the text, whatever is in it. Nothing else is skipped.",
 ["inputs"], "all documents, all whitespace characters, all contents of comments, every place where the format allows layout",
 "Places times kinds of layout times positions in unboundedly many documents; the stable tests use blanks, line feeds and a few comments.",
 ["src/parse/parser.rs", "src/parse/util.rs"],
 [("find_char", "src/parse/parser.rs"), ("callers of find_char", "parse_obj_file, parse_field_value_pair, parse_obj, parse_arr, parse_tup, parse_include"), ("end of a value", "is_value_end_char, check_value_end")], observe=["Obj::from_str", "Obj::from_file"])

prop("C31", "Writing then loading gives back an equal object",
 "For every object obtained by loading, loading the text it writes gives an equal object.",
 ["inputs"], "all loadable documents",
 "Unbounded set of documents; the tests round-trip a few.",
 ["src/parse/format.rs", "src/parse/parser.rs"], [("writer and parser together", "src/parse/format.rs, src/parse/parser.rs")], observe=["Obj::write_to_string", "Obj::from_str"])

prop("C32", "Loading takes resources proportional to the document and its includes",
 "The memory and time a load takes are bounded by a polynomial in the total size of the files loaded.",
 ["inputs"], "all documents", "It is a bound on cost over all inputs.",
 ["src/parse/parser.rs", "src/arr.rs", "src/tup.rs"], [("shared values, eager type vectors and string concatenation", "src/tup.rs, src/parse/parser.rs")], observe=["Obj::from_str"])

prop("C33", "Containers hold exactly what they were built from",
 "A constructor or conversion from a list, and every form of the construction macros (arr!, try_arr!, tup!, obj!, try_obj!, with or without a trailing comma), gives a container with exactly the given elements or fields in the given order and the given parent, or an error; the constructors without arguments give empty containers without parent. ID, reference count, identity and inner types that a container reports are those of that very instance.",
 ["inputs"], "all lists of elements and fields, all names including the parent's, all forms of the macros",
 "The tests build a few containers and compare them with each other, built by the same code.",
 ["src/obj.rs", "src/arr.rs", "src/tup.rs", "src/macros.rs"],
 [("constructors", "from_values, from_pairs, from_values_unchecked, from_pairs_unchecked, empty, default, From<Vec>, TryFrom<Vec>"), ("macros", "src/macros.rs"), ("ReferenceType", "id, num_references, ptr_eq")],
 observe=["Obj", "Arr", "Tup", "obj!", "arr!", "tup!"], hook="cfg(over_verif): src/macro_uses.rs, one use of every form of the macros")

prop("C34", "Loaded containers hold exactly what the document says",
 "Every array, tuple and object that loading gives - in a document or as a whole file - holds exactly the elements or fields written there: each value that is read becomes one element or one field under the name before it (or the object's parent, or a global), in the order of the document; none is dropped, doubled, merged, moved or renamed whatever its value, number or neighbours, and the parent that was read is the object's parent. The words null, true and false give these values and no other word does.",
 ["inputs"], "all documents; containers of any length and content",
 "The number, order and equality of elements are unbounded; the stable tests contain containers of a few elements.",
 ["src/parse/parser.rs"],
 [("readers of containers", "parse_arr, parse_tup, parse_obj, parse_obj_stream, parse_arr_file, parse_tup_file, parse_field_value_pair"), ("words", "parse_variable")], observe=["Obj::from_str", "Obj::from_file"])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
