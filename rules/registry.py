"""Which rule decides which property, and how it is described."""
import values
import ops
import lang
import build
import layout
import loaded
import writer
import memory
import include
import scope
import total
import prec
import parse_rule
import types_rule
import iores
import effects
import errors
import stream

ENG = ('Path-sensitive abstract interpretation of the compiler\'s MIR of /repo\'s current source (no execution, no solver): '
       'every path of the functions named in functions_analysed is followed over symbolic terms and finite domains; ')
TRUST = ('Trusts: the MIR extractor, the models of std/num functions in engine/models.py, and that unmodelled external '
         'functions do not unwind. An obligation the analysis cannot decide is reported as inconclusive (and listed in the '
         'evidence), not as a violation.')


class Rule:
    def __init__(self, fn, what, technique, note):
        self.fn, self.what, self.technique, self.note = fn, what, technique, note

    @property
    def explanation(self):
        return ENG + self.what


RULES = {
    'C08': Rule(lang.rule_C08,
                'the string reader (parser loop) and the string writer (formatter) are extracted as automata over classes of '
                'characters with text accumulators; both are compared with the specification of the escapes in every '
                'reachable pair of states for every class of characters, so that what the writer emits is read back.',
                'automata extracted from MIR loops, product with a specification transducer',
                'All strings over 133 classes of characters; one or two representative strings per pair of states. ' + TRUST),
    'C12': Rule(lang.rule_C12,
                'the field-name test and the field reader are extracted as automata over classes of characters (heads of '
                'their loops with control flags; guards and updates of the paths between them) and compared with the '
                'specification automaton in every reachable pair of states for every class of characters, and for the '
                'constants the code compares with; the checked constructor is reduced to quantified facts over its pairs.',
                'automata extracted from MIR loops, product with a specification automaton',
                'All names over 133 classes of characters; one or two representative names per pair of states. ' + TRUST),
    'C28': Rule(lang.rule_C28,
                'the numeric reader is extracted as an automaton with digit accumulators and compared with the specification '
                'automaton (acceptance) and with the exact number denoted (value) in every reachable pair of states.',
                'automata extracted from MIR loops, product with a specification automaton',
                'All literals over 133 classes of characters; one or two representative literals per pair of states and the '
                'lengths the code compares with. ' + TRUST),
    'C15': Rule(values.rule_C15,
                'every exit of every PartialEq implementation and of the identity comparison is compared with a decision '
                'table: true exactly under the stated agreement of kind, type and content, with the recursive comparisons '
                'abstracted to equality terms.',
                'symbolic decision tables of the equality functions over MIR',
                'All inputs, by induction over the value (nested comparisons are assumed to satisfy the property). ' + TRUST),
    'C16': Rule(values.rule_C16,
                'for every getter of Value and Obj and every kind of value, each exit is compared with the required result '
                '(content of that kind, or TypeMismatch with wanted and actual type).',
                'decision tables (getter x kind) extracted from MIR',
                'All values of every kind. ' + TRUST),
    'C17': Rule(values.rule_C17,
                'each conversion and comparison between Value and a Rust type is reduced to a term over its arguments and '
                'compared with the exact one (no narrowing cast, wrap or content-altering call), for both operand orders.',
                'term extraction and comparison for every PartialEq/From instance over MIR',
                'All inputs of every instantiated Rust type. ' + TRUST),
    'C18': Rule(values.rule_C18,
                'lookups are reduced to quantified facts over the field sequence (found: that index; missed: no index has '
                'the name) followed by delegation to the parent; containment, length, iteration and indexing must be '
                'functions of the same sequence.',
                'loop summarisation to quantified facts and decision tables over MIR',
                'All objects, by induction over the parent chain. ' + TRUST),
    'C21': Rule(ops.rule_C21,
                'each operator function is evaluated for every operator and every pair of operand kinds; each exit is '
                'compared with the defined result term or error.',
                'operator x operand-kind decision tables extracted from MIR',
                'All operators and operand kinds. ' + TRUST),
    'C26': Rule(stream.rule_C26,
                'every function of the character stream is interpreted over an arbitrary stream state (text position, line, '
                'column); each exit is compared with the required step of position and line/column, for a line feed and for '
                'every other character.',
                'symbolic transition function of the stream over MIR',
                'All states of a stream and all characters; together with the parser rules, which use the stream only through '
                'these functions.' + TRUST),
    'C27': Rule(errors.rule_C27,
                'each path of every Display implementation of an error is reduced to the text it writes, which must render '
                'every field of the shown variant, whole and in its labelled place; conversions must keep the displayed text '
                'and arguments.',
                'symbolic text templates extracted from MIR, compared with the variant layout',
                'All errors with all contents.' + TRUST),
    'C13': Rule(effects.rule_C13,
                'every component type of Obj, Arr, Tup and Value is walked (private, one shared Arc, no interior mutability, '
                'nothing that is not Send and Sync) and every function is searched for mutable access to shared contents.',
                'type walk and ownership/effect lint over the type-checked program and MIR',
                'All instances and schedules. Thread-safety of std and num types is assumed.' + TRUST),
    'C14': Rule(effects.rule_C14,
                'the identifier given to every construction of shared contents is traced backwards to its origins, which must '
                'be an atomic read-modify-write on one process-wide counter, evaluated once per construction.',
                'backward dataflow (value origins) over MIR of the whole crate',
                'All constructions in all threads; wrap-around of the counter after 2^64 instances is not considered.' + TRUST),
    'C23': Rule(effects.rule_C23,
                'every external function reachable in the call graph from every public function is classified (pure, reads, '
                'writes, forbidden); reads may be reached from loading functions only, writes from write_to_file only and '
                'with exactly its path.',
                'effect analysis over the whole-crate call graph (MIR)',
                'All public functions. External functions are classified by path; unknown ones are inconclusive.' + TRUST),
    'C25': Rule(effects.rule_C25,
                'every function reachable from a public one is searched for sources of nondeterminism: hash iteration, clock, '
                'randomness, environment, addresses, reference counts, identifiers, mutable statics, reordering.',
                'effect and dataflow lint over MIR of the whole crate',
                'All reachable functions; external functions are assumed deterministic unless listed.' + TRUST),
    'C19': Rule(iores.rule_C19,
                'the Result of every call that can carry an I/O error is followed through MIR to the return value; on every '
                'path of the functions that touch files, success implies success of each operation, the whole text is written '
                'and the whole file read.',
                'error-propagation dataflow over MIR and path tables of the file functions',
                'All paths. What the operating system does with data it accepted is outside.' + TRUST),
    'C10': Rule(types_rule.rule_C10,
                'the relations on types are interpreted for every pair of type constructors; every construction of an array '
                'with an explicit element type is found, and that type must be the fold of the types of exactly the elements '
                'put in (loop invariant on the entry and every back edge), Any for no elements, or the common type of the two '
                'concatenated arrays; refusals require that no common type exists.',
                'abstract interpretation of MIR, loop-invariant obligations per back edge',
                'All types and arrays of any length; arrays made through the documented unchecked constructor by the user are '
                'outside.' + TRUST),
    'C20': Rule(parse_rule.rule_C20,
                'every construction of a parse error on every path of the parser (recursive calls cut at the smallest set of '
                'functions, everything else inlined) is enumerated; its file, line and column are traced to the state of the '
                'reader they were taken from and must belong to one reader and one place; places handed to recursive calls '
                'must be the current place.',
                'interprocedural path enumeration and value-origin analysis over MIR',
                'All paths of the parser, with arbitrary text.' + TRUST),
    'C29': Rule(parse_rule.rule_C29,
                'the value reader is run for each opening character, each enclosing bracket and as whole value or operand: on '
                'every path that succeeds the last character consumed is the matching closing one, no closing bracket is '
                'consumed elsewhere, and what follows a whole value is white space, a comment, its bracket or the end; file '
                'readers succeed only at the end of their text.',
                'path-sensitive typestate analysis of the character reader over MIR',
                'All texts, by induction over the nesting (the recursive reader is cut at its contract).' + TRUST),
    'C22': Rule(prec.rule_C22,
                'operator sequences followed through the loop of the value reader, and calls for operands',
                "extraction of the value reader's operator loop as a transition system (dataflow over MIR), followed for "
                "operator sequences and compared with the grammar's tree; call-site check of operand calls",
                'Sequences up to the listed length (all 5 operators to 4 operators, -,/ to 7); longer ones are covered by the '
                "loop's finite set of heads but not proved." + TRUST),
    'C02': Rule(total.rule_C02,
                'recursive calls of the parser with their depth arguments, guards and the error above the limit',
                'call-graph cycle analysis with interval dataflow of the depth argument over MIR',
                'The stack use per level is not bounded; a limit above 1000 levels counts as unbounded.' + TRUST),
    'C03': Rule(total.rule_C03,
                'back edges of all loops reached by loading; recursion outside of the parser',
                'ranking analysis of loops: strict progress of the character stream, shrinking collections and iterators, by '
                'dataflow over MIR',
                'Standard iterators over finite collections are finite; recursion of the parser is bounded by C02.' + TRUST),
    'C01': Rule(total.rule_C01,
                'sites that can panic, in all functions reached from the public functions and from loading',
                'reachability of panic sites by path-sensitive dataflow over MIR with interval, variant and character-class '
                'facts; preconditions of recursive functions by fixpoint',
                'Exhaustion of memory and stack is excluded; 64-bit counters that grow by small steps are taken not to '
                'overflow; functions outside of the crate are modelled by their documentation.' + TRUST),
    'C11': Rule(scope.rule_C11,
                'Every statement that adds a field, a global or a parent read from a document is an obligation: on every path '
                'to it the list (map, place) has been searched completely for that name without finding it; duplicate errors '
                'need the name to have been found in the same object or file',
                'must-availability of a complete search (quantified facts over list positions) at every insertion, by path- '
                'sensitive abstract interpretation of the MIR',
                'The four entry points of the loader with unbounded loops and recursion summarised; nothing about the '
                'document is bounded.' + TRUST),
    'C07': Rule(scope.rule_C07,
                'every name looked up while a file is read: the fields and globals each value reader is given, and which '
                'value is taken',
                "dataflow over the parser's abstract execution: scope arguments at each recursive read, must-facts of the "
                'look-up, and the kind of each definition',
                'Names in scope' + TRUST),
    'C05': Rule(include.rule_C05,
                'every file the value reader opens, the set of files being loaded, and every reader it is handed to',
                'must-availability analysis over the abstract execution of the parser: set membership facts (canonical path '
                'terms) at every open, history of the set through loops and recursion, typestate of put/remove around an '
                'include',
                'Spelling of paths is reduced to canonicalize; what the operating system answers is not modelled.' + TRUST),
    'C06': Rule(include.rule_C06,
                'every file the value reader opens and every result of an include',
                'derivation of the opened path and of the memo key as symbolic terms over the abstract execution of the '
                'parser, with must-facts (type keyword, string, closing bracket) at each open, store and result',
                'The file system is not modelled: what a path names is decided by the operating system.' + TRUST),
    'C04': Rule(memory.rule_C04,
                'every unsafe block and item, every construction of a value holding an erased iterator, and every access to, '
                'copy of and call on one',
                'syntactic/type-level confinement of unsafe, def-use (move and borrow) analysis from the erased borrow back '
                'to its owner and forward over every MIR place, call and signature that reaches an owner type',
                "That moving a String or Rc leaves its text where it is, is taken from the standard library's documentation." + TRUST),
    'C09': Rule(writer.rule_C09,
                'The text that every function of the writer builds is derived as a symbolic term on each of its paths '
                '(literals, blanks, digits of a number, text of a nested value, text accumulated over all elements) and '
                "compared with the reader's grammar: keyword, quotes, brackets, elements once and in order, names with their "
                "colon, parent, full form of nested values. In the other direction the reader's paths are examined: which "
                'value each keyword and each opening character gives.',
                "symbolic text of the writer's functions against the reader's grammar, by abstract interpretation",
                'Text of nested values is that of the format function called on them, itself judged. Escaping inside strings '
                'is C08; that reading inverts writing as a whole is C31 (not applicable).' + TRUST),
    'C30': Rule(layout.rule_C30,
                'every place of the reader is classified by a fixpoint over the loops of the loader (layout may follow, in a comment, at a token); values inside containers and files may only be read where no layout follows, no error may be decided by layout, comments end exactly with their line, and the loops that skip layout skip nothing else.',
                'typestate of the character reader (layout / comment / token) by fixpoint over MIR loops',
                'All documents, by induction over the nesting. ' + TRUST),
    'C33': Rule(build.rule_C33,
                'every constructor is reduced to what it returns over a symbolic list and must hold that list and the given '
                'parent; observers must return the part they name; one use of every form of the construction macros is '
                'compiled with the crate (cfg over_verif) and interpreted in the same way.',
                'symbolic summaries of constructors and of compiled macro uses over MIR',
                'All lists (by a symbolic list); macro uses with up to three parts.' + TRUST),
    'C34': Rule(loaded.rule_C34,
                'for every container the reader builds, the list it is built from is followed back through the loops to where it was empty: each step adds exactly the values read in it, in order, each once (or keeps them as parent or global), nothing read is lost on the way out, the parent read is kept, and the container with that list is returned; the words null, true and false, and no others, give their values.',
                'dataflow of every value read to the container returned, over MIR loops by induction',
                'All documents, by induction over the nesting: nested values are what the recursive call returns. ' + TRUST),
}
LEVEL = {}
