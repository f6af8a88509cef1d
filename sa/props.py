"""The properties: statement, anchors and the obligations that decide them.

obligations: 'V:stage' value, 'E:stage' error exits, 'F:stage' effects, 'W:stage' files written, 'J:stage' browser arrays filled, 'X:stage' process
exits, 'P:stage' panics, 'T:group' circuit text (group of signals), 'R:rule' semantic rule.
`python3 sa/props.py` rewrites properties.jsonl and MANIFEST.json.
"""
import json, os, sys

CIRCOM = 'packages/compiler/src/circom.rs'
REGEX = 'packages/compiler/src/regex.rs'
HALO2 = 'packages/compiler/src/halo2.rs'
LIB = 'packages/compiler/src/lib.rs'
CWASM = 'packages/compiler/src/wasm.rs'
BIN = 'packages/compiler/src/bin/compiler.rs'
STRUCTS = 'packages/compiler/src/structs.rs'
EXT = 'packages/apis/src/extract_substrs.rs'
PAD = 'packages/apis/src/padding.rs'
AWASM = 'packages/apis/src/wasm.rs'
HELP = 'packages/circom/circuits/regex_helpers.circom'
COMMON = 'packages/circom/circuits/common'

NOGEN = 'No existing test runs the circuit generator; the quantifier ranges over every regex and every DFA, and a test could only sample a few generated texts.'
NODFA = 'The one DFA test matches sample strings against plain regexes; decomposed regexes, merged graphs and the quantifier over all regexes and part lists are out of its reach.'
NOAPI = 'The tests extract from a handful of sample mails; the statement ranges over every input string, configuration and flag.'
NOCIRC = 'The bundled circuits have no test that runs in this repository\'s stable suite; a witness test samples messages, the statement ranges over all of them.'

GEN = ['programs', 'inputs', 'configurations']
P = []


def prop(id, title, statement, over, text, why, files, mech, obl, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, obl=obl, note=note))


# ------------------------------------------------------------------ generated circuit
prop('C01', 'Every signal of a generated circuit is constrained',
     'In the circuit generated for any regex, every signal position that some constraint reads or that is output, and every component input, is itself tied down by a constraint: '
     'nothing the result depends on is left to the prover\'s choice, and no assignment without a constraint is ever emitted. '
     'This covers the range check, the byte tests, every state of every step, acceptance and the revealed bytes.',
     GEN, 'every regex, every DFA the front end can produce, every message length, with and without revealed parts and end anchor',
     NOGEN, [CIRCOM], [('emission of declarations, gates and constraints', CIRCOM)],
     ['R:assign_ops', 'T:targets', 'R:parity'],
     'emission grammar of the generator inferred from MIR; every declared signal and every gate input must be the target of a constraint')
prop('C02', 'Generated circuits index their gates consistently',
     'In every generated circuit each gate instance has its own index, the declared number of instances of a kind is exactly the number used, '
     'and a gate instantiated with n inputs has exactly its inputs 0 to n-1 driven. '
     'A cached gate is only reused by a test of exactly the same bytes or the same set of inputs.',
     GEN, 'every DFA, in particular every mix of range tests, single byte tests, shared tests and multi-way merges',
     NOGEN, [CIRCOM], [('gate counters and the caches of emitted tests', CIRCOM)],
     ['T:gates', 'T:state', 'T:accept', 'T:reveal', 'R:cache_keys', 'R:parity'],
     'the counters that index emitted gates are loop-carried values of the emission grammar; declared sizes, indices and fan-in are compared as terms')
prop('C03', 'Every message byte is range checked and fed to the automaton in order',
     'In every generated circuit each message byte is constrained to be less than 255, and the automaton reads exactly one leading sentinel 255 followed by the '
     'message bytes in order, so no message byte can pose as the start-of-text sentinel.',
     GEN, 'every regex and every message length and content, including adversarial field values',
     NOGEN, [CIRCOM], [('declarations of the input and its range check', CIRCOM)],
     ['T:msg', 'R:parity'],
     'the emitted statements over the message signals are matched symbolically in every alternative of the grammar')
prop('C04', 'Each transition tests exactly the bytes the automaton gives it',
     'For every transition of the automaton the generated circuit enables it exactly for the bytes on its label, except that the padding byte 0 never enables a transition: '
     'ranges and single bytes together cover the label and nothing else, with inclusive bounds on both ends.',
     GEN, 'every byte set on every edge, including sets that start at 0, end at 255, or mix long runs and single bytes',
     NOGEN, [CIRCOM], [('splitting of byte sets into ranges and single bytes, and emission of the byte tests', CIRCOM)],
     ['T:gates', 'R:parity'],
     'value graph of the range splitting and of the operands of every emitted comparison')
prop('C05', 'The state update of a generated circuit is the automaton\'s transition relation',
     'In every generated circuit a state is active after a byte exactly if some state with a matching transition into it was active before, where transitions leaving the start '
     'state fire only when no other state is active after the same byte. No transition of the automaton is dropped, duplicated onto another state or taken from the wrong state.',
     GEN, 'every DFA (any number of states, self loops, edges out of and into the start state), every message',
     NOGEN, [CIRCOM], [('reverse graph, transition gates and state updates', CIRCOM)],
     ['T:state', 'T:gates', 'R:cache_keys', 'R:parity'],
     'value graph of the emitted state updates, including the reverse graph, the gate wiring and the caches, compared with the confirmed relation; plus structural rules on coverage of all states')
prop('C06', 'The circuit output says whether the accepting state is reached',
     'The output of a generated circuit is 1 exactly when the accepting state of the automaton is active after some prefix of the input; if and only if the regex ends with an unescaped end anchor, '
     'additionally the accepting state has to be active exactly where the padding starts.',
     GEN, 'every regex with and without end anchor, every message and padding',
     NOGEN, [CIRCOM, REGEX], [('acceptance logic', CIRCOM), ('lookup of the accepting state', REGEX)],
     ['T:accept', 'R:parity', 'V:get_accepted_state',
      'V:ends_with_end_anchor', 'V:get_regex_and_dfa#has_end_anchor', 'V:create_regex_and_dfa_from_str_and_defs#has_end_anchor'],
     'the acceptance statements are extracted from the emission grammar and compared under both values of the anchor flag')
prop('C07', 'A circuit is only generated for an automaton with exactly one accepting state',
     'Generating a circuit for an automaton that does not have exactly one accepting state reports an error, both for the file and for the string output, and in that case no output file is created or overwritten.',
     ['programs', 'fault_sequences', 'configurations'], 'every automaton with zero, one or several accepting states, file and string output',
     NOGEN, [CIRCOM], [('checks before the file is created', CIRCOM)],
     ['E:gen_circom_string', 'E:gen_circom_template', 'W:gen_circom_template'],
     'the error condition and its order before the file effect are read off the gated value graph')
prop('C08', 'A byte is revealed only inside an accepted match',
     'A generated circuit reveals a message byte on the output of a public part only if the whole input is accepted, the byte is read by a transition that belongs to that part, and the byte lies on the run that leads to the accepting state; '
     'otherwise that output is 0. There is exactly one such output per public part, and it copies the message byte at its own position.',
     GEN, 'every regex, every set of public transitions, every message and position',
     NOGEN, [CIRCOM], [('reveal masks and consecutive-run logic', CIRCOM)],
     ['T:reveal', 'T:changed', 'R:parity'],
     'the reveal statements of the emission grammar are compared as value graphs and their gating inputs are checked structurally')
prop('C09', 'The revealed transitions are exactly those of the public parts',
     'For a decomposed regex the transitions marked for revealing are, per public part and in order, exactly the transitions of that part\'s automaton after merging, with the part\'s start replaced by the accepting states of what precedes it. '
     'Private parts contribute none. For a raw regex they are exactly the transitions given in the substring definitions, in the given order.',
     ['programs', 'configurations', 'inputs'], 'every decomposed regex, every combination of public and private parts, every substring definition file',
     NODFA, [REGEX], [('collection and renaming of public edges', REGEX)],
     ['V:update_public_edges', 'V:process_public_regex', 'V:get_regex_and_dfa', 'V:create_regex_and_dfa_from_str_and_defs',
      'V:load_substring_definitions_json', 'R:serde_formats'],
     'value graph of the public edge collection, including loop-carried sets')
prop('C10', 'Generated circuit text is complete for every combination of options',
     'Whatever the options, the generated circuit is one syntactically complete template with a balanced body, under the requested name, with the declared language version and helper include. '
     'The file contains exactly the text that the string interface returns when reveal logic is requested, and that text without the reveal logic otherwise.',
     ['programs', 'configurations'], 'every regex, template name, and reveal option; file and string interface',
     NOGEN, [CIRCOM, LIB, CWASM], [('text assembly of the file and string interfaces', CIRCOM)],
     ['R:parse', 'R:comment_lines', 'R:parity', 'T:header', 'W:gen_circom_template'],
     'the inferred emission grammar is parsed as circom syntax in every alternative; file effects and returned text are compared as terms')
prop('C11', 'Regex text cannot escape the comment it is printed in',
     'No regex text can add, change or remove code of a generated circuit: wherever regex text is written into the output, it is inside a line comment and every line break in it is escaped.',
     ['inputs', 'programs'], 'every regex text, including ones with raw line feeds and carriage returns',
     NOGEN, [CIRCOM], [('comment header of the generated file', CIRCOM)],
     ['R:comment', 'R:comment_lines'],
     'taint rule over the emission grammar: holes that carry regex text occur in comments only and pass through both line break replacements')
prop('C12', 'Generation is deterministic',
     'The same regex and options always generate byte-identical circuits, tables and automata: nothing in the output depends on hash seeds, time, randomness, the environment, threads or addresses.',
     ['histories', 'schedules', 'configurations'], 'every pair of runs with the same inputs, on any machine',
     'A test compares a few runs in one process; the statement ranges over all runs, seeds and environments.',
     [CIRCOM, REGEX, HALO2, LIB], [('use of ordered containers and absence of ambient inputs', REGEX)],
     ['R:determinism'],
     'who-may-call rule on resolved MIR callees and types reachable from the entry points')
# ------------------------------------------------------------------ front end
prop('C13', 'Automaton byte labels are decoded exactly',
     'Every byte label that the automaton printer can produce (plain bytes, escapes, quoted space, hexadecimal escapes, and ranges of these) is decoded to exactly the bytes it stands for: ranges are inclusive on both ends and an unreadable label is an error, never a different byte.',
     ['inputs', 'programs'], 'every label of every edge, all 256 byte values and all ranges',
     NODFA, [REGEX], [('label decoding table and range handling', REGEX)],
     ['V:parse_char', 'V:create_special_char_mappings', 'V:process_state_edges', 'R:label_table',
      'V:parse_states'],
     'value graph of the decoder; the escape table is additionally checked entry by entry against the meaning of the escapes')
prop('C14', 'Both input forms build the same kind of automaton',
     'A raw regex and every part of a decomposed regex are compiled as a whole, anchored at both ends, with the same automaton configuration (anchored start, minimised, no byte classes), '
     'and the parts\' own texts reach the automaton builder unmodified.',
     ['programs', 'inputs'], 'every regex text and every part text, including top-level alternations',
     NODFA, [REGEX], [('automaton construction', REGEX)],
     ['V:create_dfa_config', 'V:create_dfa_graph_from_regex', 'V:get_regex_and_dfa',
      'V:create_regex_and_dfa_from_str_and_defs#dfa'],
     'the argument of every call to the automaton builder is evaluated symbolically and must be the wrapped, otherwise unmodified text')
prop('C15', 'The end anchor is recognised exactly',
     'A regex is treated as end-anchored exactly if its last part ends with a dollar sign that is not escaped; an unescaped trailing dollar sign on an earlier part is an error. Raw and decomposed regexes follow the same rule.',
     ['inputs', 'programs'], 'every part list, any number of trailing backslashes before the dollar sign',
     NODFA, [REGEX], [('end anchor detection', REGEX)],
     ['V:ends_with_end_anchor', 'V:validate_end_anchor', 'V:get_regex_and_dfa', 'V:create_regex_and_dfa_from_str_and_defs', 'R:parity'],
     'value graph of the anchor detection and of its two uses')
prop('C16', 'The start anchor is split off without losing text or privacy',
     'A start anchor in the first part is split off into a leading part of its own that is always private; the two pieces together are exactly the original text. '
     'Only an unescaped caret outside character classes counts, and in the automaton it is the start-of-text sentinel 255 and no other byte.',
     ['inputs', 'programs'], 'every first part: escapes, character classes, nested groups, carets anywhere',
     NODFA, [REGEX], [('caret search, part split and sentinel edge', REGEX)],
     ['V:find_caret_index', 'V:process_caret_in_regex', 'V:create_simple_caret_graph', 'V:modify_graph_for_caret', 'V:handle_caret_regex', 'V:get_regex_and_dfa'],
     'value graph of the caret scan and of the part list rewrite')
prop('C17', 'Invalid input is reported as an error and never accepted or fatal',
     'For every regex, part list, substring definition and option, the compiler either succeeds or returns an error: it never panics on user input and never reports success after a step failed. '
     'An error in reading, parsing, automaton construction, decoding, generation or writing always reaches the caller.',
     ['inputs', 'configurations', 'fault_sequences'], 'every input and every failing file operation',
     'Tests of error paths are absent from the compiler; the statement ranges over every fault and input.',
     [REGEX, CIRCOM, HALO2, LIB, CWASM], [('error propagation through all stages', LIB)],
     ['E:*compiler', 'P:*compiler', 'R:dropped_results', 'R:partial_writes', 'R:buffered_writes',
      'R:serde_formats'],
     'the condition of every error exit is compared as a decision diagram; results that are dropped and panics on user-controlled conditions are reported from resolved MIR')
prop('C18', 'Merging parts keeps every transition and state apart',
     'When parts are merged the states of each part are renumbered consecutively from the number of the last state so far, the previous accepting states take over the next part\'s start transitions and accepting status, '
     'a byte that both use goes to the later part, transitions back to the start of a part lead to a state of its own unless the shared state has nothing else, and no other state, transition or accepting mark is added, lost or redirected.',
     ['programs'], 'every sequence of part automata',
     NODFA, [REGEX], [('state renaming and automaton concatenation', REGEX)],
     ['V:rename_states', 'V:add_dfa', 'V:get_regex_and_dfa', 'V:get_max_state'],
     'value graph of renaming and merging, including in-place updates of the state list')
prop('C19', 'Halo2 tables describe the same automaton and substrings as the circuit',
     'The transition table lists the start state 0, the accepting state and the largest state, then every transition of the automaton with every byte exactly once; '
     'the table of each public part lists its start states, its end states and exactly the revealed transitions of that part, in its own file. Without substring boundaries, substring tables are an error rather than a wrong file.',
     ['programs', 'configurations'], 'every automaton and substring definition, with and without substring tables',
     'No test generates halo2 tables; the statement ranges over every automaton and option.',
     [HALO2, LIB], [('table writers', HALO2)],
     ['V:dfa_to_regex_def_text', 'F:gen_halo2_tables', 'E:gen_halo2_tables', 'F:generate_outputs', 'V:get_max_state', 'V:get_accepted_state', 'V:process_public_regex',
      'V:get_regex_and_dfa#substrings', 'V:create_regex_and_dfa_from_str_and_defs#substrings'],
     'file effects and their contents are compared as value graphs')
prop('C20', 'Command line options reach the generator unchanged and failures exit non-zero',
     'Every command line option has a unique name within its command, is passed unchanged to the generator parameter it names, and an omitted option means absent. '
     'A failing generation is reported and the process exits with a non-zero status; nothing is generated that was not requested.',
     ['configurations', 'inputs', 'fault_sequences'], 'every command line, every failure of the generator',
     'No test runs the command line program.',
     [BIN, LIB], [('option parsing and dispatch', BIN), ('output selection', LIB)],
     ['F:main', 'F:process_decomposed', 'X:process_decomposed', 'F:process_raw', 'X:process_raw', 'F:generate_outputs', 'F:gen_from_decomposed', 'F:gen_from_raw',
      'F:gen_circom_from_decomposed_regex', 'V:load_substring_definitions_json', 'R:cli_options'],
     'calls and their arguments are effects of the gated value graph; the option tables built by the parser are read from MIR')
prop('C21', 'Only the documented files are touched',
     'Generating writes only the requested circuit file and, in the requested directory, the transition table and one table per public part, and reads only the definition files it was given. '
     'No other file, process, network or environment access happens, and the string interfaces and the extraction library touch no file at all.',
     ['configurations', 'inputs'], 'every entry point and option combination',
     'A test observes only the files it looks at; the statement excludes every other effect on all paths.',
     [LIB, CIRCOM, HALO2, EXT, CWASM], [('file access of the output writers', LIB)],
     ['W:gen_circom_template', 'W:gen_halo2_tables', 'W:generate_outputs', 'W:gen_from_decomposed', 'W:gen_from_raw', 'R:effects'],
     'who-may-call rule over the resolved call graph plus the symbolic path argument of every file effect')
prop('C22', 'The automaton is carried over completely',
     'Every state, accepting mark and transition of the compiled automaton is carried over into the graph used for generation, with the anchored text start state as state 0, '
     'end-of-input transitions turned into accepting marks, and states numbered in breadth-first order without gaps. Unreadable input is an error rather than a missing transition.',
     ['programs', 'inputs'], 'every compiled automaton',
     NODFA, [REGEX], [('conversion of the compiled automaton', REGEX)],
     ['V:convert_dfa_to_graph', 'V:parse_states', 'V:handle_eoi_transitions', 'V:find_start_state', 'V:sort_and_rename_states', 'V:process_state_edges',
      'V:create_dfa_graph_from_regex'],
     'value graph of the conversion pipeline, including the breadth-first numbering loop')
prop('C23', 'All interfaces generate from the same automaton of the same input',
     'The file interfaces, the string interfaces and the browser interfaces each parse their input, build the automaton once from exactly that input, and generate from that automaton; '
     'for the same input and options they agree. Template names, regex texts and definitions are passed on unmodified, and failures become errors of the interface.',
     ['programs', 'configurations', 'inputs'], 'every interface and every input',
     'No test calls the browser interfaces of the compiler or compares interfaces.',
     [LIB, CWASM], [('entry points', LIB), ('browser entry points', CWASM)],
     ['V:genFromDecomposed', 'V:genFromRaw', 'V:genRegexAndDfa', 'V:genCircom', 'V:gen_from_decomposed', 'V:gen_from_raw', 'V:gen_circom_from_decomposed_regex',
      'F:gen_from_decomposed', 'F:gen_from_raw', 'F:gen_circom_from_decomposed_regex',
      'V:load_substring_definitions_json', 'F:generate_outputs', 'V:get_regex_and_dfa#regex_pattern', 'V:create_regex_and_dfa_from_str_and_defs', 'R:serde_formats', 'R:parity'],
     'entry points are evaluated with the generator stages opaque; the composition of stages and all arguments are compared')
prop('C24', 'The reference matcher follows the automaton',
     'The built-in matcher accepts a string exactly if following the unique transition for every byte from state 0 never gets stuck and ends in an accepting state.',
     ['inputs', 'programs'], 'every automaton and every byte string',
     'The existing test samples a few strings per regex.',
     [REGEX], [('string matcher', REGEX)],
     ['V:match_string_with_dfa_graph'],
     'value graph of the matching loop')
# ------------------------------------------------------------------ extraction library
prop('A01', 'Private parts are never returned unless asked for',
     'Extraction returns the match of a private part only if revealing private parts was explicitly requested; otherwise it returns exactly the public parts, in their order.',
     ['inputs', 'configurations'], 'every input string, configuration and flag',
     NOAPI, [EXT], [('selection of the returned parts', EXT)],
     ['V:extract_substr_idxes',
      'R:serde_formats'],
     'the condition under which a position pair is appended is read off the value graph')
prop('A02', 'Every returned range is the match of its own part',
     'Extraction matches the concatenation of the unmodified parts, each as one group, and returns for every selected part the byte range of that part\'s group in the first match, whatever groups, escapes or alternations the parts themselves contain.',
     ['inputs', 'programs'], 'every list of part texts, including ones with groups of their own',
     NOAPI, [EXT], [('construction of the whole pattern and group numbering', EXT)],
     ['V:extract_substr_idxes',
      'R:serde_formats'],
     'value graph of the pattern text and of the group index bookkeeping')
prop('A03', 'Each ready-made extractor uses its own definition and hides private parts',
     'Each ready-made extractor, native or for the browser, uses the definition it is named after and never reveals private parts.',
     ['inputs', 'programs'], 'every ready-made extractor and every input',
     NOAPI, [EXT, AWASM], [('ready-made extractors', EXT), ('browser extractors', AWASM)],
     ['C:extract_email_addr_idxes', 'C:extract_email_domain_idxes', 'C:extract_from_all_idxes', 'C:extract_from_addr_idxes', 'C:extract_to_all_idxes', 'C:extract_to_addr_idxes',
      'C:extract_subject_all_idxes', 'C:extract_body_hash_idxes', 'C:extract_timestamp_idxes', 'C:extract_message_id_idxes',
      'C:extractEmailAddrIdxes', 'C:extractEmailDomainIdxes', 'C:extractFromAllIdxes', 'C:extractFromAddrIdxes', 'C:extractToAllIdxes', 'C:extractToAddrIdxes',
      'C:extractSubjectAllIdxes', 'C:extractBodyHashIdxes', 'C:extractTimestampIdxes', 'C:extractMessageIdIdxes'],
     'the definition text and the flag that reach the extraction routine are constants of the value graph; they are matched with the definition files by name')
prop('A04', 'Padding keeps the text and appends only zero bytes',
     'Padding returns exactly the bytes of the text followed by zero bytes up to the requested length; a text longer than the requested length is never truncated.',
     ['inputs'], 'every text and length',
     'The tests pad at most a few strings.',
     [PAD, AWASM], [('padding', PAD)],
     ['D:pad_string', 'R:padding', 'V:padString', 'J:padString'],
     'value graph of the padded byte sequence')
prop('A05', 'Browser extraction returns what native extraction returns',
     'The browser interfaces return element by element what the native functions return for the same text, configuration and flag, accept the configuration as text or as an object, and turn every failure into a thrown error.',
     ['inputs', 'configurations'], 'every input, configuration form and flag',
     NOAPI, [AWASM], [('browser wrappers', AWASM)],
     ['V:padString', 'J:padString', 'V:extractSubstrIdxes', 'J:extractSubstrIdxes', 'V:extractSubstr', 'J:extractSubstr', 'V:parse_js_regex_config',
      'R:serde_formats'],
     'wrappers are evaluated with the native functions opaque; arguments, element positions and error exits are compared')
prop('A06', 'Extracted strings are the text at the extracted ranges',
     'Extracting strings returns, for the same text, configuration and flag, exactly the slices of the text at the ranges that extracting ranges returns, in the same order.',
     ['inputs', 'configurations'], 'every input, configuration and flag',
     NOAPI, [EXT], [('string extraction', EXT)],
     ['V:extract_substr'],
     'value graph with the range extraction opaque')
prop('A07', 'Extraction never aborts on user input',
     'For every text, configuration and flag, extraction returns ranges or an error: an invalid part, an invalid whole pattern, a failing or missing match are errors, and no input makes it abort.',
     ['inputs', 'fault_sequences'], 'every input, including invalid patterns and texts that do not match',
     NOAPI, [EXT, AWASM], [('error handling of extraction', EXT)],
     ['E:extract_substr_idxes', 'E:extract_substr', 'E:extractSubstrIdxes', 'E:extractSubstr', 'E:parse_js_regex_config', 'P:*apis'],
     'error exits are compared as decision diagrams; panics on user-controlled conditions are reported from MIR')
# ------------------------------------------------------------------ bundled circuits
prop('B01', 'Each bundled circuit accepts exactly the language of its definition',
     'Each bundled circuit that has a definition encodes a deterministic automaton for exactly that definition: the automaton of its parts merged in order (a byte that the next part can start with belongs to the next part, '
     'and the padding byte 0 never enables a transition), with the same accepted language for all inputs, the sentinel and the message read in order, and the accepting state looked up at every position.',
     ['inputs', 'programs'], 'every bundled circuit with a definition, every message',
     NOCIRC, [COMMON], [('bundled regex circuits', COMMON)],
     ['R:b_language'],
     'the automaton is recovered from the circuit text and compared with the automaton of the definition by product construction')
prop('B02', 'Each bundled circuit reveals exactly the public parts of its definition',
     'Each bundled circuit that has a definition has one reveal output per public part, which is gated by acceptance and by the transitions of that part; private bytes never reach an output.',
     ['inputs', 'programs'], 'every bundled circuit with a definition, every message',
     NOCIRC, [COMMON], [('reveal logic of the bundled circuits', COMMON)],
     ['R:b_reveal'],
     'reveal edges are recovered from the circuit text and compared with the edges of the public parts of the definition')
prop('B03', 'Every signal of the bundled circuits is constrained',
     'In every bundled circuit and helper every signal position that is read or output and every component input is tied down by a constraint, nothing is assigned without a constraint, '
     'message bytes are range checked in every circuit that has a definition, and every gate and sub-circuit used is included.',
     ['inputs', 'programs'], 'every template of the bundled circuits and helpers, every position',
     NOCIRC, [COMMON, HELP], [('bundled circuits', COMMON), ('helper gates', HELP)],
     ['R:b_constrained'],
     'assignment coverage of every declared signal and component input over index ranges of the loops')
prop('B04', 'Helper gates compute their logical function',
     'Each helper gate of the circuit library constrains its output to the logical function it is named after, for every number of inputs, given boolean inputs.',
     ['inputs', 'programs'], 'every gate arity, every boolean input',
     NOCIRC, [HELP], [('helper gates', HELP)],
     ['R:b_helpers'],
     'the constraint polynomials of each helper are normalised and compared with the gate\'s function')
prop('B05', 'Composite bundled circuits wire their parts soundly',
     'The composite circuits return an address only if all the sub-circuits they rely on accept the same message in the required combination, and every output is taken from the sub-circuit meant for it.',
     ['inputs', 'programs'], 'every composite circuit, every message',
     NOCIRC, [COMMON], [('composite circuits', COMMON)],
     ['R:b_composite'],
     'wiring of component inputs and outputs is extracted from the circuit text and compared as linear forms')
prop('B06', 'The definitions shipped with library and circuits agree',
     'A definition that is shipped both with the extraction library and with the circuits has the same parts in both places: the same texts with the same public flags.',
     ['programs', 'configurations'], 'every shared definition',
     'No test compares the two copies.',
     [COMMON, 'packages/apis/src/decomposed_defs'], [('definition files', COMMON)],
     ['R:b_sync'],
     'both copies are parsed and compared part by part')
prop('B07', 'Shipped header definitions match one header line and reveal nothing beyond it',
     'Every shipped definition for a mail header (from, to, subject, message id, body hash, timestamp) only matches text that begins, at the start of the text or directly after a line break, with the name of that header, '
     'and no public part of it can match a line break, so revealed text always lies within one line.',
     ['inputs', 'programs'], 'every header definition of the extraction library and of the circuits, every text',
     'The tests extract from a few well-formed mails; the statement ranges over every text, including forged and folded headers.',
     ['packages/apis/src/decomposed_defs', COMMON], [('header definitions', 'packages/apis/src/decomposed_defs')],
     ['R:b_headers'],
     'the regexes of the definition files are compiled to automata; the prefix and line break conditions are decided on all words by product construction')

NA = [
    ('N01', 'Merged automata accept the concatenation of the parts\' languages',
     'For every decomposed regex the merged automaton accepts exactly the concatenation of the languages of its parts.',
     'the merge rule is deliberately greedy (a byte used by both sides goes to the later part), so the statement depends on run-time automata; only the bookkeeping of the merge (C18) is visible in the code'),
    ('N02', 'Extraction and circuit agree on ambiguous matches',
     'For every input the native extraction and the generated circuit reveal the same bytes.',
     'relates the backtracking matcher of a third-party crate with a circuit over run-time automata; no static argument in reach bounds it'),
    ('N03', 'Compile time and circuit size stay practical',
     'For every regex of the documented kind generation terminates in reasonable time and size.',
     'quantifies over run-time automaton sizes and time'),
]

ASSUMPTIONS = [
    'the confirmed tree (facts committed under /verif/ref) satisfies the properties; it was confirmed by reading and, where it did not, repaired (see DESIGN.md)',
    'models of the standard library and of the third-party crates (regex, regex-automata, fancy-regex, serde) are right; their calls are uninterpreted functions of their arguments unless modelled',
    'integers are unbounded naturals in the value graph; overflow checks are panics',
]


def write():
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(v, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        for i, t, s, r in NA:
            fh.write(json.dumps({'id': i, 'title': t, 'statement': s, 'quantifier': {'over': ['programs', 'inputs'], 'text': 'every regex and input'},
                                 'why_tests_cant': 'Tests sample a few regexes and inputs.',
                                 'anchors': {'files': [REGEX], 'mechanism': [{'name': 'automaton construction and merging', 'where': REGEX}]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [{'property': i, 'reason': r} for i, t, s, r in NA]}
    for p in P:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 sa/check.py %s quick' % p['id'], 'thorough_cmd': 'python3 sa/check.py %s thorough' % p['id'],
                            'technique': TECH, 'level': 'other', 'level_note': p['note'][:1].upper() + p['note'][1:] + '.'})
    with open(os.path.join(v, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


TECH = 'static analysis: gated value numbering of rustc MIR (abstract interpretation with joins), emission grammar inference, value graph comparison with the confirmed instance, structural rules over the inferred grammar and the resolved call graph'

if __name__ == '__main__':
    write()
