"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real Python code + z3 (path-exhaustive, bounded)'


def P(id, title, statement, over, qtext, why, files, mech, note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=files, mech=mech, note=note, na=na)


PROPS = [
P('P01', 'A StringView is observationally equal to the str it denotes',
  'Every operation on a string view (slicing, indexing, searching, counting, prefix and suffix tests, stripping, splitting, comparing, concatenating, replacing, regular-expression matching) gives the result that the same operation gives on the string which the view denotes. No operation ever looks at or returns text outside the borders of the view, and no operation changes the view or depends on whether it has been read before.',
  ['inputs'], 'all texts, all view borders, all arguments of the operations',
  'The tests sample a handful of views and arguments; errors sit at border indices (negative, beyond the end, empty views, needles straddling the border of the view).',
  ['DHParser/stringview.py'], [('slicing, searching and stripping relative to view borders', 'DHParser/stringview.py: StringView, real_indices, fast_real_indices')]),
P('P02', 'Line, column and text position determine each other',
  'For every text and every position from 0 to its length, the reported line and column are those obtained by counting line feeds, other positions are rejected, and mapping the line and column back yields the position again (or -1 if they do not exist). The start and end locations attached to an error are the line and column of its position and of its end clipped to the end of the text.',
  ['inputs'], 'all texts, positions, lines, columns and error lengths',
  'Tests check a few fixed texts; off-by-one errors appear only with leading, trailing or consecutive line feeds, empty texts or positions at the very end.',
  ['DHParser/toolkit.py', 'DHParser/error.py'], [('line break table and bisection', 'DHParser/toolkit.py: linebreaks, line_col, text_pos'), ('location of errors', 'DHParser/error.py: add_source_locations')]),
P('P03', 'Incremental edits of a text buffer equal splicing the text',
  'After any sequence of edits given by line and column ranges, the text buffer contains exactly the text that results from replacing the corresponding ranges in the text, with uniform line endings. Reading the buffer in between, in whatever format, neither changes its content nor the outcome of later edits, and every snapshot uses the requested line ending.',
  ['inputs', 'histories'], 'all texts, all sequences of edits and reads in between',
  'Only two edits of one fixed text are tested; stale caches and line-joining errors need particular sequences of edits and snapshots.',
  ['DHParser/stringview.py'], [('line-oriented buffer and cached text', 'DHParser/stringview.py: TextBuffer')]),
P('P04', 'Parsers recognise exactly what PEG semantics prescribes',
  'For every grammar built from the elementary and combined parsers (literals, regular expressions, any character, sequence, ordered choice, option, repetitions with and without bounds, interleave, positive and negative lookahead and lookbehind) and every text, parsing from any symbol matches exactly the prefix that the semantics of parsing expression grammars determines. Memoization and the reuse of sub-parsers at several places never change the result.',
  ['inputs', 'programs'], 'all texts over the alphabet of the grammar, for a family of grammars that covers every combinator and their nesting',
  'Tests check selected grammars on selected texts; the rare cases are combinations (empty matches inside repetitions, back-tracking over memoized results, bounded repetitions at their bounds).',
  ['DHParser/parse.py'], [('parser classes', 'DHParser/parse.py: Text, IgnoreCase, RegExp, AnyChar, Series, Alternative, Option, ZeroOrMore, OneOrMore, Counted, Interleave, Lookahead, NegativeLookahead, Lookbehind'), ('memoization', 'DHParser/parse.py: Parser.__call__')]),
P('P05', 'Concrete syntax trees are lossless and errors mark incomplete matches',
  'Whenever a text is parsed, with or without errors and however often parsing is retried, the content of the tree equals the text (a byte order mark and, if a warning says so, trailing whitespace excepted), and the position of every node equals the length of the content before it. Parsing yields no error of severity ERROR if and only if the start symbol matches the complete text, and every error lies within the text (its end included).',
  ['inputs', 'programs'], 'all texts over the alphabet, for a family of grammars including error cases',
  'Tests look at individual trees; loss of content shows only for particular combinations of optional and failing parts, or of stumbling and resuming.',
  ['DHParser/parse.py', 'DHParser/nodetree.py'], [('parsing driver, stitching of unparsed rest', 'DHParser/parse.py: Grammar.__call__'), ('positions', 'DHParser/nodetree.py: Node.with_pos, RootNode')]),
P('P06', 'Left-recursive grammars match like their iterated equivalents',
  'A grammar with direct or indirect (but not interwoven) left recursion matches exactly the texts (and the same prefixes) that the equivalent grammar with left recursion replaced by iteration matches, the parse tree is left-associative, and parsing always terminates.',
  ['inputs', 'programs'], 'all texts over the alphabet, for a family of left-recursive grammars',
  'The result depends on the interplay of the seed-growing loop with memoization and backtracking for a given text; tests sample few texts.',
  ['DHParser/parse.py'], [('seed and grow', 'DHParser/parse.py: Forward.__call__')]),
P('P07', 'Parsing does not depend on the history of the grammar object',
  'The tree, the errors and the variables left over from parsing a text are the same whether the grammar object is fresh or has parsed any sequence of other texts, from any start symbols and with any outcome (including failures and cancellations), before. The same holds for a copy of the grammar object.',
  ['histories', 'inputs'], 'all pairs of texts and start symbols, every outcome of the first parse',
  'Tests re-use a grammar for a few texts; state leaking from particular failures (errors, left-over captures, pending rollbacks) needs specific histories.',
  ['DHParser/parse.py'], [('reset of memo, variables, rollback stack', 'DHParser/parse.py: Grammar.reset__, Grammar.__call__')]),
P('P08', 'Captured variables follow the accepted derivation only',
  'Retrieving or popping a variable matches the text most recently captured and not yet popped on the derivation that is finally accepted; captures and pops made on derivations that were abandoned by backtracking or made within a lookahead have no effect, however results are memoized. Values still captured at the end of a parse are reported.',
  ['inputs', 'programs'], 'all texts over the alphabet for a family of context-sensitive grammars with backtracking',
  'The interplay of rollback and memoization depends on where exactly backtracking occurs; tests cover single examples.',
  ['DHParser/parse.py'], [('rollback', 'DHParser/parse.py: ContextSensitive, Capture, Retrieve, Pop, Grammar.push_rollback__, rollback_to__')]),
P('P09', 'Mandatory items: one error at the first violation, recovery as configured',
  'If a mandatory item does not match, exactly one error for it is reported at the location of failure with the configured message; if skip or resume rules exist, parsing continues at precisely the location the first applicable rule determines, and no text is lost or parsed twice. Texts that match the grammar never cause such errors.',
  ['inputs', 'programs', 'fault_sequences'], 'all texts over the alphabet for grammars with mandatory markers, skip- and resume-rules of every kind',
  'Recovery depends on the interplay of error location, rule kind and surrounding text; tests cover single texts.',
  ['DHParser/parse.py'], [('reentry point, error violation', 'DHParser/parse.py: MandatoryNary, reentry_point, Parser.__call__')]),
P('P10', 'Tree reduction and early dropping only remove what they promise to remove',
  'Reducing the tree while parsing (at any level) leaves the content and the named nodes and their order untouched, and dropping content while parsing yields the same result as first parsing without dropping and then removing the nodes in question. Neither influences which texts match.',
  ['inputs', 'programs', 'configurations'], 'all texts over the alphabet, all reduction levels and drop settings for a family of grammars',
  'Reduction is implemented several times inside the parsers for speed; differences show only for particular nestings of anonymous, disposable and empty nodes.',
  ['DHParser/parse.py'], [('reduction', 'DHParser/parse.py: CombinedParser._return_value*, Grammar')]),
P('P11', 'Tracing and history recording do not change the result of parsing',
  'Parsing with any kind of tracing or history recording switched on gives the same tree and the same errors as parsing without, for every text.',
  ['inputs', 'configurations'], 'all texts over the alphabet for a family of grammars, with and without tracing',
  'Tests trace selected texts and look at the history only.',
  ['DHParser/trace.py', 'DHParser/parse.py'], [('trace_history replaces the call of each parser', 'DHParser/trace.py: trace_history, set_tracer, resume_notices_on')]),
P('P12', 'Trees survive serialization as S-expression or SXML and parsing back',
  'For every tree, writing it as S-expression in any layout and reading it back gives an equal tree, including attributes and characters that need quoting.',
  ['inputs'], 'all small tree shapes with arbitrary names, contents and attribute values',
  'Quoting errors appear only for particular characters (quotes, backslashes, line feeds, brackets) at particular places.',
  ['DHParser/nodetree.py'], [('S-expression writer and reader', 'DHParser/nodetree.py: Node.as_sxpr, parse_sxpr, flatten_sxpr')]),
P('P13', 'Trees survive serialization as JSON and parsing back',
  'For every tree, writing it as JSON in any flavour and reading it back gives an equal tree, with attributes and, if written, positions.',
  ['inputs'], 'all small tree shapes with arbitrary names, contents and attribute values',
  'Some names or contents collide with the conventions of the JSON encoding.',
  ['DHParser/nodetree.py'], [('JSON form', 'DHParser/nodetree.py: Node.to_json_obj, Node.from_json_obj, as_json, parse_json')]),
P('P14', 'Trees survive serialization as XML and parsing back',
  'For every tree that XML can represent, writing it as XML and reading it back gives an equal tree, with texts in the escaped form in which they stand in the XML; special characters in content and attribute values are always escaped, so the output is well-formed.',
  ['inputs'], 'all small tree shapes with arbitrary contents and attribute values',
  'Escaping and inlining rules interact for particular characters and tree shapes.',
  ['DHParser/nodetree.py'], [('XML writer and reader', 'DHParser/nodetree.py: Node.as_xml, parse_xml')]),
P('P15', 'Node trees keep content, length and positions consistent',
  'For every tree the length equals the length of its content, assigning positions gives every node the sum of the lengths of everything before it, and inserting, replacing, removing or indexing children behaves like the corresponding operation on a list of children. Copies are equal to and independent of the original.',
  ['inputs', 'histories'], 'all small tree shapes and contents, all arguments of the operations',
  'Caches for content and length become stale only after particular sequences of operations.',
  ['DHParser/nodetree.py'], [('Node', 'DHParser/nodetree.py: Node, LeafNode, RootNode')]),
P('P16', 'Content mappings locate every text position in the tree',
  'For every tree and every selection of nodes, the path found for a position of the selected content leads to the leaf that contains the character at this position, at the offset reported, and the positions of the paths increase from 0 to the length of the content. Positions outside are rejected.',
  ['inputs'], 'all small tree shapes and contents, all positions, all selections',
  'Ties at borders and empty leaves decide; tests use a few positions in a few trees.',
  ['DHParser/nodetree.py'], [('ContentMapping', 'DHParser/nodetree.py: ContentMapping')]),
P('P17', 'Markup, splitting and inserting nodes preserve content and order',
  'Adding markup to any range of the content, inserting nodes, or splitting nodes leaves the content unchanged (apart from what was inserted), the added elements cover exactly the given range, and nodes that may not be split stay in one piece.',
  ['inputs'], 'all small tree shapes and contents, all ranges, all divisibility settings',
  'Ranges starting or ending inside, at the border of, or between nested elements combine in many ways.',
  ['DHParser/nodetree.py'], [('markup', 'DHParser/nodetree.py: ContentMapping.markup, insert_node, split_node, deep_split, markup_left, markup_right')]),
P('P18', 'Tree and path navigation agrees with document order',
  'Selecting, picking and navigating (previous/next sibling or path, leaf paths, common ancestors, reversed or with skipped subtrees) visits exactly the nodes that a traversal in document order prescribes, in that order.',
  ['inputs'], 'all small tree shapes, all selectors and starting points',
  'Skipping, reversing and include-root combine in ways the tests do not cover.',
  ['DHParser/nodetree.py'], [('selection and paths', 'DHParser/nodetree.py: select_if, select_path_if, pick, next_path, prev_path, find_common_ancestor')]),
P('P19', 'Tree transformations preserve content and order unless told otherwise',
  'Transformations that restructure a tree (flattening, collapsing, replacing by child or children, merging adjacent, moving fringes) keep its content and the order of the leaves; transformations that remove something remove exactly the nodes that satisfy their condition. Traversal applies the transformations listed for a node once per node, depth first.',
  ['inputs', 'programs'], 'all small tree shapes, names and contents for each transformation',
  'Tests transform single trees; loss of content depends on position and neighbours of the nodes affected.',
  ['DHParser/transform.py'], [('transformations', 'DHParser/transform.py')]),
P('P20', 'Positions survive preprocessing: source maps point to the original text',
  'For every preprocessed text, each position is mapped to the document and position in the original text from which the character at this position stems, through any chain of preprocessors and includes. The mapping never leaves the bounds of the original document and never moves backwards within a document section.',
  ['inputs', 'programs'], 'all texts with tokens, includes and chains of preprocessors within bounds; all positions, including the end',
  'Tests check a few positions of a few texts; borders of tokens and includes are the rare cases.',
  ['DHParser/preprocess.py'], [('source maps', 'DHParser/preprocess.py: gen_neutral_srcmap_func, tokenized_to_original_mapping, source_map, srcmap_includes, make_preprocessor, chain_preprocessors')]),
P('P21', 'The error registry loses no error, keeps order, and reports the right severity',
  'However errors are added to a tree, the list of errors is sorted by position, contains every distinct error exactly once, and the overall severity and the attribution of errors to nodes agree with that list.',
  ['inputs', 'histories'], 'all sequences of additions with arbitrary codes, positions and nodes',
  'Tests add a few errors; order and duplicates matter only for particular sequences.',
  ['DHParser/nodetree.py', 'DHParser/error.py'], [('registry', 'DHParser/nodetree.py: RootNode.add_error, new_error, errors, errors_sorted, node_errors, transfer_errors'), ('severity', 'DHParser/error.py: is_error, has_errors, only_errors')]),
P('P22', 'Compilation pipelines equal the composition of their stages',
  'Running a pipeline of junctions gives, for every target, what running the stages on the path to that target one after the other gives; shared intermediate results are never corrupted by another branch. A stage runs only if the earlier stages have not raised fatal errors, and errors of all stages are reported.',
  ['inputs', 'configurations', 'fault_sequences'], 'all small junction graphs, all target sets, all outcomes of the stages',
  'Tests run one or two pipelines; copy-avoidance is the risk and depends on the graph and the set of targets.',
  ['DHParser/compile.py'], [('pipeline', 'DHParser/compile.py: run_pipeline, compile_source, process_tree')]),
P('P23', 'A compiled EBNF grammar accepts what its source denotes in any syntax variant',
  'The parser generated from an EBNF source accepts exactly the texts that the source denotes, irrespective of the syntax variant used to write it, of redundant grouping, and of optimization settings.',
  ['inputs', 'programs', 'configurations'], 'all texts over the alphabet, for families of sources covering each construct, syntax variant and optimization',
  'Tests compare generated code and parse single texts.',
  ['DHParser/ebnf.py', 'DHParser/dsl.py', 'DHParser/parse.py'], [('EBNF compiler', 'DHParser/ebnf.py: EBNFCompiler, HeuristicEBNFGrammar, optimizations')]),
P('P24', 'Server messages are framed correctly however the stream is chunked',
  'A stream of messages with headers is split into exactly the messages sent, however the bytes are divided into chunks; nothing of a message is lost, duplicated or attributed to its neighbour.',
  ['inputs', 'schedules'], 'all contents of small messages and all ways of chunking the stream',
  'Chunk borders inside headers or multi-byte characters occur only under particular timing.',
  ['DHParser/server.py'], [('framing', 'DHParser/server.py: StreamReaderProxy, read_full_block, split_header, gen_lsp_msg')]),
P('P25', 'JSON dumped by the toolkit is equivalent to the standard library\'s',
  'For every value, the JSON text written by the toolkit, with or without partially serialized parts, denotes the same value as the JSON text of the standard library, and RPC requests and responses built from it are valid JSON.',
  ['inputs'], 'all small values with arbitrary strings',
  'Escaping only matters for particular characters.',
  ['DHParser/toolkit.py'], [('JSON', 'DHParser/toolkit.py: json_dumps, json_rpc, JSONstr')]),
P('P26', 'Token-valued attributes behave like ordered sets of tokens',
  'Adding, removing and testing tokens or classes of an attribute affects exactly these tokens, never tokens that merely contain or share text with them, and keeps the order of the others.',
  ['inputs', 'histories'], 'all attribute values and tokens over a small alphabet',
  'Tests use tokens that are not substrings of each other.',
  ['DHParser/nodetree.py'], [('token sequences', 'DHParser/nodetree.py: has_token, add_token, remove_token, eq_tokens')]),
P('P27', 'Configuration changes are visible where they should be and nowhere else',
  'A configuration value read by a thread is the last value set in that thread or else the preset in force when it was first read; presets set later affect new threads only; values are validated; reading groups of values agrees with reading each value.',
  ['histories', 'configurations'], 'all sequences of sets, presets and reads within bounds, over keys with and without declared value sets',
  'Only particular sequences of presets, reads and thread starts reveal leaks.',
  ['DHParser/configuration.py'], [('configuration', 'DHParser/configuration.py')]),
P('P28', 'Text tools of the toolkit keep the text intact and well-formed',
  'Tools that wrap, escape, normalize, split or analyse text (bracket matching, wrapping, escaping, docstring normalization, abbreviation, lists and tables, paths) return what they document for every text and never lose or reorder characters.',
  ['inputs'], 'all short texts over an adversarial alphabet',
  'Tests use a few well-behaved texts.',
  ['DHParser/toolkit.py'], [('tools', 'DHParser/toolkit.py')]),
P('P29', 'Copies of grammars and trees are equal to and independent of the original',
  'A deep copy of a grammar, parser or tree gives the same results as the original, and using or changing the copy never affects the original or the other way round.',
  ['inputs', 'histories'], 'all texts over the alphabet and small trees, all orders of use of original and copy',
  'Shared mutable state shows only for particular uses of both objects.',
  ['DHParser/parse.py', 'DHParser/nodetree.py'], [('deep copy', 'DHParser/parse.py: Parser.__deepcopy__ and subclasses; DHParser/nodetree.py: Node.__deepcopy__, RootNode.__deepcopy__')]),
P('P30', 'Grammar unit tests pass exactly if the grammar does what they demand',
  'A match-test passes exactly if the symbol matches the whole text without errors, a fail-test exactly if it does not, an AST-, CST- or stage-test exactly if the tree or result equals the expected one. The outcome of one test does not depend on the other tests or on an earlier run, and test units come back unchanged when they are written to a configuration file and read again.',
  ['inputs'], 'all small grammars, texts of test cases and expected trees, all combinations of tests in a unit, all texts in configuration files within the bounds',
  'The test machinery is what other tests rely on; a test that passes or fails wrongly is not noticed by them.',
  ['DHParser/testing.py'], [('unit tests', 'DHParser/testing.py: grammar_unit, reset_unit, lookahead artifacts'), ('configuration files', 'DHParser/testing.py: unit_from_config, unit_to_config, merge_test_units')]),
P('P31', 'The compiler visits every node once and dispatches by name',
  'Compiling a tree calls for every node the method belonging to its name (or the fallback), before- and after-hooks in the documented order, keeps the path to the current node correct, and leaves tree structure, attributes and errors alone except as the methods demand.',
  ['inputs'], 'all small trees and names, including names with special characters',
  'Tests compile single trees.',
  ['DHParser/compile.py'], [('dispatch', 'DHParser/compile.py: Compiler')]),
P('P32', 'Tree equality and node selectors are what they say',
  'Two trees are reported equal exactly if names, contents, structure and attributes are equal, and every kind of node selector (name, set of names, regular expression, function, node) selects exactly the nodes satisfying it.',
  ['inputs'], 'all pairs of small trees, names and attribute values, all kinds of selectors',
  'Tests compare a few trees.',
  ['DHParser/nodetree.py'], [('equality, match functions', 'DHParser/nodetree.py: Node.equals, create_match_function, create_path_match_function')]),
P('P33', 'Cancelling a parse at any moment ends it cleanly',
  'If parsing or compiling is cancelled at any point, it ends without an exception and with exactly one error saying so; if the query never asks to cancel, the result is the same as without a query. Afterwards, the grammar or compiler object is as good as new.',
  ['schedules', 'inputs'], 'every poll of the cancellation query, all texts over the alphabet',
  'Tests cancel at most at one point.',
  ['DHParser/parse.py'], [('cancel query', 'DHParser/parse.py: CancelError, Grammar.__call__, Parser.__call__')]),
P('P34', 'Results do not depend on the number of worker processes or threads',
  'Batch processing, grammar tests and pipelines deliver the same results whether they are run serially, in threads or in a pool of processes.',
  ['schedules'], 'all schedules of workers', 'Tests run on one schedule only.',
  ['DHParser/dsl.py', 'DHParser/testing.py', 'DHParser/toolkit.py'],
  [('executors', 'DHParser/toolkit.py: MultiCoreManager, SingleThreadExecutor, instantiate_executor')],
  na='operating-system processes and pickling through pipes: the code that decides the outcome lies in C extensions and the kernel, which symbolic execution of the Python code cannot encode; the sequential code of each worker is covered by the other properties'),
P('P35', 'The server survives concurrent clients and always answers or rejects requests',
  'However requests of several clients interleave, each request is answered exactly once on the connection it came from, cancelled requests excepted, and the server can always be shut down.',
  ['schedules', 'fault_sequences'], 'all interleavings of requests, cancellations and disconnections',
  'Tests use one client at a time.',
  ['DHParser/server.py'], [('server loop', 'DHParser/server.py: Server, Connection')],
  na='asyncio event loop, sockets and process/thread pools: no encoding of event-loop, socket and executor internals is within reach; the sequential framing code is checked as P24'),
P('P36', 'Compiled (Cython) and interpreted modules behave identically',
  'Building the modules with Cython changes the speed but not the behaviour of the library.',
  ['configurations'], 'all inputs, with and without compilation', 'Tests run uncompiled.',
  ['DHParser/parse.pxd', 'DHParser/stringview.pxd', 'DHParser/nodetree.pxd', 'DHParser/toolkit.pxd'],
  [('type declarations', 'DHParser/*.pxd')],
  na='Cython is not installed in the sandbox, so the compiled modules (the C code generated from the declarations) do not exist here and cannot be encoded'),
P('P37', 'Regenerating a DSL script keeps hand-written sections and matches the grammar',
  'Recompiling a grammar rewrites the generated sections of the parser script only, keeps all other sections verbatim, and happens whenever the grammar has changed.',
  ['histories', 'crash_points'], 'all sequences of edits of grammar and script', 'Tests recompile one project once.',
  ['DHParser/dsl.py'], [('compile_on_disk', 'DHParser/dsl.py: compile_on_disk, recompile_grammar, grammar_changed')],
  na='the behaviour is file-system effects plus executing the generated script in a subprocess; neither the file system nor the generated module text (tens of kilobytes of concrete text) gives the solver anything to vary within reach'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['na'] is None and os.path.exists(os.path.join(HERE, 'harness', p['id'] + '.py')):
            checks.append({
                'property': p['id'],
                'quick_cmd': 'python3-vt -m symx.check %s quick' % p['id'],
                'thorough_cmd': 'python3-vt -m symx.check %s thorough' % p['id'],
                'technique': TECH, 'level': 'model_checking',
                'level_note': p['note'] or 'exhaustive over all symbolic inputs within the bounds '
                'listed per job in the evidence file; nothing is claimed beyond them'})
        else:
            na.append({'property': p['id'],
                       'reason': p['na'] or 'no check built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3-vt -m symx.check SELF quick', 'checks': checks,
                   'not_applicable': na}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
