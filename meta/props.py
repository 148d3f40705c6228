S = "typst/syntax/"

HOOKS = ("No hook is committed in /repo. ./check builds /repo's working tree with go build -overlay: the monitors "
         "(/verif/harness/h) become the command cmd/zzverif of the module, so that they reach its internal packages, and "
         "for the properties about unexported behaviour -tags verifshim adds /verif/harness/shim to package syntax.")

NOTES = ("All checks run the real code under generated workloads and judge every execution with an oracle; "
         "the thorough commands run the same monitors on 20 to 40 times as many cases. Genuine defects found on the way are "
         "repaired by the fix: commits in /repo and listed in known_findings.txt.")

PROPS = []


def prop(**k):
    PROPS.append(k)


prop(
    id="P01",
    title="Parsing keeps every byte of the source text",
    statement="For every text, the concatenation of the token texts of the parsed tree, in order, is exactly that text: nothing is lost, duplicated, reordered or altered, whether or not the text is valid Typst. Tokens are never empty except where an error marks something missing, and never split a character.",
    over=["inputs", "programs"],
    forall="all source texts: generated well-formed documents, mutated documents, token and character soup including unusual line ends, U+FFFD, NUL, BOM and multi-byte text, cut-off constructs",
    why="The tests parse a handful of short texts and look at highlighting tags or re-parsing only; the printing tools and every byte offset rely on this for all texts, including broken ones.",
    files=[S + "parser.go", S + "lexer.go", S + "node.go", "internal/scanner/scanner.go"],
    mech=[("token to node conversion keeping the text", S + "lexer.go next/raw; " + S + "parser.go eat, Parser_lex"),
          ("turning nodes into errors keeps their text", S + "node.go convert_to_error"),
          ("checkpoint and rewind for parenthesised expressions", S + "parser.go restore_memo_or_checkpoint, memoize_parsed_nodes")],
    observe=["Parse", "tree leaves"],
    technique="runtime monitor: leaf concatenation and token boundary invariant over generated texts",
    note="Every parsed tree is flattened and its leaves compared with the source byte by byte. Exploration only: holds on the texts run, whose tree shapes are counted.",
)
prop(
    id="P02",
    title="Parsing always ends, in bounded work, with the same result",
    statement="Parsing ends without a crash for every text, and parsing the same text again gives the same tree. The work stays polynomial in the length of the text, in particular for deeply nested and ambiguous constructs such as parentheses that may turn out to be arrays, patterns or parameters, and in proportion to its length for text that is long without being nested.",
    over=["inputs", "programs"],
    forall="all texts, including families of deep nesting, nested unclosed delimiters and long flat repetition whose allocations are measured while the size grows, and long texts of every kind of piece, line after line",
    why="Tests only parse tiny inputs, so neither super-polynomial backtracking nor a crash on an unusual combination of tokens can show.",
    files=[S + "parser.go", S + "lexer.go"],
    mech=[("memoisation of backtracking over parentheses", S + "parser.go MemoArena, memoize_parsed_nodes, restore_memo_or_checkpoint, expr_with_paren"),
          ("loops that consume at least one token per turn", S + "parser.go markup_exprs, code_exprs, args, params")],
    observe=["Parse", "process exit", "allocation counters"],
    technique="runtime monitor: crash and hang watchdog, allocation growth and repeat comparison on nesting families and on composed layers of constructs",
    note="Allocation is compared between a size and its double, so machine speed does not matter; nesting depths are bounded (hundreds to thousands of levels). Math is included: the harness fills in the class tables that the stand-in module lacks.",
)
prop(
    id="P03",
    title="Length, node count and error flag of every node are exact",
    statement="For every node of a tree, its recorded length is the number of bytes of text below it, its recorded descendant count is the number of nodes below it, and it is flagged erroneous exactly when an error lies below it. This holds for freshly parsed trees and after every sequence of edits.",
    over=["inputs", "histories"],
    forall="all texts and all sequences of edits",
    why="The tests check neither the counters nor the flag; a stale one shows only after a particular edit or when a node becomes an error late in parsing.",
    files=[S + "node.go", S + "parser.go", S + "reparser.go"],
    mech=[("bookkeeping when a node is built", S + "node.go NewInnerNode"),
          ("bookkeeping when children are replaced", S + "node.go replace_children, update_parent"),
          ("parents updated along the path of an incremental reparse", S + "reparser.go try_reparse")],
    observe=["exported fields of tree nodes"],
    technique="runtime monitor: recomputation of the cached facts of every node after parsing and after each edit",
    note="Exact recomputation on every observed tree; exploration over generated texts and edit histories.",
)
prop(
    id="P04",
    title="Expressions parse with the language's precedence and structure",
    statement="Every well-formed code expression parses to the tree the Typst grammar prescribes: operator precedence and associativity, unary operators, field access, calls with their arguments and trailing content blocks, parentheses, arrays, dictionaries, closures and literals nest as documented, wherever white space, comments and line breaks are allowed in between. Such an expression yields no error. In a text with mistakes, everything that is not mistaken still gets this structure.",
    over=["programs"],
    forall="all well-formed expressions: generated as trees with random operators, nesting and trivia, printed, parsed and compared node by node",
    why="The existing tests do not look at the structure of any expression besides one highlighted call; precedence and associativity need combinations of operators.",
    files=[S + "parser.go", S + "ast.go", S + "lexer.go", S + "set.go"],
    mech=[("precedence climbing", S + "parser.go code_expr_prec; " + S + "ast.go precedence and associativity tables"),
          ("parenthesised expressions, arrays, dictionaries, parameters", S + "parser.go expr_with_paren, parenthesized_or_array_or_dict, args, params"),
          ("line break handling by context", S + "parser.go AtNewline")],
    observe=["Parse"],
    technique="runtime oracle: grammar-directed generator with expected trees, and a reference parser written from the grammar that reads the same tokens, compared node by node",
    note="The generator is an independent statement of the grammar: it builds the expected tree and prints it. The reference parser (harness/h/refparse.go) judges texts that no generator plans, well-formed or not. Math is P29.",
)
prop(
    id="P05",
    title="Statements and code blocks parse to the prescribed structure",
    statement="Every well-formed let binding, destructuring, set and show rule, context, conditional, loop, import, include, return, break and continue, and every code block containing them, parses to the tree the Typst grammar prescribes and without errors. This also holds for code embedded in markup with a hash, which must end exactly where the language says it ends. In a text with mistakes, everything that is not mistaken still gets this structure.",
    over=["programs"],
    forall="all well-formed statements, code blocks and embedded code, with random trivia, line breaks and separators",
    why="The tests hold no statement-level structure tests except two incremental edits; where embedded code ends depends on what follows it.",
    files=[S + "parser.go", S + "lexer.go", S + "set.go"],
    mech=[("statement parsers", S + "parser.go let_binding, set_rule, show_rule, conditional, for_loop, module_import, import_items, return_stmt"),
          ("end of embedded code", S + "parser.go embedded_code_expr"),
          ("patterns and destructuring", S + "parser.go pattern, destructuring_or_parenthesized, pattern_leaf")],
    observe=["Parse"],
    technique="runtime oracle: grammar-directed generator with expected trees, and a reference parser written from the grammar that reads the same tokens, compared node by node",
    note="As P04, for statements, blocks and embedded code.",
)
prop(
    id="P06",
    title="Markup parses to the prescribed structure",
    statement="Every well-formed markup text parses to the tree the Typst grammar prescribes: headings, bullet, numbered and term lists with nesting by indentation, strong and emphasised text, raw text, references with supplements, labels, links, escapes, shorthands, line and paragraph breaks and embedded code. Such a document yields no error. In a text with mistakes, everything that is not mistaken still gets this structure.",
    over=["programs"],
    forall="all well-formed documents: generated as trees with random nesting, indentation and line ends",
    why="The tests check one heading; list nesting depends on columns, line ends and what stands on the lines before.",
    files=[S + "parser.go", S + "lexer.go"],
    mech=[("markup parsers", S + "parser.go markup_expr, strong, emph, heading, list_item, enum_item, term_item, reference"),
          ("column based nesting", S + "parser.go AtNewline_RequireColumn, current_column; " + S + "lexer.go column"),
          ("markup tokens", S + "lexer.go markup, text, raw")],
    observe=["Parse"],
    technique="runtime oracle: grammar-directed generator with expected trees, and a reference parser written from the grammar that reads the same tokens, compared node by node",
    note="As P04, for markup. The inside of raw text is judged in P07. Math is P29.",
)
prop(
    id="P07",
    title="Text is split into the tokens of the language",
    statement="In markup and in code, the token starting at every position is the one the Typst language prescribes: its extent is the longest that the language allows there, and its kind is right for keywords, operators, numbers with bases, exponents and units, strings with escapes, labels, references, links, comments, white space and raw text. Characters that start no token become errors, one character at a time. Raw text splits into its delimiters, language tag and lines, and of raw blocks the white space is left out that the language says: blank first and last lines, a space beside the delimiters, and the indentation that all lines have in common.",
    over=["inputs"],
    forall="all texts in markup and code mode: all pairs of an alphabet of token pieces, random longer sequences, and generated numbers",
    why="There is no test of tokenisation at all; the outcome depends on the neighbouring characters.",
    files=[S + "lexer.go", "internal/scanner/scanner.go", "internal/stdx/stdx.go"],
    mech=[("dispatch on the first characters", S + "lexer.go markup, code, next"),
          ("numbers, identifiers, strings, labels, links, raw", S + "lexer.go number, ident, string, label, link, raw"),
          ("character classes", "internal/stdx/stdx.go; " + S + "lexer.go is_id_start, is_id_continue, is_space, isNewline")],
    observe=["leaves of the tree of Parse"],
    technique="runtime oracle: independent reference tokenizer compared with the leaves of the parsed tree",
    note="The reference tokenizer was written from the language description; where the parser re-labels a token by context, only the extent is compared. Math tokens are judged in P29.",
)
prop(
    id="P08",
    title="Mistakes are reported where they are, and only there",
    statement="A program without mistakes yields no error. A program with a mistake yields an error at the place of the mistake whose message names what is wrong, with the hints that help, and no error in the unrelated text around it, which is read as if the mistake were not there. A delimiter, string or raw text that is never closed is always reported, and so is the end of a comment that was never opened.",
    over=["programs", "inputs"],
    forall="a catalogue of mistakes of all constructs, in all kinds of surroundings and documents; all well-formed generated programs; all cut-off points of delimited constructs",
    why="No existing test looks at an error; reporting depends on the construct, the surroundings and where the text ends.",
    files=[S + "parser.go", S + "lexer.go", S + "node.go"],
    mech=[("error insertion and recovery", S + "parser.go expect, expected, unexpected, expect_closing_delimiter, trim_errors"),
          ("errors for malformed tokens", S + "lexer.go error, hint"),
          ("duplicate detection", S + "parser.go map_insert, args, params, pattern_leaf")],
    observe=["Parse", "error nodes with message and hints"],
    technique="runtime oracle: planted mistakes with expected place and message; error-freedom of valid programs; a reference parser that prescribes the tree, errors, messages and hints of mistaken texts",
    note="The reference parser states the recovery of the language (where an error node goes, what is skipped, what is read on) and is compared exactly on short token sequences; planted mistakes are judged by place and by the words that name the construct.",
)
prop(
    id="P09",
    title="Editing a source gives the tree that parsing the new text gives",
    statement="After every sequence of edits and replacements of a source, its text is the edited text and its tree equals the tree that parsing that text from scratch gives, errors included. The byte range that an edit reports as changed lies within the new text and covers every place where the tree differs from the tree before.",
    over=["histories", "inputs"],
    forall="all texts and all sequences of edits with ranges on character boundaries",
    why="The tests perform some fifty single edits; whether part of the tree may be kept depends on both the text and the edit.",
    files=[S + "reparser.go", S + "source.go", S + "node.go", S + "parser.go"],
    mech=[("choice of what to reparse", S + "reparser.go try_reparse, expand, next_at_start, next_nesting"),
          ("reparsing of blocks and markup runs", S + "parser.go reparse_block, reparse_markup"),
          ("splicing into the old tree", S + "node.go replace_children, update_parent")],
    observe=["Source.Edit", "Source.Replace", "Source.Root", "Source.Text"],
    technique="runtime differential monitor: incremental result against a fresh parse after each edit of random histories",
    note="The comparison is exact (kinds, texts, messages, hints). Exploration over random histories; the share of edits that really reparsed only a part is in the evidence.",
)
prop(
    id="P10",
    title="Every node has a unique, ordered span that leads back to it",
    statement="In a source, all nodes have different spans belonging to the file, ordered as the nodes are in the document, parents before children. Looking a span up gives exactly its node and byte range, and looking up any other span gives nothing. This also holds after every sequence of edits.",
    over=["histories", "inputs"],
    forall="all texts and all edit histories, including histories that exhaust the gaps between neighbouring span numbers",
    why="The tests never look a span up; renumbering happens only when an edit exhausts a gap.",
    files=[S + "node.go", S + "source.go", S + "span.go"],
    mech=[("numbering with gaps and local renumbering", S + "node.go numberize, replace_children, upper"),
          ("search by ordered spans", S + "node.go find; " + S + "source.go Find, Range")],
    observe=["Source.Find", "Source.Range", "spans of nodes"],
    technique="runtime monitor: order, uniqueness and lookup of all spans after each step of an edit history",
    note="Every node of the observed trees is looked up (a sample of them in large trees).",
)
prop(
    id="P11",
    title="Byte, UTF-16 and line/column positions convert exactly",
    statement="For every text, converting between byte offsets, UTF-16 offsets and line and column positions gives the values that follow from counting the characters and line ends of the text, and converting there and back is the identity. Positions outside of the text and byte positions inside of a character are rejected, never answered with a wrong position; a UTF-16 offset between the two halves of a character stands for the end of that character.",
    over=["inputs"],
    forall="all texts, with all line end characters of the language and characters of all widths, and all indices including huge ones",
    why="Four tests use one fixed text; the values depend on the mix of line ends and character widths.",
    files=[S + "lines.go", S + "source.go"],
    mech=[("line table", S + "lines.go NewLines, lines_from"), ("binary search and counting inside a line", S + "lines.go ByteToLine, ByteToUtf16, Utf16ToByte, LineColumnToByte")],
    observe=["all conversion methods of Lines and Source"],
    technique="runtime oracle: conversions at every position against a character-by-character model",
    note="Every index of every generated text is converted both ways and compared with a direct count.",
)
prop(
    id="P12",
    title="Editing keeps line tables exact and replacement diffs minimal",
    statement="After every sequence of edits and replacements the line table equals the one built from the new text. Replacing the whole text reports whether anything changed and touches only what lies between the longest common start and end of the two texts. An edit of a range that lies outside of the text, is reversed or cuts a character is refused with a panic and changes nothing.",
    over=["histories", "inputs"],
    forall="all texts and edit histories, in particular edits that touch carriage return and line feed pairs",
    why="One test edits one text a few times; whether line starts survive depends on what stands next to the edit.",
    files=[S + "lines.go", S + "source.go"],
    mech=[("line table update around the edit", S + "lines.go Edit"), ("common prefix and suffix", S + "lines.go ReplacementRange, Replace")],
    observe=["Lines.Edit", "Lines.Replace", "Source.Edit", "Source.Replace"],
    technique="runtime differential monitor: edited line table against a rebuilt one",
    note="Exact comparison after each edit of random histories.",
)
prop(
    id="P13",
    title="Spans keep their file, number and range exactly",
    statement="A span made from a file and a number, or from a file and a byte range, gives back that file and number or range, as far as they are representable; ranges too large are clamped to the largest representable one and never turn into another file or a number. Detached spans belong to no file, and spans are equal only if they stand for the same thing.",
    over=["inputs"],
    forall="all file identities, span numbers and byte ranges, with the boundaries of every bit field",
    why="Three tests encode single values.",
    files=[S + "span.go"],
    mech=[("bit packing of file, number and range", S + "span.go")],
    observe=["constructors and accessors of Span"],
    technique="runtime oracle: round trips of boundary and random values",
    note="All combinations of boundary values and random ones.",
)
prop(
    id="P14",
    title="File identities are unique, stable and safe to share",
    statement="Interning a file (package and path) gives the same identity for equal files and different identities for different files, and an identity always gives back its own package and path, and shows as them. This holds while any number of goroutines intern and look up at the same time, without data races, and using up all identities fails cleanly instead of handing one out twice.",
    over=["schedules", "histories", "inputs"],
    forall="all interleavings of interning and looking up from several goroutines; all histories up to exhaustion",
    why="No test interns from two goroutines or more than a handful of files.",
    files=[S + "file.go"],
    mech=[("lock-protected interner", S + "file.go interner, NewFileID, FakeFileID"), ("lookup by identity", S + "file.go Package, VPath, pair")],
    observe=["NewFileID", "FileID accessors"],
    technique="race detector plus monitor of uniqueness and stability over concurrent interning histories; exhaustion in a child process",
    note="Built with -race. The interleavings seen are counted; the race detector reports races in any of them.",
)
prop(
    id="P15",
    title="Virtual paths are rooted, normal and confined to the root",
    statement="Every virtual path is rooted and normal: it has no empty, current or parent components, whatever text it was made from, and making it again from its own text changes nothing. Joining resolves relative to the folder of the path, or from the root for a rooted path, and never leaves the root. Giving a path another extension changes the extension of its last component only.",
    over=["inputs"],
    forall="all path texts and pairs of them",
    why="No test exercises virtual paths.",
    files=[S + "path.go"],
    mech=[("normalisation and joining", S + "path.go NewVirtualPath, Join")],
    observe=["NewVirtualPath", "VirtualPath.Join"],
    technique="runtime oracle: component-wise path model on generated paths",
    note="Random paths from pieces that matter (dots, slashes, empty and unusual names).",
)
prop(
    id="P16",
    title="Package specifications and versions parse and print faithfully",
    statement="A package specification, version or version bound is accepted exactly if it has the documented form, and printing what was read gives the specification, version or bound back. Malformed ones are rejected with an error that says which part is missing or wrong.",
    over=["inputs"],
    forall="all specification and version texts, well-formed and malformed in every part",
    why="One test reads a few specifications.",
    files=[S + "package.go"],
    mech=[("specification parser", S + "package.go ParsePackageSpec, parse_namespace, parse_name, parse_version"), ("version parser and printer", S + "package.go ParsePackageVersion, String")],
    observe=["ParsePackageSpec", "ParsePackageVersion", "UnmarshalText", "String"],
    technique="runtime oracle: generated texts with known verdict and value, print and re-read",
    note="Verdicts come from the construction of the text.",
)
prop(
    id="P17",
    title="Version bounds compare as documented",
    statement="A version matches a bound exactly if all components that the bound states are equal, and the comparisons less and greater order versions by the stated components only, most significant first. The comparisons are consistent: exactly one of less, equal and greater holds, and the non-strict ones are their unions.",
    over=["inputs"],
    forall="all versions and bounds with one to three components",
    why="One test compares a few fixed versions.",
    files=[S + "package.go"],
    mech=[("component-wise comparison", S + "package.go matches_eq, matches_gt, matches_lt and relatives")],
    observe=["Matches* methods", "ParseVersionBound"],
    technique="runtime oracle: comparison laws and reference order on generated versions",
    note="All relations are checked for each generated pair.",
)
prop(
    id="P18",
    title="Package manifests are read and validated faithfully",
    statement="Reading a manifest gives exactly the fields it holds; manifests without a package section, without a required field or with a field of the wrong form are rejected. Validation against a specification accepts exactly if name and version are equal and the required compiler is not newer than this one, and otherwise says what differs.",
    over=["inputs", "configurations"],
    forall="all manifests: optional fields present or absent in any order, unknown sections, every required field missing, every kind of malformed value",
    why="One test reads one minimal manifest.",
    files=[S + "package.go", "internal/toml/toml.go"],
    mech=[("TOML decoding and required fields", "internal/toml/toml.go; " + S + "package.go ParsePackageManifestFromToml"), ("validation", S + "package.go Validate")],
    observe=["ParsePackageManifestFromToml", "PackageManifest.Validate"],
    technique="runtime oracle: generated manifests with known contents",
    note="Unknown fields and tool sections, which the code declares it does not collect, are not judged.",
)
prop(
    id="P19",
    title="Navigating the tree finds the right neighbours",
    statement="From every node, moving to the parent, the siblings, the children in either direction, the neighbouring tokens, the token at a byte position or the node of a span arrives at the node that the document order prescribes, skipping white space and comments, with its true position and ancestors. The errors listed for a tree are exactly its errors in document order.",
    over=["inputs", "histories"],
    forall="all trees, fresh and edited, all of their nodes and all byte positions",
    why="The tests of navigation are commented out in the repository.",
    files=[S + "node.go"],
    mech=[("linked nodes with offset and index", S + "node.go LinkedNode, LinkedChildren"), ("leaf search", S + "node.go prev_leaf, next_leaf, leaf_before, leaf_after")],
    observe=["linked node operations"],
    hook="the operations are not exported: a build-tagged overlay file forwards to them",
    technique="runtime oracle: navigation results against the flattened tree, for all nodes and offsets",
    note="All nodes of small trees, a sample of large ones. The token before byte 0 is not judged beyond being a token at 0.",
)
prop(
    id="P20",
    title="Highlighting marks every piece of source with its right class",
    statement="Highlighting any text as HTML yields well-nested HTML whose visible text is exactly the source, with every special character escaped. Every token and construct carries the class documented for its kind and context, such as functions being called, show rule selectors, interpolated values and list terms, and nothing else is marked; the scope for editors agrees with the class.",
    over=["inputs", "programs"],
    forall="all texts, valid or not, in particular dense in identifiers, dots, hashes, calls and show rules",
    why="Three texts are highlighted in tests, none as HTML.",
    files=[S + "highlight.go", S + "node.go"],
    mech=[("class by kind and context", S + "highlight.go highlight, highlight_ident, highlight_hash"), ("HTML output", S + "highlight.go highlight_html_impl")],
    observe=["HTML output"],
    hook="the operation is not exported: a build-tagged overlay file forwards to it",
    technique="runtime oracle: reference highlighter and HTML un-escaping against the source",
    note="The reference computes classes from the flattened tree, independent of the navigation code.",
)
prop(
    id="P21",
    title="Walking visits every node once, in order, and printing gives the text",
    statement="Walking a tree visits every node, wrapper and child slot exactly once, parents before children and siblings in document order; returning false leaves out exactly what lies below, a node replaced or extended while it is visited is walked as it is after the visit, and a node that is shared is visited once. Printing a node writes exactly the text below it.",
    over=["inputs", "histories"],
    forall="all trees (parsed, edited, rewritten while walking, with shared nodes) and all visit functions that keep or cut subtrees",
    why="No test walks or prints a tree; both tools that rewrite documents rely on it for every document.",
    files=["typst/cstwalk/cstwalk.go", S + "node.go", S + "lib.go"],
    mech=[("depth first walk with a set of visited nodes", "typst/cstwalk/cstwalk.go walk, walkRepr"), ("writing the leaves of a tree", S + "lib.go PrintNode")],
    observe=["order of visits", "PrintNode output"],
    technique="runtime monitor: recorded sequence of visits against the flattened tree, and an online checker that prescribes the next visit while the visitor replaces slots, nodes, representations and children",
    note="Exact comparison of every recorded walk; exploration over generated trees and visit functions.",
)
prop(
    id="P22",
    title="parse-typ prints the syntax tree of each file faithfully",
    statement="For every list of files, parse-typ prints for each file, in order, its whole syntax tree: one line per node, indented by depth, with kind, text and errors exact. It writes to no file, and for a file that cannot be read it names the file and fails.",
    over=["inputs", "configurations"],
    forall="all texts (valid or not) in one or several files, missing files at any place of the list",
    why="The command has no tests.",
    files=["cmd/parse-typ/main.go", S + "lib.go"],
    mech=[("printing a tree", S + "lib.go PrintRoot"), ("one file after the other", "cmd/parse-typ/main.go")],
    observe=["standard output, exit status and the file system"],
    technique="runtime oracle: output of the real command parsed and compared with the tree; file system snapshots",
    note="The command is built from the working tree and run in a scratch directory as an unprivileged user.",
)
prop(
    id="P23",
    title="offline-typ vendors exactly what a project needs and keeps all else",
    statement="When offline-typ succeeds, the output folder holds every Typst file, package and resource that is reachable from the input (local imports and includes, transitive packages, images, files read, plugins, bibliographies and their styles), texts unchanged except that package imports refer to the vendored copy under /libs under their name and absolute paths in packages are rebased; the given font folders come along complete. The result needs no installed package, converting it again changes nothing, and nothing outside of the output folder is touched; whatever is missing, and two packages that would share a folder under /libs, is reported as a failure.",
    over=["inputs", "configurations"],
    forall="all projects: folder layouts, spaces and comments in statements, relative, absolute and escaped paths, cyclic imports, packages importing packages, renamed imports, font directories, project roots; and arbitrary texts, for which it neither crashes nor writes elsewhere",
    why="The command has no tests.",
    files=["cmd/offline-typ/main.go", "typst/cstwalk/cstwalk.go", S + "package.go", S + "parser.go"],
    mech=[("imports and includes rewritten on the tree", "cmd/offline-typ/main.go rewrite, insertPkgRename"), ("queue of packages", "cmd/offline-typ/main.go rewriteLibs, copyPackage"),
          ("root confinement", "cmd/offline-typ/main.go os.OpenRoot")],
    observe=["output folder, exit status and the rest of the file system"],
    technique="runtime oracle: generated projects with a known expected output, snapshots of the whole scratch file system, second conversion",
    note="Imports of packages in include statements, and resources other than image, read, plugin and bibliography are left out (see DESIGN.md).",
)
prop(
    id="P24",
    title="update-typ moves every import to the newest version, and nothing else",
    statement="update-typ rewrites the import of each package in every reachable file of the project to the newest version that is installed or in the given universe, compared by number and never backwards, and changes no other byte. Outdated imports in packages are reported and never edited; with -i the files change in place, otherwise the output folder holds them and the project stays as it was; packages that cannot be found are reported as a failure.",
    over=["inputs", "configurations"],
    forall="all projects, sets of installed versions (including linked folders, dangling links and unrelated entries), command lines, and arbitrary texts",
    why="The command has no tests.",
    files=["cmd/update-typ/main.go", "typst/cstwalk/cstwalk.go", S + "package.go"],
    mech=[("newest version", "cmd/update-typ/main.go latestSpec, findVersions, greaterThan"), ("rewriting imports", "cmd/update-typ/main.go findOldVersions, rewrite"),
          ("checking packages", "cmd/update-typ/main.go checkLibs, checkLib")],
    observe=["project and output folder, messages, exit status"],
    technique="runtime oracle: generated projects and package folders with a known expected output, snapshots, second update",
    note="For a name that exists both in the local and the preview namespace, the newest version of the name and the newest one in the namespace are both accepted (the command mixes namespaces by design).",
)
prop(
    id="P25",
    title="Sources can be parsed, edited and read in parallel",
    statement="Goroutines that each parse, edit and query their own sources, and goroutines that read one shared source, get exactly the results of a sequential run, whatever the schedule, and without data races.",
    over=["schedules", "histories"],
    forall="all interleavings of independent parse, edit and query sequences on different sources, and of read-only queries (positions, ranges, spans, trees, navigation, highlighting) on one source",
    why="No test uses two goroutines; races show only under certain schedules.",
    files=[S + "source.go", S + "parser.go", S + "lexer.go", S + "lines.go", S + "span.go", S + "file.go", S + "node.go"],
    mech=[("package level state", S + "file.go interner; " + S + "set.go predefined sets"), ("queries without hidden writes", S + "source.go, " + S + "lines.go, " + S + "node.go")],
    observe=["results per goroutine", "race detector"],
    hook="navigation and highlighting are reached through the build-tagged overlay",
    technique="race detector plus runtime comparison of concurrent with sequential results under injected yields",
    note="Interleavings are those that the scheduler and injected yields produce; the distinct orders of steps are counted.",
)
prop(
    id="P26",
    title="The scanner is a cursor over whole characters",
    statement="Every sequence of scanner operations behaves as a cursor over the characters of the text: peeking, scouting, locating, eating one character, a pattern, while or until a condition holds, jumping and slicing return what the position prescribes, never split a character and never leave the text.",
    over=["inputs", "histories"],
    forall="all texts including multi-byte characters and U+FFFD, all positions, all sequences of operations with string, character, set and function patterns",
    why="The scanner has no tests.",
    files=["internal/scanner/scanner.go"],
    mech=[("cursor and snapping to characters", "internal/scanner/scanner.go Jump, Get, From, To"), ("patterns", "internal/scanner/scanner.go At, EatIf, EatWhile, EatUntil, Scout, Locate")],
    observe=["scanner methods"],
    technique="runtime monitor: model based testing of operation sequences against a cursor over a slice of characters",
    note="Empty patterns are out of scope; jumps into a character may land on either of its sides.",
)
prop(
    id="P27",
    title="The typed view of a syntax tree tells what the text says",
    statement="Every node can be cast to the typed view of its kind and to no other, and is the right variant as an expression, pattern, array or dictionary item, argument, parameter and destructuring item. In a text without errors every accessor of a view returns the part that the grammar gives that role, wherever spaces and comments stand, and the value that the text denotes: numbers with their base, exponent and unit, strings with their escapes, characters, labels, operators, imported and bound names. On text with errors no accessor crashes or returns a node from outside the tree, except an empty placeholder.",
    over=["inputs", "programs"],
    forall="all trees that parsing gives, for every node, every view and every accessor; all literals",
    why="The single test casts the default expression; everything else in the typed view has none.",
    files=[S + "ast.go", S + "ast_node.go"],
    mech=[("casts", S + "ast.go SyntaxNode_cast, Expr_from_untyped, Pattern_from_untyped and the other unions"),
          ("roles of the children", S + "ast.go accessors such as LetBinding.init, SetRule.condition, ShowRule.selector, ForLoop.iterable, MathAttach.top"),
          ("values", S + "ast.go Int.get, Float.get, Numeric.get, Str.get, Escape.get, ModuleImport.bare_name")],
    observe=["typed views and their accessors"],
    hook="the accessors are reached through the build-tagged overlay, which only calls them",
    technique="runtime oracle: every accessor of every node compared with the part or value derived from the children and the text",
    note="Left open: whether an equation without content is a block, the trailing comma of a call that ends in a content block, and the operands of math attachments, fractions and roots that lack one.",
)

prop(
    id="P28",
    title="Kinds are classified as documented and kind sets are exact sets",
    statement="Every syntax kind is classified (error, trivia, keyword, statement, block, grouping, terminator) and named as documented. Sets of kinds behave as immutable mathematical sets under adding, union and copying, whatever the order of operations and whichever set they start from, and the predefined sets hold exactly their kinds and never change.",
    over=["inputs", "histories"],
    forall="all kinds and all sequences of set operations",
    why="Two small tests check one set; the parser decides with these sets at every token.",
    files=[S + "set.go", S + "kind.go"],
    mech=[("bit sets", S + "set.go Add, Union, Clone, Contains"), ("classification", S + "kind.go IsTrivia, IsKeyword, IsStmt, IsBlock, IsGrouping, IsTerminator, IsError")],
    observe=["set and kind methods"],
    technique="runtime monitor: model based testing against Go maps, exhaustive over the kinds",
    note="All kinds are enumerated; sequences of set operations are generated.",
)

prop(
    id="P29",
    title="Math parses to the prescribed structure",
    statement="Every equation parses to the tree that the Typst grammar prescribes: attachments, primes, fractions and roots with their precedence, matched delimiters by Unicode math class, shorthands, identifiers and field accesses, calls with positional, named, spread and two-dimensional arguments, and parentheses that only group. An equation yields an error exactly if it has a mistake. In a text with mistakes, everything that is not mistaken still gets this structure.",
    over=["programs", "inputs"],
    forall="all equations: all pairs and random sequences of math pieces, and generated equations with nested delimiters, attachments, fractions, roots and calls",
    why="No test holds an equation; the structure depends on what stands directly next to each other and on nesting.",
    files=[S + "parser.go", S + "lexer.go", "internal/typutil/typutil.go", "internal/stdx/stdx.go"],
    mech=[("precedence of attachments, fractions and roots", S + "parser.go math_expr_prec, math_op"),
          ("delimiters and grouping parentheses", S + "parser.go maybe_delimited, math_delimited, math_unparen, math_class"),
          ("arguments of calls in math", S + "parser.go math_args, math_arg; " + S + "lexer.go maybe_math_named_arg, maybe_math_spread_arg"),
          ("math tokens", S + "lexer.go math, math_text, math_ident_or_field")],
    observe=["Parse"],
    technique="runtime oracle: independent reference tokenizer and parser for math compared node by node",
    note="White space and comments are left out of the comparison (their place is P01). The math classes come from tables that the harness fills in, as the sandbox's stand-in module has none; only the opening, closing and alphabetic classes decide the structure.",
)
prop(
    id="P30",
    title="Edits keep the spans of everything they do not concern",
    statement="An edit of a source without mistakes that leaves it without mistakes is local. An edit inside of a code or content block parses again at most that block, and an edit of a paragraph or section between blank lines of the document at most that one and its surroundings. Every node outside of the edited block, paragraph or section keeps its span, so that what refers to it stays valid, as long as span numbers are left around the edit; a section that is inserted or deleted may be taken for the one next to it.",
    over=["histories", "inputs"],
    forall="all documents without mistakes and all sequences of edits of their blocks, paragraphs and sections that do not reach beyond them",
    why="The tests make a dozen edits and ask only whether less than the whole text was parsed again; none looks at a span.",
    files=[S + "reparser.go", S + "node.go", S + "source.go", S + "parser.go", S + "lines.go"],
    mech=[("choice of the smallest part to reparse", S + "reparser.go reparse, try_reparse, awaits_quote, includes, overlaps, expand"),
          ("reparsing of a block or a run of markup", S + "parser.go reparse_block, reparse_markup"),
          ("keeping equal children, numbering the rest between their neighbours", S + "node.go replace_children, numberize, upper, spanless_eq"),
          ("replacing only what differs", S + "source.go Replace; " + S + "lines.go ReplacementRange")],
    observe=["Source.Edit", "Source.Replace", "spans of nodes"],
    technique="runtime monitor: spans of all nodes outside of an edited block or section before and after each edit of generated histories",
    note="Whether an edit reaches beyond its block or section (an open comment, an unbalanced bracket) is decided by parsing the new text; such edits are left to P09 and P10. Small edits of a section may be parsed again together with as many neighbouring nodes as the section has, doubled on each failed attempt; spans are compared exactly.",
)
