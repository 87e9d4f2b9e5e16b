L = "crates/math-core/src/"
R = "crates/mathml-renderer/src/"
C = "crates/math-core-cli/src/"
P = "crates/math-core-python/src/"
EX = "bounded exhaustive exploration of the real code"
NA = {}
PROPS = [
 dict(id="C01", title="Conversion is total: every input gives a result or an error",
  statement="For every input string, display mode and configuration, conversion terminates and returns either MathML or a LaTeX error. It never panics, violates an internal assertion, aborts, overflows the stack or consumes unbounded memory or time, also for deeply nested, very long or self-referential input.",
  over=["inputs","configurations"], quant="all token sequences over the LaTeX vocabulary, all nesting depths, all macro programs, every configuration",
  why="The unit tests and snapshots convert a few hundred hand-written formulas; a crash needs a combination of tokens nobody wrote down, e.g. a separator inside an argument.",
  files=[L+"parser.rs",L+"token_queue.rs",L+"lexer.rs",L+"text_parser.rs",R+"ast.rs"],
  mech=[("recursive descent over tokens",L+"parser.rs"),("expansion limit",L+"parser.rs count_expansion"),("emission",R+"ast.rs Emitter::emit")]),
 dict(id="C02", title="Output is well-formed and input text cannot inject markup",
  statement="Every successful conversion is one well-formed XML/HTML <math> element (balanced tags, quoted unique attributes, no raw <, > or &) that contains only MathML elements and attributes the converter generates itself. Text taken from the input (\\text, \\operatorname, \\tag, \\label, unknown commands, annotation) appears only as escaped character data or attribute values that decode back to the given text, and so does the HTML rendering of an error.",
  over=["inputs","configurations"], quant="all inputs over an alphabet containing the XML-special characters in every text-accepting position",
  why="Snapshots contain < and & only in a few places, and are compared with themselves instead of being parsed.",
  files=[R+"ast.rs",R+"escaping.rs",L+"html_utils.rs",L+"lib.rs",L+"error.rs"],
  mech=[("EscapeHtml",R+"escaping.rs"),("escape_html_content",L+"html_utils.rs")]),
 dict(id="C03", title="MathML elements have the children MathML Core requires",
  statement="In every successful output each element has the arity and content MathML Core requires: mfrac, msub, msup, munder, mover and mroot have two children, msubsup and munderover three, mmultiscripts a base and script pairs, mtable only mtr, mtr only mtd, and token elements only text. No content is lost to a misplaced table cell or row.",
  over=["inputs"], quant="all token sequences over the vocabulary up to the bound, in both display modes",
  why="Tests look at a few sample trees; arity breaks when a construct meets an empty or unusual argument.",
  files=[R+"ast.rs",R+"table.rs",L+"parser.rs"], mech=[("node emission",R+"ast.rs"),("node_vec_to_node",L+"parser.rs")]),
 dict(id="C04", title="Pretty-printing changes only whitespace between elements",
  statement="For every input, the pretty-printed output and the compact output are the same tree with the same attributes and the same text inside token elements; they differ only in whitespace between tags. 'auto' equals 'always' for block display and 'never' for inline display, every pretty-printed line is indented by a whole number of the configured indentation unit, and warnings and errors do not depend on the pretty-print setting.",
  over=["inputs","configurations"], quant="all inputs up to the bound x {never, always, auto} x indentation units x display modes",
  why="Snapshots fix one setting per formula and never relate two settings of the same formula.",
  files=[R+"ast.rs",R+"fmt.rs",L+"lib.rs"], mech=[("new_line_and_indent",R+"fmt.rs"),("base_indent",L+"lib.rs emit")]),
 dict(id="C05", title="Annotation, namespace and id prefix are purely additive",
  statement="Turning on the annotation wraps the same content in <semantics> and adds an annotation whose decoded text is exactly the source. Turning on the XML namespace adds only the xmlns attribute, display mode sets only display=\"block\" on the root besides the documented style effects, and an id prefix only changes generated ids and the links to them, consistently.",
  over=["inputs","configurations"], quant="all inputs up to the bound x all combinations of the three options",
  why="Each option has one or two example tests; none checks that nothing else changes.",
  files=[L+"lib.rs",L+"html_utils.rs",R+"ast.rs"], mech=[("emit",L+"lib.rs")]),
 dict(id="C06", title="Errors point into the input and can always be rendered",
  statement="For every failing input, the error's byte range is ordered, lies within the input and falls on character boundaries. Rendering the error as plain text, HTML or a report never panics, the character offset in the plain-text form is the number of characters before the range, and an error about a single named command or symbol that the input contains literally points at that very text (an error inside the expansion of a command points at the use of that command).",
  over=["inputs"], quant="all failing inputs over an alphabet with multi-byte characters, macros and text mode, up to the bound",
  why="Error snapshots use a fixed list of mostly ASCII inputs.",
  files=[L+"error.rs",L+"lexer.rs",L+"token_queue.rs",L+"text_parser.rs"], mech=[("Span bookkeeping",L+"lexer.rs"),("LatexError",L+"error.rs")]),
 dict(id="C07", title="Local-state and batch conversion are pure functions",
  statement="convert_with_local_state and convert_all depend only on the configuration and their arguments: the result for a snippet is the same before and after any history of other conversions, failing ones included, on the same converter or on a fresh one with the same configuration. They leave the global state (counter, labels, definitions) of the converter untouched.",
  over=["histories","inputs"], quant="all histories up to the bound over an alphabet of stateful snippets, interleaved with local conversions",
  why="Tests call each function once on a fresh converter.",
  files=[L+"lib.rs",L+"global_state.rs",L+"token_queue.rs"], mech=[("GlobalState::default per call",L+"lib.rs")],
  observe=["LatexToMathML::convert_with_local_state","LatexToMathML::convert_all"]),
 dict(id="C08", title="The global state is one counter, one label map and one set of definitions",
  statement="convert_with_global_state numbers equations consecutively across calls, resolves a reference with the latest definition of that label made so far (otherwise '??' plus a warning), and keeps exactly the document-level definitions. reset_global_state restores the behaviour of a fresh converter; local conversions and snippets without numbers, labels or definitions change nothing.",
  over=["histories"], quant="all operation sequences up to the bound over numbering, labelling, referencing, defining, failing, local and reset operations",
  why="Tests run a handful of fixed sequences of two or three calls.",
  files=[L+"lib.rs",L+"global_state.rs",L+"environments.rs",R+"ast.rs"], mech=[("GlobalState",L+"global_state.rs"),("reset_global_state",L+"lib.rs")],
  observe=["LatexToMathML::convert_with_global_state","LatexToMathML::reset_global_state"]),
 dict(id="C09", title="convert_all equals converting one by one, plus forward references",
  statement="convert_all returns one result per snippet in order, and each result equals what convert_with_global_state on a fresh converter gives for the same snippets in sequence, except that references also see labels defined in later snippets. A failing snippet affects the others exactly as it does in the sequential conversion.",
  over=["histories","inputs"], quant="all snippet lists up to the bound over numbering, labels, forward and backward references, definitions and failing snippets",
  why="There are a few example lists; none compares the two entry points.",
  files=[L+"lib.rs"], mech=[("convert_all",L+"lib.rs")], observe=["LatexToMathML::convert_all"]),
 dict(id="C10", title="Equation numbers, tags and labels follow amsmath's rules",
  statement="In align, equation and gather every row gets the next number unless it carries \\nonumber/\\notag or an explicit \\tag; starred variants number only rows with \\tag, and multline carries one number on its last row. A custom \\tag replaces the number without advancing the counter (\\tag* without parentheses), \\nonumber suppresses the next automatic number, a \\label names its row's (or multline's) tag, and \\eqref prints the text of that tag in parentheses and links to it.",
  over=["inputs"], quant="all environments x up to three rows x all row decorations in all orders",
  why="Only a few hand-written environments are tested, with at most one decoration per row.",
  files=[L+"environments.rs",L+"parser.rs",R+"table.rs",R+"ast.rs"], mech=[("next_equation_tag",L+"environments.rs"),("NewLine handling",L+"parser.rs")]),
 dict(id="C11", title="Macro definitions follow TeX's scoping and binding rules",
  statement="\\newcommand fails on defined names, \\renewcommand on undefined ones, \\providecommand never overrides, \\def, \\gdef and \\let always replace. Bodies are bound late (by name at expansion time) while \\let copies the current meaning; definitions (of names that are already known, where they are passed as an argument of another macro) are visible from then on in the snippet and vanish at its end unless made with \\gdef/\\global or under global_group, and lookup prefers snippet, then document, then configuration, then built-in meaning.",
  over=["programs","histories"], quant="all definition/use programs up to the bound over three names, spread over one or more snippets, with and without global_group",
  why="The interplay of late binding, \\let, \\global and shadowing has too many orders for examples.",
  files=[L+"custom_cmds.rs",L+"token_queue.rs",L+"parser.rs"], mech=[("CustomCmds stores",L+"custom_cmds.rs"),("Stores::resolve_command",L+"token_queue.rs"),("define/absorb",L+"token_queue.rs")],
  observe=["LatexToMathML::convert_with_global_state"]),
 dict(id="C12", title="Macro expansion equals textual substitution",
  statement="Using a macro gives the same MathML as writing its body, with the arguments substituted, in its place - wherever the macro is used, whether it is defined in the configuration, by \\newcommand, \\def or \\let, and for zero to nine arguments given as groups or single tokens. An empty macro behaves like nothing in a sequence and like {} as an argument. (Exceptions that belong to the design: where the converter reads raw text a macro may be rejected; a macro is a boundary for the merging of letters, digits and primes; its spacing class is fixed when it is defined; bodies contain no definitions.)",
  over=["programs"], quant="all bodies from the vocabulary and from templates with parameters x all use contexts x all definition mechanisms",
  why="Tests define a dozen macros; expansion happens in many different parser positions.",
  files=[L+"token_queue.rs",L+"parser.rs",L+"custom_cmds.rs"], mech=[("queue_body_substituting",L+"token_queue.rs"),("read_cmd_args",L+"parser.rs")]),
 dict(id="C13", title="The expansion limit is exact and per snippet",
  statement="A snippet succeeds iff it performs at most max_expansions custom-command expansions, and otherwise fails with the too-many-expansions error; the count starts afresh for every snippet, whichever entry point converts it, and every kind of custom command counts once per expansion (a name bound with \\let to something else may count as a further expansion). Every self-referential definition is therefore stopped.",
  over=["programs","configurations"], quant="all macro programs with up to the bound of expansions x all limits around that count",
  why="Tests use one recursive macro and the default limit.",
  files=[L+"parser.rs",L+"lib.rs"], mech=[("count_expansion",L+"parser.rs"),("MaxExpansions",L+"lib.rs")]),
 dict(id="C14", title="ignore_unknown_commands only affects unknown commands",
  statement="With ignore_unknown_commands, an unknown command becomes a marked error element showing its name plus a warning, and everything else in the snippet is rendered as if it were a known ordinary atom; snippets without unknown commands give identical results with and without the option. Without it, the first unknown command that is used is an error naming that command.",
  over=["inputs","configurations"], quant="all inputs up to the bound over known and unknown commands in all positions",
  why="Two examples exist.",
  files=[L+"token_queue.rs",L+"parser.rs",R+"ast.rs"], mech=[("UnresolvedCommand",L+"token_queue.rs"),("UnknownCommand node",R+"ast.rs")]),
 dict(id="C15", title="Warnings are reported exactly when their cause is in the output",
  statement="The undefined-reference warning is set iff the output contains a reference to a label that is not defined, the unknown-command warning iff it contains an unknown command, and no warning leaks from one snippet into the result of another.",
  over=["inputs","histories"], quant="all snippets and snippet lists up to the bound mixing resolved and unresolved references and known and unknown commands",
  why="Each warning has one example test.",
  files=[R+"ast.rs",L+"lib.rs"], mech=[("Emitter::warnings",R+"ast.rs")]),
 dict(id="C16", title="Insignificant whitespace, comments and line breaks change nothing",
  statement="In math mode, inserting spaces, newlines or a %-comment with its line end between two tokens does not change the output, and neither does rendering the same formula with different insignificant whitespace. Whitespace stays significant where TeX says so: inside text and after a control word's letters.",
  over=["inputs"], quant="all token sequences up to the bound x all insertion points x all whitespace forms",
  why="Tests have fixed spacing.",
  files=[L+"lexer.rs",L+"token_queue.rs"], mech=[("skip_whitespace",L+"lexer.rs"),("load_token_skip_whitespace",L+"token_queue.rs")]),
 dict(id="C17", title="Font, style and colour switches are confined to their group",
  statement="A font, style or colour switch (\\bf, \\rm, \\displaystyle, \\color, \\middle-bar redefinitions, ...) inside braces, \\left...\\right, an optional argument or an environment affects nothing after the end of that group, and a font command with an argument affects exactly that argument. A table cell is a group in this sense for colour and style switches.",
  over=["inputs"], quant="all switches x all group constructs x nestings up to the bound x all following material",
  why="Leaks show up only in what follows the group, which example tests rarely include.",
  files=[L+"parser.rs"], mech=[("parse_sequence saves and restores state",L+"parser.rs")]),
 dict(id="C18", title="The CLI replaces exactly the delimited formulas",
  statement="Converting a document copies everything outside the configured delimiters byte for byte and replaces each delimited formula, delimiters included, by its MathML; a block delimiter wins over an inline delimiter that is its prefix, and optionally a backslash-escaped delimiter is no delimiter. Nested, mismatched or unclosed delimiters are errors that name their line and column and leave no output; a formula that fails to convert is an error too, or stays visible as marked text when continuing on errors. The result does not depend on how the document is split internally.",
  over=["inputs","configurations"], quant="all documents up to the bound over delimiter fragments, formulas, escapes and multi-byte text x all delimiter configurations",
  why="About twenty documents are tested.",
  files=[C+"replace.rs",C+"main.rs"], mech=[("Replacer",C+"replace.rs")], observe=["mathcore binary, stdin/stdout and files"]),
 dict(id="C19", title="HTML entities in CLI formulas are decoded once and only once",
  statement="Inside delimiters, exactly the entities for quote, ampersand, apostrophe, less-than and greater-than, by name or decimal code, are decoded once before conversion. All other text, including incomplete or unknown entities, is passed to the converter unchanged, and text outside formulas is never decoded.",
  over=["inputs"], quant="all formula texts up to the bound over entity fragments",
  why="A few entities are tested individually, not their fragments or juxtapositions.",
  files=[C+"html_entities.rs",C+"replace.rs"], mech=[("replace_html_entities",C+"html_entities.rs")], observe=["mathcore binary"]),
 dict(id="C20", title="Length, colour and column arguments are parsed exactly",
  statement="Length, colour and column-specification arguments are accepted exactly when they match their documented grammar, and accepted values appear in the output with the value they denote (lengths converted between units, colours as #RRGGBB, one alignment and rule per column). Anything else is reported as an error (for lengths, colours and column specifications read as a whole, one that quotes the argument). Numeric colour components outside of their range are clamped or rejected.",
  over=["inputs"], quant="all argument strings up to the bound over the characters of the grammars",
  why="Tests use about ten well-formed values.",
  files=[L+"specifications.rs",L+"atof.rs",L+"color_defs.rs",R+"length.rs"], mech=[("parse_length_specification",L+"specifications.rs"),("limited_float_parse",L+"atof.rs")]),
 dict(id="C21", title="Converting formulas in files never loses data",
  statement="With in-place writing, a file is either rewritten completely with the converted text or left byte-for-byte as it was: on any conversion or delimiter error, with --dry-run, or when nothing changes, no file is modified. Recursive mode touches only .html files below the given directory, and the exit code tells whether everything succeeded.",
  over=["inputs","configurations","histories"], quant="all small directory trees with good, failing, formula-free and non-HTML files x all option combinations",
  why="File handling of the CLI has no tests at all.",
  files=[C+"main.rs"], mech=[("convert_and_exit / write back",C+"main.rs")], observe=["mathcore binary and the scratch directory"]),
 dict(id="C22", title="Math fonts map every letter to the right Unicode character",
  statement="Applying a math font command to any letter, digit or Greek symbol that Unicode has in that mathematical alphabet yields exactly that character (including the pre-existing letterlike exceptions), every other character is left unchanged, and no font command maps two different characters to the same one.",
  over=["inputs"], quant="all font commands x all Unicode scalar values",
  why="Tests check some alphabets' endpoints.",
  files=[R+"super_char.rs",R+"attribute.rs",L+"character_class.rs"], mech=[("TextTransform::transform",R+"attribute.rs")]),
 dict(id="C23", title="Every Unicode character is either rendered or rejected, never dropped",
  statement="Each Unicode scalar value typed in math mode, in text, or as an argument either appears in the output (itself or its documented math equivalent), is insignificant whitespace, or is reported as an error; it never disappears, changes identity, or alters its neighbours' text.",
  over=["inputs"], quant="all 1,112,064 Unicode scalar values x all input positions",
  why="Tests type a few dozen characters.",
  files=[L+"lexer.rs",L+"text_parser.rs",R+"super_char.rs"], mech=[("character dispatch",L+"lexer.rs")]),
 dict(id="C24", title="Groups, delimiters and environments must balance",
  statement="An input is accepted only if its braces, \\left/\\right pairs and \\begin/\\end pairs are properly nested with matching environment names; every properly nested input of otherwise ordinary material is accepted. The error for an unbalanced input identifies an unclosed or unmatched construct.",
  over=["inputs"], quant="all bracket sequences up to the bound over braces, \\left, \\right, \\begin and \\end of several environments",
  why="Tests contain a few unbalanced inputs.",
  files=[L+"parser.rs",L+"lexer.rs"], mech=[("SequenceEnd",L+"parser.rs")]),
 dict(id="C25", title="Tables have exactly the rows and cells that were written",
  statement="A table environment produces one row per \\\\-separated row and one content cell per &-separated cell, in order, with each cell holding exactly the material written there, whatever mixture of switches, scripts, fractions, groups, rules and nested tables the cells contain. A cell or row separator that is not directly in a table is an error or has no effect on any table, and rules, alignment and column lines apply to the stated rows and columns.",
  over=["inputs"], quant="all tables up to 3x3 over a cell alphabet x all table environments",
  why="Tests contain about a dozen tables with ordinary cells.",
  files=[R+"ast.rs",R+"table.rs",L+"parser.rs",L+"environments.rs"], mech=[("emit_table",R+"ast.rs"),("NewColumn/NewLine",L+"parser.rs")]),
 dict(id="C26", title="Library, command line and Python binding agree",
  statement="The command-line tool with a configuration file, the Python binding with the corresponding arguments and the Rust library with the corresponding configuration give the same MathML, the same errors (with offsets in the units of the caller) and the same state across conversions. Option values of the wrong type are rejected by each front end.",
  over=["configurations","inputs","histories"], quant="all single and pairwise option settings x an alphabet of snippets and operation sequences",
  why="Each front end has its own few tests; nothing relates them.",
  files=[P+"lib.rs",C+"config_file.rs",C+"main.rs",L+"lib.rs"], mech=[("serde config",C+"config_file.rs"),("pyclass",P+"lib.rs")], observe=["math_core Python module","mathcore binary","LatexToMathML"]),
 dict(id="C27", title="Cargo features do not change results",
  statement="Building the library without the std, serde or ariadne features gives the same output and the same errors for every input as building it with them.",
  over=["inputs","configurations"], quant="all inputs up to the bound x feature sets",
  why="Tests run only with all features on.",
  files=[L+"lib.rs","crates/math-core/Cargo.toml"], mech=[("cfg(feature)",L+"lib.rs")]),
 dict(id="C28", title="Operators are spaced by TeX's atom classes",
  statement="In a row of symbols, \\big delimiters, roots, accents, scripted atoms, arguments of class commands (\\mathbin, \\mathrel, ...), arrows and \\overset or \\underset constructions, the space between two adjacent atoms is the one TeX's atom-class table gives for their classes: a binary operator without proper operands on both sides is treated as ordinary, relations and punctuation lose their space next to each other and at group boundaries, and script styles drop medium and thick spaces. Class commands make their argument behave like that class, and a symbol keeps its class below or above a label. (What is in front of a braced group or an \\overset sees the first token of it, braces count as opening; fractions, \\left...\\right and \\dots are not spaced like TeX's Inner atoms.)",
  over=["inputs"], quant="all sequences of atoms up to the bound over representatives of every class, in all contexts",
  why="Spacing depends on neighbours on both sides; tests cover some pairs.",
  files=[L+"parser.rs",L+"character_class.rs",R+"attribute.rs"], mech=[("bin_op_spacing / relation_spacing",L+"parser.rs")]),
 dict(id="C29", title="The math style is tracked as TeX tracks it",
  statement="\\mathchoice and everything else that depends on the style picks the style TeX would be in: display or text at top level according to the display mode, next smaller in numerators and denominators, script sizes in sub- and superscripts, the environment's style in tables, and the explicit style after \\displaystyle and friends until the end of the group.",
  over=["inputs"], quant="all nestings of style-changing constructs up to the bound, probed with \\mathchoice",
  why="Tests probe single constructs.",
  files=[L+"parser.rs",R+"attribute.rs",L+"environments.rs"], mech=[("ParserState.style",L+"parser.rs")]),
 dict(id="C30", title="Sub- and superscripts attach to the right base, in any order",
  statement="Scripts attach to the immediately preceding atom (or to an empty base), a subscript and a superscript give the same output in either order, primes combine with each other and with a following superscript, and a second script of the same kind is an error. Large operators and named operators with limits place them above and below exactly according to their kind, the style, and \\limits, \\nolimits or \\displaylimits, which are errors anywhere else.",
  over=["inputs"], quant="all base kinds x all script sequences up to the bound x both display modes",
  why="Tests cover common orders for some operators.",
  files=[L+"parser.rs",R+"ast.rs"], mech=[("get_bounds",L+"parser.rs"),("Bounds::try_wrap_node",L+"parser.rs")]),
 dict(id="C31", title="A single token or command is an argument just like the same thing in braces",
  statement="Where a command takes an argument, a script is attached, or a symbol is modified, one token (a letter, digit, symbol, or one built-in command together with its own arguments) standing there without braces gives the same formula as the same token in braces, whatever follows it; nothing of what follows the token is drawn into the argument and nothing of the token is left outside.",
  over=["inputs"], quant="all argument-taking commands and their nestings up to the bound x all built-in commands as the argument x following material",
  why="Tests nearly always write braces; symbols that are composed of several tokens internally only fail without them.",
  files=[L+"parser.rs",L+"token_queue.rs",L+"predefined.rs"], mech=[("parse_next / ParseAs::Arg",L+"parser.rs"),("read_argument",L+"token_queue.rs")]),
 dict(id="C32", title="Text is set letter by letter under the declarations in force",
  statement="In text (\\text, \\textbf, \\raisebox, ...) every letter and symbol of the source is set exactly once and in order, in the style of the innermost text command around it, in the size of the last size declaration of the enclosing groups, and shifted by the sum of the enclosing \\raisebox commands; accents sit on the letter they precede, in the order of nesting; blanks are set except behind control words, spacing commands and accents; a declaration ends with its group. Text with missing arguments or unclosed groups is rejected, and commands of text mode are rejected in math. The name of an operator (\\operatorname) shows its letters, symbols and spaces in order, the spaces with their widths.",
  over=["inputs"], quant="all sequences of text tokens (letters, blanks, braces, text commands, size declarations, shifts, accents) up to the bound",
  why="Styles, sizes, shifts and groups nest in each other in any order, while the snapshots hold a few dozen texts.",
  files=[L+"text_parser.rs",L+"lexer.rs",L+"commands.rs",R+"ast.rs"], mech=[("extract_text",L+"text_parser.rs"),("Node::Text",R+"ast.rs")]),
 dict(id="C33", title="Every construct puts its arguments in its slots",
  statement="The structure of the output is that of the formula: fractions, roots, scripts, stacks, accents, arrows with labels, tables, delimited groups, enclosures, tensors, and the rest show each of their arguments exactly once, in the place that belongs to it, with the symbols that belong to the construct and no others, whatever other constructs stand in the arguments, before it, or behind it.",
  over=["inputs"], quant="all trees of constructs up to the bound in depth and width, with a different letter in every leaf",
  why="Each construct is tested with letters as arguments; the combinations - an infix fraction in a table cell in the index of a root - are not.",
  files=[L+"parser.rs",L+"commands.rs",L+"environments.rs",L+"predefined.rs",R+"ast.rs"], mech=[("parse_token",L+"parser.rs"),("Node::emit",R+"ast.rs")]),
 dict(id="C34", title="Symbols grow exactly where the formula says so",
  statement="Delimiters behind \\left, \\middle and \\right, the fences of environments, \\binom and the like, braces, arrows and lines over or under a formula, and labelled arrows stretch to their content; delimiters behind \\big, \\Big, \\bigg and \\Bigg have the four fixed sizes and stay centred on the axis; and no other symbol stretches, whatever it is, wherever it stands, and whichever commands surround it.",
  over=["inputs"], quant="all symbols x pairs of contexts, all delimiters x size commands x pairs of contexts, all sequences of delimiter tokens up to the bound",
  why="Whether a symbol stretches depends on its position and on the browser's dictionary; the snapshots fix the attributes for a few delimiters in a few places.",
  files=[L+"character_class.rs",L+"parser.rs",L+"environments.rs",R+"symbol.rs"], mech=[("fenced",L+"character_class.rs"),("extract_delimiter",L+"parser.rs"),("relation_attrs",L+"parser.rs")]),
 dict(id="C35", title="Every symbol has the character and the class its name stands for",
  statement="Each symbol command of LaTeX, amsmath, amssymb, unicode-math and the other supported packages is accepted and prints the character its name stands for; it and every mathematical character typed directly has the atom class (ordinary, operator, binary, relation, opening, closing, punctuation) that LaTeX or unicode-math gives it, whatever stands next to it; \\not and \\vertoverlay strike it through without changing its class; and a command name ends where its letters end, whatever character follows.",
  over=["inputs"], quant="all symbol names and characters of the published tables x all kinds of neighbours, all pairs of symbols",
  why="There are about 900 commands and 900 characters; the tests print some of them and hardly check what stands next to them.",
  files=[L+"commands.rs",R+"symbol.rs",L+"character_class.rs",L+"lexer.rs",L+"predefined.rs"], mech=[("COMMANDS",L+"commands.rs"),("UNICODE_OPERATORS",L+"commands.rs"),("read_command",L+"lexer.rs"),("Token::Overlay",L+"parser.rs")]),
 dict(id="C36", title="Rendering options change only the commands they name",
  statement="unicode_substitution and allow_unreliable_rendering affect only the commands they are about (\\cdots, \\coloneq, \\coloneqq, \\Coloneq, \\Coloneqq, \\dashcolon, \\dblcolon, \\eqcolon, \\eqqcolon; \\widetilde, \\widecheck, \\utilde): every formula without them is the same under every setting. With substitution such a command gives exactly the composed character's result, without it the parts written out; with unreliable rendering allowed the accents behave like the other accents, and otherwise their names are unknown commands, free to be defined. The CSS class for unknown commands changes nothing but that class.",
  over=["inputs","configurations"], quant="all inputs in the bounds x settings, all affected commands x contexts x neighbours, all definitions of the names",
  why="The tests convert a dozen formulas with the options; whether a setting leaks into other formulas, macros of the configuration or definitions is not sampled.",
  files=[L+"commands.rs",L+"lib.rs",L+"token_queue.rs",R+"ast.rs"], mech=[("resolve_builtin_cmd",L+"commands.rs"),("parse_custom_commands",L+"lib.rs")]),
 dict(id="C37", title="The WebAssembly package agrees with the library",
  statement="The package for JavaScript, running on wasm32, gives for every input, set of options and sequence of calls the MathML that the library gives for the corresponding configuration, and keeps the same state. A failing conversion throws (or, with throwOnError false, returns the error markup): the error has the library's message, label and report, its start and end are the same positions in UTF-16 code units, index is the position of the first failing snippet of a batch and context is the definition an invalid macro comes from. Options that are absent or null have their default, and values that mean nothing (an unknown prettyPrint or unicodeSubstitution, macros that are no strings) are rejected.",
  over=["configurations","inputs","histories"], quant="all single and pairwise option settings x operation sequences, all inputs up to the bound",
  why="The binding has no tests, and its 32-bit target is never run.",
  files=["crates/math-core-wasm/src/lib.rs",L+"lib.rs"], mech=[("byte_offset_to_utf16_offset","crates/math-core-wasm/src/lib.rs"),("MathCoreOptions","crates/math-core-wasm/src/lib.rs")], observe=["math-core-wasm package under Node"]),
dict(id="C38", title="The list of symbols for font subsetting and the style sheet cover the output",
  statement="Every character outside ASCII that the converter puts into the MathML of an input of ASCII characters is in the list that scripts/generate_symbol_document.py writes (scripts/all_symbols.txt), which users take to cut math fonts down; and every class and every notation of <menclose> that it uses has a rule in css/mathmlfixes.css (except the two classes of text fonts that the documentation tells users to style).",
  over=["inputs"], quant="every token in every context and in front of every other token, all token sequences up to the bound",
  why="A character missing in the list is a missing glyph on the user's page; nothing ties the list, the style sheet and the converter together.",
  files=["scripts/generate_symbol_document.py","css/mathmlfixes.css","crates/mathml-renderer/src/symbol.rs","crates/mathml-renderer/src/attribute.rs"], mech=[("math_script_blocks","scripts/generate_symbol_document.py")], observe=["symbols.txt of the script","MathCore::convert_with_global_state"]),
]

BY = {
 "C38": ("exploration", "exhaustive enumeration of inputs on the real code, every character and class of the output looked up in the generated list and the style sheet", "Every token in every context, every command before every other token, and all sequences within the bounds; the list is generated by the script from the working tree."),
 "C37": ("exploration", "exhaustive enumeration of inputs, option values and operation sequences, the wasm32 package under Node compared with the library", "Every option value and pair with every sequence of operations up to the bound, and every input of the generic universe; both sides are the real code, the error fields are derived independently from the library's byte ranges."),
 "C36": ("exploration", "exhaustive enumeration of inputs x option settings on the real code, relational check against stand-ins", "Every input within the bounds under every setting; the oracle is the real code on the same input with the character, the parts, or an unknown name."),
 "C35": ("model_checking", "model of TeX's atom classes and spaces, every symbol and pair of symbols of independent tables replayed on the real code", "Names, characters and classes come from LaTeX and the unicode-math table, not from the code; each is rendered between all kinds of neighbours and next to every other symbol and the spaces compared with the model's."),
 "C01": ("exploration", "exhaustive enumeration of token sequences, nestings and macro programs on the real code", "Every token sequence over the vocabulary within the bounds, on a build with debug assertions and overflow checks; crashes and hangs are caught per case in worker processes. Longer inputs are only covered along the listed growth families."),
 "C02": ("exploration", "exhaustive enumeration of inputs, output parsed by an independent strict parser", "Every input within the bounds; the output grammar (elements, attributes) is an oracle table."),
 "C03": ("exploration", "exhaustive enumeration of inputs, content-model monitor on the parsed output", "Every input within the bounds in both display modes; nothing is sampled."),
 "C04": ("exploration", "exhaustive enumeration of inputs x pretty-print settings, tree comparison", "Relational check between settings of the real code; every combination within the bounds."),
 "C05": ("exploration", "exhaustive enumeration of inputs x option combinations, tree comparison", "Relational check between option settings of the real code."),
 "C06": ("exploration", "exhaustive enumeration of failing inputs, position and rendering monitors", "Every failing input within the bounds, plus translation by prefixes."),
 "C07": ("exploration", "exhaustive enumeration of call histories on the real code, comparison with a fresh converter", "Every history of stateful calls up to the bound; no model is needed because the oracle is the fresh converter itself."),
 "C08": ("model_checking", "explicit-state exploration of a reference model of the global state, every trace replayed on the real code", "The abstract state (counter, label map, definitions) is explored breadth-first and exhaustively; each transition is validated by replaying its trace against the implementation."),
 "C09": ("exploration", "exhaustive enumeration of snippet lists, differential check of the two entry points", "Every list up to the bound; the sequential entry point is the oracle."),
 "C10": ("model_checking", "reference model of amsmath numbering, every document in the bounds replayed on the real code", "The model is an independent counter/label machine run over row decorations; every enumerated document is compared with the real output."),
 "C11": ("model_checking", "explicit-state exploration of a reference interpreter of TeX definitions, every program replayed on the real code", "An independent interpreter of definitions, scoping and binding is run over every program in the bounds; its expansion is compared with the real output for each."),
 "C12": ("exploration", "exhaustive enumeration of macro bodies x contexts x definition mechanisms, differential against the written-out body", "Every body, argument and context within the bounds; the oracle is the real code on the input with the body written in place of the macro."),
 "C13": ("model_checking", "explicit enumeration of macro programs in a counting reference interpreter, each replayed on the real code under every limit", "The number of expansions comes from the reference interpreter of C11 and the real code is run with every limit around it; use contexts and self-referential systems are enumerated as well."),
 "C14": ("exploration", "exhaustive enumeration of inputs, relational check with and without the option and against a known stand-in", "Every input within the bounds under both settings; the oracle is the real code on the same input with a known command."),
 "C15": ("exploration", "exhaustive enumeration of snippets and snippet lists, monitor on the parsed output", "Every snippet and list up to the bound."),
 "C16": ("exploration", "exhaustive enumeration of inputs x insertion points x whitespace and comment forms, relational check", "Every input within the bounds and every gap between its tokens (found by an independent tokenizer); the oracle is the real code on the input without the insertion."),
 "C17": ("model_checking", "exhaustive path exploration of a stack-machine model of groups and switches, every path replayed on the real code", "Every path of the machine up to the bound; font, colour and style of every letter are computed from the output and compared."),
 "C20": ("exploration", "exhaustive enumeration of argument strings, independent recognisers and evaluators of the grammars", "Every string up to the bound over the characters of each grammar plus structured families; the value shown in the output is compared with the denoted one."),
 "C22": ("exploration", "exhaustive enumeration of all characters x font commands against the Unicode Character Database", "Complete over single characters and single-letter commands; combinations of two letters are enumerated from a selection."),
 "C23": ("exploration", "exhaustive enumeration of all Unicode scalar values x input positions, text monitor", "Complete over the scalar values; the positions are a list of templates."),
 "C24": ("model_checking", "exhaustive path exploration of a pushdown-automaton model of the grouping constructs, every path replayed on the real code", "Every path of the automaton up to the bound; acceptance, the position and the kind of the error are compared. Material between the brackets is a fixed set of ordinary tokens."),
 "C25": ("exploration", "exhaustive enumeration of tables, grid reconstructed from the parsed output", "Every table up to the bound over the cell alphabet, against the grid that was written."),
 "C18": ("exploration", "exhaustive enumeration of documents over delimiter fragments, reference scanner compared with the real binary", "Every document up to the bound for every delimiter configuration, and every offset around the sizes at which the search window grows; no document is sampled."),
 "C19": ("exploration", "exhaustive enumeration of entity fragments, reference decoder compared with the real binary", "Every sequence of fragments up to the bound inside and outside of formulas."),
 "C21": ("fault_enumeration", "exhaustive enumeration of directory trees x options x points at which writing fails, on the real binary", "Every small tree and option combination; the failure of a write after every number of bytes is enumerated and a torn file is a known finding."),
 "C26": ("exploration", "exhaustive enumeration of option values x operation sequences, three front ends of the real code compared", "Every option value and pair of values with every sequence of operations up to the bound; the WebAssembly package is left to C37."),
 "C27": ("exploration", "exhaustive enumeration of inputs, builds with four feature sets compared with the full build", "Every input within the bounds is answered by five builds of the real code."),
 "C28": ("model_checking", "explicit-state model of TeX's atom classes and spacing table, every path replayed on the real code", "Every sequence of atoms up to the bound in every context; the spaces are computed from the output by the rules of MathML Core. Three deviations are known findings and modelled exactly."),
 "C29": ("model_checking", "explicit-state model of TeX's style machine, every path replayed on the real code", "Every nesting of style-changing contexts up to the bound; the chosen alternative of \\mathchoice is compared with the model and with the style computed from the output."),
 "C30": ("model_checking", "explicit-state reference model of scripts and limits, every sequence of script tokens replayed on the real code", "Every sequence of script tokens up to the bound behind every kind of base in every context; the effective placement is computed from the output by the rules of MathML Core."),
 "C32": ("exploration", "exhaustive enumeration of text token sequences on the real code, compared with an independent recursive evaluation", "Every balanced sequence of up to 5 (thorough: 7) tokens; the reference evaluates groups and arguments recursively, the code keeps explicit stacks."),
 "C34": ("model_checking", "automaton of growing delimiters, every sequence of delimiter tokens replayed on the real code; symbols x contexts enumerated exhaustively", "The symbols that stretch are computed from the output with MathML Core's operator dictionary (transcribed) and compared with the list the automaton gives."),
 "C33": ("exploration", "exhaustive enumeration of trees of constructs on the real code, compared with an independent skeleton", "Every chain, pair, and row of constructs within the bounds; the skeleton of each construct is written down from LaTeX, not from the code."),
 "C31": ("exploration", "exhaustive enumeration of argument positions x built-in commands x following tokens, relational check with braces", "Every command of the vocabulary in every argument position and nesting of two positions; the oracle is the real code on the braced form."),
}
for p in PROPS:
    if p["id"] in BY:
        p["level"], p["technique"], p["note"] = BY[p["id"]]
