import json
S="CMakePasm/source/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=[S+f if not f.startswith("CMakePasm") else f for f in files],mechanism=[dict(name=m,where=", ".join(S+f if not f.startswith("CMakePasm") else f for f in files)) for m in mech],observe_at=observe))
    P.append(d)

p("C01","Every instruction is encoded as the CPU's opcode for the mode it is written in",
 "For every 6502 instruction (and, in 65C02 mode, every documented 65C02 instruction except the branch-on-bit group BBR/BBS) written in an addressing mode that CPU has, the assembler emits exactly the CPU's opcode byte for that mode followed by the operand, low byte first. Where both a zero-page and an absolute form exist, the zero-page form is emitted exactly when the operand's final value is below 256, whether the operand is a literal, an expression or a symbol defined before or after its use; operands of 256 to 65535 get the absolute form. A mnemonic used in an addressing mode the CPU does not have is rejected.",
 ["inputs","programs"],"all mnemonics x all written operand forms x all operand values x how the operand is spelled (literal, expression, earlier or later symbol) x CPU mode",
 "The tests look up single table entries and expand a few hand-built nodes; none drives (mnemonic, mode, operand value, definition order) through lexer, passes and output.",
 ["opcodes.cc","node.cc","expand.cc","genoutput.cc","pasm.y"],["opcode tables and get_op_code","opcode_node mode selection","page-zero optimisation in expand_op_code_node","write_opcode_node"],
 ["bytes of the -o file","exit status"])

p("C02","CPU and undocumented-opcode gating is exact",
 "Undocumented 6502 instructions are assembled in 6502 mode exactly when they have been allowed, by -i or by the latest .illegal on/off before them, and then get their well-known opcodes; otherwise the program is rejected. 65C02-only instructions and addressing modes are assembled in 65C02 mode (-65c02 or .65c02 on) and rejected in 6502 mode. Allowing undocumented instructions or switching to 65C02 mode never changes the encoding of a documented 6502 instruction.",
 ["inputs","configurations"],"all mnemonics and modes x option/directive combinations selecting CPU and undocumented opcodes x position of the directives in the program",
 "Tests look at one table at a time with globals set by hand; the combination of options, in-source switches and order of statements is never run.",
 ["opcodes.cc","node.cc","pasm.l","parseargs.cc"],["get_opcode_info / get_op_code table choice","allow_illegal_op_codes","cpu_mode","lexer actions for .illegal, .6502, .65c02"],
 ["bytes of the -o file","exit status"])

p("C03","Expressions have one well-defined value, the same in every context",
 "Every expression built from decimal, $hex, %binary, 0b binary, octal and character literals, symbols, the program counter *, parentheses, unary - ~ < > not, and the binary operators * / + - & | ^ < > <= >= == != <> && || << >> evaluates to the 32-bit signed value given by the grammar's precedence (loosest to tightest: unary ~ < > not; shifts; logical and comparison operators, left-associative; & | ^; + -; * /), where comparisons and logical operators give 0 or 1, < and > prefixes take the low and high byte of the 16-bit value, and ~ complements within 8 bits for values that fit in a byte and within 16 bits otherwise. The value is the same wherever the expression is used: data, operand, equate, condition, loop bound, macro argument. Division by zero is an error.",
 ["inputs"],"all expressions of the grammar up to a size bound, with operand values chosen around byte/word boundaries, used in every expression context",
 "Tests evaluate one hand-built node per operator with one or two values; precedence, associativity, nesting, lexing of literals and the various contexts are untested.",
 ["pasm.y","pasm.l","expand.cc","node.cc"],["operator precedence declarations","expand_operator_*_node evaluators","literal lexing INT/INT_1BYTE"],
 ["bytes of .byte/.word/.if/operands in the -o file"])

p("C04","Labels and equates resolve to their final values wherever they are referenced",
 "A label's value is the address of the statement that follows it in the final output, and an equate's value is that of its expression; every reference, before or after the definition and through any chain of equates, sees that same final value. Moving an equate of a constant expression anywhere else in the program leaves the output unchanged. Renaming symbols consistently leaves the output unchanged.",
 ["programs"],"all programs mixing labels, equates, forward and backward references through chains of equates, and instructions whose size depends on them",
 "Convergence over passes with size-changing forward references exists only in whole programs; the unit tests never run more than one expansion of a fragment.",
 ["sym.cc","pass.cc","expand.cc","node.cc"],["add_symbol / set_symbol_value","multi-pass loop until no symbol changes","expand_operator_equ_node","label_node"],
 ["bytes of the -o file","values in the -s file"])

p("C05","The output file is exactly the emitted bytes at their addresses",
 "The output file contains the bytes of all statements in source order and nothing else (with -c64 or .c64, preceded by the two-byte little-endian address of the first emitted byte), and the program counter seen by labels and * equals the start address given by .org or *= plus the bytes and reservations so far; *= moves the program counter without emitting bytes. .ds reserves space by advancing the program counter without emitting: it may stand before any origin and emission, and between code and the next *=, while a reservation followed by emitted code in the same run of addresses is rejected rather than mis-placed. Nothing after .end contributes.",
 ["programs","configurations"],"all sequences of instructions, data, .fill, .ds, .org, *=, labels and .end, with and without the C64 header",
 "Layout is a relation between all statements of a program and the final file; tests examine program-counter changes of single nodes only.",
 ["genoutput.cc","expand.cc","pass.cc","pasm.l"],["generate_output delta check","write_header","program_counter updates in expand_*_node","end_expansion"],
 ["bytes and size of the -o file","exit status"])

p("C06","Branches reach their target at any distance",
 "A branch whose target lies -128 to +127 bytes from the following instruction is emitted as that branch with the exact two's-complement displacement. A branch to a target further away is emitted as code with the same effect: control reaches the target exactly when the branch condition holds and otherwise continues with the next statement. Labels around relaxed branches keep their correct addresses.",
 ["programs"],"all branch mnemonics x all distances and directions, especially around the range limits, several interacting branches per program",
 "The test-suite checks range handling at single distances on hand-built nodes; limits, each condition, and interaction of relaxed branches need generated programs executed on a CPU model.",
 ["expand.cc","genoutput.cc","node.cc"],["range check and condition inversion in expand_op_code_node","write_opcode_node range check"],
 ["bytes of the -o file executed on a simulator","labels in the -s file"])

p("C07","Data directives emit exactly their values or are rejected",
 ".byte/.db emit one byte per value, .word/.dw/.dcw two bytes low byte first, strings in them one byte per character (.word pads a string of odd length with one zero byte), .str/.text/.string emit strings as they are and numbers as one byte or, from 256 up, two bytes low byte first, and .fill v,n emits n copies of v. Values that do not fit (.byte above 255, .word above 65535, .fill values above 255 or negative, negative counts) make the assembly fail. Each directive advances the program counter by exactly the number of bytes it emits.",
 ["inputs"],"all directive x value-list combinations with literals, expressions, forward references and strings, values around every limit",
 "Tests expand a few one-element lists; lists mixing strings and values, limits and forward references are not run to output.",
 ["expand.cc","genoutput.cc","node.cc","pasm.l"],["expand_data_node / EXPRLIST expansion","write_data_node","write_string_node","expand_operator_fill_node"],
 ["bytes of the -o file","label values after the directive","exit status"])

p("C08","String literals and escapes denote exactly the bytes written",
 "A quoted string contributes exactly its characters, with each escape (\\n \\r \\t \\a \\b \\f \\v \\\\ \\' \\\" and \\x followed by pairs of hex digits) replaced by the bytes it denotes, in .byte, .word, .str and .print alike; all other characters, including comment markers and directive-like text inside the quotes, are taken literally. A character constant, or a string of one character, in an expression has the code of its character.",
 ["inputs"],"all strings over printable characters and supported escapes, in each directive, with neighbours of every kind",
 "The tests cover a handful of strings directly on the sanitiser; lexing, comment markers and escapes at string ends need generated strings.",
 ["str.cc","pasm.l","node.cc","genoutput.cc"],["sanitize_string","STRVALUE lexing","string_node"],
 ["bytes of the -o file"])

p("C09","Conditional assembly keeps exactly the selected text",
 "A program with .if/.else/.endif and .ifdef/.ifndef/.else/.endif blocks nested in any way assembles to the same bytes and symbols as the program with each block replaced by its selected branch (.if: non-zero condition; .ifdef: symbol defined on the command line or earlier in the source, decided where the text is read - inside a macro or block at its definition). Text in branches skipped by .ifdef/.ifndef has no effect, and names used only in a branch not selected need not be defined.",
 ["programs","configurations"],"all nestings of the conditional forms with and without .else, every combination of condition values and defined symbols",
 "The lexer keeps a stack and start states for these; only a few single-level forms appear in any test, and lexer states are not reachable from the unit tests.",
 ["pasm.l","pasm.y","expand.cc"],["<IF_DEF> start condition and ifdef_stack","expand_operator_if_node"],
 ["bytes of the -o file compared with the manually selected program"])

p("C10","Assembly-time loops equal their unrolled text",
 ".for v=a .to b [.step s] (either sign of step), .while/.wend, .repeat/.until and .do/.while, nested in any way and with bodies and bounds using variables, assemble to the same bytes as the sequence of body copies obtained by running the loop by hand: .for includes its end value and does nothing if the range is empty, .while tests first, .repeat and .do test last. After .for the variable holds the first value past the end. (A .while loop cannot stand directly inside a .do loop, whose end is also spelled .while.) .end inside a loop or macro ends the assembly there.",
 ["programs"],"all nestings of loop forms with generated bounds, steps, bodies and variable updates",
 "Tests run single loops with fixed bounds on trees built by hand; nesting, steps, empty ranges and interaction with passes are not reached.",
 ["expand.cc","pasm.y","pasm.l"],["expand_operator_for_node","expand_operator_while_node","expand_operator_repeat_node","expand_operator_do_node","do_count in the lexer"],
 ["bytes of the -o file compared with an unrolled program"])

p("C11","Register loops execute their body once per value",
 ".for .regx = a .to b, .downto b and the .regy forms emit code that, when executed, runs the body once for each value from a to b inclusive, in order, with the register holding that value, and then falls through to the statement after .next. An X loop may contain Y loops and vice versa, while nesting two loops of the same register, and bounds outside 0 to 255, are rejected. A loop whose range is empty emits nothing, one of a single value runs its body once with the register loaded.",
 ["inputs","programs"],"all start/end pairs, directions, registers, body sizes (including ones that need long branches) and nestings of X and Y loops",
 "The tests compare emitted bytes for one loop each; whether the code iterates correctly for all bounds needs execution.",
 ["expand.cc","pasm.y"],["expand_operator_for_reg_node"],
 ["bytes of the -o file executed on a simulator"])

p("C12","A macro call equals its body with the arguments substituted",
 "Calling a macro emits the same bytes as writing its body with \\1..\\n replaced by the values of the arguments at the call, for any number of calls, call nesting and argument expressions. Labels local to the macro (starting with @) are private to each call, and macro calls leave the caller's own parameters and local labels untouched.",
 ["programs"],"all programs with several macros calling each other, arguments that are expressions over symbols, * and the caller's parameters, and local labels in caller and callee",
 "Parameter stacking and label scoping across nested calls over several passes are not reachable with the tests' single calls.",
 ["expand.cc","sym.cc","node.cc","pasm.l"],["expand_macro_expansion_node","push_macro_params / pop_macro_params","macro_dict times_executed"],
 ["bytes of the -o file compared with a hand-expanded program"])

p("C13","Local and anonymous labels bind to the right definition",
 "A reference @name resolves to the definition of @name between the surrounding pair of ordinary labels, so the same local name may be reused after every ordinary label. A reference -, --, ... resolves to the first, second, ... anonymous - label above it, and +, ++, ... to the first, second, ... anonymous + label below it, in the same inclusion of the same file.",
 ["programs"],"all interleavings of ordinary labels, local labels, anonymous labels and references to them within the reachable range",
 "Tests add and look up a few entries in the tables; binding depends on order and position across the program and passes.",
 ["sym.cc","expand.cc","node.cc","pasm.l"],["find_minus_symbol / find_plus_symbol","add_symbol local-name qualification with last_label","expand_plus_minus_node"],
 ["branch and jump operands in the -o file"])

p("C14","Sections scope names lexically",
 "Inside .section s, a symbol defined as n is s.n (nested sections accumulate as a.b.n) and an unqualified reference resolves to the definition in the same section if there is one and otherwise to the global one; names in a macro are those of the section it is called in; from anywhere a symbol can be referenced by its full dotted name, before or after its definition. The same short name in different sections denotes different symbols, and closing a section restores the enclosing one; .endsection without a section is an error.",
 ["programs"],"all nestings and sequences of sections with colliding names and qualified/unqualified, forward/backward references",
 "Only whole programs over several passes show which definition a reference binds to; the tests open and close single sections.",
 ["expand.cc","sym.cc"],["expand_operator_section_node / expand_operator_end_section_node","current_scope","look_up_symbol / add_symbol scope resolution"],
 ["bytes of the -o file","names and values in the -s file"])

p("C15","Includes, binary loads and multiple inputs equal the text they stand for",
 ".inc \"file\" assembles as if the file's lines stood in its place, to any nesting depth, and several input files assemble like their concatenation with shared symbols. .load \"file\" emits exactly the file's bytes. Files are found in the current directory and in the directories of -dir; a missing file makes the assembly fail.",
 ["programs","inputs"],"all ways of splitting a program into files and include trees placed in various directories; all binary file contents and sizes",
 "No test includes or loads a file through the assembler; buffer switching, line counting and end-of-file handling are only exercised by real files.",
 ["file.cc","expand.cc","pass.cc","pasm.l"],["open_include_file and the flex buffer stack","expand_operator_load_node","open_file / search in directories","parse_pass loop over input_files"],
 ["bytes of the -o file","exit status"])

p("C16","The listing agrees with the output and the source",
 "Reading the addresses and bytes printed in the listing file in order reproduces exactly the emitted bytes at the addresses where they were emitted. Every source line of the assembled file appears in the listing in order and once, also if its file is included more than once or its lines are long, except lines between .print off and .print on, whose code is still emitted. The instruction or data text shown beside the bytes agrees with them. Producing a listing does not change the output.",
 ["programs"],"all programs of instructions, data, macros, loops, includes and .print on/off",
 "The listing is compared with nothing in the tests; agreement is a relation between three artefacts of a whole run.",
 ["genlist.cc","node.cc","file.cc","expand.cc"],["generate_list_node","generate_list_file","add_list","print_list_state"],
 ["the -l file against the -o file and the source"])

p("C17","The symbol file lists every symbol with its final value",
 "The -s file lists every label and equate that the program refers to (section members under their dotted names) exactly once with its final 16-bit value in four-digit hexadecimal, in ascending order of value; it lists no other names than labels and equates of the program, so no macro names, macro parameters, variables or local and anonymous labels. Values agree with those used in the emitted bytes.",
 ["programs"],"all programs with labels, equates, sections, forward references and command-line symbols",
 "No test writes a symbol file from an assembled program.",
 ["sym.cc","pass.cc"],["dump_symbols","symbol dictionary"],
 ["the -s file against a reference assembly"])

p("C18","Command-line options act independently and exactly as documented",
 "-d name value (decimal, $hex, 0x hex, %binary, 0b binary) behaves like an equate before the source. -o, -s, -l, -log, -v, -nowarn, -dir, -i, -c64 and the CPU switch may be given in any order, in any letter case, with - or /, before or after the inputs; only -c64 (a two-byte address header), -d, the CPU switch and -i may affect the output bytes. -nowarn suppresses warnings and nothing else. An output, symbol, listing or log file that cannot be written makes the run fail. An option given twice where only one is allowed, an option missing its argument, or no input file makes the run fail.",
 ["configurations","inputs"],"all orders, spellings and subsets of options x values of -d",
 "No test calls the argument parser; the interaction of options exists only across whole runs.",
 ["parseargs.cc","pass.cc","genoutput.cc"],["parse_arguments","output_file_format","-d value parsing"],
 ["bytes of the -o file","exit status","which files are produced"])

p("C19","A program with an error is never reported as assembled",
 "If a program contains an error - an undefined symbol, a symbol given two different values, an unknown mnemonic or unsupported mode, an operand or data value that does not fit, a division by zero, a malformed statement, a missing file - the assembler reports a diagnostic and exits with non-zero status. A program without errors exits with status 0 and writes its output.",
 ["programs","inputs"],"valid programs x one injected error of every class at every place (inside macros, loops, conditionals, includes, sections; detectable early or only in the last pass)",
 "Tests count calls of the error routine on fragments; whether the error reaches the exit status depends on the pass in which it is found.",
 ["pass.cc","error.cc","main.cc","expand.cc","genoutput.cc"],["error_count and the pass loop","exit status of assemble()","unresolved_symbol_count"],
 ["exit status","stderr"])

p("C20","Layout, case and comments do not affect the result",
 "Changing the letter case of mnemonics, directives, registers, hex digits and symbols, adding or removing blanks, blank lines and ;, // and /* */ comments, using CRLF line ends (the units * =, .print off, .ifdef name and on/off directives keep blanks between their words), an optional colon after a label, or a synonym directive (.db/.byte, .dw/.dcw/.word, .text/.string/.str, .equ/=, .mac/.macro, .sect/.section ...) leaves the output bytes and symbol values unchanged.",
 ["programs"],"all programs x all combinations of such rewritings",
 "Metamorphic over programs; the lexer's rules and its remembered last token are not reachable from the unit tests.",
 ["pasm.l","pasm.y","sym.cc"],["flex rules and case-insensitive option","last_token / label detection","symbol name normalisation"],
 ["bytes of the -o file of both variants"])

p("C21",".print shows the final values in source order",
 ".print and ? write one line to the console, once per execution of the statement in the final assembly, with each string as written and each value as $LO or $HI $LO in two-digit hexadecimal of its final 16-bit value, also inside loops, macros and conditionals; .printall and ?? do the same on every pass. Printing does not change the output.",
 ["programs"],"all programs with .print statements over strings, labels, forward references and loop variables",
 "Tests expand one print node; final values in order need whole programs.",
 ["expand.cc","pasm.l"],["expand_operator_print_node","EXPRLIST expansion with print"],
 ["standard output"])

p("C22","Assembly-time variables are sequential",
 "A symbol declared with .var takes its initial value (0 if none) at the declaration and after that the value most recently assigned before the point of use in assembly order, including assignments in loops, macro bodies and conditionals, so the program assembles as if each use were replaced by its current value. Several variables in one .var are initialised left to right. A variable is declared before its use in assembly order; declaring it again starts anew.",
 ["programs","histories"],"all sequences of declarations, assignments, self-updates and uses of variables through loops, conditionals and macros",
 "The value at each use depends on the history of assignments in each pass; the tests declare variables but never read them back in output.",
 ["expand.cc","sym.cc"],["expand_operator_variable_node","set_symbol_value for variables","EXPRLIST expansion with symbol"],
 ["bytes of the -o file compared with constants"])

p("C23","No input crashes, corrupts or hangs the assembler",
 "For every source text and command line, well-formed or not, the assembler terminates by itself with an exit status (except for a program whose own assembly-time loop never meets its condition and emits nothing), without memory errors, undefined behaviour that corrupts state, or death by signal.",
 ["inputs"],"arbitrary byte strings, token soups, mutated valid programs and deeply nested constructs up to a size bound, under AddressSanitizer and UndefinedBehaviorSanitizer",
 "Unit tests feed no source text; malformed text is unbounded.",
 ["pasm.l","pasm.y","node.cc","sym.cc","expand.cc","stacks.cc","str.cc","file.cc","memory.cc"],["all error paths","stack pops on empty stacks","fixed-size buffers"],
 ["exit status, sanitizer reports"])

p("C24","The dictionary behaves as a map",
 "After any sequence of insert, delete and search operations on a dictionary with string keys (compared without regard to case) or pointer keys, search returns the value of the most recent insert of that key that has not been deleted, and nothing for a key that has none. Delete removes exactly the most recent entry of its key and has no effect for an absent key. Enumeration visits every live entry exactly once, the element count equals their number, and growth of the table changes none of this: a value stays where insert put it until it is deleted.",
 ["histories"],"all operation sequences with colliding and non-colliding keys through several growth steps and for every key kind",
 "Tests run fixed short sequences; growth, collisions and deletion orders form an unbounded set of histories.",
 ["dictionary.cc","hash.cc"],["dict_insert / dict_search / dict_delete","grow and rehash","hash functions"],
 ["return values of the dictionary functions"])

p("C25","The stack is last-in first-out for every element size",
 "After any sequence of push, pop, top, item access and clear operations, for every element size, the stack returns the pushed elements bit for bit in last-in first-out order, item access by index returns the element pushed at that depth, and the stack's index is always the number of elements minus one (-1 when empty). Growth beyond any capacity loses nothing.",
 ["histories"],"all operation sequences through several growth steps for many element sizes",
 "Histories are unbounded; the stack has no test beyond its use.",
 ["stacks.cc"],["push / pop / top / clear","growth"],
 ["return values of the stack functions"])

p("C26","eolconvert changes line ends and nothing else",
 "For every text file (printable characters, with lines ended by LF or CRLF in any mixture, or all by CR) below the samples directory, at any depth, eolconvert leaves the same lines, each ended by LF. Every other file is left byte for byte as it was, and running the tool again changes nothing.",
 ["inputs"],"all directory trees of text files with any mixture of terminators, with and without a final terminator, and of binary files",
 "The tool has no tests.",
 ["CMakePasm/eolconvert/eolconvert.cc"],["main conversion loop"],
 ["bytes of the converted file"])

p("C27","Assembly is a deterministic function of sources and options",
 "Assembling the same sources with the same options gives the same exit status and the same output, symbol and listing files every time, whatever the current directory, names of the files (but for those shown in the listing), environment, order of the options, memory contents or previously existing content of the output files.",
 ["programs","configurations"],"all programs x repeated runs x locations, file names, pre-existing outputs, address-space layouts",
 "Nothing in the tests runs the same program twice.",
 ["pass.cc","memory.cc","sym.cc","file.cc"],["global state reset per pass","output truncation","hash ordering"],
 ["bytes of -o, -s, -l files"])
p("C28","A diagnostic points at the statement in error",
 "When a program's only error is a statement that is malformed, unknown or cannot be assembled (a value that does not fit, a division by zero, a missing .load file), the first diagnostic names the file that holds the statement and the line number of the statement or the next one, and shows that line under its number; an error that only shows while a conditional, loop or macro call is assembled is reported within the lines of the outermost such block or call. This holds at any depth of includes, in any of several inputs, after comments and lines of any length up to 2000 characters. A missing .inc file is named. If the number of errors is reported, it is the number of diagnostics.",
 ["programs"],"all programs x all places for one error x all kinds of such errors x files, includes and layouts",
 "The tests only look at exit codes and never at where an error is reported.",
 ["error.cc","file.cc","pasm.l","pasm.y"],["yymessage excerpt","line number kept over includes","yylineno reset per input"],
 ["file name, line number and excerpt of the first diagnostic on the console"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
