#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)

# id, title, statement, over, quantified text, why tests cannot settle it, files, mechanisms [(name, where)], observe_at, spec modules, what the check does, assumptions
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, modules, does, trusts='', state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, modules=modules, does=does, trusts=trusts, state=state))


G4 = ['src/v3x/CqasmLexer.g4', 'src/v3x/CqasmParser.g4']
SYN = G4 + ['src/v3x/syntactic_analyzer.cpp', 'src/v3x/antlr_scanner.cpp']
SEM = ['src/v3x/semantic_analyzer.cpp', 'src/v3x/analyzer.cpp']
AN = 'parse_string + Analyzer::analyze (C++), JSON and serialized results built on them'

prop('C01', 'Comments, blanks and separators never change what a program means',
     'Inserting or removing blanks, tabs, line comments, block comments (also multi-line ones), empty statements, or exchanging newline, CRLF and semicolon as statement separators, wherever tokens allow it, leaves the syntax tree and the analysis result unchanged apart from source locations. Text inside a raw string is not layout and is never altered.',
     ['programs'], 'every program and every layout of its tokens',
     'the integration tests hold one layout per program; the quantifier is over all layouts of all programs',
     SYN, [('channels/skip rules for white space and comments', 'src/v3x/CqasmLexer.g4'), ('statementSeparator', 'src/v3x/CqasmParser.g4')], [AN],
     'Layout, Programs, Pipeline, Lexer, Grammar', 'enumerates layouts of programs; TLC checks that the significant tokens are those of the plain layout; the trees of the library for each layout are compared with the specified one, which is the same for all layouts')
prop('C02', 'Operator precedence and associativity decide the expression tree',
     'Every expression is parsed as the one tree that cQASM 3.0 precedence and associativity give it: ternary (right associative) lowest, then || ^^ && | ^ & equality relational shift additive multiplicative, ** (right associative), and the prefix operators ! ~ - + tightest, with all other binary operators left associative. Parentheses override and leave no node of their own, and unary plus leaves no node.',
     ['programs'], 'every expression', 'tests fix a few dozen operator pairs; mixed chains of three and more operators with prefixes, ternaries, indices and calls are unbounded',
     SYN, [('expression alternatives in order', 'src/v3x/CqasmParser.g4'), ('visit*Expression', 'src/v3x/syntactic_analyzer.cpp')], ['syntax tree of parse_string'],
     'Grammar, Programs, Pipeline', 'all pairs (thorough: triples) of binary operators with prefixes, parentheses, ternaries, calls and indices, plus random expressions; trees compared node by node')
prop('C03', 'Source locations are exact, for nodes and for errors',
     'Every located node of the syntax tree and of the analysis result, and every semantic or syntax error, carries the line and column range of the token it stands for, counted from one in lines and code points, whatever comments, multi-line tokens, line endings and non-ASCII characters precede it. Locations name the file given by the caller, and no file when none was given; the block of the result covers exactly its statements.',
     ['programs'], 'every program and every layout', 'tests compare a few locations; layouts and characters before a token are unbounded',
     ['src/v3x/syntactic_analyzer.cpp', 'src/v3x/antlr_custom_error_listener.cpp', 'src/annotations.cpp', 'src/v3x/semantic_analyzer.cpp', 'src/error.cpp', 'src/v3x/analyzer.cpp'], [('setNodeAnnotation', 'src/v3x/syntactic_analyzer.cpp'), ('expand_to_include', 'src/annotations.cpp')], [AN],
     'Lexer, Grammar, Analysis, Pipeline', 'programs with unusual layout and characters; every location in both trees and in every error is compared, with and without file name')
prop('C04', 'Exactly the sentences of the cQASM 3.0 grammar are accepted',
     'A source text is accepted by the parser if and only if it is a sentence of the cQASM 3.0 grammar whose integer literals fit 64 bits and whose float literals are in the range of doubles. Otherwise there is exactly one parse error, located at the first token that cannot continue any sentence (or at the literal out of range), and no tree.',
     ['inputs'], 'every text', 'tests hold a fixed list of malformed programs; the set of near-miss texts is unbounded',
     SYN + ['src/v3x/antlr_custom_error_listener.cpp', 'src/v3x/parse_helper.cpp'], [('grammar', 'src/v3x/CqasmParser.g4'), ('AntlrCustomErrorListener', 'src/v3x/antlr_custom_error_listener.cpp'), ('get_int_value/get_float_value', 'src/v3x/syntactic_analyzer.cpp')], ['ParseResult'],
     'Lexer, Grammar, Pipeline, Programs', 'short token sequences after every kind of statement head, near-literals, near-keywords, mutated programs and mutated test inputs; acceptance and error location compared', 'ANTLR is replaced by the table-driven substitute in support/antlrgen, which reads the grammar files of the tree')
prop('C05', 'Only programs of the supported language version are analysed as such',
     'A program whose version equals 3.0 up to trailing zero components (3, 3.0, 3.00) passes the version check; any other version adds exactly one error, located at the version number and naming both the supported and the given version, and analysis of the statements still goes on. The analysis result reports the version as written and the API version 3.0.',
     ['programs'], 'every version number and program', 'tests sample a handful of version numbers',
     ['src/v3x/semantic_analyzer.cpp', 'src/version.cpp', 'src/v3x/CqasmLexer.g4', 'src/v3x/syntactic_analyzer.cpp'], [('visit_version/check_version', 'src/v3x/semantic_analyzer.cpp'), ('VERSION_STATEMENT mode', 'src/v3x/CqasmLexer.g4')], [AN],
     'Analysis (VersionOk), Pipeline (CheckVersion), Lexer', 'version numbers around 3.0, leading zeros, 64-bit limits, several components, followed by good and bad statements')
prop('C06', 'Version numbers are read, ordered and printed consistently',
     'A dotted sequence of decimal numbers is read component by component and printed back with the components in decimal (leading zeros dropped); the empty text is the version without components; a negative component is refused with invalid_argument and one beyond int with out_of_range. Comparison is a total preorder that orders component-wise with missing components as zero, and all six comparison operators agree with it; the Python class reads the same texts to the same components.',
     ['inputs'], 'all version texts and all pairs of versions', 'ordering laws quantify over all pairs and triples; no existing test compiled here touches versions',
     ['src/version.cpp', 'include/libqasm/version.hpp', 'python/module/cqasm/v3x/primitives.py'], [('Version::Version', 'src/version.cpp'), ('Version::compare', 'src/version.cpp')], ['cqasm::version::Version', 'cqasm.v3x.primitives.Version'],
     'Version, MC_Version', 'TLC checks the order laws on all versions up to a depth and prints every comparison and reading; each is replayed on the C++ class and, for reading, on the Python class', 'texts that are not dotted decimals are unspecified')
prop('C07', 'Names resolve to what was declared, and nothing else',
     'A name refers to the declared variable or built-in constant of exactly that spelling (case-sensitive), only after its declaration; using any other name is an error that names it and is located at its use. Declaring a name that the scope already has, be it a variable or a constant, is an error that names it and does not disturb the first meaning; gate, function and keyword spellings are separate from variable names and equally case-sensitive.',
     ['programs'], 'every sequence of declarations and uses', 'tests declare one or two variables; orders and collisions are unbounded',
     ['src/v3x/resolver.cpp', 'src/v3x/analyzer.cpp', 'src/v3x/semantic_analyzer.cpp', 'src/v3x/register_instructions.cpp'], [('VariableTable', 'src/v3x/resolver.cpp'), ('visit_variable', 'src/v3x/semantic_analyzer.cpp')], [AN],
     'Analysis (ResolveVariable, DeclareVariable), Pipeline', 'all short sequences of declarations and uses over colliding names; invariants UniqueNames and OperandsFitSignature checked by TLC')
prop('C08', 'Declarations yield exactly the declared variables, in order',
     'The variables of the result are the declared ones in source order with the declared type (qubit, bit, qubit array, bit array) and size, where a size in brackets always makes an array, also [1]. A size of zero is an error located at the declaration.',
     ['programs'], 'every sequence of declarations', 'tests hold single declarations; sizes and orders are unbounded',
     ['src/v3x/semantic_analyzer.cpp', 'src/v3x/syntactic_analyzer.cpp', 'src/v3x/types.cpp'], [('visit_variable', 'src/v3x/semantic_analyzer.cpp')], ['Program.variables of the analysis result'],
     'Analysis (DeclareVariable), Pipeline', 'declarations with every kind of size incl. 64-bit limits, mixed with other statements')
prop('C09', 'Constant expressions evaluate to their mathematical value',
     'Every constant expression in a program evaluates to the value that 64-bit two\'s-complement integer, IEEE double and boolean arithmetic give it: division truncates toward zero and % takes the sign of the dividend, >> keeps the sign, comparisons and logic are exact, float operations and functions are those of the C library. Integer division or modulo by zero, and the one overflowing quotient, are reported as errors and never crash.',
     ['programs'], 'every constant expression', 'values of expressions are an infinite domain; tests check about one value per operator',
     ['src/v3x/register_consteval_core_functions.cpp', 'include/libqasm/v3x/register_consteval_core_functions.hpp', 'src/v3x/core_function.cpp', 'src/v3x/semantic_analyzer.cpp', 'src/v3x/values.cpp'], [('consteval core functions', 'src/v3x/register_consteval_core_functions.cpp'), ('promotion', 'src/v3x/values.cpp')], ['parameters in the analysis result'],
     'Values (Apply), BigInt, Analysis', 'all operators on boundary values plus random typed expressions; the specification computes integers and booleans itself and hands floats out as terms evaluated in IEEE arithmetic', 'overflow of 64-bit + - * negation and abs, and shifts outside 0..63, have no specified value; the C library of the machine computes transcendental functions')
prop('C10', 'Operators and functions take exactly the specified operand types',
     'An operator or function applied to operands is accepted if and only if an overload exists whose parameter types the operands equal or promote to (bool to int to float, nothing else), the most specific one is used (bool before int before float), and the result has its type. Otherwise the error names the operator or function and the operand types; non-constant operands of an arithmetic operation are errors.',
     ['programs'], 'all combinations of operators, functions and operand types', 'tests cover a fraction of operators x type combinations',
     ['src/v3x/register_consteval_core_functions.cpp', 'src/v3x/resolver.cpp', 'include/libqasm/overload.hpp', 'src/v3x/values.cpp', 'src/v3x/semantic_analyzer.cpp'], [('register_consteval_core_functions', 'src/v3x/register_consteval_core_functions.cpp'), ('OverloadResolver', 'include/libqasm/overload.hpp')], [AN],
     'Values (DefaultFunctions, ResolveOverload, Call), Analysis', 'every binary operator on all pairs of operand kinds, every prefix operator and function on all kinds, ternaries on all triples of kinds')
prop('C11', 'Gates apply with exactly their parameters and operands',
     'A gate instruction is accepted if and only if the gate exists (case-sensitively), its parameters match in number and promote to the specified types, and its operands match an operand list (qubits or qubit arrays, one or two). The result refers to that instruction with the matched operand types, the promoted parameter values and the operands in order; otherwise there is one error that names the gate and what does not fit.',
     ['programs'], 'all gates x parameter lists x operand lists', 'tests hold a few programs per gate; combinations are too many to list by hand',
     ['src/v3x/instruction_set.cpp', 'src/v3x/register_instructions.cpp', 'src/v3x/semantic_analyzer.cpp', 'src/v3x/resolver.cpp', 'src/v3x/instruction.cpp'], [('InstructionSet', 'src/v3x/instruction_set.cpp'), ('visit_gate_instruction, visit_gate', 'src/v3x/semantic_analyzer.cpp')], [AN],
     'InstrSet, Analysis (ApplyGate, Parameters, ResolveInstruction)', 'every gate with every parameter list shape and operand shape; unknown names; invariant OperandsFitSignature')
prop('C12', 'Gate modifiers compose as specified',
     'inv, pow and ctrl apply to any single-qubit gate, nested in any order, keep the order of nesting in the result, and ctrl adds exactly one control operand; the resulting instruction is the composition of the modified gate. pow takes one number promotable to float, inv and ctrl take none, and a modifier on a two-qubit gate or on a ctrl-composition is an error located at the modifier.',
     ['programs'], 'all nestings of modifiers over all gates', 'tests hold a few nestings; nesting depth is unbounded',
     ['src/v3x/semantic_analyzer.cpp', 'src/v3x/instruction_set.cpp', 'src/v3x/syntactic_analyzer.cpp', 'src/v3x/register_instructions.cpp'], [('visit_gate', 'src/v3x/semantic_analyzer.cpp'), ('resolve_gate_modifier composition names', 'src/v3x/semantic_analyzer.cpp')], [AN],
     'InstrSet, Analysis (GateOf, ResolutionName)', 'all nestings of depth 3 over gates and operand shapes, wrong modifiers and parameters; invariant NoModifierOnMultiQubit')
prop('C13', 'Indices stay within the array and mean what was written',
     'Indexing a qubit or bit array with items and inclusive ranges yields exactly those elements in the written order, repetitions included; every index is a constant integer (bool promotes) and lies between zero and the size minus one. Anything else - an index out of range (named with the size), a range that runs backwards, a non-integer or non-constant index, indexing something that is not an array - is an error, never a wrong reference or a crash.',
     ['programs'], 'all index expressions on all arrays', 'index lists, ranges and sizes are unbounded; tests hold a few',
     ['src/v3x/semantic_analyzer.cpp', 'src/v3x/semantic_helper.cpp', 'include/libqasm/v3x/semantic_helper.hpp', 'src/v3x/values.cpp'], [('visit_index, visit_index_range, check_out_of_range', 'src/v3x/semantic_analyzer.cpp')], [AN],
     'Analysis (IndexOf, IndexEntries, OutOfRange)', 'all index forms on all kinds of things, lists of up to three entries, 64-bit limits, random lists; invariant IndicesInRange', 'known finding: ranges are materialised before they are checked, so a huge range exhausts memory (known_findings.txt); ranges longer than 5000 are otherwise left undecided')
prop('C14', 'Broadcast operands always have matching sizes',
     'An accepted gate with several operands has operands that stand for the same number of qubits, and an accepted measure has as many bits as qubits (a scalar and an index list count what they name); a mismatch is always an error located at the instruction, and matching sizes are never refused.',
     ['programs'], 'all operand shapes and sizes', 'shapes and sizes are unbounded; tests hold a few',
     ['src/v3x/semantic_analyzer.cpp', 'src/v3x/values.cpp', 'src/v3x/types.cpp'], [('check_qubit_and_bit_indices_have_same_size and siblings', 'src/v3x/semantic_analyzer.cpp'), ('size_of', 'src/v3x/values.cpp')], [AN],
     'Analysis (SameQubitCounts, SameQubitBitCounts)', 'all pairs of operand shapes for two-qubit gates, ctrl compositions and measure; random sizes; invariants GatesBroadcastEvenly and MeasuresMatch')
prop('C15', 'Non-gate instructions take exactly their operands and parameters',
     'measure assigns qubits to bits and takes no or three float parameters; reset, init and barrier take one qubit or qubit array and no parameters; wait takes one integer parameter and one qubit or qubit array. Exactly these forms are accepted, with operands (bits before qubits) and promoted parameters in the result as written.',
     ['programs'], 'all non-gate instructions x operands x parameters', 'combinations are too many for hand-written tests',
     ['src/v3x/semantic_analyzer.cpp', 'src/v3x/syntactic_analyzer.cpp', 'src/v3x/instruction_set.cpp', 'src/v3x/CqasmParser.g4'], [('visit_non_gate_instruction', 'src/v3x/semantic_analyzer.cpp')], [AN],
     'InstrSet, Analysis (RunNonGate)', 'every non-gate with all operand kinds and parameter shapes, keywords in wrong places')
prop('C16', 'Every faulty statement is reported once, in order, the others are kept',
     'Analysis goes through all statements: each faulty statement contributes exactly one error, in source order, and does not affect how later statements are judged (apart from names it failed to declare). A program without errors yields a well-formed result with all instructions in source order, and the block of a result with errors still holds exactly the instructions that are not faulty, in source order.',
     ['programs'], 'every sequence of good and bad statements', 'interactions between statements are unbounded',
     ['src/v3x/semantic_analyzer.cpp', 'src/v3x/analyzer.cpp', 'src/v3x/analysis_result.cpp'], [('visit_block error collection', 'src/v3x/semantic_analyzer.cpp')], [AN],
     'Pipeline (Statement1, ErrorsOnlyGrow, Accounted)', 'all sequences of three (thorough: four) good and bad statements, long random programs; errors and the statements that are kept are compared')
prop('C19', 'Text encodings are exact for every byte',
     'URL encoding keeps ASCII letters, digits and - _ . ~ and writes every other byte as % and two upper-case hexadecimal digits; JSON encoding writes quote, backslash and bytes below 0x20 as \\u00XX (upper-case) and keeps every other byte, so that both can be decoded to the original text. Lower-casing and case-insensitive comparison treat exactly A-Z and a-z as equal pairs, compare whole strings of any length, and removing triple quotes yields the text between them unchanged.',
     ['inputs'], 'every byte string (and pair of strings)', 'tests use three sample strings; every byte value and position must be right',
     ['src/utils.cpp', 'include/libqasm/utils.hpp'], [('url_encode, json_encode, to_lowercase, equal_case_insensitive, remove_triple_quotes', 'src/utils.cpp')], ['cqasm::utils functions', 'JSON errors'],
     'Text, MC_Text, MC_TextPairs', 'all byte strings over a boundary alphabet up to a depth, every byte value, random strings; TLC checks that decoding inverts encoding', 'C locale')
prop('C20', 'Source locations are ordered ranges, and print unambiguously',
     'The end of a location is never before its start, whatever start and end it is made from; expanding it to an index yields the smallest range that contains both, and an empty file name counts as none. It prints as the file name (or the placeholder for none), then line, column and, when larger, the end - the end column alone when on the same line - leaving out parts that are zero; indices and ranges compare by line, then column.',
     ['inputs', 'histories'], 'all locations and all sequences of expansions', 'tests print eight sample locations and never expand or compare',
     ['src/annotations.cpp', 'include/libqasm/annotations.hpp', 'include/libqasm/annotations_constants.hpp'], [('Range, expand_to_include, operator<<', 'src/annotations.cpp')], ['cqasm::annotations::SourceLocation'],
     'Location, MC_Location, MC_LocationCmp', 'all locations over small coordinates and all sequences of up to two expansions; printing, ranges and comparisons replayed')
prop('C21', 'Errors keep their first location and report it faithfully',
     'An error keeps its message (a placeholder for the empty one) and the first location it gets; later context never changes it. Its text is "Error", the location if there is one, and the message; its JSON form is valid LSP with the same range (zeros without location), severity 1, the message, and the URL-encoded file name if there is one.',
     ['histories', 'inputs'], 'all messages, locations and sequences of context calls', 'tests construct a few errors; message bytes and call sequences are unbounded',
     ['src/error.cpp', 'include/libqasm/error.hpp'], [('Error::context, what, to_json', 'src/error.cpp')], ['cqasm::error::Error'],
     'ErrorObj, MC_Error, Location, Text', 'all constructions and sequences of up to two context calls over several messages, files and coordinates; what, stream, fmt and JSON forms replayed')
prop('C23', 'Instruction set queries agree with the one instruction table',
     'Every query of the instruction set (kind of gate, composition, modifier, non-gate, parameter types) answers for every name, known or not, exactly what the cQASM 3.0 instruction table says, case-sensitively; a query for the parameters of an unknown name is an error that names it. The gate, non-gate and modifier tables and lists contain exactly the specified entries.',
     ['inputs'], 'every name', 'names are an infinite domain; no existing test compiled here asks the instruction set',
     ['src/v3x/instruction_set.cpp', 'include/libqasm/v3x/instruction_set.hpp'], [('InstructionSet', 'src/v3x/instruction_set.cpp')], ['InstructionSet::get_instance()'],
     'InstrSet, MC_InstrSet', 'all known names, their variations and random names through every query; whole tables')
prop('C25', 'Assembly blocks are carried over verbatim',
     'The backend name and the text between the triple quotes of an asm declaration appear in the syntax tree and in the result byte for byte, whatever characters (quotes, newlines, comment marks, non-ASCII) they contain, and the block ends at the first triple quote.',
     ['programs'], 'every raw text', 'raw texts are unbounded; tests hold three',
     ['src/v3x/CqasmLexer.g4', 'src/v3x/syntactic_analyzer.cpp', 'src/utils.cpp', 'src/v3x/semantic_analyzer.cpp'], [('RAW_TEXT_STRING', 'src/v3x/CqasmLexer.g4'), ('visitAsmDeclaration', 'src/v3x/syntactic_analyzer.cpp'), ('remove_triple_quotes', 'src/utils.cpp')], [AN],
     'Lexer, Grammar (Asm), Text (RemoveTripleQuotes)', 'all pairs and triples of tricky pieces, random texts')
prop('C27', 'String building unescapes exactly the known escapes',
     'Pushing fragments and escape sequences builds exactly their concatenation, where \\t \\n \\r \\\' \\" and \\\\ stand for their character and any other sequence stands for itself; nothing already built is ever changed.',
     ['histories'], 'every sequence of pushes', 'no existing test uses the string builder',
     ['src/string_builder.cpp', 'include/libqasm/string_builder.hpp'], [('push_string, push_escape', 'src/string_builder.cpp')], ['cqasm::syntactic::StringBuilder'],
     'MC_StringBuilder', 'all sequences of pushes up to a depth, every backslash pair of printable ASCII')
prop('C28', 'Overload resolution picks the last applicable overload',
     'Resolving a name with arguments picks the most recently added overload of exactly that name whose number of parameters equals the number of arguments and to whose parameter types all arguments promote, and returns its tag with the promoted arguments. An unknown name and a known name without applicable overload are distinguished failures; adding overloads never affects other names.',
     ['histories'], 'all sequences of additions, all promotion relations, all queries', 'no existing test compiled here touches overload resolution; sequences are unbounded',
     ['include/libqasm/overload.hpp'], [('OverloadResolver::resolve, OverloadedNameResolver', 'include/libqasm/overload.hpp')], ['cqasm::overload::OverloadedNameResolver with a toy type system'],
     'Overload, MC_Overload', 'all tables up to a depth over three types and several promotion relations, all queries')
prop('C17', 'Every entry point is the same pipeline, in another form',
     'For one source text, every way in (parse/analyze, from string or file, on a parse result, an Analyzer, V3xAnalyzer, the free functions, the WebAssembly wrapper, the Python Analyzer) gives the same outcome: the same tree, or the same errors in the same order, and never both. String lists hold the serialized tree alone, or an empty string followed by the errors; JSON holds either "Program" or "errors"; failing free functions throw. A missing file is an error that names it. Only file names differ: locations carry the given name, or the path with Analyzer::analyze_file; the Python class reads trees from exactly the bytes it gets and passes arguments, errors and JSON on unchanged.',
     ['programs', 'configurations'], 'every program, every file name and every entry point', 'tests call one or two entry points with sample programs; agreement is over all programs and pairs of entry points',
     ['src/v3x/cqasm.cpp', 'src/v3x/cqasm_python.cpp', 'src/v3x/analyzer.cpp', 'src/v3x/parse_helper.cpp', 'src/v3x/parse_result.cpp', 'src/v3x/analysis_result.cpp', 'emscripten/emscripten_wrapper.cpp', 'python/module/cqasm/v3x/__init__.py'],
     [('V3xAnalyzer', 'src/v3x/cqasm_python.cpp'), ('to_strings, to_json', 'src/v3x/parse_result.cpp'), ('Analyzer (Python)', 'python/module/cqasm/v3x/__init__.py')], ['all public entry points'],
     'Interface, Programs, Pipeline', 'a behaviour submits a program and then asks nineteen entry points in turn; each answer is compared with the specified one and with the others, with several file names; then the eight methods of the Python class over a stand-in that replays those answers', 'SWIG hands strings to Python as UTF-8 with surrogate escapes')
prop('C18', 'Serialized trees come back identical, in C++ and in Python',
     'Reading a serialized syntax tree or analysis result gives back the same tree, with every literal (64-bit limits, all doubles, any text), optional child, list, version, instruction signature and every link to its variable; writing it again gives the same bytes. The Python classes read the same tree from the bytes C++ writes, with instruction references resolved, and read back what they write themselves. Source locations are not part of the serialized form.',
     ['programs'], 'every tree', 'no test compiled here serializes anything; trees are unbounded',
     ['src/v3x/primitives.cpp', 'src/v3x/instruction.cpp', 'python/module/cqasm/v3x/primitives.py', 'python/module/cqasm/v3x/instruction.py', 'src/v3x/syntactic.tree', 'src/v3x/semantic.tree', 'src/v3x/types.tree', 'src/v3x/values.tree'],
     [('serialize/deserialize', 'src/v3x/primitives.cpp'), ('serialize/deserialize of InstructionRef', 'src/v3x/instruction.cpp'), ('serialize/deserialize', 'python/module/cqasm/v3x/primitives.py')], ['::tree::base::serialize/deserialize', 'cqasm.v3x in Python'],
     'Serial, Programs, Pipeline', 'TLC checks that numbering nodes and links in preorder round-trips every result; the bytes of the library are read back in C++ and Python and both trees compared with the specified one', 'the generated classes are those of the substitute generator; Python writing for C++ is not specified')
prop('C22', 'Analyzers keep their registrations apart and never forget them',
     'A constant, function or instruction registered with an analyzer is found by every later query and program of that analyzer, and by no other analyzer. Registering a variable name twice in a scope is refused and changes nothing; the latest applicable overload wins; queries change nothing; an unknown name, type letter or language version is refused with its own kind of error. Entering a scope hides nothing, leaving it removes exactly the variables and instructions registered in it. Analysing a program extends the current scope and leaves results handed out earlier as they are; copies of an analyzer have its registrations and are then independent of it.',
     ['histories'], 'all sequences of calls on several analyzers', 'histories are unbounded; no existing test compiled here registers anything',
     ['src/v3x/analyzer.cpp', 'src/v3x/resolver.cpp', 'include/libqasm/v3x/analyzer.hpp', 'src/v3x/register_instructions.cpp', 'src/v3x/register_consteval_core_functions.cpp', 'src/v3x/cqasm.cpp', 'src/v3x/cqasm_python.cpp'],
     [('scope stack', 'src/v3x/analyzer.cpp'), ('tables', 'src/v3x/resolver.cpp')], ['cqasm::v3x::analyzer::Analyzer', 'V3xAnalyzer'],
     'Session, Pipeline, Analysis', 'all histories of several calls over two analyzers from several alphabets of calls, long random histories; TLC checks the history properties (Independent, QueriesAreSilent, ScopesGrow, ...) and tells every answer, which is compared')
prop('C24', 'Types and values convert exactly as the type system says',
     'A value promotes to a type exactly when it has that type, or is a constant bool to int or float, or a constant int to float; the result is the same value in the new type, with the location kept, and the original is not changed. Types, sizes, element types and constness of values are what their class says, index references have the type and size of the selection, and type specification strings denote one type per letter, any unknown letter being refused.',
     ['inputs'], 'all values and types', 'values are an infinite domain; no existing test compiled here touches types or values',
     ['src/v3x/values.cpp', 'src/v3x/types.cpp', 'include/libqasm/v3x/values.hpp', 'include/libqasm/v3x/types.hpp', 'src/v3x/instruction.cpp'], [('promote, check_promote, type_of, size_of', 'src/v3x/values.cpp'), ('from_spec', 'src/v3x/types.cpp')], ['cqasm::v3x::values', 'cqasm::v3x::types'],
     'Values, MC_Values, MC_TypeSpec', 'every kind of value at boundary contents against every type; type strings over the letters and near-letters up to a depth; TLC checks that promotion is a partial order on types', 'dynamic values of arithmetic type promoting to float are unspecified')
prop('C26', 'Any input gets an answer: a tree or errors, never a crash',
     'For every byte string as source (arbitrary bytes, malformed UTF-8, truncated or damaged programs) and any file name, parsing and analysis return, with either a well-formed tree and no errors, or at least one error with a valid JSON form and no tree to use; no exception escapes, no memory is misused, and malformed UTF-8 is a parse error without location. This holds as long as memory and stack suffice.',
     ['inputs'], 'every byte string', 'the tests hold text that someone wrote; the inputs that crash are those nobody wrote',
     ['src/v3x/parse_helper.cpp', 'src/v3x/antlr_scanner.cpp', 'src/v3x/syntactic_analyzer.cpp', 'src/v3x/semantic_analyzer.cpp', 'src/v3x/analyzer.cpp', 'include/libqasm/v3x/register_consteval_core_functions.hpp'], [('parse_ catch clauses', 'src/v3x/parse_helper.cpp'), ('analyze catch clauses', 'src/v3x/semantic_analyzer.cpp')], [AN],
     'Robust, Programs, Pipeline', 'malformed bytes in every place, prefixes, suffixes and damage of programs, token soup, nesting, long tokens and extreme arithmetic, on a build with address and undefined-behaviour sanitizers; TLC checks that the pipeline is never stuck, ends, and has one outcome', 'nesting up to 15 (thorough: 80); long index ranges are left to C13')
prop('C29', 'Descriptors and primitive values are compared, shown and written faithfully',
     'Descriptors of instructions and functions are equal exactly when name, operand types (with their sizes) and, for functions, return type are equal, and != is the opposite; they are shown as name(types), for functions followed by -> type, and a reference to nothing as unresolved. Writing any descriptor, reference to nothing, or primitive value (text, truth value, integer, float, complex number, axis, version) and reading it back, in C++, or in Python for those that Python knows, gives the same again, bit for bit; initial values are those documented, and the Python classes accept exactly types as types and numbers as version components.',
     ['inputs'], 'all names, lists of types, sizes and values', 'no test writes a descriptor or a value to bytes and reads it; equality over all pairs is not a handful of cases',
     ['src/v3x/instruction.cpp', 'src/v3x/core_function.cpp', 'src/v3x/primitives.cpp', 'include/libqasm/v3x/primitives.hpp', 'src/v3x/types.cpp', 'src/v3x/values.cpp', 'python/module/cqasm/v3x/instruction.py', 'python/module/cqasm/v3x/primitives.py'], [('serialize, deserialize of InstructionRef', 'src/v3x/instruction.cpp'), ('serialize, deserialize of CoreFunctionRef', 'src/v3x/core_function.cpp'), ('initialize, serialize, deserialize', 'src/v3x/primitives.cpp'), ('Instruction, InstructionRef', 'python/module/cqasm/v3x/instruction.py')], ['cqasm::v3x::instruction', 'cqasm::v3x::function', 'cqasm::v3x::primitives', 'cqasm.v3x.instruction', 'cqasm.v3x.primitives'],
     'Signature, MC_Signature', 'pairs of descriptors that differ in at most one part are compared, shown, written and read in C++ and Python; primitive values at the boundaries of their encodings and at random; TLC checks that what is read is what was written and that showing is injective up to sizes', 'the CBOR layer is the substitute for that of tree-gen; Python writes texts where C++ reads byte strings, so texts written in Python are read in Python only')
prop('C30', 'Analyses never influence each other, one after another or at the same time',
     'What a program is answered with depends on its text only: not on what was parsed or analysed before in the process, whether accepted or rejected, with the same names for other things or others, and not on analyses that other threads make at the same time, each with its own analyzer, be it of texts, of files or of one shared syntax tree, or while others read, show or serialize a shared result. Analyses in several threads touch no common data without order, and the shared instruction table answers the same throughout.',
     ['histories', 'schedules'], 'all histories of analyses, and all interleavings of analyses in several threads', 'every test analyses in one thread, and mostly one program per process; interleavings are not for tests to sample',
     ['src/v3x/instruction_set.cpp', 'src/v3x/analyzer.cpp', 'src/v3x/semantic_analyzer.cpp', 'src/v3x/syntactic_analyzer.cpp', 'src/v3x/parse_helper.cpp', 'src/v3x/register_consteval_core_functions.cpp', 'src/v3x/register_instructions.cpp'], [('InstructionSet::get_instance', 'src/v3x/instruction_set.cpp'), ('Analyzer::analyze', 'src/v3x/analyzer.cpp'), ('default_analyzer', 'src/v3x/cqasm.cpp')], ['cqasm::v3x::parser', 'cqasm::v3x::analyzer', 'cqasm::v3x::instruction::InstructionSet'],
     'Concurrent, Programs', 'histories of two or three calls in one thread, and all orders in which calls of two or three threads begin and return, over 18 programs; every history in a process of its own, each call repeated, under the thread sanitizer; TLC interleaves the steps of the calls and checks that every answer is that of the call alone and that all calls return', 'threads share trees, not error objects (what() keeps its text in the error); within a call the operating system interleaves; the C++ library and the substitutes for ANTLR and tree-gen are free of races')
# MORE

NOT_APPLICABLE = []


def main():
    with open(f'{V}/properties.jsonl', 'w') as f:
        for p in sorted(PROPS, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': [], 'not_applicable': NOT_APPLICABLE,
         'notes': 'No hooks: the checks build /repo\'s own sources, with substitutes for the generators that cannot be fetched (support/). Specification: spec/*.tla, checked with TLC. See DESIGN.md.'}
    for p in sorted(PROPS, key=lambda p: p['id']):
        m['checks'].append({'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']} quick", 'thorough_cmd': f"python3 check.py {p['id']} thorough",
                            'evidence_file': f"evidence/{p['id']}.json", 'technique': f"TLA+ specification ({p['modules']}) explored by TLC; every behaviour replayed on the library built from /repo",
                            'level': 'model_checking', 'level_note': f"Within bounds: {p['does']}." + (f" Assumes: {p['trusts']}." if p['trusts'] else '')})
    with open(f'{V}/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    design()


def design():
    """fills the tables of DESIGN.md"""
    path = f'{V}/DESIGN.md'
    s = open(path).read()
    rows = ['| Property | Specification | What is explored and compared |', '| --- | --- | --- |']
    rows += [f"| {p['id']} {p['title']} | {p['modules']} | {p['does']}{'; assumes: ' + p['trusts'] if p['trusts'] else ''} |" for p in sorted(PROPS, key=lambda p: p['id'])]
    s = table(s, '| Property | Specification |', rows)
    rows = ['| Planted bug | Property | Needs | Breaks |', '| --- | --- | --- | --- |']
    sd = f'{V}/seeded'
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else ():
        m = json.load(open(f'{sd}/{d}/meta.json'))
        rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
    if len(rows) > 2:
        s = table(s, '| Planted bug |', rows)
    open(path, 'w').write(s)


def table(s, head, rows):
    lines = s.split('\n')
    marks = {'| Property | Specification |': '@@TABLE@@', '| Planted bug |': '@@SEEDED@@'}
    i = next(k for k, x in enumerate(lines) if x.startswith(head) or x == marks[head])
    j = i
    while j < len(lines) and (lines[j].startswith('|') or lines[j] == marks[head]):
        j += 1
    return '\n'.join(lines[:i] + rows + lines[j:])


if __name__ == '__main__':
    main()
