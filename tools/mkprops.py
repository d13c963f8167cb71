#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in step with MANIFEST.json by tools/mkmanifest.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Cell-section text splits into exactly the CSV rows and fields it denotes",
  "Every text made of commas, quotes, newlines, blanks, backslashes, hashes and ordinary characters is split into the rows and fields RFC 4180 prescribes plus the documented extensions (surrounding blanks trimmed, lines starting with # dropped, backslash-newline joins lines), each field carrying its own row/column address. A quote that is not closed properly or is followed by stray text is never silently turned into extra or missing fields, and a field of any length is accepted.",
  ["inputs"],"all texts up to a length bound over the alphabet {letter, comma, quote, newline, CR, blank, backslash, #, multibyte letter}, and structured texts of up to 3x3 fields",
  "Unit tests sample about a dozen texts; quoted fields at the end of a line followed by more rows, continuation inside quoted fields and very long fields are never exercised together.",
  ["csvp/src/parser.rs","csvp/src/field_builder.rs","csvp/src/field.rs"],
  [("recursive-descent CSV state machine","csvp/src/parser.rs")],["csvp::parse result: values and addresses"])
p("C02","Every parsed field character and every error points at its true source position",
  "For every field, the recorded position of each of its characters is the line and column at which that character stands in the source file, including after continuations, quoted newlines, comments and a code section above. When a cell's options or formula are rejected, the reported line and column, and the quoted source line, are those of the offending text.",
  ["inputs"],"all texts up to the C01 bound for character positions; all placements (row x column x prefix lines x quoting x continuation) of each kind of syntax error in a cell or code section",
  "Tests assert positions only on the first line of one-line inputs; multi-line positions are never checked.",
  ["csvp/src/parser.rs","csvp/src/field.rs","src/source_code/errors.rs","src/error/cell_parse_error.rs","src/parser/cell_lexer/mod.rs","src/parser/ast_lexer/mod.rs"],
  [("per-character position table","csvp/src/field_builder.rs"),("offset-to-position mapping","src/source_code/errors.rs")],["positions in csvp::parse result","ParseError position and highlighted lines"])
p("C03","Formulas parse by precedence and print back to an equivalent formula",
  "Every formula built from literals, references, function calls, parentheses and infix operators is parsed with the documented operator precedence, so the emitted formula denotes the same computation as the source; malformed token sequences are rejected. Re-compiling the emitted formula yields the same emitted formula again.",
  ["inputs"],"all token sequences up to a length bound over every operator precedence class, parentheses, commas, calls and literal kinds",
  "Tests cover a handful of expressions; the number of operator/parenthesis arrangements is exponential and associativity is asserted for one expression only.",
  ["src/parser/ast_parser.rs","src/parser/ast_lexer/mod.rs","src/parser/ast_lexer/token_match.rs","src/ast/display.rs"],
  [("Pratt parser with binding powers","src/parser/ast_parser.rs"),("formula printer","src/ast/display.rs")],["cell formula text written to the target"])
p("C04","Variables and functions expand exactly as their definitions say",
  "A compiled formula equals its source with every defined variable replaced by its value and every call of a defined function replaced by the body with parameters bound simultaneously to the call's arguments, repeatedly, until no defined name is left; arguments are never captured by other parameters and names not defined stay as written. A call with the wrong number of arguments is rejected with the expected and received counts.",
  ["programs"],"all programs of up to 3 definitions (variables and functions of 0-2 parameters) with bodies and cell formulas drawn from a grammar of references, calls, nested calls and infix expressions",
  "Tests use single, non-nested calls and variables with distinct names; name collisions between parameters, arguments and variables and nested calls are combinatorial.",
  ["src/ast/eval.rs","src/ast/references.rs","src/scope/mod.rs","src/ast/variable_value.rs"],
  [("fixpoint reference resolution","src/ast/eval.rs"),("reference extraction","src/ast/references.rs")],["cell formula text after compile"])
p("C05","Compilation always terminates, whatever refers to whatever",
  "For every set of variable and function definitions, including ones that refer to themselves or to each other in a cycle, and every module import graph, compiling finishes with a result or a reported error and never loops, exhausts memory, deadlocks or overflows the stack.",
  ["programs"],"all reference graphs over up to 3 variables/functions including all cycles, and all import graphs over up to 3 modules",
  "The termination argument (stop when nothing changes) is only exercised on acyclic samples; any cyclic shape may diverge.",
  ["src/ast/eval.rs","src/module_loader/mod.rs"],
  [("progress test of the evaluation loop","src/ast/eval.rs"),("attempted set","src/module_loader/mod.rs")],["whether compile returns within a step/time budget"])
p("C06","Fills expand to the right rows and never exceed the sheet",
  "Every row marked with a fill of n appears exactly n times in place, a fill without an amount takes exactly the rows left up to row 1000 after all other rows are placed, at most one such fill is accepted, and all other rows keep their order and content. Options and values of the filled row are repeated on every copy.",
  ["programs"],"all sheets of up to 4 rows with each row plain, fill=n for small and near-limit n, or unbounded fill, in every order, with and without row/cell options",
  "Tests try five layouts; interaction of several fills with following rows and the row limit is untested.",
  ["src/spreadsheet/mod.rs","src/cell_options/fill/mod.rs","src/cell_options/fill/into.rs","src/row/mod.rs"],
  [("fill expansion","src/spreadsheet/mod.rs"),("row limit","src/cell_options/fill/mod.rs")],["rows of the compiled sheet"])
p("C07","References to named cells resolve to the cell that carries the name",
  "A formula that refers to a name given to a cell with the var option is emitted with the A1 address of the cell that carries that name in the final sheet; inside the filled rows of a fill it is the cell of the same row, and from outside it is the whole filled column range. Names defined in the code section take precedence over cell names, which take precedence over values given on the command line.",
  ["programs"],"all small sheets (rows x columns x named-cell position x referring-cell position) with fills of different sizes before, at and after the named cell, and all subsets of the three definition sources",
  "Tests cover one fill with one variable; address shifts caused by other fills and columns beyond Z are untested.",
  ["src/spreadsheet/mod.rs","src/ast/variable_value.rs","src/scope/mod.rs","src/module/mod.rs","src/cell/mod.rs"],
  [("variable table of the sheet","src/spreadsheet/mod.rs"),("row-dependent value","src/ast/variable_value.rs")],["cell formula text after compile"])
p("C08","Parallel module loading gives one result whatever the thread schedule",
  "For every interleaving of the threads that load imported modules, the compile succeeds with the same sheet or fails with the same set of module errors; no schedule deadlocks, panics, loads a module twice into the result or leaves one out.",
  ["schedules"],"all interleavings at lock, spawn and join operations up to a preemption bound for import graphs of up to 4 modules (chains, diamonds, cycles, shared, missing and broken modules)",
  "Tests run whatever schedule the OS happens to pick on two tiny graphs.",
  ["src/module_loader/mod.rs"],[("attempted/loaded/failed tables under read-write locks","src/module_loader/mod.rs"),("scoped thread per dependency","src/module_loader/mod.rs")],
  ["compile result per schedule"],"lock and thread operations of the loader must be interceptable by a scheduler",
  [("attempted","modules some thread has claimed","src/module_loader/mod.rs"),("loaded","modules parsed so far","src/module_loader/mod.rs"),("failed","module load errors","src/module_loader/mod.rs")])
p("C09","Imports bring in exactly the direct dependencies' definitions",
  "For every import graph (shared, transitive, duplicate, self and cyclic imports), a module sees its own definitions and those defined by the modules it imports directly, never those of indirect imports; its own definitions win and among imports the first one wins. Imported definitions are evaluated in the scope of the module that defines them, and every missing or broken module in the graph is reported as an error, never as a crash or a silent success.",
  ["configurations"],"all import graphs over up to 4 modules with all small assignments of defined/colliding/missing/broken names",
  "Tests have two two-level graphs; cycles, duplicates, conflicts and missing transitive modules are not covered.",
  ["src/module_loader/mod.rs","src/scope/mod.rs","src/module_path/mod.rs","src/module_path/try_from.rs","src/parser/code_section_parser.rs"],
  [("scope merge of exports","src/scope/mod.rs"),("dependency order evaluation","src/module_loader/mod.rs")],["cell formula text after compile","reported module errors"])
p("C10","A cached compile is indistinguishable from a fresh one",
  "After any history of edits to the main file and its imports, changes of which modules are imported, compiles of any of those files, command-line values and removed or older/newer-version cache files, compiling with the cache gives the same sheet or error as compiling the same sources without any cache. Compiling with the cache disabled neither reads nor writes cache files.",
  ["histories"],"all histories up to a depth bound over edit/compile/add-import/remove-import/delete-cache/set-variable operations on projects of up to 3 modules, with modification times strictly increasing",
  "Only one test compiles twice; staleness needs multi-step histories across several files.",
  ["src/module/mod.rs","src/module_loader/mod.rs","src/compiler/mod.rs","src/source_code/mod.rs"],
  [("mtime and version comparison","src/module/mod.rs"),("dirty propagation","src/module_loader/mod.rs")],["compiled sheet after each step"],None,
  [("csvpo","cached compiled module beside each source","src/module/mod.rs")])
p("C11","A damaged cache file never changes the result",
  "If a compile is interrupted at any point while cache files are being written - leaving any file missing, empty or cut short at any byte - the next compile gives exactly the result of a compile without a cache and leaves a usable cache behind.",
  ["crash_points"],"every prefix length of every cache file of small projects, for every combination of per-file written/old/missing state that the write order allows",
  "No test ever presents a truncated cache file.",
  ["src/module/mod.rs","src/module_loader/mod.rs"],[("fallback to source on undecodable cache","src/module/mod.rs")],["compiled sheet after recovery"])
p("C12","Cell and row options take effect on exactly the cells they are written on",
  "Every documented option, in its long and short spelling, with any accepted value, spelling case and spacing, sets exactly its own attribute on exactly its cell; row options apply to every cell of their row, and cell options win over or add to them. Several options in one list act as if each were given alone, and unknown options, repeated option lists or invalid values are rejected with the valid choices.",
  ["inputs"],"every option x spelling x value x quoting, all ordered pairs of options, row x cell option combinations over up to 3 cells, and every single-character corruption of valid option text",
  "Tests take one sample per option; pairs, inheritance and aliases are combinatorial.",
  ["src/parser/cell_parser/mod.rs","src/parser/cell_parser/validate.rs","src/parser/cell_lexer/mod.rs","src/row/mod.rs","src/cell/mod.rs"],
  [("option parser","src/parser/cell_parser/mod.rs"),("row option inheritance","src/row/mod.rs")],["attributes of the compiled cells"])
p("C13","No input text crashes the compiler",
  "For every source text, including unfinished syntax, stray symbols and non-ASCII characters anywhere, compiling either succeeds or reports an error; it never panics, aborts or hangs.",
  ["inputs"],"all texts up to a length bound over a token alphabet covering code section, cells, options, formulas, strings, colors, dates and multibyte characters",
  "Tests feed well-formed text and a few malformed samples, all ASCII.",
  ["src/parser/ast_lexer/mod.rs","src/parser/cell_lexer/mod.rs","src/rgb/try_from.rs","src/date_time/try_from.rs","src/source_code/errors.rs","src/parser/cell_lexer/unknown_token.rs","src/parser/ast_lexer/unknown_token.rs"],
  [("lexers and error reporting","src/parser")],["compile outcome"])
p("C14","A failing compile changes nothing and is reported by the exit status",
  "Whenever compiling fails, the command exits with a non-zero status, prints the error on standard error and leaves the output file, its backups and their contents exactly as they were; when it succeeds it exits zero and the output file exists. The output format is chosen by the output file's extension, unsupported extensions are refused, and contradictory or missing output options are refused before anything is written.",
  ["configurations"],"all combinations of error kind x target kind x existing output x backup/safe flags, and of output options",
  "The command itself is never run by the tests.",
  ["src/main.rs","src/compiler/mod.rs","src/output/try_from.rs","src/output/mod.rs","src/cli_args.rs"],
  [("compile before write","src/main.rs")],["exit status, standard error and files of the csv++ command"])
p("C15","Writing CSV merges with the existing file without losing or leaking data",
  "Writing to a CSV file puts every compiled cell at its own position shifted by the row and column offsets, and every existing value at a position the compiled sheet does not reach stays as it was (a compiled cell, even an empty one, replaces what was there). In safe mode every existing non-empty value is kept, and the file is valid CSV that reads back to exactly those values.",
  ["configurations"],"all small source sheets x existing files (shapes up to 3x3 over empty/values with commas, quotes and newlines) x offsets x safe flag",
  "Tests write four fixed sheets; existing files taller or wider than the sheet are not covered.",
  ["src/target/csv/mod.rs","src/target/csv/compilation_target.rs","src/target/mod.rs"],
  [("merge of rows","src/target/mod.rs"),("existing value reader","src/target/csv/mod.rs")],["output file read back with an independent CSV reader"])
p("C16","Writing Excel puts every value, style and note on its own cell only",
  "Writing to an .xlsx file stores every compiled value or formula with its type, style, number format, alignment, border, note and validation at its own position shifted by the offsets in the named worksheet; other worksheets and cells not covered keep their contents, and an empty compiled cell changes the look of the cell it covers but not its value. In safe mode existing values are kept, otherwise they are replaced, and writing the same sheet twice gives the same workbook contents.",
  ["configurations"],"all single options, pairs of options, value kinds, offsets and safe flag over existing workbooks with empty/text/number/formula cells in one or two worksheets",
  "Tests check a handful of cells in one workbook.",
  ["src/target/excel/mod.rs","src/target/excel/excel_cell.rs","src/target/excel/cell_validation.rs","src/target/excel/compilation_target.rs"],
  [("cell writer","src/target/excel/excel_cell.rs"),("merge of rows","src/target/mod.rs")],["workbook read back with the xlsx reader"])
p("C17","A backup is byte-identical and never overwrites anything",
  "With backups enabled, an existing output file is copied byte for byte to a new name before it is changed, whatever backups already exist beside it, and no existing file is overwritten or removed. If no backup can be made, the output file is left alone; if the output does not exist yet, nothing is created for it.",
  ["histories"],"all sets of already existing backup names for the current clock second, file-name shapes (dots, spaces, no stem), and sequences of up to 4 compiles within the same or different clock seconds",
  "One test makes one backup.",
  ["src/target/file_backer_upper.rs","src/main.rs"],[("candidate name search","src/target/file_backer_upper.rs")],["directory contents before and after"])
p("C18","Google Sheets updates carry the same cells as the file targets",
  "The update request built for Google Sheets contains, at its own position shifted by the offsets, every compiled value with its type, and the formatting, note and validation its options ask for, and nothing else. In safe mode existing non-empty cells keep their value, otherwise they are replaced.",
  ["configurations"],"all single options and option pairs, value kinds, offsets, safe flag and small existing sheets",
  "The target needs the network, so tests cover only single-cell conversions.",
  ["src/target/google_sheets/batch_update_builder.rs","src/target/google_sheets/google_sheets_cell.rs","src/target/google_sheets/mod.rs"],
  [("batch update builder","src/target/google_sheets/batch_update_builder.rs")],["batch update request"],"the request must be obtainable without the network")
p("C19","CSV and Excel outputs of one source agree on every cell",
  "For every source, the values and formulas written to a new CSV file and to a new Excel workbook are the same cell by cell.",
  ["programs"],"all small sheets over every value kind (text, number, date, boolean, formula, empty), rows of different lengths, fills and offsets",
  "No test compares targets.",
  ["src/target/mod.rs","src/target/csv/mod.rs","src/target/excel/mod.rs","src/target/excel/excel_cell.rs"],
  [("shared row merge","src/target/mod.rs")],["both output files read back"])
p("C20","Command-line values reach the formulas as written",
  "Every key=value pair given on the command line defines that variable with the value parsed as a formula literal or expression, independent of order and of the other pairs, and a malformed pair is refused; offsets, sheet name and safe flags reach the output unchanged.",
  ["configurations"],"all lists of up to 3 pairs over well-formed, duplicate, empty and malformed pairs, combined with code-section and cell definitions",
  "Tests parse two pairs.",
  ["src/parser/ast_parser.rs","src/config/try_from.rs","src/cli_args.rs","src/compiler/try_from.rs"],
  [("key-value parser","src/parser/ast_parser.rs")],["cell formula text after compile"])
p("C21","The same sources always give the same result",
  "Compiling the same sources gives the same sheet, or the same error, every time: neither the seed of hash tables, nor the scheduling of parallel cell evaluation, nor the number of processors changes anything in the output.",
  ["programs","schedules"],"all hash-iteration orders of up to 4 names that the table implementation can produce (driven by controlled seeds) and all completion orders of parallel row evaluation for sheets with several failing cells",
  "A test run uses one random seed and cannot tell lucky from guaranteed.",
  ["src/ast/eval.rs","src/module_loader/mod.rs","src/module/mod.rs","src/scope/mod.rs"],
  [("order-independent resolution","src/ast/eval.rs")],["compiled sheet or error text"])
p("C22","The code section is read as definitions and the rest as cells, with nothing lost",
  "Everything before the first line consisting of three dashes is the code section and everything after it the cells; a file without such a line is all cells. In the code section every import, variable and function definition takes effect whatever its order, layout, comments or spacing, a later redefinition wins, and anything else is rejected with its position.",
  ["programs"],"all sequences of up to 4 code-section items (imports, variables, functions, comments, blank lines) in every order and several spacings, and all placements of separator-like lines",
  "Tests use one fixed layout per construct.",
  ["src/source_code/mod.rs","src/parser/code_section_parser.rs","src/parser/ast_lexer/mod.rs"],
  [("section splitter","src/source_code/mod.rs"),("definition parser","src/parser/code_section_parser.rs")],["compiled sheet and scope"])
p("C23","Google Sheets are written in the chosen account, and every failure is reported",
  "With -g ID the command sends the update for exactly that spreadsheet, once, after reading what it holds; with -b the copy is made before anything is changed, and nothing is written if it can't be made. It acts for the account of the credentials named by the flag, or else by GOOGLE_APPLICATION_CREDENTIALS, or else the default ones, and for no other even if those can't be used. Whatever fails (credentials, token, copy, read, update, connection, a program that doesn't compile), nothing is asked for after that and the command ends with an error; if nothing fails it ends well. No secret of the credentials and no token is shown at any verbosity.",
  ["configurations","faults"],"all combinations of 12 kinds of credentials files in the 3 places; each kind of failure (statuses, empty and senseless answers, connections cut at several points) of each request; sources x spreadsheets x options x verbosities",
  "There are no tests of it: the existing ones stop at the request builder (a TODO says so), and there is no network where tests run.",
  ["src/target/google_sheets/mod.rs","src/target/google_sheets/credentials.rs","src/target/google_sheets/compilation_target.rs","src/main.rs","src/logger.rs"],
  [("connection and requests","src/target/google_sheets/mod.rs"),("choice of credentials","src/target/google_sheets/credentials.rs")],["requests received by a stand-in for Google's servers","exit status","standard error"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
