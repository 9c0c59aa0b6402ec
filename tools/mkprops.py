import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,obs=None,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    a["observe_at"]=obs or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Weight equations evaluate exactly, or fail with an error",
"Evaluating a weight equation under an assignment of numbers to variables yields exactly the mathematical value of the equation (literals, variables, sums, products over the naturals). If a needed variable is not assigned, or any intermediate result does not fit in 128 bits, evaluation reports an error; it never returns a wrapped or otherwise wrong number and never panics.",
["inputs"],"every equation tree of any size and every assignment of 128-bit numbers to variable names",
"The term tests evaluate a dozen small fixed trees; the claim is over all trees, all assignments and all 128-bit magnitudes (the overflow cases are never touched).",
["core/src/term.rs","core/src/scope.rs"],[("SimpleTerm::eval","core/src/term.rs"),("Scope::get / put_var / with_var","core/src/scope.rs")],["return value of evaluation"])

p("C02","Time and proof dimensions never leak into each other",
"Selecting the time (or proof) dimension of a two-dimensional weight equation gives an equation whose value is exactly that component of the two-dimensional value, for every assignment. Combining a time part and a proof part preserves both: the time value of the combination is the time value of its parts added up, and likewise for proof, whatever shapes the two parts have.",
["inputs"],"every pair of two-dimensional equations, both dimensions, every assignment of variables",
"Tests compare a few hand-picked splice and simplify shapes structurally; they cannot cover all tree shapes, where merging leaves in the wrong order or dimension loses weight silently.",
["core/src/term.rs","core/src/traits.rs"],[("ChromaticTerm::simplify / for_values","core/src/term.rs"),("ChromaticTerm::splice_add","core/src/term.rs"),("SimpleTerm::into_chromatic","core/src/term.rs")],["selected equation"])

p("C03","The parsed equation means what the weight source expression says",
"When a weight function is accepted, the equation attributed to it has, in each dimension and for every value of its components and of the per-read and per-write costs, the value the source expression denotes: sums, products, parentheses, casts and conversions, two-part, time-only and proof-only constructors, zero, and database reads and writes (which cost time only). No summand of the source is dropped, duplicated or attributed to the wrong dimension or the wrong database cost.",
["inputs","programs"],"every weight expression built from the supported constructs, nested to any depth, every component value",
"Parser tests fix about thirty literal inputs and compare term shapes; expressions nest without bound and the wrong reading of one construct at depth is invisible to them.",
["core/src/parse/pallet.rs","core/src/parse/storage.rs","core/src/term.rs"],[("parse_expression / parse_scalar_expression","core/src/parse/pallet.rs"),("parse_method_call / parse_scalar_method_call","core/src/parse/pallet.rs"),("parse_parts_args, parse_rw","core/src/parse/pallet.rs")],["parsed term"])

p("C04","Declared component ranges are read exactly and inverted ranges rejected",
"A doc line declaring that a component ranges over `[min, max]` gives that component exactly these two numbers (digit separators ignored); the recorded ranges of a function are exactly those its doc lines declare, other doc lines and attributes contribute nothing. A declared minimum above its maximum, or a bound that does not fit in 32 bits, is an error, never a range.",
["inputs"],"every list of attributes and doc lines on a weight function, all bounds and component names",
"Tests parse a handful of fixed doc lines with the typical wording; the mapping must hold for all bounds, separators, component names and mixtures of other attributes.",
["core/src/parse/pallet.rs"],[("parse_component_attr","core/src/parse/pallet.rs"),("parse_component_attrs","core/src/parse/pallet.rs")],["component ranges of the parsed function"])

p("C05","Every corner of the component ranges is evaluated, per method",
"For a comparison, each component of the old and new equations is set to its lowest and highest value as the method prescribes (base: lowest only; worst: both; asymptotic: highest only), and every combination of these per-component choices is among the evaluated assignments and nothing else is. The values are the declared bounds, widened over both versions when they differ; an exact method reports an error for missing or differing ranges, a guessing one assumes 0 to 100, and more than 16 components is an error.",
["inputs","configurations"],"every pair of optional old/new functions with any components and ranges, every method, every base assignment",
"One test with a single one-component example exists; the combinations over methods, missing, differing and one-sided ranges and several components are not enumerated.",
["core/src/lib.rs"],[("extend_scoped_components","core/src/lib.rs"),("instance_component","core/src/lib.rs"),("CompareMethod::min / max","core/src/lib.rs")],["set of evaluated assignments"])

p("C06","The reported change is the worst one over all evaluated corners",
"The change reported for a function present in both versions is one that really occurs at one of the evaluated component assignments, and no evaluated assignment has a larger relative increase (at the reported precision). Per-read and per-write costs are charged in the time dimension only, so a proof-size comparison is independent of the number of reads and writes, and comparing never aborts.",
["inputs","configurations"],"every pair of old/new functions, every method and dimension, all component ranges",
"The tests compare five fixed pairs; a wrong choice among corners, or a read/write charge in the wrong dimension, shows only for particular ranges and signs of change.",
["core/src/lib.rs"],[("compare_extrinsics","core/src/lib.rs"),("TermChange::cmp","core/src/lib.rs"),("Term::substitute","core/src/term.rs")],["reported change"])

p("C07","Change kind, values and percentage agree with the two equations",
"A comparison of an optional old and an optional new equation is reported as added exactly when only the new one exists, removed exactly when only the old one exists, unchanged exactly when both exist and are the same equation (component names compared without underscores), and changed otherwise. The reported old and new values are the values of the respective equations under the reported assignment, and the percentage is 100·new/old − 100 of exactly these values, with old and new never swapped.",
["inputs"],"every pair of optional equations and every assignment",
"Classification tests cover a few literal pairs; the relation must hold for every equation pair, including zero and huge values, and one-sided ones.",
["core/src/lib.rs"],[("compare_terms","core/src/lib.rs"),("RelativeChange::new","core/src/lib.rs"),("percent","core/src/lib.rs")],["reported change"])

p("C08","Each function in either version gives exactly one correctly paired result",
"Comparing two sets of functions yields exactly one result for each distinct (file, function) pair that occurs in the old or the new set and passes the name filters, in ascending order, and no other result. The result compares the old and the new definition of that very pair (absent ones as absent); a comparison that fails appears as a failed result with its error instead of vanishing or aborting the rest.",
["inputs","configurations"],"every pair of lists of parsed functions (with equal names in different files, duplicates, one-sided entries), every filter",
"Integration tests run a few real files; cross-file name clashes, one-sided entries and failing entries in combination are not enumerated.",
["core/src/lib.rs"],[("compare_files","core/src/lib.rs")],["list of results"])

p("C09","Filtering keeps exactly the relevant results, in order and unmodified",
"Filtering keeps a result exactly when it is a failure, or its kind of change is among the selected kinds (all when none are selected) and, if it is a relative change, its magnitude is not below the threshold, or, if it is unchanged, the threshold is effectively zero. Kept results are unmodified and stay in their original relative order.",
["inputs","configurations"],"every list of results, every threshold (including NaN, infinities, negative) and selection of kinds",
"Five fixed lists are tested; the claim is over all lists, thresholds and selections, at the boundary values in particular.",
["core/src/lib.rs"],[("filter_changes","core/src/lib.rs"),("FilterParams::included","core/src/lib.rs")],["filtered list"])

p("C10","Sorting is a consistent, lossless order with failures first",
"Sorting results returns a permutation of the input, with failed results before all others and the rest ordered by kind of change (unchanged, added, removed, changed) and then by percentage at reported precision, warnings ranking like other changes; results that rank equal keep their relative order. The order used is a consistent total preorder on all results, so sorting never aborts or depends on the input arrangement of unequal entries.",
["inputs"],"every list of results, including several failures, NaN and infinite percentages",
"Sorting is not unit-tested; comparator consistency is a property of all pairs and triples of results.",
["core/src/lib.rs"],[("sort_changes","core/src/lib.rs"),("TermDiff::cmp / TermChange::cmp","core/src/lib.rs")],["sorted list"])

p("C11","Suspicious read/write counts are flagged exactly when present",
"A compared function is flagged with a warning exactly when its equation charges some literal number of database reads or writes above 1000 in one place, wherever in the equation that charge stands and on whichever side of the product the number is. The warning names the larger kind and count; a warning never changes the reported change itself.",
["inputs"],"every equation tree",
"Fifteen small fixed equations are tested; the claim quantifies over all trees and positions of the offending factor.",
["core/src/lib.rs","core/src/term.rs"],[("sanity_check_term","core/src/lib.rs"),("Term::find_largest_factor / visit","core/src/term.rs")],["warning of a result"])

p("C12","Unparseable files are isolated or reported, never silently partial",
"With errors ignored, parsing a list of files returns exactly the functions of the files that parse, in list order, independent of the failing ones. Without ignoring errors, the result is an error naming the failure if any file fails to parse, and otherwise all functions of all files in list order.",
["inputs","fault_sequences"],"every list of files in which any subset is unreadable or malformed",
"Existing tests parse whole directories of good files or one bad file; the claim is over every position and combination of failing files.",
["core/src/parse/pallet.rs"],[("parse_files / parse_files_in_repo","core/src/parse/pallet.rs"),("try_parse_files / try_parse_files_in_repo","core/src/parse/pallet.rs")],["returned function list"])

p("C13","Comparing revisions uses the right checkout and safe git commands",
"A comparison of two revisions reads the old functions only after the old revision was successfully checked out and the new ones only after the new revision was; if a checkout fails the comparison fails and reports no result. The requested revision text is never interpreted by git as an option, the network is used only if pulling was requested and offline mode is off, and a path pattern containing `..` is refused before anything is run.",
["inputs","configurations","histories"],"every pair of revision names, every combination of pull, force and offline flags, every outcome of each git command",
"No unit test runs the git layer; failing commands, option-like revision names and flag combinations are never exercised.",
["core/src/lib.rs"],[("compare_commits","core/src/lib.rs"),("git_checkout / git_reset / git_pull","core/src/lib.rs"),("CompareParams::should_pull","core/src/lib.rs")],["git command lines issued and their order"])

p("C14","No source file content can crash the parser",
"Parsing any syntactically valid Rust file as a weight file, a database-weight file or an overhead file terminates with either parsed weights or an error, and never panics. A file without a weight implementation is always an error.",
["inputs","programs"],"every Rust source file",
"Tests feed well-formed weight files and a few malformed ones; the claim is over every program.",
["core/src/parse/pallet.rs","core/src/parse/storage.rs","core/src/parse/overhead.rs"],[("parse_content / handle_item / handle_method","core/src/parse/pallet.rs"),("lit_to_value","core/src/parse/pallet.rs"),("parse_macro","core/src/parse/storage.rs, core/src/parse/overhead.rs")],["parse result"])

p("C15","Values are printed in the unit their magnitude calls for",
"A value is printed with the largest unit of its dimension that does not exceed it (decimal steps for time and plain numbers, binary steps for sizes), as the value divided by exactly that unit. Time, size and plain numbers are never printed with each other's units.",
["inputs"],"every 128-bit value and both dimensions",
"Formatting tests sample around thirty values; the choice of unit must be right at every boundary.",
["core/src/lib.rs"],[("Dimension::fmt_value / fmt_time / fmt_proof / fmt_scalar","core/src/lib.rs")],["printed value"])

p("C16","CSV and table output list every result once with matching columns",
"The table output has exactly one row per result, failures marked as errors and listed first, and the CSV output one line per non-failed result; each row carries the file, function, old and new value, and change of the same result, in the order of the result list. Every CSV line has exactly as many columns as its header, with and without printed equations, when file and function names contain no separator.",
["inputs","configurations"],"every list of results and every combination of output options",
"The CLI tests only check that a run succeeds on sample files; row content and column agreement are never compared.",
["cli/src/main.rs"],[("print_changes_csv","cli/src/main.rs"),("print_changes_human","cli/src/main.rs"),("color_percent","cli/src/main.rs")],["standard output"])

p("C17","Printed equations are faithful to the equation they show",
"The printed form of an equation, read with the usual precedence of multiplication over addition and with printed scale suffixes, denotes the same polynomial as the equation itself. Omitted neutral factors and zero summands never remove or add weight, and a sum inside a product is always parenthesised.",
["inputs"],"every equation tree",
"Tests print about forty fixed small equations; zero and one elision interacting with nesting is unbounded.",
["core/src/term.rs"],[("Term::fmt_with_bracket / maybe_fmt_with_bracket","core/src/term.rs")],["printed equation"])

p("C18","Web ordering keys and signs agree with the change they stand for",
"In the web table the sort keys place added functions above and removed functions below every other one, unchanged ones at zero, and changed ones in the order of their (capped) relative or absolute change. The sign and colour shown for a change agree with whether the new value is larger or smaller.",
["inputs"],"every change, including zero, huge and non-finite percentages, with values up to i128::MAX",
"The web tests only start the server; no test looks at an ordering key or a rendered sign.",
["web/src/html.rs"],[("order_percent / order_abs","web/src/html.rs"),("html_color_percent / html_color_abs","web/src/html.rs")],["sort key and cell of the rendered table"])

p("C19","Concurrent web comparisons of one repository never interleave",
"Two web requests for the same repository never run their checkouts and parses at the same time, and a cached response is only ever served for an identical request.",
["schedules"],"every interleaving of requests",
"One test checks a lock-library assumption; interleavings of requests are not explored.",
["web/src/main.rs"],[("do_compare_cached","web/src/main.rs")],["responses of the web server"])

p("C20","File listing is exact: deduplicated, sorted, without module files",
"The files considered for a path pattern are exactly those matching at least one of its comma-separated alternatives below the given directory, each once, in ascending order, without module files. An invalid pattern, an unreadable match or more matches than allowed is an error, never a truncated list.",
["inputs","configurations"],"every pattern list, directory content and limit",
"No test lists files with overlapping alternatives or a limit.",
["core/src/lib.rs"],[("list_files","core/src/lib.rs")],["list of files"])

p("C21","Option names round-trip: every advertised name selects its own choice",
"Every advertised name of a comparison method, dimension, change kind or path handling is accepted and selects the choice it is listed for, distinct names select distinct choices, and any other text is rejected with an error. The legacy name for the time dimension stays accepted.",
["inputs","configurations"],"every text given as an option name",
"No test pairs the advertised names with what they select; acceptance is a claim over all texts.",
["core/src/lib.rs","core/src/parse/mod.rs"],[("FromStr / variants / all / reflect","core/src/lib.rs"),("PathStripping::from_str / variants","core/src/parse/mod.rs")],["parsed option"])

p("C22","Database-weight and overhead files yield exactly the declared constants",
"From a database-weight file the read and write costs are the values of the fields declared as read and write, never swapped, for the database kind the constant names; from an overhead file the weight is the declared expression in the time dimension, labelled by the constant's name. A constant of another name or type, or a missing field, is an error.",
["inputs","programs"],"every declaration of such a constant with any arithmetic expression and field order",
"Tests parse the committed template files; field order, naming and expression structure vary beyond them.",
["core/src/parse/storage.rs","core/src/parse/overhead.rs","core/src/term.rs"],[("parse_macro / parse_runtime_db_weight / parse_expression","core/src/parse/storage.rs"),("parse_macro","core/src/parse/overhead.rs")],["parsed weights"])

p("C23","A text in a web page is always shown as text, never as markup",
"Names of functions, files, revisions and error messages that reach a web page are escaped, so no input can add elements or scripts to a page. Links built from them point to the named file and revision.",
["inputs"],"every name and message",
"No test renders a page with hostile input.",
["web/src/html.rs","web/templates/compare.stpl"],[("templates","web/templates"),("code_link / readme_link","web/src/html.rs")],["rendered page"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
