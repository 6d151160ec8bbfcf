#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","JSON envelopes reproduce every valid package",
 "For every valid package, storing it as a JSON envelope (plain or zstd-compressed, as bytes or as a string, with its own extensions embedded or supplied at load time) and loading it back succeeds and yields an equivalent package: the same modules, node hierarchy and sibling order, operations with their types and arguments, edges with port offsets and order edges, metadata, entrypoint and packaged extensions. The loaded package is valid, and the emitted JSON conforms to the published JSON schema.",
 ["inputs","programs","configurations"],"all valid packages (module trees of any shape, entrypoints, node metadata, deleted-node holes, polymorphism, nested constants, custom extensions) x JSON envelope configurations",
 "Tests round-trip a few dozen hand-written graphs; losses show only for particular combinations (order edges, multi-edge ports, holes in node numbering, entrypoint inside a region, nested opaque constants).",
 ["hugr-core/src/hugr/serialize.rs","hugr-core/src/envelope.rs","hugr-core/src/envelope/writer.rs","hugr-core/src/envelope/reader.rs","hugr-core/src/package.rs","hugr-core/src/types/serialize.rs","hugr-core/src/ops/serialize.rs"],
 [("node renumbering and edge encoding","hugr-core/src/hugr/serialize.rs"),("envelope header and compression","hugr-core/src/envelope"),("schema","specification/schema")])

p("C02","Model-format envelopes reproduce every valid package",
 "For every valid package that the model format can represent (function names within the grammar for text formats; no function constants or aliases), storing it in any model envelope format (binary or text, with or without embedded extensions, compressed or not) and loading it back succeeds and yields a valid package with the same modules, hierarchy, operations, types, dataflow edges, order edges, static targets, control-flow successors, metadata, visibility and entrypoint. Storing and loading a second time changes nothing further, and the loaded program computes the same results.",
 ["inputs","programs","configurations"],"all valid packages in the fragment the model format represents x model envelope configurations",
 "The export and import code reconstructs regions, links and symbols from names; existing tests cover about twenty fixtures, and the validity-time round-trip in tests is disabled for the model format.",
 ["hugr-core/src/export.rs","hugr-core/src/import.rs","hugr-model/src/v0/binary/write.rs","hugr-model/src/v0/binary/read.rs","hugr-core/src/envelope"],
 [("export","hugr-core/src/export.rs"),("import","hugr-core/src/import.rs"),("binary codec","hugr-model/src/v0/binary")])

p("C03","Model text and binary codecs are exact inverses",
 "For every well-formed model module or package, printing it as text and parsing it gives back the same syntax tree, writing it as bytes and reading it gives back the same tables, and resolving the tree to tables and back gives an equivalent tree. These hold for every literal (any string, byte string, 64-bit natural or finite float), symbol name of the grammar, term shape, region kind, visibility and metadata.",
 ["inputs"],"all model modules: terms, literals, names, nodes, regions, links, metadata",
 "Snapshot tests cover fixtures only; escaping, number formatting, name scoping, visibility and default-valued fields break only on specific literals or shapes.",
 ["hugr-model/src/v0/ast/print.rs","hugr-model/src/v0/ast/parse.rs","hugr-model/src/v0/ast/resolve.rs","hugr-model/src/v0/ast/view.rs","hugr-model/src/v0/binary/read.rs","hugr-model/src/v0/binary/write.rs","hugr-model/src/v0/scope"],
 [("printer","hugr-model/src/v0/ast/print.rs"),("parser and grammar","hugr-model/src/v0/ast"),("name resolution","hugr-model/src/v0/ast/resolve.rs"),("capnp codec","hugr-model/src/v0/binary")])

p("C04","Reading damaged or hostile envelopes never crashes",
 "Reading any byte sequence or string as an envelope, package or graph (whatever its header, format, compression, truncation, bit damage or well-formed but nonsensical content) terminates with either a result or a reported error; it never panics, provided the definitions inside packaged extensions are themselves well-formed. The envelope header itself decodes to exactly the configuration it was written with, and unknown magic numbers, formats and flags are rejected.",
 ["inputs","fault_sequences"],"all byte strings, in particular mutations, truncations and splices of valid envelopes of every format and structured corruptions of their JSON, text or model payload",
 "Tests feed a handful of malformed headers; the space of corrupted payloads is unbounded and reaches import and deserialisation paths no valid file reaches.",
 ["hugr-core/src/envelope/header.rs","hugr-core/src/envelope/reader.rs","hugr-core/src/import.rs","hugr-core/src/hugr/serialize.rs","hugr-model/src/v0/binary/read.rs","hugr-model/src/v0/ast/parse.rs"],
 [("header parse","hugr-core/src/envelope/header.rs"),("fallible deserialisation","hugr-core/src/hugr/serialize.rs"),("import errors","hugr-core/src/import.rs")])

p("C05","Validation accepts exactly the well-formed graphs",
 "Validation accepts every graph that meets the specification's structural, typing, linearity, locality, domination, acyclicity, naming and type-argument rules, and rejects with an error every graph that breaks one of them. In particular any single-fault corruption of a valid graph that breaks a rule is reported, wherever in the hierarchy it lies.",
 ["inputs","programs"],"all graphs constructible through the mutation API; in particular every valid generated program and every single-rule corruption at every node and port of it",
 "Unit tests check each error once on a tiny graph; missing checks show only for rarely-combined node kinds, port positions and nesting depths.",
 ["hugr-core/src/hugr/validate.rs","hugr-core/src/ops/validate.rs","hugr-core/src/extension/op_def.rs","hugr-core/src/types/poly_func.rs","hugr-core/src/ops/constant.rs"],
 [("node, port, edge and subtree checks","hugr-core/src/hugr/validate.rs"),("children checks","hugr-core/src/ops/validate.rs")])

p("C06","Builders only ever produce valid graphs or errors",
 "Every sequence of builder calls (modules, functions, dataflow, conditionals, loops, control-flow graphs, calls, constants, nested and non-local wiring, including ill-typed, linear-violating or incomplete ones) either reports an error or finishes with a graph that validates and has the requested signature and wiring. Copyable values may be wired any number of times and across nested regions, and linear values wired twice or left over are reported.",
 ["histories","inputs"],"all builder call sequences over all wire choices, including incorrect ones",
 "Builder tests follow fixed scripts; the interaction of automatic non-local edges, order edges, linearity and nested builders is open-ended.",
 ["hugr-core/src/builder/build_traits.rs","hugr-core/src/builder/dataflow.rs","hugr-core/src/builder/cfg.rs","hugr-core/src/builder/conditional.rs","hugr-core/src/builder/tail_loop.rs","hugr-core/src/builder/module.rs","hugr-core/src/builder/circuit.rs"],
 [("wire_up","hugr-core/src/builder/build_traits.rs"),("signature checks on finish","hugr-core/src/builder")])

p("C07","Graph edits behave as edits of an abstract port graph",
 "After any sequence of node additions, removals, connections, disconnections, port changes, re-parentings, sibling moves, metadata edits, operation replacements and node canonicalisation, every query (nodes, counts, parents, ordered children, ports, links in each direction, neighbours, metadata, operations, entrypoint) answers as the same edits on a simple abstract hierarchical port graph would. Nodes not touched by an edit keep their identity, links and data.",
 ["histories"],"all sequences of mutation calls on all graphs",
 "Tests apply one or two edits; aliasing, port-shift and stale-data faults need longer histories (for example removal followed by index reuse).",
 ["hugr-core/src/hugr/hugrmut.rs","hugr-core/src/hugr/internal.rs","hugr-core/src/hugr/views.rs","hugr-core/src/hugr.rs"],
 [("HugrMut","hugr-core/src/hugr/hugrmut.rs"),("port insertion and hierarchy moves","hugr-core/src/hugr/internal.rs"),("canonical order","hugr-core/src/hugr.rs")])

p("C08","Inserting, copying and extracting graphs is faithful",
 "Inserting a whole graph, a region, a view, a subgraph or a forest into another graph, copying descendants (optionally substituting types) and extracting a node to its own graph each produce a copy isomorphic to the source part: same hierarchy and child order, operations, internal edges with ports, and metadata, under the returned node map. Everything already in the host is unchanged, edges crossing the boundary are treated as documented, extensions in use are carried over, and overlapping requests are rejected without change.",
 ["programs","inputs"],"all pairs of valid graphs, insertion points and sets of roots",
 "Tests insert small fixed graphs; faults need holes in numbering, non-local or static edges at the boundary, nested roots, metadata, or non-module entrypoints.",
 ["hugr-core/src/hugr/hugrmut.rs","hugr-core/src/hugr/views.rs"],
 [("insert_forest / insert_view_forest / copy_descendants","hugr-core/src/hugr/hugrmut.rs"),("extract_hugr","hugr-core/src/hugr/views.rs")])

p("C09","Linking modules follows its directives exactly",
 "Linking one program into another with explicit directives for its module-level items (add a copy, add a copy in place of given host items, or use an existing host item), with or without also inserting its entrypoint region, by value or from a view, gives a graph holding exactly the host minus what is replaced plus the requested parts, each with its inner structure and metadata; every static use (call, function load, constant load) on either side leads to the item its directive selects, and everything else in the host keeps its identity, order, links and metadata. Well-typed requests give valid programs; requests that are contradictory are reported as errors and leave the host unchanged.",
 ["programs","configurations"],"all pairs of programs x directives per module-level item x insertion points",
 "Tests link a few fixed pairs; combinations of replaced and reused items, calls in both directions, entrypoints in odd places and views are open-ended.",
 ["hugr-core/src/hugr/linking.rs"],
 [("directives to transfers and insertion","hugr-core/src/hugr/linking.rs")])

p("C10","Replacing a convex subgraph preserves everything else",
 "Replacing any valid convex subgraph by any graph with the same signature gives a valid graph in which exactly the subgraph's nodes are gone, the replacement's nodes are present with their inner structure, boundary values flow through unchanged (including copies, discards and pass-through wires), and all other nodes keep their identity, links and metadata. If the replacement computes the same function as the subgraph, the whole program computes the same results; invalid requests are reported as errors.",
 ["programs","inputs"],"all valid programs x convex subgraphs x replacements with matching signatures, including pass-through, copied and discarded boundary values and nested containers; also general replacements with explicit boundary edges",
 "Boundary wiring has special cases (input straight to output, multi-target inputs, repeated outputs, order edges) that combine; tests cover selected ones.",
 ["hugr-core/src/hugr/patch/simple_replace.rs","hugr-core/src/hugr/patch/replace.rs","hugr-core/src/hugr/views/sibling_subgraph.rs"],
 [("SimpleReplacement","hugr-core/src/hugr/patch/simple_replace.rs"),("Replacement","hugr-core/src/hugr/patch/replace.rs")])

p("C11","Subgraph construction accepts exactly convex sets",
 "A subgraph built from a set of nodes, from boundary edges, or from a whole region is accepted exactly when the nodes are siblings, the boundary is complete and consistent, and no path between two chosen nodes leaves the set; the accepted subgraph has exactly the expected nodes, boundary ports, signature and function calls. Whatever checker (exhaustive or line-based, reused or fresh) is used, the answer is the same.",
 ["programs","inputs"],"all dataflow regions x all node subsets and boundary-edge choices",
 "Tests check a few subsets of small circuits; convexity checkers keep caches and line indices whose faults depend on graph shape and on order edges.",
 ["hugr-core/src/hugr/views/sibling_subgraph.rs","hugr-core/src/hugr/views/sibling_subgraph/convex.rs"],
 [("boundary computation and convexity","hugr-core/src/hugr/views/sibling_subgraph.rs")])

p("C12","Local rewrites preserve program behaviour",
 "Every successful local rewrite (inlining a nested dataflow region or a call, peeling a loop iteration, outlining basic blocks, inserting identities or cuts, adding and removing constants and constant loads) leaves a valid graph that computes the same outputs for the same inputs, reports truthfully which nodes it added, removed or moved, and keeps every unaffected node and its metadata. Rewrites that cannot be applied report an error and leave the graph untouched.",
 ["programs","histories"],"all valid programs x rewrite kinds x applicable and inapplicable sites, and sequences of them",
 "Each rewrite has one or two fixed examples; order edges, non-local edges, recursive functions and nested containers are combinations the examples miss.",
 ["hugr-core/src/hugr/patch/inline_dfg.rs","hugr-core/src/hugr/patch/inline_call.rs","hugr-core/src/hugr/patch/peel_loop.rs","hugr-core/src/hugr/patch/outline_cfg.rs","hugr-core/src/hugr/patch/insert_identity.rs","hugr-core/src/hugr/patch/insert_cut.rs","hugr-core/src/hugr/patch/consts.rs"],
 [("patches","hugr-core/src/hugr/patch")])

p("C13","Constant folding preserves program behaviour",
 "Constant folding any valid program, with or without declared input values or permission to increase termination, gives a valid program with the same interface that computes the same outputs for all inputs on which the original terminates without panicking (restricted to the declared input values where those are given). It never removes a call, loop or control-flow graph that might not terminate unless it was allowed to, and folding an already folded program changes nothing observable.",
 ["programs","inputs","configurations"],"all valid programs mixing constants, arithmetic, sums, tuples, conditionals, loops, control-flow graphs, calls and indirect calls x pass configurations x inputs",
 "Tests fold single operators or small programs; wrong folds come from control flow, loop-carried values, polymorphism and partial knowledge of sums.",
 ["hugr-passes/src/const_fold.rs","hugr-passes/src/const_fold/value_handle.rs","hugr-passes/src/dataflow/datalog.rs","hugr-passes/src/dead_code.rs"],
 [("analysis-driven folding","hugr-passes/src/const_fold.rs")])

p("C14","Constant evaluation of standard operations matches the spec",
 "Whenever a standard-library operation on integers, floats, booleans, conversions, tuples, strings or lists is evaluated on constants at compile time, the result is exactly what the specification's definition gives for those operand values at that width, including overflow, signedness, shifts and rotations beyond the width, division corner cases, failed narrowing and special floats. When the operation would panic or is undefined it is left unevaluated.",
 ["inputs"],"all standard operations with compile-time evaluation x all widths x all operand values",
 "Tests use one or two operand pairs per operation at one width; corner cases (minimum values, huge shift amounts, width 64) are not covered.",
 ["hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs","hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs","hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs","hugr-core/src/std_extensions/logic.rs","hugr-core/src/std_extensions/collections/list.rs","hugr-core/src/extension/const_fold.rs"],
 [("per-op folders","hugr-core/src/std_extensions")])

p("C15","Dataflow analysis over-approximates every execution",
 "For every valid program and every execution of it, each value that actually flows through an edge is covered by the value the analysis reports for that edge, every node or case that executes is reported reachable, and the reported termination status of loops covers what happens. The underlying value domain obeys the lattice laws (join and meet commutative, associative, idempotent, absorbing, consistent with the order), and the result does not depend on program order.",
 ["programs","inputs"],"all valid programs x executions, and all triples of abstract values",
 "Soundness quantifies over all programs and inputs; tests check a few concrete analysis results, and lattice tests draw from one generator of small values.",
 ["hugr-passes/src/dataflow.rs","hugr-passes/src/dataflow/datalog.rs","hugr-passes/src/dataflow/partial_value.rs","hugr-passes/src/dataflow/value_row.rs","hugr-passes/src/dataflow/results.rs"],
 [("datalog transfer","hugr-passes/src/dataflow/datalog.rs"),("PartialValue lattice","hugr-passes/src/dataflow/partial_value.rs")])

p("C16","Removing dead code and dead functions removes only the dead",
 "Dead-code elimination keeps the program valid and its results unchanged, keeps every node that contributes to an entry point's results or that must be preserved, and removes every node that does not. Dead-function removal removes exactly the functions not reachable by calls or function loads from the given entry points, and rejects entry points that are not functions.",
 ["programs","configurations"],"all valid programs x entry-point choices x preserve policies",
 "Tests use fixed tiny graphs; liveness interacts with order edges, static edges, nested containers, linear values and recursive call graphs.",
 ["hugr-passes/src/dead_code.rs","hugr-passes/src/dead_funcs.rs","hugr-core/src/module_graph.rs"],
 [("liveness","hugr-passes/src/dead_code.rs"),("call-graph reachability","hugr-passes/src/dead_funcs.rs")])

p("C17","Monomorphisation specialises faithfully and completely",
 "Monomorphising any valid program gives a valid program in which no call or function load below the entrypoint or in an instance refers to a polymorphic function definition, distinct instantiations stay distinct, equal ones are shared, and each instance is the original with its type parameters substituted. The program computes the same results as before, and running the pass again changes nothing.",
 ["programs"],"all programs with polymorphic functions, nested and recursive instantiations, row and numeric parameters",
 "Tests have a handful of polymorphic programs; faults lie in substitution under nesting, instance caching, name mangling collisions and recursion.",
 ["hugr-passes/src/monomorphize.rs","hugr-core/src/hugr/hugrmut.rs","hugr-core/src/types/poly_func.rs"],
 [("instance cache and substitution","hugr-passes/src/monomorphize.rs")])

p("C18","Inlining passes preserve behaviour and inline what they claim",
 "Inlining all nested dataflow regions leaves none below the entrypoint that could be inlined, and inlining functions replaces exactly the calls that are selected by the predicate and whose callee is not part of a call-graph cycle. In both cases the program stays valid, computes the same results, and recursive programs keep terminating passes.",
 ["programs","configurations"],"all valid programs and call graphs (including mutual recursion and calls of calls) x predicates",
 "Tests use single call graphs; cycles, polymorphic instances and order edges at the inlined boundary interact.",
 ["hugr-passes/src/inline_dfgs.rs","hugr-passes/src/inline_funcs.rs","hugr-core/src/hugr/patch/inline_call.rs","hugr-core/src/hugr/patch/inline_dfg.rs","hugr-core/src/module_graph.rs"],
 [("acyclic inlining","hugr-passes/src/inline_funcs.rs"),("dfg inlining","hugr-passes/src/inline_dfgs.rs")])

p("C19","Control-flow restructuring preserves behaviour",
 "Normalising control-flow graphs (merging blocks, lifting entry and exit blocks, turning trivial graphs into dataflow) and nesting single-entry single-exit regions keep the program valid and its results unchanged on every terminating execution. After normalisation no mergeable pair of blocks and no liftable entry or exit remains, what was done is reported truthfully, and region identification returns exactly the blocks between the two edges.",
 ["programs"],"all valid control-flow graphs, reducible or not, with loops, multi-edges, nested graphs, non-local values and order edges",
 "Tests use a few diamond and loop shapes; the passes rewrite sums, ports and non-local edges in ways that depend on arbitrary graph shape.",
 ["hugr-passes/src/normalize_cfgs.rs","hugr-passes/src/nest_cfgs.rs","hugr-core/src/hugr/patch/outline_cfg.rs"],
 [("normalize_cfg","hugr-passes/src/normalize_cfgs.rs"),("SESE detection","hugr-passes/src/nest_cfgs.rs")])

p("C20","Edge localisation, untupling and ordering preserve behaviour",
 "Localising non-local edges leaves none behind and computes the same results; untupling removes pack/unpack pairs without changing results; forcing an order adds only order edges that respect every dependency and the requested ranking and orders every orderable node. Each leaves the program valid.",
 ["programs","configurations"],"all valid programs with non-local edges through every container kind, tuples packed and unpacked in any pattern, and all rank functions",
 "Tests use fixed small programs; threading values through conditionals, loops and control-flow graphs at any depth is open-ended.",
 ["hugr-passes/src/non_local.rs","hugr-passes/src/non_local/localize.rs","hugr-passes/src/untuple.rs","hugr-passes/src/force_order.rs"],
 [("localize","hugr-passes/src/non_local/localize.rs"),("untuple rewrites","hugr-passes/src/untuple.rs"),("ranked topological order","hugr-passes/src/force_order.rs")])

p("C21","Replacing types and operations is complete and consistent",
 "Replacing types, operations and constants throughout a program according to a mapping leaves no occurrence of a replaced item anywhere (signatures, type arguments, constants, nested sums, arrays, function types), gives a valid program, and computes the results obtained by translating values. When a copyable type becomes linear every copy and discard becomes exactly one explicit copy or discard operation, so every linear value is used exactly once.",
 ["programs","configurations"],"all valid programs x replacement mappings (leaf and parametrised types and operations, to operations, graphs or calls, with linearisation handlers)",
 "Tests replace one type in one program; occurrences hide in every type position and operation kind, and copies arise from arbitrary fan-out.",
 ["hugr-passes/src/replace_types.rs","hugr-passes/src/replace_types/linearize.rs","hugr-passes/src/replace_types/handlers.rs","hugr-passes/src/linearize_array.rs","hugr-passes/src/lower.rs"],
 [("ReplaceTypes","hugr-passes/src/replace_types.rs"),("Linearizer","hugr-passes/src/replace_types/linearize.rs")])

p("C22","Type arguments and schemes are checked and substituted soundly",
 "Type arguments are accepted for parameters exactly when they match the parameter's kind, bounds and structure; instantiating a type scheme with accepted arguments yields a well-formed type equal to structural substitution, with row variables spliced, and substitution composes and is the identity on closed types. Whether a type is copyable equals whether all its components are, before and after substitution, and equal types compare, hash, print and serialise equally.",
 ["inputs"],"all types, rows, type parameters and arguments (including row variables, tuples, bounded naturals and nested schemes)",
 "Tests instantiate a few schemes; row-variable splicing, bounds of substituted sums and nested list/tuple arguments are combinatorial.",
 ["hugr-core/src/types.rs","hugr-core/src/types/type_param.rs","hugr-core/src/types/poly_func.rs","hugr-core/src/types/type_row.rs","hugr-core/src/types/signature.rs","hugr-core/src/types/custom.rs"],
 [("check_term_type / substitution","hugr-core/src/types/type_param.rs"),("bounds","hugr-core/src/types.rs")])

p("C23","Extension registries and resolution are faithful",
 "Resolving a loaded program against a registry replaces every opaque operation and type by the definition with the same extension and name, keeps its arguments and signature, records exactly the extensions used, and reports missing or mismatching definitions. Registering extensions keeps the right version per the chosen policy, extensions survive serialisation, and a package's or graph's extension set always suffices to reload it.",
 ["programs","configurations","histories"],"all programs over generated extensions x registries with missing, older, newer or conflicting entries",
 "Tests resolve a few op kinds; types occur in many positions (constants, type arguments, function values, nested schemes), each needing its own resolution path.",
 ["hugr-core/src/extension/resolution","hugr-core/src/extension.rs","hugr-core/src/extension/op_def.rs","hugr-core/src/extension/type_def.rs","hugr-core/src/package.rs"],
 [("resolution","hugr-core/src/extension/resolution"),("registry","hugr-core/src/extension.rs")])

p("C24","Persistent rewriting equals sequential rewriting",
 "For any history of compatible commits, the persistent program extracted from the chosen commits equals the program obtained by applying the same replacements one after another to an ordinary graph, independently of commit order, and every view query on it agrees with the extracted graph. Commits that replace overlapping nodes or depend on deleted parts are rejected, and navigating between alternatives never alters earlier states.",
 ["histories","programs"],"all histories (trees and DAGs) of replacements on all base programs, all compatible subsets and insertion orders",
 "Tests have a few hand-drawn histories; correctness depends on boundary wires threading through chains of overlapping, adjacent and empty replacements.",
 ["hugr-persistent/src/persistent_hugr.rs","hugr-persistent/src/trait_impls.rs","hugr-persistent/src/commit.rs","hugr-persistent/src/state_space.rs","hugr-persistent/src/walker.rs","hugr-persistent/src/wire.rs","hugr-persistent/src/parents_view.rs"],
 [("commit DAG and wire resolution","hugr-persistent/src/persistent_hugr.rs")])

p("C25","Compiled LLVM code computes what the program means",
 "For every program in the supported fragment, lowering to LLVM succeeds with a verifying module, and executing it returns the values the program's semantics gives: all integer widths and operations, floats, booleans, sums of any shape, tuples, conditionals, loops, control-flow graphs, calls, indirect calls, constants and arrays. Operations that must panic do so instead of returning a value.",
 ["programs","inputs"],"all programs over the supported operations and types x input values",
 "Execution tests cover one small program per operation; sum layouts, phi/mailbox wiring and width-specific code only fail in combination.",
 ["hugr-llvm/src/emit","hugr-llvm/src/sum.rs","hugr-llvm/src/sum/layout.rs","hugr-llvm/src/extension/int.rs","hugr-llvm/src/extension/conversions.rs","hugr-llvm/src/extension/logic.rs","hugr-llvm/src/extension/float.rs","hugr-llvm/src/extension/collections"],
 [("op emission","hugr-llvm/src/emit"),("sum layout","hugr-llvm/src/sum"),("extension lowering","hugr-llvm/src/extension")])

p("C26","Python and Rust agree on every exchanged program",
 "Every program built with the Python library from valid operations is accepted by the Rust validator, and loading any envelope written by either side in the other and writing it back yields an equivalent program with the same operations, types, edges, metadata and entrypoint. Python's own JSON and model round trips are lossless.",
 ["programs","inputs"],"all programs expressible with the Python builders and all generated Rust packages",
 "The two implementations are maintained by hand in parallel; tests exchange a few dozen examples.",
 ["hugr-py/src/hugr/hugr/base.py","hugr-py/src/hugr/build","hugr-py/src/hugr/_serialization","hugr-py/src/hugr/model","hugr-py/src/hugr/ops.py","hugr-py/src/hugr/tys.py","hugr-py/src/hugr/val.py","hugr-py/src/hugr/envelope.py","hugr-py/rust/lib.rs"],
 [("serialisation models","hugr-py/src/hugr/_serialization"),("model export and load","hugr-py/src/hugr/model")])

p("C27","The command line tool validates, converts and describes truthfully",
 "For every package file, the validate command succeeds exactly when all its modules are valid, convert writes a file in the requested format that decodes to an equivalent package, and describe reports the actual modules, node and edge counts, entrypoints, functions and extensions. On unreadable or invalid input it exits with a failure status and writes no success output.",
 ["inputs","configurations"],"all valid, invalid and damaged package files x commands, formats, compression levels and input options",
 "CLI tests use a few fixed files and options.",
 ["hugr-cli/src/validate.rs","hugr-cli/src/convert.rs","hugr-cli/src/describe.rs","hugr-cli/src/hugr_io.rs","hugr-core/src/envelope/description.rs"],
 [("commands","hugr-cli/src"),("package descriptions","hugr-core/src/envelope/description.rs")])

p("C28","Graph views, traversals and call graphs agree with the graph",
 "Every view of a program (re-rooted, region, graph-library adapters, call graph, dataflow signature helpers, renderings) shows exactly the nodes and edges of the underlying program it documents, in the documented order and numbering, and never any other. Traversals visit each node once in an order consistent with edges, and the call graph has exactly one edge per call or function load.",
 ["programs"],"all valid programs and view roots",
 "Tests compare a few views on tiny graphs.",
 ["hugr-core/src/hugr/views.rs","hugr-core/src/hugr/views/rerooted.rs","hugr-core/src/hugr/views/petgraph.rs","hugr-core/src/hugr/views/root_checked","hugr-core/src/hugr/views/render.rs","hugr-core/src/module_graph.rs","hugr-core/src/hugr/internal.rs"],
 [("views","hugr-core/src/hugr/views"),("module graph","hugr-core/src/module_graph.rs")])

p("C29","Python graph edits behave as edits of an abstract graph",
 "After any sequence of node insertions, deletions, link additions and removals, order links, child insertions of other graphs and metadata changes in the Python library, all queries (nodes, children order, links and linked ports in both directions, counts, port types) agree with the same edits on a simple abstract graph, and the result serialises consistently with it. The bidirectional map underneath is always a bijection.",
 ["histories"],"all sequences of edit calls of the Python graph store",
 "Tests follow fixed scripts; sub-port numbering and index reuse faults need longer histories.",
 ["hugr-py/src/hugr/hugr/base.py","hugr-py/src/hugr/utils.py","hugr-py/src/hugr/hugr/node_port.py"],
 [("links bimap and sub-offsets","hugr-py/src/hugr/hugr/base.py"),("BiMap","hugr-py/src/hugr/utils.py")])

p("C30","Declarative and serialised extensions keep their definitions",
 "An extension written in the declarative YAML form defines exactly the types, operations, parameters, bounds and signatures the text states, ill-formed declarations are reported as errors, and instantiating a declared operation gives the declared signature with its parameters substituted. Any extension written as JSON and read back is equal to the original.",
 ["inputs"],"all declarative extension files and all programmatically built extensions",
 "Tests load a few YAML examples.",
 ["hugr-core/src/extension/declarative.rs","hugr-core/src/extension/declarative/ops.rs","hugr-core/src/extension/declarative/signature.rs","hugr-core/src/extension/declarative/types.rs","hugr-core/src/extension.rs"],
 [("YAML import","hugr-core/src/extension/declarative")])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
