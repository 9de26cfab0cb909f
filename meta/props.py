SETUP = "bin/setup.sh"
HOOKS = None
NA = []
TESTS_CIN = "The eight tests that run compare a handful of trees of at most ten nodes (the edit-script tests are disabled in this tree); "
PAIRS = "every pair of ordered labelled trees (any shape, repeats, depth, width, properties, text, opaque marks), every similarity threshold and minimum height"
TRUST = "Held on the executions explored only. Trusts the specification-side tree model and oracle in cin/src/{spec,oracle}.rs, which share no code with the repository."
def cin(i): return f"bin/cin.sh {i}"
prop("C01", "An edit script turns the old tree into the new tree",
 "For every pair of trees whose roots are of the same kind and similar enough to be counterparts, the roots are counterparts, and interpreting each operation of the computed edit script by its documented meaning (final parent, final position, new value) over the old tree gives exactly the new tree: same shape, kinds, texts and properties. The interiors of opaque nodes are exempt. When the roots are not compatible the same holds for everything beneath the new root.",
 ["inputs", "configurations"], PAIRS,
 TESTS_CIN + "none applies a script and compares the result with the new tree for inputs it did not choose.",
 [C, M, T, L], [("operation generation", f"{C}: generate_edit_script"), ("root matching", f"{M}: bottom_up_phase")],
 cin("C01"), TRUST, "runtime monitor: script executor + tree-equality oracle", observe=["edit script and matching returned to the caller"])
prop("C02", "Node correspondence is one-to-one, kind-preserving and self-consistent",
 "The computed correspondence pairs each old node with at most one new node and vice versa, only pairs nodes of the same kind that exist in the two trees, and never pairs a root with an inner node. A node whose parent already has a counterpart only corresponds to something beneath that counterpart, identical or opaque subtrees at corresponding places excepted. Looking a pair up from either side, listing the pairs, and counting them always agree.",
 ["inputs", "configurations"], PAIRS,
 TESTS_CIN + "they look individual nodes up and never check the whole relation.",
 [M], [("two-phase matching", f"{M}: compute_matching"), ("bidirectional map", f"{M}: Matching")],
 cin("C02"), TRUST, "runtime monitor: invariant check on every returned correspondence")
prop("C03", "Diffing equal trees yields no operations and pairs every node in place",
 "When the two trees are equal, the edit script is empty and every node outside opaque interiors is paired with the node at the same place of the other tree. This holds however the trees repeat themselves, how they were built, and under every configuration.",
 ["inputs", "configurations"], "every tree, including ones made of many identical subtrees, every threshold up to 1 and every minimum height",
 TESTS_CIN + "one of them diffs one tree with itself.",
 [M, C], [("identical-subtree matching", f"{M}: top_down_phase, match_subtrees"), ("no-op suppression", f"{C}: generate_edit_script")],
 cin("C03"), TRUST, "runtime monitor: reflexivity oracle over separately built equal trees")
prop("C04", "The script holds exactly the operations the correspondence calls for",
 "Given the computed correspondence, the script contains one insert for each new node without counterpart, one delete for each old node without counterpart, one move for each pair whose parent or position differs, one text and one property update for each pair whose text or properties differ, and nothing else. No operation is missing, duplicated, redundant or carries wrong arguments.",
 ["inputs", "configurations"], PAIRS,
 TESTS_CIN + "they look for the presence of single operations, never for the absence of all others.",
 [C], [("phases 1 to 5", f"{C}: generate_edit_script")],
 cin("C04"), TRUST, "runtime monitor: exact multiset of operations recomputed from the observed correspondence")
prop("C05", "An edit script can be carried out one operation at a time, in order",
 "Executing the script in order, each operation only names nodes that exist at that moment, an inserted node's parent is already there, and no node is ever moved to beneath itself. A node whose place is taken is parked and is later either moved or deleted, and deleting a node never takes a surviving node with it.",
 ["inputs", "configurations", "histories"], PAIRS + ", and every prefix of the script",
 TESTS_CIN + "operation order is not asserted anywhere, and disorder only shows on multi-step scripts.",
 [C], [("parents-first inserts, children-first deletes", f"{C}: generate_edit_script")],
 cin("C05"), TRUST, "runtime monitor: online step-by-step execution of the operation stream with displaced nodes parked")
prop("C06", "Opaque subtrees are treated as atoms",
 "No operation and no correspondence reaches inside an opaque node, and opaque nodes only correspond to opaque nodes (roots excepted). Changes confined to the inside of non-empty opaque nodes of otherwise distinguishable trees yield no operation, and each such node stays paired in place, also when something unrelated changes beside it. An opaque node whose content survives unchanged beneath the same parent corresponds to it, whatever opaque siblings come, go or change.",
 ["inputs", "configurations"], PAIRS + " with any nodes marked opaque, nested or not, on either side",
 TESTS_CIN + "three of them mark one node opaque in a tree of four nodes.",
 [M, C, T], [("opaque checks", f"{M}: top_down_phase, match_subtrees, bottom_up_phase"), ("opaque descendants skipped", f"{C}: generate_edit_script")],
 cin("C06"), TRUST, "runtime monitor: containment oracle on operations and pairs, metamorphic inside-only edits")
prop("C07", "Diffing is deterministic, history-free and safe to run concurrently",
 "The same two trees under the same configuration give the same correspondence and the same script, operation for operation, whenever and wherever they are diffed: repeatedly, after other diffs, on many threads sharing the trees, and in other processes.",
 ["schedules", "histories", "inputs"], "every pair of trees, every interleaving of diffs on several threads, every earlier history of the process",
 "The tests run each diff once in one process; a dependence on hash seeds, thread-local state or earlier calls cannot show.",
 [M, C, T], [("insertion-ordered pairs, unseeded hashing, per-call state", f"{M}: compute_matching")],
 cin("C07"), TRUST, "runtime monitor: result comparison across repetitions, threads (stress) and processes")
prop("C08", "Trees keep their structure under construction and navigation",
 "After any sequence of node additions, every way of looking at a tree agrees with a simple list-of-children model: root, parent, children, position, child count, height, descendants, pre-order, post-order and node count. Pre-order lists parents before children, post-order children before parents, and both list exactly the nodes that hang off the root, each once.",
 ["inputs", "histories"], "every sequence of additions, every tree shape, depth and width, and arenas with removed or reused slots",
 TESTS_CIN + "two of them build one tree of four nodes and read counts and one traversal.",
 [T], [("arena-backed tree", f"{T}: Tree"), ("default navigation", f"{T}: DiffTree")],
 cin("C08"), TRUST, "runtime monitor: model-based comparison of every accessor after every construction")
prop("C09", "Dissimilar nodes are never paired below the similarity threshold",
 "Two nodes that are not the top of, or part of, identical subtrees only become counterparts if the similarity their properties report reaches the configured threshold. Identical subtrees at corresponding places, identical leaves and opaque nodes in place are the only exceptions. Nodes other than leaves and roots that do not stand at the same position beneath counterparts moreover only become counterparts if the descendants they already share (Dice coefficient, each node counting itself) reach the threshold.",
 ["inputs", "configurations"], PAIRS,
 "No running test uses properties in matching at all.",
 [M], [("property similarity gates", f"{M}: bottom_up_phase"), ("similarity", f"{T}: Properties::similarity")],
 cin("C09"), TRUST, "runtime monitor: threshold oracle on every observed pair")
prop("C10", "Diffing always finishes, without panicking, within bounded work",
 "Diffing any two trees returns: it does not panic, overflow or loop, whatever their shape, depth, repetition or the configuration, including thresholds outside 0..1 and huge minimum heights. The number of tree queries it makes stays within a fixed polynomial of the node counts.",
 ["inputs", "configurations"], PAIRS + ", including degenerate chains, stars, combs and total repetition",
 "The tests use trees of at most ten nodes, where neither blow-up nor overflow can appear.",
 [M, C, T], [("each pair is queued from one parent pair only", f"{M}: top_down_phase")],
 cin("C10"), "Work is counted in tree queries, not time; the bound leaves a constant factor above what the current code needs. " + TRUST, "runtime monitor: query-counting tree with a logical step budget, overflow checks on")
prop("C11", "Statistics and tracing observe without changing results",
 "Building with matching statistics and tracing enabled, with whatever subscriber is installed, changes neither the correspondence nor the script of any diff. The statistics are consistent: zero after a reset, per thread, distinct nodes never exceed calls or tree sizes, and position counters equal the queries made.",
 ["configurations", "inputs"], "every pair of trees under every combination of the optional features and subscribers",
 "The tests run under one feature set and never compare results between builds or read the counters.",
 [M, T, "cinereus/src/lib.rs", "cinereus/src/tracing_macros.rs"], [("optional counters", f"{M}: reset_stats, get_stats"), ("position counters", f"{T}: reset_position_counters, get_position_stats")],
 cin("C11"), TRUST, "runtime monitor: cross-build result digests and counter oracle")
prop("C12", "The result depends on the trees, not on how they are represented",
 "The same two logical trees give the same correspondence and the same set of operations whatever the internal node numbering, construction order or holes in the arena, whichever implementation of the tree interface presents them (also two different ones), and whichever public entry point is called.",
 ["inputs", "configurations", "histories"], PAIRS + ", every construction order and every implementation of the tree interface",
 TESTS_CIN + "all of them use one representation and one entry point.",
 [L, M, C, T], [("tree interface", f"{T}: DiffTree"), ("entry points", f"{L}: diff_trees, diff_trees_with_matching")],
 cin("C12"), TRUST, "runtime monitor: differential runs over several representations of one logical input")
prop("C13", "Updates carry exactly the new text and the complete new properties",
 "For every pair of counterparts whose text differs there is exactly one text update carrying the new text, and for every pair whose properties differ exactly one property update from which, together with the old properties, precisely the new properties follow, kept ones marked kept and removed ones absent. Unchanged counterparts get no update.",
 ["inputs", "configurations"], PAIRS + " and every combination of added, changed, removed and reordered properties",
 "No running test produces a property update.",
 [C, T], [("phase 1", f"{C}: generate_edit_script"), ("property diff", f"{T}: Properties::diff")],
 cin("C13"), TRUST, "runtime monitor: reconstruction of each counterpart's value from the observed updates")
prop("C14", "One edit to a tree of distinguishable nodes yields just that edit",
 "When all subtrees of the old tree are distinguishable and the new tree differs by one edit - a text change, a property change within the threshold, an appended subtree, a subtree inserted or removed among siblings with content of their own, or two such siblings swapped - the script consists of exactly the operations of that edit (plus position moves of the siblings it shifts) and touches no other node.",
 ["inputs", "configurations"], "every tree of pairwise different subtrees, every place and every kind of single edit, thresholds from 0.25 to 1",
 TESTS_CIN + "two of them make one edit in a tree of three nodes and only look for the presence of an operation.",
 [M, C], [("identical-subtree matching first", f"{M}: top_down_phase"), ("position and similarity matching", f"{M}: bottom_up_phase")],
 cin("C14"), TRUST, "runtime monitor: metamorphic single-edit oracle (exact expected script)")

prop("C15", "Diffing is memory-safe, race-free and leaves nothing behind",
 "Any number of threads can diff, share finished trees and results, and read statistics at the same time without a data race, an invalid or uninitialised memory access, undefined behaviour or a result that differs from the one computed alone. When results and trees are dropped, every byte allocated for them is released, and the memory in use while diffing stays within a fixed multiple of the product of the tree sizes.",
 ["inputs", "schedules"], PAIRS + ", on any number of threads in any interleaving",
 "The tests run one diff per thread, share nothing, and run without sanitizers or a heap count.",
 [M, C, T, L], [("matching", f"{M}: compute_matching, LazyDescendantMap"), ("edit script", f"{C}: generate_edit_script"), ("per-thread counters", f"{M}: reset_stats, get_stats")],
 cin("C15"), "Held on the executions explored only. ThreadSanitizer and AddressSanitizer see the interleavings and inputs that happened, Miri a few hundred small ones; the crate has no unsafe code of its own, so these watch what a change could bring in. Leaks are decided by a counting allocator, not LeakSanitizer.", "sanitizers: ThreadSanitizer, AddressSanitizer and Miri over a multi-threaded workload, plus a counting allocator")
prop("C16", "The edit script fits whatever correspondence it is given",
 "For any two trees and any one-to-one correspondence of theirs that pairs the roots, pairs nodes of one kind and never an opaque node (or one inside it) with one that is not - computed or entered by the caller, in any order, into a Matching of any initial capacity - the Matching lists and looks up exactly the pairs entered, and generate_edit_script yields exactly the operations that correspondence calls for, in an order in which they can be carried out one at a time, and they turn the old tree into the new one.",
 ["inputs"], PAIRS + ", and every valid correspondence between the two, including ones that turn ancestors into descendants",
 TESTS_CIN + "every script they look at comes from the computed matching, or from one of one or two pairs.",
 [M, C], [("bookkeeping of pairs", f"{M}: Matching"), ("edit script", f"{C}: generate_edit_script")],
 cin("C16"), TRUST, "runtime monitor: reference interpreters over scripts for random correspondences", observe=["Matching", "Vec<EditOp> of generate_edit_script"])

# ------------------------------------------------------------------ hotmeal, hotmeal-server
D = "hotmeal/src/dom.rs"; F = "hotmeal/src/diff.rs"; ST = "hotmeal/src/stem.rs"; SV = "hotmeal-server/src/lib.rs"
HTRUST = "Held on the executions explored only. The real sources of hotmeal, hotmeal-server and cinereus run against stand-ins for crates that are missing offline (html5ever, tendril, facet, compact_str: hot/shims); the html5ever stand-in is checked against the html5lib tree-construction suite. Trusts the models and reference interpreters in hot/hotmon."
TESTS_HOT = "The tests run a few dozen fixed pairs of documents; "
DOCS = "every pair of HTML documents: well-formed pages, tag soup, foreign content, repeated and misnested structure, whitespace, odd characters, any edit between them"
def hot(i): return f"bin/hot.sh {i}"
prop("H01", "Patches turn the old page's body into the new page's body",
 "For every pair of HTML documents, diffing the parsed old document against the parsed new one succeeds, and applying the patches to the old document succeeds and leaves a body whose elements (with namespace, name and attributes), texts and comments are exactly those of the new document, in order, and a structurally sound tree. The insides of opaque elements and empty texts are exempt; a new document without a body empties the old one's.",
 ["inputs"], DOCS,
 TESTS_HOT + "convergence has to hold for the unbounded space of pairs, where moves, displaced nodes and foreign content interact.",
 [F, D, C, M], [("diff to patches", f"{F}: diff, convert_ops_with_shadow"), ("patch application", f"{D}: apply_patches"), ("edit script", f"{C}: generate_edit_script")],
 hot("H01"), HTRUST, "runtime monitor: differential oracle over patched and freshly parsed documents", observe=["Patch list returned to the caller", "document after apply_patches"])
prop("H02", "A page kept up to date by patches never drifts",
 "Starting from any document and following any history of versions - including going back to earlier ones - a document that only receives patches, each computed between two successive versions (or between the patched document and the next version), equals the current version's body after every single step, however many steps came before.",
 ["histories", "inputs"], "every history of versions of any length, with patches computed from fresh parses or from the patched document itself",
 TESTS_HOT + "each applies one patch list to a fresh parse, so what a patched document carries over into the next step is never exercised.",
 [F, D], [("patch application leaves a diffable document", f"{D}: apply_patch_with_slots"), ("diff", f"{F}: diff")],
 hot("H02"), HTRUST + " A history ends where an opaque body holds what inner HTML cannot carry.", "runtime monitor: online comparison after every step of a replayed history", observe=["document after each step"])
prop("H03", "Patches survive encoding and mean the same after decoding",
 "Every patch list that diffing produces, turned into owned values, encoded in the wire format or JSON and decoded again, compares equal to the original, and applying the decoded patches has exactly the effect of applying the originals.",
 ["inputs"], DOCS,
 TESTS_HOT + "none encodes patches with foreign attributes, odd characters, or every variant.",
 [F, D, ST], [("owned conversion", f"{F}: Patch::into_owned"), ("string type", f"{ST}: Stem"), ("proxies for names", D)],
 hot("H03"), HTRUST + " The encoders themselves are stand-ins; what is judged is the repository's types, proxies and owned conversions.", "runtime monitor: round-trip and effect comparison on every observed patch list")
prop("H04", "Parsing gives the tree the HTML standard's tree builder describes",
 "For every string, the document produced by parsing has exactly the elements, namespaces, attributes, texts and comments that an independent tree sink receives from the same parser, inside the html element; its body and head are found wherever they are; its doctype is reported exactly when the source carries one; and the tree is structurally sound. Fragment parsing agrees likewise with the standard's fragment algorithm.",
 ["inputs"], "every string: pages, fragments, tag soup, misnested tables and formatting, foreign content, templates, comments anywhere, control characters",
 TESTS_HOT + "the effects of foster parenting, adoption and reparenting on the arena only show on misnested input.",
 [D], [("tree sink", f"{D}: TreeSink implementation"), ("wrapping of fragments", f"{D}: parse, parse_body_fragment")],
 hot("H04"), HTRUST, "runtime monitor: differential oracle against a reference tree sink")
prop("H05", "Serialized HTML parses back to the document it came from",
 "The HTML a document serializes to - parsed, patched or built through the API, whole, body only or the inside of one element, with and without doctype - means to an HTML parser exactly what a standard serialization of that tree means: same elements, namespaces, attributes, texts and comments. Escaping, void elements, raw text and foreign elements are treated as a parser will read them.",
 ["inputs", "histories"], "every document obtained by parsing any string, by applying patches or by API calls, except ones holding a <plaintext> element",
 TESTS_HOT + "a wrongly escaped character or end tag matters only for particular element and content combinations.",
 [D], [("serializer", f"{D}: to_html, to_body_html, serialize_inner_html")],
 hot("H05"), HTRUST, "runtime monitor: reparse oracle against a reference serializer")
prop("H06", "The document API behaves like an ordered tree with attribute lists",
 "After any sequence of calls that create, append, insert before or after, remove, move, set or remove attributes and set text, every accessor - parent, children, first and last child, siblings, counts, body, head, attributes in order, texts - agrees with a simple model of ordered trees. Changing a copy of a document never changes the original.",
 ["histories", "inputs"], "every sequence of API calls on documents that were parsed or built from nothing",
 "Unit tests make a few calls each on one small document and read back one accessor.",
 [D], [("mutation", f"{D}: append_child, insert_before, insert_after, remove, set_attr, remove_attr, set_text"), ("navigation", f"{D}: body, head, children and siblings")],
 hot("H06"), HTRUST, "runtime monitor: model-based comparison after every call")
prop("H07", "Any patch list either applies exactly as documented or is refused",
 "Whatever patches a document is given - computed for another document, damaged, reordered, duplicated, or made up - each one either has exactly its documented effect (insertions displace what stands in their place, parking it in a slot when asked; moves, removals, attribute and text changes) or is refused with an error. Nothing panics, the tree stays sound, no text or comment gets children, and applying a list at once equals applying it one by one.",
 ["inputs", "histories"], "every document and every list of patches of every kind with any paths and slots (positions of up to a few dozen)",
 "Tests only apply patches to the document they were computed from, plus two made-up error cases.",
 [D, F], [("patch interpreter", f"{D}: apply_patch_with_slots"), ("path resolution and slots", f"{D}: init_patch_slots")],
 hot("H07"), HTRUST + " A position past the end is filled up with empty texts, so absurdly large positions cost memory; they are not explored.", "runtime monitor: reference interpreter for patches run in lockstep", observe=["document and result after each patch"])
prop("H08", "Equal documents give no patches, and diffing is deterministic",
 "Diffing a document against itself, a second parse of the same source, or a copy rebuilt node by node gives no patches at all. Diffing any two documents gives the same patches every time, also through the string entry point, and also when either document was built in another order, with unused nodes in its arena, or with owned instead of borrowed strings.",
 ["inputs", "histories"], DOCS + ", and every representation of them in memory",
 TESTS_HOT + "they never compare two diffs with each other, and depend on no representation but a fresh parse.",
 [F, D], [("hashing of nodes", f"{F}: DiffableDocument, recompute_hashes"), ("entry points", f"{F}: diff, diff_html")],
 hot("H08"), HTRUST, "runtime monitor: metamorphic comparison of repeated and re-represented diffs")
prop("H09", "Opaque elements are never patched inside, and every change is announced",
 "No patch reaches inside an element marked opaque that stays on the page. If its contents differ between the versions, exactly one announcement is made for it, naming that element at its final place and carrying contents that parse to the new ones; if they are the same there is none. Attributes of the element itself are patched as usual, opaque elements that arrive come with their contents, and a body that becomes or ceases to be opaque ends up right.",
 ["inputs"], DOCS + ", with any elements opaque, nested, moved, changed inside or beside",
 TESTS_HOT + "two of them change one opaque element that stays in place.",
 [F, D, M], [("opaque announcement", f"{F}: diff, opaque_content_differs"), ("opaque-aware tree", f"{F}: OpaqueAwareTree"), ("application", f"{D}: apply_patch_with_slots")],
 hot("H09"), HTRUST + " Contents that inner HTML cannot carry (such as <plaintext>) are left out.", "runtime monitor: containment and announcement oracle over each patch as it is applied")
prop("H10", "Injection puts content first in the real head and changes nothing else",
 "Injecting content into any page inserts it exactly once and leaves every other byte as it was. If the page has a head start tag that an HTML parser recognises, the content becomes the first thing in the head and the rest of the document is undisturbed, whatever lookalikes stand in comments, attributes, scripts or other tags; if it has none, the content goes in front of the page.",
 ["inputs"], "every string as a page, with head tags in any case and with any attributes, and lookalikes anywhere",
 "The tests inject into three pages without lookalikes.",
 [SV], [("finding the head", f"{SV}: inject_into_head, after_head_tag, tag_end")],
 hot("H10"), HTRUST, "runtime monitor: reparse oracle with a marked head tag")
prop("H11", "Every client shows what the server last sent for its route",
 "Through any history of serving, diffing, head changes, route removals and clearing over any number of routes, a client that reloads when told and applies the patches it is sent always shows the latest version of its route. The server asks for a reload exactly when it has nothing to compare with, announces head changes exactly when the head differs, sends nothing when a page is unchanged, never mixes routes up, and its events survive encoding.",
 ["histories", "inputs"], "every interleaving of server operations on several routes, with any pages and head contents",
 "Each test performs one or two operations on one route and looks at one event.",
 [SV, F, D], [("route cache", f"{SV}: cache_html, remove_route, clear"), ("events", f"{SV}: diff_route, diff_route_with_head")],
 hot("H11"), HTRUST + " A history ends where an opaque body holds what inner HTML cannot carry.", "runtime monitor: specification state and simulated clients run beside the real server", observe=["events returned by the server", "each client's document"], state=[dict(name="html_cache, head_cache", meaning="latest page and head contents per route", where=SV)])
WA = "hotmeal-wasm/src/lib.rs"
prop("H12", "The browser client turns the live page into the new one and touches nothing else",
 "Patches computed between two versions of a page, applied by the browser client to a DOM that shows the old version - through any of its entry points, all at once or one at a time, from JSON, postcard or directly, to the body or to a mount point - leave exactly the new version under that root: the same elements with the namespaces, names and attributes a parser would give them, texts, comments and template contents, step after step; any patch that fits and loses nothing does to the page what it does to hotmeal's own document, nested content included. Nothing outside the root changes. The inside of an opaque element is left alone; each opaque change fires one bubbling event with the new content, the key and the element. Patches that do not fit never crash the client.",
 ["histories", "inputs", "configurations"], DOCS + ", in every browser generation (strict and relaxed rules for names), through every entry point; the DOM is the one in hot/shims, not a browser",
 "The client's tests need a browser and are not run; they use a handful of pairs of ordinary HTML.",
 [WA, F, D], [("patch application", f"{WA}: apply_patches_with_slots_on_root, apply_patch"), ("node creation", f"{WA}: create_element_tree, set_attribute"), ("events", f"{WA}: OpaqueChanged")],
 hot("H12"), HTRUST + " The client runs natively against stand-ins for wasm-bindgen, js-sys and web-sys over a small DOM written from the DOM standard; its RPC loop (wasm32 only) is not covered.", "runtime monitor: differential oracle over a simulated DOM, identity and event monitors", observe=["DOM after each call", "events dispatched"], state=[dict(name="Slots", meaning="displaced nodes waiting for their move", where=WA)])
prop("H13", "No input makes parsing, diffing, patching or serving panic or hang",
 "Any two strings can be parsed, serialized, dumped, diffed in both directions, encoded, decoded, patched, injected into and served through the live-reload server without a panic, an arithmetic overflow, a stack overflow on an ordinary two-megabyte thread, an error or an endless loop.",
 ["inputs"], "every string, including arbitrary bytes, odd and invalid characters, unfinished constructs, hundreds of siblings or attributes and nesting of up to a few hundred levels",
 "Tests feed well-behaved pages; crashes hide in hostile and unfinished ones.",
 [D, F, SV, C, M, T], [("parser sink, serializer", D), ("diff", F), ("server", SV)],
 hot("H13"), HTRUST + " Nesting beyond a few hundred levels is not explored: trees are walked recursively and diffing time grows with the cube of a chain or of a run of unmatched siblings.", "sanitized execution (overflow checks, debug assertions) in child processes under a watchdog")
prop("H14", "The loader script carries its four arguments intact",
 "For any module URL, WASM URL, mount selector and WebSocket URL, the loader script is one script element of the page it is put in, runs without a syntax error, imports exactly that module, loads exactly that WASM file, and calls start_live_reload with exactly that WebSocket URL and exactly that selector; nothing in an argument ends the script, escapes its string or runs as code.",
 ["inputs"], "every four strings that such arguments can be: quotes, backslashes, newlines, line separators, template and comment syntax, script end tags, non-ASCII text",
 "One test looks for four fixed substrings in one script and never runs it.",
 [SV], [("loader script", f"{SV}: loader_script")],
 hot("H14"), HTRUST + " The script runs in Node with stand-ins for the page, the WebSocket and the module it imports.", "runtime monitor: execution of the generated script in a JavaScript engine with recorded calls")
prop("H15", "One edit to a page gives the patches of that edit and keeps every other node",
 "When the parts of a page are distinguishable and one of them is edited - a text or comment changed, attributes changed within the similarity threshold, both on a text and an element around it, a subtree appended, inserted among, removed from or swapped with siblings that have content of their own - the patches are just that edit's (plus moves of shifted siblings), and after applying them every other node of the page is the very node it was before, so whatever state it has survives.",
 ["inputs"], "every page of pairwise different parts, any nesting, and every kind and place of one edit",
 TESTS_HOT + "a few of them count patches for pages of one or two elements.",
 [F, D, M, C], [("body as root of the comparison", f"{F}: DiffableDocument"), ("matching", f"{M}: bottom_up_phase"), ("patch application", f"{D}: apply_patch_with_slots")],
 hot("H15"), HTRUST, "runtime monitor: metamorphic single-edit oracle over patches and node identities", observe=["Patch list", "node identities before and after apply_patches"])
prop("H16", "Tracing observes pages, patches and events without changing them",
 "Built with or without tracing in hotmeal, hotmeal-server and cinereus, and with whatever subscriber is installed - none, one that rejects everything or one that formats every field - the same documents give the same trees, serializations, patches, refusals, injected pages and events, byte for byte.",
 ["configurations", "inputs"], DOCS + ", every subset of the tracing features and every subscriber",
 "The tests run under one feature set and never compare two builds.",
 [D, F, SV, M, C, "hotmeal/src/tracing_macros.rs"], [("tracing macros", "hotmeal/src/tracing_macros.rs"), ("patch application", f"{D}: apply_patch"), ("server", SV)],
 hot("H16"), HTRUST + " Two builds are compared: all tracing features off and all on; single features are not combined.", "differential runtime monitor: digests of every observable result, compared between builds and subscribers", observe=["digests of trees, patches, errors, pages and events"])
prop("H17", "Documents can be shared by threads, and everything is given back",
 "Any number of threads can parse, share documents, diff them against each other, apply patches to copies and use one server at a time each, without a data race, an invalid memory access, undefined behaviour or a result other than the one computed alone. When documents, patches and servers are dropped every byte allocated for them is released, and the memory a server holds does not grow with the number of updates it has served.",
 ["inputs", "schedules", "histories"], DOCS + ", on any number of threads in any interleaving, and any number of updates",
 "The tests use one thread, run without sanitizers, and never measure memory.",
 [D, F, ST, SV, M, C], [("shared documents", f"{D}: Document"), ("borrowed strings", ST), ("server state", f"{SV}: LiveReloadServer")],
 hot("H17"), HTRUST + " The sanitizers see the interleavings and inputs that happened, Miri a dozen tiny ones; third-party code runs as stand-ins, so these watch what a change to the repository could bring in.", "sanitizers: ThreadSanitizer, AddressSanitizer and Miri over a multi-threaded workload, plus a counting allocator")
prop("H18", "No patch undoes or repeats another, and unchanged content keeps its nodes",
 "In the patches for any two pages, each node of the old page is moved, re-texted, updated, announced or removed at most once, never to no effect; no patch concerns what an earlier one inserted or left behind; a removal takes nothing with it that an earlier patch inserted, changed or moved; each slot is filled once and nothing is forgotten in it; what is missing afterwards was removed and what is new was inserted. A part that both pages show exactly once (attributes aside), made of parts shown once, under elements of the same kinds that recur nowhere, still consists of the very nodes it was.",
 ["inputs"], DOCS + ", and pages of distinct parts with several edits at once",
 TESTS_HOT + "they compare serializations, where a needless or repeated patch, or content rebuilt instead of kept, cannot be seen.",
 [F, D, M, C], [("patches from operations", f"{F}: convert_ops_with_shadow, ShadowTree"), ("matching", f"{M}: compute_matching"), ("edit script", f"{C}: generate_edit_script"), ("patch application", f"{D}: apply_patch_with_slots")],
 hot("H18"), HTRUST, "runtime monitor: conservation ledger over every patch and the identity of every node", observe=["Patch list", "NodeId behind every path, before and after each patch"])
prop("H19", "Documents built by API calls are diffed and patched like parsed ones",
 "For any history of documents built through the API - including ones no parser produces: adjacent and empty texts, impossible nesting, odd names and comments - diffing two of them succeeds, the patches survive encoding, and applying them, to a built, parsed or patched copy of the old one, gives the new one's body: same elements, attributes, texts and comments (empty texts and the insides of opaque elements aside). The same content built again in another way gives no patches.",
 ["histories", "inputs"], "every body that create, append, insert and set calls can make, with the namespaces an HTML parser would give, and every order of making it",
 TESTS_HOT + "all their documents come from the parser.",
 [D, F, ST, M, C], [("construction", f"{D}: create_element, append_child, insert_before, set_attr, set_text"), ("diff", f"{F}: diff"), ("patch application", f"{D}: apply_patches")],
 hot("H19"), HTRUST, "runtime monitor: convergence and conservation over histories of built documents", observe=["Patch list", "document after every step"])
prop("H20", "Strings and patches say the same however they are held, copied or sent",
 "A string of the document - borrowed, owned in place or on the heap, made from a slice, a string or a parser buffer, appended to, copied, turned into an owned one or sent and received - always has the content, length, equality, hash and printed form of the plain string it stands for, and copies are independent. Any patch, also one diffing never produces, and any live-reload event come back from the wire formats exactly as sent.",
 ["inputs", "histories"], "every string and every history of appends, conversions and copies; every list of patches of every kind with any names, values, paths and slots",
 "The tests encode three fixed patches and never compare a borrowed with an owned string.",
 [ST, F, SV], [("Stem", ST), ("wire proxies", f"{F}: QualNameProxy, LocalNameProxy"), ("events", f"{SV}: LiveReloadEvent")],
 hot("H20"), HTRUST + " The wire formats run through the facet stand-ins: what is judged is what the repository's types and proxies hand to them.", "runtime monitor: reference-model comparison over string histories and round trips", observe=["Stem accessors, Eq, Hash, Display, Debug", "decoded patches and events"])
prop("H22", "The live-reload client follows its page through every loss of connection",
 "Whatever becomes of its connections, the browser's live-reload client keeps following its page. It has one connection at a time, to the address it was given; on each it subscribes once, to the path of the page it is on. It obeys every event, in order: it applies patches inside of its mount point, touching nothing else, and reloads the page when told to reload or that the head changed - once each, and never otherwise. After an event it cannot obey it says so and goes on. When an attempt or a connection fails or ends it waits and tries again, for ever: 100 ms at first, doubling up to 5 seconds, and from 100 ms again after a connection on which its subscription was granted.",
 ["schedules", "fault_sequences", "histories", "inputs"], "every history of connections - refused, lost in the handshake, refused or never answered at the subscription, ended well or badly at any moment - every sequence of events on them, every order in which the client's tasks take turns",
 "No test runs the client: it is only compiled for wasm32, and what it does depends on when connections fail.",
 [WA, SV], [("loop and delays", f"{WA}: live_reload::live_reload_loop, live_reload_session"), ("events", f"{WA}: live_reload::handle_live_reload_event, apply_patches_postcard_on"), ("events sent", f"{SV}: LiveReloadServer, LiveReloadEvent")],
 hot("H22"), HTRUST + " The browser's DOM and the crates that carry the calls (roam, its WebSocket transport, futures) are stand-ins with a scripted network and a clock of their own; the client's sources are compiled natively under the wasm32 configuration.", "runtime monitor: online checker of connections, calls, delays, reloads and page contents of the real client on a scripted network with injected failures", observe=["connections opened", "subscriptions", "events handled", "delays asked for", "reloads", "page contents"])

prop("H23", "What things cost grows with their size, not faster",
 "Parsing a page or a body fragment takes time and memory in proportion to the page's size, to what the HTML parser itself needs for it, or to the depths of its nodes together - whichever grows most. Serializing, cloning and dumping a document, injecting into a page's head, making the loader script, building a document node by node, serving many routes, updating one route or one document over and over, and encoding and decoding patches take time and memory in proportion to what goes in and comes out. Computing the patches of an update, and applying them, takes time and memory at most quadratic in the number of nodes of the two pages (of bounded nesting).",
 ["inputs", "histories"], "every page, however hostile, of every size; every number of routes, of updates and of patches",
 "Tests use small inputs and look at results: cost that explodes with size is invisible to them, and to every comparison of contents.",
 [D, F, SV, M], [("parsing", f"{D}: ArenaSink"), ("serialization", f"{D}: to_html, serialize_node"), ("updates", f"{F}: diff, {M}: bottom_up_phase, ancestry_compatible"), ("serving", f"{SV}: inject_into_head, LiveReloadServer")],
 hot("H23"), HTRUST + " The yardstick is a constant-time sink under the same parser stand-in; growth is compared between an input and one up to 64 times its size, with a factor of five to spare.", "runtime monitor: CPU time and allocated bytes of the real operations on small and many times larger inputs of one make, against a constant-time reference", observe=["CPU time of the thread", "bytes asked of the allocator"])

prop("H21", "Text that needs no change is not copied",
 "A text that stands in the input exactly as it appears in the document - one run without references, line breaks or nulls, too long to be held in place - is not copied by parsing: it is the very bytes of the input. The same holds for the texts of the patches of diff_html, and for those of a document the patches were applied to. (Input that is parsed as it stands: with a doctype, or as a body fragment.)",
 ["inputs"], "every page and pair of pages, for every text of them that is one unchanged run of more than eight bytes, wherever it stands",
 "One unit test looks at one text node of one page; copying is invisible to every comparison of contents.",
 [D, F, ST], [("borrowing", f"{D}: tendril_to_stem_with_input, append"), ("patch contents", f"{F}: diff_html, extract_content_from_tree_b")],
 hot("H21"), HTRUST + " Where the tokenizer cuts a text into runs follows the stand-in, which cuts where the standard's tokenizer states do.", "runtime monitor: address check of every string of parsed and patched documents and of patches", observe=["address of the bytes of every text"])

prop("H24", "What is shown of pages, patches and refusals is what they are",
 "What the library and its browser client show for people is faithful. A dump of a subtree has its nodes, each once, in document order, indented by two spaces per level - elements as opening and closing lines with the lower-case tag and every attribute by local name, sorted, texts and comments in full and quoted - and nothing else; dump_body is that of the body, and nothing when there is none. The client's dumps of the live page and of parsed HTML list the body's nodes in the same way, and its inner HTML is read and set as the browser's. A patch is shown by its operation, full path, slot, tag, name or counts, and the first 20 characters (40 for opaque content) of its text. When a patch is refused the reason given is true of it, and the client names the first patch of the list that failed. A node kept in a slot of the client is the last one stored there until it is taken, once.",
 ["inputs", "histories"], "every document, parsed or patched, every subtree of it; every patch; every refusal of a patch of any list on any document; every history of slots",
 "No test reads a dump, the printed form of a patch or the reason of a refusal; people debugging and the snapshot tests of users rely on them.",
 [D, F, WA], [("dumps", f"{D}: dump_subtree, dump_body; {WA}: dump_browser_dom, dump_rust_parsed"), ("printed patches", f"{F}: impl Debug for Patch"), ("refusals", f"{F}: DiffError; {D}: navigate_slot_path; {WA}: apply_patches_with_slots_on_root"), ("slots", f"{WA}: Slots")],
 hot("H24"), HTRUST, "runtime monitor: every display compared with an independent rendering of the state it shows; reasons of refusals checked against the document refused", observe=["dumps", "printed patches", "errors and their messages", "inner HTML", "slots"])
