#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below and lib/table.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
from table import H, PROPS
I = "include/mdds/"
FST = [I + "flat_segment_tree.hpp", I + "flat_segment_tree_def.inl", I + "flat_segment_tree_itr.hpp", I + "node.hpp"]
ST = [I + "segment_tree.hpp", I + "segment_tree_def.inl", I + "node.hpp"]
PQ = [I + "point_quad_tree.hpp", I + "quad_node.hpp"]
RT = [I + "rtree.hpp", I + "rtree_def.inl"]
TR = [I + "trie_map.hpp", I + "trie_map_def.inl", I + "trie_map_itr.hpp"]
MV = I + "multi_type_vector/"
SOA = [MV + "soa/main.hpp", MV + "soa/main_def.inl", MV + "soa/block_util.hpp", MV + "soa/iterator.hpp"]
AOS = [MV + "aos/main.hpp", MV + "aos/main_def.inl", MV + "aos/block_util.hpp", MV + "aos/iterator.hpp"]
MVC = [MV + "types.hpp", MV + "block_funcs.hpp", MV + "delayed_delete_vector.hpp"]
COLL = [MV + "collection.hpp", MV + "collection_def.inl"]
MX = [I + "multi_type_matrix.hpp", I + "multi_type_matrix_def.inl"]
SSM = [I + "sorted_string_map.hpp", I + "sorted_string_map_def.inl"]

L = []
def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe, hook_needed=None)))

HI, IN, FA, SC = "histories", "inputs", "fault_sequences", "schedules"

# ---------------------------------------------------------------- flat segment tree
P("F01", "A flat segment container is exactly the step function its history defines",
  "After any history of insertions, shifts, assignments, swaps, moves and clears, looking up any key gives the value most recently written to it, or the default value where nothing was written. Neighbouring segments never carry equal values, and forward, backward and per-segment iteration enumerate exactly the same segments. Requests outside the covered range are clipped or rejected and never change anything else.",
  [HI, IN], "every history of operations on any number of containers, every key and value type accepted, every insertion hint (valid, stale-by-value or at either end)",
  "The tests replay a few dozen fixed histories; merging at both ends, shifts with partial overlap and hints interact over histories and ranges no fixed list covers.",
  FST, [("segment insertion and merging", "flat_segment_tree_def.inl: insert_segment_impl"), ("shifting", "flat_segment_tree_def.inl: shift_left, shift_right")],
  ["search", "begin/end, rbegin/rend, begin_segment/end_segment", "operator=="],
  [("leaf list", "boundary keys with the value that starts there", "m_left_leaf..m_right_leaf")])
P("F02", "Indexed lookup of a flat segment container is never stale and equals the scan",
  "A lookup through the index succeeds only if the index was built after the last change to the content; when it does succeed it returns the same value and the same segment bounds as the linear lookup. Copies, moves and swaps carry content and index state together. Two containers with the same segments compare equal whatever history produced them.",
  [HI, IN], "every interleaving of content changes, index builds and lookups",
  "Tests build the index right before they search; stale-index hazards need a change after the build, in every operation that can change content.",
  FST, [("index validity flag", "flat_segment_tree_def.inl: build_tree, search_tree"), ("tree builder", "node.hpp: tree_builder")],
  ["search_tree", "valid_tree"], [("validity flag", "index reflects current content", "m_valid_tree")])
P("F03", "A failed operation leaves a flat segment container as it was or as asked",
  "If memory runs out or a value's own copy, move or comparison throws in the middle of any operation, the container afterwards still holds either its previous content or the requested content, remains fully usable, and never claims an index that does not match. Every value and every allocation is released exactly once over any such history.",
  [FA, HI], "every operation, failing at every allocation or value callback it makes, anywhere in a history",
  "No existing test makes an allocation or a value operation fail.",
  FST, [("node allocation and linking", "flat_segment_tree_def.inl"), ("reference counted nodes", "node.hpp: intrusive_ptr")],
  ["content after a failed call", "allocator balance"])
# ---------------------------------------------------------------- segment tree
P("S01", "A stabbing query returns exactly the live segments that contain the point",
  "After any history of insertions, erasures through search results or by predicate, copies, moves and index builds, a query on a valid index returns each live segment that contains the point exactly once and nothing else. An invalid index gives no results, and the index is invalid after any insertion until it is rebuilt. Size, emptiness, boundary keys and equality reflect exactly the live segments, counting duplicates.",
  [HI, IN], "every history and query point, duplicated and nested segments included",
  "Tests use small hand-written sets; erasure on a built index, duplicates and odd node counts combine in too many ways.",
  ST, [("marking nodes with segments", "segment_tree_def.inl: descend_tree_and_mark"), ("un-marking on erase", "segment_tree_def.inl: remove_value_pos")],
  ["search", "size, empty, boundary_keys", "operator=="])
P("S02", "A failed operation never loses or duplicates segments",
  "If memory runs out or a value operation throws during any operation, the container still holds exactly the old or exactly the requested set of segments, can be rebuilt and searched, and does not answer from a half-built index. Nothing is leaked or released twice.",
  [FA, HI], "every operation failing at every allocation or value callback, anywhere in a history",
  "No existing test makes anything fail.", ST, [("index build", "segment_tree_def.inl: build_tree, create_leaf_node_instances")],
  ["content after a failed call", "allocator balance"])
# ---------------------------------------------------------------- quad tree
P("Q01", "A quad tree holds and finds exactly the points inserted and not removed",
  "After any history of insertions, removals, copies, moves, swaps and clears, every point lookup and every rectangular search gives exactly the points a plain map would give, whichever order they were inserted and removed in. Inserting at an occupied position replaces the value; removing a missing point changes nothing.",
  [HI, IN], "every history of points, including collinear and duplicate positions, and every query window",
  "Removal re-inserts whole sub-quadrants; which ones depends on the insertion history, of which tests sample a handful.",
  PQ, [("candidate selection and re-insertion", "point_quad_tree.hpp: remove, adjust_quad, insert_node"), ("window search", "point_quad_tree.hpp: search_region")],
  ["find", "search_region", "size", "get_node_access, equality"])
P("Q02", "A failed quad tree operation changes nothing and leaks nothing",
  "If memory runs out or a value operation throws during any operation, the tree still holds exactly its previous points or exactly the requested ones. Nothing is leaked or released twice.",
  [FA, HI], "every operation failing at every allocation or value callback, anywhere in a history",
  "No existing test makes anything fail.", PQ, [("node ownership", "quad_node.hpp: intrusive reference counting")], ["content after a failed call", "allocator balance"])
# ---------------------------------------------------------------- multi type vector
P("M01", "A multi-type vector is exactly the sequence its history defines",
  "After any history of element-wise and range-wise sets, insertions, erasures, resizes, transfers, swaps and releases, every position holds exactly the last value and type written there, empty included. Consecutive elements of one type always form one block, never two, and all ways of reading (by position, by iterator in both directions, by block) agree. Requests outside the current size are rejected without changing anything.",
  [HI, IN], "every history over two containers, every mix of element types, both storage layouts and every block store",
  "Each operation has many branches on where it lands relative to block boundaries and neighbouring types; tests pick single layouts per branch, not histories.",
  SOA + AOS + MVC, [("block merging and splitting", "soa/main_def.inl, aos/main_def.inl: set_cells_*, insert_cells_*, erase_impl, transfer_*, swap_*")],
  ["get, get_type, is_empty", "begin/end, rbegin/rend", "block_size", "operator=="],
  [("blocks", "position, size and data of each run", "m_block_store / m_blocks")])
P("M02", "Position hints change speed, never results",
  "An operation given a position or block hint produces exactly the same content, the same returned position and the same rejection as the same operation without the hint, for every hint obtained from the container's current state. Every returned position refers to the element it claims to refer to.",
  [HI, IN], "every history, every legal hint (before, at and after the target)",
  "Tests use hints that were just returned by the previous call.",
  SOA + AOS, [("hinted block lookup", "get_block_position(hint, row)")], ["returned iterators and positions", "content"])
P("M03", "Every block acquired is reported released exactly once, over any history",
  "The owner's event handler sees one acquisition for each data block the container takes hold of and one release for each block it lets go of, never a release of an unknown block, so that after every step the blocks announced and not released are those in the container. (A range set that cuts the top off a block may put an equal block in its place without a word, as the code says; then they match type for type.) When the container is gone, the balance is zero.",
  [HI], "every history of every operation including moves, swaps, transfers and clones between containers",
  "Tests count events for selected operations on fixed layouts.",
  SOA + AOS, [("event notifications", "element_block_acquired / element_block_released calls in soa/main_def.inl, aos/main_def.inl")], ["event handler calls vs. blocks in the container"])
P("M04", "Managed elements are deleted exactly once, and never while still referenced",
  "Objects whose ownership was handed to the container are deleted exactly once: when overwritten, erased, cleared or when the container goes away; objects released to the caller or moved to another container are never deleted by the previous owner.",
  [HI], "every history with overwrites, partial range operations, resizes, releases, transfers, swaps and clones",
  "Tests check few overwrites; double delete or leak depends on where ranges cut blocks.",
  SOA + AOS + [MV + "types.hpp"], [("overwrite before drop", "overwrite_values / delete on erase in block functions"), ("release without overwrite", "release, release_range, transfer")], ["object lifetimes", "allocator balance"])
P("M05", "Failed copies, clones and rejected requests change nothing and leak nothing",
  "If a copy, clone or assignment fails because memory ran out or an element could not be copied, the target still holds its previous content, the source is unchanged, and nothing is leaked or released twice. A rejected request (bad position, bad type, invalid hint) leaves the container unchanged.",
  [FA, HI], "every copy-like operation failing at every allocation or element callback, after any history",
  "No existing test makes an allocation or element copy fail; clone failures are tested at one point only.",
  SOA + AOS + MVC, [("copy and rollback", "soa/main_def.inl: blocks_type copy, clone; aos/main_def.inl: copy constructor, clone")], ["content of source and target after a failed call", "event balance", "allocator balance"])
P("M06", "Copy-on-write copies never observe each other's changes",
  "Containers that share data after a copy behave exactly like independent copies over any later history: a change made through one is visible through none of the others, and releasing elements out of shared data is refused. Blocks are shared until written, and each is released once, by its last owner.",
  [HI], "every history over a family of containers copied, assigned, moved, swapped and detached from each other",
  "Tests exercise pairs of copies with one write; sharing bugs need a family of copies, boundaries and specific writes.",
  SOA + [MV + "soa/block_util.hpp"], [("shared block bookkeeping", "soa/main_def.inl: cow, detach")], ["content of every member of the family after each step", "event balance", "object lifetimes"])
P("M07", "Failed copy-on-write operations leave every sharing container unchanged",
  "If memory runs out or an element copy throws while data is being shared or un-shared, all sharing containers keep their content, un-sharing can be retried, and every block is still released exactly once.",
  [FA, HI], "every copy, assignment and un-sharing step failing at every allocation or element callback",
  "No existing test covers failures while sharing.", SOA, [("share and detach", "soa/main_def.inl")], ["content of all sharing containers", "allocator and event balance"])
P("M08", "Copy-on-write copies may be used from different threads",
  "Copies sharing data may be read, copied, modified and destroyed concurrently, each by its own thread, and behave as if fully separate. No data race, no double release and no leak occurs under any schedule.",
  [SC, HI], "every schedule of two or three threads, each running its own history on its own copy",
  "The schedule decides; a test observes the one schedule the machine happens to produce.",
  SOA, [("atomic reference counts", "soa/main_def.inl, soa/block_util.hpp")], ["per-thread content against a model", "happens-before race detector", "allocator balance"])
P("M09", "Copies and comparisons under a parallel execution policy equal sequential ones",
  "With a parallel execution policy configured, or with the OpenMP option on, copies, clones, comparisons and changes give the same content, the same events and the same verdict as without it, for every order and interleaving in which the workers run the pieces, and are free of data races. A stateful cloner still sees the elements of a block in order.",
  [SC, HI], "every order and interleaving in which the workers may run the pieces, after any history",
  "Existing tests run the sequenced policy only; no test spreads the work over threads.",
  SOA, [("exec policy dispatch", "soa/main_def.inl: clone, operator==, copy via std::transform/for_each/equal")], ["content of copy", "event balance", "race detector"])
P("M10", "Side-by-side iteration over vectors visits every row of every vector once",
  "For any set of equally long vectors and any sub-range of rows and vectors, side-by-side iteration visits exactly each selected row once, in order, each time giving the value and type that vector holds there. Setting up iteration over vectors of unequal length or an invalid range is rejected.",
  [HI, IN], "every content layout reachable by histories, every selected range",
  "Tests use fixed layouts with one block structure.", COLL, [("lock-step advance over blocks", "collection_def.inl: side_iterator")], ["sequence of visited cells"])
P("M11", "A vector whose change failed part-way can still be used up cleanly",
  "If memory runs out or an element copy throws while a vector is being changed (set, insert, append, erase, set empty, resize, shrink), the vector can still be cleared, assigned to or destroyed; everything it owns is then released exactly once.",
  [FA, HI], "every such change failing at every allocation or element callback, after any history",
  "No existing test makes a change fail part-way.",
  SOA + AOS + MVC, [("in-place changes", "soa/main_def.inl and aos/main_def.inl: set, insert, erase, resize")], ["clear, assignment, destruction", "allocator balance", "live objects"])
P("M12", "A store with delayed front removal is exactly the sequence of its history",
  "After any history of appends, insertions, erasures at the front and elsewhere, resizes, assignments, copies, moves and swaps, a delayed_delete_vector holds exactly the elements its history defines, however it is read. A failed operation leaves a usable store, a position past the end is rejected, and every element is destroyed exactly once.",
  [HI, FA], "every history, with every allocation or element operation failing",
  "Removed front elements stay in memory until later; only particular sequences around such a removal show a mistake.",
  MVC[2:], [("offset of removed front elements", "delayed_delete_vector.hpp")], ["elements in both directions, by position and through data()", "equality", "live elements"])
# ---------------------------------------------------------------- matrix
P("X01", "A matrix is exactly the two-dimensional grid its history defines",
  "After any history of element and range sets, resizes, copies, transposes, swaps and clears, each cell holds exactly the last value written to it, with the documented fill for new cells. Traversals over the whole or part of one or two matrices visit each selected cell once in column-major order, and numeric summaries and equality agree with the cell contents.",
  [HI, IN], "every history and shape, including zero rows or columns",
  "Tests use a few shapes; column-major arithmetic at range edges depends on shape and block layout.",
  MX, [("row/column to position arithmetic", "multi_type_matrix_def.inl: get_pos, walk, copy, resize, transpose")], ["get, get_type, get_numeric", "walk", "operator==", "numeric()"])
P("X02", "A failed matrix operation leaves the matrix as it was",
  "If memory runs out during a resize, a transpose, or a copy construction or assignment, the matrix keeps its previous size and content, and nothing is leaked. Requests that do not fit the matrix are rejected without changing it.",
  [FA, HI], "every such operation failing at every allocation, after any history", "No existing test makes anything fail.",
  MX, [("copy and swap", "multi_type_matrix_def.inl: resize, transpose, copy")], ["content and size after a failed call", "allocator balance"])
# ---------------------------------------------------------------- trie
P("T01", "A trie map behaves as an ordered map with prefix search",
  "After any history of insertions, erasures, copies, moves and swaps, exact lookup, iteration in both directions, and prefix search give exactly what an ordered map with the same history gives, in the map's order. Keys that are prefixes of each other, empty keys and values at inner positions are not special.",
  [HI, IN], "every history over every key set", "Tests use word lists with one insertion order and few erasures.",
  TR, [("insertion, pruning on erase, iteration", "trie_map_def.inl: insert_into_tree, erase, get_previous/next node")], ["find", "begin/end, both directions", "prefix_search", "size"])
P("T02", "A packed trie answers exactly like the map it was built from",
  "Packing any map, or any sorted list of entries, gives a read-only map with the same size, lookups, iteration in both directions and prefix searches. Copies and moves of packed maps keep these answers.",
  [IN, HI], "every key set, byte value and key type, prefix overlaps included", "Tests use fixed word lists.",
  TR, [("packing", "trie_map_def.inl: compact, push_child_offsets")], ["find, iteration, prefix_search, equality"])
P("T03", "Saved packed tries load back identically however the stream delivers bytes",
  "Saving a packed map and loading it back gives an equal map with equal answers, whatever chunk sizes the streams use. If the device reports an error or is full at any byte, the failure is visible on the stream or by exception, and loading from what was written never yields a different map silently.",
  [FA, IN], "every map, every chunking, an error at every byte offset", "Tests use in-memory streams that never fail.",
  TR, [("state serialization", "trie_map_def.inl: save_state, load_state; trie::variable_value_serializer and friends")], ["loaded map", "stream state", "exceptions"])
P("T04", "Damaged or truncated saved state is rejected or loads as a sane map",
  "Loading a stream that was cut off or damaged anywhere either throws, leaving the target as it was, or loads a map that can be safely searched and iterated. A truncated stream is always rejected; loading never hangs, crashes or exhausts memory.",
  [FA, IN], "every truncation point and every pattern of damaged bytes", "Tests cover a handful of corrupt headers.",
  TR, [("header and size checks", "trie_map_def.inl: load_state")], ["target after failure", "crash / hang detector"])
P("T05", "A failed trie operation leaves the map as it was or as asked",
  "If memory runs out or a value operation throws during any trie operation, including packing and loading, the map still holds exactly the old or exactly the requested entries. Nothing is leaked or released twice.",
  [FA, HI], "every operation failing at every allocation or value callback", "No existing test makes anything fail.",
  TR, [("node insertion", "trie_map_def.inl: insert_into_tree"), ("node pool / value store", "trie_map_def.inl: compact")], ["entries after a failed call", "allocator balance"])
# ---------------------------------------------------------------- rtree
P("R01", "A spatial tree finds exactly the stored boxes, after any history",
  "After any history of insertions, erasures, bulk loads, copies and moves, every overlap and exact-match search returns exactly the stored objects that qualify, each once, and erasing through a search result removes exactly that object. Tree invariants (node fill, enclosing boxes, uniform depth) hold after every step.",
  [HI, IN], "every history of boxes and points, overlapping and identical ones included, in one or more dimensions",
  "Splits, forced re-insertion and dissolving on erase depend on the history; tests replay few.",
  RT, [("split, forced re-insertion, condense", "rtree_def.inl: insert, split_node, perform_forced_reinsertion, erase_impl"), ("bulk load", "rtree_def.inl: bulk_loader")], ["search(overlap / match)", "size", "extent", "check_integrity"])
P("R02", "A failed spatial tree operation leaves a consistent tree and leaks nothing",
  "If memory runs out or a value operation throws during insertion, erasure, copy, assignment or bulk load, the tree still holds exactly its previous content or exactly the requested content, its invariants still hold, and nothing is leaked or released twice.",
  [FA, HI], "every operation failing at every allocation or value callback, anywhere in a history", "No existing test makes anything fail.",
  RT, [("node ownership", "rtree_def.inl: node_store")], ["content after a failed call", "allocator balance"])
# ---------------------------------------------------------------- concurrency of readers
P("C01", "Trees may be read by many threads at once",
  "Any number of threads may run read-only operations on the same segment, quad or spatial tree at the same time: no data race occurs and each gets the answers a single thread would get, under every schedule. Distinct containers may be built and changed in different threads without interference.",
  [SC], "every schedule of two or three readers running arbitrary read-only operations on one container, and of writers on distinct containers",
  "There are no multi-threaded tests of these containers; the schedule decides.",
  FST + ST + PQ + RT, [("const operations without hidden writes", "search, iterators, segment ranges")], ["race detector", "answers against sequential ones"])
P("C02", "Vectors, matrices and collections may be read by many threads at once",
  "Any number of threads may run read-only operations on the same vector, matrix or collection at the same time: no data race occurs and each gets the answers a single thread would get, under every schedule. Internal lookup tables set up on first use are set up once and safely, and distinct containers never interfere.",
  [SC], "every schedule of two or three threads, including the very first use of each operation in the process",
  "There are no multi-threaded tests of concurrent reads; first-use initialisation happens once per process.",
  SOA + AOS + MVC + COLL + MX, [("function tables per block type", "block_funcs.hpp"), ("const operations", "soa/main_def.inl, aos/main_def.inl")], ["race detector", "answers against sequential ones"])
P("C03", "Tries and string maps may be read by many threads at once",
  "Any number of threads may run lookups, prefix searches and iterations on the same trie, packed trie or sorted string map at the same time: no data race occurs and each gets the answers a single thread would get, under every schedule, also when the first lookups in the process coincide.",
  [SC], "every schedule of two or three readers", "There are no multi-threaded tests of these maps.",
  TR + SSM, [("const operations", "trie_map_def.inl, sorted_string_map_def.inl")], ["race detector", "answers against sequential ones"])
P("L01", "Sorted string map lookup is exact",
  "For any list of sorted unique string keys, looking up a key gives its value, any other string gives the null value, and reverse lookup of a value gives a key that has it, whichever key finder is used and also through copied and moved maps. A construction or lookup that fails because memory ran out or a value operation threw leaves nothing behind and can be repeated.",
  [IN], "every entry list and query string, every history of copies and moves, every point at which a construction or lookup fails", "Tests use a few lists and never fail an allocation.", SSM, [("binary search", "sorted_string_map_def.inl: find"), ("reverse table", "sorted_string_map_def.inl: hash_key_finder")], ["find, find_key", "size", "allocator balance, live values"])

NA = {}

def note_for(p):
    return PROPS[p].get("note") or H[PROPS[p]["h"]].get("note") or "seeded search over simulated histories and faults; no claim beyond the explored runs"

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in L:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in L:
        i = p["id"]
        if i in PROPS:
            checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", evidence_file=f"evidence/{i}.json",
                               technique="deterministic simulation with fault injection: " + H[PROPS[i]["h"]]["technique"],
                               level="exploration", level_note=note_for(i)))
        elif i not in NA:
            NA[i] = "no check has been built for it (yet)"
    m = dict(version=1, setup_cmd="./setup", checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    d = os.path.join(HERE, "DESIGN.md")
    with open(d) as f:
        text = f.read()
    mark = "<!-- seeded -->\n"
    rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
    for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        try:
            with open(os.path.join(HERE, "seeded", b, "meta.json")) as f:
                j = json.load(f)
        except FileNotFoundError:
            continue
        rows.append("| %s | %s | %s | %s |" % (b, j["needs"], j["what_it_breaks"], j.get("caught_by", j["property"])))
    with open(d, "w") as f:
        f.write(text[:text.index(mark) + len(mark)] + "\n".join(rows) + "\n")
main()
