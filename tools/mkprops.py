#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
G = "rust-src/src/gridstore/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": [f if "/" in f or f.endswith(".js") else G + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A phrase record reads back exactly as it was written",
"""A phrase record written through the on-disk record format (relevance/score groups, each a list of tiles, each tile with
a list of ids, and the root) reads back with exactly the same groups, tiles and ids in the order written, whatever the number of groups,
tiles and ids and wherever in the record the lists ended up. The lengths reported, access by position and iteration
(by reference, by value, or straight from the raw bytes) all agree, a list may be referred to by several tiles, and
a position handed out by the writer stays valid after any later writes.""",
["inputs", "histories"], """all sequences of write operations: list lengths around every change of the length encoding (0, 1, 127, 128,
16383, 16384), list positions around every change of pointer width (255/256, 65535/65536, 16777215/16777216), all u32 tile and id values,
any sharing of id lists""",
"""The one unit test writes 14 grids into a record of under 256 bytes, so it sees one-byte pointers, one-byte lengths, unshared lists and
a single reading route.""",
["gridstore_format.rs"], [("Writer::write_* append and return the position", G+"gridstore_format.rs"),
 ("get_min_size chooses the pointer width of a tile list", G+"gridstore_format.rs"),
 ("FixedVec/VarVec/UniformVec decode the length, then index or walk", G+"gridstore_format.rs")],
[("data", "the bytes written so far; positions are indexes into it", "Writer")], ["Writer::finish", "Reader", "read_*_vec_raw"])

prop("C02", "The record layout on disk is the documented one, in both directions",
"""The bytes of a phrase record follow one fixed layout: little-endian 32-bit ids after a LEB128 count; tiles of one common record size after a count
and a size byte; one relevance/score byte and a LEB128 position per group; and the position of the group list in the last four bytes.
A reader of that layout recovers from the writer's bytes what was written, and the library reads
bytes laid out that way by others, also when pointers are wider than they need to be.
So a store built by one release can be read by another.""",
["inputs", "histories"], "all records as in C01, in both directions (bytes from the library read by the specification's decoder, bytes from the specification's encoder read by the library)",
"The unit test only round-trips through writer and reader of the same build, so any change made to both sides at once passes.",
["gridstore_format.rs"], [("VarEncodable / FixedEncodable / UniformEncodable implementations", G+"gridstore_format.rs")],
[], ["bytes of Writer::finish", "Reader over given bytes"])

prop("C03", "A store answers with exactly the entries that were loaded",
"""After any sequence of inserts (which replace a key's entries), appends and compact appends, followed by finishing the builder and opening the store,
looking up each key gives exactly the entries loaded for it since its last insert: none lost, none invented, none given twice.
Each entry keeps its tile, its score (low four bits), its id (low 24 bits), its source hash and its relevance (0.4, 0.6 and 0.8 as they are, anything else as 1.0);
a key never loaded is absent, and a key loaded with no entries is present and empty.""",
["histories", "inputs"], "all histories of builder calls over any keys, languages, tiles, scores, ids, hashes and relevances, in any order and with any repetition",
"The unit tests load one to a few dozen entries in a fixed order, mostly once per key, and the official build does not run them.",
["builder.rs", "store.rs", "gridstore_format.rs", "common.rs"],
[("extend_entries / compact_append group by relevance+score, tile, id+hash", G+"builder.rs"), ("get_encoded_value", G+"builder.rs"), ("decode_value", G+"store.rs")],
[("data", "key -> relevance+score -> tile -> ids", "GridStoreBuilder")], ["GridStore::get"])

prop("C04", "Entries come back in the canonical order",
"""The entries of a key are always listed by relevance from high to low, within that by score from high to low, within that by the tile's z-order position
from high to low, and within a tile by id and then source hash from high to low. The order does not depend on the order or the way in which the entries were loaded.""",
["histories", "inputs"], "all loading histories and all entries",
"Tests compare a few hand-ordered lists; ties, equal z-order prefixes, large coordinates and shared tiles are not covered.",
["builder.rs", "store.rs"], [("sorting in get_encoded_value", G+"builder.rs")], [], ["GridStore::get", "GridStore::iter"])

prop("C05", "How entries are loaded does not matter",
"""Two builders that end up with the same entries for every key produce stores that answer every lookup, listing and search identically,
whether the entries came as one insert, as several appends in any order and split, as compact appends of many tiles at once, with duplicates or without.""",
["histories"], "all pairs of loading histories with the same net content",
"Each loading call is tested once, alone, for the number of groups it leaves in memory; no test compares the stores.",
["builder.rs"], [("insert / append / compact_append", G+"builder.rs")], [], ["GridStore::get", "GridStore::iter", "GridStore::streaming_get_matching"])

prop("C06", "Renumbering moves every phrase's data to its final id",
"""Renumbering a builder with a mapping from temporary to final phrase ids gives the store in which the data of each temporary id is found, unchanged and for the same language sets,
under its final id and nowhere else. A mapping that lacks an id in use, or sends two keys to the same final key, is rejected with an error and leaves the builder as it was, rather than losing or merging data.""",
["histories", "inputs"], "all builder contents, all mappings (permutations, injective, too short, colliding), before or after further loading",
"One test renumbers three ids with one permutation and checks one failing mapping.",
["builder.rs"], [("renumber", G+"builder.rs")], [], ["GridStoreBuilder::renumber", "GridStore::get", "GridStore::keys"])

prop("C07", "Listing a store yields every key once, in key order, with its entries",
"""Listing the keys of a store yields every loaded key exactly once and nothing else, with its phrase id and its language set unchanged for every 128-bit language set,
ordered by phrase id. Listing keys with entries yields, for each of those keys in the same order, what a lookup of that key yields; prefix bins never show up as keys.""",
["inputs", "histories"], "all sets of keys, with any phrase ids and language sets (all languages, none, any of 128 bits), with or without bins",
"Tests list keys with small phrase ids and language sets of a few low bits.",
["common.rs", "store.rs"], [("GridKey::write_to strips leading zero bytes of the language set", G+"common.rs"), ("keys / iter", G+"store.rs")], [], ["GridStore::keys", "GridStore::iter"])

prop("C08", "Prefix bins never change what a range search finds",
"""A search over a range of phrase ids finds the same matches in a store whose boundaries were loaded so that the range is pre-binned as in a store of the same data without boundaries,
for every list of boundaries, also when phrases lie below the first or above the last boundary, or bins are empty.
The boundaries a store reports are those that were loaded.""",
["inputs", "configurations", "histories"], "all store contents, all boundary lists, in any order, all ranges (aligned to bins and not), all languages",
"One fixture of 5000 phrases with bins by first letter, one language set, boundaries that start at the first phrase.",
["builder.rs", "store.rs"], [("finish groups phrases into bins", G+"builder.rs"), ("bin_boundaries decide between bins and phrases", G+"store.rs")],
[("~BOUNDS", "the boundaries", "database"), ("PrefixBin keys", "merged entries of a bin", "database")], ["GridStore::streaming_get_matching", "GridStore::bin_boundaries"])

prop("C09", "A search returns exactly the matching entries",
"""A search for a phrase or a range of phrases returns every stored entry of the phrases asked for whose tile lies within the requested bounding box (edges included), and no other entry;
without a limit each such entry is returned once for each stored key (or pre-computed bin and language set) that holds it. This holds with and without a proximity point, which changes order and scores but never membership.""",
["inputs", "configurations"], "all store contents, phrase ranges, languages, bounding boxes and proximity points, including boxes and points outside the data and at the edges of the grid",
"Tests use a handful of boxes over one row of tiles; z-order corner cases (boxes whose curve segment leaves the box, points before or after all data) are sampled by five examples.",
["store.rs", "spatial.rs", "common.rs"], [("bbox_range, bbox_filter, proximity, bbox_proximity_filter, coord_binary_search", G+"spatial.rs"), ("matches_key", G+"common.rs")], [], ["GridStore::streaming_get_matching"])

prop("C10", "Language and distance are scored as documented",
"""Every match says whether its language set meets the query's (a key for all languages always does), its distance in tiles from the proximity point (0 without one), and its score-distance:
the plain score without a proximity point, otherwise a value that grows with the score, falls with the distance and levels off beyond the store's radius.
Its relevance is the stored one, times 0.96 unless the language matches or the tile lies within the radius of the proximity point.""",
["inputs", "configurations"], "all 128-bit language sets on both sides, all tiles, scores, zooms (0 to 16), radii and proximity points",
"Tests pin a few values at zoom 6 and 14 with low language bits.",
["store.rs", "spatial.rs", "common.rs"], [("matches_language", G+"common.rs"), ("scoredist, tile_dist, proximity_radius", G+"spatial.rs"), ("decode_matching_value", G+"store.rs")], [], ["MatchEntry"])

prop("C11", "Matches stream out best first",
"""Without a proximity point, matches come out in order of relevance and then score, from high to low. With one, within each stored key and each relevance and score the nearest tiles (along the z-order curve) come first,
and of the candidates that are next for each stored key and score, the one with the higher relevance, then score-distance, then language match, then tile and id, is emitted first.""",
["inputs", "configurations"], "all store contents, ranges, languages, boxes and proximity points",
"Tests compare a few full lists for data on one row of tiles.",
["store.rs", "spatial.rs"], [("kmerge_by scoredist within a relevance", G+"store.rs"), ("priority queue over keys", G+"store.rs"), ("proximity merge", G+"spatial.rs")], [], ["GridStore::streaming_get_matching"])

prop("C12", "A limit on a search keeps the best matches",
"""A search limited to k values yields, as its first k matches, the same first k matches as the unlimited search (up to the order and choice among exact ties), for every k, range, box and proximity point.""",
["inputs"], "all store contents with many keys, all k, all queries",
"No test sets a limit that bites.",
["store.rs"], [("bounded priority queue of phrase streams", G+"store.rs")], [], ["GridStore::streaming_get_matching"])

prop("C13", "A search for one phrasematch gives each feature once, by its best tile",
"""Coalescing a single phrasematch gives one context per feature, with relevance the match's times the phrasematch's weight, at most 40 of them, sorted by relevance, score-distance, tile and id,
none 0.25 or more below the best. No feature is represented by a match that another of its matches beats (at least as relevant and of greater score-distance), and when there are more features than fit, the ones kept are at least as good as any left out.
This is decided by the matches that the search yields: all of them when they come in order of relevance, otherwise for up to 80 features.""",
["inputs", "configurations"], "all store contents (features on many tiles, tiles with many features), weights, boxes, proximity points and languages",
"Tests use four to ten features, mostly one tile each, so early stopping, replacement by a better tile and truncation to 40 are never reached.",
["coalesce.rs"], [("coalesce_single / tree_coalesce_single", G+"coalesce.rs"), ("coalesce: cut-off and de-duplication", G+"coalesce.rs")], [], ["coalesce", "stack_and_coalesce"])

prop("C14", "Stacked results are consistent stacks, ranked and cut off as documented",
"""Every context that coalescing a stack of several phrasematches returns is a legal stack: entries come from the stack's phrasematches, with pairwise disjoint masks, on tiles that contain one another across zooms;
its mask is their union and its relevance their sum, less 0.01 for a lone or ascending stack ending in the last phrasematch. Contexts are sorted best first, at most 40, each feature leads at most one, and none is more than 0.25 below the best.
The answer is the best of those contexts that arise when phrasematches are stacked in order of zoom and index, each match taking up from the tiles it lies in the entries whose masks are still free (and of one mask the most relevant);
so with two phrasematches every match of the second leads a stack on the most relevant match of the first that covers it, if the masks are disjoint. Of no phrasematches there are no contexts.""",
["inputs", "configurations"], "all stacks of 2 to 4 phrasematches over any stores, zooms (equal or different), masks and weights, with boxes, proximity points and languages",
"Tests cover two or three phrasematches over a handful of tiles.",
["coalesce.rs", "common.rs"], [("coalesce_multi", G+"coalesce.rs")], [("coalesced", "contexts by zoom and tile, built up from low to high zoom", "coalesce_multi")], ["coalesce"])

prop("C15", "Stack-and-coalesce returns only legal stacks, scored and sorted",
"""Every context returned for a list of phrasematches (through the tree search or the combined call) consists of matches of distinct, compatible phrasematches in order of their type, each on a tile containing the next one's tile,
labelled with its phrasematch's index, mask and match-key id. Its mask is the union, its relevance the sum of its entries' (less 0.01 for a stack of one, unless nothing can be stacked on it or below it, or an ascending one), contexts come sorted best first, and there are at most 800.
Where nothing can be stacked, those of one match key are at most 40 and none is more than 0.25 below the best.""",
["inputs", "configurations"], "all lists of phrasematches over any stores, types, zooms, masks, weights, exclusions and match keys; all boxes, proximity points and languages",
"Tests cover a few two- and three-phrasematch queries.",
["coalesce.rs", "stackable.rs"], [("tree_coalesce", G+"coalesce.rs")], [], ["tree_coalesce", "stack_and_coalesce"])

prop("C16", "Pruning never loses a result that belongs in the answer",
"""Within the documented limits (the 40 best contexts per tree node and match key, the 800 best in all, scans that a used-up quota refuses, and the skipping of slow prefix searches of leaves that cannot get above 75% of the best result so far) every legal stack that exists in the data is in the answer.
Neither stopping early, nor skipping stores whose bounding box does not meet the current results, nor caching of fetched data, nor collapsing of phrasematches drops or changes a context that ranks.""",
["inputs", "configurations"], "as for C15, with more nodes than a chunk, more contexts than the limits and nearby-only keys; every match key of the phrasematches has an id of its own",
"Tests have at most a few nodes, so chunking, early termination, limits and cache reuse never matter.",
["coalesce.rs", "stackable.rs"], [("tree_coalesce: queue of steps, early termination, bbox overlap, data cache", G+"coalesce.rs")],
[("steps", "tree nodes still to be processed, best first", "tree_coalesce"), ("contexts", "best 800 so far", "tree_coalesce"), ("data_cache", "match-key id -> matches", "tree_coalesce")], ["tree_coalesce", "stack_and_coalesce"])

prop("C17", "The tree of stackable phrasematches holds exactly the legal combinations",
"""The paths of the stacking tree are exactly the combinations of phrasematches, one per type at most and in ascending type order, whose masks are disjoint and no two of which exclude each other (exclusions being mutual).
Each node carries the union of the masks on its path, its phrasematch's index and zoom, and as its best possible relevance the greatest total weight of any path through it.""",
["inputs"], "all lists of phrasematches (any types, indexes, masks, weights, exclusion sets), as long as the tree has fewer leaves than the limit of 2000",
"Three tests with up to five phrasematches check node counts.",
["stackable.rs"], [("binned_stackable", G+"stackable.rs")], [], ["stackable"])

prop("C18", "An overfull stacking tree keeps the best combinations",
"""When the stackable combinations have more leaves than the limit (2000), a combination may only be left out if at least 2000 leaves whose weight is at least as great remain, and no more is kept than that takes (fewer than 2000 leaves are better than the worst one kept). The best combination is always kept, every remaining path is legal, and the tree stays connected to its root.""",
["inputs"], "all lists of phrasematches with more than 2000 combinations",
"No test builds a tree anywhere near the limit.",
["stackable.rs"], [("ArenaManager::add / cull_min", G+"stackable.rs")], [("relev_map, min_relev, total_leaves", "leaves by best relevance", "ArenaManager")], ["stackable"])

prop("C19", "Collapsing phrasematches groups them without losing any match key",
"""Collapsing a list of phrasematches merges exactly those with equal weight, index and mask: each group appears once, in the order of its first member, with everything else as in that member, and with the match keys of all its members in order.""",
["inputs"], "all lists of phrasematches with any number of match keys",
"One test with two phrasematches of one key each.",
["coalesce.rs"], [("collapse_phrasematches", G+"coalesce.rs")], [], ["collapse_phrasematches"])

prop("C20", "Search areas are translated between zooms without losing or moving tiles",
"""Translating match options to another zoom keeps the place: zooming out gives the tiles that contain the original box and proximity point, and zooming in gives exactly the box of all tiles inside the original ones and a point in the middle of the original tile.
So zooming in and back out returns the original options, and a box or point is present afterwards exactly when it was before.""",
["inputs", "configurations"], "all zooms from 0 to 16, all boxes and points within the grid of the zoom",
"Tests pin about fifteen examples.",
["common.rs", "spatial.rs"], [("MatchOpts::adjust_to_zoom, adjust_bbox_zoom", G+"common.rs")], [], ["MatchOpts::adjust_to_zoom", "global_bbox_for_zoom"])

prop("C21", "Nearby-only limits a search to the surroundings of the proximity point",
"""Restricting match options to nearby results gives a box around the proximity point that reaches the same number of tiles (25 miles, rounded up) to every side except where the grid or the original box cuts it off,
so it always contains the point when the original box does and never reaches outside the original box (it may include numbers beyond the edge of the grid, where there are no tiles). Without a proximity point the options are unchanged.""",
["inputs", "configurations"], "all zooms from 0 to 16, all points and boxes, also at the edges of the grid",
"Tests pin four examples, none at the far edge of the grid.",
["common.rs"], [("MatchOpts::with_nearby_only", G+"common.rs")], [], ["MatchOpts::with_nearby_only"])

prop("C22", "The bounded queue keeps the best elements it was given",
"""After any sequence of pushes and pops a bounded priority queue holds at most its maximum number of elements, and after pushes alone these are the greatest of all pushed (as a multiset). A push reports whether the element was kept,
and smallest, greatest, length, popping and listing from great to small agree with the contents.""",
["histories"], "all sequences of operations and all bounds including 0",
"No unit test touches it directly.",
["common.rs"], [("ConstrainedPriorityQueue", G+"common.rs")], [], ["ConstrainedPriorityQueue"])

prop("C23", "Grouping a sequence keeps every element and every boundary",
"""Grouping a sequence by a key yields groups that, strung together, are the original sequence; every group is non-empty, all its elements have the group's key, and neighbouring groups have different keys. It reads at most one element past the group it returns.""",
["inputs"], "all finite sequences and key functions",
"Two examples.",
["common.rs"], [("somewhat_eager_groupby", G+"common.rs")], [], ["somewhat_eager_groupby"])

prop("C24", "Parallel fetching never changes the answer",
"""The tree search and the combined call give exactly the same contexts in the same order whatever the number of worker threads, whatever the order in which the concurrent fetches get at their data, and however many queries run at the same time on shared stores.""",
["schedules"], "all completion orders of the fetches of a chunk, all worker pool sizes, concurrent queries on shared stores",
"Tests run one query at a time on data so small that the order of fetches has no effect.",
["coalesce.rs", "store.rs"], [("two-phase chunks with par_iter, results collected in order", G+"coalesce.rs")], [("data_cache", "written between the phases only", "tree_coalesce")], ["tree_coalesce", "stack_and_coalesce"])

prop("C25", "Storage failures are reported, not swallowed",
"""If any write to the database fails while a builder is being finished, finishing reports an error; if the database cannot be opened or read, opening the store or looking up a key reports an error.
None of these ever reports success with data missing, nor reports a failing key as absent, and a build whose finishing failed can be repeated: the store is then as if nothing had failed.""",
["fault_sequences"], "failure of any single write, or of all writes from some point on, and of any open or read, for all builder contents",
"No test injects a failure.",
["builder.rs", "store.rs"], [("? on every database call", G+"builder.rs")], [], ["GridStoreBuilder::finish", "GridStore::new", "GridStore::get"])

prop("C26", "An interrupted build never yields a store that contradicts itself",
"""If the process dies at any point while a builder is being finished, the part that was written either cannot be opened or opens as a store whose every key has exactly the entries loaded for it,
and whose range searches, also those aligned to bins, agree with its keys. It never pretends to have bins that are missing or incomplete. Building the same content again over what is left completes the store.""",
["crash_points"], "all prefixes of the sequence of database writes of a build, for all builder contents and boundaries",
"Tests only look at completed builds.",
["builder.rs", "store.rs"], [("boundaries are written last", G+"builder.rs")], [], ["GridStore over the database left by a prefix of the writes"])

prop("C27", "Potentially slow scans stay within their quotas",
"""One stack-and-coalesce query starts at most 8 single-letter prefix scans, 8 single-word prefix scans of high-zoom stores, 40 single-word prefix scans, 40 prefix scans of high-zoom stores and 600 scans of high-zoom stores in all, not counting nearby-only ones where documented,
and no data is scanned twice for the same match key, but once for a phrasematch on its own and once more if the same can be stacked on another. Quotas count the scans that are started: as long as a quota is not used up, no scan is refused because of it,
and where nothing is stacked a scan is only refused for scans of phrasematches of at least the same weight.""",
["inputs", "configurations"], "all lists of phrasematches, of any mixture of kinds, above and below every quota",
"No test comes near a quota.",
["coalesce.rs"], [("*_QUOTA counters in tree_coalesce", G+"coalesce.rs")], [("one_letter_range_count, ...", "scans of each kind so far", "tree_coalesce")], ["database scans started during tree_coalesce"])

prop("C28", "Open result streams do not disturb one another",
"""Matches or entries read from several searches, lookups and listings open on a store at the same time, advanced in any interleaving or dropped early,
are the same as when each is read alone, also after other streams or the query's inputs are gone.""",
["histories", "schedules"], "all interleavings of steps of several open streams on one or more stores",
"Tests read one stream at a time to its end.",
["store.rs"], [("decode_value / decode_matching_value own the value they borrow from", G+"store.rs")], [], ["GridStore::streaming_get_matching", "GridStore::get", "GridStore::iter"])

prop("C29", "Reading never changes a store",
"""Opening a store, looking up keys, searching, listing and querying leave the database as it was, byte for byte, however often and in whatever order they are done.
So any number of stores can be open over one directory at once, each with options of its own, and each gives the answers it would give alone; opening a directory that holds no store fails and makes none.""",
["histories", "configurations"], "all histories of opens, reads and closes, by any number of stores over one or more directories",
"Tests open one store over a fresh directory and never look at the database afterwards.",
["store.rs"], [("the database is opened for reading only", G+"store.rs")], [], ["GridStore::new", "GridStore::get", "GridStore::streaming_get_matching", "the database's files"])

NB = "native/src/gridstore.rs"

prop("C30", "The node binding does what the crate does",
"""Through the node binding everything means what it means in the crate. A language set is what its array of numbers names, numbers of 128 and more naming nothing, in any order and with repetitions;
null, undefined or absence stands for all languages, and listed keys have their languages in ascending order or none for all. Optional parts of questions and stores may be absent or undefined and then have their defaults,
a phrase is as long as its UTF-8 bytes, and a match key is nearby-only if it says so. What is loaded in any mixture of calls is found again, and a query is answered as the crate answers the same question.""",
["inputs", "histories"], "all builder contents, all ways to write a language set or an option, all questions to stores",
"The binding's tests go through one small fixture per call and compare a few fields.",
["native/src/gridstore.rs", "index.js"], [("deserialize_phrasematches, langarray_to_langfield", NB), ("GridStore.prototype.keys", "index.js")], [], ["GridStoreBuilder", "GridStore", "coalesce", "stackAndCoalesce", "stackable"])

prop("C31", "Wrong calls of the node binding throw and change nothing",
"""A call with a missing argument, with one of the wrong kind or out of its range, or on an object of another class throws an Error, at once; the process goes on, nothing is called back, and no builder or store has changed.
So does every call of a builder that was finished before: finishing happens once, whether or not it succeeds. Opening what was not finished throws, and so does a call during which the storage fails.""",
["inputs", "histories"], "all positions of wrong values in arguments, and all histories that mix wrong calls with proper ones",
"Tests make a few wrong calls, and do not look at what they left behind.",
["native/src/gridstore.rs", "native/src/fuzzy_phrase.rs", "index.js"], [("Option<builder>, taken when it is finished", NB)], [("builder", "open, or finished", "JsGridStoreBuilder")], ["GridStoreBuilder", "GridStore", "GridStoreKeyIterator", "FuzzyPhraseSetBuilder", "FuzzyPhraseSet", "coalesce", "stackAndCoalesce"])

prop("C32", "Queries call back exactly once, later, and outlive their stores",
"""A proper query returns nothing and calls back exactly once, after the call that asked it has returned, with the answer its question had when it was asked, however many queries are under way and in whatever order they end.
A query or key iterator goes on undisturbed when nobody holds its store any more and it is collected; an iterator gives each key of its store once, in order, then is done for ever, whatever other iterators do.""",
["schedules", "histories"], "all interleavings of queries, steps of iterators, dropped stores and garbage collections",
"Tests ask one query at a time and keep every store alive.",
["native/src/gridstore.rs"], [("Task for CoalesceTask / StackAndCoalesceTask", NB), ("KeyIterator owns its store", NB)], [("Arc<GridStore>", "shared by the JS object, queries and iterators", "GridStore")], ["coalesce", "stackAndCoalesce", "GridStoreKeyIterator", "GridStore.prototype.keys"])

prop("C33", "Phrases lead to their places through numbers, renumbering and bins",
"""Building a phrase set numbers phrases as they come, the same phrase always alike, and finishing it gives the map from these numbers to those of the sorted set. A grid store built with the first numbers and renumbered by that map has, under the number the finished set gives for a phrase,
the entries loaded for the phrase, also when its bins are the set's prefix bins: then a search over the range of a prefix finds what all phrases with it have.
Looking phrases up - exactly, by prefix, fuzzily, in windows, several at a time or by number - passes words, limits and kind of ending on unchanged and gives what the set has, as words, edit distance and range of numbers.""",
["inputs", "histories"], "all sets of phrases, orders of insertion, replacements, sizes of bins and questions",
"Tests use a dozen phrases; no test carries them into a grid store with bins.",
["native/src/fuzzy_phrase.rs", "native/src/gridstore.rs", "index.js"], [("FuzzyPhraseSetBuilder.finish", "native/src/fuzzy_phrase.rs"), ("renumber, loadBinBoundaries", NB), ("getPrefixBins", "native/src/fuzzy_phrase.rs")], [], ["FuzzyPhraseSetBuilder", "FuzzyPhraseSet", "GridStoreBuilder.renumber", "GridStoreBuilder.loadBinBoundaries"])

prop("C34", "A dumped store can be loaded again unchanged",
"""Dumping a store (dump_store) writes one JSON record for each of its keys, in key order, with the key's full language set and its entries in canonical order, and beside it the boundaries in ascending order.
Loading such a pair of files (load_store), from wherever they come and in whatever order, gives a store that answers every lookup, listing and search as the one that was dumped; of several records of a key the last counts, and blank lines mean nothing.
A dump or load during which reading or writing fails does not end as if it had succeeded.""",
["inputs", "crash_points"], "all contents and boundaries of stores, all files of the format, all failing reads and writes",
"No test dumps a store or loads a file; benchmarks load downloaded ones and look at times only.",
["test_utils/src/lib.rs", "test_utils/src/dump.rs", "test_utils/src/load.rs", "common.rs"], [("Serialize and Deserialize of GridKey and GridEntry", G+"common.rs"), ("GridStore::iter lists every key", G+"store.rs")], [], ["dump_db_to_json", "load_db_from_json", "dump_store", "load_store"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
