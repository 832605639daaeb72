"""Which machinery decides which property."""
from . import coalesce, dump, fmt, node, parts, stack, store

RUN = {"C01": fmt.run, "C02": fmt.run}
for p in "C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C25 C26 C28 C29".split():
    RUN[p] = store.run
for p in "C20 C21 C22 C23".split():
    RUN[p] = parts.run
for p in "C17 C18 C19".split():
    RUN[p] = stack.run
for p in "C13 C14 C15 C16 C24 C27".split():
    RUN[p] = coalesce.run
for p in "C30 C31 C32 C33".split():
    RUN[p] = node.run
RUN["C34"] = dump.run
RULES = {}

TRUST = " Trusts TLC and the stand-in crates that replace the unavailable ones (see DESIGN.md)."
STORE = ("TLA+ state machine of builders and stores; TLC exhausts a model that refines it to the tables, key bytes and writes "
         "of the code, and validates traces recorded from the real builder and store against it: ")
BOUND = ("The model is exhaustive for 2-3 phrases, 2-3 language sets, 3 entries and up to 3 loading calls; the real code is "
         "checked on histories TLC generates from the model and on random ones over the full value ranges. ")
SEARCH = ("The abstract store decides membership, scores and order of every recorded match, for random contents, boxes, points, "
          "zooms and languages biased to edges and ties. ")
TREES = ("TLA+ definition of legal stacks and a model of the way the tree is grown and culled, exhausted by TLC, and trees recorded from the "
         "real code validated against the definition: ")
COAL = ("TLA+ definition of coalescing over what the searches of the match keys yield; TLC exhausts models of the %s that refine it, "
        "and validates traces recorded from the real code against it: ")
ONE, MANY, TREE = "way single searches are cut short", "way stacks are built tile by tile", "queue of tree nodes, chunk by chunk"
NODE = ("TLA+ state machine of the objects of the node binding; the real binding is compiled against stand-ins for neon over Node-API, played in node, and the recorded "
        "calls validated against it: ")
OVER = " Trusts TLC, node and the stand-ins for neon, neon-serde and fuzzy-phrase (see DESIGN.md)."
PARTS = "TLA+ definitions and a small state machine, exhausted by TLC and validated against calls recorded from the real code: "
TEXT = {
    "C01": ("TLA+ model of the record writer (TLC, exhaustive for small bytes) + trace validation of the real writer and readers",
            "Exhaustive for the layout with 4-valued bytes; the real code is checked on records from the model, padded to every pointer-width and count-length boundary, and on random records. Trusts TLC and that the record module behaves as when compiled inside carmen-core."),
    "C02": ("TLA+ layout codec: TLC decodes the library's bytes and lays out records that the library must read",
            "Both directions against the specification's codec, for records from the model, at all width boundaries, and random ones. Trusts TLC."),
    "C03": (STORE + "loading histories and lookups", BOUND + TRUST),
    "C04": (STORE + "the order of every lookup and listing", BOUND + TRUST),
    "C05": (STORE + "pairs of loading histories with the same content answered alike", BOUND + TRUST),
    "C06": (STORE + "renumbering with good, short and colliding mappings", BOUND + TRUST),
    "C07": (STORE + "listings of keys and entries", BOUND + TRUST),
    "C08": (STORE + "range searches of stores with and without bins", BOUND + TRUST),
    "C09": (STORE + "membership of range searches in boxes", SEARCH + "Every box and point of some small grids is asked too." + TRUST),
    "C10": (STORE + "language, distance, score-distance and relevance of matches",
            SEARCH + "Score-distances are compared with the formula to 2% and with one another exactly." + TRUST),
    "C11": (STORE + "the order of matches",
            SEARCH + "The exact merge order is decided when no two streams share an entry; otherwise relevance and score order only." + TRUST),
    "C12": (STORE + "limited searches against unlimited ones", SEARCH + "Each query is asked with several limits." + TRUST),
    "C13": (COAL % ONE + "each feature once and by its best tile",
            "The model is exhaustive for 2-3 features and streams of up to 8 matches, and rejects four older designs. The real code is checked on up to 200 features and 600 matches per search; which features are kept is decided for searches that are monotone in relevance or have at most 80 features." + TRUST),
    "C14": (COAL % MANY + "the contexts that the level-by-level construction of the specification yields",
            "The model is exhaustive for 2-3 small stores. The real code is checked on stacks of 2 to 8 phrasematches of 2 to 4 stores at zooms 0 to 16; ties and contexts exactly 0.25 below the best may go either way." + TRUST),
    "C15": (COAL % TREE + "legality and relevance of every context of a tree",
            "The model is exhaustive for small trees, and rejects three older or wrong designs. The real code is checked on trees over up to 6 phrasematches with up to 3 match keys each, and crowded ones with up to 26 phrasematches and more than 800 contexts." + TRUST),
    "C16": (COAL % TREE + "completeness of the contexts of a tree, but for what the limits, quotas and skipped slow scans excuse",
            "As C15." + TRUST),
    "C24": ("TLA+ trace specification: one question has one answer, asked with pools of 1 to 8 threads, with fetches held back into chosen orders, and from 6 threads at once",
            "All answers to a question must be equal. Orders are forced at the database stand-in, per database, for up to 8 concurrent fetches." + TRUST),
    "C27": (COAL % TREE + "the scans started at the database, counted by kind against the quotas",
            "Every quota from one below to five above its limit, alone and mixed, with nodes that share scans; the model rejects three older or wrong designs. That a quota is fully used is decided from the scans that were started and the weights of what was refused." + TRUST),
    "C17": (TREES + "what the tree holds", "The model is exhaustive for up to 3 phrasematches of 3 types with all exclusions; the real code is checked on lists from it and on random ones of up to 14 phrasematches of 6 types." + TRUST),
    "C18": (TREES + "what an overfull tree drops", "The model is exhaustive for small limits on the number of leaves; the real code is checked with its limit of 2000 on lists with 1900 to 15000 combinations." + TRUST),
    "C19": ("TLA+ definition of collapsing, evaluated by TLC against recorded calls", "Random lists of up to 12 phrasematches, most of them alike but for one part." + TRUST),
    "C20": (PARTS + "translation between zooms", "The model is exhaustive on grids up to zoom 4 or 5; the real code is checked on every scenario of a smaller model and on random areas between all pairs of zooms 0 to 16, biased to edges and powers of two." + TRUST),
    "C21": (PARTS + "the surroundings of a point", "The model is exhaustive on grids up to zoom 3 with several paddings; the real code is checked on it, on all combinations of edge coordinates at every zoom and on random areas." + TRUST),
    "C22": (PARTS + "the bounded queue as a sequence of its best elements", "The model is exhaustive for 3 values and up to 8 operations; the real code is checked on all of those up to 5 or 6 and on random histories of up to 120 (some of thousands) of operations." + TRUST),
    "C23": (PARTS + "grouping as a state machine that looks one ahead", "The model is exhaustive for sequences of up to 7 (9) over 3 keys; the real code is checked on all up to 6 (7) and on random longer ones." + TRUST),
    "C25": (STORE + "single and lasting failures of writes, reads and opens injected at any point", BOUND + TRUST),
    "C26": (STORE + "the database cut after every write, also within a write, then opened and asked", BOUND +
            "Crash points are all prefixes of the log of writes (the stand-in database writes one log)." + TRUST),
    "C28": (STORE + "interleaved steps of several open streams", "Random interleavings of up to 6 searches, lookups and listings on one or two stores." + TRUST),
    "C29": (STORE + "the database's bytes before and after everything that reads, several stores at a time over one directory, and directories that hold none",
            "Random sequences of up to 25 openings, questions, half-read streams, closings and other builds." + TRUST),
    "C30": (NODE + "what every call of the binding means, and that it answers as the crate does",
            "Random histories of builders and random questions with every way to write languages, options and phrases; the crate is asked what the specification says a call means." + OVER),
    "C31": (NODE + "wrong calls of every kind between proper ones",
            "One wrong value per call at any place of its arguments, missing arguments, objects of other classes, and all calls of finished builders; fractional and negative languages are not covered." + OVER),
    "C32": (NODE + "when queries are answered and what outlives what. TLC exhausts a model of shared stores (which rejects two wrong designs) and generates histories from it",
            "Histories TLC generates from the model and random ones with up to 3 stores, 8 queries under way and 6 iterators; collection is forced between steps." + OVER),
    "C33": (NODE + "phrase sets, their renumbering and bins, and the grid stores built from them",
            "Sets of up to 40 phrases over few letters; the phrase crate itself is a stand-in, so only what the binding does with it counts." + OVER),
    "C34": ("TLA+ state machine of builders, stores and dump files; TLC exhausts a model in which every listing of a finished database, loaded again, gives the same bytes, "
            "and validates dumps and loads recorded from the real test_utils against the state machine",
            BOUND + "Files are read and written by the driver's own code; a full device is /dev/full." + " Trusts TLC and the stand-in crates, here also for rusoto and lz4, which only download." )
}


def run(ctx):
    RUN[ctx.prop](ctx)
