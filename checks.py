"""Registry of the checks: which harness configurations decide which property."""
CHECKS = {}


def M(name, la, g, quick, thorough, lb=None, alloc=None, hits=None, faulty=False, thr=2, wt="", maxops=60, flags=(), libs=(), san=True, **kw):
    """a configuration of the stateful machine (src/machine_main.cpp)"""
    f = ["-DVF_LA=" + la, "-DVF_NAME=\"%s\"" % name, "-DVF_G=" + g]
    if lb:
        f.append("-DVF_LB=" + lb)
    if alloc:
        f.append("-DVF_ALLOC=" + alloc)
    if hits:
        f.append("-DVF_HITS=" + hits)
    if faulty:
        f.append("-DVF_FAULTY=true")
    f += ["-DVF_THR=%d" % thr, "-DVF_WT=\"%s\"" % wt, "-DVF_MAXOPS=%d" % maxops]
    d = dict(name=name, src="machine_main.cpp", flags=f + list(flags), libs=list(libs), quick=quick, thorough=thorough, san=san)
    if faulty:
        d["fault_target"] = 8
    d.update(kw)
    return d


def X(name, src, flags, quick, thorough, libs=(), san=True, **kw):
    """a dedicated harness"""
    return dict(name=name, src=src, flags=["-DVF_NAME=\"%s\"" % name] + list(flags), libs=list(libs), quick=quick, thorough=thorough, san=san, **kw)


def L(s):
    """'OU0 HN1 SQ' -> L<ID<OU,0>,ID<HN,1>,ID<SQ>>"""
    return "L<" + ",".join("ID<%s%s>" % (x[:2], "," + x[2:] if len(x) > 2 else "") for x in s.split()) + ">"


def fam(prefix, g, cfgs, quick, thorough, **kw):
    """cfgs: list of (index list, allocator, extra)"""
    out = []
    for c in cfgs:
        la, al = c[0], c[1]
        ex = dict(kw)
        if len(c) > 2:
            ex.update(c[2])
        lb = ex.pop("lb", None)
        name = prefix + "_" + la.lower().replace(" ", "")
        if lb:
            name += "_" + lb.lower().replace(" ", "")
        if not ex.get("san", True):
            name += "_fast"
        mul = 6 if not ex.get("san", True) else 1
        out.append(M(name, L(la), ex.pop("g", g), int(quick * mul * ex.get("scale", 1)), int(thorough * mul * ex.pop("scale", 1)), lb=L(lb) if lb else None, alloc=al, **ex))
    return out


FAST = dict(san=False)
S0, S8 = "TA<Val,0>", "TA<Val,8>"
ALL = "(G_INS|G_ERA|G_LOOK|G_MOD|G_HASH|G_SEQ|G_XSEQ|G_RND|G_COPY|G_NODE|G_XMERGE|G_ITER|G_BULK)"
MACHINE_RULE = ("A case is a random history of operations (%s) over three containers (four in configurations with a second, node-compatible container type) with random comparison/hash states, "
                "key domains and allocators; after every operation every container involved is compared in full with a plain-vector reference model. A case is non-trivial when at least %d events of this kind happened in it: %s. Distinctness is by hash of the whole case.")


SCALE_NOTE = " Scale configurations: bulk operations on containers of up to some ten thousand (few: over 100000) elements with regular and irregular 64-bit keys, sorts, merges, erasures, modifications, copies, bucket arrays of up to millions of buckets, each followed by a full comparison with a model made of std containers."
SCALE_RULE = " Scale configurations: a case is 1 to 12 bulk operations and is non-trivial when at least 2 of them involved many elements (more than 100 to 300, see features) or more than 40000 buckets."


def scale(p, k0, k1, q=3000, t=150000):
    d = ["-DVF_K0=" + k0, "-DVF_K1=" + k1]
    n = "%s_scale_%s_%s" % (p, k0.lower(), k1.lower())
    return [X(n, "scale.cpp", d, q // 10, t // 10), X(n + "_fast", "scale.cpp", d, q, t, san=False)]


def add(pid, level, technique, note, rule, targets, **kw):
    CHECKS[pid] = dict(level=level, technique=technique, note=note, rule=rule, targets=targets, **kw)


PBT = "stateful property-based testing against a reference model, with shrinking"
TRUST = " Assumes the reference model and the harness are right (both are exercised by planted bugs), a clang++ 18/libstdc++ build, and covers histories of up to about 75 operations on up to a few hundred elements of the listed index combinations; not exhaustive."

add("C01", "exploration", PBT,
    "Random histories over all operation groups on eight index combinations, full enumeration of every index after each step, compared as sets of element objects and with the model's order." + TRUST,
    MACHINE_RULE % ("all groups", 2, "any operation with a non-trivial effect (refused insertion, erasure of several, transfer, rollback, copy of non-empty containers ...)"),
    fam("c01", ALL, [("OU0 HN1 SQ", S8), ("HU0 ON1 RA", S0), ("RN0 RU1", "TA<Val,7>"), ("SQ RA HN2", "TA<Val,0,true>"),
                     ("RA RU0 HU2", S0, FAST), ("HU0 HU1 OU2", S8, FAST), ("SQ OU0 HN1 RA", S0, FAST), ("ON0 HU1", S0, dict(lb="OU1 HN0", san=False))], 8000, 250000))

G2 = "(G_INS|G_ERA|G_NODE|G_XMERGE|G_XSEQ|G_BULK)"
add("C02", "exploration", PBT,
    "Every insertion path (plain, hinted, range, emplace, initializer list, node handle, transfer) on containers with several unique indices; success, returned position, refusal and absence of any side effect are compared with the model." + TRUST,
    MACHINE_RULE % ("insertions of every form, erasures, node and merge transfers", 2, "an insertion refused by the first or only by a later index, or a partly refused range"),
    fam("c02", G2, [("OU0 HU1", S8), ("HU0 OU1 RU2", S0), ("SQ HU0 OU1", S8), ("RA HU0 RU1", S0), ("OU0 OU1 OU2", S8, FAST), ("HN0 OU1 SQ", S0, FAST), ("HU0 HU1", S8, FAST), ("ON0 HU1 OU2", S0, FAST), ("RU0 SQ RN1 HU2", S8, FAST)], 8000, 250000, hits="G_INS"))

G3 = "(G_INS|G_ERA|G_LOOK|G_MOD|G_BULK|G_COPY)"
add("C03", "exploration", PBT,
    "Order, lookup (find, count, contains, lower/upper bound, equal_range, range with all bound kinds, compatible keys and comparison objects) and hinted insertion of ordered indices under run-time comparison states." + SCALE_NOTE + TRUST,
    MACHINE_RULE % ("insertion, hinted insertion, erasure, lookup, modification, bulk growth, copies", 2, "a lookup with several equivalents, of an absent key between elements, a proper subrange, an inverted range, a compatible key selecting several classes, or a hinted insertion among several equivalents") + SCALE_RULE,
    fam("c03", G3, [("OU0", S8), ("ON0", S0), ("ON0 OU1", S8), ("RN0 ON1", S8), ("OU0 ON1 ON2", S8, FAST), ("SQ ON0", S0, FAST), ("HU0 OU1", S8, FAST), ("RU0", S8, FAST)], 10000, 300000, hits="G_LOOK") + scale("c03", "ON", "OU"))

G4 = "(G_INS|G_ERA|G_LOOK|G_MOD|G_BULK|G_COPY|G_NODE|G_XMERGE)"
add("C04", "exploration", PBT,
    "nth, rank, find_rank, lower/upper_bound_rank, equal_range_rank, range_rank of ranked indices are compared with positions after every operation, for every position." + SCALE_NOTE + TRUST,
    MACHINE_RULE % ("insertion, erasure, lookup, modification, bulk growth and shrinkage, copies, node transfer", 3, "bulk growth beyond 60 elements, bulk erasure from more than 40, lookups with several equivalents or subranges, transfers, moves within the order") + SCALE_RULE,
    fam("c04", G4, [("RN0", S8), ("RU0", S0), ("RU0 RN1", S8), ("SQ RN0", S8, FAST), ("HU0 RN1 RU2", S0, FAST), ("RN0 RN1", S8, FAST), ("ON0 RN0", S8, FAST), ("RN0 SQ", S0, dict(lb="RU1 SQ", san=False))], 6000, 200000, wt="BULK:8,ERASEHALF:7", thr=3) + scale("c04", "RN", "RU"))

G5 = "(G_INS|G_ERA|G_LOOK|G_MOD|G_HASH|G_BULK|G_COPY|G_NODE)"
add("C05", "exploration", PBT,
    "Hashed lookups (find, count, contains, equal_range, compatible keys and function objects), grouping of equivalents, every bucket's contents, bucket(), local iterators and load factor under rehash/reserve/max_load_factor, with hash functions from perfect to constant." + SCALE_NOTE + TRUST,
    MACHINE_RULE % ("insertion, erasure, lookup, modification, hashing policy, bulk growth, copies, nodes", 3, "lookups with several equivalents or colliding keys, rehash or reserve changing the bucket array, max_load_factor changes, elements changing groups") + SCALE_RULE,
    fam("c05", G5, [("HU0", S8), ("HN0", S0), ("HU0 HN1", S8), ("HN0 HN1 SQ", S8, FAST), ("OU0 HN1", S0, FAST), ("HN0 HU1", S8, FAST), ("HN0", "TA<Val,0,true>", FAST), ("RA HN0", S8, FAST)], 6000, 200000, hits="G_LOOK|G_HASH|G_BULK|G_MOD", thr=3, wt="REHASH:6,RESERVE:4,MLF:4,LOOK:10") + scale("c05", "HU", "HN") + scale("c05", "HN", "SQ", 2000))

G6 = "(G_INS|G_ERA|G_SEQ|G_XSEQ|G_MOD|G_BULK)"
add("C06", "exploration", PBT,
    "All list operations of sequenced indices (positional insertion, resize, assign, splice within and between containers, remove, unique, merge, sort, reverse, relocate, rearrange), next to unique and non-unique companion indices, against a vector model." + SCALE_NOTE + TRUST,
    MACHINE_RULE % ("insertions, erasures, list operations, transfers, modification", 3, "a list operation that changes something: several inserted, shrinking resize, moved element or range, removal of some, sorted, reversed, merged, transferred") + SCALE_RULE,
    fam("c06", G6, [("SQ", S8), ("SQ OU0", S0), ("HN0 SQ", S8), ("SQ SQ", S8), ("SQ HU0 ON1", S0, FAST), ("OU0 SQ", "TA<Val,0,true>", FAST), ("SQ RA", S8, FAST), ("SQ ON0", S0, dict(lb="SQ OU1", san=False))], 8000, 250000, hits="G_SEQ|G_XSEQ", thr=3) + scale("c06", "SQ", "OU"))

G7 = "(G_INS|G_ERA|G_SEQ|G_XSEQ|G_RND|G_MOD|G_BULK|G_COPY)"
add("C07", "exploration", PBT,
    "All operations of random access indices incl. at(), operator[], iterator arithmetic and ordering, capacity/reserve/shrink_to_fit and list operations, next to companion indices, against a vector model." + SCALE_NOTE + TRUST,
    MACHINE_RULE % ("insertions, erasures, list operations, transfers, random access, capacity, copies", 3, "as for C06, or iterator arithmetic over a distance, at() out of range, capacity changes") + SCALE_RULE,
    fam("c07", G7, [("RA", S8), ("RA OU0", S0), ("HN0 RA", S8), ("RA RA", S8), ("RA HU0 ON1", S0, FAST), ("OU0 RA", "TA<Val,0,true>", FAST), ("RA SQ", S8, FAST), ("RA ON0", S0, dict(lb="RA OU1", san=False))], 6000, 200000, hits="G_SEQ|G_XSEQ|G_RND", thr=3) + scale("c07", "RA", "HN"))

G8 = "(G_INS|G_ERA|G_MOD|G_ITER|G_BULK)"
add("C08", "exploration", PBT,
    "replace, modify and modify_key with and without rollback, through every index, with new values biased towards boundary positions and clashes; result, position in every index, identity of the object and removal compared with the model." + TRUST,
    MACHINE_RULE % ("insertion, erasure, replace/modify/modify_key", 3, "replace refused, clashing element erased, element restored or erased by rollback, element moved within an ordered index or between hash groups, or fitted in place"),
    fam("c08", G8, [("OU0", S8), ("ON0 HU1", S0), ("HN0 SQ", S8), ("OU0 OU1 ON2", S8), ("HU0 HU1", S0, FAST), ("RU0 RN1 RA", S8, FAST), ("HN0 HN1 ON2", S8, FAST), ("SQ RA OU0 HU1", S8, FAST)], 8000, 250000, hits="G_MOD", thr=3, wt="REPL:12,MODI:12,MODR:12,MODK:12"))

add("C09", "fault_enumeration", "property-based testing with systematic fault injection at every user-code and allocation point of a target operation",
    "For each random history one operation is chosen and the history is rerun once per fault point of that operation (every call of comparison, hash, equality, key extraction, copy, move, assignment, construction, allocation, modifier, predicate), until it completes without firing; the documented guarantee (strong/basic/nothrow, erasure rules of modify) is checked against the model, and the history continues afterwards." + TRUST,
    MACHINE_RULE % ("all groups; one target operation under fault enumeration, at most 600 fault points", 1, "an injected exception reached the caller"),
    fam("c09", "(G_INS|G_ERA|G_LOOK|G_MOD|G_HASH|G_SEQ|G_XSEQ|G_RND|G_COPY|G_NODE|G_XMERGE)", [("OU0 HN1 SQ", S8), ("HU0 ON1 RA", S0), ("RN0 RU1", "TA<Val,7>"), ("SQ RA HN2", "TA<Val,0,true>"),
                     ("RA RU0 HU2", S0, FAST), ("HU0 OU1", S8, FAST), ("ON0 HN1 SQ", S0, FAST), ("ON0 HU1", S0, dict(lb="OU1 HN0", san=False))], 5000, 120000, faulty=True, thr=1, maxops=30, hits="0u"))

G10 = "(G_INS|G_ERA|G_COPY|G_MOD|G_SEQ|G_HASH|G_XMERGE)"
add("C10", "exploration", PBT,
    "Copy and move construction (with and without another allocator), copy/move/initializer-list assignment, self-assignment and swap, with all propagation traits, unequal and always-equal allocators; contents, every index's order, function objects and allocators compared with the model, blocks checked against a per-allocator ledger." + TRUST,
    MACHINE_RULE % ("insertion, erasure, copies/moves/assignments/swaps, modification, list and hash operations", 2, "copy, move, assignment or swap of non-trivial containers, with equal or unequal allocators"),
    fam("c10", G10, [("OU0 HN1", S8), ("HU0 SQ", S0), ("RN0 RA", "TA<Val,7>"), ("ON0 HU1 RA", "TA<Val,1>"), ("SQ HN0", "TA<Val,2>", FAST), ("RA HN0", "TA<Val,4>", FAST), ("OU0 RU1 SQ", "TA<Val,6,true>", FAST), ("HN0 HN1", S0, FAST), ("HU0 RA ON1", "TA<Val,48>", FAST), ("OU0 SQ HN1", "TA<Val,24>", FAST)], 6000, 200000, hits="G_COPY", wt="CCPY:7,CMOV:7,ACPY:8,AMOV:8,SWAP:8,AIL:4,CTORR:4"))

G11 = "(G_INS|G_ERA|G_MOD|G_SEQ|G_HASH|G_COPY|G_NODE|G_XMERGE|G_XSEQ|G_ITER)"
add("C11", "exploration", PBT,
    "Iterators (and references) of every index are retained across later operations and re-checked after every step: element designated, equality with iterator_to, neighbours, also after their element moved to another container; project between all index pairs." + TRUST,
    MACHINE_RULE % ("all groups that insert, erase, move, splice, swap or rehash, with retained iterators", 2, "an iterator followed its element into another container or an iterator was projected"),
    fam("c11", G11, [("OU0 HN1 SQ", S8), ("HU0 RA", S0), ("RN0 SQ", "TA<Val,7>"), ("HN0 RA ON1", S8, FAST), ("SQ RA", S0, FAST), ("RU0 HU1 SQ", S8, FAST), ("ON0 HN1", S0, dict(lb="OU1 HU0", san=False)), ("HN0 HN1", S8, FAST)], 6000, 200000, hits="G_ITER"))

G12 = "(G_INS|G_ERA|G_NODE|G_XMERGE|G_XSEQ|G_MOD)"
add("C12", "exploration", PBT,
    "extract, node handle life cycle, insertion of handles (plain, hinted), merge and splice of whole/partial containers, between same-type and merely node-compatible containers, across equal and unequal allocators; no copies, losses or duplicates: object identity and live-object counts are checked at every step." + TRUST,
    MACHINE_RULE % ("insertion, erasure, node handles, merge and splice transfers", 2, "extraction, insertion or refusal of a node, handle overwritten/swapped/changed, transfers full, partial or refused"),
    fam("c12", G12, [("OU0 HU1", S8, dict(lb="ON1 HN0")), ("SQ OU0", S0), ("RU0 RA", S8, dict(lb="RN0 RA")), ("HU0 HN1 SQ", S0), ("ON0 SQ", S8, dict(lb="OU0 SQ", san=False)), ("HU0", "TA<Val,7>", FAST), ("RA HU0", S0, dict(lb="RA HN1", san=False)), ("OU0 RU1 HU2", S8, FAST), ("ON0 HN1 SQ", "TA<Val,48>", FAST)], 8000, 250000, hits="G_NODE|G_XMERGE|G_XSEQ"))

G13 = "(G_INS|G_ERA|G_SER|G_MOD|G_SEQ|G_BULK|G_HASH|G_COPY)"
SER = dict(flags=["-DVF_SER"], libs=["-lboost_serialization"])
SERF = dict(SER, san=False)
def AR(n, cfg, q, t, safe=False, san=True):
    return X("c13_archive_" + n, "archive.cpp", ["-DVF_CFG=%d" % cfg] + (["-DVF_SAFE"] if safe else []), q, t, libs=["-lboost_serialization", "-lboost_wserialization"], san=san)


add("C13", "exploration", PBT,
    "Containers are saved to and loaded from text, wide text, polymorphic text, binary and XML archives (also archives of the container's earlier class versions, derived from XML archives), alone or two in one archive, with versioned, nested and shared elements and pointers to elements, over empty and non-empty targets with other hash functions and allocators, with iterators and local iterators of every index saved along; also truncated archives and, in one configuration, exceptions at every fault point of save and load. Contents, every index's order and the elements designated by restored iterators are compared with the model." + TRUST + " Archives of older library versions are not covered.",
    MACHINE_RULE % ("insertion, erasure, modification, list operations, rehash, copies, save/load", 1, "a container of more than two elements restored, one loaded over a non-empty container, two containers in one archive, a truncated archive"),
    fam("c13", G13, [("OU0 HN1 SQ", S8, SER), ("HU0 RA", S0, SER), ("RN0 SQ", "TA<Val,7>", SERF), ("HN0 RA ON1", S8, SERF), ("SQ HU0 OU1", "TA<Val,0,true>", SERF), ("RA", S8, SERF), ("SQ RA", S8, SERF), ("HN0 HN1", S0, SERF), ("ON0 RN1", S8, SERF)], 2000, 60000, hits="G_SER", thr=1, wt="SER:14", maxops=40)
    + fam("c13f", G13, [("OU0 HN1 SQ", S8, SER), ("RA HN0", S0, SERF)], 600, 20000, hits="0u", thr=1, wt="SER:40", maxops=24, faulty=True)
    + [AR("records", 0, 500, 20000), AR("hashed_safe", 1, 400, 15000, safe=True), AR("shared", 2, 400, 15000), AR("records_safe_fast", 0, 1500, 60000, safe=True, san=False), AR("hashed_fast", 1, 3000, 100000, san=False), AR("shared_fast", 2, 3000, 100000, san=False)])

add("C16", "exploration", PBT,
    "Allocator ledger (each block returned once, with its size, to an equal allocator), element construct/destroy through the allocator, live-object counts and emptiness at the end, for plain and fancy-pointer stateful allocators over all operations." + TRUST,
    MACHINE_RULE % ("all groups", 2, "any operation with a non-trivial effect"),
    fam("c16", ALL, [("OU0 HN1 SQ", "TA<Val,0,true>"), ("HU0 RA", "TA<Val,3,true>"), ("RN0 SQ", S0), ("ON0 HU1 RA", "TA<Val,5>", FAST), ("SQ HN0", "TA<Val,7,true>", FAST), ("RA RU0", S0, FAST), ("HN0 OU1", "TA<Val,2>", FAST), ("ON1 RA HN0", S0, dict(flags=["-DVF_ALIGN=64"])), ("HU0 SQ", "TA<Val,0,true>", dict(flags=["-DVF_ALIGN=32"], san=False))], 6000, 200000)
    + fam("c16f", "(G_INS|G_ERA|G_MOD|G_HASH|G_SEQ|G_RND|G_COPY|G_NODE|G_XMERGE)", [("OU0 HN1 RA", "TA<Val,3,true>", FAST), ("SQ HU0 RN1", S8, FAST), ("HN0", S0), ("RU0 SQ", "TA<Val,1>", FAST)], 1200, 40000, faulty=True, thr=1, maxops=24, hits="0u")
    )

SAFE = dict(flags=["-DVF_SAFE=2"])
SAFEF = dict(SAFE, san=False)
MIS = lambda n, l, q, t, mo=False, san=False: X("c17m_" + n, "misuse.cpp", ["-DVF_LIST=IL<%s>" % l] + (["-DVF_MOVEONLY"] if mo else []), q, t, san=san)
add("C17", "exploration", PBT,
    "(a) The random histories of the other checks (all groups, with retained iterators) run with safe mode and invariant checking on: no report, same results as the model. (b) Random calls of every function taking iterators, with arguments freely valid, past-the-end, foreign, stale or singular, and with equal or unequal allocators: an oracle computes the applicable error codes from the preconditions; calls with none must pass, the others must be reported with one of them and leave every container unchanged; retained iterators are re-checked after every call (alive: usable, dead: reported)." + TRUST,
    "Machine configurations: as for C01, 2 events. Misuse configurations: a case is 10 to 80 random calls and is non-trivial when at least 3 of them were misuses that were reported. Distinctness by hash of the case.",
    fam("c17", ALL, [("OU0 HN1 SQ", S8, SAFE), ("HU0 RA", S0, SAFEF), ("RN0 SQ", "TA<Val,7>", SAFEF), ("SQ RA HN2", "TA<Val,0,true>", SAFEF), ("ON0 HU1", S0, dict(SAFEF, lb="OU1 HN0")), ("RA RU0", S8, SAFEF)], 1500, 60000)
    + fam("c17f", ALL, [("HU0 ON1 RA", S8, dict(flags=["-DVF_SAFE=1"], san=False))], 700, 20000, faulty=True, thr=1, maxops=30, hits="0u")
    + [MIS("ouhnsq", "OU,HN,SQ", 12000, 300000, san=True), MIS("rahuon", "RA,HU,ON", 40000, 1000000), MIS("rnra", "RN,RA", 30000, 1000000, mo=True), MIS("sqhnou", "SQ,HN,OU", 30000, 1000000, mo=True)])

G18 = "(G_INS|G_ERA|G_CMP|G_SEQ|G_COPY|G_MOD|G_BULK)"
add("C18", "exploration", PBT,
    "==, != of hashed indices and all six relational operators of the other kinds and of containers, over pairs that are equal, permuted, prefixes or slightly different, against element-wise comparison of the model's sequences." + TRUST,
    MACHINE_RULE % ("insertion, erasure, list operations, copies, comparison", 1, "a comparison of equal contents, of unequal contents of the same size, or of sequences of different size"),
    fam("c18", G18, [("OU0", S8), ("HN0 SQ", S8), ("HU0 RA", S8), ("SQ HN0", S8, FAST), ("RA ON0", S8, FAST), ("RN0 HU1", S8, FAST), ("HN1 RU0", S8, FAST), ("ON0 SQ", S8, dict(lb="OU1 SQ", san=False))], 6000, 200000, hits="G_CMP", thr=1, wt="CMPR:20,CCPY:6,ACPY:8", maxops=40))


CK = lambda n, q, t, san=False: X("c14_n%d%s" % (n, "" if san else "_fast"), "ckey.cpp", ["-DVF_N=%d" % n], q, t, san=san)
add("C14", "exploration", "property-based testing against a lexicographical reference order, with shrinking",
    "Random operations on containers whose indices are keyed on composite keys of 1 to 10 components (ordered, ranked, hashed; run-time ascending/descending/wrapped component comparisons; member, function and chained extractors): lookups by boost/std tuples, values, keys and partial keys of every length, the comparison operators of composite_key_result with tuples and results, composite_key_compare/hash/equal_to, modification; judged by a plain lexicographical reference." + TRUST,
    "A case is a random sequence of insertions, erasures, modifications, (partial) lookups and comparisons on a container with composite keys; it is non-trivial when at least 3 events happened in it such as a partial lookup selecting a proper subrange, a comparison decided by a late component or of tuples of different length. Distinctness by hash of the case.",
    [CK(1, 6000, 150000, True), CK(3, 6000, 150000, True), CK(2, 40000, 1000000), CK(4, 40000, 1000000), CK(5, 40000, 1000000), CK(7, 30000, 800000), CK(10, 30000, 800000)])

add("C15", "exploration", "property-based testing against direct access to the designated part, with shrinking",
    "Every predefined extractor (identity, member, member_offset, all mem_fun variants, global_fun by value/reference, key<> incl. noexcept and cv/ref-qualified overloads, explicit and macro forms, extractors of base classes, composite) applied to random objects through every documented form of access (object, const, reference_wrapper, chains of raw and smart pointers and iterators): value, identity of the referenced part, constness. Containers of V*, V**, shared_ptr, unique_ptr, reference_wrapper and an own smart pointer under random insert/erase/modify/modify_key histories against a model keyed on the pointees." + TRUST,
    "A case is a random history on a container of one of six pointer-like element types plus extraction from random objects; non-trivial when at least 2 of these happened: a key of a pointee changed by modify_key, a modification rolled back, a pointee modified, several pointees erased by one key. Distinctness by hash of the case.",
    [X("c15_keyex", "keyex.cpp", [], 10000, 300000), X("c15_keyex_fast", "keyex.cpp", [], 60000, 2000000, san=False)])


def CX(n, l, fancy, q, t, sel0=0, san=False):
    return X("c19_" + n, "complexity.cpp", ["-DVF_LA=" + L(l), "-DVF_FANCY=" + ("true" if fancy else "false"), "-DVF_HSEL0=%d" % sel0], q, t, san=san)


add("C19", "exploration", "property-based testing of operation costs (counting predicates, element operations, allocations and visited nodes) against the documented complexity bounds, with shrinking",
    "Histories of phases (growth by up to 20000 elements in seven key patterns through any insertion form and hint, range insertion, shrinkage from either end or at random, sliding windows, lookups of all kinds, modifications in place and not, rehash/reserve/capacity, list operations, copy/move/swap/merge) on mixed containers whose every predicate, element operation, allocation and (with a counting fancy pointer) node visit is counted per index; after each single operation the counts are compared with the documented bounds: worst-case for trees (red-black height, constant for good hints and unmoved keys, none for erasure, iteration and relocation) and amortized or averaged by a credit scheme for hashed indices and array growth; a constant hash function checks the worst case (number of groups). Bounds carry constant factors, so a change within these factors is not seen; time is not measured." + TRUST,
    "A case is a history of 3 to 8 phases on containers of up to 100..20000 elements; non-trivial when at least 2 of these events happened: growth by more than 200, well-hinted insertion into more than 64, lookups among more than 100, groups of more than 30, key changed in place or moved among more than 64, rehash/copy/sort of more than 100 etc. Distinctness by hash of the case.",
    [CX("ou0hn1sqrn2", "OU0 HN1 SQ RN2", True, 6000, 200000), CX("rahu0on1", "RA HU0 ON1", True, 6000, 200000, 1), CX("ru0hn2on1_raw", "RU0 HN2 ON1", False, 6000, 200000),
     CX("hu0hn1sq", "HU0 HN1 SQ", True, 6000, 200000, 1), CX("on1rn2ou0_raw", "ON1 RN2 OU0", False, 6000, 200000), CX("sqhn2ra_raw", "SQ HN2 RA", False, 5000, 150000), CX("hn1on0", "HN1 ON0", True, 6000, 200000), CX("ru0ou0_san", "RU0 OU0 RA", True, 500, 20000, san=True)])


def V(name, cxx, std, *flags, **kw):
    return dict(name=name, cxx=cxx, std=std, flags=list(flags), **kw)


NOCOMP = "-DBOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES"
SAFEM, INVC = "-DBOOST_MULTI_INDEX_ENABLE_SAFE_MODE", "-DBOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING"
LSER = dict(libs=["-lboost_serialization"])
V1 = [V("ref", "clang++", "c++17", "-O1", "-DTR_SER=1", **LSER),
      V("cpp98_O1", "clang++", "c++98", "-O1", optional=True),
      V("cpp11_moveonly_O0", "clang++", "c++11", "-O0", "-DTR_MOVEONLY=1"),
      V("gcc11_uncompressed_fancy_ser", "g++", "c++11", "-O0", NOCOMP, "-DTR_FANCY=1", "-DTR_SER=1", **LSER),
      V("cpp17_final_amp_align_safe_O0", "clang++", "c++17", "-O0", "-DTR_FUN=1", "-DTR_AMP=1", "-DTR_ALIGN=64", SAFEM),
      V("gcc14_state_minalloc_O2", "g++", "c++14", "-O2", "-DTR_FUN=2", "-DTR_MINAL=3"),
      V("gcc20_std_fancy_O0", "g++", "c++20", "-O0", "-DTR_FUN=3", "-DTR_FANCY=1"),
      V("cpp23_noexc_nortti_O1", "clang++", "c++23", "-O1", "-DTR_NOEXC", "-fno-exceptions", "-fno-rtti"),
      V("cpp17_uncompressed_pmr_invariants_ser", "clang++", "c++17", "-O0", "-DTR_MINAL=2", NOCOMP, SAFEM, INVC, "-DTR_SER=1", **LSER),
      V("cpp20_fancy_moveonly_safe_O0", "clang++", "c++20", "-O0", "-DTR_FANCY=1", "-DTR_MOVEONLY=1", SAFEM)]
V2 = V1 + [V("gcc98_O2", "g++", "c++98", "-O2", "-DTR_FUN=2", optional=True),
           V("gcc98_uncompressed_safe_invariants", "g++", "c++98", "-O0", NOCOMP, SAFEM, INVC, optional=True),
           V("gcc23_O3_amp", "g++", "c++23", "-O3", "-DTR_AMP=1"),
           V("cpp17_O3_fancy_ser", "clang++", "c++17", "-O3", "-DTR_FANCY=1", "-DTR_SER=1", **LSER),
           V("cpp23_O2_state_moveonly", "clang++", "c++23", "-O2", "-DTR_FUN=2", "-DTR_MOVEONLY=1"),
           V("gcc14_O2_final_uncompressed_moveonly", "g++", "c++14", "-O2", "-DTR_FUN=1", NOCOMP, "-DTR_MOVEONLY=1"),
           V("gcc20_O1_noexc_fancy", "g++", "c++20", "-O1", "-DTR_NOEXC", "-fno-exceptions", "-fno-rtti", "-DTR_FANCY=1"),
           V("gcc11_Os_ser_safe", "g++", "c++11", "-Os", "-DTR_SER=1", SAFEM, **LSER),
           V("cpp11_std_Os", "clang++", "c++11", "-Os", "-DTR_FUN=3"),
           V("cpp14_asan_fancy_uncompressed", "clang++", "c++14", "-O1", NOCOMP, "-DTR_FANCY=1", INVC)]
add("C20", "exploration", "differential property-based testing of build configurations against each other, with shrinking",
    "Each history (five containers covering all index kinds, all groups of operations, archives) is executed by shared objects built from the same program with other compilers, language standards, optimisation levels, node layouts, pointer types, element categories, "
    "function object kinds and checking modes; return values, positions, complete contents and orders, bucket contents and archives after each operation must agree with the reference build. Not covered: 32-bit targets and other compilers than clang 18 and gcc 13.",
    "A case is one history, an evaluation its execution by one variant next to the reference; a case is non-trivial when it has at least 10 operations of at least 5 kinds.",
    [X("c20_confdiff", "confdiff.cpp", [], 22000, 0, libs=["-ldl"], san=False, parts=V1, parts_src="trace.cpp"),
     X("c20_confdiff_all", "confdiff.cpp", [], 0, 1000000, libs=["-ldl"], san=False, parts=V2, parts_src="trace.cpp")])


def TH(n, cfg, cxx, safe, q, t, std="c++17"):
    return X("c21_" + n, "threads.cpp", ["-DVF_CFG=%d" % cfg, "-fsanitize=thread", "-pthread"] + (["-DVF_SAFE"] if safe else []), q, t, libs=["-lboost_serialization"], san=False, cxx=cxx, cxx_only=True, std=std, cost=3.0)


add("C21", "exploration", "property-based testing of multithreaded histories under ThreadSanitizer, compared with their sequential execution, with shrinking",
    "Random histories of parallel phases, in which 2 to 4 threads read shared containers (lookups, ranges, traversal, projection, buckets, ranks, comparison, copying, iterator copies kept and destroyed, archives) and change containers of their own (all kinds of modifiers, swaps, merges, node handles, between containers that exchanged elements, iterators or allocators before), alternating with changes by the main thread. Any data race ThreadSanitizer observes, deadlock, or result that differs from the sequential execution of the same history is a violation, in normal and in safe mode. The interleavings are those the scheduler produced (with random yields); ThreadSanitizer's happens-before analysis finds a race independently of the exact interleaving when both accesses occur in the phase. Trusts ThreadSanitizer of clang 18 and gcc 13.",
    "A case is a history of one to three parallel phases of 2 to 4 threads on five containers; it is non-trivial when at least two of these occurred: a phase of at least 6 steps with containers shared by the threads, a phase of at least 6 steps with several containers private to threads.",
    [TH("ouhnsqrn_safe", 0, "clang++", True, 5000, 100000), TH("hurackru_safe", 1, "clang++", True, 5000, 100000), TH("ouhnsqrn", 0, "clang++", False, 5000, 100000),
     TH("hurackru_gcc", 1, "g++", False, 4000, 80000), TH("sqhuonra_gcc_safe", 2, "g++", True, 4000, 80000, "c++20"), TH("sqhuonra", 2, "clang++", False, 4000, 80000)])


def FO(n, cfg, q, t, safe=False, san=True, **kw):
    return X("c22_" + n, "forms.cpp", ["-DVF_CFG=%d" % cfg] + (["-DVF_SAFE"] if safe else []), q, t, san=san, **kw)


add("C22", "exploration", "differential property-based testing of alternative forms of the same operation on twin containers, with shrinking",
    "Two pairs of containers go through the same history, each operation executed in independently drawn forms (overloads, n-copies/range/initializer-list/single-pass/looped variants, emplace or insertion or node handle or merge, lvalue/rvalue sources, index reached by number or tag, as member or free function, iterators projected from other indices, lookups with the key, convertible and transparent types or given predicates, range()/bounds/ranks/positions/traversals in every direction, copy/move/swap forms); reports and the complete contents of all indices must agree. Orders the documentation leaves open (hashed iteration order, equivalent elements after hinted insertion) are excluded.",
    "A case is a history of 10 to 79 operations on two pairs of containers with five indices; non-trivial when operations of different forms changed the state at least 3 times (or lookups met several equivalent elements or absent keys).",
    [FO("int", 0, 2500, 60000), FO("long_dup", 1, 2500, 60000), FO("string_transparent_safe", 2, 1500, 40000, safe=True), FO("record", 3, 2500, 60000), FO("move_only", 4, 2500, 60000),
     FO("int_fast", 0, 15000, 500000, san=False), FO("record_safe_fast", 3, 6000, 200000, safe=True, san=False), FO("move_only_fast", 4, 15000, 500000, san=False)])


def targets(pid, tier):
    return [t for t in CHECKS[pid]["targets"] if t.get(tier, 0) > 0]


def evidence(pid, tier, seed, r):
    c = CHECKS[pid]
    return dict(property=pid, tier=tier, seed=seed, level=c["level"], wall_s=round(r["wall"], 2), violations=len(r["violations"]),
                coverage=dict(evaluations=r["evaluations"], distinct_nontrivial=r["nontrivial"], rule=c["rule"], samples=r["samples"] or ["(no case reached the sampling rule)"],
                              cases=r["cases"], features=r["features"], cases_and_nontrivial_per_target=r["per_target"], shards_cut_short=r["truncated"], build_s=round(r["build"], 1),
                              violations=r["violations"], notes=r["notes"], known_findings=r["known"]),
                assumptions=[c["note"]])
