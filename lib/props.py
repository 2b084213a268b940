"""Per property: harness feature, entries, instances per tier, stated bounds."""

ASSUMPTIONS = [
    "rustc/LLVM IR of /repo, its dependencies and std (nightly, opt-level 2, overflow checks and debug assertions on) as compiled on this run; "
    "the engine's semantics of that IR, and z3 (cvc5 cross-check in the thorough tier), are trusted; counterexamples are replayed on a native build",
    "rayon-core is replaced by a model in which each join/scope runs its tasks in an order the engine chooses; rayon's iterators themselves are the real code",
    "the file system is modelled (files, offsets, mmap views, unlink); tempfile and serde are replaced by small stand-ins",
    "the hash is an uninterpreted function of the bytes the library feeds it (the height of interior nodes included); elements are 8 bytes",
]


def I(entry, _cost=1, **kw):
    opts = {}
    for k in ("flags", "time", "big", "witness", "reach", "shim_first", "hard", "cross"):
        if "_" + k in kw:
            opts[k] = kw.pop("_" + k)
    return dict(entry=entry, params=kw, cost=_cost, **opts)


PROPS = {}


def prop(pid, **kw):
    def deco(f):
        PROPS[pid] = dict(feature=pid.lower(), instances=f, **kw)
        return f
    return deco


VEC, DISK, MMAP, LC = 0, 1, 2, 3


def large(tier):
    """arity, rows, height of the subtree that is there"""
    return ((2, 33, 3), (4, 17, 2), (8, 12, 1)) if tier == "quick" else ((2, 33, 3), (2, 29, 4), (2, 36, 5), (4, 17, 2), (4, 18, 3), (8, 12, 1), (8, 12, 2))


@prop("C01", entries=["h_layout", "h_layout_lc", "h_blocks", "h_ranges", "h_std", "h_large"],
      reach={"h_large": ["large"], "h_std": ["std"], "h_ranges": ["ranges"], "h_blocks": ["blocks"], "h_layout": ["layout"], "h_layout_lc": ["layout_lc"]},
      bounds={"quick": "symbolic leaves; arity 2: 2^1..2^11 leaves, arity 4: 4^1..4^5, arity 8: 8^1..8^4; vec/disk/mmap stores x 13 constructors; arity 16: 16^1, 16^2, vec/disk; every range of trees up to 2^4/4^2/8^1 leaves; the provided 32-byte element type, vec/disk/mmap, 2^1..2^3, 4^1..4^2; "
                       "level-cache store built directly (5 constructors, every legal discard count) and over a whole tree (3 constructors, from a tree slice with every discard count) up to 2^6/4^3/8^3 leaves; "
                       "sources of 2^19 leaves (several 262144-leaf blocks) with symbolic leaves at the block boundaries and an interpreted hash; trees of 2^33, 4^17, 8^12 leaves in sparse files (nodes along one leaf's path symbolic; boundary and spread leaf positions): every reader, disk/mmap/level-cache stores",
              "thorough": "as quick, up to 2^14, 4^7, 8^5 leaves, block sources up to 2^20"},
      outside="building trees larger than these (larger ones are only read), element widths other than 8 (16 in memory) and 32 bytes, arities other than 2/4/8/16")
def c01(tier):
    r = []
    top = {2: 11, 4: 5, 8: 4} if tier == "quick" else {2: 14, 4: 7, 8: 5}
    for s in (VEC, DISK, MMAP):
        for a, m in top.items():
            for k in range(1, m + 1):
                n = a ** k
                if n <= 1100 or tier == "thorough":
                    r.append(I("h_layout", n, store=s, arity=a, k=k, how=99))
                else:
                    for h in (1, 5, 7, 12):
                        r.append(I("h_layout", n, store=s, arity=a, k=k, how=h, _witness=1))
    for a, ks in ((2, (2, 3, 4, 5, 6)), (4, (2, 3)), (8, (2, 3))):
        for k in ks:
            for d in range(0, k):
                r.append(I("h_layout_lc", a ** k, arity=a, k=k, discard=d))
            for h in (8, 9, 10):
                r.append(I("h_layout", a ** k, store=LC, arity=a, k=k, how=h))
    for s in (VEC, DISK):
        for k in (1, 2):
            for h in (7, 12) if k == 2 else (0, 7, 9, 12):
                r.append(I("h_layout", 16 ** k, store=s, arity=16, k=k, how=h))
    for a, k in ((2, 1), (2, 2), (2, 3), (2, 4), (4, 1), (4, 2), (8, 1)):
        for s in (VEC, DISK, MMAP):
            r.append(I("h_ranges", 20, store=s, arity=a, k=k))
        for d in range(k):
            r.append(I("h_ranges", 20, store=LC, arity=a, k=k, discard=d))
    for s in (VEC, DISK, MMAP):
        for a, k in ((2, 1), (2, 2), (2, 3), (4, 1), (4, 2)):
            r.append(I("h_std", 4 * a ** k, store=s, arity=a, k=k))
    for s in (DISK, MMAP, LC):
        for a, k, e in large(tier):
            r.append(I("h_large", 800, store=s, arity=a, k=k, height=e))
    for s in (VEC, DISK, MMAP):
        for h in (11, 12):
            r.append(I("h_blocks", 9000, store=s, arity=2, k=19, how=h, _witness=1))
            if tier == "thorough":
                r.append(I("h_blocks", 18000, store=s, arity=2, k=20, how=h, _witness=1))
    return r


NOT_APPLICABLE = {}
INJ = ["--inj"]


@prop("C02", entries=["h_order", "h_order_lc", "h_blocks"], reach={"h_blocks": ["blocks"], "h_order": ["order"], "h_order_lc": ["order_lc"]},
      bounds={"quick": "symbolic leaves; every order of the first 6 parallel splits and sequential/right-first/work-stealing orders for the whole build; 1..8, 12, 16, 24, 64, 100, 256 worker threads; "
                       "two chunks of a row (2^13 leaves) as real threads, preempted once at any file access or atomic operation; "
                       "trees of up to 2^13 / 4^6 / 8^4 leaves (several chunks per row); parallel leaf iterators of 2^19 leaves (several blocks; interpreted hash, symbolic leaves at the block boundaries)",
              "thorough": "as quick with the first 11 splits, two preemptions, and 1..33, 48, 64, 96, 100, 128, 255, 256, 1024 threads"},
      outside="more than one preemption inside tasks; preemption between other instructions (tasks share only files and atomics); larger trees")
def c02(tier):
    r = []
    b = 6 if tier == "quick" else 11
    for s in (VEC, DISK, MMAP):
        for a, k in ((2, 4), (2, 6), (4, 3), (8, 2)):
            for h in (1, 5, 7, 12):
                for m, bb, t in ((2, b, 4), (1, 0, 4), (4, 0, 3), (2, b, 16)):
                    if (m, t) == (2, 16) and h not in (5,):
                        continue
                    r.append(I("h_order", a ** k, store=s, arity=a, k=k, how=h, mode=m, budget=bb, threads=t, _shim_first=True, _witness=1))
    big = ((2, 13), (4, 6), (8, 4))
    for s in (VEC, DISK, MMAP):
        for a, k in big:
            for m in (1, 4):
                r.append(I("h_order", a ** k * 3, store=s, arity=a, k=k, how=7, mode=m, budget=0, threads=4, _shim_first=True, _witness=1))
    for a, k, ds in ((2, 13, (0, 3)), (4, 6, (0, 2)), (8, 4, (1,)), (2, 5, (0, 2)), (4, 3, (1,))):
        for d in ds:
            for m in (1, 4):
                r.append(I("h_order_lc", a ** k * 3, arity=a, k=k, discard=d, mode=m, budget=0, threads=4, _shim_first=True, _witness=1))
    # other numbers of workers
    for t in (1, 2, 5, 6, 7, 8, 12, 24, 64, 100, 256) if tier == "quick" else (*range(1, 34), 48, 64, 96, 100, 128, 255, 256, 1024):
        for s in (VEC, DISK, MMAP):
            for a, k, h in ((2, 5, 5), (4, 3, 7)):
                r.append(I("h_order", a ** k, store=s, arity=a, k=k, how=h, mode=1, budget=0, threads=t, _shim_first=True, _witness=1))
            if t in (1, 7, 12, 64):
                r.append(I("h_order", 30000, store=s, arity=2, k=13, how=7, mode=1, budget=0, threads=t, _shim_first=True, _witness=0))
        r.append(I("h_order_lc", 64, arity=4, k=3, discard=1, mode=1, budget=0, threads=t, _shim_first=True, _witness=1))
    # two chunks as two threads, preempted at I/O calls and atomic operations
    for s in (VEC, DISK, MMAP):
        for q in (1,) if tier == "quick" else (1, 2):
            r.append(I("h_order", 40000 * q ** 4, store=s, arity=2, k=13, how=7, mode=5, budget=0, threads=2, preemptions=q, points=3, _shim_first=True, _witness=2))
    for d in (0, 2):
        r.append(I("h_order_lc", 40000, arity=2, k=13, discard=d, mode=5, budget=0, threads=2, preemptions=1, points=3, _shim_first=True, _witness=2))
    for s in (VEC, DISK, MMAP):
        for h in (4, 5):
            for m, b in ((1, 0), (4, 0), (2, 2)):
                r.append(I("h_blocks", 9000 if m != 2 else 20000, store=s, arity=2, k=19, how=h, mode=m, budget=b, threads=4, _shim_first=True, _witness=1))
    return r


@prop("C03", entries=["h_proof", "h_large3"], reach={"h_large3": ["large"], "h_proof": ["proof"]},
      bounds={"quick": "symbolic leaves; every leaf of trees up to 64 leaves, boundary and spread positions above; 2^1..2^9, 4^1..4^4, 8^1..8^3, 16^1..16^2 leaves; vec/disk/mmap stores, level-cache stores over a whole tree; trees of 2^33, 4^17, 8^12 leaves in sparse files (nodes along one leaf's path symbolic; boundary and spread leaf positions), disk/mmap",
              "thorough": "up to 2^11, 4^5, 8^4 leaves, and every constructor"},
      outside="other trees larger than these; arities other than 2/4/8/16")
def c03(tier):
    r = []
    top = {2: 9, 4: 4, 8: 3} if tier == "quick" else {2: 11, 4: 5, 8: 4}
    for s in (VEC, DISK, MMAP):
        for a, m in top.items():
            for k in range(1, m + 1):
                r.append(I("h_proof", a ** k, store=s, arity=a, k=k, how=7))
    for a, k in ((2, 3), (4, 2), (8, 1)):
        for h in (0, 1, 2, 4, 5, 8, 10, 11, 12) if tier == "quick" else range(13):
            r.append(I("h_proof", a ** k, store=VEC, arity=a, k=k, how=h))
    for s in (VEC, DISK):
        for k in (1, 2):
            r.append(I("h_proof", 16 ** k, store=s, arity=16, k=k, how=7))
    for a, k in ((2, 1), (2, 3), (2, 5), (4, 1), (4, 2), (8, 1), (8, 2)):
        for h in (8, 9, 10):
            r.append(I("h_proof", a ** k, store=LC, arity=a, k=k, how=h))
    for s in (DISK, MMAP):
        for a, k, e in large(tier):
            r.append(I("h_large3", 500, store=s, arity=a, k=k, height=e))
    return r


TOPS = ((0, 2, 1, 1), (0, 2, 2, 2), (0, 2, 3, 2), (0, 2, 2, 5), (0, 4, 2, 2), (0, 4, 4, 2), (0, 4, 1, 4), (0, 8, 2, 3), (0, 8, 8, 1), (1, 2, 2, 3))


@prop("C04", entries=["h_sub", "h_top", "h_large4"], reach={"h_large4": ["large"], "h_sub": ["sub"], "h_top": ["top"]},
      bounds={"quick": "symbolic leaves, every leaf position; one layer: base arity 2/4/8, 1/2/3/4/5/8 components of up to 2^4/4^2/8^2 leaves; "
                       "two layers: (base,sub,top) arities (2,1,1) (2,2,2) (2,3,2) (2,2,5) (4,2,2) (4,4,2) (4,1,4) (8,2,3) (8,8,1) with up to 2^3/4^2/8 leaves; vec, some disk and mmap; compounds of trees of 2^33, 4^17, 8^12 leaves in sparse files (nodes along one leaf's path symbolic; boundary and spread leaf positions)",
              "thorough": "base trees up to 2^6/4^3/8^2 leaves"},
      outside="other arities, larger base trees")
def c04(tier):
    r = []
    top = {2: 4, 4: 2, 8: 2} if tier == "quick" else {2: 6, 4: 3, 8: 2}
    for a, m in top.items():
        for k in range(1, m + 1):
            for v in (1, 2, 3, 4, 5, 8):
                if a ** k * v <= 290:
                    r.append(I("h_sub", a ** k * v, store=VEC, arity=a, k=k, sub=v))
            r.append(I("h_sub", a ** k * 2, store=DISK, arity=a, k=k, sub=2))
    for k in (1, 2, 3):
        r.append(I("h_sub", 3 << k, store=MMAP, arity=2, k=k, sub=3))
    for s, a, v, w in TOPS:
        for k in range(1, (3 if a == 2 else 2 if a == 4 else 1) + (0 if tier == "quick" else 1)):
            if a ** k * v * w <= 290:
                r.append(I("h_top", a ** k * v * w, store=s, arity=a, k=k, sub=v, top=w))
    for k in range(1, 3 if tier == "quick" else 4):
        for s, a, v, w in TOPS:
            if a == 2:
                r.append(I("h_top", a ** k * v * w, store=s, arity=a, k=k, sub=v, top=w))
    for s in (DISK, MMAP):
        for a, k, e in large(tier):
            r.append(I("h_large4", 900, store=s, arity=a, k=k, height=e))
    seen, u = set(), []
    for i in r:
        key = (i["entry"], tuple(sorted(i["params"].items())))
        if key not in seen:
            seen.add(key)
            u.append(i)
    return u


@prop("C05", entries=["h_base", "h_sub5", "h_top5", "h_large5"],
      reach={"h_large5": ["large"], "h_base": ["accepted", "rejected"], "h_sub5": ["accepted", "rejected"], "h_top5": ["accepted", "rejected"]},
      assumptions=["the hash function is collision free (injective on the byte strings it is given)"],
      bounds={"quick": "every lemma element and 64-bit path entry of the proof symbolic, leaves symbolic; base trees 2^1..2^5, 4^1..4^3, 8^1..8^2; compounds of 2, 3, 8 trees; two-layer (2,2,2) (2,3,2) (4,2,2) (2,2,4); along the path of one leaf (every step of it possibly astray) of trees of 2^33, 4^16, 8^11 leaves",
              "thorough": "base trees up to 2^7, 4^4, 8^3; compounds one row deeper"},
      outside="other proofs of larger trees; proofs of another shape than the tree's (C12)")
def c05(tier):
    r = []
    x = 0 if tier == "quick" else 1
    for a, m in ((2, 5 + 2 * x), (4, 3 + x), (8, 2 + x)):
        for k in range(1, m + 1):
            r.append(I("h_base", a ** k * 2, arity=a, k=k, _flags=INJ))
    for a, m in ((2, 3 + x), (4, 2), (8, 1 + x)):
        for k in range(1, m + 1):
            for v in (2, 3):
                r.append(I("h_sub5", a ** k * v * 2, arity=a, k=k, sub=v, _flags=INJ))
    for k in range(1, 3 + x):
        r.append(I("h_sub5", 2 ** k * 16, arity=2, k=k, sub=8, _flags=INJ))
    for a, v, w in ((2, 2, 2), (2, 3, 2), (4, 2, 2), (2, 2, 4)):
        for k in range(1, (3 if a == 2 else 2) + x):
            r.append(I("h_top5", a ** k * v * w * 3, arity=a, k=k, sub=v, top=w, _flags=INJ))
    for a, k in ((2, 33), (4, 16), (8, 11)) if not x else ((2, 33), (2, 60), (4, 16), (4, 30), (8, 11), (8, 20)):
        r.append(I("h_large5", 600, arity=a, k=k, _flags=INJ))
    return r


@prop("C06", entries=["h_genuine", "h_arbitrary", "h_binding", "h_compound", "h_top6", "h_layered"],
      reach={"h_genuine": ["genuine"], "h_arbitrary": ["arbitrary"], "h_binding": ["bound"], "h_compound": ["compound"], "h_top6": ["top"], "h_layered": ["layered"]},
      assumptions=["the hash function is collision free (injective on the byte strings it is given), except for arbitrary proofs, where no such assumption is made"],
      bounds={"quick": "symbolic data, claimed datum, lemma and 64-bit path entries; trees up to 2^4, 4^2, 8^2 leaves, compounds of 2, 3, 4 trees, one two-layer compound; arbitrary proofs with 0, 1 and 2 compound layers",
              "thorough": "one row deeper"},
      outside="larger trees")
def c06(tier):
    r = []
    x = 0 if tier == "quick" else 1
    for a, m in ((2, 4 + x), (4, 2 + x), (8, 1 + x)):
        for k in range(1, m + 1):
            r.append(I("h_genuine", a ** k, arity=a, k=k, _flags=INJ))
            r.append(I("h_arbitrary", a ** k, arity=a, k=k))
            r.append(I("h_binding", a ** k, arity=a, k=k, _flags=INJ))
    for a, v in ((2, 2), (2, 3), (4, 2), (8, 4)):
        for k in range(1, {2: 3, 4: 2, 8: 1}[a] + 1):
            r.append(I("h_compound", a ** k * v, arity=a, k=k, sub=v, _flags=INJ))
            for two in (0, 1):
                r.append(I("h_layered", a ** k * v, arity=a, k=k, sub=v, two=two))
    for k in (1, 2):
        r.append(I("h_top6", 4 << k, k=k, _flags=INJ))
    return r


@prop("C07", entries=["h_full", "h_cache", "h_sub7", "h_top7", "h_csub", "h_ctop", "h_large7"],
      reach={"h_large7": ["large"], "h_csub": ["csub"], "h_ctop": ["ctop"], "h_full": ["full"], "h_cache": ["cached"], "h_sub7": ["sub"], "h_top7": ["top"]},
      bounds={"quick": "symbolic leaves; every leaf position (boundary and spread positions above 64 leaves) x every rows argument (none, any 64-bit number) x every legal number of discarded rows; 2^1..2^7, 4^1..4^4, 8^1..8^3; both formats; "
                       "2^9, 2^10 and 8^4 leaves with the greatest numbers of discarded rows (above the default); compounds of 2 and 3 full or compacted trees, two-layer (2,2,2) (2,3,2) (4,2,3); trees of 2^33, 4^17, 8^12 leaves in sparse files (nodes along one leaf's path symbolic; boundary and spread leaf positions): full, compacted with the base data, with the base data in an external file",
              "thorough": "up to 2^11, 4^5, 8^4; compounds one row deeper"},
      outside="other trees larger than these, other arities")
def c07(tier):
    r = []
    x = 0 if tier == "quick" else 1
    for a, m in ((2, 7 + 2 * x), (4, 4 + x), (8, 3)):
        for k in range(1, m + 1):
            r.append(I("h_full", a ** k, arity=a, k=k))
            for v in (1, 2):
                r.append(I("h_cache", a ** k * 2, arity=a, k=k, version=v))
    for a, v in ((2, 2), (2, 3), (4, 2), (8, 2)):
        for k in range(1, {2: 4, 4: 2, 8: 1}[a] + 1 + x):
            r.append(I("h_sub7", a ** k * v, arity=a, k=k, sub=v))
            for f in (1, 2):
                r.append(I("h_csub", a ** k * v * 2, arity=a, k=k, sub=v, version=f))
    for a, k, e in large(tier):
        for f in (0, 1, 2):
            r.append(I("h_large7", 800, arity=a, k=k, height=e, version=f))
    for f in (1, 2):
        for a, k, v in ((2, 9, 2),) if tier == "quick" else ((2, 9, 2), (2, 10, 2), (8, 4, 2)):
            r.append(I("h_csub", 3000, arity=a, k=k, sub=v, version=f, least=k - 2))
        for a, k in ((2, 9), (2, 10), (8, 4)) if tier == "quick" else ((2, 10), (2, 11), (8, 4)):
            r.append(I("h_cache", 3000, arity=a, k=k, version=f, least=k - 2))
    for a, v, w in ((2, 2, 2), (2, 3, 2), (4, 2, 3)):
        for k in range(1, {2: 3, 4: 1}[a] + 1 + x):
            r.append(I("h_top7", a ** k * v * w, arity=a, k=k, sub=v, top=w))
            for f in (1, 2):
                r.append(I("h_ctop", a ** k * v * w * 2, arity=a, k=k, sub=v, top=w, version=f))
    return r


@prop("C08", entries=["h_compact", "h_refused", "h_again", "h_others", "h_large8"],
      reach={"h_large8": ["large"], "h_compact": ["compact"], "h_refused": ["refused"], "h_again": ["again"], "h_others": ["others"]},
      bounds={"quick": "symbolic leaves; every legal discard count, every node (spread above 64) and every range of trees 2^1..2^5, 4^1..4^3, 8^1..8^2; all illegal 64-bit discard counts; both formats; the compacted file reopened by each way of opening (with config, by new_from_disk without a reader, with the reader set afterwards); trees of 2^33, 4^17, 8^12 leaves in sparse files (nodes along one leaf's path symbolic; boundary and spread leaf positions): compacted to the top one to three rows, and opened with a few rows discarded",
              "thorough": "up to 2^7, 4^4, 8^3"},
      outside="compacting larger trees to more rows; the process killed during a compaction (C21)")
def c08(tier):
    r = []
    x = 0 if tier == "quick" else 1
    for a, m in ((2, 5 + 2 * x), (4, 3 + x), (8, 2 + x)):
        for k in range(1, m + 1):
            for v in (1, 2):
                for rd in range(4):
                    if rd >= 2 and a ** k > 70:
                        continue
                    r.append(I("h_compact", a ** k * (8 if rd >= 2 else 1), arity=a, k=k, version=v, reader=rd))
                    for y in (1, 2):
                        if k <= (3 if a == 2 else 2 if a == 4 else 1) + x:
                            r.append(I("h_compact", a ** k * (8 if rd >= 2 else 1), arity=a, k=k, version=v, reader=rd, way=y))
            r.append(I("h_refused", a ** k, arity=a, k=k))
            r.append(I("h_again", a ** k, arity=a, k=k))
    for s in (0, 1):
        for k in (1, 3):
            r.append(I("h_others", 2 ** k, store=s, k=k))
    for a, k, e in large(tier):
        for v in (0, 1, 2):
            r.append(I("h_large8", 500, arity=a, k=k, height=e, version=v))
    return r


@prop("C09", entries=["h_disk", "h_rebuild", "h_wrong", "h_missing", "h_mmap", "h_mmap_wrong", "h_cache9", "h_other9", "h_large9", "h_readonly", "h_readonly_ext"],
      reach={"h_readonly": ["readonly"], "h_readonly_ext": ["readonly_ext"], "h_large9": ["large"], "h_disk": ["disk"], "h_rebuild": ["rebuild"], "h_wrong": ["wrong"], "h_missing": ["missing"], "h_mmap": ["mmap"], "h_mmap_wrong": ["mmap_wrong"], "h_cache9": ["cache"], "h_other9": ["other"]},
      bounds={"quick": "symbolic leaves, symbolic file size in bytes (0..2^40); every way of opening; 2^1..2^6, 4^1..4^3, 8^1..8^2 leaves; every discard count; both compacted formats; files that may not be opened for writing; compacted files opened for any other 64-bit number of discarded rows or any other length below 2^48; trees of 2^33, 4^17, 8^12 leaves in sparse files (nodes along one leaf's path symbolic; boundary and spread leaf positions): five ways of opening, six wrong sizes",
              "thorough": "up to 2^9, 4^4, 8^3 leaves"},
      outside="other trees larger than these; files of the right size with other contents")
def c09(tier):
    r = []
    x = 0 if tier == "quick" else 1
    for a, m in ((2, 6 + 3 * x), (4, 3 + x), (8, 2 + x)):
        for k in range(1, m + 1):
            for e in ("h_disk", "h_rebuild", "h_wrong", "h_mmap", "h_mmap_wrong", "h_readonly", "h_readonly_ext"):
                r.append(I(e, a ** k, arity=a, k=k))
            for v in (1, 2):
                r.append(I("h_cache9", a ** k, arity=a, k=k, version=v))
                r.append(I("h_other9", a ** k, arity=a, k=k, version=v))
    r.append(I("h_missing", 1))
    for a, k, e in large(tier):
        r.append(I("h_large9", 1000, arity=a, k=k, height=e))
    return r


@prop("C10", entries=["h_sub10", "h_top10", "h_wrong10", "h_wrong_top", "h_large10"],
      reach={"h_large10": ["large"], "h_sub10": ["sub"], "h_top10": ["top"], "h_wrong10": ["wrong"], "h_wrong_top": ["wrong_top"]},
      bounds={"quick": "symbolic leaves; all eight ways of composing; base arity 2/4/8, base trees up to 2^3/4^2/8^1 leaves, 2/3/4/5/8 components, two-layer (2,2,2) (2,3,2) (2,2,3) (4,2,4) (8,4,2) (4,2,2); "
                       "0..arity+2 components, any one of them of another shape; all 64-bit leaf indices outside the tree; vec/disk/mmap; compounds of trees of 2^33, 4^17, 8^12 leaves in sparse files (nodes along one leaf's path symbolic; boundary and spread leaf positions)",
              "thorough": "base trees one or two rows deeper"},
      outside="other arities; larger base trees; more than one odd component")
def c10(tier):
    r = []
    x = 0 if tier == "quick" else 1
    depth = {2: 3 + x, 4: 2 + x, 8: 1 + x}
    for s, a, v in ((0, 2, 2), (0, 2, 3), (0, 2, 8), (0, 4, 2), (0, 4, 5), (0, 8, 4), (1, 2, 2), (1, 2, 3), (1, 4, 2), (1, 8, 4), (2, 2, 3), (2, 4, 2)):
        for k in range(1, depth[a] + 1):
            for h in range(5):
                if h == 4 and s == 0:
                    continue
                r.append(I("h_sub10", a ** k * v, store=s, arity=a, k=k, sub=v, how=h))
    for s, a, v, w in ((0, 2, 2, 2), (0, 2, 3, 2), (0, 2, 2, 3), (0, 4, 2, 4), (0, 8, 4, 2), (1, 2, 2, 3), (1, 2, 3, 2), (1, 4, 2, 2), (2, 2, 2, 2)):
        for k in range(1, depth[a] + 1):
            for h in range(3):
                if h == 2 and s == 0:
                    continue
                r.append(I("h_top10", a ** k * v * w, store=s, arity=a, k=k, sub=v, top=w, how=h))
    for a, v in ((2, 2), (2, 3), (4, 3), (8, 2)):
        for k in range(1, (2 if a < 8 else 1) + x + 1):
            r.append(I("h_wrong10", a ** k * v * 9, arity=a, k=k, sub=v))
    for a, v, w in ((2, 2, 2), (2, 3, 2), (2, 2, 3), (4, 2, 2)):
        for k in range(1, 2 + x):
            r.append(I("h_wrong_top", a ** k * v * w * 9, arity=a, k=k, sub=v, top=w))
    for s in (DISK, MMAP):
        for a, k, e in large(tier):
            r.append(I("h_large10", 900, store=s, arity=a, k=k, height=e))
    return r


@prop("C11", entries=["h_leafs", "h_valid", "h_lens", "h_refused11", "h_arities", "h_lemmas", "h_generic", "h_powers"],
      reach={"h_powers": ["powers"], "h_leafs": ["legal", "illegal"], "h_valid": ["valid"], "h_lens": ["lens"], "h_refused11": ["few"], "h_arities": ["arities"], "h_lemmas": ["lemmas"], "h_generic": ["generic"]},
      bounds={"quick": "every leaf count and every tree length up to 2^48 (symbolic); every tree height up to 2^48 leaves; every 64-bit number of rows to discard; arities 2, 4, 8, 16, 32, 64 and every non-power of two up to 2^16; "
                       "proof lengths for every arity up to 1024 and 64 rows; compound lengths for eight (base,sub,top) shapes; next_pow2 up to 2^62, log2_pow2 of every power",
              "thorough": "as quick, also arities 128, 256, 512, 1024"},
      outside="leaf counts above 2^48 (products overflow near 2^63); lengths of trees of arity 1; floating-point logarithms are evaluated concretely, once per height")
def c11(tier):
    r = []
    for a in (2, 4, 8, 16, 32, 64) + (() if tier == "quick" else (128, 256, 512, 1024)):
        for e in ("h_leafs", "h_valid", "h_lens", "h_refused11"):
            r.append(I(e, 5, arity=a))
    return r + [I("h_arities", 1), I("h_lemmas", 1), I("h_generic", 1), I("h_powers", 1)]


@prop("C12", entries=["h_counts", "h_ragged", "h_slices", "h_reads", "h_shapes", "h_resized", "h_layers", "h_kinds", "h_arity", "h_hints", "h_lists", "h_compound12", "h_cached", "h_cached_counts", "h_large12"],
      reach={"h_large12": ["large"], "h_counts": ["counts"], "h_ragged": ["ragged"], "h_slices": ["slices"], "h_reads": ["reads"], "h_shapes": ["shapes"], "h_resized": ["resized"], "h_layers": ["layers"],
             "h_kinds": ["kinds"], "h_arity": ["arity"], "h_hints": ["hints"], "h_lists": ["lists"], "h_compound12": ["compound"], "h_cached": ["cached"], "h_cached_counts": ["cached_counts"]},
      bounds={"quick": "leaf counts 0..20 (arity 2), 0..70 (4, 8), twice under one name, ten constructors; every byte length up to one element beyond the right one; tree slices of 0..len+2 elements and ragged lengths x eight leaf counts; "
                       "node positions up to 2^48 and leaf positions up to 2^64-1 (symbolic), every out-of-range pair of bounds; proofs of 0..4 path steps and every lemma length up to 3 rows, compound layers of every shape up to arity+2; "
                       "0..5 configs x 0..5 offsets; vec/disk/mmap/level-cache stores; trees of 2^33, 4^17, 8^12 leaves in sparse files (nodes along one leaf's path symbolic; boundary and spread leaf positions): positions up to 2^48, wrong leaf counts",
              "thorough": "leaf counts 0..70 / 0..130 / 0..600, trees one row deeper"},
      outside="positions above 2^48 for single nodes (byte offsets overflow near 2^60); buffers of the wrong size; range readers that VecStore and MmapStore declare unimplemented")
def c12(tier):
    r = []
    x = 0 if tier == "quick" else 1
    for s in (VEC, DISK, MMAP):
        for a, top in ((2, 20), (4, 70), (8, 70)) if not x else ((2, 70), (4, 130), (8, 600)):
            r.append(I("h_counts", top * 5, store=s, arity=a, top=top))
        for a, m in ((2, 2), (4, 1), (8, 1)):
            for k in range(1, m + x + 1):
                r.append(I("h_ragged", a ** k * 4, store=s, arity=a, k=k))
                r.append(I("h_slices", a ** k * 16, store=s, arity=a, k=k))
                r.append(I("h_hints", a ** k, store=s, arity=a, k=k))
        for a, m in ((2, 3), (4, 2), (8, 2)):
            for k in range(1, m + x + 1):
                r.append(I("h_reads", a ** k, store=s, arity=a, k=k))
    for a, m in ((2, 3), (4, 2), (8, 2)):
        r.append(I("h_shapes", a * 4, arity=a))
        r.append(I("h_resized", a * 4, arity=a))
        r.append(I("h_cached_counts", 40, arity=a, top=20 if a == 2 else 36))
        for k in range(1, m + x + 1):
            r.append(I("h_cached", a ** k, arity=a, k=k))
    for s in range(5):
        r.append(I("h_layers", 4, shape=s))
    for a in (0, 1, 3, 5):
        r.append(I("h_arity", 8, arity=a))
    for s in (DISK, MMAP):
        for a, k, e in large(tier):
            r.append(I("h_large12", 5, store=s, arity=a, k=k, height=e))
    return r + [I("h_kinds", 2), I("h_lists", 4), I("h_compound12", 4)]


@prop("C13", entries=["h_ops", "h_shrink", "h_wide", "h_again", "h_holes", "h_far"], reach={"h_far": ["far"], "h_again": ["again"], "h_holes": ["holes"], "h_ops": ["ops"], "h_shrink": ["shrink"], "h_wide": ["wide"]},
      bounds={"quick": "every sequence of 2 operations (push, write_at, copy_from_slice of 0..2 elements, ragged slices, writes beyond the capacity at any 48-bit position, sync) on stores of capacity 3, empty or made from 0..3 elements, named and unnamed, "
                       "all positions and values; then every read of every element and range; compaction/reinit between operations for vec and mmap; overlapping slice writes of 1023 elements in every order; disk/mmap stores opened again between writes; compacted level-cache stores (6 layouts): every write changes that element only; vec/disk/mmap/level-cache; disk/mmap stores of 2^33+3 elements: two slices or elements and a push around the powers of two up to 2^33",
              "thorough": "sequences of 3 operations, capacity 3 and 7; slices of 4095 elements"},
      outside="longer histories; positions above 2^48; an empty slice written beyond the end; reads of positions below the length that were never written")
def c13(tier):
    r = []
    q = tier == "quick"
    for s in (VEC, DISK, MMAP, LC):
        for h in range(4):
            r.append(I("h_ops", 20, store=s, how=h, cap=3, steps=2 if q else 3))
            if not q:
                r.append(I("h_ops", 20, store=s, how=h, cap=7, steps=2))
        for h in (0, 1):
            r.append(I("h_wide", 2, store=s, how=h, cap=1023 if q else 4095))
    for s in (VEC, MMAP):
        for h in range(4):
            r.append(I("h_shrink", 60, store=s, how=h))
    for s in (DISK, MMAP):
        for k in (1, 2) if q else (1, 2, 3):
            r.append(I("h_again", 60, store=s, k=k, steps=1))
    for k in (1, 2, 3) if q else (1, 2, 3, 4):
        for d in range(k):
            for h in range(6):
                r.append(I("h_holes", 20, k=k, discard=d, how=h, steps=2 if k < 3 or not q else 1))
    for s, h in ((DISK, 0), (DISK, 1), (MMAP, 0), (MMAP, 1)):
        r.append(I("h_far", 400, store=s, how=h))
    return r


@prop("C14", entries=["h_producer", "h_par", "h_failed", "h_far14"], reach={"h_far14": ["far"], "h_producer": ["producer"], "h_par": ["par"], "h_failed": ["failed"]},
      bounds={"quick": "stores of 0..4 symbolic elements, every sub-range, every tree of up to two splits at every position, every interleaving of consumption from both ends; "
                       "rayon adapters (collect, rev, enumerate, filter, take/skip, chunks, zip, with_max_len, by value) on 0..8 elements, every order of the first 6 joins, and up to 600 elements in sequential/right-first/stolen order; vec/disk, named and unnamed; one failing read; pieces of a disk store of 2^33+5 elements at the powers of two",
              "thorough": "two splits of 4 elements; adapters on up to 16 elements with every order of the first 9 joins"},
      outside="longer stores; a parallel consumer's reaction to an element missing because of a failed read (the iterator's item type has no error)")
def c14(tier):
    r = []
    q = tier == "quick"
    for s in (VEC, DISK):
        for n, d in ((0, 2), (1, 2), (2, 2), (3, 1), (4, 1)) + (() if q else ((3, 2), (4, 2))):
            r.append(I("h_producer", 5 * n * d, store=s, n=n, depth=d, named=n & 1))
        for n in (0, 1, 2, 3, 5, 8) + (() if q else (12, 16)):
            r.append(I("h_par", 10 * n, store=s, n=n, named=n & 1, mode=2, budget=6 if q else 9, threads=4, _shim_first=True))
        for m in (0, 1, 4):
            r.append(I("h_par", 60, store=s, n=600, mode=m, threads=8, _shim_first=True, _witness=1))
    r.append(I("h_failed", 10))
    r.append(I("h_far14", 50))
    return r


@prop("C15", entries=["h_ints", "h_texts", "h_tuples", "h_defaults", "h_tree15", "h_element"],
      reach={"h_ints": ["ints"], "h_texts": ["texts"], "h_tuples": ["tuples"], "h_defaults": ["defaults"], "h_tree15": ["tree"], "h_element": ["element"]},
      bounds={"quick": "all values of every integer type, bool, char; byte vectors, slices and strings of 0..40 and of 63..65, 127..129, 255..257, 511..513, 1000, 1023..1025, 4095..4097 symbolic bytes; arrays of 0, 1, 3, 8, 16, 32, 33 bytes; slices of 0..3, 5, 7..9, 15..17, 31..33, 64, 65, 256, 257 values of each type; tuples of 0..12 fields, nested and mixed; references and pointers; "
                       "default methods with 0..9, 15..17, 31..33, 64, 65, 256, 257 symbolic children and any height; trees of up to 2^6/4^3/8^2 symbolic leaves hashed with the default methods by five constructors in vec/disk/mmap stores; [u8;32] elements through three stores",
              "thorough": "trees up to 2^10/4^5/8^3"},
      outside="longer texts and slices; big-endian targets (the encoding is the native one)")
def c15(tier):
    r = [I(e, 5) for e in ("h_ints", "h_texts", "h_tuples", "h_defaults", "h_element")]
    for s in (VEC, DISK, MMAP):
        for a, m in ((2, 6), (4, 3), (8, 2)) if tier == "quick" else ((2, 10), (4, 5), (8, 3)):
            for k in range(1, m + 1):
                r.append(I("h_tree15", a ** k, store=s, arity=a, k=k))
    return r


@prop("C18", entries=["h_iter", "h_counts18", "h_existing", "h_blocks18"], reach={"h_blocks18": ["blocks"], "h_iter": ["iter"], "h_counts18": ["counts"], "h_existing": ["existing"]},
      bounds={"quick": "every error position (spread above 64 leaves) of sources of 2^1..2^6, 2^11, 4^1..4^3, 8^1..8^2 symbolic leaves, a second error behind it, exact and loose size hints, then the same build again without the error; "
                       "sources that yield 0..2n+2 leaves; a failing source under an existing name; errors around the 262144-leaf block boundaries of sources of 2^19 leaves; vec/disk/mmap (named and unnamed) and level-cache stores",
              "thorough": "as quick, up to 2^12, 4^5, 8^4 leaves"},
      outside="process crashes during a build (the file left then has the full size)")
def c18(tier):
    r = []
    q = tier == "quick"
    for s in (VEC, DISK, MMAP, LC):
        for named in ((1,) if s == LC else (0, 1)):
            for a, ks in ((2, (1, 2, 3, 4, 5, 6, 11)), (4, (1, 2, 3)), (8, (1, 2))) if q else ((2, (1, 2, 3, 4, 5, 6, 8, 11, 12)), (4, (1, 2, 3, 4, 5)), (8, (1, 2, 3, 4))):
                for k in ks:
                    r.append(I("h_iter", a ** k, store=s, arity=a, k=k, named=named))
                    if a ** k <= 16:
                        r.append(I("h_counts18", a ** k, store=s, arity=a, k=k, named=named))
    for s in (DISK, MMAP):
        for a, k in ((2, 1), (2, 4), (4, 2)):
            r.append(I("h_existing", a ** k, store=s, arity=a, k=k))
    for s, named in ((VEC, 0), (DISK, 1), (MMAP, 1)):
        r.append(I("h_blocks18", 9000, store=s, k=19, named=named, _witness=1))
    return r


@prop("C19", entries=["h_names", "h_long_names", "h_two", "h_dirs", "h_unnamed", "h_none", "h_cached19"],
      reach={"h_names": ["names"], "h_long_names": ["names"], "h_two": ["two"], "h_dirs": ["dirs"], "h_unnamed": ["unnamed"], "h_none": ["none"], "h_cached19": ["cached"]},
      bounds={"quick": "every pair of names of 0..8 bytes other than '/' and NUL and pairs of about equal length between 16 and 240 bytes (symbolic); pairs of stores (vec/disk/mmap) under twelve pairs of similar names, both ways round, x build, compact, delete and rebuild, reopen, overwrite, deletion of the other; compacted stores; "
                       "equal names in two directories; unnamed stores of four kinds; all leaf values",
              "thorough": "names of 0..16 bytes"},
      outside="names containing '/' (they denote files in other directories); case-insensitive file systems")
def c19(tier):
    r = [I("h_names", 10, max=8 if tier == "quick" else 16), I("h_long_names", 5), I("h_dirs", 1), I("h_cached19", 2)]
    for m, o in ((0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2)):
        r.append(I("h_two", 3, mine=m, other=o))
    for s in range(4):
        r += [I("h_unnamed", 1, store=s), I("h_none", 1, store=s)]
    return r


@prop("C17", entries=["h_virtual", "h_file", "h_short", "h_counts17", "h_sub17", "h_top17", "h_reader", "h_large17", "h_stingy"],
      reach={"h_stingy": ["stingy"], "h_large17": ["large"], "h_virtual": ["virtual"], "h_file": ["file"], "h_short": ["short"], "h_counts17": ["counts"], "h_sub17": ["sub"], "h_top17": ["top"], "h_reader": ["reader"]},
      bounds={"quick": "symbolic leaves; a caller's reader at any offset up to 2^48 with the node's index symbolic (trees up to 2^4, 4^2, 8^1); files: nine offsets (aligned or not, beyond a page, beyond 64 KiB), every base node, ranges, every discard count, "
                       "proofs of every leaf (2^1..2^4, 4^1..4^3, 8^1..8^2); files of every byte length (2^1..2^3, 4^1, 8^1); compounds of 2, 3, 8 trees and two-layer compounds with the components anywhere in the file in any rotation; "
                       "0..5 configurations x 0..5 offsets; the reader itself for every small offset, start, length; a caller's reader that gives fewer bytes than asked and says so; trees of 2^33, 4^17, 8^12 leaves in sparse files (nodes along one leaf's path symbolic; boundary and spread leaf positions) at offsets up to 2^41, alone and in a compound of three",
              "thorough": "one row deeper"},
      outside="offsets beyond 2^48 (the sum with a position overflows); files changed while the tree is in use; larger trees")
def c17(tier):
    r = []
    x = 0 if tier == "quick" else 1
    for a, m in ((2, 4 + x), (4, 2 + x), (8, 1 + x)):
        for k in range(1, m + 1):
            r.append(I("h_virtual", a ** k * 8, arity=a, k=k))
    for a, m in ((2, 4 + x), (4, 3), (8, 2)):
        for k in range(1, m + 1):
            r.append(I("h_file", a ** k * 8, arity=a, k=k))
    for a, m in ((2, 3 + x), (4, 1 + x), (8, 1)):
        for k in range(1, m + 1):
            r.append(I("h_short", a ** k * 2, arity=a, k=k))
    for a in (2, 4, 8):
        r.append(I("h_counts17", a, arity=a))
    for a, v in ((2, 2), (2, 3), (4, 2), (8, 2), (2, 8)):
        for k in range(1, {2: 3, 4: 2, 8: 1}[a] + 1 + x):
            if a ** k * v <= 64:
                r.append(I("h_sub17", a ** k * v * 2, arity=a, k=k, sub=v))
    for a, v, w in ((2, 2, 2), (2, 3, 2), (4, 2, 3)):
        for k in range(1, {2: 2, 4: 1}[a] + 1 + x):
            if a ** k * v * w <= 64:
                r.append(I("h_top17", a ** k * v * w * 2, arity=a, k=k, sub=v, top=w))
    r.append(I("h_reader", 20))
    for a, m in ((2, 3 + x), (4, 2), (8, 1)):
        for k in range(1, m + 1):
            r.append(I("h_stingy", a ** k * 9, arity=a, k=k))
    for a, k, e in large(tier):
        r.append(I("h_large17", 3000, arity=a, k=k, height=e))
    return r


@prop("C16", entries=["h_build16", "h_read16", "h_read_lc", "h_open16", "h_open_lc", "h_compact16", "h_store16", "h_misc16"],
      reach={"h_build16": ["built", "build_failed"], "h_read16": ["read"], "h_read_lc": ["read_lc"], "h_open16": ["open"], "h_open_lc": ["open_lc"],
             "h_compact16": ["compacted", "compaction_failed"], "h_store16": ["store"], "h_misc16": ["misc"]},
      assumptions=["an I/O call fails as a whole (error, EINTR, or one byte less than asked); a failed resize or write changes nothing beyond the bytes it reports; mapped pages never fail"],
      bounds={"quick": "one failing, interrupted or short system call (open, read, write, resize, sync, map, rename, unlink) at every position of: builds by ten constructors (disk, mmap, level-cache; 2^1..2^3, 4^1..4^2, 8^1, 2^11 leaves), reads and proofs (full and compacted trees), "
                       "opening (full, compacted, external, compound), compaction (both formats, every legal discard count), store writes, creation and deletion; two such calls for the small ones; symbolic leaves",
              "thorough": "two calls everywhere, one row deeper"},
      outside="failures of stat; SIGBUS on mapped pages; process or power failure; larger trees")
def c16(tier):
    r = []
    q = tier == "quick"
    for s in (DISK, MMAP, LC):
        for a, ks in ((2, (1, 2, 3)), (4, (1, 2)), (8, (1,))):
            for k in ks:
                for h in range(10):
                    if s == LC and h in (0, 2, 4, 6, 7):
                        continue
                    r.append(I("h_build16", a ** k, store=s, arity=a, k=k, how=h))
                    if k == 1 or not q:
                        r.append(I("h_build16", a ** k * 4, store=s, arity=a, k=k, how=h, faults=2))
        for h in (1, 3, 5):
            r.append(I("h_build16", 2000, store=s, arity=2, k=11, how=h, _witness=1))
    for a, ks in ((2, (1, 2, 3, 4)), (4, (1, 2)), (8, (1,))):
        for k in ks if q else ks + (ks[-1] + 1,):
            r.append(I("h_read16", a ** k, arity=a, k=k))
            r.append(I("h_open16", a ** k, arity=a, k=k))
            for v in (1, 2):
                r.append(I("h_read_lc", a ** k * 2, arity=a, k=k, version=v))
                r.append(I("h_compact16", a ** k * 2, arity=a, k=k, version=v))
            if a ** k <= (8 if q else 64):
                r.append(I("h_open_lc", a ** k * 2, arity=a, k=k))
            if a ** k <= (4 if q else 16):
                for e in ("h_read16", "h_open16", "h_open_lc"):
                    r.append(I(e, a ** k * 8, arity=a, k=k, faults=2))
                for v in (1, 2):
                    r.append(I("h_read_lc", a ** k * 8, arity=a, k=k, version=v, faults=2))
                    r.append(I("h_compact16", a ** k * 8, arity=a, k=k, version=v, faults=2))
    for s in range(4):
        for f in (1, 2):
            r.append(I("h_misc16", 1, store=s, faults=f))
            for n in (0, 1):
                r.append(I("h_store16", 1, store=s, named=n, faults=f))
    return r


@prop("C20", entries=["h_shared", "h_shared_lc", "h_compound20"], reach={"h_shared": ["shared"], "h_shared_lc": ["shared_lc"], "h_compound20": ["compound20"]},
      assumptions=["threads interfere only at system calls, atomic operations and locks (the crate's readers are safe Rust over shared references)"],
      bounds={"quick": "two readers of one tree, each doing one of seven operations (node, node into a buffer, range, range into a buffer, proof, cached proof, last node) at one of five positions, every interleaving with up to 2 preemptions at file accesses and atomic operations; "
                       "two operations each, or three readers, with 1 preemption; vec, disk, mmap trees (2^1..2^3, 4^1, 8^1), compacted trees of both formats (2^2, 2^3, 4^1), compound trees over one external file; all leaf values",
              "thorough": "3 preemptions, trees one row deeper, two operations each with 2 preemptions"},
      outside="more threads or preemptions; weak memory orderings (atomics are sequentially consistent here); a reader concurrent with a writer (excluded by &mut)")
def c20(tier):
    r = []
    q = tier == "quick"
    pre = 2 if q else 3
    def S(entry, w, **kw):
        i = I(entry, w, **kw)
        i["ir_replay"] = True
        r.append(i)
    for f in range(7):
        for s, ks in ((VEC, (1, 2)), (DISK, (1, 2, 3)), (MMAP, (1, 2))):
            if s != DISK and f in (3, 5):
                continue
            for k in ks if q else ks + (ks[-1] + 1,):
                S("h_shared", k * 3, store=s, k=k, first=f, points=3, preemptions=pre)
        for a in (4, 8):
            S("h_shared", 8, store=DISK, k=1, arity=a, first=f, points=3, preemptions=pre)
        for v in (1, 2):
            for a, k in ((2, 2), (4, 2)) if q else ((2, 2), (2, 3), (4, 2)):
                S("h_shared_lc", 20, k=k, arity=a, discard=1, version=v, first=f, points=3, preemptions=pre)
        S("h_shared", 20, store=DISK, k=1 if q else 2, first=f, points=3, preemptions=1 if q else 2, each=2, places=2, ops=4 if q else 7)
        S("h_shared", 20, store=DISK, k=1, first=f, points=3, preemptions=1, threads=3, places=2, ops=4 if q else 7)
    for a, k in ((2, 1), (2, 2), (4, 1), (8, 1)):
        S("h_compound20", 8, arity=a, k=k, points=3, preemptions=pre)
    S("h_compound20", 8, arity=2, k=1, points=3, preemptions=1, threads=3)
    return r


@prop("C21", entries=["h_compact", "h_keep", "h_delete"],
      reach={"h_compact": ["compact", "compaction killed", "compaction repeated"], "h_keep": ["keep", "killed"], "h_delete": ["delete", "deletion killed"]},
      bounds={"quick": "symbolic leaves; the process is killed at any one system call (open, read, write - before it or half-way -, resize, sync, map, rename, unlink) of: compaction (2^1..2^4, 4^1..4^2, 8^1..8^2, every discard count, both formats), "
                       "opening, building again under the name (three constructors), proving and syncing of disk and memory-mapped trees, deletion; then everything a new process finds",
              "thorough": "as quick, up to 2^6, 4^3"},
      outside="a build that is killed (its file has the full size from the start and is not marked unfinished); power failure (unsynced data lost); larger trees")
def c21(tier):
    r = []
    x = 0 if tier == "quick" else 1
    for a, m in ((2, 4 + 2 * x), (4, 2 + x), (8, 2)):
        for k in range(1, m + 1):
            for v in (1, 2) if k > 1 else (2,):
                r.append(I("h_compact", a ** k * 10, arity=a, k=k, version=v))
    for a, ks in ((2, (1, 2, 3)), (4, (1, 2)), (8, (1,))):
        for k in ks:
            for s in (DISK, MMAP):
                r.append(I("h_keep", a ** k, arity=a, k=k, store=s))
    return r + [I("h_delete", 2, store=s) for s in (DISK, MMAP)]
