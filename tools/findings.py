#!/usr/bin/env python3
"""Writes known_findings.json: fixed defects (by commit subject) and known findings."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # property, commit subject, what failed
    ("C01", "disjoint pool: use the slab's real size as its end", "blocks in slabs larger than the minimum slab size were not recognised as slab blocks (wrong usable size, free as direct allocation)"),
    ("C01", "disjoint pool: reject aligned sizes that overflow", "size + alignment overflowed and a tiny block was returned for a huge aligned request"),
    ("C01", "disjoint pool: do not look for buckets above CutOff", "a maximum poolable size above 2 GiB indexed past the bucket array"),
    ("C09", "file provider: keep the file offset in step with the aligned mapping", "with a file-backed mapping aligned above the page size the offset of the file did not follow the mapping"),
    ("C09", "file provider: do not allocate past the end of the mapping", "size + alignment arithmetic let an allocation reach past the end of the current mapping"),
    ("C02", "scalable pool: fail calloc when num * size overflows", "calloc(num, size) with an overflowing product returned a small block"),
    ("C01", "disjoint pool: free the array of buckets in finalize", "the bucket array leaked with every destroyed pool"),
    ("C03", "disjoint pool: release the shared limits in finalize", "a destroyed pool kept its share of the shared limits for ever"),
    ("C06", "coarse: initialize the used flag of new blocks", "blocks from a fresh node had an uninitialised used flag"),
    ("C06", "coarse: reject allocations of size 0", "an allocation of size 0 produced an empty block that overlapped its neighbour's address"),
    ("C09", "file provider: do not merge blocks that are not adjacent in the file", "blocks adjacent in memory but not in the file were joined and then shared file pages"),
    ("C14", "critnib: do not skip subtrees that reach into the iterated range", "iteration with a lower bound skipped entries when keys differ in the top digit"),
    ("C14", "critnib: do not load a child twice when descending", "a concurrent removal made a lookup miss a key that stayed present"),
    ("C16", "linear base allocator: fail allocations whose pool size overflows", "a request near SIZE_MAX aborted (debug) or returned a small block (release)"),
    ("C16", "base allocator: return NULL when the underlying allocation fails", "an allocation aborted or dereferenced NULL when the system had no memory"),
    ("C16", "base allocator: reject sizes that do not fit in the metadata", "a block of 4 GiB or more was recorded with a truncated size"),
    ("C05", "tracker: find the segment to merge when other segments are nested in it", "merging provider blocks that contain nested pools' blocks aborted"),
    ("C05", "tracker: merging nested segments leaves one child fewer in the parent", "after a merge in a nested pool the parent block was never forgotten: lookups gave a stale pool"),
]
KNOWN = []  # dicts: id, property, what, replay, status="known", variant
sys.path.insert(0, os.path.join(V, "tools"))
try:
    from known_data import FIXED_MORE, KNOWN_MORE
    FIXED += FIXED_MORE
    KNOWN += KNOWN_MORE
except ImportError:
    pass
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
sub = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
fixed, used = [], set()
for pid, s, what in FIXED:
    k = "fix: " + s
    used.add(k)
    fixed.append("fixed: property=%s %s %s" % (pid, sub[k], what))
miss = [s for s in sub if s.startswith("fix:") and s not in used]
if miss:
    print("not recorded:", miss)
json.dump({"findings": KNOWN, "fixed": fixed}, open(V + "/known_findings.json", "w"), indent=1)
print(len(fixed), "fixed,", len(KNOWN), "known")
