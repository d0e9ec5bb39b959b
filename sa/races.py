"""C32: lockset analysis of the accesses sa/drivers/c32.c logs.

Every access of the code to memory allocated while an I/O thread object is set up comes with the object, the
bytes, whether it writes, whether it is a plain access (neither volatile nor atomic), the locks held and the role
of the thread.  Two accesses conflict when roles that run at the same time make them, their bytes overlap, one
of them writes, no lock is held in both and one of them is plain."""
import os
import ir

ROLES = {1: "the thread that destroys it", 2: "the I/O thread", 5: "the thread that creates it, once the I/O thread runs", 6: "a producer"}
TOGETHER = {(2, 6), (6, 2), (6, 6), (2, 5), (5, 2), (1, 2), (2, 1)}


def overlap(o1, s1, o2, s2):
    if o1 is None or o2 is None: return True
    if s1 is not None and o1 + s1 <= o2: return False
    if s2 is not None and o2 + s2 <= o1: return False
    return True


def rel(l):
    f, _, n = l.rpartition(":")
    return "%s:%s" % (os.path.relpath(f, ir.REPO) if os.path.isabs(f) else f, n)


def post(results):
    log = {}
    for r in results:
        for k, n in r["alog"]: log[tuple(tuple(x) if isinstance(x, list) else x for x in k)] = n
    acc = []
    for (tag, o, s, w, plain, locks, role, fn, loc) in log:
        for r in ([role] if role is not None else sorted(ROLES)):
            if r in ROLES: acc.append((tag, o, s, w, plain, frozenset(locks), r, fn, loc))
    acc.sort(key=lambda a: (a[0], a[1] or 0, a[8], a[6]))
    viol = {}; pairs = 0
    bytag = {}
    for a in acc: bytag.setdefault(a[0], []).append(a)
    for tag, l in bytag.items():
        for i, a in enumerate(l):
            for b in l[i:]:
                if (a[6], b[6]) not in TOGETHER or not (a[3] or b[3]) or not overlap(a[1], a[2], b[1], b[2]): continue
                pairs += 1
                if a[5] & b[5] or not (a[4] or b[4]): continue
                x, y = (a, b) if a[3] else (b, a)
                k = (x[7], y[7], x[8])
                if k in viol: continue
                viol[k] = {"rule": "C32.race", "loc": rel(x[8]), "function": x[7], "frames": [], "path": [], "entry": "races.py",
                           "msg": "%s writes offset %s of object %d (%s lock held) while %s may %s it at %s in %s: no lock is held in both and not both are volatile or atomic" % (
                               ROLES[x[6]], x[1], tag, "no" if not x[5] else "a", ROLES[y[6]], "write" if y[3] else "read", rel(y[8]), y[7])}
    roles = {r: sum(1 for a in acc if a[6] == r) for r in ROLES}
    for r in (1, 2, 6):
        if not roles[r]: raise ir.FrontEndError("no access of %s to the object was seen" % ROLES[r])
    shared = sorted({(t, a[1]) for t, l in bytag.items() for a in l for b in l if (a[6], b[6]) in TOGETHER and (a[3] or b[3]) and overlap(a[1], a[2], b[1], b[2])}, key=str)
    return list(viol.values()), {"accesses_by_role": {ROLES[r]: n for r, n in roles.items()}, "objects": len(bytag), "conflicting_pairs_judged": pairs,
                                 "shared_mutable_locations": ["object %d offset %s" % x for x in shared]}
