"""Exhaustive accept/reject tables: every program of a finite family is handed to the compiler; the compiler has to
accept it (produce an object file) or reject it (diagnostic, no output, orderly end) as the table says."""
import core


def explore(chk, repo, items, tag="", env=None):
    """items: [(key, source text, expected)] with expected True = accepted, False = rejected"""
    items = list(items)

    def one(it):
        if chk.enough():
            return None
        key, src, exp = it[:3]
        files = it[3] if len(it) > 3 else None
        r = repo.compile(src, out="obj", files=files, env=env)
        log = core.plain(r.log).strip()
        if r.timed_out:
            msg = "compiler does not end"
        elif r.crashed:
            msg = "compiler crashed (status %d): %s" % (r.rc, log[-300:])
        elif exp and not r.ok:
            msg = "valid program rejected: " + log[:400]
        elif not exp and r.ok:
            msg = "ill-formed program accepted: " + log[:200]
        elif not exp and not log:
            msg = "rejected without a message"
        else:
            msg = None
        r.clean()
        if msg and tag + key not in chk.known:
            chk.seen_bad += 1
        return msg

    n = {True: 0, False: 0}
    for it, msg in zip(items, core.pmap(one, items)):
        n[it[2]] += 1
        if msg:
            chk.violation(tag + it[0], "%s: %s" % (it[1].strip()[-300:], msg), {"csp": it[1], "expected": "accept" if it[2] else "reject", "observed": msg})
    chk.add("evaluations", len(items))
    chk.add("distinct_nontrivial", len({it[1] for it in items}))
    chk.add("accepted_programs", n[True])
    chk.add("rejected_programs", n[False])
    for it in items[:1] + items[len(items) // 2:len(items) // 2 + 1]:
        chk.sample({"csp": it[1][-300:], "expected": "accept" if it[2] else "reject"})
