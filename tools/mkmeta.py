#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (one source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "3rd/log4cpp/src/"
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, note=None, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, na=na, observe=observe))
NOLOGTEST = "The existing tests exercise only the numeric algorithms; none of them logs from two threads or inspects a log destination."

P("P01", "Every enabled log message reaches each of its destinations once and intact",
  "When any number of threads log at the same time, through any of the logging calls and with text of any length, a destination attached to the message's category or (while forwarding to parents is on) one of its ancestors receives each message that is enabled for the category and passes the destination's threshold and filters exactly once, and no other message. The message arrives with its own text, category, priority, thread name, diagnostic context (or the context of a fixed context category), source position and a time within the call; written lines and dates carry the same values. One thread's messages arrive in the order it logged them, and a destination is never handed two messages at the same time.",
  ["schedules", "inputs", "configurations"], "all interleavings of logging threads, all category trees, levels, destinations, thresholds, filter chains, layouts and message texts",
  NOLOGTEST, [L + "Category.cpp", L + "CategoryStream.cpp", L + "AppenderSkeleton.cpp", L + "LoggingEvent.cpp", L + "NDC.cpp", L + "PatternLayout.cpp", L + "BasicLayout.cpp", L + "SimpleLayout.cpp", L + "StringUtil.cpp", L + "Filter.cpp", L + "FileAppender.cpp", L + "OstreamAppender.cpp", L + "StringQueueAppender.cpp"],
  [("per-category lock around delivery", L + "Category.cpp callAppenders"), ("thread-local diagnostic context", L + "NDC.cpp"), ("growing format buffer", L + "StringUtil.cpp vform")],
  "Seeded random search; a destination is attached to one category per run.")
P("P02", "Effective log levels follow the nearest set ancestor under any interleaving",
  "Whatever the order and interleaving in which threads create categories, set levels, clear levels and use temporary fixed-context categories, once they are done each category's effective level is its own level if one is set and otherwise that of its nearest ancestor with one, each name denotes exactly one category, and that category's parent is the one named by the part before the last dot. A logging call is delivered only if its priority was enabled at some moment during the call and suppressed only if it was disabled at some moment during it. The root level cannot be cleared.",
  ["schedules", "histories"], "all interleavings of category creation, level changes and logging calls over all category trees and level values",
  NOLOGTEST, [L + "Category.cpp", L + "HierarchyMaintainer.cpp", L + "FixedContextCategory.cpp", "3rd/log4cpp/include/log4cpp/Category.hh"],
  [("propagation of the chained priority to children", L + "Category.cpp setPriority/_updateChainedPriority"), ("category map lock", L + "HierarchyMaintainer.cpp")],
  "Seeded random search; in-flight judgement uses one level-changing thread.")
P("P03", "Destinations can be attached and detached while other threads log",
  "While threads log, other threads may attach, detach, re-attach and list destinations, detach all destinations of a category, or shut logging down, without deadlock, crash or use of a destroyed destination. A message logged after attaching returned and before detaching began is delivered exactly once, and nothing is delivered by a logging call that began after detaching returned. A destination handed over to the category is destroyed exactly once, when it is detached, never while it is receiving a message; a destination attached by reference is never destroyed, and attaching an attached destination again changes nothing.",
  ["schedules", "histories"], "all interleavings of attach, detach, sweep, shutdown, listing and logging operations",
  NOLOGTEST, [L + "Category.cpp", L + "Appender.cpp", L + "HierarchyMaintainer.cpp", L + "AppenderSkeleton.cpp"],
  [("lock held while delivering", L + "Category.cpp callAppenders"), ("ownership map", L + "Category.cpp removeAppender/removeAllAppenders"), ("global name registry", L + "Appender.cpp")],
  "Seeded random search over histories; interval (linearizability style) check against attach/detach intervals.")
exec(open(os.path.join(V, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta_more.py")) else None

def main():
    from props import PROPS as CFG
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["observe"]: a["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/vbuild.py P01 log4cpp", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: every seam (scheduler, locks, clock, files, devices, sockets, randomness, heap) is interposed at compile or link time in the simulator binary built by tools/vbuild.py from /repo's working tree. DESIGN.md describes the simulator, the properties and the findings."}
    for p in PROPS:
        if p["na"]: m["not_applicable"].append({"property": p["id"], "reason": p["na"]}); continue
        assert p["id"] in CFG, p["id"]
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": "deterministic simulation with fault injection: seeded search over simulated runs",
            "level": "exploration", "level_note": p["note"] + " Sampling, not enumeration; trusts the simulator's model of locks, clock, files and devices and the property's oracle."})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    import sys; sys.path.insert(0, os.path.join(V, "tools")); main()
