#!/usr/bin/env python3
"""Show a replay file briefly: the rejected event, what came before it, and the tool's words."""
import json, sys
d = json.load(open(sys.argv[1]))
l = d["rejected_event_index"]
print(d["property"], d["spec"], d["driver"], "event", l, "of", len(d["trace"]))
for e in d["trace"][max(0, l - int(sys.argv[2]) if len(sys.argv) > 2 else l - 5):l]:
    print("  ", json.dumps(e)[:400])
print("script head:", (d["script"] or [])[:3])
print(d["spec_state_before"][:1500])
print((d["stderr"] or "")[:2500])
