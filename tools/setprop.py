"""usage: python3 tools/setprop.py ID < json {"title","statement","note","why","text"}: edits tools/props.py (development helper)"""
import json, os, re, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")
s = open(p).read()
for pid, d in json.load(sys.stdin).items():
    i = s.index('prop("%s"' % pid)
    j = min(x for x in (s.find("\nprop(", i + 1), s.find("\ndef write", i)) if x > 0)
    lines = s[i:j].rstrip().split("\n")
    if "title" in d:
        lines[0] = 'prop("%s", %s,' % (pid, json.dumps(d["title"]))
    if "statement" in d:
        lines[1] = "     " + json.dumps(d["statement"]) + ","
    if "note" in d:
        m = re.match(r'(.*\], )"(?:[^"\\]|\\.)*"\)$', lines[-1])
        if m:
            lines[-1] = m.group(1) + json.dumps(d["note"]) + ")"
        else:
            m = re.match(r'\s*"(?:[^"\\]|\\.)*"\)$', lines[-1])
            assert m, lines[-1]
            lines[-1] = "     " + json.dumps(d["note"]) + ")"
    s = s[:i] + "\n".join(lines) + "\n" + s[j:]
open(p, "w").write(s)
