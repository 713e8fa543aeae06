#!/usr/bin/env python3
"""writes the 'fixed:' lines of known-findings.txt from the fix commits in /repo (run by hand, never by a check)"""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "60ff5e2": "C06", "627ed34": "C06", "4900247": "C06", "aeff5b8": "C06", "69f35e4": "C03", "b68aa0a": "C14", "b50fa55": "C28",
 "fdc67e7": "C13", "4c0ca28": "C14", "b5a830e": "C08", "450be23": "C12", "22ac70c": "C09", "130eae1": "C22", "e92d303": "C17",
 "852b98c": "C17", "e64508b": "C15", "2f3adb1": "C16", "b1a0c18": "C15", "643506f": "C28", "a931b9b": "C09", "f4d966d": "C28",
 "4d4d78f": "C09", "d055d29": "C25", "1e219fc": "C10", "996b1b6": "C10", "30fec64": "C10", "64cf3c3": "C10", "ebd2719": "C15",
 "7265f81": "C10", "ad1ccbc": "C18", "04d8bf2": "C24", "4d71097": "C25", "a899237": "C23", "8cc5e15": "C19", "6e4c213": "C19",
 "88428ed": "C20", "13d4eeb": "C19", "9ef8415": "C27", "a8f3904": "C10", "39547a1": "C10", "c49e2ec": "C15", "9293064": "C18"}
EXTRA = {"race with its next accept": "C25", "a failed compaction": "C19", "a candidate grants": "C16", "do not count prevotes": "C16", "keep the saved config": "C18",
         "do not look for a config": "C28", "covered by an installed snapshot": "C09", "starts in the compacted": "C14"}
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
ls = ["# Findings about datatechnology/cornerstone. 'fixed:' lines record repaired defects and suppress nothing;",
      "# 'known: property=<id> key=<history>:<rule(s)> <text>' lines name accepted findings; the history is scripts/known/<history>.txt.", "",
      "known: property=C03 key=config-lag:leader-complete scripts/known/config-lag.txt: a server whose background thread lags behind by two membership changes is elected by a quorum of a configuration that is two changes old and lacks a committed entry (a configuration is used only once it was applied)", ""]
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    p = PROP.get(h[:7])
    for k, v in EXTRA.items():
        if k in s:
            p = v
    assert p, l
    ls.append("fixed: property=%s %s %s" % (p, h, s[4:].strip()))
open(os.path.join(V, "known-findings.txt"), "w").write("\n".join(ls) + "\n")
print(len(ls) - 3)
