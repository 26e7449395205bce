"""Mechanical scan of the contracts for everything which is assumed rather than proved."""
import os
import re


def scan(vc_dir):
    out = []
    for f in sorted(os.listdir(vc_dir)):
        if not f.endswith(".vc"):
            continue
        lines = open(os.path.join(vc_dir, f)).read().splitlines()
        cur = ""
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith("@file "):
                cur = s[6:]
            if s.startswith("@trusted "):
                out.append("%s: body not verified: %s (%s)" % (f, s[9:], cur))
            elif "assume_specification" in s:
                m = re.search(r"\[\s*(.*?)\s*\]\s*\(", s)
                out.append("%s: assumed contract of a dependency: %s" % (f, m.group(1) if m else s))
            elif re.search(r"\baxiom fn (\w+)", s):
                out.append("%s: axiom %s" % (f, re.search(r"\baxiom fn (\w+)", s).group(1)))
            elif re.search(r"\b(assume|admit)\s*\(", s) and not s.startswith("//"):
                out.append("%s:%d: %s" % (f, n + 1, s))
            elif "external_body" in s:
                for k in range(n + 1, min(n + 6, len(lines))):
                    m = re.search(r"\b(fn|struct|enum) (\w+)", lines[k])
                    if m:
                        out.append("%s: body not verified: %s" % (f, m.group(2)))
                        break
            elif re.search(r"uninterp spec fn (\w+)", s):
                out.append("%s: uninterpreted: %s" % (f, re.search(r"uninterp spec fn (\w+)", s).group(1)))
    return out


if __name__ == "__main__":
    print("\n".join(scan(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts"))))
