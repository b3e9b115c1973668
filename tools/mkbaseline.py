"""writes baseline.json: a digest of the syntax tree (no comments, docstrings, positions, no-op statements) of every module of the package.

Used by check.py for one thing only: an obligation the solver leaves undecided is an alarm when the code it was generated
from differs from the tree on which all of them were discharged, and is reported without an alarm when it does not."""
import ast
import hashlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def noop(s):
    return isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))


def strip(tree):
    for node in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            b = getattr(node, field, None)
            if isinstance(b, list):
                setattr(node, field, [s for s in b if not noop(s)])
    return tree


def digests(repo):
    out = {}
    for d, _, fs in os.walk(os.path.join(repo, "artemis")):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                try:
                    t = ast.dump(strip(ast.parse(open(p, encoding="utf-8").read())))
                except (SyntaxError, ValueError, OSError) as e:
                    t = "unreadable %s" % e
                out[os.path.relpath(p, repo)] = hashlib.sha256(t.encode()).hexdigest()
    return dict(sorted(out.items()))


if __name__ == "__main__":
    json.dump(digests(sys.argv[1] if len(sys.argv) > 1 else "/repo"), open(os.path.join(HERE, "baseline.json"), "w"), indent=1)
