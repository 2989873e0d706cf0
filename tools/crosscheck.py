#!/usr/bin/env python3
"""Compare what the harness's writer says its streams contain with what llvm-bcanalyzer reads.

usage: crosscheck.py SIM_BINARY N        (not part of any check)
"""
import collections, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

sim, n = sys.argv[1], int(sys.argv[2])
tmp = tempfile.mkdtemp()
subprocess.run([sim, "emit", "0", str(n), tmp], check=True)


def one(i):
    if not os.path.exists(f"{tmp}/{i}.bc"):
        return "outside the analyzer's limits"
    want = []
    for l in open(f"{tmp}/{i}.txt"):
        k = l.split(" ", 2)
        if k[0] == "R":
            want.append(("R", int(k[1]), tuple(eval(k[2]))))
        elif k[0] == "B":
            want.append(("B", int(k[1])))
        else:
            want.append(("E",))
    p = subprocess.run(
        ["llvm-bcanalyzer", "--non-symbolic", "--disable-histogram", "--dump", f"{tmp}/{i}.bc"],
        capture_output=True, text=True, errors="replace")
    if p.returncode:
        return "error: " + p.stderr.strip().split("\n")[0][-80:]
    got = []
    for l in p.stdout.splitlines():
        m = re.match(r"\s*<(/?)(\S+?)(?:\s|/?>)", l)
        if not m or "BLOCKINFO" in l:
            continue
        if "NumWords=" in l:
            b = re.search(r"BlockID=(\d+)|UnknownBlock(\d+)", l)
            got.append(("B", int(b.group(1) or b.group(2))))
            if l.rstrip().endswith("/>"):
                got.append(("E",))
        elif m.group(1):
            got.append(("E",))
        else:
            c = re.search(r"codeid=(\d+)|UnknownCode(\d+)", l)
            if not c:
                return f"unreadable output: {i}"
            ops = tuple(int(x) % 2**64 for x in re.findall(r" op\d+=(-?\d+)", l))
            got.append(("R", int(c.group(1) or c.group(2)), ops, "blob" in l))
    if len(got) != len(want):
        return f"different: {i}"
    for g, w in zip(got, want):
        if g[0] == "R" and w[0] == "R" and g[1] == w[1]:
            # A blob's bytes are not among the operands.
            if g[2] == w[2] or g[3] and g[2] == w[2][: len(g[2])]:
                continue
            return f"different: {i}"
        if g != w:
            return f"different: {i}"
    return "same"


with ThreadPoolExecutor(6) as ex:
    for k, v in collections.Counter(ex.map(one, range(n))).most_common(20):
        print(v, k)
subprocess.run(["rm", "-rf", tmp])
