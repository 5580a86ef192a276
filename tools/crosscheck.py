#!/usr/bin/env python3
"""Development-time check of the simulator itself: filesystems that the
simulated mkfs and writer make must look right to e2fsck, and what e2fsck's
journal replay makes of a crashed medium must equal what the simulator's own
recovery makes of it. No registered check uses this (or e2fsprogs).

usage: tools/crosscheck.py FIRST LAST [journal]     (scratch: a temporary directory)
"""
import os, re, subprocess, sys, tempfile, collections
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sim = here + "/sim/target/release/sim"
first, last = int(sys.argv[1]), int(sys.argv[2])
journal = len(sys.argv) > 3
stat = collections.Counter()
with tempfile.TemporaryDirectory() as d:
    img = d + "/i"
    for seed in range(first, last + 1):
        for f in os.listdir(d):
            os.unlink(f"{d}/{f}")
        o = subprocess.run([sim, "image", str(seed), img] + (["1100"] if journal else []), capture_output=True, text=True)
        if "NOROOM" in o.stdout or "OVERFLOW" in o.stdout:
            stat["no room"] += 1
            continue
        if o.returncode:
            print(seed, "simulator failed", o.stderr[-300:]); stat["BAD"] += 1; continue
        bs = int(re.search(r"bs: (\d+)", o.stdout).group(1))
        if journal:
            # Replay only; then compare every block in use.
            subprocess.run(["/usr/sbin/e2fsck", "-y", "-E", "journal_only", img], capture_output=True)
            a, b = open(img, "rb").read(), open(img + ".exp", "rb").read()
            used = list(map(int, open(img + ".used").read().split()))
            skip = set(map(int, open(img + ".bk").read().split()))
            bad = [u for u in used if u not in skip and a[u*bs:u*bs+bs] != b[u*bs:u*bs+bs]]
            if "DISAGREE" in o.stdout or bad:
                print(seed, "differs in", bad[:10]); stat["BAD"] += 1
            else:
                stat["equal"] += 1
            continue
        e = subprocess.run(["/usr/sbin/e2fsck", "-fn", img], capture_output=True)
        t = (e.stdout + e.stderr).decode("latin1")
        if "unsupported feature" in t or "newer version of e2fsck" in t or "Corruption found in superblock" in t and "feature" in t:
            stat["feature unknown to e2fsck"] += 1
        elif e.returncode == 0:
            stat["clean"] += 1
        elif "internal node fails checksum" in t and bs == 65536:
            # rec_len of a 64 KiB block (65535 on disk) is not 65536 to it.
            stat["e2fsck: 64 KiB htree checksum"] += 1
        elif re.search(r"end of extent exceeds allowed value\n.*\n.*\n+.*\n.*len 4294967", t):
            # Index entries beyond the end of the file (preallocation).
            stat["e2fsck: index beyond end of file"] += 1
        else:
            stat["BAD"] += 1
            lines = [l for l in t.split("\n") if l.strip() and not l.startswith("Pass")][1:4]
            print(seed, e.returncode, lines, re.search(r"Geo \{.*?label", o.stdout).group(0)[:330])
print(dict(stat))
sys.exit(1 if stat["BAD"] else 0)
