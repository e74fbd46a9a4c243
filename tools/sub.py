#!/usr/bin/env python3
"""usage: sub.py FILE  (stdin: OLD\n====\nNEW)  exact, unique replacement"""
import sys
f=sys.argv[1]; a,b=sys.stdin.read().rstrip("\n").split("\n====\n") if True else 0
s=open(f).read(); n=s.count(a)
if n!=1: sys.exit(f"{f}: {n} matches")
open(f,"w").write(s.replace(a,b))
