#!/usr/bin/env python3
"""Replay a counterexample on the unmodified code: replay.py FILE.json (exit 1 when it fails again)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import worker

with open(sys.argv[1], encoding='utf-8') as f:
    c = json.load(f)
p = worker.Plain(c['property'])
r = p.ask(c['harness'], c['values'], replay=True)
p.close()
print(json.dumps(r, indent=1, ensure_ascii=True))
sys.exit(1 if r['failures'] else 0)
