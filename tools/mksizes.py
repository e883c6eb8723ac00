#!/usr/bin/env python3
"""Writes spec/SizeTable.tla: what the sizing formulas need to know about a grid of probabilities."""
import os, struct
from decimal import Decimal, getcontext
getcontext().prec = 80
LN2 = Decimal(2).ln()
P = [1.0, 0.99, 0.9, 0.8, 0.75, 0.6, 0.5, 0.3, 0.25, 0.1, 0.05, 0.02, 0.01, 0.001, 1e-4, 1e-5, 1e-6, 1e-9, 1e-12, 1e-30, 1e-100, 1e-300]


def limbs(n):
    return "<< " + ", ".join(str(n >> (8 * i) & 255) for i in range(8)) + " >>"


rows = []
for p in P:
    a = -Decimal(p).ln() / (LN2 * LN2)          # bits per entry of an optimal filter
    bc = 2000000000 if p == 1.0 else int(32768 / a)  # entries per bucket
    b = struct.pack("<d", p)
    rows.append('  "%s" :> [ bytes |-> << %s >>, a |-> %s, bc |-> %d ]  \\* %g'
                % (b[::-1].hex(), ", ".join(map(str, b)), limbs(int(a * 2 ** 48)), bc, p))
body = []
for i, r in enumerate(rows):
    x, c = r.split("  \\*")
    body.append(x + (" @@" if i < len(rows) - 1 else "") + "  \\*" + c)
out = """----------------------------- MODULE SizeTable -----------------------------
(* Made by tools/mksizes.py.  For a probability p (named by the hexadecimal  *)
(* form of its 64 bit floating point number): its bytes, |ln p| / (ln 2)^2   *)
(* times 2^48 as limbs, and 32768 (ln 2)^2 / |ln p|, all rounded down.       *)
EXTENDS TLC

PTable ==
%s

LN2_48 == %s  \\* ln 2 * 2^48
=============================================================================
""" % ("\n".join(body), limbs(int(LN2 * 2 ** 48)))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "SizeTable.tla"), "w").write(out)
