#!/usr/bin/env python3
"""Writes mc/c23/src/names.rs and mc/c23/src/exprs.rs."""
import os, itertools
D = os.path.join(os.path.dirname(__file__), "..", "mc", "c23", "src")
# ---- names
with open(os.path.join(D, "names.rs"), "w") as f:
    f.write("// Generated by tools/gen_c23.py.\nuse stabby_abi::typenum2::*;\npub const NAMES: &[(&str, u128, u128, fn() -> &'static str)] = &[\n")
    def n(name, v):
        f.write(f'    n!({name}, {v}),\n')
    for i in range(1001):
        n(f"U{i}", i); n(f"Ux{i:X}", i); n(f"Ub{i:b}", i)
    for i in range(39):
        n(f"U10pow{i}", 10**i)
        if 10**i > 1000:
            n(f"U{10**i}", 10**i); n(f"Ux{10**i:X}", 10**i); n(f"Ub{10**i:b}", 10**i)
    for i in range(128):
        n(f"U2pow{i}", 2**i)
        if 2**i > 1000:
            n(f"U{2**i}", 2**i)
    f.write("];\n")
# ---- expressions
U, B = "u", "b"
def atoms():
    return [("U0", 0), ("U6", 6), ("crate::Id<U13>", 13), ("<crate::Of as crate::Is>::Five", 5) , ("Twelve", 12)]
BIN = {"+": lambda a, b: a + b, "-": lambda a, b: abs(a - b), "|": lambda a, b: a | b, "&": lambda a, b: a & b}
subs = []
at = [a for a in atoms() if not a[0].startswith("<")]
for op, g in BIN.items():
    for (x, a), (y, b) in [(at[1], at[2]), (at[3], at[1])]:
        subs.append((f"({x} {op} {y})", g(a, b)))
subs.append(("(crate::Id<U13> % U8)", 5))
subs.append(("((U6 == U6) ? Twelve : U0)", 12))
subs.append(("((U6 == U0) ? Twelve : U6)", 6))
conds = [("(U6 == U6)", True), ("(U6 == U0)", False), ("(!(U6 == U6))", False), ("(!(U6 == U0))", True),
         ("((U6 + U6) == Twelve)", True), ("((U6 - Twelve) == (U6 & U6))", True), ("(crate::Id<U13> == (Twelve + U6))", False)]
exprs = []
leaves = at + subs
for a in at:
    exprs.append((a[0], a[1]))
for op, g in BIN.items():
    for (x, a), (y, b) in itertools.product(leaves, leaves):
        exprs.append((f"{x} {op} {y}", g(a, b)))
for (x, a) in leaves:
    for p in (1, 2, 4, 8, 16):
        exprs.append((f"{x} % U{p}", a % p))
for (c, v) in conds:
    for (x, a), (y, b) in itertools.product(leaves[:8], leaves[-7:]):
        exprs.append((f"{c} ? {x} : {y}", a if v else b))
bits = []
for (x, a), (y, b) in itertools.product(leaves, leaves):
    bits.append((f"{x} == {y}", a == b))
for (c, v) in conds:
    bits.append((f"!{c}", not v))
    bits.append((f"!(!{c})", v))
with open(os.path.join(D, "exprs.rs"), "w") as f:
    f.write("// Generated by tools/gen_c23.py.\n")
    f.write("use crate::Twelve;\nuse stabby_abi::typenum2::*;\nuse stabby_macros::tyeval;\npub const EXPRS: &[(&str, u128, u128, fn() -> &'static str)] = &[\n")
    for e, v in exprs:
        f.write(f"    e!({v}, {e}),\n")
    f.write("];\npub const BITS: &[(&str, bool, bool, fn() -> &'static str)] = &[\n")
    for e, v in bits:
        f.write(f"    b!({str(v).lower()}, {e}),\n")
    f.write("];\n")
print(len(exprs), len(bits))
