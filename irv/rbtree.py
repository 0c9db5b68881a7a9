"""Contract of libstdc++'s red-black tree primitives (std::map, std::set): in-order navigation, insertion, unlinking.
Balance is not modelled: the tree is any binary search tree, the header is red and the root black."""
from models import rt
from execu import Ptr, NULL
from ll import I32, PTR
def P(p, o): return Ptr(p.obj, p.off + o)
def par(ex, n): return ex.load(P(n, 8), PTR)
def left(ex, n): return ex.load(P(n, 16), PTR)
def right(ex, n): return ex.load(P(n, 24), PTR)
def sp(ex, n, v): ex.store(P(n, 8), PTR, v)
def sl(ex, n, v): ex.store(P(n, 16), PTR, v)
def sr(ex, n, v): ex.store(P(n, 24), PTR, v)
def eq(a, b): return a.obj is b.obj and (a.obj is None or a.off == b.off)
def nul(a): return a.obj is None
@rt("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base")
def inc(ex, a, rt_, n):
    x = a[0]
    if not nul(right(ex, x)):
        x = right(ex, x)
        while not nul(left(ex, x)): x = left(ex, x)
        return x
    y = par(ex, x)
    while eq(x, right(ex, y)): x = y; y = par(ex, y)
    if not eq(right(ex, x), y): x = y
    return x
@rt("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base")
def dec(ex, a, rt_, n):
    x = a[0]
    if ex.load(P(x, 0), I32) == 0 and eq(par(ex, par(ex, x)), x): return right(ex, x)
    if not nul(left(ex, x)):
        y = left(ex, x)
        while not nul(right(ex, y)): y = right(ex, y)
        return y
    y = par(ex, x)
    while eq(x, left(ex, y)): x = y; y = par(ex, y)
    return y
@rt("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
def ins(ex, a, rt_, n):
    il, x, p, h = a
    sp(ex, x, p); sl(ex, x, NULL); sr(ex, x, NULL)
    root = eq(p, h)
    ex.store(P(x, 0), I32, 1 if root else 0)
    if root:
        sp(ex, h, x); sl(ex, h, x); sr(ex, h, x); return None
    if il:
        sl(ex, p, x)
        if eq(p, left(ex, h)): sl(ex, h, x)
    else:
        sr(ex, p, x)
        if eq(p, right(ex, h)): sr(ex, h, x)
    return None
@rt("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_")
def era(ex, a, rt_, n):
    z, h = a
    nxt = inc(ex, [z], None, None) if eq(z, left(ex, h)) else None
    prv = dec(ex, [z], None, None) if eq(z, right(ex, h)) else None
    def replace(u, v):
        p = par(ex, u)
        if eq(par(ex, h), u): sp(ex, h, v)
        elif eq(left(ex, p), u): sl(ex, p, v)
        else: sr(ex, p, v)
        if not nul(v): sp(ex, v, p)
    if nul(left(ex, z)): replace(z, right(ex, z))
    elif nul(right(ex, z)): replace(z, left(ex, z))
    else:
        y = right(ex, z)
        while not nul(left(ex, y)): y = left(ex, y)
        if not eq(par(ex, y), z):
            replace(y, right(ex, y)); sr(ex, y, right(ex, z)); sp(ex, right(ex, y), y)
        replace(z, y); sl(ex, y, left(ex, z)); sp(ex, left(ex, y), y)
    r = par(ex, h)
    if not nul(r): ex.store(P(r, 0), I32, 1)
    if nul(r): sl(ex, h, h); sr(ex, h, h)
    else:
        if nxt is not None: sl(ex, h, nxt)
        if prv is not None: sr(ex, h, prv)
    return z
