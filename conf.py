"""What each property's check runs, with which bounds."""
import json
import os
import re

import bounds

DEFAULT_OPTS = {"steps": 20000000, "viol": 4, "samples": 6}



def copies(root):
    """/repo under two more package names, so that three feature sets can be linked together"""
    import shutil
    import tomllib
    for name in ("bare", "full"):
        d = os.path.join(root, "build", "fmt", name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree("/repo/src", os.path.join(d, "src"))
        t = tomllib.load(open("/repo/Cargo.toml", "rb"))
        if os.path.exists("/repo/README.md"):
            shutil.copy("/repo/README.md", d)
        q = lambda x: json.dumps(x) if not isinstance(x, dict) else "{ " + ", ".join(f"{k} = {q(y)}" for k, y in x.items()) + " }"
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(f'[package]\nname = "matreex-{name}"\nversion = {q(t["package"]["version"])}\nedition = {q(t["package"]["edition"])}\npublish = false\n')
            for s in ("dependencies", "features"):
                f.write(f"[{s}]\n" + "".join(f"{json.dumps(k)} = {q(v)}\n" for k, v in t.get(s, {}).items()))


VARIANTS = {"std": {"dir": "harness"}, "fmt": {"dir": "harness_fmt", "prepare": copies}}

ASSUMPTIONS = [
    "rustc 1.99.1 -C opt-level=0 LLVM IR is taken as the meaning of the code (dev: overflow checks, debug assertions and std precondition checks on; rel: all off)",
    "x86_64: usize is 64 bits",
    "allocations never fail; those above the modelled memory end the path after the allocation rule of the harness has been asserted",
    "aliasing-model (Stacked/Tree Borrows) rules are not encoded",
]


XLOPT = {"steps": 300000000}


def R(h, **k):
    return dict(h=h, **k)


def known_findings(root):
    p = os.path.join(root, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("status") == "open"]


def matches(k, run, v):
    return k["harness"] == run["h"] and re.search(k["message"], v["kind"] + ": " + v["msg"]) is not None and k.get("function", "") in " ".join(v["stack"])


PROPS = {
    "C01": dict(
        runs=[
            R("h_c01_step", shards=8, tshards=16, covers=["history completed"]),
            R("h_c01_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["history completed"]),
            R("h_c01_large", shards=8, tshards=16, covers=["history completed"]),
            R("h_c01_two", shards=8, tshards=32, profs=["dev"], covers=["history completed"]),
        ],
        bounds="one arbitrary operation (41 kinds, all their arguments) from every valid state with shape up to 3x3 (inductive step), and every chain of 2 operations with shapes up to 1x1; both storage orders; with and without spare capacity; symbolic 64-bit payloads",
        tbounds="step: shapes up to 4x4; chains of 2 operations with shapes up to 2x2",
        outside="larger shapes than those listed; longer histories are covered only through the inductive step",
    ),
    "C02": dict(
        runs=[R("h_c02_long", opts=XLOPT, profs=["dev"], shards=8, tshards=24, covers=["fault injected", "no fault"])] + [R(h, shards=18 if h == "h_c02_large" else 3, tshards=24 if h == "h_c02_large" else 8, covers=["fault injected", "no fault"]) for h in ("h_c02_a", "h_c02_b", "h_c02_c", "h_c02_large")],
        bounds="panic at the k-th invocation of caller code, k any 64-bit number (every reachable point), in 56 operations over all shapes up to 2x2, both storage orders, spare capacity 2; the same operations on 1x9, 5x3 and 2x5",
        tbounds="shapes up to 3x3; and 1x9, 9x1, 2x5, 5x3, 1x17, 17x1, 5x7",
        outside="two panics in one operation (the process aborts by language rule); larger shapes than those listed; rayon scheduling (a sequential fork-join stand-in replaces rayon-core)",
    ),
    "C03": dict(
        runs=[
            R("h_c03_u32", shards=6, tshards=32, covers=["program completed"]),
            R("h_c03_u8", shards=2, tshards=16, covers=["program completed"]),
            R("h_c03_b3", shards=2, tshards=16, covers=["program completed"]),
            R("h_c03_w3", shards=2, tshards=16, covers=["program completed"]),
            R("h_c03_line", shards=3, tshards=16, covers=["program completed"]),
            R("h_c03_zst", shards=4, tshards=32, covers=["program completed"]),
            R("h_c03_z64", shards=1, tshards=8, covers=["program completed"]),
            R("h_c03_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["program completed"]),
            R("h_c03_large", shards=4, tshards=16, covers=["program completed"]),
            R("h_c03_large_jump", shards=4, tshards=16, covers=["program completed"]),
            R("h_c03_huge", shards=2, tshards=16, covers=["huge matrix"]),
            R("h_c03_huge8", shards=2, tshards=16, covers=["huge matrix"]),
            R("h_c03_jump", shards=4, tshards=32, covers=["program completed"]),
            R("h_c03_jump_zst", shards=4, tshards=32, covers=["program completed"]),
            R("h_c03_jump_huge", shards=4, tshards=16, covers=["huge matrix"]),
            R("h_c03_thin", shards=4, tshards=6, covers=["thin matrix"]),
        ],
        bounds="",
        outside="",
    ),
    "C04": dict(
        runs=[
            R("h_c04_u64", shards=2, tshards=8, covers=["element found", "error", "panic"]),
            R("h_c04_b3", shards=2, tshards=8, covers=["element found", "error", "panic"]),
            R("h_c04_w3", shards=2, tshards=8, covers=["element found", "error", "panic"]),
            R("h_c04_zst", shards=2, tshards=8, covers=["element found", "error", "panic"]),
            R("h_c04_contents", shards=2, tshards=8, covers=["element replaced"]),
            R("h_c04_liar", shards=2, tshards=8, covers=["element found", "rejected"]),
            R("h_c04_liar_swap", shards=2, tshards=8, covers=["swapped", "not swapped"]),
            R("h_c04_thin", shards=4, tshards=6, covers=["element found", "error", "panic"]),
            R("h_c04_huge", shards=4, tshards=6, covers=["element found", "error", "panic"]),
            R("h_c04_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["element found", "error", "panic"]),
            R("h_c04_large", shards=2, tshards=4, covers=["element found", "error", "panic"]),
            R("h_c04_large_b3", shards=2, tshards=4, covers=["element found", "error", "panic"]),
        ],
        bounds="",
        outside="",
    ),
    "C05": dict(
        runs=[
            R("h_c05_chain", shards=6, tshards=32, covers=["chain completed"]),
            R("h_c05_two", shards=4, tshards=32, covers=["chain completed", "transposed twice"]),
            R("h_c05_u8", shards=2, tshards=8, covers=["chain completed"]),
            R("h_c05_b3", shards=2, tshards=8, covers=["chain completed"]),
            R("h_c05_w3", shards=2, tshards=8, covers=["chain completed"]),
            R("h_c05_unit", shards=2, tshards=8, covers=["chain completed"]),
            R("h_c05_zst", shards=2, tshards=8, covers=["chain completed"]),
            R("h_c05_types", shards=2, tshards=8, covers=["chain completed"]),
            R("h_c05_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["larger shape"]),
            R("h_c05_large", shards=4, tshards=16, covers=["chain completed"]),
            R("h_c05_one", shards=4, tshards=16, covers=["larger shape"]),
            R("h_c05_line", shards=2, tshards=8, covers=["long shape"]),
        ],
        bounds="",
        outside="",
    ),
    "C06": dict(
        runs=[
            R("h_c06_u32", shards=4, tshards=32, covers=["views consumed"]),
            R("h_c06_b3", shards=2, tshards=16, covers=["views consumed"]),
            R("h_c06_zst", shards=2, tshards=16, covers=["views consumed"]),
            R("h_c06_nth", shards=4, tshards=32, covers=["nth view consumed", "nth view rejected"]),
            R("h_c06_nth_zst", shards=2, tshards=16, covers=["nth view consumed", "nth view rejected"]),
            R("h_c06_methods", shards=4, tshards=16, covers=["method"]),
            R("h_c06_values", shards=2, tshards=8, covers=["collected"]),
            R("h_c06_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["collected"]),
            R("h_c06_large", shards=2, tshards=8, covers=["views consumed", "nth view"]),
            R("h_c06_large_b3", shards=2, tshards=8, covers=["views consumed", "nth view"]),
            R("h_c06_large_methods", shards=4, tshards=16, covers=["method"]),
            R("h_c06_large_values", shards=1, tshards=4, covers=["collected"]),
        ],
        bounds="",
        outside="",
    ),
    "C07": dict(
        runs=[
            R("h_c07_binary", shards=8, tshards=32, covers=["failed", "succeeded"]),
            R("h_c07_unary", shards=8, tshards=32, covers=["compared"]),
            R("h_c07_display", shards=2, tshards=16, covers=["compared"]),
            R("h_c07_eq_u64", shards=4, tshards=16, covers=["equal", "unequal"]),
            R("h_c07_eq_u8", shards=4, tshards=16, covers=["equal", "unequal"]),
            R("h_c07_eq_f64", shards=4, tshards=16, covers=["equal", "unequal"]),
            R("h_c07_eq_never", shards=2, tshards=8, covers=["equal", "unequal"]),
            R("h_c07_eq_unit", shards=2, tshards=8, covers=["equal", "unequal"]),
            R("h_c07_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["equal", "unequal"]),
            R("h_c07_large_binary", shards=4, tshards=16, covers=["failed", "succeeded"]),
            R("h_c07_large_unary", shards=4, tshards=16, covers=["compared"]),
            R("h_c07_large_eq", shards=4, tshards=16, covers=["equal", "unequal"]),
            R("h_c07_thin", shards=1, tshards=1, covers=["different shapes"]),
        ],
        bounds="",
        outside="",
    ),
    "C08": dict(
        runs=[
            R("h_c08_size0", shards=3, tshards=3, covers=["succeeded", "failed"]),
            R("h_c08_size1", shards=3, tshards=3, covers=["succeeded", "failed"]),
            R("h_c08_size3", shards=3, tshards=3, covers=["succeeded", "failed"]),
            R("h_c08_size8", shards=3, tshards=3, covers=["succeeded", "failed"]),
            R("h_c08_size16", shards=3, tshards=3, covers=["succeeded", "failed"]),
            R("h_c08_size24", shards=3, tshards=3, covers=["succeeded", "failed"]),
            R("h_c08_big", shards=2, tshards=2, covers=["succeeded", "failed"]),
            R("h_c08_map0", shards=2, tshards=2, covers=["succeeded"]),
            R("h_c08_map1", shards=2, tshards=2, covers=["succeeded", "failed"]),
            R("h_c08_map2", shards=2, tshards=2, covers=["succeeded", "failed"]),
            R("h_c08_map8", shards=2, tshards=2, covers=["succeeded", "failed"]),
            R("h_c08_map24", shards=2, tshards=2, covers=["succeeded", "failed"]),
            R("h_c08_par0", shards=1, tshards=1, covers=["succeeded"]),
            R("h_c08_par4", shards=1, tshards=1, covers=["succeeded", "failed"]),
            R("h_c08_par24", shards=1, tshards=1, covers=["succeeded", "failed"]),
            R("h_c08_named0", shards=2, tshards=2, covers=["succeeded"]),
            R("h_c08_named3", shards=2, tshards=2, covers=["succeeded", "failed"]),
            R("h_c08_named16", shards=2, tshards=2, covers=["succeeded", "failed"]),
            R("h_c08_product0", shards=2, tshards=2, covers=["succeeded", "failed"]),
            R("h_c08_product1", shards=2, tshards=2, covers=["succeeded", "failed"]),
            R("h_c08_product24", shards=2, tshards=2, covers=["succeeded", "failed"]),
            R("h_c08_outer0", shards=1, tshards=1, covers=["failed"]),
            R("h_c08_outer8", shards=1, tshards=1, covers=["failed"]),
            R("h_c08_rows", shards=1, tshards=1, covers=["succeeded", "failed"]),
            R("h_c08_reshape", shards=2, tshards=2, covers=["succeeded", "failed"]),
            R("h_c08_shape", shards=1, tshards=1, covers=["succeeded", "failed"]),
            R("h_c08_ledger", shards=2, tshards=2, covers=["released"]),
        ],
        bounds="",
        outside="",
    ),
    "C09": dict(
        runs=[
            R("h_c09_reshape", shards=4, tshards=16, covers=["reshaped", "reshaped, no elements", "rejected"]),
            R("h_c09_resize", shards=4, tshards=16, covers=["resized"]),
            R("h_c09_twice", shards=4, tshards=16, covers=["resized"]),
            R("h_c09_edge", shards=2, tshards=8, covers=["resized", "rejected"]),
            R("h_c09_zst", shards=2, tshards=8, covers=["resized"]),
            R("h_c09_swap", shards=4, tshards=16, covers=["rejected"]),
            R("h_c09_assign", shards=4, tshards=16, covers=["rejected"]),
            R("h_c09_u8", shards=2, tshards=8, covers=["resized"]),
            R("h_c09_u64", shards=2, tshards=8, covers=["resized"]),
            R("h_c09_regrow", shards=4, tshards=16, covers=["resized"]),
            R("h_c09_regrow_large", shards=2, tshards=8, covers=["resized"]),
            R("h_c09_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["resized"]),
            R("h_c09_large", shards=4, tshards=16, covers=["resized"]),
        ],
        bounds="",
        outside="",
    ),
    "C10": dict(
        runs=[
            R("h_c10_swap", shards=2, tshards=8, covers=["swap of two elements", "swap out of bounds"]),
            R("h_c10_rows", shards=2, tshards=4, covers=["vector swap", "vector swap with itself", "vector swap out of bounds"]),
            R("h_c10_cols", shards=2, tshards=4, covers=["vector swap", "vector swap with itself", "vector swap out of bounds"]),
            R("h_c10_types", shards=6, tshards=16, covers=["swapped"]),
            R("h_c10_mixed", shards=2, tshards=4, covers=["swap of two elements"]),
            R("h_c10_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["swapped"]),
            R("h_c10_large", shards=12, tshards=8, covers=["vector swap", "vector swap out of bounds"]),
        ],
        bounds="swap: every pair of 2 x 64-bit index pairs on every shape up to 3x3; swap_rows/swap_cols: every pair of 64-bit numbers on every shape up to 4x4; element sizes 0, 1, 2, 3, 16, 160 and all pairs of index types up to 3x3; both storage orders; symbolic 64-bit payloads",
        tbounds="swap: shapes up to 4x4; swap_rows/swap_cols: shapes up to 5x5; otherwise as quick",
        outside="larger shapes than those listed",
    ),
    "C11": dict(
        runs=[
            R("h_c11_product", shards=6, tshards=24, covers=["product", "no terms", "refused"]),
            R("h_c11_wrapping", shards=2, tshards=8, covers=["product"]),
            R("h_c11_owned", shards=4, tshards=16, covers=["product", "refused"]),
            R("h_c11_like", shards=4, tshards=16, covers=["product", "no terms", "refused"]),
            R("h_c11_long", shards=2, tshards=8, covers=["product"]),
            R("h_c11_empty", shards=1, tshards=4, covers=["product", "refused"]),
            R("h_c11_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["product"]),
            R("h_c11_large", shards=4, tshards=16, covers=["product", "no terms", "refused"]),
        ],
        bounds="",
        outside="",
    ),
    "C12": dict(
        runs=[
            R("h_c12_generic", shards=6, tshards=24, covers=["combined", "refused"]),
            R("h_c12_named", shards=8, tshards=24, covers=["combined", "refused"]),
            R("h_c12_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["combined"]),
            R("h_c12_large", shards=4, tshards=16, covers=["combined", "refused"]),
            R("h_c12_large_named", shards=4, tshards=16, covers=["combined", "refused"]),
            R("h_c12_extents", covers=["combined", "refused"]),
            R("h_c12_capacity", covers=["refused"]),
        ],
        bounds="",
        outside="",
    ),
    "C13": dict(
        runs=[
            R("h_c13_small", shards=8, tshards=32, covers=["element found"]),
            R("h_c13_long", shards=8, tshards=32, covers=["element found"]),
            R("h_c13_empty", shards=1, tshards=2, covers=["no element"]),
            R("h_c13_huge", shards=4, tshards=8, covers=["huge matrix"]),
            R("h_c13_swap", shards=2, tshards=8, covers=["swap"]),
            R("h_c13_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["element found"]),
            R("h_c13_large", shards=4, tshards=16, covers=["element found"]),
        ],
        bounds="",
        outside="",
    ),
    "C14": dict(
        runs=[
            R("h_c14_block", shards=6, tshards=24, covers=["block copied", "nothing to copy"]),
            R("h_c14_u8", shards=4, tshards=16, covers=["copied"]),
            R("h_c14_w3", shards=2, tshards=16, covers=["copied"]),
            R("h_c14_unit", shards=2, tshards=16, covers=["copied"]),
            R("h_c14_twice", shards=4, tshards=16, covers=["twice"]),
            R("h_c14_types", shards=2, tshards=8, covers=["copied"]),
            R("h_c14_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["copied"]),
            R("h_c14_large", shards=4, tshards=16, covers=["block copied"]),
        ],
        bounds="",
        outside="",
    ),
    "C15": dict(
        runs=[
            R("h_c15_plain", shards=6, tshards=32, covers=["owned", "borrowed"]),
            R("h_c15_history", shards=6, tshards=32, covers=["owned", "borrowed"]),
            R("h_c15_par", shards=6, tshards=32, covers=["parallel"]),
            R("h_c15_jump", shards=2, tshards=8, covers=["owned", "borrowed"]),
            R("h_c15_types", shards=2, tshards=8, covers=["other sizes"]),
            R("h_c15_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["other sizes"]),
            R("h_c15_large", shards=4, tshards=16, covers=["owned", "borrowed"]),
            R("h_c15_large_par", shards=4, tshards=16, covers=["parallel"]),
            R("h_c15_huge", shards=4, tshards=8, covers=["huge matrix"]),
        ],
        bounds="",
        outside="",
    ),
    "C16": dict(
        runs=[
            R("h_c16_small", shards=8, tshards=32, covers=["compared", "stopped early"]),
            R("h_c16_wide", profs=["dev"], shards=6, tshards=32, covers=["compared"]),
            R("h_c16_xl", opts=XLOPT, profs=["dev"], shards=6, tshards=16, covers=["compared"]),
            R("h_c16_large", profs=["dev"], shards=11, tshards=32, covers=["compared"]),
            R("h_c16_over0", covers=["fits"]),
            R("h_c16_over1", covers=["fits", "too large"]),
            R("h_c16_over8", covers=["fits", "too large"]),
            R("h_c16_over24", covers=["fits", "too large"]),
        ],
        bounds="",
        outside="",
    ),
    "C17": dict(
        runs=[
            R("h_c17_bounds", covers=["may be moved", "may not be moved", "may be shared", "may not be shared"]),
            R("h_c17_race", shards=8, tshards=32, covers=["mutated concurrently"]),
            R("h_c17_thin", shards=4, tshards=32, covers=["mutated concurrently"]),
            R("h_c17_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=10, covers=["mutated concurrently"]),
            R("h_c17_large", shards=6, tshards=10, covers=["mutated concurrently"]),
        ],
        bounds="",
        outside="",
    ),
    "C18": dict(
        runs=[
            R("h_c18_unsigned", shards=8, tshards=32, covers=["computed", "panicked"]),
            R("h_c18_signed", shards=8, tshards=32, covers=["computed", "panicked"]),
            R("h_c18_float", shards=4, tshards=8, covers=["computed"]),
            R("h_c18_neg", covers=["computed"]),
            R("h_c18_neg_own", shards=2, tshards=8, covers=["computed"]),
            R("h_c18_generic", shards=2, tshards=8, covers=["computed"]),
            R("h_c18_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["computed"]),
            R("h_c18_large", shards=8, tshards=32, covers=["computed"]),
            R("h_c18_neg_large", shards=1, tshards=4, covers=["computed"]),
            R("h_c18_large_own", shards=2, tshards=8, covers=["computed"]),
        ],
        bounds="",
        outside="",
    ),
    "C19": dict(
        runs=[
            R("h_c19_owned", shards=4, tshards=16, covers=["built", "rejected"]),
            R("h_c19_iter", shards=4, tshards=16, covers=["built", "rejected"]),
            R("h_c19_arrays", shards=2, tshards=4, covers=["built"]),
            R("h_c19_nested", covers=["built"]),
            R("h_c19_vectors", shards=2, tshards=4, covers=["built"]),
            R("h_c19_macros", covers=["built"]),
            R("h_c19_filled", shards=2, tshards=8, covers=["built"]),
            R("h_c19_units", covers=["built", "rejected"]),
            R("h_c19_xl", opts=XLOPT, profs=["dev"], shards=4, tshards=16, covers=["built", "rejected"]),
            R("h_c19_large", shards=4, tshards=8, covers=["built", "rejected"]),
            R("h_c19_large_filled", shards=2, tshards=4, covers=["built"]),
        ],
        bounds="",
        outside="",
    ),
    "C20": dict(
        runs=[
            R("h_c20_small", var="fmt", shards=8, tshards=64, covers=["rendered", "no elements"]),
            R("h_c20_shapes", var="fmt", shards=8, tshards=64, covers=["rendered"]),
            R("h_c20_lines", var="fmt", shards=4, tshards=19, covers=["rendered"], opts={"steps": 100000000}),
            R("h_c20_far", var="fmt", shards=8, tshards=24, covers=["rendered"], opts={"steps": 100000000}),
            R("h_c20_multi", var="fmt", shards=8, tshards=64, covers=["several lines"]),
            R("h_c20_settings", var="fmt", shards=2, tshards=2, covers=["rendered"]),
            R("h_c20_writer", var="fmt", shards=2, tshards=2, covers=["complete", "writer failed"]),
            R("h_c20_wide", var="fmt", shards=4, tshards=8, covers=["wide"], opts={"steps": 100000000}),
        ],
        bounds="",
        outside="",
    ),
}

for _k, (_q, _t, _o) in bounds.B.items():
    PROPS[_k].update(bounds=_q, tbounds=_t, outside=_o)
for _k in bounds.WITH_LARGE:
    PROPS[_k]["bounds"] += bounds.SPECIAL.get(_k, (bounds.LARGE, bounds.TLARGE))[0]
    PROPS[_k]["tbounds"] += bounds.SPECIAL.get(_k, (bounds.LARGE, bounds.TLARGE))[1]
for _k, (_q, _t) in bounds.FURTHER.items():
    PROPS[_k]["bounds"] += _q
    PROPS[_k]["tbounds"] += _t
