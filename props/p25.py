"""Queries in batches and sub-boxes."""
from props.queries import *

EXPLANATION = (
    "The queries of src/decomon/wrapper.py are interpreted on boxes of unknown corners against a converted model whose predictions are replaced "
    "by arbitrary bounds of an arbitrary output for every box it is called on. The boxes handed to the model must be parts of the requested boxes "
    "and cover each of them (rules sub-boxes, cover: exact rational arithmetic on the positions of the halving points), there is one result per "
    "requested box and it bounds the outputs over every part of that box and of that box only (rules shapes, sound, exact), for every batch size, "
    "number of sub-boxes and choice of the split dimensions."
)
H = "props.queries"
ASSUMPTIONS = [
    "the bounds returned by the converted model are sound (P14)",
    "which side of a box is the widest is left open: sequences of choices are enumerated",
    "real arithmetic; the numbers of boxes, outputs, batches and sub-boxes are enumerated, corners and bounds are unconstrained",
]
LIMIT = {"quick": 100, "thorough": 600}
FUNCS = ("get_upper_box", "get_lower_box", "get_range_box", "get_adv_box", "check_adv_box")


def obligations(tier):
    out = []
    deep = True  # affordable on every change
    more = tier == "deep"
    for mode in MODES:
        for n_x, bs in ((3, -1), (3, 1), (3, 2), (2, 5)) + (((4, 2), (5, 3), (4, 4)) if deep else ()):
            for n_sub in (1, 2, 3, 4) if mode != HYBRID or bs == 2 or deep else (1,):
                seq = (0, 1, 1, 0, 1)
                if n_sub > 1 and n_x > 2 and mode != IBP and not deep:
                    n_x = 2
                    bs = 1 if bs == 2 else bs
                out.append((f"range/{mode}/n{n_x}/batch{bs}/sub{n_sub}", H, "range_box", mode, n_x, bs, n_sub, seq))
            out.append((f"adv/{mode}/n{n_x}/batch{bs}", H, "adv_box", mode, n_x, bs, 1, "onehot-target"))
            out.append((f"check-adv/{mode}/n{n_x}/batch{bs}", H, "check_adv", mode, n_x, bs, "onehot-target"))
    for mode in (IBP, AFFINE) if not deep else MODES:
        for n_x, bs in ((2, -1), (2, 3), (2, 1)):
            for n_sub in (2, 4):
                out.append((f"adv/{mode}/n{n_x}/batch{bs}/sub{n_sub}", H, "adv_box", mode, n_x, bs, n_sub, "onehot-target" if n_sub == 2 else "onehot", (1, 0, 0)))
    for seq in ((0,), (1,), (0, 1), (1, 0, 0), (0, 0, 1)) + (((1, 1, 0, 0), (0, 1, 1, 1)) if deep else ()):
        for n_sub in (2, 4, 5) + ((8,) if deep else ()):
            out.append((f"range/ibp/n2/sub{n_sub}/choices-{''.join(map(str, seq))}", H, "range_box", IBP, 2, -1, n_sub, seq))
    for fname in ("get_upper_box", "get_lower_box"):
        for mode in MODES:
            out.append((f"{fname}/{mode}/batch2", H, "range_box", mode, 3, 2, 1, (0,), None, fname))
            out.append((f"{fname}/{mode}/sub2", H, "range_box", mode, 2, 1, 2, (1, 0), None, fname))
    for mode in MODES:
        out.append((f"range/{mode}/matrix-outputs", H, "range_box", mode, 2, 1, 1, (0,), (2, 1)))
        out.append((f"range/{mode}/matrix-outputs/sub2", H, "range_box", mode, 2, -1, 2, (0, 1), (1, 2)))
    out.append(("range/ibp/matrix-inputs/sub2", H, "range_box", IBP, 2, -1, 2, (0, 1), None, "get_range_box", 2, False, (2, 1)))
    for n_split in (1, 2, 3) + ((4,) if deep else ()):
        for random in (False, True):
            for seq in ((0, 1, 1, 0), (1, 0, 2, 1, 1)):
                for fn in FUNCS:
                    out.append((f"refine_box/{fn}/{n_split}/{'random' if random else 'widest'}/{''.join(map(str, seq))}", H, "refine", fn, IBP, 2, n_split, random, seq, -1 if n_split < 3 else 2))
    for mode in MODES:
        for n_x, bs in ((3, 2), (2, 1), (2, 5)):
            out.append((f"noise/{mode}/n{n_x}/batch{bs}", H, "noise", mode, n_x, bs, "ballinf", 0.25))
            out.append((f"adv-noise/{mode}/n{n_x}/batch{bs}", H, "noise", mode, n_x, bs, "ballinf", 0.25, "get_adv_noise", False, None, "onehot-target"))
    if more:
        for mode in MODES:
            for n_x in range(1, 8):
                for bs in (-1, 1, 2, 3, 4, 7):
                    out.append((f"more/range/{mode}/n{n_x}/batch{bs}", H, "range_box", mode, n_x, bs, 1, (0,)))
                    out.append((f"more/adv/{mode}/n{n_x}/batch{bs}", H, "adv_box", mode, n_x, bs, 1, "onehot"))
                    out.append((f"more/noise/{mode}/n{n_x}/batch{bs}", H, "noise", mode, n_x, bs, "ball2", 0.25))
        for seq in itertools.product((0, 1), repeat=7):
            out.append((f"more/range/ibp/sub8/choices-{''.join(map(str, seq))}", H, "range_box", IBP, 2, -1, 8, seq))
        for seq in itertools.product((0, 1), repeat=3):
            for mode in MODES:
                out.append((f"more/range/{mode}/sub4/choices-{''.join(map(str, seq))}", H, "range_box", mode, 1, -1, 4, seq))
                out.append((f"more/range/{mode}/in3/sub4/choices-{''.join(map(str, seq))}", H, "range_box", mode, 1, -1, 4, tuple(2 * v for v in seq), None, "get_range_box", 3))
        for seq in itertools.product((0, 1, 2), repeat=4):
            for random in (False, True):
                out.append((f"more/refine_box/3/{'random' if random else 'widest'}/{''.join(map(str, seq))}", H, "refine", "get_range_box", IBP, 1, 3, random, seq))
    return out
