import json

from .common import *
from specs import layout as LY
from .c19 import run_main

LEVEL = 'proof'
TECHNIQUE = 'deductive: the tile/character map proved injective and inverted for every tile; grid text bounded'
NOTE = ''
RULE = 'grids of every shape up to 6x6 with random tiles, and every single-character corruption of small pictures'
BOUND = 'grids up to 6x6, and single ones up to 1100 wide or high'


def tiles():
    return LY.all_tiles(filler=True)


def mapping_task():
    def fn(ctx):
        from pyvc.interp import Engine
        from factorio_sat import stringifier as S
        E = Engine()
        seen = {}
        for js in tiles():
            t = LY.make(js)
            c = S.encode_tile.pyfunc(t) if hasattr(S.encode_tile, 'pyfunc') else str(S.encode_tile(t))
            ctx.obligation(f'{t}: one character', isinstance(c, str) and len(c) == 1 and c not in '\n\r', repr(c))
            ctx.obligation(f'{t}: character not shared', seen.setdefault(c, t) is t, f'{c!r} also stands for {seen[c]}')
            r = E.call(S.decode_char, (c,))
            ctx.obligation(f'{t}: {c!r} decodes to it', type(r) is type(t) and r == t, str(r))
        ctx.functions(E)
        for c in [chr(i) for i in list(range(32, 1000)) + list(range(0x2190, 0x2600)) + list(range(0x2900, 0x2c00))]:
            if c not in seen:
                try:
                    r = S.decode_char(c)
                    ctx.obligation(f'{c!r} refused', False, f'decoded as {r}')
                except Exception:
                    ctx.obligation(f'{c!r} refused', True)
    return Task('proof character map', fn, 'proof', 60)


def bounded(ctx):
    from factorio_sat import stringifier as S
    ts = tiles()
    for h in range(1, 7):
        for w in range(1, 7):
            for _ in range(3 if ctx.thorough else 1):
                rows = [[ctx.rng.choice(ts) for _ in range(w)] for _ in range(h)]
                if (w, h) in ((1, 1), (6, 6)):
                    extra = [[[t] * w] * h for t in ts]
                else:
                    extra = []
                for rows in [rows] + extra:
                    arr = LY.to_tiles(rows)
                    text = S.encode(arr)
                    lines = text.split('\n')
                    ctx.eval()
                    back = S.decode(lines)
                    ctx.require(back.shape == arr.shape, f'{w}x{h} picture read back as {back.shape}', text=text)
                    bad = [(x, y) for y in range(h) for x in range(w) if back[y, x] != arr[y, x] or type(back[y, x]) is not type(arr[y, x])]
                    ctx.require(not bad, f'cells {bad[:4]} of a {w}x{h} picture change', rows=rows, text=text)
                    ctx.require(len(lines) == h + 2 and len({len(l) for l in lines}) == 1, 'ragged picture', text=text)
                    ctx.require(sum(len(l) for l in lines[1:-1]) == h * (2 * w + 1), f'{w}x{h} picture is not one character per tile', text=text)
    for w, h in ((1, 40), (40, 1), (150, 2), (2, 150), (33, 33), (140, 131), (1100, 3), (3, 1100)):
        arr = LY.to_tiles([[ctx.rng.choice(ts) for _ in range(w)] for _ in range(h)])
        back = S.decode(S.encode(arr).split('\n'))
        ctx.eval()
        ctx.require(back.shape == arr.shape and all(type(a) is type(b) and a == b for a, b in zip(arr.flatten(), back.flatten())), f'a {w}x{h} picture changes')
    # corruptions
    for h, w in ((1, 1), (1, 3), (2, 2), (3, 4), (1, 150), (2, 40), (40, 2), (1, 700), (700, 1), (90, 130)):
        arr = LY.to_tiles([[ctx.rng.choice(ts) for _ in range(w)] for _ in range(h)])
        lines = S.encode(arr).split('\n')
        places = [(y, x) for y in range(1, h + 1) for x in range(1, 2 * w)]
        for y, x in places if len(places) < 400 else ctx.rng.sample(places, 150) + places[-3:]:
            if True:
                for c in ('?', 'U', '·', 'd', '→') if h * w < 20 else ('?', 'd'):
                    if x % 2 == 1 and c in ('d', '→'):
                        continue
                    bad = list(lines)
                    bad[y] = bad[y][:x] + c + bad[y][x + 1:]
                    ctx.eval()
                    try:
                        r = S.decode(bad)
                    except Exception:
                        continue
                    ctx.fail(f'{c!r} at column {x} of line {y} of a picture is accepted', lines=bad, got=str(r))
                    return
    # the program, both ways
    for h, w in ((1, 1), (2, 3), (4, 2)):
        rows = [[ctx.rng.choice(ts) for _ in range(w)] for _ in range(h)]
        rows2 = [[ctx.rng.choice(ts) for _ in range(2)] for _ in range(2)]
        out = run_main(S, ['encode'], [json.dumps([[{'tile': t} for t in r] for r in g]) for g in (rows, rows2)], keep_blank=True)
        back = [json.loads(l) for l in run_main(S, ['decode'], out)]
        ctx.eval()
        ctx.require(back == [[[{'tile': t} for t in r] for r in g] for g in (rows, rows2)], 'encode | decode changes the grids', rows=rows, back=back)
    ctx.sample('\n'.join(lines))


def tasks(tier):
    return [mapping_task(), bound_task('pictures', [bounded])]
