"""What each check explores: configurations, bounds, deciding tool."""
import random
import vlib

GEO = {
    # page size 2^lpage, pages per block 2^lppb; capacity in brackets
    'a': 'lpage=9 lppb=2 nblk=16 gc=4 nsec=6 secbits=3 fill=99',      # group 4 = block              [4]
    'b': 'lpage=9 lppb=3 nblk=16 gc=4 nsec=10 secbits=4 fill=99',     # group 4, two per block       [8]
    'c': 'lpage=8 lppb=2 nblk=24 gc=4 nsec=7 secbits=3 fill=99',      # group 2, two per block       [5]
    'd': 'lpage=10 lppb=3 nblk=16 gc=2 nsec=8 secbits=3 fill=99',     # group 8 = block              [6]
    'e': 'lpage=8 lppb=1 nblk=40 gc=1 nsec=6 secbits=3 fill=99',      # group 2 = block              [4]
    'f': 'lpage=9 lppb=2 nblk=27 gc=1 nsec=9 secbits=4 fill=99',      # odd number of blocks         [7]
    'g': 'lpage=9 lppb=4 nblk=16 gc=3 nsec=9 secbits=4 fill=99',      # group 4, four per block      [7]
    'h': 'lpage=8 lppb=3 nblk=22 gc=4 nsec=6 secbits=3 fill=99',      # group 2, four per block      [4]
    'i': 'lpage=11 lppb=4 nblk=12 gc=4 nsec=6 secbits=3 fill=99',     # group 16 = block             [4]
    'k': 'lpage=9 lppb=2 nblk=60 gc=1 nsec=57 secbits=6 fill=99',     # collection ratio 1            [57]
    'l': 'lpage=9 lppb=3 nblk=40 gc=2 nsec=70 secbits=7 fill=99',     # collection ratio 2            [~70]
    'm': 'lpage=8 lppb=1 nblk=70 gc=1 nsec=60 secbits=6 fill=99',     # two-page blocks               [18]
    'n': 'lpage=9 lppb=2 nblk=26 gc=60 nsec=41 secbits=3 fill=99',    # collection ratio beyond the spare space [42]
    # room for many failed blocks
    'p': 'lpage=9 lppb=2 nblk=26 gc=4 nsec=6 secbits=3 fill=99',
    'q': 'lpage=9 lppb=3 nblk=26 gc=4 nsec=10 secbits=4 fill=99',
    'r': 'lpage=8 lppb=1 nblk=50 gc=1 nsec=6 secbits=3 fill=99',
    's': 'lpage=8 lppb=2 nblk=40 gc=4 nsec=7 secbits=3 fill=99',
    't': 'lpage=9 lppb=2 nblk=30 gc=4 nsec=6 secbits=3 fill=99',      # room for a run of bad blocks
    'w': 'lpage=9 lppb=2 nblk=36 gc=4 nsec=6 secbits=3 fill=99',      # room for a run of bad blocks longer than the retry limit
    # enough blocks for the initial guess of bad blocks to differ from the truth
    'u': 'lpage=8 lppb=1 nblk=70 gc=1 nsec=8 secbits=3 fill=99',
    'v': 'lpage=9 lppb=2 nblk=130 gc=2 nsec=8 secbits=3 fill=99',
    'j': 'lpage=9 lppb=2 nblk=21 gc=4 nsec=9 secbits=4 fill=99',      # room for a few bad blocks    [16]
}
MAPSRC = ['dhara/map.c', 'dhara/journal.c', 'dhara/error.c']

A = dict(DATA=1, OK=2, SIZE=4, PROTO=8, WEAR=16, MARK=32, WORK=64, ERR=128, DUR=256, FMT=512, FIND=1024,
         FULL=2048, GC=4096, RO=8192, JRN=16384, CAP=32768, MEM=65536, PURE=1 << 17, MCAP=1 << 18)


def cls(*names):
    return sum(A[n] for n in names)


def P(s):
    return {k: int(v, 0) for k, v in (x.split('=') for x in s.split())}


def M(chk, line, time=25, harness='map.c', srcs=MAPSRC, **kw):
    p = P(line)
    p['chk'] = chk
    return dict(harness=harness, srcs=srcs, params=p, time=time, **kw)


def grid(chk, geos, hists, rest, styles=(0, 1, 2), secstyles=(0, 1, 2, 3), seed=1, time=15, **kw):
    """one configuration per geometry and history length; the style of the
    history, of the sector numbers and the random seed vary with it"""
    rnd = random.Random(f'{seed} {rest}')
    out = []
    for h in hists:
        for g in geos:
            out.append(M(chk, f'{GEO[g]} hist={h + rnd.randrange(3)} hstyle={rnd.choice(styles)} secstyle={rnd.choice(secstyles)} '
                         f'seed={seed + rnd.randrange(50)} {rest}', time, **kw))
    return out


def high(c, geos, hists, rest, seed, time):
    """the modelled blocks lie far up on a large chip, their page numbers cross a power of two; the map counts many more sectors"""
    out = []
    for i, t in enumerate(grid(c, geos, hists, rest, seed=seed, time=time) + grid(c, geos, hists, rest, seed=seed + 1, time=time)):
        p = t['params']
        k = (16, 24, 31, 8)[i % 4]
        i += i // 4
        b = p['lppb']
        p['hiblk'] = (1 << k >> b) - (p['nblk'] if k == 31 else 6 + i % 3)
        p['cntoff'] = (250, 70000, 0x1000000, 65530)[i % 4]
        if k == 8:
            p['cntoff'] = 0
        if i % 2:
            # the log starts with that many pages of padding
            if k != 8:
                p['hitail'] = 300 * 8 if k == 16 else 65536 + (seed % 5 + 1) * 32
        else:
            # the rest of the chip was written in the pass before, and part of it belongs to the log
            if k == 31:
                p['hiblk'] = (1 << 30 >> b) - 7
            if k == 8:
                p['hiblk'] = 0
            p['loblk'] = (1 << 31 >> b) - p['hiblk'] - p['nblk'] if k >= 24 else 1 << k >> b
            p['lotail'] = p['loblk'] << b if k <= 16 else (0, 512, 65600 - 64 * (seed % 5))[i // 2 % 3]
            if p['hiblk'] > 1 << 17 >> b:
                p['lotail'] = 0
        # that many sectors must fit on the chip
        pages = (p['hiblk'] + p['nblk'] + p.get('loblk', 0)) << b
        if p['cntoff'] > pages // 4:
            p['cntoff'] = next(n for n in (70000, 65530, 250, 0) if n <= pages // 4)
        out.append(t)
    return out


def life(c, geos, hists, rest, seed, time):
    """histories with failed operations, restarts, and restarts with work under way"""
    out = grid(c, geos, hists, rest, styles=(4,), seed=seed, time=time)
    for i, t in enumerate(out):
        t['params'].update(hfaults=(2, 3, 0, 4)[i % 4], hfgap=(8, 25, 60)[i % 3])
    return out


def interleave(*lists):
    out = []
    n = max(len(x) for x in lists)
    for i in range(n):
        for x in lists:
            if i < len(x):
                out.append(x[i])
    return out


def text(check):
    e = [r for r in check.results if 'paths' in r]
    c = [r for r in check.results if 'cbmc' in r]
    s = []
    if e:
        cut = sum(r['status'] != 'ok' for r in e)
        s.append(f'{len(e)} configurations{f", {cut} cut by time" if cut else ""}, {sum(r["paths"] for r in e)} paths, {sum(r["z3"] for r in e)} z3 queries')
    if c:
        s.append(f'{sum(r["discharged"] for r in c)} of {sum(r["obligations"] for r in c)} SAT obligations discharged in {len(c)} problems')
    return ', '.join(s)


B_HIST = ('concrete pseudo-random histories of the listed length (0 to 100, plus long ones; some with failed operations and with restarts, synchronised or with collection under way), then the listed number of operations whose kind, '
          'sector numbers, data and fault / power-loss / unreadable-page positions are symbolic, then a check of an arbitrary sector')
OUT_HIST = ('chips larger than the listed geometries, more symbolic operations or more simultaneous failures than listed; page contents are a symbolic 32-bit '
            'value at both ends of the page over a fixed filling (the library does not look at page contents)')
ASSUME = ['the NAND model in harness/nand.h.inc (failed program leaves an unreadable page, failed erase leaves unreadable pages, an interrupted operation either '
          'did not happen, completed, or left an unreadable page / block)', 'z3 and the LLVM front end are correct; every run replays sampled executions natively']
SPECS = {}


def spec(pid, level='model_checking', bounds=B_HIST, outside=OUT_HIST, assumptions=ASSUME):
    def deco(fn):
        SPECS[pid] = dict(tasks=fn, level=level, bounds=bounds, outside=outside, assumptions=assumptions, summary=text)
        return fn
    return deco


def two(tier, q, t):
    return q if tier == 'quick' else t


@spec('C01')
def c01(tier, seed):
    c = cls('DATA', 'OK', 'FULL')
    hs = range(0, 100, two(tier, 11, 5))
    t = interleave(
        grid(c, 'w', two(tier, [25, 40], range(20, 200, 9)), 'nops=1 ops=0x0d finals=1 badmask=0x3ff00', styles=(0, 3), seed=seed, time=two(tier, 12, 120)),
        life(c, 'pqst', two(tier, [50], range(20, 300, 17)), 'nops=1 ops=0x7f finals=9', seed=seed, time=two(tier, 12, 120)),
        high(c, 'pqrs', two(tier, [14], range(4, 100, 9)), 'nops=2 ops=0x31 finals=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdefghi', hs, 'nops=1 ops=0x7f finals=9', seed=seed),
        grid(c, 'abcde', two(tier, [0, 21, 44], range(0, 100, 9)), 'nops=2 ops=0x7f finals=1', seed=seed, time=two(tier, 20, 200)),
        grid(c, 'af', two(tier, [17, 60], range(0, 60, 7)), 'nops=1 ops=0x7f finals=1 qbits=32', seed=seed),
        grid(c, 'abc', two(tier, [400], [300, 600, 1500]), 'nops=1 ops=0x7f finals=1', seed=seed),
        grid(c, 'n', two(tier, [75], [60, 75, 90, 120]), 'nops=1 ops=0x7f finals=1', styles=(3,), seed=seed),
        grid(c, 'a', [0], 'nops=3 ops=0x7f finals=1', styles=(0,), seed=seed))
    if tier != 'quick':
        t += grid(c, 'a', [0, 20, 40], 'nops=1 ops=0x7f finals=1 secbits=32', seed=seed, time=300)
        t += grid(c, 'ace', [0, 20, 40], 'nops=3 ops=0x7f finals=1', seed=seed, time=300)
    return t


@spec('C02')
def c02(tier, seed):
    c = cls('DUR', 'OK')
    hs = range(0, 100, two(tier, 11, 5))
    t = interleave(
        life(c, 'pqrs', two(tier, [70, 150], range(20, 300, 17)), 'nops=1 ops=0x0f finals=2', seed=seed, time=two(tier, 12, 120)),
        high(c, 'pqrs', two(tier, [14, 51], range(4, 100, 9)), 'nops=1 ops=0x3f finals=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'tt', two(tier, [60], range(2, 100, 9)), 'nops=1 ops=0x0d finals=2 badmask=0x7f', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'u', two(tier, [64, 100], range(40, 300, 17)), 'nops=1 ops=0x0d finals=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 't', two(tier, [0, 90], range(2, 100, 9)), 'nops=1 ops=0x0d finals=2 badmask=0x3f80', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdefghi', hs, 'nops=1 ops=0x7f finals=2', seed=seed),
        grid(c, 'abcde', two(tier, [5, 37, 70], range(0, 100, 9)), 'nops=1 ops=0x7f finals=32', seed=seed, time=two(tier, 20, 200)),
        grid(c, 'abce', two(tier, [13], range(0, 100, 13)), 'nops=2 ops=0x7f finals=2', seed=seed, time=two(tier, 20, 200)),
        grid(c, 'abcd', two(tier, [25, 52], range(0, 100, 9)), 'nops=1 ops=0x7f finals=2 prerestart=1 presync=1 keep=3', seed=seed),
        grid(c, 'abc', two(tier, [400], [300, 600, 1500]), 'nops=1 ops=0x0f finals=2', seed=seed))
    return t


@spec('C03')
def c03(tier, seed):
    c = cls('DUR', 'SIZE')
    q = tier == 'quick'
    ops = 'ops=0x5f' if q else 'ops=0x7f'
    t = interleave(
        grid(c, 'mk', two(tier, [450], [300, 600, 900]), 'nops=1 ops=0x05 finals=2 crashes=1 presync=1 keep=3', styles=(3,), seed=seed, time=two(tier, 8, 120)),
        life(c, 'pqrs', two(tier, [60], range(20, 300, 17)), 'nops=1 ops=0x05 finals=16 crashes=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        high(c, 'pqrs', two(tier, [27], range(4, 100, 9)), 'nops=1 ops=0x05 finals=16 crashes=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 't', two(tier, [60], range(2, 100, 9)), 'nops=1 ops=0x05 finals=16 crashes=1 presync=1 keep=2 badmask=0x3f', seed=seed, time=two(tier, 12, 120)),
        grid(c, 't', two(tier, [20, 40], range(2, 100, 9)), 'nops=1 ops=0x05 finals=16 crashes=1 presync=1 keep=2 badmask=0x1f80', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'adei', two(tier, range(3, 100, 12), range(3, 100, 5)), f'nops=1 {ops} finals=17 crashes=1 presync=1 keep=3', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'bc', two(tier, [9, 31, 55, 78], range(3, 100, 7)), f'nops=1 ops=0x0d finals=19 crashes=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abce', two(tier, [15, 40], range(3, 100, 9)), f'nops=1 ops=0x05 finals=3 crashes=2 presync=1 keep=2', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'abce', two(tier, [22, 65], range(3, 100, 9)), f'nops=1 ops=0x0d finals=16 faults=1 crashes=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 200)),
        # reach the recorded findings
        [M(c, f'{GEO["b"]} hist=41 hstyle=1 seed=1 nops=1 ops=0x04 finals=8 crashes=1 presync=1 keep=2', two(tier, 12, 60)),
         M(c, f'{GEO["b"]} hist=12 hstyle=0 seed=1 nops=1 ops=0x05 finals=16 faults=1 crashes=1 presync=1 keep=2', two(tier, 12, 60))])
    return t


@spec('C04')
def c04(tier, seed):
    c = cls('DATA', 'DUR', 'OK')
    q = tier == 'quick'
    t = interleave(
        life(c, 'pqrs', two(tier, [80], range(20, 300, 17)), 'nops=1 ops=0x0d finals=2 faults=1', seed=seed, time=two(tier, 12, 120)),
        high(c, 'pqrs', two(tier, [33], range(4, 100, 9)), 'nops=1 ops=0x05 finals=2 faults=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'adecfi', two(tier, range(2, 100, 14), range(2, 100, 5)), 'nops=1 ops=0x7f finals=3 faults=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'bgh', two(tier, range(2, 100, 20), range(2, 100, 7)), 'nops=1 ops=0x0d finals=2 faults=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ace', two(tier, [10, 48], range(2, 100, 9)), 'nops=1 ops=0x05 finals=2 faults=2', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'abce', two(tier, [25, 70], range(2, 100, 9)), 'nops=1 ops=0x0d finals=2 faults=1 prerestart=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'abce', two(tier, [33], range(2, 100, 16)), 'nops=1 ops=0x0f finals=8 faults=1', seed=seed, time=two(tier, 12, 200)))
    # bursts of failures up to the retry limit
    t = interleave(t,
        grid(c, 'pqrs', two(tier, [20, 60], range(2, 100, 9)), f'nops=1 ops=0x0d finals=2 faults=7 faultgap=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'pqrs', two(tier, [40], range(2, 100, 16)), f'nops=1 ops=0x01 finals=2 faults=7 faultgap={two(tier, 2, 3)}', seed=seed, time=two(tier, 12, 200)))
    if not q:
        t += grid(c, 'ae', range(2, 60, 9), 'nops=1 ops=0x05 finals=2 faults=3', seed=seed, time=300)
        t += grid(c, 'ace', range(2, 60, 9), 'nops=2 ops=0x05 finals=2 faults=1', seed=seed, time=300)
    return t


@spec('C05')
def c05(tier, seed):
    c = cls('PROTO', 'MEM')
    q = tier == 'quick'
    return interleave(
        grid(c, 'w', two(tier, [25, 40], range(20, 200, 9)), 'nops=1 ops=0x0d finals=1 badmask=0x3ff00', styles=(0, 3), seed=seed, time=two(tier, 12, 120)),
        life(c, 'pqrs', two(tier, [70, 150], range(20, 300, 17)), 'nops=1 ops=0x0f finals=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 't', two(tier, [30, 75], range(2, 100, 9)), 'nops=1 ops=0x0d finals=2 badmask=0x7f', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdefghi', two(tier, range(1, 100, 16), range(1, 100, 5)), 'nops=1 ops=0x7f finals=2', seed=seed),
        grid(c, 'adeci', two(tier, range(2, 100, 17), range(2, 100, 7)), 'nops=1 ops=0x0f finals=2 faults=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'j', two(tier, range(2, 100, 30), range(2, 100, 9)), 'nops=1 ops=0x0d finals=2 faults=1 badmask=0x10211', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abce', two(tier, range(6, 100, 30), range(6, 100, 9)), 'nops=1 ops=0x0d finals=48 crashes=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ace', two(tier, [13, 44], range(2, 100, 9)), 'nops=1 ops=0x05 finals=3 faults=1 crashes=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'ab', two(tier, [400], [300, 600, 1500]), 'nops=1 ops=0x0f finals=8', seed=seed))


@spec('C06')
def c06(tier, seed):
    c = cls('WEAR')
    return interleave(
        grid(c, 'w', two(tier, [25, 40], range(20, 200, 9)), 'nops=1 ops=0x0d finals=1 badmask=0x3ff00', styles=(0, 3), seed=seed, time=two(tier, 12, 120)),
        life(c, 'pqrs', two(tier, [120, 250], range(20, 400, 17)), 'nops=1 ops=0x0d finals=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 't', two(tier, [30, 75], range(2, 100, 9)), 'nops=1 ops=0x0d finals=8 badmask=0x3f80', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdefghi', two(tier, range(1, 160, 16), range(1, 200, 5)), 'nops=1 ops=0x7f finals=10', seed=seed),
        grid(c, 'adeci', two(tier, range(2, 160, 20), range(2, 100, 7)), 'nops=1 ops=0x0f finals=2 faults=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'j', two(tier, range(60, 200, 30), range(2, 200, 9)), 'nops=1 ops=0x0d finals=2 faults=1 badmask=0x10211', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abce', two(tier, range(30, 160, 30), range(6, 160, 9)), 'nops=1 ops=0x0f finals=32 prerestart=1 presync=1 keep=4', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'n', two(tier, [80], [60, 100, 150]), 'nops=1 ops=0x1d finals=2', styles=(3,), seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ace', two(tier, [33, 70], range(20, 100, 9)), 'nops=2 ops=0x0d finals=2 faults=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'abc', two(tier, [400], [300, 600, 1500]), 'nops=1 ops=0x0f finals=8', seed=seed))


@spec('C07')
def c07(tier, seed):
    c = cls('OK', 'FULL')
    return interleave(
        grid(c, 'w', two(tier, [25, 40], range(20, 200, 9)), 'nops=1 ops=0x0d finals=1 badmask=0x3ff00', styles=(0, 3), seed=seed, time=two(tier, 12, 120)),
        life(c, 'pqst', two(tier, [100, 250], range(20, 300, 17)), 'nops=1 ops=0x0d finals=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'u', two(tier, [64, 100], range(40, 300, 17)), 'nops=1 ops=0x0d finals=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 't', two(tier, [30, 75], range(2, 100, 9)), 'nops=1 ops=0x0d finals=10 badmask=0x7f', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdefghi', two(tier, range(1, 100, 11), range(1, 100, 5)), 'nops=1 ops=0x7f finals=10', seed=seed),
        grid(c, 'abcd', two(tier, [200, 500], [200, 400, 800, 1600]), 'nops=2 ops=0x1d finals=2', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'klmef', two(tier, [900], [300, 600, 1200, 2400, 4000]), 'nops=1 ops=0x05 finals=1', styles=(3,), seed=seed, time=two(tier, 20, 200)),
        grid(c, 'n', two(tier, [80], [60, 100, 150]), 'nops=1 ops=0x1d finals=2', styles=(3,), seed=seed, time=two(tier, 12, 120)),
        grid(c, 'adec', two(tier, range(2, 100, 24), range(2, 100, 7)), 'nops=1 ops=0x1d finals=2 faults=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ae', two(tier, [30, 60], range(6, 100, 9)), 'nops=1 ops=0x0d finals=24 crashes=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'jj', two(tier, [40, 90], range(6, 100, 9)), 'nops=1 ops=0x1d finals=2 badmask=0x00211', seed=seed, time=two(tier, 12, 120)))


@spec('C08')
def c08(tier, seed):
    c = cls('SIZE')
    return interleave(
        grid(c, 'w', two(tier, [25, 40], range(20, 200, 9)), 'nops=2 ops=0x0d finals=1 badmask=0x3ff00', styles=(0, 3), seed=seed, time=two(tier, 12, 120)),
        life(c, 'pqrs', two(tier, [70, 150], range(20, 300, 17)), 'nops=1 ops=0x0f finals=3', seed=seed, time=two(tier, 12, 120)),
        high(c, 'pqrs', two(tier, [14, 51], range(4, 100, 9)), 'nops=1 ops=0x3f finals=3', seed=seed, time=two(tier, 12, 120)),
        grid(c, 't', two(tier, [30, 75], range(2, 100, 9)), 'nops=1 ops=0x0d finals=2 badmask=0x3f80', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdefghi', two(tier, range(1, 100, 14), range(1, 100, 5)), 'nops=1 ops=0x7f finals=11', seed=seed),
        grid(c, 'abce', two(tier, [7, 38], range(1, 100, 9)), 'nops=2 ops=0x7f finals=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'adeci', two(tier, range(2, 100, 17), range(2, 100, 7)), 'nops=1 ops=0x7f finals=2 faults=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ace', two(tier, [30, 60], range(6, 100, 9)), 'nops=1 ops=0x0d finals=16 crashes=1 presync=1 keep=3', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abd', two(tier, [20, 55], range(6, 100, 9)), 'nops=1 ops=0x7f finals=9 rderrs=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ac', two(tier, [12], range(6, 100, 13)), 'nops=1 ops=0x05 finals=1 faults=9', seed=seed, time=two(tier, 12, 200)))


@spec('C09')
def c09(tier, seed):
    c = cls('ERR', 'DATA', 'SIZE', 'DUR')
    return interleave(
        grid(c, 'w', two(tier, [25, 40], range(20, 200, 9)), 'nops=2 ops=0x05 finals=1 badmask=0x3ff00', styles=(0, 3), seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdef', two(tier, range(5, 100, 24), range(1, 100, 5)), 'nops=1 ops=0x7f finals=2 rderrs=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcde', two(tier, range(1, 100, 14), range(1, 100, 5)), 'nops=1 ops=0x7f finals=9 rderrs=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcd', two(tier, [4, 52], range(1, 100, 9)), 'nops=2 ops=0x31 finals=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'ace', two(tier, [21, 60], range(2, 100, 9)), 'nops=1 ops=0x05 finals=1 faults=9', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'abce', two(tier, [9, 35], range(1, 100, 9)), 'nops=1 ops=0x7f finals=9 rderrs=1 nullerr=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abce', two(tier, [28], range(1, 100, 16)), 'nops=1 ops=0x7f finals=9 faults=1 rderrs=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'ab', two(tier, [30], range(1, 100, 9)), 'nops=2 ops=0x01 finals=1 faults=1 rderrs=1', seed=seed, time=two(tier, 12, 200)))


@spec('C10')
def c10(tier, seed):
    c = cls('DATA', 'ERR', 'FIND')
    return interleave(
        grid(c, 'abcdefhi', two(tier, range(1, 100, 12), range(1, 100, 5)), 'nops=1 ops=0x7f finals=1 rderrs=1 rderrs_end=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abce', two(tier, [6, 30, 70], range(1, 100, 9)), 'nops=1 ops=0x7f finals=9 rderrs=2 rderrs_end=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'abcd', two(tier, [22, 51], range(1, 100, 9)), 'nops=1 ops=0x0d finals=1 rderrs=1 rderrs_end=1 prerestart=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ab', two(tier, [30], range(1, 100, 9)), 'nops=2 ops=0x01 finals=1 faults=1 rderrs=1 rderrs_end=1', seed=seed, time=two(tier, 12, 200)))


@spec('C11')
def c11(tier, seed):
    c = cls('FIND', 'DATA', 'OK')
    return interleave(
        life(c, 'pqrs', two(tier, [70], range(20, 300, 17)), 'nops=1 ops=0x30 finals=1', seed=seed, time=two(tier, 12, 120)),
        high(c, 'pqrs', two(tier, [14], range(4, 100, 9)), 'nops=1 ops=0x30 finals=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdefghi', two(tier, range(1, 100, 14), range(1, 100, 5)), 'nops=1 ops=0x7f finals=11', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcde', two(tier, [6, 30, 70], range(1, 100, 9)), 'nops=2 ops=0x31 finals=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'adec', two(tier, [20, 60], range(1, 100, 9)), 'nops=1 ops=0x31 finals=3 faults=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'n', two(tier, [60, 75], [60, 75, 90, 120]), 'nops=1 ops=0x30 finals=1', styles=(3,), seed=seed, time=two(tier, 12, 120)),
        grid(c, 'n', two(tier, [80], [60, 75, 90, 120]), 'nops=1 ops=0x10 finals=2 faults=1', styles=(3,), seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ab', two(tier, [22, 51], range(1, 100, 9)), 'nops=1 ops=0x30 finals=1 qbits=32', seed=seed, time=two(tier, 12, 120)))


@spec('C12')
def c12(tier, seed):
    c = cls('MARK', 'DUR')
    return interleave(
        life(c, 'pqrs', two(tier, [60], range(20, 300, 17)), 'nops=1 ops=0x05 finals=2 faults=1 markloss=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'adei', two(tier, range(2, 100, 14), range(2, 100, 5)), 'nops=1 ops=0x0d finals=2 faults=1 markloss=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'bcgh', two(tier, range(4, 100, 24), range(2, 100, 7)), 'nops=1 ops=0x05 finals=2 faults=1 markloss=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ace', two(tier, [10, 48], range(2, 100, 9)), 'nops=1 ops=0x05 finals=2 faults=2 markloss=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'abce', two(tier, [30], range(2, 100, 9)), 'nops=1 ops=0x05 finals=2 faults=1 markloss=1 prerestart=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        # contents of a marked block are gone, the map goes on
        grid(cls('MARK', 'DATA', 'OK', 'DUR'), 'bgqsade', two(tier, [40, 11], range(2, 100, 9)), f'nops=1 ops=0x05 finals=2 faults=2 faultgap=16 markloss=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'pqrs', two(tier, [20], range(2, 100, 9)), f'nops=1 ops=0x01 finals=2 faults=7 faultgap=1 markloss=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abc', two(tier, [33], range(2, 100, 16)), 'nops=1 ops=0x7f finals=8 faults=1', seed=seed, time=two(tier, 12, 200)))


@spec('C15')
def c15(tier, seed):
    c = cls('DUR', 'SIZE')
    return interleave(
        life(c, 'pqrs', two(tier, [45, 160], range(20, 400, 17)), 'nops=1 ops=0x05 finals=2 epoch=255', seed=seed, time=two(tier, 12, 120)),
        high(c, 'pqrs', two(tier, [24], range(4, 100, 9)), 'nops=1 ops=0x05 finals=2 epoch=255', seed=seed, time=two(tier, 12, 120)),
        grid(c, 't', two(tier, [60], range(2, 100, 9)), 'nops=1 ops=0x05 finals=2 epoch=255 badmask=0x7f', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcde', two(tier, range(2, 100, 16), range(2, 100, 5)), 'nops=1 ops=0x0d finals=34 epoch=254', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcde', two(tier, range(9, 100, 16), range(2, 100, 5)), 'nops=1 ops=0x0d finals=2 epoch=255', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ade', two(tier, range(30, 100, 16), range(2, 100, 5)), 'nops=1 ops=0x05 finals=16 crashes=1 presync=1 keep=2 epoch=255', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ac', two(tier, range(35, 100, 24), range(2, 100, 7)), 'nops=1 ops=0x05 finals=2 faults=1 epoch=255', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abe', two(tier, [700, 3000], [700, 1500, 3000, 6000]), 'nops=1 ops=0x05 finals=2', seed=seed, time=60))


@spec('C18')
def c18(tier, seed):
    c = cls('FMT')
    return interleave(
        life(c, 'pqrs', two(tier, [70, 150], range(20, 300, 17)), 'nops=1 ops=0x0f finals=4', seed=seed, time=two(tier, 12, 120)),
        high(c, 'pqrs', two(tier, [14, 51], range(4, 100, 9)), 'nops=1 ops=0x1f finals=4', seed=seed, time=two(tier, 12, 120)),
        grid(c, 't', two(tier, [30, 75], range(2, 100, 9)), 'nops=1 ops=0x0d finals=4 badmask=0x7f', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdefghi', two(tier, range(1, 100, 11), range(1, 100, 5)), 'nops=1 ops=0x7f finals=4', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcd', two(tier, [6, 30, 70], range(1, 100, 9)), 'nops=2 ops=0x3f finals=4', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'adec', two(tier, [20, 60], range(1, 100, 9)), 'nops=1 ops=0x0d finals=4 faults=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'j', two(tier, [60, 110], range(1, 200, 9)), 'nops=1 ops=0x0d finals=4 badmask=0x10211', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'abc', two(tier, [22, 51], range(1, 100, 9)), 'nops=1 ops=0x0f finals=4 prerestart=1 presync=1 keep=4 epoch=255', seed=seed, time=two(tier, 12, 120)))


@spec('C19')
def c19(tier, seed):
    c = cls('GC', 'OK')
    return interleave(
        grid(cls('GC', 'OK', 'DUR'), 'abcdefgh', two(tier, [24, 66], range(1, 100, 9)), 'nops=2 ops=0x08 finals=2', seed=seed, time=two(tier, 12, 120)),
        grid(cls('GC', 'DUR'), 'abce', two(tier, [24, 66], range(1, 100, 9)), 'nops=2 ops=0x08 finals=16 crashes=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'w', two(tier, [25, 40], range(20, 200, 9)), 'nops=1 ops=0x09 finals=1 badmask=0x3ff00', styles=(0, 3), seed=seed, time=two(tier, 12, 120)),
        life(c, 'pqst', two(tier, [70, 150], range(20, 300, 17)), 'nops=1 ops=0x0d finals=8', seed=seed, time=two(tier, 12, 120)),
        high(c, 'pqrs', two(tier, [14, 51], range(4, 100, 9)), 'nops=1 ops=0x0d finals=8 draincap=60', seed=seed, time=two(tier, 12, 120)),
        grid(c, 't', two(tier, [30, 75], range(2, 100, 9)), 'nops=1 ops=0x0d finals=8 badmask=0x3f80', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdefghi', two(tier, range(1, 100, 11), range(1, 100, 5)), 'nops=1 ops=0x7f finals=8', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcd', two(tier, [6, 30, 70], range(1, 100, 9)), 'nops=2 ops=0x08 finals=9', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'adec', two(tier, [20, 60], range(1, 100, 9)), 'nops=1 ops=0x08 finals=8 faults=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'j', two(tier, [30, 75], range(1, 100, 9)), 'nops=1 ops=0x0d finals=8 badmask=0x10211', seed=seed, time=two(tier, 12, 120)))


@spec('C20')
def c20(tier, seed):
    c = cls('DATA', 'DUR', 'OK', 'PROTO')
    return interleave(
        grid(c, 'abcde', two(tier, range(1, 100, 16), range(1, 100, 5)), 'nops=1 ops=0x0f finals=3 imprecise=1 ffmod=2 ffop=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcde', two(tier, range(4, 100, 24), range(1, 100, 7)), 'nops=1 ops=0x07 finals=34 imprecise=1 ffmod=1 ffop=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ade', two(tier, [20, 60], range(1, 100, 9)), 'nops=1 ops=0x05 finals=16 crashes=1 presync=1 keep=3 imprecise=1 ffmod=2 ffop=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'bc', two(tier, [20, 60], range(1, 100, 9)), 'nops=1 ops=0x05 finals=16 crashes=1 presync=1 keep=3 imprecise=1 ffmod=1 ffop=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'ac', two(tier, [20, 60], range(1, 100, 9)), 'nops=1 ops=0x05 finals=2 faults=1 imprecise=1 ffmod=2 ffop=1', seed=seed, time=two(tier, 12, 200)))


# ------------------------------------------------------------------ error correction
FOLD = ('-mllvm', '-two-entry-phi-node-folding-threshold=50', '-mllvm', '-phi-node-folding-threshold=50')
ASSUME_ECC = ['z3 and the LLVM front end are correct; every run replays sampled executions natively']
TECH_XAG = ('symbolic execution of the LLVM bitcode of the real kernel; every value bit is kept in XOR/AND normal form over the symbolic input bits, '
            'branches and assertions that do not normalise to a constant are decided by z3; counterexamples replayed on the native build')


def lg2(n):
    k = 0
    while 1 << k < n:
        k += 1
    return k


def HAM(time, lin=None, parts=1, **kw):
    out = []
    for i in range(parts):
        p = dict(kw)
        if 'len' in p:
            p['lg'] = max(1, lg2(8 * p['len']))
        if parts > 1:
            p.update(parts=parts, part=i)
        out.append(dict(harness='hamming.c', srcs=['ecc/hamming.c'], params=p, time=time, extra=FOLD, flags=['-lin', lin] if lin else [], samples=1))
    return out


def lens(tier, seed, n):
    r = random.Random(seed)
    return sorted({1, 2, 511, *(r.randrange(3, 511) for _ in range(n))})


@spec('C26')
def c26(tier, seed):
    c = cls('PURE')
    return interleave(
        life(c, 'pqrs', two(tier, [70], range(20, 300, 17)), 'nops=1 ops=0x0d finals=1', seed=seed, time=two(tier, 12, 120)),
        high(c, 'pqrs', two(tier, [14], range(4, 100, 9)), 'nops=1 ops=0x0d finals=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdefghi', two(tier, range(1, 100, 14), range(1, 100, 5)), 'nops=1 ops=0x7f finals=3', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ab', two(tier, [0, 1], range(4)), 'nops=2 ops=0x43 finals=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abce', two(tier, [30, 62], range(1, 100, 9)), 'nops=2 ops=0x05 finals=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'adec', two(tier, [20, 60], range(1, 100, 9)), 'nops=1 ops=0x0d finals=3 faults=1', seed=seed, time=two(tier, 12, 200)),
        grid(c, 'ace', two(tier, [30, 60], range(6, 100, 9)), 'nops=1 ops=0x0d finals=16 crashes=1 presync=1 keep=3', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abe', two(tier, [22, 51], range(1, 100, 9)), 'nops=1 ops=0x0d finals=1 rderrs=1 rderrs_end=1', seed=seed, time=two(tier, 12, 120)),
        grid(c, 't', two(tier, [30, 75], range(2, 100, 9)), 'nops=1 ops=0x0d finals=3 badmask=0x3f80', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ab', two(tier, [22, 51], range(1, 100, 9)), 'nops=1 ops=0x05 finals=1 qbits=32', seed=seed, time=two(tier, 12, 120)))


@spec('C27', bounds='every collection ratio and bad-block count on chips of 2 to 2^31 pages (page sizes 256 to 65536, 2 to 8192 pages per block; three numbers of blocks for each shape, from 2 to the largest); ' + B_HIST)
def c27(tier, seed):
    c = cls('MCAP')
    r = random.Random(seed)
    shapes = []
    for p in range(8, 17):
        for b in range(1, 14):
            shapes += [(p, b, x) for x in (2, r.randrange(3, 0x80000000 >> b), 0x80000000 >> b)]
    if tier == 'quick':
        shapes = r.sample(shapes, 50)
    t = [dict(harness='mapcap.c', srcs=MAPSRC, params=dict(lpage=p, lppb=b, nblk=x, which=w), time=two(tier, 20, 200), samples=1) for p, b, x in shapes for w in (0, 1)]
    t += grid(c, 'abcdefghi', two(tier, range(1, 100, 19), range(1, 100, 5)), 'nops=1 ops=0x7f finals=10', seed=seed, time=two(tier, 12, 120))
    t += grid(c, 'adec', two(tier, [20, 60], range(1, 100, 9)), 'nops=1 ops=0x0d finals=2 faults=1', seed=seed, time=two(tier, 12, 200))
    t += grid(c, 'tj', two(tier, [30, 75], range(2, 100, 9)), 'nops=1 ops=0x0d finals=2 badmask=0x211', seed=seed, time=two(tier, 12, 120))
    t += grid(c, 'ae', two(tier, [30, 60], range(6, 100, 9)), 'nops=1 ops=0x0d finals=16 crashes=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120))
    t += grid(c, 'u', two(tier, [30, 66, 90, 150], range(5, 300, 9)), 'nops=1 ops=0x0d finals=2', styles=(0, 2), seed=seed, time=two(tier, 12, 120))
    t += grid(c, 'v', two(tier, [420], range(300, 900, 60)), 'nops=1 ops=0x0d finals=2', styles=(0, 2), seed=seed, time=two(tier, 12, 120))
    z = grid(c, 'abce', two(tier, [20, 60], range(1, 100, 9)), 'nops=2 ops=0x05 finals=2', seed=seed, time=two(tier, 12, 200))
    for x, g in zip(z, [0, 1, 255, 3] * 50):
        x['params']['gc'] = g
    return t + z


@spec('C30', bounds='every chunk content and every flipped bit position; chunk lengths 512, 256, 64, 1, 2, 511 and others chosen by the seed',
      outside='chunk lengths not listed; the kernels do not depend on the length other than as loop bound', assumptions=ASSUME_ECC)
def c30(tier, seed):
    t = []
    for n in [512, 256] + (lens(tier, seed, 1) if tier == 'quick' else [64] + lens(tier, seed, 40)):
        t += HAM(200, 'none', len=n, mode=0)
        t += HAM(200, 'pos', len=n, mode=1, kind=0, parts=8 if n > 100 else 1)
        t += HAM(200, 'pos', len=n, mode=1, kind=2)
    return t


@spec('C31', bounds='every chunk content and every pair of flipped bits (data and data, data and code, code and code), every 24-bit syndrome given to repair; '
      'chunk lengths 512 and 64 (quick), more in thorough', outside='chunk lengths not listed', assumptions=ASSUME_ECC)
def c31(tier, seed):
    t = []
    for n in [512, 64] + ([] if tier == 'quick' else [256] + lens(tier, seed, 12)):
        t += HAM(300, 'pos', len=n, mode=2, kind=1, parts=8 if n > 100 else 1)
        t += HAM(300, 'none', len=n, mode=2, kind=0)
        t += HAM(300, 'none', len=n, mode=2, kind=2)
        t += HAM(300, None, len=n, mode=3, parts=8)
    return t


for _i in ('C30', 'C31'):
    SPECS[_i]['technique'] = TECH_XAG


def CRC(time, lin='none', **p):
    return dict(harness='crc.c', srcs=['ecc/crc32.c'], params=p, time=time, flags=['-lin', lin], samples=1)


@spec('C35', bounds='definition, chaining and erased blocks: every content and carry for the block lengths 0 to 8, 64 (cut at every byte), 512 and others (cut at some); '
      'up to three flipped bits: every pair of later positions within 128 bytes (quick) or 512 bytes (thorough) of each other for every content, reduced to that by '
      'the lemma, decided for every carry, byte and difference, that equal bytes carry a difference on injectively; bursts: every 32-bit pattern at every bit offset',
      outside='blocks in which flipped bits lie further apart than 512 bytes; block lengths not listed', assumptions=ASSUME_ECC)
def c35(tier, seed):
    q = tier == 'quick'
    r = random.Random(seed)
    t = [CRC(200, mode=1)] + [CRC(200, mode=0, len=512, step=103)]
    n = 128 if q else 512
    parts = 16 if q else 64
    t += [CRC(600, 'pos', mode=2, len=n, lg=lg2(8 * n), parts=parts, part=i) for i in range(parts)]
    t += [CRC(100, mode=3, shift=s) for s in range(8)]
    t += [CRC(100, mode=0, len=k) for k in [*range(9), 64, r.randrange(9, 64)]]
    if not q:
        t += [CRC(300, mode=0, len=k, step=37) for k in range(65, 513, 29)]
    return t


SPECS['C35']['technique'] = TECH_XAG


def BCH(time, t, lin='pos', tables=True, **p):
    nb = 8 * p['len'] + 13 * t
    return dict(harness='bch.c', srcs=['ecc/bch.c', 'ecc/gf13.c'], params=dict(p, t=t, lg=lg2(nb)), time=time, flags=['-lin', lin], samples=1,
                extra=FOLD, rdefs=() if tables else ('GF13_NO_TABLES',))


@spec('C32', bounds='generation and verification: every chunk content for the listed lengths up to 1016 bytes (the maximum); every word that passes is shown to vanish at the '
      'first 2t powers of the primitive element, which by the BCH bound gives distance 2t+1; decided directly (no set of up to 2t flips passes) for one- and two-byte chunks',
      outside='chunk lengths not listed', assumptions=ASSUME_ECC + ['the BCH bound (a textbook theorem) for lengths at which the distance is not decided directly'])
def c32(tier, seed):
    q = tier == 'quick'
    r = random.Random(seed)
    t = []
    for n in [512] + ([1, r.randrange(2, 64)] if q else [1016, *range(1, 40), *(r.randrange(40, 1016) for _ in range(25))]):
        for k in (4, 3, 2, 1):
            t.append(BCH(300, k, 'none', mode=0, len=n))
            t.append(BCH(300, k, 'none', mode=0, len=n, zero=1))
    for k in (4, 3, 2, 1):
        t.append(BCH(700, k, 'none', mode=2, len=1))
        if not q:
            t.append(BCH(700, k, 'none', mode=2, len=2))
    return t


@spec('C33', bounds='every chunk content; every set of positions of up to t flipped bits for short chunks (t=1: 64 bytes quick, 512 thorough; t=2: 4 / 12 bytes; t=3: 1 / 3 bytes; '
      't=4: a share of 1 byte / all of 1 byte), a share of the positions for 512-byte chunks; table and table-free field arithmetic; more than t flips: stays within its buffers',
      outside='chunk lengths and, for long chunks and large t, position sets not listed', assumptions=ASSUME_ECC)
def c33(tier, seed):
    q = tier == 'quick'
    r = random.Random(seed)
    t = []
    for tb in (True, False):
        def add(ln, parts, which, **kw):
            for i in which:
                t.append(BCH(kw.get('time', 600), kw['t'], tables=tb, mode=1, len=ln, parts=parts, part=i, **{k: v for k, v in kw.items() if k not in ('t', 'time')}))
        add(512, 1024, [r.randrange(1024) for _ in range(2)], t=1)
        for k in (2, 3, 4):
            add(512, 1400, [r.randrange(1400)], t=k, pin=1500, pinr=r.randrange(1500))
        add(64 if q and tb else 16 if q else 256, 8, range(8), t=1)
        add(4 if q and tb else 2 if q else 12, 4, range(4), t=2)
        add(1 if q else 3, 8, ([0, 3, 6] if tb else [5]) if q else range(8), t=3)
        add(1, 60 if q else 16, [r.randrange(24, 32 if tb else 27)] if q else range(16), t=4)
        for k in (1, 2, 3):
            add(1, 47 if q else 16, [r.randrange(5, 30)] if q else range(16), t=k, n=k + 1)
        add(2, 34, [r.randrange(34)], t=2, n=0)
        if not q:
            add(512, 4, range(4), t=1)
            add(64, 16, range(16), t=2)
    return t


@spec('C34', bounds='every element (and pair of elements)', outside='nothing: 13-bit elements are decided exhaustively; for the table build products are decided for every table '
      'that satisfies the lemmas decided on the real tables', assumptions=ASSUME_ECC + ['cbmc is correct'])
def c34(tier, seed):
    nt = ('GF13_NO_TABLES',)
    t = [dict(kind='cbmc', harness='gf13.c', srcs=[], nsrcs=['ecc/gf13.c'], defs=['ABSTRACT'], unwind=14, time=300, opts=['--arrays-uf-always'],
              name='table arithmetic over any tables satisfying the lemmas', bounds='all pairs of non-zero elements')]
    for i in range(8):
        t.append(dict(harness='gf13.c', srcs=['ecc/gf13.c'], params=dict(parts=8, part=i), time=300, flags=['-lin', 'b'], defs=nt, rdefs=nt, samples=1))
    for m, parts, lin in ((0, 32, 'none'), (1, 8, 'b')):
        for i in range(parts):
            t.append(dict(harness='gf13.c', srcs=['ecc/gf13.c'], params=dict(mode=m, parts=parts, part=i), time=300, flags=['-lin', lin], samples=1))
    return t


for _i in ('C32', 'C33', 'C34'):
    SPECS[_i]['technique'] = TECH_XAG
TECH_TOOL = 'symbolic execution of the LLVM bitcode of the real tools (main renamed, printing recorded) with symbolic polynomials, z3 and XOR/AND normal forms deciding every branch and assertion; counterexamples replayed on the native build'
SPECS['C34']['technique'] += '; table products by cbmc (SAT) over abstract tables satisfying the decided lemmas'


@spec('C37', bounds='CRC tables: every 32-bit polynomial, as text of eight digits in upper and lower case, and of fewer digits; Galois field tables: every generator of degree 2 to 8 '
      '(thorough 12) and the shipped one; BCH generators: every primitive generator of degree 2 to 6 (thorough 8) with up to 7 syndromes and the shipped one with up to 8; search: degrees 2 to 8 (thorough 11)',
      outside='generators of higher degree other than the shipped one; layout of the text printed, of which only the numbers are looked at', assumptions=ASSUME_ECC)
def c37(tier, seed):
    q = tier == 'quick'
    r = random.Random(seed)
    t = [dict(harness='gentab.c', srcs=['ecc/crc32.c'], params=dict(p), time=300, flags=['-lin', 'none'], samples=1)
         for p in [dict(digits=8, classes=r.randrange(6561)) for _ in range(two(tier, 3, 30))] + [dict(digits=8, classes=0), dict(digits=8, classes=3280), dict(digits=8, classes=6560, prefix=0),
                   dict(digits=r.randrange(1, 8), classes=r.randrange(3 ** 7)), dict(digits=8, classes=13, bad=1), dict(digits=8, classes=13, lib=1)]]
    gs = ['ecc/bch.c', 'ecc/gf13.c']

    def G(**p):
        t.append(dict(harness='gftool.c', srcs=gs, params=p, time=300, samples=1))
    for m in (0, 1):
        G(mode=m, ship=1)
        for d in range(2, two(tier, 9, 13)):
            G(mode=m, deg=d)
    G(mode=2, ship=1, smax=8)
    for d in range(2, two(tier, 7, 9)):
        G(mode=2, deg=d)
    G(mode=3, degmax=two(tier, 8, 11))
    return t


# ------------------------------------------------------------------ journal layer
SPECS['C37']['technique'] = TECH_TOOL

JGEO = {
    'a': 'lpage=9 lppb=2 nblk=8',                    # group 4 = block
    'b': 'lpage=8 lppb=1 nblk=10',                   # group 2 = block
    'c': 'lpage=9 lppb=3 nblk=6',                    # group 4, two per block
    'd': 'lpage=8 lppb=3 nblk=6',                    # group 2, four per block
    'e': 'lpage=10 lppb=3 nblk=6',                   # group 8 = block
    'f': 'lpage=9 lppb=2 nblk=9 badmask=0x24',       # bad blocks
    'g': 'lpage=9 lppb=2 nblk=9 badmask=0x101',      # first and last block bad
    'h': 'lpage=9 lppb=4 nblk=5',                    # group 4, four per block
    'i': 'lpage=9 lppb=2 nblk=16 badmask=0x7f',      # runs of bad blocks
    'j': 'lpage=8 lppb=1 nblk=18 badmask=0x7f00',
    'k': 'lpage=9 lppb=2 nblk=15 badmask=0x7f00',
    'l': 'lpage=9 lppb=2 nblk=16 badmask=0x3f',      # runs of bad blocks one short of the limit of the search
    'm': 'lpage=8 lppb=1 nblk=18 badmask=0x3f00',
    # room for failed blocks
    'o': 'lpage=9 lppb=2 nblk=16 hfaults=3 hfgap=9',
    'p': 'lpage=8 lppb=1 nblk=24 hfaults=4 hfgap=12',
    'q': 'lpage=9 lppb=3 nblk=13 hfaults=3 hfgap=25',
    'r': 'lpage=8 lppb=3 nblk=13 hfaults=2 hfgap=12',
    's': 'lpage=10 lppb=3 nblk=12 hfaults=3 hfgap=15',
    't': 'lpage=9 lppb=4 nblk=10 hfaults=2 hfgap=30',
    'n': 'lpage=8 lppb=1 nblk=66',                   # an initial guess of one bad block
}
B_JRN = ('concrete pseudo-random histories of enqueue, copy, dequeue, padding, clear, cookie changes, restarts and (some) failures of the listed length, then the listed number of '
         'operations whose kind, data, metadata, copy source and failure / power-loss positions are symbolic, then draining the whole queue')
OUT_JRN = 'chips larger than the listed geometries, more symbolic operations or more simultaneous failures than listed'


def J(chk, geos, hists, rest, styles=(0, 1, 2), seed=1, time=12):
    rnd = random.Random(f'{seed} {rest}')
    out = []
    for h in hists:
        for g in geos:
            out.append(M(chk, f'{JGEO[g]} hist={h + rnd.randrange(3)} hstyle={rnd.choice(styles)} level={rnd.randrange(2, 9)} seed={seed + rnd.randrange(50)} {rest}',
                         time, harness='journal.c', srcs=['dhara/journal.c']))
    return out


def jmix(c, tier, seed, *rows):
    """rows: (geometries, quick hists, thorough hists, settings, quick time)"""
    return interleave(*[J(c, g, two(tier, q, t), r, seed=seed, time=two(tier, tm, tm * 8)) for g, q, t, r, tm in rows])


H4, H2 = range(0, 100, 4), range(0, 150, 2)


@spec('C21', bounds=B_JRN, outside=OUT_JRN)
def c21(tier, seed):
    n = two(tier, 2, 3)
    return jmix(cls('JRN', 'OK'), tier, seed,
                ('opqrst', [25, 70], H4, 'nops=1 ops=0xff finals=3', 6),
                ('ijk', [15, 55], H4, 'nops=1 ops=0x0f finals=3', 6),
                ('abcdefgh', range(0, 100, 6), H2, f'nops={n} ops=0x1f finals=1', 6),
                ('abcdefg', range(3, 90, 12), H2, f'nops={n - 1} ops=0x0f finals=1 faults=1', 6),
                ('abcdefgh', range(5, 90, 12), H2, f'nops={n} ops=0xff finals=3', 6),
                ('abcfg', [0, 10, 20, 41], H4, f'nops={n - 1} ops=0x0f finals=1 fillup=1', 6),
                ('abcde', [15, 33], H4, 'nops=4 ops=0x0b finals=1', 6),
                ('abcd', [200], range(100, 500, 50), 'nops=1 ops=0x0f finals=3', 6))


@spec('C22', bounds='every head, tail and bad-block counts on chips of 2 to 2^31 pages (page sizes 256 to 65536, 2 to 8192 pages per block; three numbers of blocks for each shape, from 2 to the largest); ' + B_JRN, outside=OUT_JRN)
def c22(tier, seed):
    n = two(tier, 2, 3)
    r = random.Random(seed)
    shapes = []
    for p in range(8, 17):
        for b in range(1, 14):
            shapes += [(p, b, x) for x in (2, r.randrange(3, 0x80000000 >> b), 0x80000000 >> b)]
    if tier == 'quick':
        shapes = r.sample(shapes, 60)
    return [dict(harness='geom.c', srcs=['dhara/journal.c'], params=dict(lpage=p, lppb=b, nblk=x), time=two(tier, 30, 200), samples=1) for p, b, x in shapes] + jmix(cls('CAP'), tier, seed,
                ('opqrst', [45, 90], H4, 'nops=1 ops=0x2f finals=1', 6),
                ('n', [40, 64, 90, 140], range(20, 300, 7), 'nops=1 ops=0x2f finals=1', 6),
                ('ijk', [15, 55], H4, 'nops=1 ops=0x0f finals=1', 6),
                ('abcdefgh', range(0, 100, 8), H2, f'nops={n} ops=0x7f finals=1', 6),
                ('abcdefg', range(3, 90, 18), H2, 'nops=2 ops=0x0f finals=1 faults=1', 6),
                ('abcfg', [0, 20, 41, 60], H4, f'nops={n - 1} ops=0x2f finals=1 fillup=1', 6),
                ('abfg', [0, 20, 41], H4, f'nops={n - 1} ops=0x05 finals=1 fillup=1 faults=1', 6))


@spec('C23', bounds=B_JRN, outside=OUT_JRN)
def c23(tier, seed):
    # the block before the tail holds one user page and lies behind a bad block
    edge = [M(cls('JRN'), f"{JGEO['p']} hist={h} hstyle=0 level=2 seed=18 nops=1 ops=0x0f finals=5 fillup=1", 6,
              harness='journal.c', srcs=['dhara/journal.c']) for h in (43, 44, 45)]
    return edge + jmix(cls('JRN'), tier, seed,
                ('oprs', [25, 60], H4, 'nops=1 ops=0x0f finals=5 fillup=1', 6),
                ('abcdefg', range(0, 80, 16), H2, f'nops={two(tier, 1, 2)} ops=0x0f finals=5 fillup=1', 6),
                ('abf', [11, 52], H4, 'nops=2 ops=0x0f finals=5 fillup=1', 8),
                ('acf', [0, 14, 39], H4, 'nops=1 ops=0x05 finals=1 fillup=1 mix=1 faults=1', 8),
                ('ac', [0, 14], H4, 'nops=2 ops=0x05 finals=4 fillup=1 mix=1', 8),
                ('abcfg', [5, 30, 60], H4, 'nops=1 ops=0x0f finals=1 fillup=1 faults=1', 6),
                ('abcdefgh', range(3, 90, 12), H4, 'nops=3 ops=0x9f finals=5', 6),
                ('abcd', [12, 33], H4, 'nops=2 ops=0x0f finals=4 crashes=1', 6))


@spec('C24', bounds=B_JRN, outside=OUT_JRN)
def c24(tier, seed):
    n = two(tier, 1, 2)
    return jmix(cls('JRN', 'MARK'), tier, seed,
                ('opqrst', [20, 50], H4, 'nops=1 ops=0x05 finals=1 faults=1', 6),
                ('lm', [15, 35, 55], H4, 'nops=1 ops=0x05 finals=1 faults=1', 6),
                ('abcdefgh', range(0, 100, 5), H2, f'nops={n} ops=0x0d finals=1 faults=1', 6),
                ('abcdefgh', range(3, 90, 8), H2, f'nops={n} ops=0x05 finals=1 faults=2', 6),
                ('abcdeh', range(2, 90, 12), H2, 'nops=2 ops=0x05 finals=3 faults=1', 6),
                ('abcdh', range(5, 90, 20), H2, 'nops=1 ops=0x05 finals=1 faults=3', 6))


@spec('C25', bounds=B_JRN, outside=OUT_JRN + '; power loss during a recovery (finding F2 of C03)')
def c25(tier, seed):
    n = two(tier, 2, 3)
    return jmix(cls('DUR'), tier, seed,
                ('opqrst', [25, 60], H4, 'nops=1 ops=0xcd finals=2', 6),
                ('ijk', [15, 55], H4, 'nops=1 ops=0x4d finals=2', 6),
                ('abcdefgh', range(0, 100, 6), H2, f'nops={n} ops=0xff finals=2', 6),
                ('abcdefgh', range(3, 90, 15), H2, f'nops={n - 1} ops=0xdf finals=2 faults=1', 6),
                ('abcdefgh', range(5, 90, 9), H2, f'nops={n} ops=0xcd finals=4', 6),
                ('abcdefgh', range(1, 90, 15), H2, f'nops={n} ops=0xdd finals=5 crashes=1', 6),
                ('abcd', [200, 400], [100, 200, 300, 500], 'nops=1 ops=0xdd finals=2', 6))


# ------------------------------------------------------------------ small parts
TECH_CBMC = 'bounded model checking of the real C source (cbmc, SAT); counterexamples replayed on the native build'


@spec('C17', bounds='every log2 page size from 8 to 20 (quick and thorough), every log2 pages per block from 1 to 20, every number of blocks such that pages fit in 31 bits',
      outside='nothing in the supported range', assumptions=['cbmc is correct'])
def c17(tier, seed):
    return [dict(kind='cbmc', harness='geom.c', srcs=['dhara/journal.c'], unwind=32, time=300, name='set-up for every geometry',
                 bounds='log2 page size 8 to 20, log2 pages per block 1 to 20, any number of blocks')]


def EM(mode, xmax, time, repair=False):
    d = [f'MODE={mode}', f'XMAX={xmax}'] + (['REPAIR', 'GF13_NO_TABLES'] if repair else [])
    return dict(kind='cbmc', harness='eccmem.c', srcs=['ecc/hamming.c', 'ecc/bch.c', 'ecc/crc32.c', 'ecc/gf13.c'], defs=d, unwind=max(xmax + 2, 14, 13 * mode + 8 if repair else 0),
                time=time, opts=['--no-malloc-may-fail'], name='buffers of ' + ('Hamming and CRC' if mode == 0 else f'BCH-{mode}') + (' repair' if repair else ''),
                bounds=f'every length from 1 to {xmax} bytes, every contents and code')


@spec('C16', bounds='map: page buffer, instance and data buffers of exactly the documented size and with arbitrary (symbolic) initial contents for page sizes of 256 to 2048 bytes; ' + B_HIST +
      '; two instances: two runs of the same operations of one instance, alone and with those of another one in between, every operation and sector of the last steps symbolic; '
      'error correction: buffers of exactly the length given, every length up to the listed bound', outside=OUT_HIST, assumptions=ASSUME + ['cbmc is correct'])
def c16(tier, seed):
    q = tier == 'quick'
    c = cls('MEM')

    def G(geos, hists, rest, time):
        out = []
        for t in grid(c, geos, hists, rest, seed=seed, time=time):
            t['defs'] = (f'XPAGE={1 << t["params"]["lpage"]}',)
            t['flags'] = ['-uninit']
            out.append(t)
        return out

    def two_i(geo, hist, rest, time):
        return dict(harness='two.c', srcs=MAPSRC, params=dict(P(f'{geo} hist={hist} seed={seed} {rest}')), time=time)
    g2 = ['lpage=8 lppb=2 nblk=24 nsec=5 gc=4', 'lpage=9 lppb=2 nblk=18 nsec=4 gc=4', 'lpage=8 lppb=1 nblk=44 nsec=5 gc=1']
    tw = []
    for i, h in enumerate(two(tier, [0, 13, 50], range(0, 120, 7))):
        tw.append(two_i(g2[i % 3], h, 'nops=1 more=3', two(tier, 15, 100)))
        tw.append(two_i(g2[(i + 1) % 3], h, f'nops=1 xops=0x83 secbits=2 fail={2 * h} fail1={h} lppb1=3', two(tier, 15, 100)))
        tw.append(two_i(g2[(i + 2) % 3], h, 'nops=2 ops=0x21 xops=0x11 secbits=2', two(tier, 15, 200)))
    e = [EM(0, 8, 100), EM(1, 8, 100), EM(2, 8, 100), EM(3, 8, 100), EM(4, 8, 100), EM(1, 1, 200, True)]
    if not q:
        e = [EM(0, 64, 700), EM(1, 2, 700, True), EM(2, 2, 700, True), EM(3, 1, 700, True), EM(4, 1, 700, True)] + [EM(k, 40, 700) for k in (1, 2, 3, 4)]
    return e + interleave(tw,
        G('abcdefghi', two(tier, range(1, 100, 20), range(1, 100, 5)), 'nops=1 ops=0x7f finals=11', two(tier, 12, 120)),
        G('abcdei', two(tier, [14, 47], range(1, 100, 9)), 'nops=1 ops=0x0d finals=3 faults=1', two(tier, 12, 120)),
        G('abce', two(tier, [20, 62], range(1, 100, 9)), 'nops=1 ops=0x0d finals=16 crashes=1 presync=1 keep=2', two(tier, 12, 120)),
        G('adec', two(tier, [33], range(1, 100, 9)), 'nops=1 ops=0x7f finals=9 rderrs=1', two(tier, 12, 120)))


@spec('C36', bounds='every pair of 32-bit values of the error type; messages shorter than 120 characters',
      outside='longer messages (reported as not decided)', assumptions=['cbmc is correct'])
def c36(tier, seed):
    return [dict(kind='cbmc', harness='strerror.c', srcs=['dhara/error.c'], unwind=122, time=300, name='message of every value',
                 bounds='every pair of 32-bit values')]


TECH_MIX = SPECS['C01'].get('technique', 'symbolic execution of the LLVM bitcode of the real code over a NAND model, z3 deciding every branch and assertion') + '; start-up by bounded model checking (cbmc, SAT) over arbitrary chip contents; counterexamples replayed on the native build'
for _i in ('C17', 'C36'):
    SPECS[_i]['technique'] = TECH_CBMC


def RES(what, lg, lppb, nblk=0, time=300, lpage=8, consistent=False):
    d = [what, f'LGBLK={lg}', f'LPPB={lppb}', f'LPAGE={lpage}'] + ([f'NBLK={nblk}'] if nblk else []) + (['CONSISTENT'] if consistent else [])
    return dict(kind='cbmc', harness='resume.c', srcs=['dhara/map.c', 'dhara/journal.c'], defs=d, unwind=max(9, lg + 3), time=time,
                opts=['--object-bits', '14', '--sat-solver', 'cadical'], name=' '.join(d),
                bounds=f'{nblk or f"any number up to {1 << lg}"} blocks of {1 << lppb} pages of {1 << lpage} bytes, every contents as seen through the driver')


B_RES = ('start-up: every chip contents as seen through the driver (bad marks, erased and unreadable pages, header and cookie bytes), for the listed numbers of blocks and '
         'pages per block; ')


@spec('C14', bounds=B_RES + 'start-up and use afterwards on the chip of: ' + B_HIST,
      outside='chips larger than 200 blocks (quick: 24) or 1000 (thorough)', assumptions=ASSUME + ['cbmc is correct'])
def c14(tier, seed):
    c = cls('RO', 'ERR', 'MEM', 'OK')
    q = tier == 'quick'
    t = [RES('RO', 4, 1, 16), RES('RO', 4, 2, 11), RES('RO', 4, 3, 9, lpage=9)] if q else \
        [RES('RO', 6, 2, time=780), RES('RO', 8, 2, 200, time=780), RES('RO', 10, 1, 1000, time=780), RES('RO', 6, 3, 60, lpage=9, time=780), RES('RO', 5, 4, 25, lpage=9, time=780),
         RES('RO', 4, 1, time=780), RES('RO', 3, 1, 6, consistent=True, time=780)]
    return t + interleave(
        grid(c, 'abcdefghi', [0] if q else [0, 0], 'nops=1 ops=0x0f finals=3 foreign=3', seed=seed, time=two(tier, 12, 100)),
        grid(c, 'abcdefghi', two(tier, [23], range(0, 100, 9)), 'nops=1 ops=0x7f finals=18', seed=seed, time=two(tier, 12, 100)),
        grid(c, 'ace', two(tier, [33], range(3, 100, 9)), 'nops=1 ops=0x05 finals=16 crashes=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'ad', two(tier, [12], range(3, 100, 9)), 'nops=1 ops=0x0d finals=2 faults=1', seed=seed, time=two(tier, 12, 120)))


@spec('C13', bounds=B_RES + 'other calls: ' + B_HIST + ', and chips of 480 blocks', outside=OUT_HIST, assumptions=ASSUME + ['cbmc is correct'])
def c13(tier, seed):
    c = cls('WORK')
    q = tier == 'quick'
    t = [RES('WORK', 4, 1, 16), RES('WORK', 4, 2, 11)] if q else \
        [RES('WORK', 8, 2, time=780), RES('WORK', 8, 2, 200, time=780), RES('WORK', 6, 3, 60, lpage=9, time=780), RES('WORK', 10, 1, 1000, time=780)]
    big = 'lpage=8 lppb=1 nblk=480 gc=1 nsec=9 secbits=4 fill=99'
    t += [M(c, f'{big} hist={h} hstyle={i % 3} secstyle={i % 4} seed={seed + i} nops=1 ops=0x0f finals=2', two(tier, 25, 100)) for i, h in enumerate(two(tier, [0, 300, 460], range(0, 900, 60)))]
    return t + interleave(
        high(c, 'pqrs', two(tier, [14], range(4, 100, 9)), 'nops=1 ops=0x1f finals=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abcdefghi', two(tier, range(1, 100, 14), range(1, 100, 5)), 'nops=1 ops=0x7f finals=11', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'adegi', two(tier, [20, 55], range(1, 100, 9)), 'nops=1 ops=0x0f finals=3 faults=2', seed=seed, time=two(tier, 12, 120)),
        grid(c, 'abce', two(tier, [41], range(1, 100, 9)), 'nops=1 ops=0x05 finals=16 crashes=1 presync=1 keep=2', seed=seed, time=two(tier, 12, 120)))


for _i in ('C13', 'C14'):
    SPECS[_i]['technique'] = TECH_MIX
SPECS['C16']['technique'] = TECH_MIX.replace('start-up by bounded model checking (cbmc, SAT) over arbitrary chip contents', 'buffers of the error correction codes by bounded model checking (cbmc, SAT)')
