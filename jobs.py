"""Which harness runs with which concrete parameters decide each property.  Everything not a parameter is symbolic."""
T = {}
B = {}
ASSUMPTIONS = [
    "LLVM IR produced by rustc (opt-level 2, overflow checks on, loop/SLP vectorisation off) represents the source; the same compilation yields the native replayer",
    "models of the allocator, libm, std::alloc/format/panic machinery and LLVM intrinsics in /verif/engine/src/ext.rs and flt*.rs",
    "sizes are the job parameters listed under harnesses and bounds; contents and the parameters named in bounds are symbolic",
]


def J(prop, h, cfgs, build="simd", avx2=1, secs=120, paths=200000, trace=16, tier="quick", weight=1):
    """cfgs: a list of parameter tuples"""
    for b in build.split(","):
        for c in cfgs:
            c = list(c) if isinstance(c, (tuple, list)) else [c]
            T.setdefault(prop, []).append(dict(h=h, cfg=c, build=b, avx2=avx2, secs=secs, paths=paths, trace=trace, tier=tier, weight=weight))


def bound(prop, text):
    B.setdefault(prop, []).append(text)


def bounds(prop):
    return " ".join(B.get(prop, []))


def jobs(prop, tier):
    return [j for j in T.get(prop, []) if tier == "thorough" or j["tier"] == "quick"]


def prod(*ls):
    r = [()]
    for l in ls:
        r = [a + (tuple(x) if isinstance(x, (tuple, list)) else (x,)) for a in r for x in l]
    return r


def wide(cfgs, ext=((32, -300), (3, -40)), *more):
    """f32 contents byte * s / 8 + o instead of the bytes themselves (parameters 46 and 47)"""
    return [tuple(c) + (0,) * (46 - len(c)) + tuple(e) + more for c in cfgs for e in ext]
WTEXT = " Also contents byte*4-300 and byte*3/8-40 (negative, above 255 and fractional values) on smaller images."


def big(c, ns=6, first=1, step=1, x=(0, 1), y=(0, 1), w=(0, 1), h=(0, 1)):
    """parameters of a large image: concrete background, ns symbolic values, coordinates from the ranges (start, count)"""
    c = list(c)
    return tuple(c + [0] * (30 - len(c)) + [1, ns, first, step] + [n for p in (x, y, w, h) for n in p])


# large images: widths, heights, pixel counts, byte counts and channel counts beyond 255 and 65535
LAY = [(300, 260, 1, 0), (300, 3, 3, 0), (3, 300, 4, 1), (70000, 1, 1, 0), (1, 70000, 1, 0), (300, 100, 4, 1), (2, 2, 200, 1), (3, 1, 255, 0)]
STRIP = [(300, 2, 3, 0), (2, 300, 2, 1), (1, 70000, 1, 0), (70000, 1, 1, 0)]
LTEXT = " Also images with more than 255 and more than 65535 columns, rows and pixels (300x260, 70000x1, 1x70000, 300x100 with 4 channels, 200 and 255 channels and similar) with a concrete background and up to 8 symbolic values, coordinates in symbolic ranges around the multiples of 256 and 65536 and the far edges."


def spots(w, h):
    """coordinate ranges (start, count) around 0, 2^8, 2^16 and the far end, pairwise"""
    def one(n):
        r = [(0, min(n, 2))]
        for b in (256, 65536):
            if n > b:
                r.append((b - 2, min(4, n - b + 2)))
        if n > 3:
            r.append((n - 2, 2))
        return r
    a, b = one(w), one(h)
    return [(a[i % len(a)], b[(i + i // len(a)) % len(b)]) for i in range(max(len(a), len(b)) + 1)]


def bigs(lay, post=((),), ns=6):
    """for each layout and each tail of parameters, every spot"""
    r = []
    for d in lay:
        n = d[0] * d[1] * d[2]
        for t in post:
            for x, y in spots(d[0], d[1]):
                p = (y[0] * d[0] + x[0]) * d[2]
                r.append(big(d + tuple(t), min(ns, n), p, max(1, n // 7), x, y))
    return r


def bigs1(lay, post=((),), ns=6):
    """for each layout and each tail of parameters, once (no coordinates)"""
    return [big(d + tuple(t), ns, d[0] * d[1] * d[2] // 3, max(1, d[0] * d[1] * d[2] // 7)) for d in lay for t in post]


# image layouts: (w, h, channels, alpha)
SMALL = [(1, 1, 1, 0), (3, 2, 3, 0), (2, 3, 4, 1), (4, 1, 2, 1), (1, 4, 1, 0)]
BIG = [(5, 4, 3, 0), (4, 5, 4, 1), (7, 3, 1, 0), (6, 6, 2, 1), (3, 3, 5, 0), (3, 4, 5, 1)]

# ---------------------------------------------------------------- P01
bound("P01", "Images of the listed sizes (up to 5x4, thorough 6x6), 1-5 channels; coordinates of reads and writes symbolic over the image, out-of-range coordinates symbolic over all u32; contents symbolic; replacement pixels of 0..6 channels.")
J("P01", "h_p01_read", SMALL + [(5, 4, 3, 0)])
J("P01", "h_p01_write", prod(SMALL, range(5)))
J("P01", "h_p01_oob", prod(SMALL, range(4)))
J("P01", "h_p01_len", prod([(3, 2, 3, 0), (2, 2, 4, 1)], range(7), (0, 1)))
J("P01", "h_p01_read", BIG, tier="thorough")
J("P01", "h_p01_write", prod(BIG, range(5)), tier="thorough")
J("P01", "h_p01_oob", prod(BIG, range(4)), tier="thorough")
bound("P01", LTEXT)
J("P01", "h_p01_read", bigs(LAY))
J("P01", "h_p01_write", bigs(LAY[1:3] + LAY[6:], prod(range(5))) + bigs(LAY[:1] + LAY[3:5], [(0,), (1,)], 4))
J("P01", "h_p01_oob", bigs1(LAY, [(0,), (1,), (3,)]) + [big(d + (2,), 3, 1, 1, (max(0, d[0] - 2) + e, 4), (max(0, d[1] - 2) + f, 4)) for d in LAY for e, f in [(0, 0), (256, 0), (65536, 0), (0, 256), (0, 65536), (1 << 31, 0), (0, 1 << 31)]])
# ---------------------------------------------------------------- P02
bound("P02", "Constructors on the listed layouts with symbolic contents; derived sizes for all u32 widths and heights and all u8 channel counts whose products fit.")
J("P02", "h_p02_ctor", prod(SMALL, range(6)))
J("P02", "h_p02_sizes", [(0, 0), (2, 0)] + [(1, c) for c in (1, 2, 3, 4, 5, 255)])
J("P02", "h_p02_ctor", prod(BIG, range(6)), tier="thorough")
bound("P02", LTEXT)
J("P02", "h_p02_ctor", bigs1(LAY, prod(range(6))))
# ---------------------------------------------------------------- P03
bound("P03", "Sub-image position and size symbolic over every rectangle of the listed images; neighbourhood centre symbolic over the image, sizes 1..7 (larger than the image), both directions; contents symbolic.")
J("P03", "h_p03_sub", SMALL + [(3, 3, 1, 0)])
J("P03", "h_p03_n1", prod(SMALL, (1, 3, 5, 7), (0, 1)) + prod([(3, 2, 3, 0)], (2, 4), (0, 1)))
J("P03", "h_p03_n2", prod(SMALL, (1, 3, 5)) + [(3, 2, 3, 0, 7), (3, 2, 3, 0, 2), (3, 3, 1, 0, 4)])
J("P03", "h_p03_sub", BIG, tier="thorough")
J("P03", "h_p03_n1", prod(BIG, (1, 3, 5, 7, 9), (0, 1)), tier="thorough")
J("P03", "h_p03_n2", prod(BIG, (1, 3, 5, 7)), tier="thorough")
bound("P03", LTEXT + " Neighbourhoods of up to 301 pixels a side, sub-images of more than 65535 pixels.")
J("P03", "h_p03_n1", bigs(LAY, prod((3, 9), (0, 1))) + bigs(LAY[:2], prod((301,), (0, 1))))
J("P03", "h_p03_n2", bigs(LAY, [(3,)]) + bigs(LAY[1:2], [(33,)]) + [big((5, 4, 1, 0, 261), 4, 1, 3)])
J("P03", "h_p03_sub", [big((300, 260, 1, 0), 6, 1000, 11003, (2, 2), (1, 1), (256, 1), (257, 2)), big((70000, 1, 1, 0), 6, 1000, 11003, (2, 2), (0, 1), (65536, 2), (1, 1)), big((1, 70000, 1, 0), 6, 1000, 11003, (0, 1), (65535, 2), (1, 1), (4000, 2)),
                       big((300, 3, 3, 0), 6, 100, 113, (255, 2), (1, 1), (40, 2), (2, 1)), big((3, 1, 255, 0), 6, 100, 113, (0, 2), (0, 1), (2, 1), (1, 1))])
# ---------------------------------------------------------------- P04
bound("P04", "Every prefix of the iteration of the listed images (0..20 pixels, also empty ones), contents symbolic.")
J("P04", "h_p04_iter", SMALL + BIG[:3] + [(0, 3, 3, 0), (3, 0, 1, 0), (0, 0, 2, 1)])
J("P04", "h_p04_iter", BIG[3:] + [(9, 7, 1, 0), (1, 30, 2, 1)], tier="thorough")
J("P04", "h_p04_ways", prod([(3, 4, 1, 0), (1, 3, 2, 1), (4, 1, 1, 0), (2, 2, 3, 0), (1, 1, 4, 1), (0, 3, 1, 0), (3, 0, 1, 0)], range(9), range(6)))
bound("P04", LTEXT)
J("P04", "h_p04_iter", bigs1(LAY))
# ---------------------------------------------------------------- P07
bound("P07", "x, y, width, height symbolic over all of u32 on the listed images; contents symbolic; u8 and arbitrary f32 bit patterns.")
J("P07", "h_p07_crop", SMALL + [(3, 3, 1, 0)])
J("P07", "h_p07_cropf", [(2, 2, 3, 0), (3, 2, 2, 1)])
J("P07", "h_p07_crop", BIG, tier="thorough")
bound("P07", LTEXT)
J("P07", "h_p07_crop", [big((300, 260, 1, 0), 6, 1000, 11003, (2, 2), (1, 1), (256, 1), (257, 2)), big((70000, 1, 1, 0), 6, 1000, 11003, (2, 2), (0, 1), (65536, 2), (1, 1)), big((1, 70000, 1, 0), 6, 1000, 11003, (0, 1), (65535, 2), (1, 1), (4000, 2)),
                        big((300, 3, 3, 0), 6, 100, 113, (255, 2), (0, 2), (43, 4), (2, 2)), big((3, 300, 4, 1), 6, 100, 113, (0, 3), (255, 2), (1, 3), (43, 4)), big((300, 260, 1, 0), 6, 1000, 11003, (298, 3), (258, 3), (1, 2), (1, 2)), big((3, 1, 255, 0), 6, 100, 113, (0, 2), (0, 1), (2, 1), (1, 1))])
# ---------------------------------------------------------------- P08
bound("P08", "Positions symbolic over all of u32, weights symbolic over n/256 (acceptance: every non-NaN f32); back and front sizes as listed (front smaller, larger, taller, wider); contents symbolic (integers 0..255 for blending).")
FR = [(3, 2, 3, 0, 2, 2, 3, 0), (2, 3, 4, 1, 3, 1, 4, 1), (3, 3, 1, 0, 1, 1, 1, 0), (2, 2, 2, 1, 3, 3, 2, 1), (2, 2, 3, 0, 2, 2, 4, 1), (2, 2, 1, 0, 1, 2, 3, 0), (1, 3, 1, 0, 3, 1, 1, 0)]
J("P08", "h_p08_overlay", FR)
J("P08", "h_p08_super", FR)
J("P08", "h_p08_weight", [(2, 2, 3, 0), (1, 1, 1, 0)])
J("P08", "h_p08_overlay", [(5, 4, 3, 0, 3, 3, 3, 0), (4, 4, 4, 1, 2, 5, 4, 1)], tier="thorough")
J("P08", "h_p08_super", [(5, 4, 3, 0, 3, 3, 3, 0), (4, 4, 4, 1, 2, 5, 4, 1)], tier="thorough")
bound("P08", LTEXT)
L08 = [((300, 260, 1, 0, 280, 3, 1, 0), (250, 10), (257, 4)), ((300, 260, 1, 0, 3, 280, 1, 0), (298, 3), (0, 2)), ((300, 3, 3, 0, 2, 2, 3, 0), (254, 4), (1, 2)), ((3, 300, 4, 1, 2, 280, 4, 1), (1, 2), (255, 3)),
       ((70000, 1, 1, 0, 4, 1, 1, 0), (65534, 4), (0, 2)), ((1, 70000, 1, 0, 1, 66000, 1, 0), (0, 1), (255, 2)), ((2, 2, 200, 1, 1, 1, 200, 1), (1, 1), (0, 2))]
J("P08", "h_p08_overlay", [big(d, 3, 50, 1003, x, y) for d, x, y in L08])
J("P08", "h_p08_super", [big(d, 3, 50, 1003, (x[0] + x[1] // 2, 2), (y[0] + y[1] // 2, 1)) for d, x, y in L08])
# ---------------------------------------------------------------- P09
bound("P09", "Shifts symbolic over all of u32 on the listed images, contents symbolic, u8 and arbitrary f32 bit patterns.")
J("P09", "h_p09_translate", SMALL + [(3, 3, 1, 0), (4, 3, 3, 0)])
J("P09", "h_p09_translatef", [(3, 2, 3, 0), (2, 2, 2, 1)])
J("P09", "h_p09_translate", BIG, tier="thorough")
bound("P09", LTEXT)
J("P09", "h_p09_translate", bigs(LAY))
J("P09", "h_p09_translatef", bigs(LAY[1:3]))
# ---------------------------------------------------------------- P10
bound("P10", "The listed images (odd and even sizes, 1-5 channels), both axes, contents symbolic, position of the checked pixel symbolic.")
J("P10", "h_p10_reflect", prod(SMALL + [(3, 3, 1, 0), (4, 4, 3, 0), (5, 2, 4, 1)], (0, 1)))
J("P10", "h_p10_reflectf", prod([(3, 2, 3, 0), (2, 3, 2, 1)], (0, 1)))
J("P10", "h_p10_reflect", prod(BIG + [(8, 8, 4, 1), (9, 7, 3, 0)], (0, 1)), tier="thorough")
bound("P10", LTEXT)
J("P10", "h_p10_reflect", bigs(LAY, prod((0, 1))))
# ---------------------------------------------------------------- P11
bound("P11", "Quarter turns from -3 to 5 on odd and even sizes up to 5x4; every whole degree from -45 to 405 (symbolic, split by value) and fractional angles on small images; contents are arbitrary f32 bit patterns.")
J("P11", "h_p11_quarter", prod(SMALL + [(2, 2, 1, 0), (3, 3, 3, 0), (5, 4, 1, 0), (4, 5, 2, 1)], (0, 1, 2, 3)) + prod([(3, 2, 3, 0), (4, 3, 1, 0)], (-3, -2, -1, 4, 5)))
J("P11", "h_p11_any", prod([(3, 2, 3, 0), (4, 4, 1, 0)], (1, 50, 181, 359, 361, 539, 700, 719, 1079, 1261)))
J("P11", "h_p11_angle", [(3, 2, 1, 0, a, 45) for a in range(-45, 405, 45)] + [(2, 3, 2, 1, a, 45) for a in range(0, 360, 45)])
J("P11", "h_p11_quarter", prod(BIG + [(9, 6, 1, 0), (16, 11, 1, 0), (31, 2, 1, 0)], (0, 1, 2, 3)), tier="thorough")
J("P11", "h_p11_angle", [d + (a, 15) for d in ((5, 4, 3, 0), (7, 7, 1, 0), (1, 9, 1, 0)) for a in range(-45, 405, 15)], tier="thorough")
bound("P11", LTEXT)
J("P11", "h_p11_quarter", bigs1(LAY, prod((0, 1, 2, 3))))
# ---------------------------------------------------------------- P12
bound("P12", "Images up to 5x4; horizontal and vertical factors from a table of exactly representable fractions (1/4..4) for the exact specifications, further fractions to within 0.05 (either neighbour where a pixel ends on a border); negative factors: every f32; contents symbolic (arbitrary bit patterns for nearest neighbour, integers 0..255 for bilinear).")
FAC = [(1, 1, 1), (2, 2, 1), (2, 1, 1), (1, 2, 1), (3, 2, 1), (1, 1, 2), (3, 3, 2), (3, 5, 4), (1, 2, 4), (7, 3, 2), (3, 1, 4)]
J("P12", "h_p12_nearest", prod([(3, 2, 3, 0), (4, 3, 1, 0), (2, 3, 2, 1), (1, 1, 1, 0)], FAC))
J("P12", "h_p12_bilinear", prod([(3, 2, 3, 0), (4, 3, 1, 0), (2, 3, 2, 1), (1, 1, 1, 0)], FAC))
ANY = [(1, 1, 3), (2, 5, 3), (7, 10, 5), (1, 9, 10), (11, 13, 7), (99, 101, 100), (149, 151, 100)]
J("P12", "h_p12_any", prod([(3, 2, 1, 0), (5, 4, 1, 0)], ANY, (0, 1)))
J("P12", "h_p12_neg", prod([(2, 2, 1, 0)], (0, 1), (0, 1)))
J("P12", "h_p12_nearest", prod([(5, 4, 3, 0), (7, 3, 1, 0), (3, 4, 5, 1)], FAC + [(5, 9, 8), (13, 11, 4), (5, 1, 1)]), tier="thorough")
J("P12", "h_p12_bilinear", prod([(5, 4, 3, 0), (7, 3, 1, 0), (3, 4, 5, 1)], FAC + [(5, 9, 8), (13, 11, 4), (5, 1, 1)]), tier="thorough")
J("P12", "h_p12_any", prod([(7, 9, 1, 0), (10, 10, 1, 0)], ANY + [(333, 250, 1000), (617, 1999, 1000)], (0, 1)), tier="thorough")
bound("P12", LTEXT)
J("P12", "h_p12_nearest", bigs1(LAY, [(1, 1, 1), (1, 1, 2)]) + bigs1(LAY[:3] + LAY[6:], [(3, 5, 4), (1, 3, 2)]) + bigs1(LAY[1:3], [(2, 2, 1), (4, 1, 1)]) + [big((300, 260, 1, 0, nx, ny, 1024), 6, 1000, 11003) for nx, ny in [(8, 1024), (1024, 4), (24, 40), (1020, 1028)]] + [big((5, 4, 1, 0, nx, ny, 1), 6, 1, 3) for nx, ny in [(60, 1), (1, 70), (13000, 1), (1, 17000)]])
J("P12", "h_p12_bilinear", bigs1(LAY, [(1, 1, 1), (1, 1, 2)]) + bigs1(LAY[1:3] + LAY[6:], [(3, 5, 4), (1, 3, 2), (2, 2, 1)]) + [big((300, 260, 1, 0, nx, ny, 1024), 6, 1000, 11003) for nx, ny in [(8, 1024), (1024, 4), (16, 64)]] + [big((5, 4, 1, 0, nx, ny, 1), 6, 1, 3) for nx, ny in [(64, 1), (1, 128)]])
# ---------------------------------------------------------------- P13
bound("P13", "Images up to 4x3, factors from the same table, Lanczos window sizes 1..4; contents integers 0..255, symbolic; agreement within 0.05.")
J("P13", "h_p13_weighted", prod([(3, 2, 3, 0), (4, 3, 1, 0), (2, 2, 2, 1)], [(1, 1, 1), (2, 2, 1), (1, 1, 2), (3, 5, 4), (3, 1, 2)], (2, 3)) + prod([(3, 2, 1, 0)], [(2, 2, 1), (3, 1, 2)], (5, 6, 8)))
J("P13", "h_p13_weighted", prod([(5, 4, 3, 0), (4, 5, 2, 1), (1, 1, 1, 0)], FAC, (2, 3, 5, 6, 7, 8, 9)), tier="thorough")
bound("P13", "Also images 300 pixels wide or tall and 400 pixels in all after enlargement by 64, with a concrete background and 4 symbolic values.")
J("P13", "h_p13_weighted", bigs1([(300, 2, 1, 0), (2, 300, 2, 1), (1, 300, 3, 0)], [(1, 1, 1, m) for m in (2, 3)] + [(1, 1, 2, m) for m in (2, 5)], 4) + [big((3, 2, 1, 0, 64, 1, 1, m), 4, 1, 1) for m in (2, 3)] + [big((2, 3, 1, 0, 1, 64, 1, m), 4, 1, 1) for m in (2, 3)])
# ---------------------------------------------------------------- P14
bound("P14", "Images up to 6x4, shears n/4 and n/8 of either sign up to 2 for exact placement, further bit patterns (next to 1, huge fractions) for absence of panics; contents arbitrary f32 bit patterns.")
SH = [(0, 0, 1), (1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (1, 1, 2), (-1, 1, 2), (1, -1, 2), (-3, -1, 4), (3, 1, 4), (3, 0, 2), (0, 5, 4), (7, 3, 8), (-5, 0, 4)]
J("P14", "h_p14_shear", prod([(3, 2, 3, 0), (4, 4, 1, 0), (2, 3, 2, 1), (1, 1, 1, 0)], SH))
# 0.9999999, -0.9999999, 0.33333334, 0.1, 1.1, -0.7
SB = [0x3f7fffff, 0xbf7fffff, 0x3eaaaaab, 0x3dcccccd, 0x3f8ccccd, 0xbf333333]
J("P14", "h_p14_any", prod([(6, 3, 1, 0), (3, 6, 1, 0), (4, 4, 3, 0)], [(a, 0) for a in SB] + [(0, a) for a in SB] + [(SB[2], SB[3]), (SB[0], SB[5])]))
J("P14", "h_p14_shear", prod(BIG, SH), tier="thorough")
J("P14", "h_p14_any", prod([(11, 7, 1, 0), (7, 30, 1, 0)], prod(SB, SB)), tier="thorough")
bound("P14", LTEXT + " Sheared into at most 600 rows or columns more.")
J("P14", "h_p14_shear", bigs1(LAY[:3] + LAY[6:], [(0, 0, 1), (1, 0, 1), (-1, 0, 2), (0, 1, 2), (0, -1, 1), (-3, 1, 4)]) + bigs1([(70000, 1, 1, 0)], [(3, 0, 1), (-1, 0, 1)]) + bigs1([(1, 70000, 1, 0)], [(0, 3, 1), (0, -1, 1)]) + [big((6, 4, 1, 0, nx, ny, 1), 6, 1, 3) for nx, ny in [(75, 0), (-70, 0), (0, 50), (0, -45), (16500, 0), (0, -11000)]])
# ---------------------------------------------------------------- P05
bound("P05", "Images of the listed layouts (1-5 channels, with and without alpha, also empty), contents symbolic; the functions distinguish channels, change the channel count (1 to 3 extra) and separate colour from alpha; pixels of 1..6 channels, also arbitrary f32 bit patterns.")
J("P05", "h_p05_channels", prod(SMALL + [(3, 3, 5, 1), (0, 2, 3, 1)], (0, 1)))
J("P05", "h_p05_pixels", prod(SMALL + [(2, 2, 5, 1), (0, 2, 3, 1)], (0, 1), (0, 1, 3, 9)))
J("P05", "h_p05_apply", prod(SMALL + [(3, 3, 5, 1), (2, 0, 3, 1)], range(4)))
J("P05", "h_p05_wrong", prod([(2, 2, 3, 0), (2, 1, 4, 1)], range(7)))
J("P05", "h_p05_edit", SMALL + [(3, 3, 5, 1)])
J("P05", "h_p05_pixel", range(1, 7))
J("P05", "h_p05_pixelf", range(1, 5))
J("P05", "h_p05_channels", prod(BIG, (0, 1)), tier="thorough")
J("P05", "h_p05_pixels", prod(BIG, (0, 1), (0, 1, 3, 9)), tier="thorough")
J("P05", "h_p05_apply", prod(BIG, range(4)), tier="thorough")
J("P05", "h_p05_edit", BIG, tier="thorough")
bound("P05", LTEXT)
J("P05", "h_p05_channels", bigs1(LAY, prod((0, 1))))
J("P05", "h_p05_pixels", bigs1(LAY, prod((0, 1), (0, 9))))
J("P05", "h_p05_apply", bigs1(LAY, prod(range(4))))
# ---------------------------------------------------------------- P06
bound("P06", "Every 8-bit value, every finite f32 (also widened to f64), every u16 and u32, u64/usize/u128 below 2^52 and blocks of values shifted beyond it; the nearest-integer conversion over every f64; scales in blocks of 16 up to 2^32-1; range rescaling with integer offsets -32..31 and the listed extents.")
J("P06", "h_p06_round", prod(SMALL, (0, 1)))
J("P06", "h_p06_wide", range(6))
J("P06", "h_p06_nearest", (0, 1))
J("P06", "h_p06_nearest64", (0,))
J("P06", "h_p06_shifted", [(t, k) for t in (0, 1) for k in (36, 45, 48)] + [(2, k) for k in (36, 48, 60, 64, 100, 112)])
SCALES = [1, 17, 90, 250, 1000, 65530, 16777208, 4294967280]
J("P06", "h_p06_scale", SCALES)
J("P06", "h_p06_channels", [(1, 0, 255), (7, -10, 20), (255, 0, 1), (-4, 100, -200), (1020, 0, 255), (3, 5, 0)])
J("P06", "h_p06_scale", [1 + 16 * i for i in range(64)] + [10 ** i for i in range(4, 10)], tier="thorough")
J("P06", "h_p06_channels", prod([1, 2, 5, 100, 510, -1], [0, -128, 17], [1, 100, 255, -255]), tier="thorough")
bound("P06", LTEXT)
J("P06", "h_p06_round", bigs1(LAY, prod((0, 1))))
# ---------------------------------------------------------------- P15
bound("P15", "Images up to 4x4 and 1-4 channels with contents 0..255 symbolic; kernel entries symbolic multiples of 1/8 in -1..1; lengths 1..7 (also even and mismatched), larger than the image; both directions.")
J("P15", "h_p15_1d", prod([(3, 2, 3, 0), (4, 4, 1, 0), (2, 3, 2, 1), (1, 1, 4, 1)], range(1, 8), (0, 1)))
J("P15", "h_p15_sep", [(3, 2, 3, 0, 3, 3), (4, 4, 1, 0, 3, 3), (4, 3, 1, 0, 5, 5), (2, 2, 2, 1, 1, 1), (2, 2, 1, 0, 3, 5), (2, 2, 1, 0, 5, 3), (2, 2, 1, 0, 2, 2), (2, 2, 1, 0, 4, 3), (2, 2, 1, 0, 3, 4)] + prod([(1, 3, 1, 0), (3, 1, 2, 1), (1, 1, 3, 0), (1, 2, 4, 1), (2, 1, 1, 0), (5, 1, 1, 0), (1, 5, 1, 0)], [(1, 1), (3, 3), (5, 5), (7, 7)]))
J("P15", "h_p15_1d", prod(BIG, (3, 5, 7, 9, 11), (0, 1)), tier="thorough")
J("P15", "h_p15_sep", prod(BIG, [(3, 3), (5, 5), (7, 7)]), tier="thorough")
bound("P15", LTEXT + " Kernels of 9 to 301 entries, all symbolic.")
J("P15", "h_p15_1d", bigs1(STRIP, prod((1, 3, 5), (0, 1)), 3) + bigs1([(300, 4, 1, 0), (3, 290, 1, 0)], prod((9, 31), (0, 1)), 0) + [big((4, 3, 1, 0, n, v), 0) for n in (127, 257, 301) for v in (0, 1)])
J("P15", "h_p15_sep", bigs1(STRIP[:2], [(3, 3), (5, 5)], 0) + [big((3, 2, 1, 0, n, n), 0) for n in (9, 17)])
# ---------------------------------------------------------------- P16
bound("P16", "Images up to 5x5 with contents 0..255 symbolic; symbolic kernels (multiples of 1/8) of sizes 1, 3, 5 for the direct filter; for the path through the singular value decomposition and the named filters the listed concrete kernels, sizes and sigmas; every kernel length 1..26 for validation.")
J("P16", "h_p16_2d", prod([(3, 2, 3, 0), (4, 4, 1, 0), (2, 3, 2, 1)], (1, 3, 5)))
J("P16", "h_p16_linear", prod([(4, 3, 1, 0), (2, 3, 3, 0), (3, 3, 2, 1), (1, 3, 1, 0), (3, 1, 1, 0)], range(21)))
J("P16", "h_p16_len", prod([(2, 2, 1, 0)], [n for n in range(1, 27)] + [49], (0, 1)))
J("P16", "h_p16_box", prod([(3, 2, 3, 0), (5, 4, 1, 0)], range(1, 8)))
J("P16", "h_p16_weighted", prod([(3, 2, 3, 0), (5, 4, 1, 0)], (1, 2, 3, 5), (1, 2, 9, 100)))
J("P16", "h_p16_named", prod([(3, 2, 3, 0), (5, 5, 1, 0), (2, 3, 2, 1)], range(3)))
J("P16", "h_p16_gauss", prod([(4, 3, 1, 0), (3, 2, 3, 0)], (1, 2, 3, 5), (4, 8, 13), (0,)) + prod([(4, 3, 1, 0)], (1, 2, 3, 5), (4, 8, 13), (1,)))
J("P16", "h_p16_2d", prod(BIG, (3, 5, 7)), tier="thorough")
J("P16", "h_p16_linear", prod(BIG, range(21)), tier="thorough")
J("P16", "h_p16_box", prod(BIG, (3, 5, 9)), tier="thorough")
J("P16", "h_p16_named", prod(BIG, range(3)), tier="thorough")
J("P16", "h_p16_gauss", prod(BIG[:4], (3, 5, 7), (4, 8, 13, 40), (0, 1)), tier="thorough")
bound("P16", LTEXT + " Box, weighted and Gaussian filters of sizes up to 21 on large images.")
J("P16", "h_p16_2d", bigs1(STRIP[:2], [(3,), (5,)], 0) + [big((4, 3, 1, 0, n), 0) for n in (9, 17)])
J("P16", "h_p16_linear", bigs1(STRIP[:2], prod((0, 1, 3, 8)), 4) + bigs1(STRIP[2:], [(0,), (3,)], 4))
J("P16", "h_p16_named", bigs1(STRIP, prod(range(3)), 4))
J("P16", "h_p16_box", bigs1(STRIP[:2], [(3,), (17,)], 4) + [big((30, 31, 1, 0, 21), 4, 100, 211)])
J("P16", "h_p16_weighted", bigs1(STRIP[:2], [(3, 1), (3, 300), (17, 70000)], 4))
J("P16", "h_p16_gauss", bigs1(STRIP[:2], [(3, 8, 0), (3, 8, 1), (11, 20, 0)], 4))
# ---------------------------------------------------------------- P17
bound("P17", "Grayscale images up to 4x4 with and without alpha, contents 0..255 symbolic, Sobel weights 0 to 5 (larger ones up to 65536 on 3x3 images with two pixels of 16 values each, relative tolerance 1e-5); nine listed pairs of mask kernels of lengths 1 to 5; other channel layouts for rejection.")
J("P17", "h_p17_grad", prod([(3, 3, 1, 0), (2, 3, 2, 1), (1, 1, 1, 0), (4, 2, 1, 0), (2, 2, 3, 0), (2, 2, 2, 0), (2, 2, 4, 1), (2, 2, 1, 1)][:7] + [(1, 3, 1, 0), (3, 1, 2, 1)], [(0, 0), (1, 0), (2, 1), (2, 5)]))
J("P17", "h_p17_weight", [(3, 3, 1, 0, o, w, 2, s) for o, w in [(0, 0), (1, 0)] + [(2, w) for w in list(range(20)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536]] for s in (0, 1, 3, 4)] + [(2, 2, 2, 1, 2, w, 2, 1) for w in (7, 300)])
J("P17", "h_p17_grad", prod([(4, 4, 1, 0), (5, 5, 2, 1), (6, 3, 1, 0)], [(0, 0), (1, 0), (2, 0), (2, 3), (2, 5)]), tier="thorough")
bound("P17", LTEXT)
J("P17", "h_p17_grad", bigs1([(300, 3, 1, 0), (3, 300, 2, 1), (300, 260, 1, 0), (70000, 1, 1, 0), (1, 70000, 1, 0)], [(0, 0), (1, 0), (2, 5)], 4))
# ---------------------------------------------------------------- P18
bound("P18", "Every f32 bit pattern (also NaN, infinities, -0) for channel values, threshold and maximum, the five modes, gray images with and without alpha; other layouts for rejection.")
J("P18", "h_p18_thresh", prod([(2, 1, 1, 0), (1, 2, 2, 1), (1, 1, 3, 0), (1, 1, 2, 0), (1, 1, 4, 1)], range(5)))
J("P18", "h_p18_thresh", prod([(3, 3, 1, 0), (2, 3, 2, 1)], range(5)), tier="thorough")
bound("P18", "Also images 300 pixels wide or tall with 4 symbolic values.")
J("P18", "h_p18_thresh", bigs1([(300, 1, 1, 0), (1, 300, 2, 1)], prod(range(5)), 4))
# ---------------------------------------------------------------- P21
bound("P21", "Residual on the listed shapes with contents symbolic (0..255 as f32, 31-bit integers as i32), all shape mismatches in one component; normalisation of 2 or 3 values drawn symbolically from 16 to 64 consecutive integers (any offset listed), times 1/4 to 2.")
RS = [(3, 2, 3, 0), (2, 2, 4, 1), (1, 1, 1, 0)]
J("P21", "h_p21_residual", [a + a + (m,) for a in RS for m in (0, 1)] + [(2, 2, 1, 0) + b + (m,) for b in [(1, 2, 1, 0), (2, 1, 1, 0), (2, 2, 2, 0), (2, 2, 1, 1), (3, 2, 1, 0), (1, 4, 1, 0)] for m in (0, 1)])
J("P21", "h_p21_normalize", [(64, -32, 4, 2), (16, -8, 4, 3), (16, -1020, 4, 3), (16, 500, 1, 3), (64, 0, 8, 2)])
J("P21", "h_p21_gray", [(2, 2, 1, 0), (2, 1, 2, 1), (2, 1, 2, 0), (2, 2, 3, 0), (1, 2, 4, 1)])
bound("P21", LTEXT)
J("P21", "h_p21_residual", [big(d + d + (0,), 4, 1, d[0] * d[1] * d[2] // 5) for d in LAY] + [big(d + e + (0,), 4, 1, 3) for d, e in [((300, 2, 1, 0), (44, 2, 1, 0)), ((2, 300, 1, 0), (2, 44, 1, 0)), ((65537, 1, 1, 0), (1, 1, 1, 0)), ((1, 1, 255, 0), (1, 1, 254, 0)), ((256, 1, 1, 0), (1, 256, 1, 0))]])
# ---------------------------------------------------------------- P19, P20
RANK = "Images up to 11x6 with a concrete background and up to 9 symbolic bytes at the listed places, each ranging over 2 to 4 values (16 values for up to two bytes); radii 0..4, windows larger than the image, widths around the column block of the algorithm."
bound("P19", RANK)
bound("P20", RANK + " Every alpha from 0 to beyond the window size, odd and even.")
# (w, h, c, a, radius), then value set, background, symbolic bytes, first, step
RK = [(3, 3, 1, 0, 1, 0, 0, 9, 0, 1), (3, 3, 1, 0, 1, 2, 3, 5, 0, 2), (4, 4, 1, 0, 1, 0, 2, 8, 0, 2), (5, 2, 1, 0, 1, 1, 2, 8, 1, 1),
      (6, 3, 1, 0, 1, 0, 1, 8, 4, 1), (7, 2, 1, 0, 1, 3, 3, 4, 3, 3), (11, 2, 1, 0, 1, 0, 2, 7, 3, 1), (2, 5, 3, 0, 1, 0, 3, 6, 0, 5),
      (2, 3, 2, 1, 1, 2, 4, 4, 1, 3), (1, 1, 1, 0, 1, 4, 0, 1, 0, 1), (2, 2, 1, 0, 2, 4, 3, 2, 2, 1), (3, 3, 1, 0, 0, 2, 3, 5, 2, 1),
      (4, 2, 3, 0, 0, 1, 2, 6, 2, 3), (3, 4, 1, 0, 2, 0, 2, 8, 1, 1), (8, 3, 1, 0, 2, 0, 3, 7, 5, 2), (2, 2, 1, 0, 3, 2, 1, 4, 0, 1),
      (1, 6, 1, 0, 1, 2, 3, 5, 0, 1), (6, 1, 1, 0, 1, 2, 3, 5, 0, 1), (10, 2, 1, 0, 3, 0, 2, 6, 6, 1)]
J("P19", "h_p19_median", RK)
J("P20", "h_p20_mean", prod([(3, 3, 1, 0, 1, 0, 3, 4, 1, 2)], range(11)) + [r + (a,) for r in RK for a in ((0, 2, 8) if r[4] else (0,))] + [(3, 2, 1, 0, 0, 0, 0, 2, 0, 1, 1), (3, 2, 1, 0, 0, 0, 0, 2, 0, 1, 2)])

# radii whose windows hold more than 255, 32767 and 65535 pixels
RL = [(20, 2, 1, 0, 8, 0, 2, 4, 3, 9), (3, 20, 1, 0, 8, 2, 3, 4, 0, 13), (26, 3, 1, 0, 12, 0, 4, 4, 5, 17), (4, 4, 1, 0, 16, 2, 2, 4, 0, 5), (2, 2, 3, 0, 91, 0, 3, 3, 0, 4), (3, 1, 1, 0, 128, 0, 2, 1, 0, 1), (1, 3, 2, 1, 130, 0, 2, 2, 0, 1), (300, 1, 1, 0, 1, 0, 2, 5, 250, 3), (2, 300, 1, 0, 1, 2, 3, 5, 508, 3), (300, 260, 1, 0, 1, 0, 3, 2, 65532, 3)]
RT = " Radii 8 to 130 (windows of more than 255, 32767 and 65535 pixels) and images of 300x1 to 300x260 pixels with up to 5 symbolic bytes."
bound("P19", RT)
bound("P20", RT)
J("P19", "h_p19_median", RL)
J("P20", "h_p20_mean", [r + (a,) for r in RL for a in sorted({0, 2, 2 * ((2 * r[4] + 1) ** 2 // 4), (2 * r[4] + 1) ** 2 - 1, min(256, (2 * r[4] + 1) ** 2 - 1), min(65600, (2 * r[4] + 1) ** 2 - 1)})])

# ---------------------------------------------------------------- P22, P23
MB = "Binary images up to 9x5 over a black, white, checkered or mixed background with up to 10 symbolic pixels at the listed places; radii 0..3, larger than the image and up to the largest u32; images with an alpha channel of symbolic bytes, and images that are not grayscale."
bound("P22", MB)
bound("P23", MB)
# (w, h, c, a, radius), then background, symbolic pixels, first, step, symbolic alpha
MO = [(3, 3, 1, 0, 1, 0, 9, 0, 1, 0), (3, 2, 1, 0, 0, 0, 6, 0, 1, 0), (3, 3, 1, 0, 2, 0, 8, 0, 1, 0), (2, 4, 1, 0, 1, 0, 8, 0, 1, 0), (5, 4, 1, 0, 1, 1, 8, 0, 3, 0),
      (5, 4, 1, 0, 1, 0, 8, 1, 3, 0), (4, 5, 1, 0, 1, 2, 8, 0, 3, 0), (6, 3, 1, 0, 2, 1, 7, 0, 5, 0), (6, 5, 1, 0, 2, 0, 7, 2, 7, 0),
      (6, 5, 1, 0, 1, 3, 8, 3, 7, 0), (5, 5, 1, 0, 2, 3, 7, 1, 4, 0), (1, 6, 1, 0, 1, 0, 6, 0, 1, 0), (6, 1, 1, 0, 1, 0, 6, 0, 1, 0), (1, 1, 1, 0, 0, 0, 1, 0, 1, 0),
      (1, 1, 1, 0, 3, 0, 1, 0, 1, 0), (3, 2, 1, 0, 7, 0, 6, 0, 1, 0), (3, 2, 1, 0, 4294967295, 0, 6, 0, 1, 0), (2, 2, 1, 0, 2147483648, 0, 4, 0, 1, 0),
      (2, 2, 2, 1, 1, 0, 4, 0, 1, 1), (3, 3, 2, 1, 1, 2, 7, 0, 1, 0), (4, 2, 2, 1, 0, 0, 6, 0, 1, 0), (2, 2, 3, 0, 1, 0, 2, 0, 1, 0), (2, 2, 2, 0, 1, 0, 2, 0, 1, 0), (2, 2, 4, 1, 1, 0, 2, 0, 1, 0)]
MT = [(9, 5, 1, 0, 1, 1, 10, 0, 4, 0), (9, 5, 1, 0, 2, 0, 10, 3, 4, 0), (8, 6, 1, 0, 3, 3, 10, 0, 5, 0), (4, 4, 1, 0, 1, 0, 10, 0, 1, 0), (5, 4, 2, 1, 2, 2, 10, 0, 2, 0), (4, 3, 1, 0, 1, 0, 11, 0, 1, 0)]
J("P22", "h_p22_morph", prod(MO, (0, 1)))
J("P23", "h_p23_morph", prod(MO, (2, 3, 4, 5)))
J("P22", "h_p22_morph", prod(MT, (0, 1)), tier="thorough")
bound("P22", LTEXT + " Radii 8 to 20 on 20x20 images, 130 on 260x2 images; windows of more than 65535 pixels on 258x258 images, looked at in five places with up to 3 symbolic pixels.")
bound("P23", LTEXT + " Radii 8 to 20 on 20x20 images, 130 on 260x2 images; windows of more than 65535 pixels on 258x258 images, looked at in five places with up to 3 symbolic pixels.")
ML = [(300, 3, 1, 0, 1, 0, 6, 254, 40, 0), (3, 300, 2, 1, 1, 1, 6, 760, 20, 0), (300, 260, 1, 0, 1, 3, 4, 65530, 3, 0), (70000, 1, 1, 0, 2, 2, 4, 65533, 3, 0), (1, 70000, 1, 0, 2, 3, 4, 65533, 3, 0),
      (20, 20, 1, 0, 8, 1, 4, 150, 37, 0), (20, 20, 1, 0, 9, 3, 4, 150, 37, 0), (20, 20, 1, 0, 19, 0, 4, 150, 37, 0), (20, 20, 1, 0, 10, 1, 4, 0, 133, 0)]
MX = [(260, 2, 1, 0, 130, 1, 3, 0, 173, 0), (2, 260, 1, 0, 130, 0, 3, 0, 173, 0)]
J("P22", "h_p22_morph", prod(ML + MX, (0, 1)))
J("P23", "h_p23_morph", prod([m[:6] + (min(m[6], 2 if m[0] * m[1] > 60000 else 3),) + m[7:] for m in ML] + MX, (2, 3, 4, 5)))
J("P22", "h_p22_wide", [(258, 258, 1, 0, 130, 1, 1, 33000, 1, 0, 0), (258, 258, 1, 0, 130, 0, 1, 33000, 1, 0, 1), (257, 260, 1, 0, 128, 1, 1, 66818, 1, 0, 0)])
J("P23", "h_p23_wide", [(258, 258, 1, 0, 130, 2, 2, 33000, 11000, 0, 2), (257, 260, 1, 0, 200, 2, 3, 33000, 11000, 0, 2)])
J("P23", "h_p23_morph", prod(MT, (2, 3, 4, 5)), tier="thorough")

# ---------------------------------------------------------------- P24
bound("P24", "u8 images of 1 to 65 pixels in every layout of 1 to 5 channels with contents symbolic, with the vector unit present, hidden and compiled out; f32 images up to 4x3 with integer contents.")
G3 = [(w, h, c, a) for w, h in [(1, 1), (31, 1), (32, 1), (33, 1), (13, 5)] for c, a in [(3, 0), (4, 1)]]
GO = [(3, 2, 1, 0), (3, 2, 2, 1), (3, 2, 3, 1), (2, 2, 4, 0), (2, 2, 5, 0), (2, 2, 5, 1), (3, 3, 2, 0), (2, 2, 6, 1)]
J("P24", "h_p24_gray", G3 + GO, build="simd")
J("P24", "h_p24_gray", [g for g in G3 if g[0] in (1, 33)] + GO[:3], build="simd", avx2=0)
J("P24", "h_p24_gray", [g for g in G3 if g[0] in (1, 33)] + GO, build="nosimd")
J("P24", "h_p24_grayf", GO + [(4, 3, 3, 0), (2, 3, 4, 1)])
bound("P24", LTEXT)
L24 = [(300, 260, 3, 0), (70000, 1, 4, 1), (300, 9, 3, 0), (2, 300, 4, 1)]
J("P24", "h_p24_gray", bigs1(L24))
J("P24", "h_p24_gray", bigs1(L24[2:]), avx2=0)
J("P24", "h_p24_gray", bigs1(L24) + bigs1(LAY[6:]), build="nosimd")
J("P24", "h_p24_grayf", bigs1(L24 + LAY[6:]))
# ---------------------------------------------------------------- P25
bound("P25", "Pixels in which one channel ranges over all 256 values, one over 64 values spread over 0..255 and one is a listed constant (every assignment of these roles), or all three over 16 values; two channels over all 256 values in the listed jobs (thorough: for 16 constants); gray pixels over all values; with and without alpha (any value).")


def roles(ks):
    r = []
    for k in ks:
        r += [(-1, -2, k), (-2, k, -1), (k, -1, -2)]
    return r


J("P25", "h_p25_forward", [(0,) + r + (6,) for r in roles([0, 31, 255])] + [(1, -3, -3, -3, 6), (1, -1, -3, 100, 6)], secs=200)
J("P25", "h_p25_inverse", [(0,) + r for r in roles([1, 200, 255])] + [(1, -1, -3, 200), (0, -1, 0, -1), (0, -1, -1, 0), (1, -1, -1, 255)], secs=200)
J("P25", "h_p25_round", [(0,) + r + (6,) for r in roles([0, 90, 255])] + [(1, -3, -3, -3, 6), (1, -1, -3, 100, 6)], secs=200)
J("P25", "h_p25_gray", [0, 1])
J("P25", "h_p25_forward", [(0,) + p + (6,) for k in range(1, 256, 17) for p in ((-1, -1, k), (-1, k, -1), (k, -1, -1))], secs=600, tier="thorough")
J("P25", "h_p25_inverse", [(0,) + p for k in range(1, 256, 17) for p in ((-1, -1, k), (-1, k, -1), (k, -1, -1))], secs=600, tier="thorough")
J("P25", "h_p25_round", [(0,) + p + (6,) for k in range(1, 256, 17) for p in ((-1, -1, k), (-1, k, -1), (k, -1, -1))], secs=600, tier="thorough")
# ---------------------------------------------------------------- P26
bound("P26", "Pixels in which one channel ranges over all 256 values (the others over the listed constants and pairs of constants), two over 64 values each, or all three over 16 values; alpha any value.")
K26 = [(0, 0), (255, 255), (31, 200), (200, 31), (100, 100), (1, 0), (254, 255)]
J("P26", "h_p26", [(0,) + p for a, b in K26 for p in ((-1, a, b), (a, -1, b), (a, b, -1))] + [(0,) + p for k in (0, 77, 255) for p in ((-2, -2, k), (-2, k, -2), (k, -2, -2))] + [(1, -1, 10, 200), (1, -4, -3, -3), (1, -3, -4, -3), (1, 9, 9, -1)])
# ---------------------------------------------------------------- P27
bound("P27", "Linearisation and its inverse for every 8-bit value in 1 to 5 channels with and without alpha; matrix products with all channels symbolic multiples of 1/256; gray lightness for every pair of gray levels; Lab formula, inverse and round trip for pixels with one channel over all 256 values or two over 64 values each; both reference whites.")
J("P27", "h_p27_lin", [(2, 1, 3, 0), (2, 1, 4, 1), (1, 2, 1, 0), (2, 1, 2, 1), (2, 1, 5, 0)])
J("P27", "h_p27_mat", prod((0, 1), (0, 1)))
J("P27", "h_p27_gray", prod((0, 1), (0, 1)))
P27 = [(0,) + p for a, b in [(0, 0), (255, 255), (31, 200), (100, 100)] for p in ((-1, a, b), (a, -1, b), (a, b, -1))] + [(1, -1, 10, 200)]
P27B = [(0,) + p for k in (0, 77, 255) for p in ((-2, -2, k), (-2, k, -2), (k, -2, -2))]
J("P27", "h_p27_lab", [p + (w,) for p in P27 for w in (0, 1)])
J("P27", "h_p27_round", [p + w for p in P27 for w in ((0, 0), (1, 0), (0, 1))])
J("P27", "h_p27_lab", [p + (w,) for p in P27B for w in (0, 1)], secs=400, tier="thorough")
J("P27", "h_p27_round", [p + w for p in P27B for w in ((0, 0), (1, 0), (0, 1))], secs=400, tier="thorough")
# ---------------------------------------------------------------- P28
bound("P28", "Images of 0 to 132 bytes in layouts of 1 to 40 channels with and without alpha (sizes around one to four 32-byte vectors and around whole-pixel steps), contents symbolic and every bias from -32768 to 32767; all 256 values with every bias for the table path; vector unit present, hidden and compiled out.")
B28 = [(31, 1, 1, 0), (32, 1, 1, 0), (33, 1, 1, 0), (65, 1, 1, 0), (10, 1, 3, 0), (11, 1, 3, 0), (11, 2, 3, 0), (8, 1, 4, 1), (9, 1, 4, 1), (4, 4, 4, 1), (33, 1, 4, 1), (15, 1, 2, 1), (17, 1, 2, 1),
       (11, 1, 3, 1), (6, 1, 5, 1), (7, 1, 5, 1), (13, 1, 5, 1), (7, 2, 7, 1), (2, 1, 17, 1), (2, 1, 32, 1), (2, 1, 33, 1), (1, 1, 40, 1), (3, 1, 40, 0), (2, 2, 3, 0), (1, 1, 4, 1), (1, 1, 1, 1), (33, 1, 1, 1), (0, 1, 3, 0), (8, 1, 4, 0)]
J("P28", "h_p28_brightness", prod(B28, [(9999, 0)]), build="simd", paths=20)
J("P28", "h_p28_brightness", [(16, 16, 1, 0, 9999, 1), (16, 8, 2, 1, 9999, 1)], build="simd")
J("P28", "h_p28_brightness", [(16, 16, 1, 0, 9999, 1), (16, 8, 2, 1, 9999, 1), (10, 3, 4, 1, 9999, 1)], build="simd", avx2=0)
J("P28", "h_p28_brightness", [(16, 16, 1, 0, 9999, 1), (16, 8, 2, 1, 9999, 1), (10, 3, 4, 1, 9999, 1)], build="nosimd")
J("P28", "h_p28_brightness", prod([b for b in B28 if b[0] * b[1] * b[2] < 50], [(b, 0) for b in (-255, -40, -1, 0, 1, 100, 255, 256, -256)]), build="nosimd")
bound("P28", LTEXT)
J("P28", "h_p28_brightness", bigs1(LAY + [(300, 9, 3, 0), (2, 300, 4, 1), (33, 61, 5, 1)], [(b, 0) for b in (-255, -40, 0, 1, 200)]))
J("P28", "h_p28_brightness", bigs1(LAY + [(33, 61, 5, 1)], [(b, 0) for b in (-40, 200)]), build="nosimd")
J("P28", "h_p28_brightness", bigs1(LAY[1:3] + LAY[6:], [(b, 0) for b in (-40, 200)]), avx2=0)
# ---------------------------------------------------------------- P29
bound("P29", "Images of 1 to 32 pixels with 3 or 4 channels, all pixels but one fixed, the remaining one with one channel over all 256 values or two over 64; every amount from -32768 to 32767 on fixed contents, listed amounts on symbolic contents; vector unit present, hidden and compiled out.")
S29 = [(1, 1, 3, 0), (10, 1, 3, 0), (11, 1, 3, 0), (16, 2, 3, 0), (1, 1, 4, 1), (8, 1, 4, 1), (9, 1, 4, 1), (7, 3, 4, 1)]
P29 = [(-1, 20, 200), (200, -1, 20), (20, 200, -1), (-1, 90, 90), (0, 0, -1)]


def last(d, p, *r):
    return d + p + (d[0] * d[1] - 1,) + r


J("P29", "h_p29_saturation", [last(d, p, a) for d in S29 for p in P29 for a in (-255, -30, -1, 0, 1, 77, 255)], build="simd")
J("P29", "h_p29_saturation", [last(d, (40, 200, 90), 9999) for d in S29], build="simd")
J("P29", "h_p29_saturation", [last(d, p, a) for d in S29[2:3] + S29[6:7] for p in P29 for a in (-30, 1, 255)] + [last(d, (40, 200, 90), 9999) for d in S29[:3] + S29[4:5]], build="nosimd")
J("P29", "h_p29_saturation", [last(d, p, a) for d in S29[2:3] + S29[6:7] for p in P29 for a in (-30, 1, 255)] + [last(d, (40, 200, 90), 9999) for d in S29[:3] + S29[4:5]], build="simd", avx2=0)
bound("P29", "Also images of 300x4, 3x300 and 70000x1 pixels in which one pixel varies.")
J("P29", "h_p29_saturation", [last(d, p, a) for d in [(300, 4, 3, 0), (3, 300, 4, 1)] for p in P29[:2] for a in (-30, 77)] + [(70000, 1, 3, 0, -1, 20, 200, 65536, -30)], build="simd,nosimd")
# ---------------------------------------------------------------- P30
bound("P30", "Contrast: every byte value with every gain k/256, symbolic contents with the listed gains (0, 1, tiny, next to 1/2 and others); gamma: symbolic contents with the listed gammas and maxima; acceptance of arguments for every f32 bit pattern.")
import struct


def fb(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


J("P30", "h_p30_gain", [(16, 16, 1, 0), (8, 8, 4, 1)])
J("P30", "h_p30_contrast", prod([(2, 2, 3, 0), (2, 1, 4, 1), (1, 1, 2, 1)], [fb(x) for x in (0.0, 1.0, 0.3, 0.7, 1e-30, 0.49999997, 0.9999999, 0.001)]))
J("P30", "h_p30_args", (0, 1))
J("P30", "h_p30_gamma", prod([(2, 2, 3, 0), (2, 1, 4, 1), (1, 3, 1, 0)], [fb(x) for x in (0.0, 1.0, 0.5, 2.0, 2.2, 3.0, 0.45, 0.1, 30.0)], (255, 1, 2, 100, 128, 200, 254, 0)))
bound("P30", LTEXT)
J("P30", "h_p30_contrast", bigs1(LAY, [(fb(0.3),), (fb(0.7),)]))
J("P30", "h_p30_gamma", bigs1(LAY[1:3] + LAY[6:], [(fb(0.5), 255), (fb(2.2), 200)]) + bigs1(LAY[:1], [(fb(2.2), 255)]))
# ---------------------------------------------------------------- P31
bound("P31", "Percentiles of Lab images of up to 5 pixels whose lightness values are any of 3 to 20 values (also negative), several precisions; equalisation of images of up to 4 pixels with one channel over all 256 values, strengths 0, 1/4, 3/4 and 1, both whites; acceptance of arguments for every pair of f32 bit patterns.")
J("P31", "h_p31_percentiles", prod([(2, 2, 3, 0)], [(3, 16, 0, 16), (3, 5, -6, 8), (3, 400, 0, 4080)]) + prod([(1, 3, 4, 1), (3, 1, 1, 0)], [(4, 260, 0, 16), (4, 3, -9, 24)]) + [(1, 1, 3, 0, 16, 100, 0, 16), (2, 1, 3, 0, 20, 80, 0, 4080), (5, 1, 3, 0, 2, 16, 0, 16), (0, 1, 3, 0, 4, 16, 0, 16), (2, 2, 1, 0, 3, 700, 0, 16000), (2, 1, 3, 0, 4, 500, -200, 65536), (2, 2, 1, 0, 3, 800, 0, 4000000)])
J("P31", "h_p31_equalize", [d + p + (al, pr, w, 1) for d in [(2, 1, 3, 0), (2, 2, 4, 1)] for p in [(-1, 20, 200), (90, -1, 90)] for al in (0, 1, 3, 4) for pr in (16, 4080) for w in (0, 1)])
J("P31", "h_p31_args", [0])
bound("P31", "Percentiles of images of 300x2 to 70000x1 pixels over seven values of which up to 4 pixels are symbolic; equalisation of 300 pixels, one of which varies.")
J("P31", "h_p31_many", [(300, 2, 3, 0, 4, 1, 77), (1, 260, 1, 0, 3, 0, 3), (300, 260, 1, 0, 2, 65530, 3), (70000, 1, 3, 0, 2, 69000, 300), (16, 16, 4, 1, 3, 1, 40)])
J("P31", "h_p31_equalize", [(150, 2, 3, 0, -4, 20, 200, al, 16, 0, 299) for al in (1, 4)])
# ---------------------------------------------------------------- P39
bound("P39", "Pixels with one channel over all 256 values (the others listed constants), with and without alpha; listed biases and gains; acceptance of arguments for every i16 and every f32 bit pattern.")
K39 = [(0,) + p for a, b in [(0, 0), (255, 255), (31, 200), (100, 100)] for p in ((-1, a, b), (a, -1, b), (a, b, -1))] + [(1, -1, 10, 200)]
J("P39", "h_p39_lab", prod(K39, [(0, b) for b in (0, 1, -1, 40, -100, 254, 255, -255)] + [(1, g) for g in (0, 1, 20, 32, 33, 48, 63, 64)]))
J("P39", "h_p39_args", (0, 1))
# ---------------------------------------------------------------- P32
bound("P32", "Images up to 4x3 with 1 to 4 channels of u8, u16, u32, i32, f32 and f64; contents symbolic (u8, u16 and u32: any values whose total fits the type, i32: 16-bit signed values, floats: integers 0..255); the rectangle symbolic over every rectangle of the image.")
D32 = [(3, 2, 1, 0), (2, 2, 3, 0), (1, 3, 2, 1), (1, 1, 4, 1)]
J("P32", "h_p32_table", prod(D32, range(6)))
J("P32", "h_p32_table", prod([(4, 3, 1, 0), (3, 3, 2, 1), (1, 7, 3, 0), (7, 1, 3, 0)], range(6)), secs=600, tier="thorough")
bound("P32", LTEXT)
J("P32", "h_p32_large", [big((300, 260, 1, 0, t, m), 5 if t > 3 else 1, 1000 if t > 3 else 258 * 300 - 20, 11003, x, y, w, h) for t, m in [(2, 256), (3, 256), (4, 200), (5, 256), (2, 50000)] for x, y, w, h in [((254, 3), (0, 2), (290, 2), (259, 1)), ((0, 2), (254, 3), (299, 1), (258, 2))]]
  + [big(d + (t, m), 5, 1000, 11003, *r) for t, m in [(2, 60000), (3, 30000), (4, 200), (5, 60000), (1, 1 + 65535 // 70000 + 1)] for d, r in [((70000, 1, 1, 0), ((65535, 2), (0, 1), (69998, 2), (0, 1))), ((1, 70000, 1, 0), ((0, 1), (65535, 2), (0, 1), (69998, 2)))] if t != 1]
  + [big((300, 3, 3, 0, t, 60), 5, 10, 103, (254, 3), (1, 1), (298, 2), (2, 1)) for t in range(1, 6)] + [big((2, 2, 200, 1, t, 60), 5, 10, 103, (0, 2), (1, 1), (1, 1), (1, 1)) for t in range(1, 6)])
# ---------------------------------------------------------------- P33
bound("P33", "Matrices of up to 16x16 with every 8-bit signed integer entry, or integer floats -32..31, and every mismatch of sizes up to 17; maxima, minima and clamping for every tuple of non-NaN f32; index conversion for every u32 index and the listed widths; distances of points in 64x64 windows at the listed positions; lookup tables of a family of functions; weight functions at every multiple of 1/64 in -4..4.")
bound("P32", "Rectangles of 1 to 5 rows and columns on 8x7 images of each type with 5 symbolic values.")
J("P32", "h_p32_large", [big(d + (t, 20), 5, 3, 11, (a, 1), (b, 1), (a, min(5, d[0] - a)), (b, min(5, d[1] - b))) for t in (1, 2, 3, 4, 5) for d in [(8, 7, 1, 0)] for a in range(6) for b in range(6)] + [big(d + (t, 20), 5, 3, 11, (a, 2), (b, 2), (a + 1, 2), (b + 1, 2)) for t in (2, 4) for d in [(7, 8, 3, 0), (9, 6, 2, 1)] for a in range(4) for b in range(3)])
J("P33", "h_p33_mul", [(n, l, o) for n in range(1, 5) for l in sorted({n * n, 0, n, n * n - 1, n * n + 1, 2 * n}) if 0 <= l for o in (0, 3)] + [(5, 25, 1), (4, 17, 0), (3, 16, 0)])
J("P33", "h_p33_mulf", [(1,), (2,), (3,)])
J("P33", "h_p33_extreme", range(5))
J("P33", "h_p33_coords", [1, 2, 3, 4, 5, 7, 10, 16, 33, 100, 255, 256, 640, 1000, 1920, 65536, 16777213, 2147483648, 4294967295])
J("P33", "h_p33_distance", [(0, 0, 0, 0), (0, 0, 63, 10), (100, 5, 0, 1000), (10000, 10000, 32, 12345), (1000000, 7, 1000032, 7), (3000000000, 5, 7, 0), (0, 4294967232, 3, 9), (2147483616, 0, 0, 0), (4294967232, 4294967232, 0, 0), (0, 0, 4294967295, 2147483648), (4294967200, 0, 4294967232, 4294967295)])
J("P33", "h_p33_lookup", [0])
J("P33", "h_p33_weights", [(0, 0), (1, 0), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 4), (3, 8), (3, 20)])
J("P33", "h_p33_args", [0])
J("P33", "h_p33_coords", list(range(1, 200)), tier="thorough")
# ---------------------------------------------------------------- P34
bound("P34", "Sizes 0 to 31 with sigmas of 32 consecutive multiples of 1/8 from the listed starts (1/8 to 100); entries within 1e-4 of the formula.")
J("P34", "h_p34_kernel", prod(range(3), (1, 3, 5, 7, 9), (4, 36)))
J("P34", "h_p34_even", range(0, 12, 2))
J("P34", "h_p34_kernel", prod(range(3), (11, 13, 15, 21), (4, 36, 68)))
J("P34", "h_p34_kernel", prod(range(3), (1, 3, 5, 7), (1, 68, 100, 800)))
J("P34", "h_p34_kernel", prod(range(3), (31,), (4, 68, 800)))
# ---------------------------------------------------------------- P35
bound("P35", "Images up to 4x3 of 3 or 4 channels; flat images and images with one varying pixel, whose colour has one channel over all 256 values (listed constants for the others); ranges 1/4 to 1000, spatial parameters 1/4 to 3 (windows of 3 to 13, larger than the image); images of 300x2 and 2x300 pixels in which one pixel varies; rejection for every negative or NaN parameter.")
J("P35", "h_p35_flat", prod([(2, 2, 3, 0), (1, 1, 4, 1)], [(-1, 0, 0), (-1, 31, 200), (255, -1, 255), (40, 40, -1)], [(4, 8), (160, 16)]))
J("P35", "h_p35_average", [d + p + q + (at,) for d in [(2, 2, 3, 0), (3, 1, 3, 0)] for p in [(-1, 31, 200), (90, -1, 90)] for q in [(160, 8), (4, 4), (1600, 16), (800, 12)] for at in (0, 1)])
J("P35", "h_p35_average", [d + p + q + (at,) for d in [(4, 3, 3, 0), (4, 3, 4, 1), (5, 1, 3, 0), (1, 5, 3, 0)] for p in [(-1, 31, 200), (90, -1, 90)] for q in [(160, 32), (800, 48), (8, 40), (16000, 20)] for at in (0, 4)])
J("P35", "h_p35_average", [(300, 2, 3, 0, -1, 40, 70, 160, 32, at) for at in (0, 255, 256, 299, 599)] + [(2, 300, 4, 1, 30, -1, 70, 160, 20, at) for at in (1, 511, 512, 599)])
J("P35", "h_p35_average", [(2, 2, 3, 0) + p + (160, 16, 1) for p in [(-2, -2, 200), (31, -2, -2)]])
J("P35", "h_p35_flat", [d + (-1, 31, 200) + q for d in [(4, 3, 3, 0), (300, 2, 3, 0), (2, 300, 4, 1)] for q in [(160, 32), (800, 20)]])
J("P35", "h_p35_args", (0, 1))
# ---------------------------------------------------------------- P36
bound("P36", "Images of 0 to 4 vectors in layouts of 1 to 40 channels (sizes around multiples of the vector widths), contents symbolic, every amount from -255 to 255, channel numbers inside and outside the pixel; every read and write of the vector kernels is checked against the bounds of its allocation on every path.")
V36 = [(0, 1, 1, 0), (1, 1, 1, 0), (31, 1, 1, 0), (32, 1, 1, 0), (33, 1, 1, 0), (63, 1, 1, 0), (64, 1, 1, 0), (65, 1, 1, 0), (10, 1, 3, 0), (11, 1, 3, 0), (21, 1, 3, 0), (22, 1, 3, 0), (8, 1, 4, 1), (9, 1, 4, 1), (16, 2, 4, 1), (15, 1, 2, 1), (16, 1, 2, 1), (17, 1, 2, 1), (7, 1, 5, 1), (6, 1, 5, 0), (5, 1, 7, 1), (1, 1, 32, 1), (2, 1, 32, 0), (1, 1, 33, 1), (2, 1, 33, 0), (1, 3, 40, 1), (3, 1, 31, 1)]
J("P36", "h_p36_simd", [d + (0, 0) for d in V36] + [d + (1, n) for d in V36 for n in {0, 1, d[2] - 1, d[2]}], paths=20)
J("P36", "h_p36_simd", [(w, h, 3, 0, m, 0) for w, h in [(1, 1), (0, 3), (31, 1), (32, 1), (33, 1), (8, 8), (13, 5), (65, 1)] for m in (2, 4)] + [(w, h, 4, 1, m, 0) for w, h in [(1, 1), (0, 3), (31, 1), (32, 1), (33, 1), (8, 8), (13, 5), (65, 1)] for m in (3, 4)])
J("P36", "h_p36_deinterleave", [(32, 1, 3, 0), (40, 1, 3, 0), (32, 1, 4, 1), (35, 1, 4, 1)])
bound("P36", LTEXT)
J("P36", "h_p36_simd", bigs1([(300, 9, 1, 0), (300, 9, 3, 0), (9, 300, 4, 1), (33, 61, 5, 1), (2, 2, 200, 1), (3, 1, 255, 0)], [(m, n, b) for m, n in ((0, 0), (1, 0), (1, 2)) for b in (-200, -3, 90, 255)], 4) + bigs1([(300, 260, 3, 0), (300, 9, 3, 0)], [(2, 0), (4, 0)]) + bigs1([(70000, 1, 4, 1), (9, 300, 4, 1)], [(3, 0), (4, 0)]), paths=50)
# ---------------------------------------------------------------- P38
bound("P38", "Every colour type of the codec crate, decoder and encoder failures, images of the listed sizes with contents symbolic, channel counts 0 to 6 with and without alpha, data of exact and of too short length; the codec itself is outside (a stand-in with the interface of image 0.23 records what it is given).")
J("P38", "h_p38_read", [(1, 1), (3, 2), (2, 5), (0, 0)])
J("P38", "h_p38_write", [(w, h, c, a, 0) for w, h in [(1, 1), (3, 2), (2, 5)] for c in range(7) for a in (0, 1) if c or not a] + [(3, 2, c, a, e) for c, a in [(1, 0), (2, 1), (3, 0), (4, 1)] for e in (-1, -3, -6)])
bound("P38", LTEXT)
J("P38", "h_p38_read", [big((w, h), 6, 1, 97) for w, h in [(300, 2), (2, 300), (70000, 1), (1, 66000)]])
J("P38", "h_p38_write", [big((w, h, c, a, e), 6, 1, 97) for w, h in [(300, 2), (2, 300), (70000, 1), (1, 66000)] for c, a in [(1, 0), (2, 1), (3, 0), (4, 1)] for e in (0, -1)])
# ---------------------------------------------------------------- P37
bound("P37", "Both builds compiled from the same source into one program and run on the same symbolic image; the items of every parallel iterator evaluated forwards, backwards and odd items first on images up to 4x3, and in every order on images of 4 pixels; cropping rectangles symbolic over the image and beyond, kernels symbolic (multiples of 1/8) or the named ones, scale factors from the table, one varying pixel for the bilateral filter. The scheduler of rayon itself is outside (a stand-in evaluates items one at a time).")
J("P37", "h_p37_crop", [(2, 2, 3, 0, 0), (3, 2, 1, 0, 1), (2, 2, 2, 1, 2), (2, 2, 1, 0, 3)], build="dual")
J("P37", "h_p37_scale", [d + (o, m) + f for d in [(3, 2, 3, 0), (2, 2, 2, 1)] for o, f in [(0, (16, 8)), (1, (12, 10)), (2, (4, 8)), (1, (8, 8)), (2, (-8, 8)), (0, (16, 16))] for m in range(6)] + [(2, 2, 1, 0, 3, m, 8, 8) for m in (0, 1, 2, 4)], build="dual")
J("P37", "h_p37_filter", [d + (o, m, n) for d in [(3, 2, 3, 0), (4, 3, 1, 0), (2, 3, 2, 1)] for o, n in [(1, 3), (2, 5)] for m in range(11)] + [d + (o, m, 3) for d in [(3, 2, 1, 0), (2, 2, 2, 1), (2, 2, 3, 0)] for o in (0, 1) for m in (11, 12)] + [(2, 2, 1, 0, o, m, n) for o in (0, 1) for m in (0, 1, 2, 4, 5, 6, 10) for n in (1, 2, 4)] + [(2, 2, 1, 0, 3, m, 3) for m in (0, 2, 3, 6)], build="dual")
J("P37", "h_p37_bilateral", [d + (o,) + p + q for d in [(2, 2, 3, 0), (3, 1, 4, 1)] for o in (1, 2) for p in [(-1, 31, 200), (90, -1, 90)] for q in [(160, 8), (800, 16)]] + [(2, 2, 3, 0, 3, -1, 9, 9, 160, 8), (2, 2, 3, 0, 0, -1, 9, 9, -16, 8)], build="dual")
J("P37", "h_p37_filter", [d + (o, m, n) for d in [(1, 3, 1, 0), (1, 4, 2, 1), (4, 1, 3, 0), (1, 1, 2, 1)] for o, n in [(1, 3), (2, 5)] for m in range(13)], build="dual")
J("P37", "h_p37_scale", [d + (o, m) + f for d in [(1, 3, 1, 0), (3, 1, 2, 1)] for o, f in [(0, (16, 8)), (1, (12, 10)), (2, (4, 16))] for m in range(6)], build="dual")
J("P37", "h_p37_filter", [(2, 2, 1, 0, 1, 3, 3), (3, 2, 3, 0, 2, 6, 5)], build="dualsimd")
J("P37", "h_p37_bilateral", [(2, 2, 3, 0, 1, -1, 31, 200, 160, 8)], build="dualsimd")
bound("P37", "Also images of 300x2 to 3x260 pixels with a concrete background and 3 symbolic values.")
J("P37", "h_p37_filter", [big(d + (o, m, n), 3, 1, 211) for d in [(300, 2, 1, 0), (3, 260, 2, 1)] for o, n in [(1, 3)] for m in (0, 1, 2, 3, 6, 8)], build="dual")
J("P37", "h_p37_scale", [big(d + (1, m) + f, 3, 1, 211) for d in [(300, 2, 1, 0), (3, 260, 2, 1)] for f in [(8, 8), (4, 8)] for m in (0, 1, 2)], build="dual")
J("P37", "h_p37_scale", [d + (o, m) + f for d in [(5, 4, 3, 0), (4, 3, 2, 1)] for o, f in [(1, (16, 8)), (2, (12, 10)), (1, (4, 8))] for m in range(7)], build="dual", tier="thorough")
J("P37", "h_p37_filter", [d + (o, m, n) for d in [(5, 4, 3, 0), (6, 5, 1, 0)] for o, n in [(1, 3), (2, 5), (1, 7)] for m in range(11)], build="dual", tier="thorough")
J("P37", "h_p37_crop", [(3, 3, 3, 0, 1), (4, 3, 1, 0, 2)], build="dual", tier="thorough")

# ---------------------------------------------------------------- values outside 0..255 and fractions
for _p in ("P08", "P12", "P13", "P15", "P16", "P17", "P21", "P24"):
    bound(_p, WTEXT)
J("P08", "h_p08_super", [c for k in (1, 40, 129, 257) for c in wide([(2, 2, 2, 1, 2, 1, 2, 1)], ((32, -300), (3, -40)), k)])
J("P12", "h_p12_bilinear", wide(prod([(3, 2, 1, 0), (2, 2, 2, 1)], [(1, 1, 1), (2, 2, 1), (3, 5, 4), (1, 1, 2)])))
J("P13", "h_p13_weighted", wide(prod([(3, 2, 1, 0), (2, 2, 2, 1)], [(1, 1, 1), (2, 2, 1), (3, 5, 4)], (2, 3)) + [(3, 2, 1, 0, 2, 2, 1, 5)]))
J("P13", "h_p13_weighted", [(3, 2, 1, 0, 3, 2, 2, m) for m in (7, 9, 10, 13)])
J("P15", "h_p15_1d", wide(prod([(3, 2, 1, 0), (1, 3, 2, 1)], (1, 3, 5), (0, 1))))
J("P15", "h_p15_sep", wide(prod([(3, 2, 1, 0), (2, 3, 2, 1)], [(3, 3), (1, 1), (5, 5)])))
J("P16", "h_p16_2d", wide(prod([(3, 2, 1, 0), (2, 3, 2, 1)], (3, 5))))
J("P16", "h_p16_linear", wide(prod([(3, 3, 1, 0)], range(21))))
J("P16", "h_p16_box", wide(prod([(3, 2, 1, 0), (2, 2, 3, 0)], (1, 3, 5))))
J("P16", "h_p16_named", wide(prod([(3, 3, 1, 0), (2, 2, 2, 1)], range(3))))
J("P16", "h_p16_gauss", wide(prod([(3, 3, 1, 0)], (3, 5), (8, 13), (0, 1))))
J("P17", "h_p17_grad", wide(prod([(2, 2, 1, 0), (3, 2, 2, 1)], [(0, 0), (1, 0), (2, 3)]), ((32, -300),)))
J("P17", "h_p17_mask", prod([(3, 1, 2, 1), (1, 3, 1, 0)], range(9), (0,)) + prod([(2, 2, 1, 0)], (3, 4, 6), (0,)) + prod([(3, 3, 1, 0)], (3, 4, 7, 8), (0,)) + [d + (m, n, s) for d, n in [((3, 3, 1, 0), 2), ((4, 4, 1, 0), 2), ((2, 3, 2, 1), 2)] for m in range(6) for s in range(4)] + prod([(2, 2, 3, 0), (2, 1, 4, 1)], (0, 3), (0,)) + wide(prod([(2, 2, 2, 1)], (4, 5)), ((32, -300),)))
J("P17", "h_p17_small", prod([(2, 2, 1, 0), (3, 1, 2, 1), (1, 3, 1, 0)], [(0, 0), (1, 0), (2, 3), (2, 0), (2, 1)], [(1, 4), (8, 6)]))
J("P21", "h_p21_residual", wide(prod([(2, 2, 3, 0), (1, 3, 2, 1)], [(2, 2, 3, 0, 0), (1, 3, 2, 1, 0)])))
J("P24", "h_p24_grayf", wide([(3, 1, 3, 0), (1, 1, 4, 1), (2, 1, 6, 0), (1, 2, 1, 0)]))

# ---------------------------------------------------------------- the alpha flag decides, not the channel count
# the smallest and a middle job of every layout again with the opposite alpha flag (2 channels without alpha, 3 with, ...)
FLIP = """p01_len p01_oob p01_read p01_write p02_ctor p03_n1 p03_n2 p03_sub p04_iter p04_ways p05_apply p05_channels p05_edit p05_pixels
p05_wrong p06_round p07_crop p07_cropf p09_translate p09_translatef p10_reflect p10_reflectf p11_angle p11_any p11_quarter p12_any p12_bilinear p12_nearest
p13_weighted p14_any p14_shear p15_1d p15_sep p16_2d p16_box p16_gauss p16_linear p16_named p16_weighted
p27_lin p30_contrast p30_gain p30_gamma p32_table p36_simd p37_crop p37_filter p37_scale""".split()


def flips():
    for p in sorted(T):
        g = {}
        for j in T[p]:
            c = j["cfg"]
            if j["h"][2:] in FLIP and j["tier"] == "quick" and len(c) < 30 and c[0] and c[1] and j["build"] in ("simd", "dual"):
                g.setdefault((j["h"], c[2], c[3]), []).append(j)
        have = set(g)
        for (h, ch, a), js in sorted(g.items()):
            if (h, ch, 1 - a) in have or ch > 5:
                continue
            bound_once(p, " Each layout also with the opposite alpha flag (1 and 3 channels with alpha, 2 and 4 without).")
            for j in ([js[0], js[len(js) // 2]] if len(js) > 1 else js):
                T[p].append(dict(j, cfg=j["cfg"][:3] + [1 - a] + j["cfg"][4:]))


def bound_once(p, text):
    if text not in B.setdefault(p, []):
        B[p].append(text)


flips()
J("P08", "h_p08_overlay", [(2, 2, 2, 0, 2, 1, 2, 0), (2, 2, 3, 1, 1, 2, 3, 1), (2, 1, 4, 0, 1, 2, 4, 0), (2, 1, 1, 1, 1, 2, 1, 1), (2, 1, 3, 0, 2, 1, 3, 1), (2, 1, 4, 1, 2, 1, 4, 0)])
J("P08", "h_p08_super", [(2, 2, 2, 0, 2, 1, 2, 0), (2, 2, 3, 1, 1, 2, 3, 1), (2, 1, 4, 0, 1, 2, 4, 0), (2, 1, 1, 1, 1, 2, 1, 1), (2, 1, 3, 0, 2, 1, 3, 1), (2, 1, 4, 1, 2, 1, 4, 0)])
J("P21", "h_p21_residual", [(2, 2, 2, 0, 2, 2, 2, 0, 0), (2, 1, 3, 1, 2, 1, 3, 1, 0), (2, 1, 3, 1, 2, 1, 3, 0, 0), (2, 1, 4, 0, 2, 1, 4, 0, 0), (2, 1, 2, 1, 2, 1, 2, 0, 0)])
bound("P08", " Layouts with either alpha flag.")
bound("P21", " Layouts with either alpha flag.")
RF = [(2, 3, 2, 0, 1, 2, 4, 4, 1, 3), (2, 3, 3, 1, 1, 0, 3, 4, 0, 5), (2, 2, 4, 0, 1, 2, 4, 4, 1, 3), (3, 2, 1, 1, 1, 0, 2, 4, 0, 1), (2, 2, 4, 1, 1, 2, 4, 4, 3, 4), (2, 1, 5, 0, 1, 2, 4, 3, 4, 2)]
J("P19", "h_p19_median", RF)
J("P20", "h_p20_mean", [r + (a,) for r in RF for a in (0, 4)])
for _p in ("P19", "P20"):
    bound(_p, " Layouts with either alpha flag, up to 5 channels.")
J("P33", "h_p33_apply", [d + (n, l, m, e) for d, e in [((3, 2, 3, 0), 0), ((2, 3, 2, 1), 4), ((1, 1, 1, 0), 1)] for n, m in [(1, 0), (3, 0), (3, 1), (5, 1), (1, 2), (3, 2)] for q in [n * n if m == 2 else n] for l in (q, q - 1, q + 1, q + 2, 2 * q + 1)]
  + [(3, 1, 2, 0, 0, 3, 3, 0), (3, 3, 1, 0, 0, 9, 3, 2), (2, 2, 1, 0, 0, 4, 3, 0), (1, 5, 2, 1, 0, 5, 3, 0), (3, 1, 1, 0, 0, 1, 3, 0)])
bound("P33", "Kernel application on windows of 1 to 25 pixels with entries in multiples of 1/8 and every length near the right one.")
J("P16", "h_p16_weighted", prod([(3, 2, 3, 0), (2, 3, 2, 1)], (3, 5), (0, 4, 255, 256, 65535)) + [(2, 2, 1, 0, 1, 255), (3, 3, 1, 0, 7, 0), (3, 3, 1, 0, 9, 1), (3, 3, 1, 0, 9, 81)])

# ---------------------------------------------------------------- image sides that are powers of two or multiples of a block, and their neighbours
MID = [(64, 16, 1, 0), (32, 8, 3, 0), (16, 33, 4, 1), (8, 64, 2, 1), (33, 17, 3, 0), (256, 2, 1, 0), (13, 128, 1, 0)]
MIDH = """p01_read p01_write p02_ctor p03_n1 p03_n2 p04_iter p05_apply p05_channels p05_pixels p06_round p09_translate p09_translatef p10_reflect
p11_quarter p12_bilinear p12_nearest p13_weighted p14_shear p15_1d p15_sep p16_2d p16_box p16_gauss p16_linear p16_named p16_weighted p17_grad p18_thresh
p24_gray p24_grayf p30_contrast p30_gamma p37_filter p37_scale""".split()


def mids():
    for p in sorted(T):
        g = {}
        for j in T[p]:
            c = j["cfg"]
            if j["h"][2:] in MIDH and len(c) >= 42 and c[30] == 1 and j["tier"] == "quick" and c[2] < 5:
                t = g.setdefault((j["h"], j["build"]), [])
                if tuple(c[4:30]) not in [x for x, _ in t] and not any(abs(v) > {"p12": 40, "p13": 40, "p15": 9, "p16": 25, "p03": 40}.get(j["h"][2:5], 1 << 40) for v in c[4:8]) and not (j["h"] == "h_p16_2d" and c[4] > 9):
                    t.append((tuple(c[4:30]), j))
        for (h, b), t in sorted(g.items()):
            n = 0
            for i, d in enumerate(MID):
                if h[2:5] in ("p17", "p18") and d[2] != 1 + d[3]:
                    continue
                if h[2:5] == "p24" and d[2] != 3 + d[3]:
                    continue
                for q in range(min(3, len(t))):
                    post, j = t[(i + q) % len(t)]
                    size = d[0] * d[1] * d[2]
                    for x, y in [((0, 2), (d[1] - 2, 2)), ((d[0] - 2, 2), (min(d[1] - 1, 15 * q), 1))][(q & 1):][:2]:
                        p0 = (y[0] * d[0] + x[0]) * d[2]
                        T[p].append(dict(j, cfg=list(d) + list(post) + [1, 4, p0, max(1, (size - p0) // 4 - 1)] + list(x + y) + [0, 1, 0, 1]))
                        n += 1
            if n:
                bound_once(p, " Also images of 64x16, 32x8, 16x33, 8x64, 33x17, 256x2 and 13x128 pixels with a concrete background and 4 symbolic values.")


mids()
J("P37", "h_p37_bilateral", [d + (o,) + p + q for d in [(1, 3, 4, 1), (2, 3, 3, 0), (1, 4, 3, 0)] for o in (0, 1) for p in [(-1, 31, 200)] for q in [(160, 8)]] + [(1, 3, 3, 0, 2, 90, -1, 90, 800, 16)], build="dual")
J("P11", "h_p11_any", prod([(5, 4, 3, 0), (1, 6, 1, 0), (7, 2, 2, 1), (6, 6, 1, 0)], (1, 40, 119, 180, 271, 420, 541, 662, 810, 1000, 1130, 1300, 1439, -1, -100, -500, 1500, 2000, 14500)))
J("P11", "h_p11_any", [big(d + (t,), 4, 1, d[0] * d[1] * d[2] // 5) for d in [(64, 16, 1, 0), (17, 33, 3, 0), (300, 5, 1, 0), (2, 300, 2, 1), (31, 40, 4, 1)] for t in (1, 37, 180, 413, 700, 1001, 1380, -50)])
bound("P11", "Other angles in steps of a quarter degree on images up to 300x5 and 31x40; pixels whose centre falls within 0.002 of a border between input pixels may show either.")
# ---------------------------------------------------------------- sizes in multiples of common block sizes
BLK = [(64, 3), (3, 64), (33, 4), (16, 17), (5, 32), (32, 5), (128, 2)]
RB = [(w, h, c, a, r, 0, 1 + i % 3, 4, (w * h * c) // 2 - 1, 1 + (i % 2) * c) for i, ((w, h), (c, a), r) in enumerate([(s, l, r) for s in BLK for l, r in [((1, 0), 1), ((3, 0), 1), ((1, 0), 2)]])]
RB += [(w, h, 1, 0, 1, 2, 3, 4, p, 1) for w, h in BLK for p in (0, w * h - 4)]
J("P19", "h_p19_median", RB)
J("P20", "h_p20_mean", [r + (2 * (i % 4),) for i, r in enumerate(RB)])
MBK = [(w, h, c, a, r, bg, 4, p, s, 0) for w, h in BLK for c, a, r, bg in [(1, 0, 1, 1), (1, 0, 2, 3), (2, 1, 1, 0)] for p, s in [(w * h // 2, w), (w * h - 4, 1)]]
MBK += [(w, h, 1, 0, r, bg, 3, 0, 67, 0) for w, h in [(3, 64), (64, 3), (2, 96), (128, 1)] for r in (31, 32, 33, 40, 63, 64, 65) for bg in (0, 1)]
J("P22", "h_p22_morph", prod(MBK, (0, 1)))
J("P23", "h_p23_morph", prod(MBK, (2, 3, 4, 5)))
J("P13", "h_p13_weighted", [big(d + f + (m,), 4, 1, d[0] * d[1] * d[2] // 3) for d in [(64, 2, 1, 0), (2, 64, 1, 0), (33, 3, 2, 1), (3, 33, 1, 0), (128, 1, 1, 0)] for f in [(1, 1, 1), (1, 1, 2), (2, 1, 1), (3, 3, 2)] for m in (2, 3, 5, 6, 8)])
J("P30", "h_p30_gamma", prod([(2, 2, 3, 0), (2, 1, 2, 1)], [fb(x) for x in (0.5, 2.2)], (3, 4, 8, 10, 15, 16, 31, 32, 50, 63, 64, 65, 127, 129, 192, 240, 253)))
J("P31", "h_p31_many", [(w, h, c, a, 3, s, 3) for w, h in [(64, 7), (7, 16), (32, 7), (128, 7), (56, 2), (10, 10), (100, 7)] for c, a in [(1, 0), (3, 0)] for s in (1, 40)])
J("P31", "h_p31_many", [(np, 1, 1, 0, 3, s, 4) for np in (48, 81, 169, 381, 693, 847, 1839, 1846) for s in (1, 41)])
J("P33", "h_p33_mul", [(n, n * n + e, 0) for n in (6, 7, 8, 9, 10, 12, 16) for e in (0, 1)])
J("P32", "h_p32_large", [big(d + (t, 20), 5, 3, 11, (a, 1), (b, 1), (a, min(5, d[0] - a)), (b, min(5, d[1] - b))) for t in (1, 2, 3, 4, 5) for d in [(17, 5, 1, 0), (16, 16, 1, 0), (5, 33, 3, 0), (64, 3, 2, 1)] for a in (0, d[0] // 2, d[0] - 2) for b in (0, d[1] // 2, d[1] - 2)])
for _p in ("P19", "P20", "P22", "P23"):
    bound(_p, " Sides of 16, 32, 33, 64 and 128 pixels with 4 symbolic values.")
bound("P13", " Sides of 33, 64 and 128 pixels with Lanczos windows of 1 to 4 pixels.")
bound("P30", " 17 further maxima.")
bound("P31", " 112 to 896 pixels, with lightnesses shared by about 16 to 128 pixels.")
bound("P32", " Images of 17x5, 16x16, 5x33 and 64x3 pixels with rectangles in their corners, edges and middle.")
J("P32", "h_p32_large", [big(d + (t, 20), 5, 3, 11, (a, 1), (b, 1), (a, d[0] - a), (b, d[1] - b)) for t, d in [(3, (11, 10, 1, 0)), (2, (1, 40, 1, 0)), (4, (40, 1, 1, 0)), (3, (3, 17, 2, 1)), (5, (18, 3, 1, 0)), (1, (16, 16, 1, 0))] for a in sorted({0, 1, d[0] // 2, d[0] - 1}) if a < d[0] for b in sorted({0, 1, d[1] // 2, d[1] - 1}) if b < d[1]])
bound("P32", " Every rectangle starting at selected places of images of 11x10 to 40x1 pixels.")
# ---------------------------------------------------------------- many factors, window sizes and value ranges
FAX = [((k * 7) % (5 * q) + 1, (k * 11 + 3) % (5 * q) + 1, q) for q in (2, 4, 8, 16) for k in range(16)]
J("P12", "h_p12_nearest", [d + f for i, f in enumerate(FAX) for d in [[(3, 2, 3, 0), (4, 5, 1, 0), (5, 3, 2, 1)][i % 3]]])
J("P12", "h_p12_bilinear", [d + f for i, f in enumerate(FAX) for d in [[(4, 5, 1, 0), (3, 3, 2, 1), (6, 2, 1, 0)][i % 3]]])
J("P12", "h_p12_any", [d + f + (m,) for i, f in enumerate([(k % 47 + 1, (k * 17) % 53 + 1, q) for q in (3, 7, 10, 100) for k in range(2, 60, 4)]) for d in [[(5, 4, 1, 0), (7, 3, 1, 0)][i % 2]] for m in (0, 1)])
J("P13", "h_p13_weighted", [d + f + (m,) for i, f in enumerate(FAX) if f[0] <= 3 * f[2] and f[1] <= 3 * f[2] for d in [[(3, 2, 1, 0), (2, 3, 2, 1)][i % 2]] for m in [(2, 3, 5, 6)[i % 4]]])
J("P14", "h_p14_shear", [d + (x * sx, y * sy, q) for i, (x, y, q) in enumerate(FAX) if q < 16 for d in [[(3, 2, 1, 0), (2, 4, 2, 1), (5, 3, 1, 0)][i % 3]] for sx, sy in [((1, 1), (-1, 1), (1, -1), (-1, -1), (0, 1), (1, 0))[i % 6], ((-1, 1), (0, -1), (1, 1))[i % 3]]])
J("P03", "h_p03_n1", prod([(4, 3, 1, 0), (2, 5, 2, 1)], (6, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 64), (0, 1)))
J("P03", "h_p03_n2", prod([(4, 3, 1, 0), (2, 5, 2, 1)], (6, 8, 9, 10, 11, 12, 13, 16, 17, 20)) + [(2, 1, 1, 0, 32), (1, 3, 1, 0, 31)])
J("P08", "h_p08_super", [c for k in (1, 40, 129, 256) for c in wide([(2, 1, 1, 0, 1, 1, 1, 0)], ((8192, -131072), (65536, 0)), k)])
for _p in ("P12", "P13", "P14"):
    bound(_p, " 64 further pairs of factors in halves, quarters, eighths and sixteenths up to 5" + (", and 60 in thirds, sevenths, tenths and hundredths." if _p == "P12" else " (3)." if _p == "P13" else " with all signs."))
bound("P03", " Neighbourhoods of 6 to 64 pixels, even and odd.")
bound("P08", " Blending of values from -131072 to 2088960.")
FAD = [(x, y, q) for q, l in [(8, (1, 2, 3, 5, 7)), (16, (3, 5, 6, 7, 9, 13))] for a in l for x, y in [(a, q), (q, a), (a, a)]]
for _h, _m in [("h_p12_nearest", None), ("h_p12_bilinear", None), ("h_p13_weighted", (2, 3, 5, 6))]:
    J(_h[2:5].upper(), _h, [d + f + ((_m[i % 4],) if _m else ()) for i, f in enumerate(FAD) for d in [(2, 13, 1, 0), (14, 3, 1, 0)]])
J("P12", "h_p12_any", [d + f + (m,) for f in [(3, 10, 10), (10, 3, 10), (37, 100, 100), (100, 29, 100), (1, 1, 3), (2, 7, 7), (5, 3, 7)] for d in [(2, 15, 1, 0), (17, 3, 1, 0)] for m in (0, 1)])
for _p in ("P12", "P13"):
    bound(_p, " Reduction of images of 2x13 and 14x3 pixels by eighths and sixteenths.")
J("P33", "h_p33_apply", [d + (n, l, m, 0) for d in [(3, 2, 3, 0), (2, 3, 2, 1)] for n, m in [(1, 0), (3, 0), (3, 1), (5, 1), (1, 2), (3, 2)] for q in [n * n if m == 2 else n] for l in (q, q - 1, q + 2)], build="par")
bound("P33", " The kernel helpers of the multithreaded build too.")
