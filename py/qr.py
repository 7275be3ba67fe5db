"""Reads QR codes (ISO/IEC 18004, model 2) drawn with half blocks. Independent of the crate that makes them, and stricter
than a scanner: nothing may need correcting."""

# error correction codewords per block and number of blocks, by level and version (table 9 of the standard)
ECC = {
    "L": ([7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28] + [30] * 14,
          [1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25]),
    "M": ([10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26] + [28] * 19,
          [1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49]),
    "Q": ([13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28] + [30] * 14,
          [1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68]),
    "H": ([17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24] + [30] * 18,
          [1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81]),
}
LEVELS = {1: "L", 0: "M", 3: "Q", 2: "H"}
ALNUM = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"
MASKS = [lambda x, y: (x + y) % 2, lambda x, y: y % 2, lambda x, y: x % 3, lambda x, y: (x + y) % 3,
         lambda x, y: (x // 3 + y // 2) % 2, lambda x, y: x * y % 2 + x * y % 3,
         lambda x, y: (x * y % 2 + x * y % 3) % 2, lambda x, y: ((x + y) % 2 + x * y % 3) % 2]

EXP, LOG = [0] * 512, [0] * 256
_v = 1
for _i in range(255):
    EXP[_i] = EXP[_i + 255] = _v
    LOG[_v] = _i
    _v = _v << 1 ^ (0x11d if _v & 128 else 0)


class BadCode(Exception):
    pass


def bch(data, poly, bits):
    """data with its remainder appended."""
    d = data << bits
    while d.bit_length() > bits:
        d ^= poly << (d.bit_length() - bits - 1)
    return data << bits | d


def matrix(text):
    """The picture as rows of 0/1, without the margin."""
    rows = []
    for line in text.split("\n"):
        if any(c not in " \u2580\u2584\u2588" for c in line):
            raise BadCode("characters other than half blocks: %r" % line[:80])
        rows.append([1 if c in "\u2580\u2588" else 0 for c in line])
        rows.append([1 if c in "\u2584\u2588" else 0 for c in line])
    ys = [y for y, r in enumerate(rows) if any(r)]
    if not ys:
        raise BadCode("empty picture")
    xs = [x for r in rows for x, c in enumerate(r) if c]
    x0, x1, y0, y1 = min(xs), max(xs), ys[0], ys[-1]
    if x1 - x0 != y1 - y0:
        raise BadCode("not a square: %d x %d" % (x1 - x0 + 1, y1 - y0 + 1))
    return [[(r[x] if x < len(r) else 0) for x in range(x0, x1 + 1)] for r in rows[y0:y1 + 1]]


def _alignment(version):
    if version == 1:
        return []
    n = version // 7 + 2
    step = 26 if version == 32 else (version * 4 + n * 2 + 1) // (n * 2 - 2) * 2
    return [6] + sorted(version * 4 + 10 - i * step for i in range(n - 1))


_layouts = {}


def _layout(version):
    """(function patterns {(x, y): value or None}, data positions in reading order)."""
    if version in _layouts:
        return _layouts[version]
    size = version * 4 + 17
    f = {}
    for i in range(size):
        f[(i, 6)] = f[(6, i)] = (i + 1) % 2
    pos = _alignment(version)
    for i, cx in enumerate(pos):
        for j, cy in enumerate(pos):
            if (i, j) in ((0, 0), (0, len(pos) - 1), (len(pos) - 1, 0)):
                continue
            for dy in range(-2, 3):
                for dx in range(-2, 3):
                    f[(cx + dx, cy + dy)] = int(max(abs(dx), abs(dy)) != 1)
    for cx, cy in ((3, 3), (size - 4, 3), (3, size - 4)):
        for dy in range(-4, 5):
            for dx in range(-4, 5):
                x, y = cx + dx, cy + dy
                if 0 <= x < size and 0 <= y < size:
                    f[(x, y)] = int(max(abs(dx), abs(dy)) not in (2, 4))
    for i in list(range(9)):
        f.setdefault((8, i), None)
        f.setdefault((i, 8), None)
    for i in range(8):
        f[(size - 1 - i, 8)] = None
        f[(8, size - 1 - i)] = None
    f[(8, size - 8)] = 1
    if version >= 7:
        for i in range(18):
            a, b = size - 11 + i % 3, i // 3
            f[(a, b)] = f[(b, a)] = None
    cells = []
    right = size - 1
    up = True
    while right >= 1:
        if right == 6:
            right = 5
        for k in range(size):
            y = size - 1 - k if up else k
            for x in (right, right - 1):
                if (x, y) not in f:
                    cells.append((x, y))
        up = not up
        right -= 2
    _layouts[version] = (f, cells)
    return _layouts[version]


def decode(text):
    """-> (content, version, level, mode). BadCode if a scanner could trip over anything."""
    m = matrix(text)
    size = len(m)
    if size < 21 or (size - 17) % 4 or size > 177:
        raise BadCode("size %d" % size)
    version = (size - 17) // 4
    fixed, cells = _layout(version)
    for (x, y), v in fixed.items():
        if v is not None and m[y][x] != v:
            raise BadCode("function pattern wrong at %d,%d" % (x, y))
    a = [m[i][8] for i in range(6)] + [m[7][8], m[8][8], m[8][7]] + [m[8][14 - i] for i in range(9, 15)]
    b = [m[8][size - 1 - i] for i in range(8)] + [m[size - 15 + i][8] for i in range(8, 15)]
    if a != b:
        raise BadCode("the two format informations differ")
    bits = sum(v << i for i, v in enumerate(a)) ^ 0x5412
    if bch(bits >> 10, 0x537, 10) != bits:
        raise BadCode("format information damaged")
    level, mask = LEVELS[bits >> 13], bits >> 10 & 7
    if version >= 7:
        want = bch(version, 0x1f25, 12)
        for i in range(18):
            p, q = size - 11 + i % 3, i // 3
            if m[q][p] != want >> i & 1 or m[p][q] != want >> i & 1:
                raise BadCode("version information damaged")
    fn = MASKS[mask]
    stream = [m[y][x] ^ (fn(x, y) == 0) for x, y in cells]
    n = len(stream) // 8
    words = [int("".join(map(str, map(int, stream[i * 8:i * 8 + 8]))), 2) for i in range(n)]
    per, blocks = ECC[level][0][version - 1], ECC[level][1][version - 1]
    short, long_ = n // blocks, n % blocks
    data = [[] for _ in range(blocks)]
    it = iter(words)
    for i in range(short - per + 1):
        for j in range(blocks):
            if i < short - per or j >= blocks - long_:
                data[j].append(next(it))
    for i in range(per):
        for j in range(blocks):
            data[j].append(next(it))
    out = []
    for d in data:
        for e in range(per):
            s = 0
            for c in d:
                s = c ^ (EXP[LOG[s] + e] if s else 0)
            if s:
                raise BadCode("error correction codewords do not fit")
        out += d[:-per]
    return _content("".join("%08d" % int(bin(c)[2:]) for c in out), version) + (level,)


def _content(bits, version):
    i = 0

    def take(n):
        nonlocal i
        if i + n > len(bits):
            raise BadCode("data cut off")
        v = int(bits[i:i + n] or "0", 2)
        i += n
        return v

    k = 0 if version < 10 else 1 if version < 27 else 2
    raw, modes = b"", []
    while len(bits) - i >= 4:
        mode = take(4)
        if mode == 0:
            break
        if mode == 1:
            n, s = take((10, 12, 14)[k]), ""
            while n:
                d = min(3, n)
                s += "%0*d" % (d, take((0, 4, 7, 10)[d]))
                n -= d
            raw += s.encode()
        elif mode == 2:
            n, s = take((9, 11, 13)[k]), ""
            while n >= 2:
                v = take(11)
                s += ALNUM[v // 45] + ALNUM[v % 45]
                n -= 2
            if n:
                s += ALNUM[take(6)]
            raw += s.encode()
        elif mode == 4:
            n = take((8, 16, 16)[k])
            raw += bytes(take(8) for _ in range(n))
        elif mode == 7:
            if take(8) != 26:
                raise BadCode("an ECI other than UTF-8")
        else:
            raise BadCode("mode %d" % mode)
        modes.append({1: "numeric", 2: "alphanumeric", 4: "bytes", 7: "eci"}[mode])
    try:
        return raw.decode("utf-8"), version, "+".join(modes)
    except UnicodeDecodeError:
        raise BadCode("content is not UTF-8: %r" % raw[:60])
