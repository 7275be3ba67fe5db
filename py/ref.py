"""Independent implementation of the documented behaviour: key derivation, the storage file, generated
passwords, recovery codes. Shares no code with the program (hashlib/OpenSSL instead of its crates)."""
import base64, ctypes, functools, hashlib, hmac, json, os, re

LOWER = "abcdefghjkmnpqrstuvwxyz"
UPPER = "ABCDEFGHJKMNPQRSTUVWXYZ"
DIGIT = "23456789"
SYMBOL = "!#$%&()*+,-./:;<=>?@[]^_{|}~"
CLASSES = (("lower", LOWER), ("upper", UPPER), ("number", DIGIT), ("symbol", SYMBOL))


@functools.lru_cache(maxsize=4096)
def scrypt(password, salt, n):
    return hashlib.scrypt(password, salt=salt, n=1 << 15, r=8, p=1, maxmem=64 << 20, dklen=n)


def storage_key(primary, salt):
    """The salt's bytes are taken as characters U+0000..U+00FF and encoded as UTF-8."""
    return scrypt(primary.encode(), salt.decode("latin-1").encode("utf-8"), 32)


# ------------------------------------------------------------------ AES-256-GCM through libcrypto
_c = None


def _crypto():
    global _c
    if _c is None:
        c = ctypes.CDLL("libcrypto.so.3")
        for f in ("EVP_CIPHER_CTX_new", "EVP_aes_256_gcm"):
            getattr(c, f).restype = ctypes.c_void_p
        V, I, B = ctypes.c_void_p, ctypes.c_int, ctypes.c_char_p
        IP = ctypes.POINTER(ctypes.c_int)
        c.EVP_CIPHER_CTX_free.argtypes = [V]
        c.EVP_CIPHER_CTX_ctrl.argtypes = [V, I, I, V]
        for op in ("Encrypt", "Decrypt"):
            getattr(c, "EVP_%sInit_ex" % op).argtypes = [V, V, V, B, B]
            getattr(c, "EVP_%sUpdate" % op).argtypes = [V, V, IP, B, I]
            getattr(c, "EVP_%sFinal_ex" % op).argtypes = [V, V, IP]
        _c = c
    return _c


def gcm_encrypt(key, nonce, data):
    c = _crypto()
    ctx = c.EVP_CIPHER_CTX_new()
    try:
        n = ctypes.c_int(0)
        assert c.EVP_EncryptInit_ex(ctx, c.EVP_aes_256_gcm(), None, None, None) == 1
        assert c.EVP_CIPHER_CTX_ctrl(ctx, 9, len(nonce), None) == 1
        assert c.EVP_EncryptInit_ex(ctx, None, None, key, nonce) == 1
        buf = ctypes.create_string_buffer(len(data) + 32)
        assert c.EVP_EncryptUpdate(ctx, buf, ctypes.byref(n), data, len(data)) == 1
        out = buf.raw[:n.value]
        assert c.EVP_EncryptFinal_ex(ctx, buf, ctypes.byref(n)) == 1
        out += buf.raw[:n.value]
        tag = ctypes.create_string_buffer(16)
        assert c.EVP_CIPHER_CTX_ctrl(ctx, 0x10, 16, tag) == 1
        return out + tag.raw
    finally:
        c.EVP_CIPHER_CTX_free(ctx)


def gcm_decrypt(key, nonce, data):
    """None if the data is not authentic."""
    if len(data) < 16 or len(nonce) == 0:
        return None
    c = _crypto()
    ctx = c.EVP_CIPHER_CTX_new()
    try:
        n = ctypes.c_int(0)
        ct, tag = data[:-16], data[-16:]
        assert c.EVP_DecryptInit_ex(ctx, c.EVP_aes_256_gcm(), None, None, None) == 1
        assert c.EVP_CIPHER_CTX_ctrl(ctx, 9, len(nonce), None) == 1
        assert c.EVP_DecryptInit_ex(ctx, None, None, key, nonce) == 1
        buf = ctypes.create_string_buffer(len(ct) + 32)
        assert c.EVP_DecryptUpdate(ctx, buf, ctypes.byref(n), ct, len(ct)) == 1
        out = buf.raw[:n.value]
        t = ctypes.create_string_buffer(tag, 16)
        assert c.EVP_CIPHER_CTX_ctrl(ctx, 0x11, 16, t) == 1
        if c.EVP_DecryptFinal_ex(ctx, buf, ctypes.byref(n)) != 1:
            return None
        return out + buf.raw[:n.value]
    finally:
        c.EVP_CIPHER_CTX_free(ctx)


# ------------------------------------------------------------------ values and keys of the file
def b64(b):
    return base64.b64encode(b).decode()


def unb64(s):
    return base64.b64decode(s.encode(), validate=True)


def enc(key, plain, nonce=None):
    nonce = nonce or os.urandom(12)
    return b64(nonce) + "_" + b64(gcm_encrypt(key, nonce, plain))


def split(value):
    a, _, b = value.partition("_")
    return unb64(a), unb64(b)


def dec(key, value):
    try:
        nonce, ct = split(value)
    except Exception:
        return None
    if len(nonce) != 12:
        return None
    return gcm_decrypt(key, nonce, ct)


def digest(hmac_secret, text):
    return b64(hmac.new(hmac_secret, text.encode("utf-8"), hashlib.sha256).digest())


def norm_rev(rev):
    return "" if rev == "1" else rev


def site_key(hs, site):
    return "site:" + digest(hs, site)


def password_key(hs, site, name, rev):
    return site_key(hs, site) + ":" + digest(hs, site + "\0" + name + "\0" + norm_rev(rev))


class Plain:
    """Decrypted content of a storage file."""

    def __init__(self, salt, key, hmac_secret, sites, passwords, raw):
        self.salt, self.key, self.hmac_secret = salt, key, hmac_secret
        self.sites, self.passwords, self.raw = sites, passwords, raw


class FormatError(Exception):
    pass


def read_storage(text, primary, extra=None):
    """Strictly reads a storage file. FormatError if anything is not as documented. extra: data of other implementations
    which has to be there just so."""
    try:
        doc = json.loads(text)
    except ValueError as e:
        raise FormatError("not JSON: %s" % e)
    if not isinstance(doc, dict) or set(doc) != {"application", "format", "data"}:
        raise FormatError("top level: %r" % (list(doc) if isinstance(doc, dict) else type(doc)))
    if doc["application"] != "pfp" or doc["format"] != 3:
        raise FormatError("application/format: %r %r" % (doc["application"], doc["format"]))
    data = doc["data"]
    if not isinstance(data, dict) or not all(isinstance(v, str) for v in data.values()):
        raise FormatError("data is not a map of strings")
    try:
        salt = unb64(data["salt"])
    except Exception as e:
        raise FormatError("salt: %r" % e)
    key = storage_key(primary, salt)
    h = dec(key, data.get("hmac-secret", ""))
    if h is None:
        raise FormatError("hmac-secret does not decrypt")
    try:
        hs = unb64(json.loads(h))
    except Exception as e:
        raise FormatError("hmac-secret: %r" % e)
    sites, pws = {}, {}
    for k, v in data.items():
        if k in ("salt", "hmac-secret"):
            continue
        if extra and k in extra:
            if v != extra[k]:
                raise FormatError("value of %r changed" % k)
            continue
        if not k.startswith("site:"):
            raise FormatError("unknown key %r" % k)
        p = dec(key, v)
        if p is None:
            raise FormatError("value of %r does not decrypt" % k)
        try:
            o = json.loads(p)
        except ValueError as e:
            raise FormatError("value of %r is not JSON: %s" % (k, e))
        if ":" not in k[5:]:
            if not set(o) <= {"site", "alias"} or not isinstance(o.get("site"), str) or \
                    not isinstance(o.get("alias", ""), str):
                raise FormatError("site entry %r" % o)
            if k != site_key(hs, o["site"]):
                raise FormatError("site %r is under a wrong key" % o["site"])
            sites[o["site"]] = o.get("alias")
        else:
            t = o.get("type")
            base = {"type", "site", "name", "revision"}
            need = base | ({"length", "lower", "upper", "number", "symbol"} if t == "generated2" else {"password"})
            if t not in ("generated2", "stored") or not need <= set(o) or set(o) - need - {"notes"}:
                raise FormatError("password entry %r" % o)
            if k != password_key(hs, o["site"], o["name"], o["revision"]):
                raise FormatError("password %r is under a wrong key" % o)
            if o["revision"] == "1":
                raise FormatError("revision 1 is stored as such")
            pws[(o["site"], o["name"], o["revision"])] = o
    if extra and not set(extra) <= set(data):
        raise FormatError("the value of %r is gone" % sorted(set(extra) - set(data))[0])
    return Plain(salt, key, hs, sites, pws, data)


def escape_more(text, rnd):
    """The same JSON with needlessly escaped characters and white space."""
    out, inside, esc = "", False, 0
    for c in text:
        if esc:
            esc -= 1
        elif inside and c == "\\":
            esc = 1
        elif inside and c.isalnum() and ord(c) < 128 and rnd.random() < .2 and not out.endswith("\\u") and \
                not re.search(r"\\u[0-9a-fA-F]{0,3}$", out):
            c = "\\u%04x" % ord(c)
        elif inside and c == "/" and rnd.random() < .5:
            c = "\\/"
        elif c == '"':
            inside = not inside
        elif not inside and c in "{:,}" and rnd.random() < .3:
            c = rnd.choice([" ", "\n", "\t", "\r\n  "]) + c + rnd.choice([" ", "\n"])
        out += c
    return out.strip() if rnd.random() < .5 else out


def build_storage(primary, sites, passwords, salt=None, hs=None, style=None):
    """Writes a storage file the way another implementation might. sites: name -> alias or None.
    passwords: list of dicts."""
    import random
    rnd = style or random.Random(0)
    salt = salt or os.urandom(16)
    hs = hs or os.urandom(32)
    key = storage_key(primary, salt)
    data = [("salt", b64(salt)), ("hmac-secret", enc(key, json.dumps(b64(hs)).encode()))]
    seps = [(",", ":"), (", ", ": ")]

    def js(o):
        items = list(o.items())
        rnd.shuffle(items)
        t = json.dumps(dict(items), ensure_ascii=rnd.random() < .5, separators=rnd.choice(seps))
        return (escape_more(t, rnd) if style and rnd.random() < .3 else t).encode()

    for s, a in sites.items():
        o = {"site": s}
        if a is not None:
            o["alias"] = a
        data.append((site_key(hs, s), enc(key, js(o))))
    for p in passwords:
        data.append((password_key(hs, p["site"], p["name"], p["revision"]), enc(key, js(p))))
    rnd.shuffle(data)
    top = [("application", "pfp"), ("format", 3), ("data", dict(data))]
    rnd.shuffle(top)
    return json.dumps(dict(top), indent=rnd.choice([None, 1, 2])), hs, key, salt


# ------------------------------------------------------------------ generated passwords
def map_password(bytes_, classes):
    """classes: names of the allowed classes. Standard rule: each byte selects from the concatenated
    alphabets; once only as many characters remain as classes are still missing, only those are used."""
    allowed = [(n, a) for n, a in CLASSES if n in classes]
    seen, out = set(), ""
    total = len(bytes_)
    for i, b in enumerate(bytes_):
        missing = [(n, a) for n, a in allowed if n not in seen]
        use = missing if len(missing) >= total - i else allowed
        pool = "".join(a for _, a in use)
        c = pool[b % len(pool)]
        out += c
        seen.add(next(n for n, a in CLASSES if c in a))
    return out


def generate(primary, site, name, rev, length, classes):
    rev = norm_rev(rev)
    salt = site + "\0" + name + ("\0" + rev if rev else "")
    return map_password(scrypt(primary.encode(), salt.encode("utf-8"), length), classes)


# ------------------------------------------------------------------ recovery codes
ALPHABET = "ABCDEFGHJKLMNPQRSTUVWXYZ23456789"
PERM = [((i + 379) * 467) & 255 for i in range(256)]


def pearson(data, virtual):
    h = PERM[virtual]
    for b in data:
        h = PERM[h ^ b]
    return h


def b32(data):
    n = int.from_bytes(data, "big")
    bits = len(data) * 8
    return "".join(ALPHABET[(n >> (bits - 5 - 5 * i)) & 31] for i in range(bits // 5))


def unb32(text):
    n = 0
    for c in text:
        n = n * 32 + ALPHABET.index(c)
    return n.to_bytes(len(text) * 5 // 8, "big")


def canonical(code):
    return "".join(c for c in code.upper() if c in ALPHABET) if code.isascii() else \
        "".join(c for c in "".join(ch.upper() if ch.isascii() else " " for ch in code) if c in ALPHABET)


def make_code(password, salt, key, nonce=None, version=1, pad_extra=0):
    nonce = nonce or os.urandom(12)
    p = password if isinstance(password, bytes) else password.encode("utf-8")
    total = 1 + 16 + 12 + 16 + len(p)
    p += b"\0" * (-total % 14 + 14 * pad_extra)
    return rows_to_code(bytes([version]) + salt + nonce + gcm_encrypt(key, nonce, p))


def rows_to_code(data):
    assert len(data) % 14 == 0
    n = len(data) // 14
    lines = []
    for i in range(n):
        row = data[i * 14:i * 14 + 14]
        v = (255 - i) & 255 if i == n - 1 else i & 255
        t = b32(row + bytes([pearson(row, v)]))
        lines.append(fmt_line(t))
    return "\n".join(lines)


def fmt_line(t):
    q = [t[i:i + 4] for i in range(0, 24, 4)]
    return "-".join(q[:3]) + ":" + "-".join(q[3:])


class CodeError(Exception):
    def __init__(self, kind, line=None):
        super().__init__("%s %s" % (kind, line))
        self.kind, self.line = kind, line


def parse_code(code):
    """Rows of a complete code without checksums; CodeError incomplete / mismatch / extra."""
    t = canonical(code)
    rows = [unb32(t[i:i + 24]) for i in range(0, len(t) // 24 * 24, 24)]
    out = b""
    for i, r in enumerate(rows):
        if pearson(r[:14], (255 - i) & 255) == r[14]:
            out += r[:14]
            if len(rows) > i + 1:
                raise CodeError("extra", i + 1)
            if len(t) % 24:
                raise CodeError("extra", len(rows))
            return out
        if pearson(r[:14], i & 255) != r[14]:
            raise CodeError("mismatch", i)
        out += r[:14]
    raise CodeError("incomplete")


def read_code(code, primary):
    d = parse_code(code)
    if d[0] != 1:
        raise CodeError("version")
    if len(d) < 45:
        raise CodeError("short")
    p = gcm_decrypt(storage_key(primary, d[1:17]), d[17:29], d[29:])
    if p is None:
        raise CodeError("decrypt")
    return p.rstrip(b"\0").decode("utf-8")


# ------------------------------------------------------------------ wildcards
def wild(pattern, text):
    """True wildcard matching: * any run, ? any one character."""
    p, t = 0, 0
    star, mark = -1, 0
    while t < len(text):
        if p < len(pattern) and pattern[p] == "*":
            star, mark = p, t
            p += 1
        elif p < len(pattern) and (pattern[p] == "?" or pattern[p] == text[t]):
            p += 1
            t += 1
        elif star >= 0:
            p = star + 1
            mark += 1
            t = mark
        else:
            return False
    while p < len(pattern) and pattern[p] == "*":
        p += 1
    return p == len(pattern)


def wild_crate(pattern, text):
    """What the wildmatch crate (2.1.0) does: only used to keep to patterns where the two agree."""
    st, star = [], False
    for c in pattern:
        if c == "*":
            star = True
        else:
            st.append((c, star))
            star = False
    if pattern:
        st.append((None, star))
    if not st:
        return text == ""
    i = 0
    for ch in text:
        if i >= len(st):
            return False
        c, w = st[i]
        if c == "?" or c == ch:
            i += 1
        elif w:
            if c is None:
                return True
        else:
            if i == 0:
                return False
            i -= 1
            while True:
                c, w = st[i]
                if w:
                    if c == "?" or c == ch:
                        i += 1
                    break
                if i == 0:
                    return False
                i -= 1
    return i < len(st) and st[i][0] is None
