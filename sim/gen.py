"""Seeded generators: tables, CSV texts, dialects, encodings, fault plans."""
import codecs

WORDS = ["alpha", "beta", "x", "Total", "N/A", "nan", "true", "foo bar", "Mr. T", "zeta-9", "id", "name", "value"]
TYPED = ["0", "1", "42", "-7", "3.14", "1e5", "2019-02-13", "12:30", "10%", "$5.00", "http://a.b/c", "me@x.org",
         "1,234", "2020-01-01 00:00:00", "192.168.0.1", "{}"]
WIDE = ["é", "ü", "naïve", "日本", "Ω", "😀", "Straße", "a\x0bb", "x\x0cy", "\x1c", "p\x85q", "u\u2028v", "\u2029", "\xa0", "\ufeff", "e\u0301"]
NASTY = ['"', "'", "\\", ",", ";", "\t", "|", " ", "\n", "\r\n", "\r", '""', '\\"', "a\nb", ", ", "#", ":", "~", "''"]


def cell(rng, nasty=0.2, wide=0.1):
    r = rng.random()
    if r < nasty:
        return "".join(rng.choice(NASTY if rng.random() < 0.6 else WORDS) for _ in range(rng.randint(1, 3)))
    if r < nasty + wide:
        return rng.choice(WIDE)
    r = rng.random()
    if r < 0.1:
        return ""
    return rng.choice(TYPED if r < 0.55 else WORDS)


def table(rng, max_rows=10, max_cols=5, nasty=None, wide=None, ragged=0.15, min_rows=0):
    nasty = rng.choice([0, 0, 0.1, 0.4]) if nasty is None else nasty
    wide = rng.choice([0, 0, 0.3]) if wide is None else wide
    n = rng.randint(min_rows, max_rows)
    c = rng.randint(1, max_cols)
    rg = rng.random() < ragged
    rows = []
    for _ in range(n):
        k = c if not (rg and rng.random() < 0.4) else rng.randint(0, max_cols)
        rows.append([cell(rng, nasty, wide) for _ in range(k)])
    return rows


def serialize(rows, delim=",", quote='"', esc="", eol="\n", policy="minimal", last_eol=True):
    """CSV text for rows; the result need not parse back (messy files are the point)."""
    out = []
    for row in rows:
        cs = []
        for c in row:
            need = any(x in c for x in (delim, quote, "\n", "\r") if x) or (esc and esc in c)
            if quote and (policy == "all" or (policy == "minimal" and need)):
                if esc:
                    c = c.replace(esc, esc + esc).replace(quote, esc + quote)
                else:
                    c = c.replace(quote, quote * 2)
                c = quote + c + quote
            elif esc and need:
                c = "".join(esc + x if x in (delim, quote, esc, "\n", "\r") and x else x for x in c)
            cs.append(c)
        out.append(delim.join(cs))
    t = eol.join(out)
    return t + eol if (last_eol and out) else t


def dialect(rng):
    d = (rng.choice([",", ",", ";", "\t", "|", " ", ":", ""]), rng.choice(['"', '"', "'", ""]),
         rng.choice(["", "", "\\"]))
    if rng.random() < 0.08:
        # characters outside ASCII, Latin-1 and the BMP
        d = (rng.choice(["§", "→", "🦆"]) if d[0] and rng.random() < 0.4 else d[0],
             rng.choice(["é", "“", "😀"]) if d[1] else "", rng.choice(["¬", "…", "🔥"]) if d[2] and rng.random() < 0.5 else d[2])
    return d


def text(rng, **kw):
    """A CSV-like text."""
    r = rng.random()
    if r < 0.12:
        alphabet = rng.sample(NASTY + ["a", "b1", "1", "2", "\n", "\n"], rng.randint(3, 10))
        return "".join(rng.choice(alphabet) for _ in range(rng.randint(0, 40)))
    d, q, e = dialect(rng)
    rows = table(rng, **kw)
    t = serialize(rows, d or ",", q, e, rng.choice(["\n", "\n", "\r\n", "\r"]),
                  rng.choice(["minimal", "minimal", "all", "none"]), rng.random() < 0.75)
    r = rng.random()
    if r < 0.08:
        t = t[:rng.randint(0, len(t))]             # cut off anywhere
    elif r < 0.16:
        t += rng.choice([e or "\\", q or '"', d or ",", (d or ",") + (e or "\\"), "\\", "\n\n", "\r"])
    return t


ENCODINGS = ["utf-8", "utf-8", "utf-8", "latin-1", "utf-16", "utf-8-sig", "cp1252", "ascii", "utf-16-le"]


def encode(text, enc):
    """Bytes of text, or None if it cannot be encoded."""
    try:
        return text.encode(enc)
    except UnicodeEncodeError:
        return None


def encoded(rng, t, encs=None):
    """(encoding, bytes) for text t."""
    for _ in range(4):
        e = rng.choice(encs or ENCODINGS)
        b = encode(t, e)
        if b is not None:
            return e, b
    return "utf-8", t.encode("utf-8")


def late_trouble(rng):
    """(encoding, bytes, num_chars) of a file that starts well and goes wrong blocks later, in bytes, characters or size of a cell."""
    d = rng.choice([",", ";", "\t", "|"])
    row = (d.join(["alpha", "1", "2019-02-13"]) + rng.choice(["\n", "\r\n"])).encode()
    head = row * (rng.choice([8200, 9000, 16500, 66000, 140000] * 5 + [1100000, 2200000]) // len(row) + 1)
    enc = rng.choice(["utf-8", "utf-8", "ascii", "utf-16"])
    if enc == "utf-16":
        data = head.decode().encode("utf-16")
        return enc, data + rng.choice([b"\x00", b"\x00\xd8", b"\x00\xd8x\x00"]), rng.choice([50, 500, 3000])
    bad = rng.choice([b"\xff\xfe", b"x\xc3", b"\xe2\x82", b"a\0b", b"\x80", "né".encode("latin-1"), "né".encode(),
                      b'"' + b"y" * 131073 + b'"'])
    return enc, head + bad + rng.choice([b"", b"\n", row, row * 40]), rng.choice([50, 500, 3000])


def huge_text(rng):
    """More than a mebibyte, with something to get wrong in places."""
    d, eol = rng.choice(";|\t,"), rng.choice(["\n", "\r\n", "\r"])
    def row():
        return d.join(rng.choice(["a%d" % rng.randrange(10 ** 6), '"x%sy"' % d, '"l%sm"' % rng.choice(["\n", "\r\n", "\r"]), '"q""r"', "7", "w" * 40])
                      for _ in range(3)) + eol
    blocks = ["".join(row() for _ in range(40)) for _ in range(6)]
    n = rng.choice([1050000, 1050000, 1600000, 2200000])
    out = [blocks[0]]
    size = len(blocks[0])
    while size < n:
        out.append(rng.choice(blocks))
        size += len(out[-1])
    return "".join(out) + rng.choice(["", "last", row().rstrip(eol)])


ERRNOS = {
    "open": ["EACCES", "EMFILE", "EIO", "ENOENT", "ENOSPC"],
    "read": ["EIO", "EIO", "EISDIR", "ESTALE"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
    "copy": ["ENOSPC", "EIO"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "fsync": ["EIO", "ENOSPC"],
    "rename": ["EACCES", "EIO", "EPERM", "ENOSPC"],
    "unlink": ["EACCES", "EIO"],
    "link": ["EPERM", "EIO"],
    "symlink": ["EPERM", "EIO"],
    "trunc": ["EIO", "ENOSPC"],
    "chmod": ["EPERM", "EIO"],
    "chown": ["EPERM"],
    "mkdir": ["EACCES", "ENOSPC"],
    "rmdir": ["EACCES"],
    "utime": ["EPERM"],
}


def error_at(rng, log, kinds=None, where=None):
    """An error fault at a random operation of a profile log."""
    c = [o for o in log if o["kind"] in ERRNOS and (kinds is None or o["kind"] in kinds)
         and (where is None or where(o))]
    if not c:
        return None
    # choose the kind first so that rare operations get their share
    k = rng.choice(sorted({o["kind"] for o in c}))
    o = rng.choice([x for x in c if x["kind"] == k])
    f = {"k": o["i"], "type": "err", "errno": rng.choice(ERRNOS[k]), "kinds": [k]}
    if k == "write" and o["path"].startswith("io/") and rng.random() < 0.4:
        f["errno"] = "EPIPE"           # the reader of the pipe has gone
    if rng.random() < 0.15 and k in ("read", "write", "open"):
        f["sticky"] = 1
    return f


def crash_at(rng, n):
    k = rng.randrange(n) if n else 0
    t = rng.choice(["crash", "crash", "crash_after", "torn"])
    f = {"k": k, "type": t}
    if t == "torn":
        f["arg"] = rng.randint(1, 40)
    return f


def interrupt_at(rng, log):
    c = [o for o in log if o["kind"] in ("read", "write")]
    if not c:
        return None
    o = rng.choice(c)
    return {"k": o["i"], "type": rng.choice(["sigint", "sigint_after"])}
