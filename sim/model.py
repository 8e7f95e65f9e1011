"""Executable reference model of CleverCSV's record reader.

A small, slow state machine over one record at a time.  It is the specification
the simulated runs are compared against; it shares no code with the C parser.
"""

class ModelError(Exception):
    """The model says: reading must fail with clevercsv.Error."""


class SourceError(Exception):
    """Wraps an exception raised by the line source."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


NOTHING = None


def records(lines, delimiter=",", quotechar='"', escapechar="", strict=False,
            limit=128 * 1024, quoted_flags=False, pulled=None):
    """Yield the records in `lines`, pulling a line only when one is needed.

    `pulled` is a list that receives the number of lines consumed for each
    record.  Raises ModelError where the reader must report an error; whatever
    the source raises passes through.
    """
    D, Q, E = delimiter, quotechar, escapechar
    it = iter(lines)
    while True:
        rec = Record(D, Q, E, strict, limit, quoted_flags)
        used = 0
        done = False
        while not done:
            try:
                line = next(it)
            except StopIteration:
                if rec.state == "start":
                    if pulled is not None:
                        pulled.append(used)
                    return
                if strict:
                    raise ModelError("unexpected end of data")
                rec.save(trailing=True)
                break
            used += 1
            if not isinstance(line, str):
                raise ModelError("not a string")
            rec.feed(line)
            done = rec.state == "start"
        if pulled is not None:
            pulled.append(used)
        yield rec.fields


class Record:
    def __init__(self, D, Q, E, strict, limit, flags):
        self.D, self.Q, self.E = D, Q, E
        self.strict, self.limit, self.flags = strict, limit, flags
        self.fields, self.buf, self.state = [], [], "start"

    def save(self, trailing=False):
        s = "".join(self.buf)
        was_quoted = False
        if self.Q and len(s) > 1 and s[0] == self.Q and s[-1] == self.Q:
            s = s[1:-1]
            was_quoted = True
        if trailing and self.Q and s[:1] == self.Q:
            s = s[1:]
            was_quoted = True
        self.fields.append((s, was_quoted) if self.flags else s)
        self.buf = []

    def add(self, c):
        if len(self.buf) >= self.limit:
            raise ModelError("field larger than field limit")
        self.buf.append(c)

    def feed(self, line):
        n = len(line)
        for i, c in enumerate(line):
            if c == "\0":
                raise ModelError("NUL")
            self.char(c, line[i + 1] if i + 1 < n else "")
        self.end_of_line()

    def end_of_line(self):
        st = self.state
        if st == "start" or st == "escaped-newline" or st == "quoted":
            return
        if st == "escape":
            self.state = "field"
        elif st == "quoted-escape":
            self.add("\n")
            self.state = "quoted"
        elif st == "newline":
            self.state = "start"
        else:  # field-start, field, quote-in-quoted
            self.save()
            self.state = "start"

    def char(self, c, nxt):
        st = self.state
        D, Q, E = self.D, self.Q, self.E
        nl = c in "\r\n"
        if st == "newline":
            if not nl:
                raise ModelError("newline inside line")
            return
        if st == "start":
            if nl:
                self.state = "newline"
                return
            st = self.state = "field-start"
        if st == "field-start":
            if nl:
                self.save()
                self.state = "newline"
            elif Q and c == Q:
                self.add(c)
                self.state = "quoted"
            elif E and c == E:
                self.state = "escape"
            elif D and c == D:
                self.save()
            else:
                self.add(c)
                self.state = "field"
        elif st == "escape":
            if nl:
                self.add(c)
                self.state = "escaped-newline"
            else:
                if c not in (D, Q, E):
                    self.add(E)
                self.add(c)
                self.state = "field"
        elif st in ("field", "escaped-newline"):
            if nl:
                self.save()
                self.state = "newline"
            elif E and c == E:
                self.state = "escape"
            elif Q and c == Q:
                self.add(c)
                self.state = "quoted"
            elif D and c == D:
                self.save()
                self.state = "field-start"
            else:
                self.add(c)
                # a character after an escaped newline does not leave that
                # state: a line ending there does not end the record
        elif st == "quoted":
            if E and c == E:
                self.state = "quoted-escape"
            elif Q and c == Q:
                if nxt == Q:
                    self.state = "quote-in-quoted"
                elif self.strict:
                    raise ModelError("delimiter expected after quote")
                else:
                    self.add(c)
                    self.state = "field"
            else:
                self.add(c)
        elif st == "quoted-escape":
            if c not in (D, Q, E):
                self.add(E)
            self.add(c)
            self.state = "quoted"
        elif st == "quote-in-quoted":
            # only entered when the next character of the line is the quote
            self.add(c)
            self.state = "quoted"
        else:
            raise AssertionError(st)


def lines_of(text):
    """Lines as a text file opened with newline='' (or StringIO) yields them."""
    out, cur, i, n = [], [], 0, len(text)
    while i < n:
        c = text[i]
        cur.append(c)
        if c == "\r" and i + 1 < n and text[i + 1] == "\n":
            cur.append("\n")
            i += 1
        if c in "\r\n":
            out.append("".join(cur))
            cur = []
        i += 1
    if cur:
        out.append("".join(cur))
    return out


def parse(text, delimiter, quotechar, escapechar, strict=False, limit=128 * 1024,
          quoted_flags=False):
    return list(records(lines_of(text), delimiter, quotechar, escapechar, strict,
                        limit, quoted_flags))


def dicts(rows, fieldnames=None, restkey=None, restval=None):
    """Dictionary view of records: blank records are skipped, first one is the header."""
    it = iter(rows)
    if fieldnames is None:
        fieldnames = next(it, None)
        if fieldnames is None:
            return
    for row in it:
        if row == []:
            continue
        d = dict(zip(fieldnames, row))
        if len(fieldnames) < len(row):
            d[restkey] = row[len(fieldnames):]
        elif len(fieldnames) > len(row):
            for k in fieldnames[len(row):]:
                d[k] = restval
        yield d


# ------------------------------------------------------- RFC 4180 serializer

def rfc4180(rows):
    """Bytes-exact excel-dialect text for rows of strings, written independently."""
    out = []
    for row in rows:
        if len(row) == 1 and row[0] == "":
            out.append('""')
        else:
            out.append(",".join(_cell(c) for c in row))
        out.append("\r\n")
    return "".join(out)


def _cell(c):
    if any(x in c for x in ',"\r\n'):
        return '"' + c.replace('"', '""') + '"'
    return c


def parse_rfc4180(text):
    """Strict RFC 4180 reader (rows of strings); raises ValueError when malformed.

    Blank lines are empty rows."""
    rows, i, n = [], 0, len(text)
    while i < n:
        row = []
        if text.startswith("\r\n", i):
            rows.append([])
            i += 2
            continue
        while True:
            if i < n and text[i] == '"':
                i += 1
                buf = []
                while True:
                    if i >= n:
                        raise ValueError("unterminated quote")
                    if text[i] == '"':
                        if i + 1 < n and text[i + 1] == '"':
                            buf.append('"')
                            i += 2
                            continue
                        i += 1
                        break
                    buf.append(text[i])
                    i += 1
                row.append("".join(buf))
            else:
                j = i
                while j < n and text[j] not in ',\r\n"':
                    j += 1
                if j < n and text[j] == '"':
                    raise ValueError("bare quote")
                row.append(text[i:j])
                i = j
            if i >= n:
                raise ValueError("missing line end")
            if text[i] == ",":
                i += 1
                continue
            if text.startswith("\r\n", i):
                i += 2
                break
            raise ValueError("bad character after field at %d" % i)
        rows.append(row)
    return rows
