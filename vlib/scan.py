"""Reference scanner for command lines, written from the lexical rules:

* blanks (space, tab) separate tokens;
* a word is a maximal run of characters other than blank, newline, quote and backslash;
* a quoted string runs from a quote to the next unescaped quote; inside it a
  backslash must introduce one of \\0 \\n \\r \\t \\b \\v \\a \\" \\\\, and newline,
  carriage return, tab and NUL do not occur;
* a quote that no such string can be completed from is an unterminated string:
  it extends as far as those rules allow, plus one dangling backslash;
* anything else is an illegal character and the line is rejected.
"""

ESCAPES = {"0": "\0", "n": "\n", "r": "\r", "t": "\t", "b": "\b", "v": "\v", "a": "\a", '"': '"', "\\": "\\"}
REV = {v: k for k, v in ESCAPES.items()}


class Rejected(Exception):
    pass


def scan(line):
    """[(text, start, quoted, incomplete)] or raise Rejected."""
    out = []
    i, n = 0, len(line)
    while i < n:
        c = line[i]
        if c in " \t":
            i += 1
            continue
        if c not in '"\n\\':
            j = i
            while j < n and line[j] not in ' \t\n"\\':
                j += 1
            out.append((line[i:j], i, False, False))
            i = j
            continue
        if c != '"':
            raise Rejected(line[i])
        j = i + 1
        closed = None
        while j < n:
            d = line[j]
            if d == '"':
                closed = j + 1
                break
            if d == "\\":
                if j + 1 < n and line[j + 1] in ESCAPES:
                    j += 2
                    continue
                break
            if d in "\n\r\t\0":
                break
            j += 1
        if closed is not None:
            out.append((line[i:closed], i, True, False))
            i = closed
        else:
            if j < n and line[j] == "\\":
                j += 1
            out.append((line[i:j], i, True, True))
            i = j
    return out


def quote(s):
    """The canonical quoted form of a string."""
    return '"' + "".join("\\" + REV[c] if c in REV else c for c in s) + '"'


def unescape(body):
    """The string a quoted body stands for (left to right)."""
    out, i = [], 0
    while i < len(body):
        if body[i] == "\\" and i + 1 < len(body) and body[i + 1] in ESCAPES:
            out.append(ESCAPES[body[i + 1]])
            i += 2
        else:
            out.append(body[i])
            i += 1
    return "".join(out)
