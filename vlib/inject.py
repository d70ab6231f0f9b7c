"""Insertion-only annotation of a copy of /repo/src.

Contracts are attached to the functions of the current source by name: nothing is rewritten or
removed, text is only inserted (attributes, ghost code, types and braces of closures, visibility).
Every insertion is bracketed by markers and `erase` checks that taking the insertions out again gives
the original file byte for byte, so the verified text is the code that runs.
"""
import re

B, E = "/*@<*/", "/*@>*/"


class Lost(Exception):
    """An item or text a contract is attached to is not in the source any more."""


def mask(s):
    """Blank out comments, strings and character literals, keeping positions."""
    out = list(s)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "

    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == '"' or (c in "rb" and not (i and (s[i - 1].isalnum() or s[i - 1] == "_"))
                          and re.match(r'(?:br|rb|r|b)(#*)"', s[i:i + 12])):
            m = re.match(r'(br|rb|r|b)?(#*)"', s[i:i + 12])
            j = i + m.end()
            if m.group(1) and "r" in m.group(1):
                k = s.find('"' + m.group(2), j)
                j = n if k < 0 else k + 1 + len(m.group(2))
            else:
                while j < n and s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
                j += 1
            blank(i, min(j, n))
            i = j
        elif c == "'":
            m = re.match(r"'(?:\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)|[^\\'])'", s[i:i + 14], re.S)
            if m:
                blank(i, i + m.end())
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def close(m, i):
    """Position just after the bracket matching the one at i in masked text."""
    o = m[i]
    c = {"{": "}", "(": ")", "[": "]"}[o]
    d = 0
    for k in range(i, len(m)):
        if m[k] == o:
            d += 1
        elif m[k] == c:
            d -= 1
            if d == 0:
                return k + 1
    raise Lost("unbalanced bracket")


def body_of(m, i):
    """Position of the opening brace of the item whose header starts at i (or None at ';')."""
    d = 0
    for k in range(i, len(m)):
        if m[k] in "([":
            d += 1
        elif m[k] in ")]":
            d -= 1
        elif d == 0 and m[k] == "{":
            return k
        elif d == 0 and m[k] == ";":
            return None
    return None


class Source:
    def __init__(self, path, text):
        self.path, self.text, self.ins, self._top = path, text, [], None
        self.m = mask(text)
        # leave test modules alone
        t = re.search(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", self.m)
        self.end = t.start() if t else len(text)

    def insert(self, pos, s):
        self.ins.append((pos, len(self.ins), s))

    def item(self, pattern, a=0, b=None):
        """-> (start, header start, body start|None, end) of the item whose header matches; start takes in
        the attributes and doc comments before it"""
        b = self.end if b is None else b
        ms = [x for x in re.finditer(pattern, self.m[:b]) if x.start() >= a]
        if len(ms) != 1:
            raise Lost("%s: %d items match /%s/" % (self.path, len(ms), pattern))
        h = ms[0].start()
        body = body_of(self.m, h)
        end = close(self.m, body) if body is not None else self.m.index(";", h) + 1
        return self.lead(h), h, body, end

    def lead(self, h):
        """Start of the attributes and doc comments in front of position h."""
        s = self.text.rfind("\n", 0, h) + 1
        while s > 0:
            p = self.text.rfind("\n", 0, s - 1) + 1
            l = self.text[p:s].strip()
            if l.startswith("///") or l.startswith("#[") or (l.startswith("//") and not l.startswith("//!")):
                s = p
            else:
                break
        return s

    def fn(self, name, a=0, b=None):
        return self.item(r"(?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?\bfn\s+%s\b" % re.escape(name), a, b)

    def fns(self, a, b):
        """Names of the functions directly inside the block (a, b)."""
        out, k = [], a
        rx = re.compile(r"\bfn\s+(\w+)")
        while True:
            x = rx.search(self.m, k, b)
            if not x:
                return out
            body = body_of(self.m, x.start())
            out.append((x.group(1), x.start()))
            k = close(self.m, body) if body is not None else x.end()

    def fns_top(self):
        """Functions of the file that are in no impl, trait, macro or function: (name, position of `fn`)"""
        if self._top is None:
            self._top = []
            rx = re.compile(r"\b(impl|trait|macro_rules|mod|fn|struct|enum|const|static)\b")
            k = 0
            while True:
                x = rx.search(self.m, k, self.end)
                if not x:
                    break
                w = x.group(1)
                b = body_of(self.m, x.start())
                if w == "fn":
                    self._top.append((re.match(r"fn\s+(\w+)", self.m[x.start():]).group(1), x.start()))
                k = close(self.m, b) if b is not None and w != "const" and w != "static" else x.end()
                if w == "const" and re.match(r"const\s+fn\b", self.m[x.start():]):
                    k = x.end()
        return self._top

    def line(self, pos):
        """Line, in the annotated text, of a position of the original text."""
        n = self.text.count("\n", 0, pos) + 1
        for p, _, x in self.ins:
            if p < pos:
                n += x.count("\n")
        return n

    def annotated(self):
        out, last = [], 0
        for pos, _, s in sorted(self.ins):
            out.append(self.text[last:pos])
            out.append(B + s + E)
            last = pos
        out.append(self.text[last:])
        return "".join(out)


def erase(annotated):
    return re.sub(re.escape(B) + r".*?" + re.escape(E), "", annotated, flags=re.S)


def norm(s):
    return re.sub(r"\s+", " ", s).strip()
