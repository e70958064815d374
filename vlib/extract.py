"""Mechanical extraction of functions from the Rust sources of the mirror.

The text of a function is the one in /repo. What is changed on the way to the verifier is limited to the
operations below, each of them recorded (Unit.notes) and reported in the evidence."""
import os
import re


class Lost(Exception):
    """An anchor is not there (any more): the obligations are undecided, nothing is alleged."""


def skip_literal(s, i):
    """If a string, char literal or comment starts at i, the index after it, else None"""
    c = s[i]
    if s.startswith("//", i):
        j = s.find("\n", i)
        return len(s) if j < 0 else j
    if s.startswith("/*", i):
        depth, j = 1, i + 2
        while j < len(s) and depth:
            if s.startswith("/*", j):
                depth += 1
                j += 2
            elif s.startswith("*/", j):
                depth -= 1
                j += 2
            else:
                j += 1
        return j
    m = re.compile(r'(?:b|c)?r(#*)"').match(s, i)
    if m and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
        j = s.find('"' + m.group(1), m.end())
        return j + 1 + len(m.group(1))
    if c == '"':
        j = i + 1
        while s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        return j + 1
    if c == "'":
        m = re.compile(r"'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)|[^\\'])'", re.S).match(s, i)
        if m:
            return m.end()
    return None


def match_close(s, i):
    """s[i] is an opening bracket: the index of the closing one"""
    pairs = {"(": ")", "[": "]", "{": "}"}
    stack = []
    while i < len(s):
        j = skip_literal(s, i)
        if j is not None:
            i = j
            continue
        c = s[i]
        if c in pairs:
            stack.append(pairs[c])
        elif c in ")]}":
            if not stack or stack.pop() != c:
                raise Lost("unbalanced brackets")
            if not stack:
                return i
        i += 1
    raise Lost("unbalanced brackets")


def strip_comments(s):
    out, i = [], 0
    while i < len(s):
        j = skip_literal(s, i)
        if j is None:
            out.append(s[i])
            i += 1
        elif s.startswith("//", i) or s.startswith("/*", i):
            i = j
        else:
            out.append(s[i:j])
            i = j
    return "".join(out)


def strip_attributes(s):
    out, i = [], 0
    while i < len(s):
        j = skip_literal(s, i)
        if j is not None:
            out.append(s[i:j])
            i = j
            continue
        m = re.compile(r"#!?\[").match(s, i)
        if m:
            i = match_close(s, m.end() - 1) + 1
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


def find_code(s, regex, start=0, end=None):
    """Matches of regex that do not start in a literal or comment"""
    end = len(s) if end is None else end
    r = re.compile(regex, re.S)
    i = start
    while i < end:
        j = skip_literal(s, i)
        if j is not None:
            i = j
            continue
        m = r.match(s, i)
        if m and m.end() > m.start():
            # not in the middle of a word
            if not (i > 0 and (s[i - 1].isalnum() or s[i - 1] == "_") and (s[i].isalnum() or s[i] == "_")):
                yield m
                i = m.end()
                continue
        i += 1


def one(s, regex, what):
    ms = list(find_code(s, regex))
    if len(ms) != 1:
        raise Lost("%s: found %d times" % (what, len(ms)))
    return ms[0]


class Source:
    def __init__(self, mdir, rel):
        self.rel = rel
        try:
            with open(os.path.join(mdir, rel)) as f:
                self.raw = f.read()
        except OSError:
            raise Lost("no file " + rel)
        s = strip_attributes_keep_test(strip_comments(self.raw))
        self.text = s

    def item(self, regex, what):
        """The text of a struct, enum or trait whose head matches"""
        m = one(self.text, regex, "%s: %s" % (self.rel, what))
        i = self.text.index("{", m.start())
        return self.text[m.start():match_close(self.text, i) + 1]

    def impls(self, regex):
        """The bodies of the impl and trait blocks whose head (white space normalized) matches"""
        out = []
        for m in find_code(self.text, r"(?:impl|trait)\b"):
            i = brace_after(self.text, m.end())
            head = norm(self.text[m.start():i])
            if re.search(regex, head):
                out.append((head, self.text[i:match_close(self.text, i) + 1]))
        if not out:
            raise Lost("%s: no impl %s" % (self.rel, regex))
        return out

    def outside(self):
        """The text without the impl and trait blocks"""
        out, last = [], 0
        for m in find_code(self.text, r"(?:impl|trait)\b"):
            if m.start() < last:
                continue
            # not `-> impl Trait` or `arg: impl Trait`
            before = self.text[:m.start()].rstrip()
            if before and before[-1] not in "};" and not before.endswith("pub") and not before.endswith("unsafe"):
                continue
            i = brace_after(self.text, m.end())
            if self.text[i] != "{":
                continue
            out.append(self.text[last:m.start()])
            last = match_close(self.text, i) + 1
        out.append(self.text[last:])
        return "".join(out)

    def fn(self, name, impl=None):
        """(head, body) of a function: in the impl blocks matching, or a free one"""
        bodies = [b for _, b in self.impls(impl)] if impl else [self.outside()]
        found = []
        for b in bodies:
            for m in find_code(b, r"(?:pub(?:\s*\([a-z]+\))?\s+)?(?:const\s+)?(?:async\s+)?fn\s+%s\b" % re.escape(name)):
                i = brace_after(b, m.end())
                if b[i] == ";":
                    continue
                found.append((norm(b[m.start():i]), b[i:match_close(b, i) + 1]))
        if len(found) != 1:
            raise Lost("%s: function %s found %d times" % (self.rel, name, len(found)))
        return found[0]


def strip_attributes_keep_test(s):
    # the test modules are cut off, the attributes dropped
    out, i = [], 0
    while i < len(s):
        j = skip_literal(s, i)
        if j is not None:
            out.append(s[i:j])
            i = j
            continue
        m = re.compile(r"#\[cfg\(test\)\]\s*(?:pub\s+)?mod\s+\w+\s*\{").match(s, i)
        if m:
            i = match_close(s, m.end() - 1) + 1
            continue
        m = re.compile(r"#!?\[").match(s, i)
        if m:
            i = match_close(s, m.end() - 1) + 1
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


def brace_after(s, i):
    """The index of the { (or ;) that ends an item head starting before i"""
    depth = 0
    while i < len(s):
        j = skip_literal(s, i)
        if j is not None:
            i = j
            continue
        c = s[i]
        if c in "([":
            i = match_close(s, i) + 1
            continue
        if c in "{;" and depth == 0:
            return i
        i += 1
    raise Lost("item without body")


def norm(s):
    return re.sub(r"\s+", " ", s).strip()


def squash(s):
    return re.sub(r"\s+", "", s)


def drop_macro(s, name):
    """Removes the statements or expressions name!(...)"""
    while True:
        m = next(find_code(s, r"%s!\s*[\(\[\{]" % name), None)
        if not m:
            return s
        j = match_close(s, m.end() - 1) + 1
        k = re.compile(r"\s*;").match(s, j)
        s = s[:m.start()] + s[(k.end() if k else j):]


def loops(body):
    """(start, index of the opening brace, index of the closing brace) of the loops, in order"""
    out = []
    for m in find_code(body, r"(?:while|for|loop)\b"):
        i = m.end()
        while True:
            j = skip_literal(body, i)
            if j is not None:
                i = j
                continue
            if body[i] in "([":
                i = match_close(body, i) + 1
                continue
            if body[i] == "{":
                break
            i += 1
        out.append((m.start(), i, match_close(body, i)))
    return out


def add_invariants(body, invs):
    """Puts the k-th text of invs in front of the body of the k-th loop"""
    ls = loops(body)
    if len(ls) != len(invs):
        raise Lost("%d loops expected, found %d" % (len(invs), len(ls)))
    for k in reversed(range(len(invs))):
        inv = invs[k]
        if not inv:
            continue
        # (invariants, text at the start of the body, at its end, after the loop)
        inv, start, end, after = inv if isinstance(inv, tuple) else (inv, "", "", "")
        _, o, c = loops(body)[k]
        body = body[:o] + "\n" + inv + "\n{" + start + body[o + 1:c] + end + "}" + after + body[c + 1:]
    return body


def sub_code(s, regex, repl, count=None, what=None):
    """Replaces matches outside of literals; count: how many are required"""
    ms = list(find_code(s, regex))
    if count is not None and len(ms) != count:
        raise Lost("%s: found %d times instead of %d" % (what or regex, len(ms), count))
    for m in reversed(ms):
        s = s[:m.start()] + (m.expand(repl) if isinstance(repl, str) else repl(m)) + s[m.end():]
    return s


def insert_before(s, regex, text, what, nth=0):
    ms = list(find_code(s, regex))
    if len(ms) <= nth:
        raise Lost(what)
    i = ms[nth].start()
    return s[:i] + text + s[i:]


def insert_after(s, regex, text, what, nth=0):
    ms = list(find_code(s, regex))
    if len(ms) <= nth:
        raise Lost(what)
    i = ms[nth].end()
    return s[:i] + text + s[i:]
