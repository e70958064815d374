"""A Verus unit: contracts on functions extracted from the mirror, checked by one run of the verifier."""
import re

from extract import Lost, Source, find_code, match_close, norm, skip_literal, drop_macro

CLASH = r"\b(real|int|nat|choose|forall|exists|proof|spec|exec|ghost|tracked)\b"


def rename_clashes(s):
    """Identifiers that are words of Verus get an underscore (in code, not in literals)"""
    out, i = [], 0
    r = re.compile(CLASH)
    while i < len(s):
        j = skip_literal(s, i)
        if j is not None:
            out.append(s[i:j])
            i = j
            continue
        m = r.match(s, i)
        if m and not (i and (s[i - 1].isalnum() or s[i - 1] == "_")):
            out.append(m.group(0) + "_")
            i = m.end()
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


def receiver_start(s, i):
    """s[i] is the '.' of a method call: where the receiver (a postfix chain) starts"""
    j = i
    while True:
        k = j - 1
        while k >= 0 and s[k].isspace():
            k -= 1
        if k < 0:
            raise Lost("receiver")
        if s[k] in ")]":
            # back to the matching bracket
            depth = 0
            while k >= 0:
                if s[k] in ")]}":
                    depth += 1
                elif s[k] in "([{":
                    depth -= 1
                    if depth == 0:
                        break
                k -= 1
            j = k
            # a call or an index continues to the left, a parenthesis does not
            p = j - 1
            if p >= 0 and (s[p].isalnum() or s[p] in "_>])?"):
                if s[p] == ">":
                    # turbofish
                    d = 0
                    while p >= 0:
                        if s[p] == ">":
                            d += 1
                        elif s[p] == "<":
                            d -= 1
                            if d == 0:
                                break
                        p -= 1
                    j = p
                    if s[:j].endswith("::"):
                        j -= 2
                continue
            if s[p] == "!":
                raise Lost("receiver is a macro")
        elif s[k] == "?":
            j = k
            continue
        elif s[k].isalnum() or s[k] == "_":
            while k >= 0 and (s[k].isalnum() or s[k] == "_"):
                k -= 1
            j = k + 1
        elif s[k] == '"':
            raise Lost("receiver is a literal")
        else:
            raise Lost("receiver")
        # what is before?
        p = j - 1
        while p >= 0 and s[p].isspace():
            p -= 1
        if p >= 0 and s[p] == "." and not s[p - 1:p + 1] == "..":
            j = p
            continue
        if p >= 1 and s[p - 1:p + 1] == "::":
            j = p - 1
            continue
        return j


def method_calls(s, name):
    """(dot, open parenthesis, close parenthesis) of the calls .name( ... )"""
    for m in find_code(s, r"\.\s*%s\s*\(" % name):
        o = m.end() - 1
        yield m.start(), o, match_close(s, o)


def closure(arg):
    """(pattern, body) if the text is a closure of one argument"""
    m = re.match(r"\s*(?:move\s*)?\|([^|]*)\|\s*(.*)$", arg, re.S)
    return (m.group(1).strip(), m.group(2).strip().rstrip(",").strip()) if m else None


def split_args(s):
    out, depth, i, last = [], 0, 0, 0
    while i < len(s):
        j = skip_literal(s, i)
        if j is not None:
            i = j
            continue
        if s[i] in "([{":
            i = match_close(s, i) + 1
            continue
        if s[i] == "|":
            # the parameters of a closure
            k = s.index("|", i + 1)
            i = k + 1
            continue
        if s[i] == ",":
            out.append(s[last:i])
            last = i + 1
        i += 1
    if s[last:].strip():
        out.append(s[last:])
    return out


def desugar_options(s, notes, methods=("filter", "map_or", "map_or_else", "and_then", "map", "or_else", "unwrap_or_else", "ok_or_else", "is_some_and", "is_none_or", "map_err")):
    """Calls of Option combinators with a closure become the `match` that defines them"""
    progress = True
    while progress:
        progress = False
        for name in methods:
            for dot, o, c in method_calls(s, name):
                try:
                    args = split_args(s[o + 1:c])
                    r = receiver_start(s, dot)
                except (Lost, ValueError):
                    continue
                recv = s[r:dot].strip()
                new = expand(name, recv, args)
                if new is None:
                    continue
                notes.add("`.%s(closure)` on an Option or Result expanded into the match that defines it" % name)
                s = s[:r] + new + s[c + 1:]
                progress = True
                break
            if progress:
                break
    return s


def bind(pat, by_ref):
    """The pattern for the content, given the closure's pattern"""
    if by_ref:
        # the closure gets a reference to the content
        return pat[1:].strip() if pat.startswith("&") else None
    return pat


def expand(name, recv, args):
    if ".iter()" in recv or ".split(" in recv or ".into_iter()" in recv or ".chars()" in recv or re.match(r"\(\s*[\w.]+\s*\.\.", recv):
        return None
    cl = closure(args[-1]) if args else None
    if name == "map" and len(args) == 1 and args[0].strip() == "Some":
        return "(match %s { Some(v_) => Some(Some(v_)), None => None })" % recv
    if cl is None:
        return None
    pat, body = cl
    pat = re.sub(r":.*$", "", pat).strip()
    if name == "filter":
        p = bind(pat, True)
        if p:
            return "(match %s { Some(%s) => if %s { Some(%s) } else { None }, None => None })" % (recv, p, body, p)
        # the closure takes the reference itself
        return "(match %s { Some(v_) => { let %s = &v_; if %s { Some(v_) } else { None } }, None => None })" % (recv, pat, body)
    if pat.startswith("&"):
        body = "{ let %s = *ref_; %s }" % (pat[1:].strip(), body)
        pat = "ref_"
    if name == "map_or":
        return "(match %s { Some(%s) => %s, None => %s })" % (recv, pat, body, args[0].strip())
    if name == "or_else":
        return "(match %s { Some(v_) => Some(v_), None => %s })" % (recv, body) if pat == "" else None
    if name == "and_then":
        return "(match %s { Some(%s) => %s, None => None })" % (recv, pat, body)
    if name == "map":
        return "(match %s { Some(%s) => Some(%s), None => None })" % (recv, pat, body)
    if name == "map_err":
        return "(match %s { Ok(v_) => Ok(v_), Err(%s) => Err(%s) })" % (recv, pat, body)
    if name == "is_none_or":
        return "(match %s { Some(%s) => %s, None => true })" % (recv, pat, body)
    if name == "is_some_and":
        return "(match %s { Some(%s) => %s, None => false })" % (recv, pat, body)
    return None


def desugar_for(s, notes):
    """`for x in a..=b { .. }` becomes the `while` loop it stands for (b is evaluated again, it must be a name or a number)"""
    while True:
        for m in find_code(s, r"for\s+(\w+)\s+in\s+(\w+)\s*\.\.=\s*(\w+)\s*\{"):
            c = match_close(s, m.end() - 1)
            x, a, b = m.groups()
            notes.add("`for x in a..=b` written as the while loop it stands for")
            s = s[:m.start()] + "{ let mut k_: usize = %s; while k_ <= %s { let %s = k_; k_ += 1; %s } }" % (a, b, x, s[m.end():c]) + s[c + 1:]
            break
        else:
            return s


def statements(body):
    """The statements of a block (its braces included in the text), in order"""
    s = body.strip()
    assert s[0] == "{"
    out, i, last = [], 1, 1
    while i < len(s) - 1:
        j = skip_literal(s, i)
        if j is not None:
            i = j
            continue
        if s[i] in "([{":
            k = match_close(s, i)
            brace = s[i] == "{"
            i = k + 1
            if brace:
                first = s[last:k].lstrip()
                if re.match(r"(if|for|while|loop|match)\b", first) and not re.match(r"\s*(else\b|[.?;])", s[i:]):
                    out.append(s[last:i])
                    last = i
            continue
        if s[i] == ";":
            out.append(s[last:i + 1])
            last = i + 1
        i += 1
    if s[last:-1].strip():
        out.append(s[last:-1])
    return out


def pure(body):
    """A closure body that can be put in a loop: no way out of it"""
    if next(find_code(body, r"return\b"), None) or next(find_code(body, r"\?(?!\w)"), None):
        raise Lost("a closure with an early exit")
    return body


def desugar_chain(s, notes, nth=0):
    """An iterator chain (slice.iter() or a range, adapters with closures, a terminal call) becomes the loop it stands for.
    The loop counts with k_ over src_ and collects in out_."""
    starts = []
    for m in find_code(s, r"\.\s*iter\s*\(\s*\)"):
        try:
            r = receiver_start(s, m.start())
        except Lost:
            continue
        starts.append((r, m.end(), s[r:m.start()].strip(), None))
    for m in find_code(s, r"\(\s*(\w+)\s*\.\.(=?)"):
        c = match_close(s, m.start())
        if re.compile(r"\s*\.\s*(?:filter|map|filter_map)\s*\(").match(s, c + 1):
            starts.append((m.start(), c + 1, None, (m.group(1), m.group(2), s[m.end():c].strip())))
    starts.sort()
    if len(starts) <= nth:
        raise Lost("iterator chain")
    a, e, recv, rng = starts[nth]
    if recv is not None and re.match(r"[\w.\s]+$", recv):
        recv = re.sub(r"\s+", "", recv)
    if recv is not None:
        pre = "let mut k_: usize = 0;"
        cond = "k_ < %s.len()" % recv
        item = "&%s[k_]" % recv
    else:
        lo, incl, hi = rng
        pre = "let mut k_: usize = %s;" % lo
        cond = "k_ %s %s" % ("<=" if incl else "<", hi)
        item = "k_"
    steps, cur, n, tail = [], item, 0, None
    by_ref = recv is not None
    while True:
        m = re.compile(r"\s*\.\s*(\w+)\s*(?:::\s*<[^()]*>\s*)?\(").match(s, e)
        if not m:
            raise Lost("iterator chain without end")
        c = match_close(s, m.end() - 1)
        name, arg = m.group(1), s[m.end():c]
        e = c + 1
        if name == "collect" and re.search(r"<\s*(?:\w+\s*::\s*)*Result\b", s[m.start():m.end()]):
            # the first error ends the collection
            tail = ("let mut out_ = Vec::new(); let mut err_ = None;", "match %s { Ok(x_) => { out_.push(x_); }, Err(e_) => { err_ = Some(e_); break; } }" % cur,
                    "match err_ { Some(e_) => Err(e_), None => Ok(out_) }")
            break
        if name == "collect":
            tail = ("let mut out_ = Vec::new();", "out_.push(%s);" % cur, "out_")
            break
        if name == "sum":
            tail = ("let mut out_ = 0;", "out_ += %s;" % cur, "out_")
            break
        if name == "product":
            tail = ("let mut out_ = 1;", "out_ = out_ * %s;" % ("*(%s)" % cur if by_ref and cur == item else cur), "out_")
            break
        if name == "unzip":
            tail = ("let mut out_ = Vec::new(); let mut out2_ = Vec::new();", "let (x_, y_) = %s; out_.push(x_); out2_.push(y_);" % cur, "(out_, out2_)")
            break
        if name in ("fold", "try_fold"):
            args = split_args(arg)
            cl = closure(args[-1])
            if len(args) != 2 or cl is None:
                raise Lost("iterator fold")
            acc, x = [t.strip() for t in cl[0].split(",")]
            x, val = (x[1:].strip(), "*(%s)" % cur) if x.startswith("&") else (x, cur)
            body = pure(cl[1])
            if name == "fold":
                tail = ("let mut out_ = %s;" % args[0].strip(), "let %s = out_; let %s = %s; out_ = %s;" % (acc, x, val, body), "out_")
            else:
                tail = ("let mut out_ = Some(%s);" % args[0].strip(), "let %s = match out_ { Some(a_) => a_, None => { break; } }; let %s = %s; out_ = %s;" % (acc, x, val, body), "out_")
            break
        if name == "take":
            cond = "%s && k_ < %s" % (cond, arg.strip())
            continue
        if name == "zip":
            z = re.match(r"\s*(.*?)\s*\.\s*iter\s*\(\s*\)\s*$", arg, re.S)
            if not z or recv is None or steps or cur != item:
                raise Lost("iterator zip")
            other = re.sub(r"\s+", "", z.group(1))
            cond = "%s && k_ < %s.len()" % (cond, other)
            item = cur = "(&%s[k_], &%s[k_])" % (recv, other)
            continue
        if name == "copied" or name == "cloned":
            cur = "*(%s)" % cur
            continue
        cl = closure(arg)
        if cl is None:
            raise Lost("iterator adapter %s without closure" % name)
        pat, body = cl[0], pure(cl[1])
        v = "v%d_" % n
        n += 1
        both = re.match(r"\(\s*&\s*(\w+)\s*,\s*&\s*(\w+)\s*\)$", pat)
        if both:
            # a pair of references
            pat, cur = "(%s, %s)" % both.groups(), "{ let p_ = %s; (*p_.0, *p_.1) }" % cur
        if name == "map":
            steps.append("let %s = { let %s = %s; %s };" % (v, pat, cur, body) if not pat.startswith("&") else
                         "let %s = { let %s = *(%s); %s };" % (v, pat[1:].strip(), cur, body))
            cur = v
        elif name == "filter":
            steps.append("let %s = %s;" % (v, cur))
            p = "let %s = %s;" % (pat[1:].strip(), v) if pat.startswith("&") else "let %s = &%s;" % (pat, v)
            steps.append("if !({ %s %s }) { continue; }" % (p, body))
            cur = v
        elif name == "filter_map":
            p = "let %s = %s;" % (pat, cur) if not pat.startswith("&") else "let %s = *(%s);" % (pat[1:].strip(), cur)
            steps.append("let %s = match ({ %s %s }) { Some(some_) => some_, None => { continue; } };" % (v, p, body))
            cur = v
        elif name == "position":
            tail = ("let mut out_: Option<usize> = None;", "if { let %s = %s; %s } { out_ = Some(k_ - 1); break; }" % (pat, cur, body), "out_")
            break
        elif name == "for_each":
            tail = ("", "{ let %s = %s; %s; }" % (pat, cur, body), "")
            break
        elif name in ("all", "any"):
            p = "let %s = %s;" % (pat, cur) if not pat.startswith("&") else "let %s = *(%s);" % (pat[1:].strip(), cur)
            neg = "!" if name == "all" else ""
            tail = ("let mut out_ = %s;" % ("true" if name == "all" else "false"),
                    "if %s({ %s %s }) { out_ = %s; break; }" % (neg, p, body, "false" if name == "all" else "true"), "out_")
            break
        else:
            raise Lost("iterator adapter %s" % name)
    init, act, result = tail
    # the item is taken before the counter moves
    first = "let item_ = %s; k_ += 1;" % item
    steps = [x.replace(item, "item_", 1) if i == 0 else x for i, x in enumerate(steps)]
    if not steps:
        act = act.replace(item, "item_", 1)
    notes.add("iterator chains with closures (`%s`) written as the loop they stand for" % re.sub(r"\s+", "", s[a:e])[:60])
    return s[:a] + "({ %s %s while %s { %s %s %s } %s })" % (pre, init, cond, first, " ".join(steps), act, result) + s[e:]


class Unit:
    def __init__(self, name, mdir):
        self.name = name
        self.mdir = mdir
        self.sources = {}
        self.notes = set()
        self.parts = []
        self.prepared = {}
        self.functions = []      # (verus name, origin)
        self.trusted = []
        self.probe = False

    def src(self, rel):
        if rel not in self.sources:
            self.sources[rel] = Source(self.mdir, rel)
        return self.sources[rel]

    def add(self, text):
        self.parts.append(text)

    def item(self, rel, regex, what=None, derive=None, edit=None):
        """A type, as it is in the source"""
        t = self.src(rel).item(regex, what or regex)
        t = re.sub(r"\bpub\s*\([a-z]+\)\s*", "pub ", t)
        # private fields and types become public: the contracts speak about them
        t = rename_clashes(t)
        if not t.startswith("pub"):
            t = "pub " + t
        if edit:
            t = edit(t)
        self.add(("#[derive(%s)]\n" % derive if derive else "") + t)
        return t

    def head(self, head):
        head = re.sub(r"\bpub\s*\([a-z]+\)\s*", "pub ", head)
        head = rename_clashes(head)
        return head

    def fn(self, rel, name, contract, impl=None, invs=None, entry="", edit=None, head=None, ret="r", attrs="", rename=None, pub=True, desugar=True, free=False, probe=True):
        """A function of the source, its contract added"""
        key = (rel, name, impl, edit, desugar)
        if key not in self.prepared:
            self.prepared[key] = self.prepare(rel, name, impl, edit, desugar)
        h, b = self.prepared[key]
        if head:
            h = head(h) if callable(head) else head
        h = re.sub(r"\s*where\b.*$", "", h)
        if rename:
            h = re.sub(r"\bfn\s+%s\b" % name, "fn " + rename, h)
        m = re.match(r"(.*)->\s*(.*)$", h, re.S)
        if m and ret:
            h = "%s-> (%s: %s)" % (m.group(1), ret, m.group(2).strip())
        if invs is not None:
            from extract import add_invariants
            b = add_invariants(b, invs)
        e = entry
        if self.probe and probe:
            e += "\nproof { assert(false); }"
        b = "{\n" + (e + "\n" if e else "") + b.strip()[1:]
        self.add("%s%s\n%s\n%s" % (attrs + "\n" if attrs else "", h, contract, b))
        self.functions.append(((rename or name), "%s: %s%s" % (rel, (impl + " :: ") if impl else "", name)))

    def text_fn(self, name, head, body, contract, origin, invs=None, entry="", attrs="", probe=True):
        """A function whose text was taken from the source by the unit itself"""
        if invs is not None:
            from extract import add_invariants
            body = add_invariants(body, invs)
        e = entry
        if self.probe and probe:
            e += "\nproof { assert(false); }"
        body = "{\n" + (e + "\n" if e else "") + body.strip()[1:]
        self.add("%s%s\n%s\n%s" % (attrs + "\n" if attrs else "", head, contract, body))
        self.functions.append((name, origin))

    def chains(self, count):
        """An edit that turns the iterator chains of a function into loops"""
        def edit(h, b):
            for _ in range(count):
                b = desugar_chain(b, self.notes)
            return h, b
        return edit

    def prepare(self, rel, name, impl, edit, desugar):
        h, b = self.src(rel).fn(name, impl)
        h = self.head(h)
        b = rename_clashes(b)
        for macro in ("warn", "debug", "info", "error", "trace", "debug_assert", "debug_assert_eq"):
            b2 = drop_macro(b, macro)
            if b2 != b:
                self.notes.add("logging and debug assertions (`%s!`) dropped" % macro)
                b = b2
        if desugar:
            b = desugar_options(b, self.notes)
        if edit:
            h, b = edit(h, b)
        return h, b

    def trust(self, what):
        self.trusted.append(what)

    # a vector has no more elements than a usize counts: proved, and there wherever a length is spoken of
    LENGTHS = """mod lengths {
    use vstd::prelude::*;
    pub broadcast proof fn lemma_vec_len<T>(v: Vec<T>)
        ensures #[trigger] v@.len() <= usize::MAX,
    { assert(v@.len() == v.len()); }
}
broadcast use lengths::lemma_vec_len;
"""

    def text(self):
        body = "\n".join(self.parts)
        # (a module has one `broadcast use` only)
        lengths = self.LENGTHS if "lengths::lemma_vec_len}" not in body else self.LENGTHS[:self.LENGTHS.rindex("broadcast use")]
        return "#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n%s\n} // verus!\nfn main() {}\n" % (lengths + body)
