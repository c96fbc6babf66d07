"""Lexer for Rust source: turns text into token trees.

Token kinds: 'id' identifier, 'life' lifetime, 'str'/'char'/'int'/'float'/'bstr' literals,
'p' punctuation, 'g' group (delimited token list), 'hole' an interpolated engine value
(only produced by the quote! model, never by lexing), 'seq' an interpolated repetition.
"""


class LexError(Exception):
    pass


class Tok:
    __slots__ = ("k", "v", "d", "line", "sp", "suffix")

    def __init__(self, k, v, d=None, line=0, sp=False, suffix=None):
        self.k = k          # kind
        self.v = v          # text / list of tokens for groups / value for holes
        self.d = d          # delimiter for groups
        self.line = line
        self.sp = sp        # preceded by white space
        self.suffix = suffix

    def __repr__(self):
        if self.k == "g":
            return self.d + " ".join(map(repr, self.v)) + {"(": ")", "[": "]", "{": "}", "": ""}[self.d]
        if self.k == "str":
            return repr(self.v)
        return str(self.v)


PUNCTS = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||",
          "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ".."]
SINGLE = set("+-*/%^!&|=<>@.,;:#$?~'\\")
OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")": "(", "]": "[", "}": "{"}


def _is_id_start(c):
    return c == "_" or c.isalpha() or ord(c) > 127


def _is_id(c):
    return c == "_" or c.isalnum() or ord(c) > 127


def unescape(s, line):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        i += 1
        e = s[i]
        i += 1
        if e == "n": out.append("\n")
        elif e == "t": out.append("\t")
        elif e == "r": out.append("\r")
        elif e == "0": out.append("\0")
        elif e in "\\'\"": out.append(e)
        elif e == "x":
            out.append(chr(int(s[i:i + 2], 16)))
            i += 2
        elif e == "u":
            j = s.index("}", i)
            out.append(chr(int(s[i + 1:j].replace("_", ""), 16)))
            i = j + 1
        elif e == "\n":
            while i < len(s) and s[i] in " \t\r\n":
                i += 1
        else:
            raise LexError("bad escape \\%s at line %d" % (e, line))
    return "".join(out)


def lex(src):
    """Return the token trees of a source text. Doc comments become #[doc = ".."] attributes."""
    pos = 0
    n = len(src)
    line = 1
    stack = [("", [], 0)]
    sp = False

    def add(t):
        nonlocal sp
        t.sp = sp
        sp = False
        stack[-1][1].append(t)

    while pos < n:
        c = src[pos]
        if c == "\n":
            line += 1
            pos += 1
            sp = True
            continue
        if c in " \t\r":
            pos += 1
            sp = True
            continue
        if src.startswith("//", pos):
            e = src.find("\n", pos)
            if e < 0:
                e = n
            text = src[pos:e]
            if (text.startswith("///") and not text.startswith("////")) or text.startswith("//!"):
                inner = text.startswith("//!")
                add(Tok("p", "#", line=line))
                if inner:
                    add(Tok("p", "!", line=line))
                add(Tok("g", [Tok("id", "doc", line=line), Tok("p", "=", line=line),
                              Tok("str", text[3:], line=line)], "[", line=line))
            pos = e
            sp = True
            continue
        if src.startswith("/*", pos):
            depth = 0
            i = pos
            while True:
                if src.startswith("/*", i):
                    depth += 1
                    i += 2
                elif src.startswith("*/", i):
                    depth -= 1
                    i += 2
                    if depth == 0:
                        break
                else:
                    if i >= n:
                        raise LexError("unterminated comment")
                    if src[i] == "\n":
                        line += 1
                    i += 1
            text = src[pos:i]
            if (text.startswith("/**") and not text.startswith("/***") and len(text) > 4) or text.startswith("/*!"):
                inner = text.startswith("/*!")
                add(Tok("p", "#", line=line))
                if inner:
                    add(Tok("p", "!", line=line))
                add(Tok("g", [Tok("id", "doc", line=line), Tok("p", "=", line=line),
                              Tok("str", text[3:-2], line=line)], "[", line=line))
            pos = i
            sp = True
            continue
        if c in OPEN:
            stack.append((c, [], line, sp))
            sp = False
            pos += 1
            continue
        if c in CLOSE:
            if len(stack) < 2 or stack[-1][0] != CLOSE[c]:
                raise LexError("unbalanced %s at line %d" % (c, line))
            d, toks, l0, sp0 = stack.pop()
            t = Tok("g", toks, d, l0)
            t.sp = sp0
            stack[-1][1].append(t)
            sp = False
            pos += 1
            continue
        # strings
        if c == '"' or (c in "bc" and pos + 1 < n and src[pos + 1] == '"'):
            k = "str" if c == '"' else "bstr"
            i = pos + (1 if c == '"' else 2)
            st = i
            while src[i] != '"':
                if src[i] == "\\":
                    i += 1
                i += 1
            raw = src[st:i]
            l0 = line
            line += raw.count("\n")
            add(Tok(k, unescape(raw, l0), line=l0))
            pos = i + 1
            continue
        if c == "r" or (c == "b" and pos + 1 < n and src[pos + 1] == "r"):
            i = pos + (1 if c == "r" else 2)
            h = 0
            while i < n and src[i] == "#":
                h += 1
                i += 1
            if i < n and src[i] == '"':
                endm = '"' + "#" * h
                e = src.index(endm, i + 1)
                raw = src[i + 1:e]
                add(Tok("str" if c == "r" else "bstr", raw, line=line))
                line += raw.count("\n")
                pos = e + len(endm)
                continue
            if c == "r" and h == 1 and i < n and _is_id_start(src[i]):
                j = i
                while j < n and _is_id(src[j]):
                    j += 1
                add(Tok("id", "r#" + src[i:j], line=line))
                pos = j
                continue
        if c == "'" or (c == "b" and pos + 1 < n and src[pos + 1] == "'"):
            i = pos + (1 if c == "'" else 2)
            # lifetime or char
            if c == "'" and _is_id_start(src[i]) and not (i + 1 < n and src[i + 1] == "'"):
                j = i
                while j < n and _is_id(src[j]):
                    j += 1
                add(Tok("life", src[pos:j], line=line))
                pos = j
                continue
            if src[i] == "\\":
                j = src.index("'", i + 2) if src[i + 1] in "'\\" else src.index("'", i + 1)
            else:
                j = i + 1
            add(Tok("char", unescape(src[i:j], line), line=line))
            pos = j + 1
            continue
        if c.isdigit():
            i = pos
            if src.startswith(("0x", "0o", "0b"), pos):
                i = pos + 2
                while i < n and (src[i].isalnum() or src[i] == "_"):
                    i += 1
                text = src[pos:i].replace("_", "")
                suffix = None
                for s in ("usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"):
                    if text.endswith(s):
                        suffix = s
                        text = text[:-len(s)]
                        break
                add(Tok("int", int(text, 0), line=line, suffix=suffix))
                pos = i
                continue
            while i < n and (src[i].isdigit() or src[i] == "_"):
                i += 1
            isf = False
            if i + 1 < n and src[i] == "." and src[i + 1].isdigit():
                isf = True
                i += 1
                while i < n and (src[i].isdigit() or src[i] == "_"):
                    i += 1
            num = src[pos:i].replace("_", "")
            j = i
            while j < n and _is_id(src[j]):
                j += 1
            suffix = src[i:j] or None
            if isf or (suffix and suffix.startswith("f")):
                add(Tok("float", float(num), line=line, suffix=suffix))
            else:
                add(Tok("int", int(num), line=line, suffix=suffix))
            pos = j
            continue
        if _is_id_start(c):
            j = pos
            while j < n and _is_id(src[j]):
                j += 1
            add(Tok("id", src[pos:j], line=line))
            pos = j
            continue
        for p in PUNCTS:
            if src.startswith(p, pos):
                add(Tok("p", p, line=line))
                pos += len(p)
                break
        else:
            if c in SINGLE:
                add(Tok("p", c, line=line))
                pos += 1
            else:
                raise LexError("unexpected %r at line %d" % (c, line))
    if len(stack) != 1:
        raise LexError("unbalanced delimiters")
    return stack[0][1]
