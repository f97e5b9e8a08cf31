"""Seeded generators of wiki pages: pages whose tokens are known (for the structural specification), and markup soups."""
import re


def word(rng):
    return "q" + "".join(rng.choice("bcdfghjklmnoprstuvwxy") for _ in range(4)) + "z"


def tok(y, k="", n=0, t=""):
    return dict(y=y, k=k, n=n, t=t)


EXTRA = []       # further inline constructs: functions rng -> (raw, token)
TOGS = [("Bold", "'''"), ("Italic", "''"), ("Underline", "__"), ("Strike", "~~"), ("Subscript", ",,"), ("Superscript", "^"), ("Monospace", "`"),
        ("H3", "==="), ("H2", "=="), ("H1", "=")]
LISTS = [("star", "*", ""), ("sign", "+", "+"), ("sign", "-", "-"), ("sign", "++", "++"), ("sign", "+++", "+++"), ("sign", "--", "--"), ("sign", "---", "---"),
         ("ordered_numeric", "1.", ""), ("ordered_numeric", "2", ""), ("ordered_alpha", "a.", ""), ("ordered_alpha", "c", ""), ("ordered_roman", "i.", ""), ("ordered_roman", "iv", "")]

MORE = [("ordered_numeric", d + x, "") for d in "12345678" for x in ("", ".")] + [("ordered_alpha", d + x, "") for d in "abcdefgh" for x in ("", ".")] \
    + [("ordered_roman", r + x, "") for r in ("i", "ii", "iii", "iv", "v", "vi", "vii", "viii", "iiii") for x in ("", ".")]


def num(rng):
    return rng.choice([str(rng.randint(1, 999))] * 3 + ["0", "007", str(rng.randint(1000, 10 ** 8))])


def texts(rng):
    w = rng.choice(["word", "some text", "x", "a,b", "hello.", "a<b", "c>d", "e&f", 'say "hi"', "what?", "it's", "1 2", "a&amp;b", "<b>", "# x", "100%", "a|b", "(x)", "lower", "a_b", "x" * 40, "\\\\n", "$1 @2", "a;b", "50 - 3", "[x]", "{y}", "T.H."])
    if rng.random() < .004:
        w = " ".join(["abcde%sz" % "q" * rng.randint(1, 9) for _ in range(rng.choice([30, 120, 300]))])
    return w


def inline(rng, heads=True):
    """(raw, token) of one inline construct."""
    if EXTRA and rng.random() < .6:
        return EXTRA[0](rng)
    k = rng.random()
    if k < .45:
        name, raw = rng.choice(TOGS if heads and rng.random() < .3 else TOGS[:7])
        return raw, tok("tog", name)
    if k < .5:
        return "'''''", tok("bi")
    if k < .54:
        return "{{{", tok("ms")
    if k < .58:
        return "}}}", tok("me")
    if k < .64:
        n = num(rng)
        f = rng.choice(["#%s", "entry:%s"])
        return f % n, tok("entry", n, 0, f % n)
    if k < .68:
        n = num(rng)
        f = rng.choice(["query:%s", "{%s}"])
        return f % n, tok("query", n, 0, f % n)
    if k < .73:
        n = num(rng)
        f = rng.choice(["match:%s", "[%s]", "m%s"])
        return f % n, tok("match", n, 0, f % n)
    if k < .78:
        w = rng.choice(["CamelWord", "WikiName", "AbC1De", "FooBarBaz", "Ab2Cd", "A1B2", "Ab" * 12, "Zz9Zz9Zz9"])
        return w, tok("wiki", "", 0, w)
    if k < .81:
        w = rng.choice(["backgammon", "Foo", "CamelWord"])
        return "[wiki:%s]" % w, tok("wiki", "", 0, w)
    if k < .86:
        u = rng.choice(["http://a.b/", "https://x.org/?a=1&b=2", "http://e.com/~u/p_q#f", "http://h/a%20b"])
        return (u, tok("url", "", 0, u)) if rng.random() < .6 else ("[%s]" % u, tok("urld", u, 0, u))
    if k < .91:
        u = rng.choice(["http://a.b/", "https://x.org/?a=1&b=2"])
        d = rng.choice(["here", "two words", 'a "quote"', "x<y>&z", "it's"])
        return "[%s %s]" % (u, d), tok("urld", u, 0, d)
    if k < .94:
        return EXTRA[0](rng) if EXTRA else ("[[BR]]", tok("br"))
    if k < .97:
        n, a = rng.choice(["Nope", "position", "BRR"]), rng.choice(["x", "a, b", "1+1=2", None])
        return ("[[%s]]" % n if a is None else "[[%s(%s)]]" % (n, a)), tok("unk", n, 0, a or "None")
    esc = rng.choice(["'''", "''", "__", "~~", ",,", "^", "`", "{{{", "}}}", "===", "==", "=", "#5", "entry:6", "query:7", "{8}", "m9", "match:10", "[11]", "||", "http://a.b/",
                      "[http://a.b/ x y]", "[wiki:Foo]", "CamelWord", "'''''"])
    return "!" + esc, tok("t", "", 0, esc)


def run_of(rng, n, heads=True):
    raw, toks = "", []
    for _ in range(n):
        if rng.random() < .6:
            r, t = inline(rng, heads)
            if raw:
                raw += " "
                toks.append(tok("t", "", 0, " "))
            raw += r
            toks.append(t)
            raw += " "
            toks.append(tok("t", "", 0, " "))
        w = texts(rng)
        raw += w
        toks.append(tok("t", "", 0, w))
    return raw, toks


def pline(rng, style=None):
    """One line of a page: dict(y, raw, s, def, proc, toks)."""
    style = style or rng.choice(["text", "text", "text", "item", "item", "item", "cite", "quote", "blank", "blank", "pre", "post", "def", "row", "row", "cellrow", "head", "one", "proc"])
    toks, raw, y, deff, proc = [], "", "line", False, False
    n = rng.choice([1, 1, 1, 2, 2, 3])
    if style == "blank":
        y = "blank"
    elif style == "pre":
        y, raw = "pre", "{{{"
    elif style == "post":
        raw, toks = "}}}", []
    elif style == "proc":
        w = rng.choice(["#!preformat", "#!unknown"])
        raw, toks, proc = w, [tok("t", "", 0, w)], True
        if rng.random() < .4:       # no processor, although it begins like one
            w = rng.choice(["#!/bin/sh", "#!a b", "#!", "#!x-y", " #!unknown", "#!unknown ", "#!preformat:", "x#!unknown"])
            raw, toks, proc = w, [tok("t", "", 0, w)], False
    elif style == "item":
        k, m, sign = rng.choice(LISTS if rng.random() < .6 else MORE)
        d = rng.choice([1, 1, 1, 2, 2, 3, 4]) if rng.random() < .95 else rng.randint(5, 12)
        r, ts = run_of(rng, n)
        raw, toks = " " * d + m + " " + r, [tok("item", k, d, sign)] + ts
    elif style == "cite":
        d = rng.choice([1, 1, 2, 2, 3, 4]) if rng.random() < .95 else rng.randint(5, 12)
        r, ts = run_of(rng, n)
        raw, toks = ">" * d + " " + r, [tok("cite", "", d)] + ts
    elif style == "quote":
        d = rng.choice([2, 2, 3, 5])
        r, ts = run_of(rng, n)
        raw, toks = " " * d + r, [tok("quote", "", d)] + ts
        while raw[d] in "*+-12345678abcdefghiv":        # could be read as an item
            r, ts = run_of(rng, n)
            raw, toks = " " * d + r, [tok("quote", "", d)] + ts
    elif style == "one":
        w = texts(rng)
        while w[0] in "*+-12345678abcdefghiv":
            w = texts(rng)
        raw, toks = " " + w, [tok("t", "", 0, " " + w)]
    elif style == "def":
        r, ts = run_of(rng, n, False)
        deff, raw, toks = True, r + "::", ts + [tok("dd")]
    elif style in ("row", "cellrow"):
        for _ in range(rng.choice([1, 2, 2, 3] if rng.random() < .9 else [5, 9, 12])):
            r, ts = run_of(rng, 1, False)
            raw += "||" + r
            toks += [tok("cell")] + ts
        if style == "row":
            raw += "||" + rng.choice(["", "", " "])
            toks += [tok("tend")]
        if rng.random() < .15:
            d = rng.choice([2, 3])
            raw, toks = " " * d + raw, [tok("quote", "", d)] + toks
    elif style == "head":
        name, m = rng.choice(TOGS[7:])
        r, ts = run_of(rng, 1, False)
        raw, toks = m + " " + r + " " + m, [tok("tog", name), tok("t", "", 0, " ")] + ts + [tok("t", "", 0, " "), tok("tog", name)]
    else:
        raw, toks = run_of(rng, n)
        if rng.random() < .12:      # beginnings that look like markup and are none
            w = rng.choice(["!> ", "!>> ", "! ", "*x ", "1. ", "!* "])
            raw, toks = w + raw, [tok("t", "", 0, w)] + toks
            if rng.random() < .2:
                raw, toks = w.strip(), [tok("t", "", 0, w.strip())]
    if y == "line" and style not in ("def",) and raw.endswith("::"):
        return pline(rng, style)
    if style in ("text", "def", "head") and (raw[0] == ">" or raw in ("{{{", "}}}")):
        return pline(rng, style)
    if raw == "{{{" and y != "pre":
        return pline(rng, style)
    s = raw[0] if raw and raw[0] in " >" else "x"
    return dict([("y", y), ("raw", raw), ("s", s), ("def", deff), ("proc", proc), ("toks", toks)])


def preblock(rng):
    """A preformatted block, its lines kept as they are: blanks, tabs and what would be markup elsewhere."""
    ls = [pline(rng, "pre")]
    for _ in range(rng.choice([1, 2, 4, 8])):
        if rng.random() < .25:
            ls += [pline(rng, "blank") for _ in range(rng.choice([1, 2, 3, 5]))]
            continue
        ws = [rng.choice([word(rng), pline(rng, "text")["raw"], "\t", "a\tb", " ", "    ", "*", "||", "= x =", "::", "{{{ x", "!", "#!", "[[BR]]", "}}", "\\"]) for _ in range(rng.choice([1, 2, 4]))]
        raw = rng.choice(["", "", " ", "\t", "        "]) + rng.choice([" ", "", "\t"]).join(ws) + rng.choice(["", "", " ", "\t", "   "])
        if raw in ("}}}", "") or re.match(r"#!\w+$", raw):
            raw = "x" + raw
        ls.append(dict([("y", "line"), ("raw", raw), ("s", raw[0] if raw[0] in " >" else "x"), ("def", False), ("proc", False), ("toks", [tok("t", "", 0, raw)])]))
    return ls + ([pline(rng, "post")] if rng.random() < .85 else [])


def soup(rng, n, words=True, cite=True):
    """A text of n pieces; words=True keeps it readable for the order-of-words oracle."""
    pieces = []
    ws = lambda: word(rng)
    for _ in range(n):
        k = rng.random()
        if k < .28:
            pieces.append(ws())
        elif k < .42:
            pieces.append("\n" * rng.choice([1, 1, 1, 2, 3]))
        elif k < .5:
            pieces.append(" " * rng.choice([1, 1, 2, 3, 5]))
        elif k < .58:
            pieces.append(rng.choice(["<", "&", "<b>" if cite else "<", "&amp", "</div", "?", '"', "<!--", "]]", "&#60", "%s", "$x", "\\"]))
            if cite and rng.random() < .3:
                pieces.append(">")
        elif k < .75:
            pieces.append(rng.choice(["'''", "''", "'''''", "__", "~~", ",,", "^", "`", "===", "==", "=", "||", "::", "!", "*", "+", "-", "1.", "a", "iv", ":", "'", "[", "]", "{", "}", "#", "."]))
        elif k < .85:
            pieces.append(rng.choice(["\n * ", "\n  + ", "\n   -- ", "\n 1. ", "\n  a ", "\n iv. ", "\n  ", "\n||", "||\n", "::\n", "\n{{{\n", "\n}}}\n", "{{{", "}}}", "\n\n", "\n= ", " =\n", "\n== ", "\n }}}", "\n {{{\n"]))
            if cite and rng.random() < .3:
                pieces.append(rng.choice(["\n> ", "\n>> ", "\n>>> "]))
        elif k < .93:
            pieces.append(rng.choice([" #12 ", " entry:3 ", " query:4 ", " {5} ", " m6 ", " match:7 ", " [8] ", " CamelWord ", " [wiki:Foo] ", " !CamelWord ", " !#3 ",
                                      " http://h/%s?x=1&y=2 " % ws(), " [http://h/%s] " % ws(), ' [http://h/x a %s "b" <c & d] ' % ws(), " ![http://h/x %s] " % ws(), " !http://h/&%s " % ws()]))
        else:
            pieces.append(rng.choice([" [[BR]] ", " [[Nope]] ", " [[Nope(%s)]] " % ws(), " [[%s]] " % ws(), " [[Position]] ", " [[Position(%s)]] " % ws(), " [[Analysis(haha:haha)]] ",
                                      " [[Position(vzsAAFhu2xFABA:QYkqASAAIAAA)]] " if cite else " [[BR]] "]))
            if not words and rng.random() < .4:
                pieces.append(rng.choice([" [[TableOfContent]] ", " [[Analysis(vzsAAFhu2xFABA:QYkqASAAIAAA)]] ", " [[Analysis(cNcxAxCY54YBBg:cAn7ADAAIAAA)]] "]))
    return "".join(pieces)


def processor(text):
    """A line naming a processor: what follows is not wiki text (or is dropped), so it is kept out of soups."""
    return any(re.match(r"#!\w+$", x) for x in text.splitlines())
