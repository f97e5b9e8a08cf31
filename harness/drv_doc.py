# Drives bglib.doc: the document tree and its editor.
import sys
import bglib.doc.doctree as T


def klass(name):
    if name == "Base":
        return T.BgWikiElementNode
    if name == "Macro":
        return T.BgWikiElementMacroNode
    if name == "Wrapping":
        import bglib.doc.bgwiki
        return bglib.doc.bgwiki.WrappingFormatterElement
    return getattr(T, str(name) + "Element")


NAMES = {}


def kindname(node):
    c = node.__class__.__name__
    if c == "BgWikiElementRoot":
        return "Root"
    if c == "BgWikiElementNode":
        return "Base"
    if c == "BgWikiElementMacroNode":
        return "Macro"
    if c == "TableOfContentNode":
        return "Toc"
    if c == "Text":
        return "Text"
    if c == "WrappingFormatterElement":
        return "Wrapping"
    if c.endswith("Element"):
        return c[:-len("Element")]
    return c


class Recorder(T.Visitor):
    def __init__(self, ids):
        self.ids, self.walk = ids, []

    def enter(self, node):
        self.walk.append(self.ids.get(id(node), 0))

    def leave(self, node):
        self.walk.append(-self.ids.get(id(node), 0))


class Spy(object):
    """Numbers nodes in the order they are first seen."""
    def __init__(self, editor):
        self.ed, self.ids, self.nodes, self.gone = editor, {}, [], []

    def scan(self, node):
        if id(node) not in self.ids:
            self.nodes.append(node)
            self.ids[id(node)] = len(self.nodes)
        for c in list(node.children):
            if id(c) in self.ids and self.ids[id(c)] <= self.ids[id(node)]:
                continue        # a cycle: reported by the kids themselves
            self.scan(c)

    def dump(self):
        self.scan(self.ed.root)
        cur = self.ed.current
        no = lambda n: n is not None and self.ids.get(id(n), -1) or 0
        return dict(kind=[kindname(n) for n in self.nodes], par=[no(n.parent) for n in self.nodes],
                    kids=[[no(c) for c in n.children] for n in self.nodes],
                    txt=[kindname(n) == "Text" and n.text or "" for n in self.nodes],
                    cur=no(cur))

    def walk(self, start=None):
        v = Recorder(self.ids)
        (start or self.ed.root).accept(v)
        return v.walk


ATTRS = dict(List=dict(star=None, ordered_numeric=1, ordered_roman=None, ordered_alpha=None, sign=None), Itemize=dict(style=None), Anchor={"class": "x"}, Table={"class": "wiki"})


def edit_job(job):
    ed = T.Editor()
    root = T.BgWikiElementRoot()
    ed.start(root)
    spy = Spy(ed)
    out = [dict(op="begin", err="", doc=spy.dump(), walk=spy.walk())]
    for o in job["ops"]:
        r = dict(o, err="", res=0, sub=[])
        try:
            k = o["op"]
            if k == "enter":
                n = ed.enter(klass(o["k"]), **ATTRS.get(o["k"], {}))
                if n is not ed.current:
                    r["err"] = "enter does not return the new element"
            elif k == "append":
                ed.append(klass(o["k"]), **ATTRS.get(o["k"], {}))
            elif k == "leave":
                ks = [cls(x) for x in o["ks"]]
                ed.leave(len(ks) == 1 and ks[0] or tuple(ks))
            elif k == "text":
                ed.append_text(str(o["t"]))
            elif k == "done":
                if ed.done() is not root:
                    r["err"] = "done does not return the root"
            elif k == "count":
                r["res"] = ed.count_nesting(*[cls(x) for x in o["ks"]])
            elif k == "ancestor":
                ks = [cls(x) for x in o["ks"]]
                a = ed.ancestor(len(ks) == 1 and ks[0] or tuple(ks))
                r["res"] = a is not None and spy.ids[id(a)] or 0
            elif k == "accept":
                v = Recorder(spy.ids)
                ed.accept(v)
                r["sub"] = v.walk
            elif k == "remove":
                kids = ed.current.children
                if kids:
                    n = kids[o["i"] % len(kids)]
                    r["n"] = spy.ids[id(n)]
                    ed.remove(n)
                else:
                    r["op"] = "count"
                    r["ks"] = ["Box"]
                    r["res"] = ed.count_nesting(T.BoxElement)
        except:
            r["err"] = repr(sys.exc_info()[1])
        try:
            r["doc"], r["walk"] = spy.dump(), []
            r["walk"] = spy.walk()
        except:
            r["err"] = r["err"] or "the tree cannot be read: " + repr(sys.exc_info()[1])
            r.setdefault("doc", out[-1]["doc"])
        out.append(r)
    return {"trace": out}


def cls(name):
    return dict(Line=T.LineElement, Box=T.BoxElement, Heading=T.HeadingElement, Root=T.BgWikiElementRoot).get(name) or klass(name)


# ------------------------------------------------------------------ HTML
import re
import urllib
TAG = re.compile(u'<(/?)([a-z][a-z0-9]*)((?: [a-z]+="[^"<>]*")*) ?(/?)>$')
ATTR = re.compile(u' ([a-z]+)="([^"<>]*)"')
AMP = re.compile(u'&(?!(?:amp|lt|gt|quot);)')


def unescape(s):
    return s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", '"').replace("&amp;", "&")


def query(v):
    """The parameters of a picture's address in a fixed order."""
    if v.startswith("/image?"):
        return "/image?" + "&".join(sorted([urllib.unquote_plus(str(x)) for x in v[7:].split("&")]))
    return v


def events(html, raw=False, joined=True):
    """The tags and texts of a page: strict about syntax, line breaks next to tags are layout (outside <pre>)."""
    out, bad, pre = [], [], 0
    for part in re.split(u"(<[^>]*>)", html):
        if part.startswith("<"):
            m = TAG.match(part)
            if not m or AMP.search(part):
                bad.append(part[:60])
                continue
            close, name, attrs, single = m.groups()
            at = sorted(ATTR.findall(attrs))
            if len(set([k for k, v in at])) != len(at) or (close and (attrs or single)):
                bad.append(part[:60])
            e = close and "c" or single and "s" or "o"
            if name == "pre":
                pre += e == "o" and 1 or -1
            out.append(dict(e=e, n=name, a=" ".join(["%s=%s" % (k, query(unescape(v))) for k, v in at]), t="", names=[k for k, v in at]))
        else:
            if "<" in part or ">" in part or AMP.search(part):
                bad.append(part[:60])
            t = pre and part or joined and part.strip("\n") or part.replace("\n", "")      # a line break inside a text would part a word
            if t:
                if out and out[-1]["e"] == "t":
                    out[-1]["t"] += raw and t or unescape(t)
                else:
                    out.append(dict(e="t", n="", a="", t=raw and t or unescape(t), names=[]))
    return out, bad


def formatter():
    import bglib.doc.bgwiki as W
    import bglib.doc.macro
    from bglib.doc.mock import DataBaseMock
    db = DataBaseMock()
    bglib.doc.macro.setup(db)
    return W.Formatter(db, "/wiki/")


def text_of(job):
    t = job["text"]
    return job.get("unicode") and t or str(t)


def page_job(job):
    """One page, formatted once: its events."""
    r = dict(op=job["op"], lines=job["lines"], err="", bad=[], events=[])
    try:
        f = formatter()
        f.parse("".join([str(x["raw"]) + "\n" for x in job["lines"]]))
        ev, r["bad"] = events(f.make_html())
        for e in ev:
            del e["names"]
        r["events"] = ev
    except:
        r["err"] = repr(sys.exc_info()[1])
    return r


USERATOM = re.compile(u"q[a-z]{4}z|[<&>]|[\u0100-\uffff]+")
ATOM = re.compile(u"q[a-z]{4}z|&lt;|&amp;|&gt;|[<&>]|[\u0100-\uffff]+")


def soup_job(job):
    """Any text: stability of the result, its events, and what became of the user's words and markup characters."""
    text = text_of(job)
    r = dict(op="soup", err="", bad=[], events=[], again=True, fresh=True, linewise=True, texttype=True, valid=True,
             atoms=USERATOM.findall(text), seen=[], gt=job["gt"], words=job["words"])
    r["text"] = job["text"]
    try:
        f = formatter()
        f.parse(text)
        h = f.make_html()
        r["texttype"] = isinstance(h, basestring)
        r["again"] = f.make_html() == h
        f.extract_references()
        r["again"] = r["again"] and f.make_html() == h
        g = formatter()
        g.parse("''other''\n{{{\ntext\n}}}\n = x")
        g.make_html()
        g = formatter()
        g.parse(text)
        r["fresh"] = g.make_html() == h
        g = formatter()
        for line in text.splitlines():
            g.parse(line or "\n")
        r["linewise"] = g.make_html() == h
        ev, r["bad"] = events(h, raw=True)
        r["seen"] = ATOM.findall("".join([e["e"] == "t" and e["t"] or "\n" for e in ev]))
        r["names"] = sorted(set([n for e in ev for n in e["names"]]))
        for e in ev:
            del e["names"]
            e["t"] = ""
            e["a"] = ""
        r["events"] = ev
        if not job.get("unicode"):
            import bglib.doc.html
            try:
                bglib.doc.html.validate(h)
            except:
                r["valid"] = False
    except:
        r["err"] = repr(sys.exc_info()[1])
        r.setdefault("names", [])
    return r


BUILTIN = ["BR", "TableOfContent", "Position", "Analysis"]


def macro_job(job):
    """A history of registrations and pages."""
    import bglib.doc.macro as M
    import bglib.doc.doctree as T
    M.setup(None)
    made, calls = {}, []

    def behave(h, editor, args):
        calls.append(dict(id=h["id"], args=args is None and "None" or args))
        shown = args is None and "None" or args
        if h["kind"] == "say":
            editor.append_text("(%s:%s)" % (h["id"], shown))
            return (True, 1, "done", [None])[len(str(args)) % 4]    # any true value is success
        if h["kind"] == "span":
            editor.enter(T.SpanElement, **{"class": h["id"]})
            editor.append_text(shown)
            editor.leave(T.SpanElement)
            return True
        return h["kind"] == "bad" and False or None

    def make(h):
        if h["id"] not in made:
            if h["proc"]:
                made[h["id"]] = type(str(h["name"]), (M.Processor,), dict([("__call__", lambda self, e, a: behave(h, e, a))] +
                                        (len(made) % 2 and [("__len__", lambda self: 0)] or [])))()    # a handler may be an empty container
            else:
                f = lambda e, a: behave(h, e, a)
                f.func_name = str(h["name"])
                made[h["id"]] = f
        return made[h["id"]]

    out = [dict(op="begin", err="")]
    for o in job["ops"]:
        r = dict(o, err="")
        try:
            if o["op"] == "reg":
                M.register(make(o["h"]))
            elif o["op"] == "unreg":
                M.unregister(str(o["name"]), made[o["id"]] if o["id"] in made else getattr(M, str(o["id"]), None))
            else:
                del calls[:]
                r.update(bad=[], events=[], calls=[], again=True)
                import bglib.doc.bgwiki as W
                f = W.Formatter(None, "/wiki/")
                f.parse("".join([str(x["raw"]) + "\n" for x in o["lines"]]))
                r["calls"] = list(calls)
                h = f.make_html()
                r["again"] = f.make_html() == h
                r["events"], r["bad"] = events(h, joined=False)
                for e in r["events"]:
                    del e["names"]
        except:
            r["err"] = repr(sys.exc_info()[1])
        out.append(r)
    for i in made:
        try:
            M.unregister([o["h"]["name"] for o in job["ops"] if o["op"] == "reg" and o["h"]["id"] == i][0], made[i])
        except:
            pass
    for b in BUILTIN:
        M.register(getattr(M, b))
    return {"trace": out}


class TableReader(object):
    """The tables of a page, and its text outside them."""
    def __init__(self, html):
        from HTMLParser import HTMLParser
        me = self
        me.tables, me.around, me.t, me.r, me.c = [], [], None, None, None

        class P(HTMLParser):
            def handle_starttag(self, tag, attrs):
                d = dict(attrs)
                if tag == "table":
                    me.t = dict(c=d.get("class", ""), rows=[])
                    me.tables.append(me.t)
                elif tag == "tr":
                    me.r = dict(c=d.get("class", ""), cells=[])
                    me.t["rows"].append(me.r)
                elif tag in ("td", "th"):
                    me.c = dict(h=tag == "th", c=d.get("class", ""), rs=int(d.get("rowspan", "1")), cs=int(d.get("colspan", "1")), t="")
                    me.r["cells"].append(me.c)

            def handle_endtag(self, tag):
                if tag == "table":
                    me.t = me.r = me.c = None
                elif tag in ("td", "th"):
                    me.c = None

            def text(self, s):
                if me.c is not None:
                    me.c["t"] += s
                else:
                    me.around.append(s)

            handle_data = text

            def handle_entityref(self, name):
                self.text(unescape("&%s;" % name))

            def handle_charref(self, name):
                self.text(unescape("&#%s;" % name))
        p = P()
        p.feed(html)
        p.close()
        for t in me.tables:
            for r in t["rows"]:
                for c in r["cells"]:
                    c["t"] = " ".join(c["t"].split())


def report_job(job):
    """A page of analyses, shown."""
    import bglib.doc.macro as M
    import bglib.doc.bgwiki as W
    r = dict(op="report", ids=sorted(set(job["ids"])), words=job["words"], err="", bad=[], tables=[], asked=[], around=[], again=True)
    r["as"] = job["as"]
    asked = []

    class DB(object):
        def get_analysis(self, pid, mid):
            asked.append(pid + ":" + mid)
            a = job["as"][job["ids"].index(pid + ":" + mid)]
            rows = []
            xs = a["rows"]
            if a["cube"]:
                xs = [a["first"]] + xs
            for x in xs:
                d = dict([(str(k), v) for k, v in x.items() if k not in ("n", "w", "actual", "eq", "cubeless", "money", "diff")])
                n = x["n"]
                for k, scale, i in (("eq", 1000, 0), ("cubeless", 1000, 1), ("money", 1000, 2)):
                    if k in x:
                        d[k == "eq" and "equity" or k] = x[k] / float(scale) + n[i] / (10.0 * scale)
                if "diff" in x:
                    d["diff"] = x["diff"] != -999999 and (x["diff"] and x["diff"] / 1000.0 + n[3] / 10000.0 or 0.0) or None
                    if x["diff"] == 0:
                        d["diff"] = 0.0
                for k, v, m in zip(["Win", "WinG", "WinBg", "Lose", "LoseG", "LoseBg"], x.get("w", []), n[4:]):
                    d[k] = v / 10.0 + m / 100.0
                if "move" in d:
                    d["move"] = str(d["move"])
                if x.get("actual"):
                    d["actual"] = True
                elif x.get("said"):
                    d["actual"] = False
                rows.append(d)
            return a["cube"], tuple(rows)
    try:
        M.setup(DB())
        f = W.Formatter(None, "/wiki/")
        for line in job["page"]:
            f.parse(str(line) + "\n")
        h = f.make_html()
        r["again"] = f.make_html() == h
        ev, r["bad"] = events(h)
        t = TableReader(h)
        r["tables"] = t.tables
        r["around"] = re.findall("q[a-z]{4}z", " ".join(t.around))
        r["asked"] = sorted(set(asked))
    except:
        r["err"] = repr(sys.exc_info()[1])
    M.setup(None)
    return r


def html_job(job):
    import bglib.doc.html as H
    r = dict(job, err="")
    try:
        op = job["op"]
        if op == "text":
            s = "".join([str(c) for c in job["s"]])
            r.update(esc=list(H.escape(s)), norm=list(H.nomalize(s)), norm2=list(H.nomalize(H.nomalize(s))))
        elif op == "pair":
            a, b = ["".join([str(c) for c in job[k]]) for k in "ab"]
            r.update(same=len(H.cmp(a, b)) == 0, rsame=len(H.cmp(b, a)) == 0, self=len(H.cmp(a, "".join(list(a)))) == 0 and len(H.cmp_tuple(a, "" + a)) == 0)
        elif op == "docs":
            a, b = str(job["ha"]), str(job["hb"])
            r.update(same=len(H.cmp_tuple(a, b)) == 0, rsame=len(H.cmp_tuple(b, a)) == 0)
            ta, tb = [H.tuplify(H.nomalize(x)) for x in (a, b)]
            r.update(tup=ta == tb, tupself=ta == H.tuplify(H.nomalize(a)))
            r["attrs"] = [["%s=%s" % (k, v) for k, v in H.tuplify_attr("".join([' %s="%s"' % tuple(str(x).split("=")) for x in t["at"]]))] for t in job["a"]]
            r["dicts"] = [sorted(["%s=%s" % (k, v) for k, v in H.dictify_attr(" ".join(['%s="%s"' % tuple(str(x).split("=")) for x in t["at"]]))]) for t in job["a"]]
        else:
            try:
                H.validate(str(job["html"]))
                r["ok"] = True
            except:
                r["ok"] = False
    except:
        r["err"] = repr(sys.exc_info()[1])
    return r


def handle(job):
    return dict(text=html_job, pair=html_job, docs=html_job, fragment=html_job, edit=edit_job, page=page_job, said=page_job, soup=soup_job, macros=macro_job, report=report_job)[job["op"]](job)
