# Drives bglib.image: element trees, style sheets, pictures of boards and their drawing.
import os
import re
import sys
import tempfile

import bglib.image.base as base
import bglib.image.css as css

NAMES = ["x", "y", "width", "height", "image", "flip", "background", "color", "font", "mag", "player", "x_offset", "y_offset", "x_offset2", "y_offset2", "text", "backgammon",
         "diestyle", "eyesize", "id", "initialCube", "fill", "hide_count", "max_count", "parity"]


def show(v):
    if isinstance(v, bool):
        return "bool:%s" % v
    if isinstance(v, (int, long)):
        return "int:%d" % v
    if isinstance(v, float):
        return "float:%r" % v
    if isinstance(v, str):
        return "str:" + v
    return v.__class__.__name__


def value(s):
    ty, v = str(s).split(":", 1)
    return {"int": int, "float": float, "bool": lambda x: x == "True", "str": str}[ty](v)


def get(e, a):
    try:
        return show(getattr(e, a))
    except AttributeError:
        return ""


def errname():
    return sys.exc_info()[1].__class__.__name__


def build(job):
    es = []
    for k, p, data, own in zip(job["kind"], job["par"], job["data"], job["own"]):
        own = dict((str(a), value(v)) for a, v in own.items() if a != "_")
        if job["make"] == "args":
            e = base.Element(str(k), **own)
        else:
            e = base.Element(str(k))
            for a, v in own.items():
                setattr(e, a, v)
        for d in data:
            e.append(str(d))
        if p:
            es[p - 1].append(e)
        es.append(e)
    return es


def sheet_job(job):
    out = dict((k, job[k]) for k in ("op", "kind", "par", "data", "own", "rules"))
    es = build(job)
    tree = base.ElementTree()
    tree.board = es[0]
    out["err"], out["seen"] = "", []
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "s.css")
        out["dir"] = str(job["dir"]) if job["how"] == "parser" else d
        try:
            if job["how"] == "parser":
                p = css.CSSParser()
                b = css.Binder()
                for n, x in enumerate(job["lines"]):
                    r = p.rule(out["dir"] + "/s.css", n + 1, str(x))
                    if r:
                        b.append(r)
                b.apply(tree)
            else:
                f = open(path, "w")
                f.write("".join(str(x) + "\n" for x in job["lines"]))
                f.close()
                if job["how"] == "load":
                    css.load(path).apply(tree)
                else:
                    tree.css(path)
        except:
            out["err"] = errname()
    finally:
        for n in os.listdir(d):
            os.remove(os.path.join(d, n))
        os.rmdir(d)
    out["seen"] = [dict((a, get(e, a)) for a in NAMES) for e in es]
    return out


def set_job(job):
    out = dict((k, job[k]) for k in ("op", "kind", "par", "data", "own"))
    out["sets"], out["err"] = [], ""
    es = build(job)
    for s in job["sets"]:
        s = dict(s, refused=False)
        try:
            if s["a"] in es[s["i"] - 1].DTD_ATTLIST:
                setattr(es[s["i"] - 1], str(s["a"]), value(s["ty"] + ":" + s["v"]))
            else:
                s["refused"] = True     # an ordinary Python attribute of the object, none of the element
        except TypeError:
            s["refused"] = True
        s["got"] = [get(e, str(s["a"])) for e in es]
        out["sets"].append(s)
    return out


def append_job(job):
    e = base.Element(str(job["parent"]))
    ok = True
    try:
        e.append("text" if job["child"] == "#PCDATA" else base.Element(str(job["child"])))
    except TypeError:
        ok = False
    return dict(job, ok=ok)


def dtd_job(job):
    s = base.Element.make_dtd()
    content = [[k, [x.strip() for x in c.split("|")]] for k, c in re.findall(r"<!ELEMENT\s+(\w+)\s+\(([^)]*)\)\*\s*>", s)]
    attrs = [[k, re.findall(r"(\w+)\s+CDATA\s+#IMPLIED", c)] for k, c in re.findall(r"<!ATTLIST\s+(\w+)([^>]*)>", s)]
    return dict(op="dtd", content=content, attrs=attrs)


# ---------------------------------------------------------------- I04
class FakeImage(object):
    def __init__(self, uri, size, mode, flip=False):
        self.uri, self.size, self.mode, self.flip, self.ops = uri, tuple(size), mode, flip, []

    def copy(self):
        return FakeImage(self.uri, self.size, self.mode, self.flip)

    def transpose(self, how):
        r = self.copy()
        if how == "FLIP_TOP_BOTTOM":
            r.flip = not r.flip
        else:
            r.uri += "?" + str(how)
        return r

    width = property(lambda self: self.size[0])
    height = property(lambda self: self.size[1])

    def load(self):
        pass

    def split(self):
        return [self.copy() for c in self.mode]

    def getchannel(self, c):
        return self.copy()

    def resize(self, size, *a):
        r = self.copy()
        r.size = tuple(size)
        return r

    def convert(self, mode):
        r = self.copy()
        r.mode = mode
        return r

    def paste(self, im, box, mask=None):
        box = flat(box)
        if len(box) == 2:
            box = box + [box[0] + im.size[0], box[1] + im.size[1]]
        if [box[2] - box[0], box[3] - box[1]] != list(im.size):
            raise ValueError("images do not match")
        self.ops.append(opr("paste", box, t=im.uri, flip=im.flip, mask=mask is not None and mask.uri == im.uri and mask.flip == im.flip and mask.size == im.size))


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (tuple, list)):
            out += flat(x)
        else:
            out.append(x)
    return out


def opr(op, box, t="", f="", s=0, k="", flip=False, mask=False, pts=()):
    return dict(op=op, box=list(box), t=t, f=f, s=s, k=k or "", flip=flip, mask=mask, pts=[list(p) for p in pts])


def make_device(mt, rgba):
    """The device with a stand-in for the imaging library, which only records."""
    import types

    class FakeFont(object):
        def __init__(self, uri, size):
            self.uri, self.px = uri, size

        def getsize(self, text):
            return (self.px * len(text) * mt["a"] // mt["b"], self.px * mt["p"] // mt["q"])

    class Pen(object):
        def __init__(self, im):
            self.ops = im.ops

        def text(self, xy, text, fill=None, font=None):
            self.ops.append(opr("text", flat(xy), t=text, f=font.uri, s=font.px, k=fill))

        def textsize(self, text, font=None):
            return font.getsize(text)

        def ellipse(self, xy, fill=None, outline=None):
            self.ops.append(opr("ellipse", flat(xy), k=fill))

        def rectangle(self, xy, fill=None, outline=None):
            self.ops.append(opr("rect", flat(xy), k=fill))

        def polygon(self, xy, fill=None, outline=None):
            xs = flat(xy)
            self.ops.append(opr("polygon", [], k=fill, pts=[xs[i:i + 2] for i in range(0, len(xs), 2)]))
    Image, ImageDraw, ImageFont = [types.ModuleType(n) for n in ("Image", "ImageDraw", "ImageFont")]
    Image.new = lambda mode, size, *a: FakeImage("", size, mode)
    Image.open = lambda uri, *a: FakeImage(str(uri), (77, 33), os.path.basename(str(uri)) in rgba and "RGBA" or "RGB")
    Image.FLIP_TOP_BOTTOM, Image.FLIP_LEFT_RIGHT, Image.ROTATE_180 = "FLIP_TOP_BOTTOM", "FLIP_LEFT_RIGHT", "ROTATE_180"
    ImageDraw.Draw = Pen
    ImageFont.truetype = lambda uri, size, *a: FakeFont(str(uri), size)
    for m in (Image, ImageDraw, ImageFont):
        sys.modules[m.__name__] = m
    sys.modules.pop("bglib.image.PIL", None)
    import bglib.image.PIL as P
    return reload(P)


def device_job(job):
    """Calls on the device (or whole boards drawn) and what they came to on the canvas."""
    P = make_device(job["mt"], job["rgba"])
    out = []
    d = tempfile.mkdtemp()
    try:
        if job["lines"]:
            path = os.path.join(d, "s.css")
            f = open(path, "w")
            f.write("".join(str(x) + "\n" for x in job["lines"]))
            f.close()
            sheet = css.load(path)
            Recorder = make_recorder()[0]
            rec = Recorder(css.load(path))
        else:
            sheet = None
        dev = P.Draw(sheet)
        for n, w in enumerate(job["draws"]):
            r = dict(op="device", err="", mt=job["mt"], rgba=job["rgba"] + ["D/" + u for u in job["rgba"]], calls=w.get("calls", []), ops=[], size=[], bound=w["bound"], em=-1, hist=n)
            try:
                if sheet is not None:
                    r["calls"] = rec.draw(board_of(w["board"]), tuple(w["bound"]))
                    im = dev.draw(board_of(w["board"]), tuple(w["bound"]))
                else:
                    dev.create_dc(tuple(w["bound"]))
                    for c in r["calls"]:
                        p, s, k = (c["x"], c["y"]), (c["w"], c["h"]), c["k"] and str(c["k"]) or None
                        if c["c"] == "text":
                            dev.draw_text(p, s, str(c["t"]), str(c["f"]), k)
                        elif c["c"] == "rect":
                            dev.draw_rect(p, s, k)
                        elif c["c"] == "ellipse":
                            dev.draw_ellipse(p, s, fill=k)
                        elif c["c"] == "polygon":
                            dev.draw_polygon([tuple(q) for q in c["pts"]], fill=k)
                        else:
                            s = c.get("list") and list(s) or s
                            dev.paste_image(dev.load_image(str(c["t"]), s, c["flip"]), p, s)
                    im = dev.result_from_dc()
                    dev.delele_dc()
                r["em"] = dev.calc_em("em.ttf", 10)
                r["ops"], r["size"] = im.ops, list(im.size)
                for c in r["calls"]:
                    c["n"] = len(c["t"])
                for c in r["calls"] + r["ops"]:
                    c["t"], c["f"] = [v.replace(d, "D") for v in (c["t"], c["f"])]
            except:
                r["err"] = errname()
            out.append(r)
    finally:
        for n in os.listdir(d):
            os.remove(os.path.join(d, n))
        os.rmdir(d)
    return dict(trace=out)


def handle(job):
    return globals()[job["op"] + "_job"](job)
WHO = ("you", "him")


def board_of(j):
    import bglib.model.board as mb
    kw = dict(position=(tuple(j["pos"][0]), tuple(j["pos"][1])), cube_in_logarithm=j["cube"], cube_owner={"you": 0, "him": 1, "center": 3}[j["owner"]],
              on_action=WHO.index(j["on"]), on_inner_action=WHO.index(j["inner"]), doubled=j["doubled"], resign_offer=j["offer"], rolled=tuple(j["rolled"]),
              match_length=j["length"], score=tuple(j["score"]), crawford=j["crawford"])
    if j.get("edit"):
        from bglib.model.boardeditor import BoardEditor
        e = BoardEditor()
        for k, v in sorted(kw.items()):
            setattr(e, k, v)
        return e
    return mb.Board(**kw)


# elements as [name, attributes, texts and elements]
def walk(e):
    return [e.name, dict((a, str(v)) for a, v in e.attributes.items()), [walk(c) if isinstance(c, base.BaseElement) else str(c) for c in e.children]]


def scan(s):
    top = ["", {}, []]
    stack = [top]
    for tag, text in re.findall(r"<([^>]*)>|([^<]+)", s):
        if text:
            if text.strip():
                stack[-1][2].append(text.strip())
        elif tag[0] == "/":
            if stack[-1][0] != tag[1:].strip():
                raise ValueError("unbalanced")
            stack.pop()
        elif tag[0] not in "?!":
            e = [tag.split()[0], dict(re.findall(r'(\w+)="([^"]*)"', tag)), []]
            stack[-1][2].append(e)
            stack.append(e)
    if len(stack) != 1 or len(top[2]) != 1:
        raise ValueError("unbalanced")
    return top[2][0]


def items(e):
    """what is in the containers of a tree, and how elements are nested"""
    out, pairs, frame, points, parity, actor = [], set(), [], [], [], [""]

    def visit(x):
        name, at, ch = x
        where, own = name, ""
        if name in ("score", "field", "bar", "home"):
            where = name + ":" + at.get("player", "?")
            if name != "score":
                frame.append(where)
        elif name == "point":
            n = ch[0] if ch and not isinstance(ch[0], list) else "?"
            where = "point:" + n
            points.append(n)
            parity.append(at.get("parity", ""))
            ch = ch[1:]
        elif name == "action":
            actor[0] = at.get("player", "")
        elif name in ("chequer", "cube", "die", "resign"):
            where = None
        for c in ch:
            if isinstance(c, list):
                pairs.add((name, c[0]))
                if c[0] in ("chequer", "cube", "die", "resign"):
                    out.append({"w": where, "k": c[0], "a": c[1].get("player", c[1].get("id", "")), "d": "".join(map(str, c[2]))})
                visit(c)
            else:
                pairs.add((name, "#PCDATA"))
                if where is not None:
                    out.append({"w": where, "k": "#", "a": "", "d": c})
    visit(e)
    return out, sorted(pairs), sorted(frame), points, parity, actor[0]


def tree_job(job):
    recs = []
    t = base.ElementTree()
    for n, j in enumerate(job["boards"]):
        r = dict(op="tree", board=j, err="", items=[], printed=[], actor="", frame=[], points=[], parity=[], pairs=[], printedpairs=[], doctype=False, hist=n)
        try:
            b = board_of(j)
            if j.get("fresh"):
                t = base.ElementTree(b)
            else:
                t.set(b)
            r["items"], r["pairs"], r["frame"], r["points"], r["parity"], r["actor"] = items(walk(t.board))
            x = t.xml()
            r["printed"], r["printedpairs"] = items(scan(x))[:2]
            r["doctype"] = x.startswith("<?xml") and ("<!DOCTYPE board " in x) and items(scan(str(t)))[0] == r["printed"]
        except:
            r["err"] = errname()
        recs.append(r)
    return dict(trace=recs)
NO = 1000001


def styled(t):
    """the elements of a styled tree with the values their attributes have"""
    es, index = [], {}

    def num(e, a, default=NO):
        v = getattr(e, a, None)
        return v if isinstance(v, int) else default

    def s(e, a):
        v = getattr(e, a, None)
        return "" if v is None else str(v)

    def visit(path):
        e = path[-1]
        index[id(e)] = len(es) + 1
        texts = [c for c in e.children if not isinstance(c, base.BaseElement)]
        es.append(dict(kind=e.name, par=index[id(path[-2])] if len(path) > 1 else 0, d=texts[0] if texts else "", x=num(e, "x"), y=num(e, "y"), w=num(e, "width"), h=num(e, "height"),
                       xo=num(e, "x_offset", 0), yo=num(e, "y_offset", 0), xo2=num(e, "x_offset2", 0), yo2=num(e, "y_offset2", 0), eye=num(e, "eyesize"), max=num(e, "max_count"),
                       image=s(e, "image"), back=s(e, "background"), color=s(e, "color"), font=s(e, "font"), style=s(e, "diestyle"), text=s(e, "text"), initial=s(e, "initialCube"),
                       flip=bool(getattr(e, "flip", False)), fill=bool(getattr(e, "fill", True)), hide=bool(getattr(e, "hide_count", False))))
    t.visit(visit)
    return es


def call(c, p, s, t="", f="", k="", flip=False, pts=()):
    return dict(c=c, x=p[0], y=p[1], w=s[0], h=s[1], t=t, f=f, k=k, flip=flip, pts=[list(x) for x in pts])


class Broken(Exception):
    pass


PLAIN = [("text", 'draw_text "(?P<t>.*)" in (?P<s>.*) @ (?P<p>.*) with (?P<k>.*)$'), ("ellipse", "draw_ellipse (?P<s>.*), fill=(?P<fill>True|False) @ (?P<p>.*)$"),
         ("polygon", "draw_polygon (?P<pts>.*) fill=(?P<fill>True|False)$"), ("rect", "draw_rect (?P<s>.*), fill=(?P<fill>True|False) @ (?P<p>.*)$"),
         ("image", "paste_image (?P<t>.*) size=(?P<s>.*) with flip=(?P<flip>.*) @ (?P<p>.*)$")]


def plain_call(line):
    """what a line of the plain drawing says"""
    for c, pat in PLAIN:
        m = re.match(pat, line)
        if m:
            d = m.groupdict()
            num = lambda k: eval(d[k], {}) if k in d else (0, 0)
            k = d.get("k", "fill" if d.get("fill") == "True" else "")
            return call(c, num("p"), num("s"), t=d.get("t", ""), k=k, flip=d.get("flip") == "True", pts=eval(d["pts"], {}) if "pts" in d else ())
    return call("?" + line[:40], (0, 0), (0, 0))


def make_recorder():
    import bglib.image.draw as draw

    class Recorder(draw.Draw):
        broken = -1         # the device fails at this call

        def tick(self):
            if self.broken == 0:
                raise Broken()
            self.broken -= 1

        def draw_text(self, position, size, text, font_name, fill):
            self.tick()
            self.dc.append(call("text", position, size, str(text), str(font_name), str(fill)))

        def draw_ellipse(self, position, size, fill=None):
            self.tick()
            self.dc.append(call("ellipse", position, size, k=str(fill) if fill else ""))

        def draw_polygon(self, points, fill=None):
            self.tick()
            self.dc.append(call("polygon", (0, 0), (0, 0), k=str(fill) if fill else "", pts=points))

        def draw_rect(self, position, size, fill=None):
            self.tick()
            self.dc.append(call("rect", position, size, k=str(fill) if fill else ""))

        def load_image(self, uri, size, flip):
            self.tick()
            return (uri, tuple(size), flip)

        def paste_image(self, src, position, size):
            self.tick()
            if tuple(size) != src[1]:
                raise ValueError("image loaded in another size")
            self.dc.append(call("image", position, size, str(src[0]), flip=bool(src[2])))
    return Recorder, draw.Draw


def draw_job(job):
    Recorder, Plain = make_recorder()
    d = tempfile.mkdtemp()
    try:
        if job["sheet"]:
            path = os.path.join(os.environ["BGLIB_VERIF_SRC"], "bglib", "image", "resource", str(job["sheet"]), "default.css")
        else:
            path = os.path.join(d, "s.css")
            f = open(path, "w")
            f.write("".join(str(x) + "\n" for x in job["lines"]))
            f.close()
        rec, plain = Recorder(css.load(path)), Plain(css.load(path))
        out = []
        for n, w in enumerate(job["draws"]):
            r = dict(op="draw", err="", calls=[], plain=[], bound=w["bound"], exact=w["exact"], hist=n, es=[])
            try:
                b = board_of(w["board"])
                r["es"] = styled(Plain(css.load(path)).make_tree(b))
                if job["spoil"] and n % 2:      # a drawing that fails half way must not show in the next
                    rec.broken = n * 7 % 23 if n % 4 == 1 else n
                    try:
                        rec.draw(board_of(w["board"]), tuple(w["bound"]))
                    except Broken:
                        pass
                    rec.broken = -1
                r["calls"] = rec.draw(b, tuple(w["bound"]))
                r["plain"] = [plain_call(x) for x in plain.draw(b, tuple(w["bound"]))]
                for e in r["es"]:       # where the files lie does not matter
                    e["image"], e["font"] = [v.replace(os.path.dirname(path), "D") for v in (e["image"], e["font"])]
                for c in r["calls"] + r["plain"]:
                    c["t"], c["f"] = [v.replace(os.path.dirname(path), "D") for v in (c["t"], c["f"])]
            except:
                r["err"] = errname()
            out.append(r)
    finally:
        for n in os.listdir(d):
            os.remove(os.path.join(d, n))
        os.rmdir(d)
    return dict(trace=out)
