"""Ways to bring a project's text into the server, and what the truth says about it."""
import json

from . import corpus, core
from .corpus import u16


def pos_of(text, off):
    """LSP position of a Python string offset (line ends are LF, CRLF and CR)."""
    line = col = 0
    i = 0
    while i < off:
        ch = text[i]
        if ch == "\r" and i + 1 < len(text) and text[i + 1] == "\n":
            if i + 1 >= off:      # between CR and LF
                return {"line": line, "character": col}
            i += 2
            line, col = line + 1, 0
            continue
        if ch in "\r\n":
            line, col = line + 1, 0
        else:
            col += u16(ch)
        i += 1
    return {"line": line, "character": col}


def off_of(text, pos):
    """The offset of a position, whose line ends are LF or CRLF."""
    at = 0
    for _ in range(pos["line"]):
        at = text.index("\n", at) + 1
    n = 0
    while n < pos["character"]:
        n += 2 if ord(text[at]) > 0xffff else 1
        at += 1
    return at


def edit_path(r, a, b, ranged=True):
    """One incremental change which turns a into b (not inside a CRLF pair)."""
    if not ranged:
        return [{"text": b}]
    i = 0
    n = min(len(a), len(b))
    while i < n and a[i] == b[i]:
        i += 1
    j = 0
    while j < n - i and a[len(a) - 1 - j] == b[len(b) - 1 - j]:
        j += 1
    while i > 0 and a[i - 1] == "\r":
        i -= 1
    while j > 0 and a[len(a) - j] == "\n":
        j -= 1
    e = len(a) - j
    return [{"range": {"start": pos_of(a, i), "end": pos_of(a, e)}, "text": b[i:len(b) - j]}]


def scramble(r, text):
    """A text which differs from `text`: lines removed, doubled, or replaced."""
    lines = text.split("\n")
    for _ in range(r.randrange(1, 4)):
        i = r.randrange(len(lines))
        k = r.random()
        if k < .4:
            del lines[i:i + r.randrange(1, 4)]
        elif k < .7:
            lines.insert(i, "class Zz%d { function y() {} }" % r.randrange(99))
        else:
            lines[i:i + 1] = ["// é😀 note", lines[i]]
        if not lines:
            lines = [""]
    return "\n".join(lines)


OLD = "<?php\nclass OldText { public function oldOne() {} }\nfunction old_text_fn() {}\n"


class World:
    """A session which holds a generated project."""

    def __init__(self, box, r, project, modes=("disk", "watch", "open", "edit"), restart=0.0, handlers=None):
        self.box, self.r, self.P = box, r, project
        self.ws = box.fresh_ws()
        self.s = s = box.session(handlers=handlers)
        self.how = {}
        self.opened = {}
        later = []
        for f in project.files.values():
            m = r.choice(modes)
            self.how[f.rel] = m
            if m == "disk":
                s.write(f.rel, f.text)
            elif m == "watch":
                if r.random() < .5:
                    s.write(f.rel, OLD.replace("OldText", "OldText%d" % len(later)))
                later.append(f)
            else:
                if r.random() < .6:
                    s.write(f.rel, r.choice([OLD, scramble(r, f.text), f.text]))
                later.append(f)
        s.start()
        r.shuffle(later)
        for f in later:
            m = self.how[f.rel]
            u = s.uri(f.rel)
            if m == "watch":
                import os
                there = os.path.exists(os.path.join(self.ws, f.rel))
                s.write(f.rel, f.text)
                s.watch((u, 2 if there else 1))
            elif m == "open":
                s.open(u, f.text)
                self.opened[f.rel] = f.text
            else:
                t = r.choice([OLD, scramble(r, f.text), scramble(r, f.text)])
                s.open(u, t)
                for _ in range(r.randrange(0, 2)):
                    t2 = scramble(r, f.text)
                    s.change(u, edit_path(r, t, t2, r.random() < .8))
                    t = t2
                s.change(u, edit_path(r, t, f.text, r.random() < .8))
                self.opened[f.rel] = f.text
        s.settle()
        if r.random() < restart:
            self.restart()

    def restart(self):
        """Orderly restart; open documents are opened again, as editors do."""
        s = self.s
        for rel, text in self.opened.items():
            s.write(rel, text)
            if self.r.random() < .5:
                s.close(s.uri(rel))
        self.opened = {rel: t for rel, t in self.opened.items() if self.r.random() < .5}
        s.settle()
        probs = s.finish(drop=False)
        s.start()
        for rel, text in self.opened.items():
            s.open(s.uri(rel), text)
        s.settle()
        return probs

    def line(self, rel, l):
        return corpus.lsp_lines(self.P.files[rel].text)[l]

    def end(self, c):
        for a in self.s.finish():
            c.violate("wire", a)


def locs(res):
    return sorted((x["uri"], json.dumps(x["range"], sort_keys=True)) for x in (res or []))


def expected_locs(s, ents):
    from .phpgen import lsp_range
    return sorted((s.uri(t.file), json.dumps(lsp_range(t.span), sort_keys=True)) for t in ents)
