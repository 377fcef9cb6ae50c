"""D01-D08: downloads, dataset tables, dataset items, identifier remapping, splits, adjacency helpers, preprocessing."""
import ast
import re

from .. import terms as tm
from ..interp import Undecided, V
from ..repo import AnalysisBroken
from ..spec import Comparer, observe, ref_func
from ..structs import SInterp, state, sym_args
from ..spec import _setup_free
from ..terms import N, NONE, S

ASSUME = ["torch, numpy, pathlib and hashlib operations mean what sa/ops.py says; operations it does not list are compared by name and arguments"]
DL = "dhg.utils.download"

# ------------------------------------------------------------------------------------------------------------ D01
WRITES = {"unlink", "rename", "replace", "write_bytes", "write_text", "touch", "symlink_to", "hardlink_to", "link_to", "rmdir"}
WRITE_EXT = ("shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.copyfileobj", "os.rename", "os.replace", "os.remove", "os.unlink", "os.link", "os.symlink")


EMPTY = ("const", repr(b""))


def pieces(t):
    """The data of a concatenation, in order."""
    if t[0] == "concat" or t[0] == "add" and len(t) == 3:
        xs = [x for a in t[1:] for x in pieces(a)]
        return sorted(xs) if t[0] == "add" else xs
    return [t]


class FileWorld:
    """Versions of the target file along a path: every operation that can change it starts a new version."""

    def __init__(self, path):
        self.path = path

    def touches(self, terms):
        return any(tm.contains(t, lambda z: z == self.path) for t in terms if isinstance(t, tuple))

    def version(self, st):
        return sum(1 for e in st.events if e[0] in ("fwrite", "fdelete") or e[0] == "except")

    def present(self, st):
        """Known existence: True after a write, False after a deletion, None otherwise."""
        for e in reversed(st.events):
            if e[0] == "fwrite":
                return True if e[1] == "open" else None
            if e[0] == "fdelete":
                return False
            if e[0] == "except":
                return None
        return None

    def install(self, I):
        I.hook_mcall = self.mcall
        for n in WRITE_EXT:
            I.hooks_ext[n] = self.writer(n)
        I.hooks_ext["builtins.open"] = self.open
        for n in ("os.path.exists", "os.path.isfile"):
            I.hooks_ext[n] = lambda I, a, kw, st, node: self.exists(st, a[0]) if a and self.touches([st.term(a[0])]) and st.term(a[0]) == self.path else None
        I.hooks_ext["hashlib.md5"] = lambda I, a, kw, st, node: self.md5(a, st) if not set(kw) - {"usedforsecurity"} else None
        I.hooks_ext["hashlib.new"] = lambda I, a, kw, st, node: self.md5(a[1:], st) if a and st.term(a[0]) == S("md5") else None
        I.hooks_ext["hashlib.file_digest"] = self.file_digest
        I.hooks_ext["builtins.iter"] = self.iter
        I.hook_iter = self.lines

    def exists(self, st, v):
        p = self.present(st)
        return [(V(("b", p) if p is not None else ("fexists", self.path, N(self.version(st)))), st)]

    # reading: the content is two chunks; a handle's position is the number of reads of it so far
    def rest(self, h, st):
        k = sum(1 for e in st.events if e[0] == "fread" and e[1] == h)
        if any(e[0] == "freadall" and e[1] == h for e in st.events):
            k = 2
        return [("chunk",) + h[1:3] + (N(i),) for i in range(k, 2)]

    def read(self, h, n, st):
        r = self.rest(h, st)
        if n in (NONE, N(-1)):
            st.ev("freadall", h)
            t = ("fcontent",) + h[1:3] if len(r) == 2 else r[0] if r else EMPTY
        else:
            st.ev("fread", h)
            t = r[0] if r else EMPTY
        if t[0] == "chunk":
            # what a chunked read returns before the end of the file is not empty
            st.fact(("truth", t), True)
            st.fact(tm.eq(t, EMPTY), False)
            st.fact(tm.lt(N(0), ("len", t)), True)
            st.fact(tm.eq(("len", t), N(0)), False)
        return V(t)

    def iter(self, I, a, kw, st, node):
        if len(a) != 2 or st.term(a[1]) != EMPTY:
            return None
        items = []
        for _ in range(8):
            rs = I.call(a[0], [], {}, st, node)
            if len(rs) != 1:
                return None
            v, st = rs[0]
            t = st.term(v)
            if t == EMPTY:
                return [(I.lst(items), st)]
            items.append(v)
        return None

    def lines(self, I, it, st):
        if it.t is not None and it.t[0] == "fhandle":
            xs = self.rest(it.t, st)
            st.ev("freadall", it.t)
            return I.lst([V(x) for x in xs])
        return None

    def md5(self, a, st):
        k = sum(1 for e in st.events if e[0] == "hnew")
        st.ev("hnew")
        if a:
            st.ev("hup", k, st.term(a[0]))
        return [(V(("md5", N(k))), st)]

    def file_digest(self, I, a, kw, st, node):
        h = st.term(a[0]) if a else NONE
        f = st.term(a[1]) if len(a) > 1 else NONE
        if h[0] != "fhandle" or f not in (S("md5"), ("ext", "hashlib.md5")):
            return None
        return self.md5([self.read(h, NONE, st)], st)

    def digest(self, k, st):
        ps = [x for e in st.events if e[0] == "hup" and e[1] == k for x in pieces(e[2])]
        for x in ps:
            if x[0] == "chunk" and ps == [x[:3] + (N(i),) for i in range(2)]:
                ps = [("fcontent",) + x[1:3]]
        ps = [x for x in ps if x != EMPTY]
        return ("call", "hashlib.md5", ps[0] if len(ps) == 1 else ("partial",) + tuple(ps))

    def mcall(self, I, v, name, args, kw, st, node):
        t = v.t
        if t is not None and t[0] == "fhandle":
            if name == "read":
                return [(self.read(t, st.term(args[0]) if args else NONE, st), st)]
            if name in ("close", "__enter__", "__exit__"):
                return None
            if name in ("readinto", "readline", "readlines", "seek"):
                raise Undecided("file." + name)
        if t is not None and t[0] == "md5" and isinstance(t[1], tuple):
            k = int(t[1][1])
            if name == "update" and len(args) == 1:
                st.ev("hup", k, st.term(args[0]))
                return [(V(NONE), st)]
            if name in ("hexdigest", "digest") and not args:
                return [(V(("mcall", self.digest(k, st), name)), st)]
            raise Undecided("md5." + name)
        if t == EMPTY and name == "join" and len(args) == 1:
            xs = I.concrete_iter(st.cur(args[0]), st)
            if xs is not None:
                return [(V(("concat",) + tuple(st.term(x) for x in xs)), st)]
        if t != self.path:
            if name in WRITES and any(st.term(a) == self.path for a in args):
                st.ev("fwrite", name)
            return None
        if name in ("exists", "is_file"):
            return self.exists(st, v)
        if name == "unlink":
            st.ev("fdelete", name)
            return [(V(NONE), st)]
        if name in WRITES:
            st.ev("fwrite", name)
            return None
        if name == "open":
            return self.open(I, [v] + list(args), kw, st, node)
        if name in ("read_bytes",):
            return [(V(("fcontent", self.path, N(self.version(st)))), st)]
        return None

    def writer(self, n):
        def hook(I, a, kw, st, node):
            if self.touches([st.term(x) for x in list(a) + list(kw.values())]):
                st.ev("fdelete" if n in ("os.remove", "os.unlink") else "fwrite", n)
            return None
        return hook

    def open(self, I, a, kw, st, node):
        if not a or st.term(a[0]) != self.path:
            return None
        m = a[1] if len(a) > 1 else kw.get("mode")
        m = st.term(m) if m is not None else S("r")
        if m[0] != "s" or set(m[1]) & set("wax+"):
            st.ev("fwrite", "open", m[1] if m[0] == "s" else None)
            return [(V(("fout", self.path, N(self.version(st)))), st)]
        n = sum(1 for e in st.events if e[0] == "fopen")
        st.ev("fopen")
        return [(V(("fhandle", self.path, N(self.version(st)), N(n))), st)]


def d01(chk):
    repo = chk.repo
    chk.rule("R1", "every path on which download_and_check returns has compared the md5 of the current version of the file with the expected md5 and found them equal")
    chk.rule("R2", "a file whose md5 differs is deleted before the error leaves, so that the next attempt downloads again")
    chk.rule("R3", "check_file compares the md5 of the whole content; a missing file is an error")
    chk.rule("R4", "a dataset loads a file only after download_and_check was called with that path and the md5 of the same table entry")
    chk.rule("R5", "download_file rejects a failed response before it touches the file and writes every chunk of the response of the requested url; the retry wrapper returns only what the wrapped function returned")
    p, m = ("param", "file_path"), ("param", "md5")
    dc = repo.func(DL + ".download_and_check")
    w = FileWorld(p)
    I = SInterp(repo, maxstates=3000)
    w.install(I)
    st, a, kw = _setup_free(I, dc, {})
    nret = 0
    try:
        outs = I.run(dc, a, kw, st)
    except Undecided as e:
        chk.und("download_and_check", str(e))
        outs = []
    chk.analysed |= I.inlined
    for k, v, s in outs:
        cmps = []
        for c in s.order:
            if c[0] == "eq" and m in c[1:] and tm.contains(c, lambda z: z[0] == "call" and z[1] == "hashlib.md5"):
                vs = {z[2] for z in tm.walk(c) if z[0] == "fcontent" and z[1] == p}
                cmps.append((c, s.facts[c], vs))
        cur = N(w.version(s))
        path = "; ".join(("" if s.facts[c] else "not ") + tm.show(c, 60) for c in s.order if c[0] != "isinstance")[-400:]
        if k == "ret":
            nret += 1
            if not any(b and cur in vs for c, b, vs in cmps):
                why = "no comparison with the expected md5" if not cmps else "the last comparison " + ("failed" if not cmps[-1][1] else "was made before the file changed again")
                chk.finding("R1", "download_and_check", dc.loc, f"returns although the file was not verified: {why} (path: {path})")
            else:
                chk.discharge("download_and_check: verified before return on path " + path[-120:])
        else:
            bad = [c for c, b, vs in cmps if not b and cur in vs]
            if bad:
                chk.finding("R2", "download_and_check", dc.loc, f"a corrupt file is left in place when the error leaves (path: {path})")
            elif cmps:
                chk.discharge("download_and_check: corrupt file removed")
        chk.count("paths")
    if outs:
        chk.floor("paths", 4)
        if not nret:
            chk.finding("R1", "download_and_check/returns", dc.loc, "no path returns: a valid file is never accepted")
    # a present file with the right checksum is accepted without touching it, a missing one is fetched
    fresh = [s for k, v, s in outs if k == "ret" and any(e[0] == "call" and str(e[1]).startswith("requests.") for e in s.events)]
    kept = [s for k, v, s in outs if k == "ret" and not any(e[0] in ("fwrite", "fdelete") for e in s.events)]
    for nm, xs in (("a missing file is downloaded and accepted", fresh), ("a valid file on disk is accepted as it is", kept)):
        if outs and not xs:
            chk.finding("R1", "download_and_check/" + nm, dc.loc, "no path does: " + nm)
        elif outs:
            chk.discharge("download_and_check: " + nm)
    # a failing primary mirror is replaced by the backup; a file on disk is never downloaded again
    roots = {}
    for nm in ("REMOTE_DATASETS_ROOT", "BACKUP_REMOTE_DATASETS_ROOT"):
        try:
            f = ref_func(repo, f"from dhg._global import {nm}\ndef ref():\n    return {nm}\n", None)
            I2, _, o2 = Comparer(chk).outcomes(f, None, {}, ())
            roots[nm] = observe(I2, o2[0][2], o2[0][1])
        except (Undecided, IndexError, AnalysisBroken) as e:
            chk.und("mirror roots", str(e))
    if len(roots) == 2 and outs:
        prim, back = roots["REMOTE_DATASETS_ROOT"], roots["BACKUP_REMOTE_DATASETS_ROOT"]
        gets = [(s, [e for e in s.events if e[0] == "call" and e[1] == "requests.get"]) for k, v, s in outs if k == "ret"]
        if not any(any(tm.contains(e[2], lambda z: z == back) and tm.contains(e[2], lambda z: z == ("param", "url")) for e in g) for s, g in gets):
            chk.finding("R5", "download_and_check/mirror", dc.loc, "the backup mirror is not tried when the primary download fails")
        else:
            chk.discharge("download_and_check: backup mirror tried after a failed download")
        if not any(g and not any(e[0] == "except" or e[0] == "fwrite" and e[1] != "open" for e in s.events) for s, g in gets):
            chk.finding("R5", "download_and_check/plain", dc.loc, "no path downloads a file that is missing both in the cache and in the legacy cache")
        else:
            chk.discharge("download_and_check: missing file downloaded")
    for k, v, s in outs:
        n = 0
        for e in s.events:
            if e[0] == "fwrite" and e[1] == "open":
                if s.facts.get(("truth", ("fexists", p, N(n)))):
                    chk.finding("R5", "download_and_check/overwrite", dc.loc, "downloads although the file is on disk")
            n += e[0] in ("fwrite", "fdelete", "except")
    for s in fresh:
        for e in s.events:
            if e[0] == "call" and e[1] == "requests.get" and not tm.contains(e[2], lambda z: z == ("param", "url")):
                chk.finding("R5", "download_and_check", dc.loc, f"downloads {tm.show(e[2], 120)} instead of the requested url")
    # check_file
    C = Comparer(chk)
    C.tweak = lambda I: FileWorld(p).install(I)
    C.compare("R3", "check_file", None, repo.func(DL + ".check_file"), """
def ref(file_path, md5):
    if not file_path.exists():
        raise FileNotFoundError
    with open(file_path, "rb") as f:
        data = f.read()
    return hashlib.md5(data).hexdigest() == md5
""", extra="import hashlib\n")
    download_file_check(chk, p)
    retry_check(chk)
    migrate_check(chk, p)
    datasets_check(chk)


def download_file_check(chk, p):
    """The response body, modelled as two chunks of unknown (possibly empty) content, reaches the file completely and in order."""
    repo = chk.repo
    df = repo.func(DL + ".download_file")
    I = SInterp(repo)
    w = FileWorld(p)
    w.install(I)
    file_mcall = I.hook_mcall
    chunks = [("param", "chunk0"), ("param", "chunk1")]

    def mcall(I, v, name, args, kw, st, node):
        t = st.term(v)
        if name in ("iter_content", "iter_lines") and t and tm.contains(t, lambda z: z[0] == "call" and z[1] == "requests.get"):
            return [(I.lst([V(c) for c in chunks]), st)]
        if name == "write" and t and t[0] == "fout":
            st.ev("fdata", st.term(args[0]) if args else None)
            return [(V(NONE), st)]
        return file_mcall(I, v, name, args, kw, st, node)
    I.hook_mcall = mcall
    st, a, kw = _setup_free(I, df, {})
    try:
        outs = I.run(df, a, kw, st)
    except Undecided as e:
        chk.und("download_file", str(e))
        return
    chk.analysed |= I.inlined
    got = 0
    for k, v, s in outs:
        status = [(c, s.facts[c]) for c in s.order if tm.contains(c, lambda z: z[0] == "attr" and z[-1] in ("status_code", "ok"))]
        raised = any(e[0] == "mcall" and "raise_for_status" in e for e in s.events)
        if k != "ret":
            if any(e[0] in ("fwrite", "fdelete") for e in s.events):
                chk.finding("R5", "download_file/write", df.loc, "the file is touched although the response failed")
            else:
                chk.discharge("download_file: failed response leaves the file alone")
            continue
        got += 1
        if not status and not raised:
            chk.finding("R5", "download_file/status", df.loc, "the response status is not examined before its body is stored")
        elif any(c[0] == "eq" and any(z[0] == "n" and ((z[1] != 200) == b) for z in c[1:] if isinstance(z, tuple)) for c, b in status):
            c = next(c for c, b in status if c[0] == "eq")
            chk.finding("R5", "download_file/status", df.loc, f"the body of a response is stored although {'' if s.facts[c] else 'not '}{tm.show(c, 100)}")
        elif not any(e[0] == "fwrite" for e in s.events):
            chk.finding("R5", "download_file/write", df.loc, "returns without writing the file")
        else:
            modes = [e[2] for e in s.events if e[0] == "fwrite" and e[1] == "open" and len(e) > 2 and isinstance(e[2], str)]
            for m in modes:
                if "b" not in m or not set(m) & set("wx") or set(m) - set("wxb+"):
                    chk.finding("R5", "download_file/mode", df.loc, f"the file is opened with mode {m!r}, a binary body cannot be stored faithfully")
            data = [e[1] for e in s.events if e[0] == "fdata"]
            if not modes or any(d is None or not (d in chunks) for d in data):
                if any(d is not None and tm.contains(d, lambda z: z[0] == "attr" and z[-1] == "content") for d in data) or not modes or not data:
                    if not data and modes and any(e[0] == "call" and "copyfileobj" in str(e[1]) for e in s.events):
                        chk.und("download_file", "body copied with copyfileobj")
                        continue
            want = [c for c in chunks if s.facts.get(("truth", c)) is not False]
            have = [d for d in data if s.facts.get(("truth", d)) is not False]
            if have == want or any(d is not None and tm.contains(d, lambda z: z[0] == "attr" and z[-1] == "content") for d in data) and len(data) == 1:
                chk.discharge("download_file: status examined, body written completely and in order")
            elif any(d is None or d not in chunks for d in data):
                chk.und("download_file", "writes " + ", ".join(tm.show(d, 60) for d in data if d is not None))
            else:
                chk.finding("R5", "download_file/body", df.loc, f"of the body chunks {[c[1] for c in want]} the file receives {[d[1] for d in have]}")
    if outs and not got:
        chk.finding("R5", "download_file/returns", df.loc, "no path returns")


def retry_check(chk):
    """_retry(n): returns what the wrapped function returned, after 0, 1, ..., n-1 failed attempts."""
    repo = chk.repo
    C = Comparer(chk)
    rt = repo.modules[DL].defs.get("_retry")
    if rt is None or rt[0] != "func":
        return
    f = rt[1]
    src = "from dhg.utils.download import _retry\ndef ref(fetch, x, y):\n    return _retry({n})(fetch)(x, key=y)\n"
    call = ("apply", ("param", "fetch"), ("param", "x"), ("kw", ("key", ("param", "y"))))
    for n in (1, 2, 3):
        try:
            I, _, outs = C.outcomes(ref_func(repo, src.format(n=n), None), None, {}, ())
        except Undecided as e:
            chk.und(f"_retry({n})", str(e))
            continue
        caught = set()
        for k, v, s in outs:
            if k != "ret":
                continue
            t = observe(I, s, v)
            app = [z for z in tm.walk(t) if z[0] == "apply" and z[1] == ("param", "fetch")]
            if not app:
                chk.finding("R5", f"_retry({n})", f.loc, f"returns {tm.show(t, 100)} instead of the result of the wrapped function")
            elif not tm.contains(t, lambda z: z == ("param", "x")) or not tm.contains(t, lambda z: z == ("param", "y")):
                chk.finding("R5", f"_retry({n})/arguments", f.loc, f"calls the wrapped function as {tm.show(t, 100)}, not with the given arguments")
            else:
                caught.add(sum(1 for c in s.order if c[0] == "exc"))
                chk.discharge(f"_retry({n}) returns the wrapped result")
        if outs and caught != set(range(n)):
            chk.finding("R5", f"_retry({n})/attempts", f.loc, f"succeeds after {sorted(caught)} failed attempts, {n} attempts were asked for")


def migrate_check(chk, p):
    """A legacy cache entry only ever moves from the legacy location to the new one, and only if it exists."""
    repo = chk.repo
    d = repo.modules[DL].defs.get("_try_migrate_from_legacy_cache")
    if d is None or d[0] != "func":
        return
    f = d[1]
    C = Comparer(chk)
    C.tweak = lambda I: FileWorld(p).install(I)
    try:
        I, _, outs = C.outcomes(f, None, {}, ())
    except Undecided as e:
        chk.und("legacy cache", str(e))
        return
    ok = 0
    for k, v, s in outs:
        if k != "ret":
            continue
        for e in s.events:
            if e[0] == "call" and e[1] in ("shutil.move", "os.rename", "os.replace", "shutil.copy", "shutil.copyfile"):
                a = e[2]
                if len(a) < 2:
                    continue
                if a[1] != p or a[0] == p:
                    chk.finding("R5", "legacy cache/move", f.loc, f"moves {tm.show(a[0], 80)} to {tm.show(a[1], 80)}")
                elif any(b is False and tm.contains(c, lambda z: z == a[0]) and tm.contains(c, lambda z: "exists" in z or z[0] == "fexists") for c, b in s.facts.items()):
                    chk.finding("R5", "legacy cache/move", f.loc, "moves a legacy file that is known to be missing")
                else:
                    ok += 1
    if outs and not ok:
        chk.finding("R5", "legacy cache/none", f.loc, "no path takes over a file from the legacy cache")
    elif outs:
        chk.discharge("legacy cache: moved from the legacy location only when present")


def verified(I, func, args, kw, st, node):
    """Stub of download_and_check: records what was verified; raises are the other outcome."""
    ps = func.params()
    full = dict(zip(ps, args), **kw)
    st.ev("verified", st.term(full["file_path"]) if "file_path" in full else None, st.term(full["md5"]) if "md5" in full else None, st.term(full.get("url")) if full.get("url") is not None else None)
    return [(V(("b", True)), st)]


def item(md5s, loader="loader", extra=""):
    ups = ", ".join("{'filename': fn%d, 'md5': md%d%s}" % (i, i, ", 'bk_url': bk%d" % i if b else "") for i, b in enumerate(md5s))
    return "{'upon': [%s], 'loader': %s%s}" % (ups, loader, extra)


def params(n, bk):
    return "".join(f", fn{i}, md{i}" + (f", bk{i}" if bk[i] else "") for i in range(n))


DATA_IMPORTS = "from dhg.data import BaseData\nfrom dhg.datapipe import compose_pipes\nfrom pathlib import Path\n"


def datasets_check(chk):
    repo = chk.repo
    cls = repo.cls("BaseData")
    q = repo.func(DL + ".download_and_check").qual
    for bk in ([False], [True], [False, False], [True, False]):
        for root in ("root", "None"):
            n = len(bk)
            src = f"def ref(root, loader{params(n, bk)}):\n    d = BaseData('name', {root})\n    d._content['x'] = {item(bk)}\n    return d['x']\n"
            C = Comparer(chk)

            def tweak(I):
                I.intercept[q] = verified
            C.tweak = tweak
            name = f"BaseData['x'] with {n} file(s){', own url' if any(bk) else ''}{', default root' if root == 'None' else ''}"
            try:
                given = [(tm.eq(("param", x), NONE), False) for x in ("root", "loader") + tuple(f"{p}{i}" for i in range(n) for p in ("fn", "md", "bk"))]
                I, _, outs = C.outcomes(ref_func(repo, src, None, extra=DATA_IMPORTS), None, {}, given)
            except Undecided as e:
                chk.und(name, str(e))
                continue
            for k, v, s in outs:
                if k != "ret":
                    chk.finding("R4", name, cls.loc, f"a well-formed item cannot be read ({v})")
                    continue
                t = observe(I, s, v)
                calls = [z for z in tm.walk(t) if z[0] == "apply" and z[1] == ("param", "loader")]
                if not calls:
                    chk.finding("R4", name, cls.loc, f"the item is {tm.show(t, 100)}, not the loader's result")
                    continue
                ver = [(e[1], e[2], e[3]) for e in s.events if e[0] == "verified"]
                first = next((i for i, e in enumerate(s.events) if e[0] in ("apply", "call") and e[1] == ("param", "loader")), None)
                early = [e for e in s.events[first:] if e[0] == "verified"] if first is not None else []
                paths = [p for p in load_paths(calls[0][2:])]
                ok = True
                if len(paths) != n:
                    chk.finding("R4", name, cls.loc, f"the loader receives {len(paths)} paths for {n} files")
                    ok = False
                for i, pth in enumerate(paths):
                    if not tm.contains(pth, lambda z: z == ("param", f"fn{i}")):
                        chk.finding("R4", name, cls.loc, f"path {i} given to the loader is not that of file {i}: {tm.show(pth, 100)}")
                        ok = False
                    if root == "root" and not tm.contains(pth, lambda z: z == ("param", "root")):
                        chk.finding("R4", name, cls.loc, f"the file is loaded from {tm.show(pth, 100)}, outside the configured root")
                        ok = False
                    mine = [(m, u) for p, m, u in ver if p == pth]
                    if ("param", f"md{i}") not in [m for m, u in mine]:
                        chk.finding("R4", name, cls.loc, f"file {i} is loaded from {tm.show(pth, 80)} without verifying its own md5 (verified: {[(tm.show(a, 60), tm.show(b, 20)) for a, b, _ in ver]})")
                        ok = False
                    elif any(p == pth and m == ("param", f"md{i}") for _, p, m, _ in early):
                        chk.finding("R4", name, cls.loc, f"file {i} is verified only after it was loaded")
                        ok = False
                    for m, u in mine:
                        wanted = ("param", f"bk{i}") if bk[i] else ("param", f"fn{i}")
                        if u is None or not tm.contains(u, lambda z: z == wanted):
                            chk.finding("R4", name, cls.loc, f"file {i} is fetched from {tm.show(u, 100)}")
                            ok = False
                if ok:
                    chk.discharge(name + ": verified, then loaded")
            chk.count("dataset_items")
    chk.floor("dataset_items", 8)


def load_paths(args):
    if not args:
        return []
    a = args[0]
    if a[0] == "list":
        return list(a[1:])
    return [a]


# ------------------------------------------------------------------------------------------------------------ D02
def documented(cls):
    """Items listed in the class docstring: name -> (number or None, type or None)."""
    doc = ast.get_docstring(cls.node) or ""
    out = {}
    for m in re.finditer(r"^\s*-\s*``(\w+)``\s*:\s*(.*)$", doc, re.M):
        name, rest = m.group(1), m.group(2)
        num = re.search(r":math:`([\d,]+)`", rest)
        ty = re.search(r"``torch\.(\w*Tensor)``", rest)
        out[name] = (int(num.group(1).replace(",", "")) if num and num.group(1).strip(",") else None, ty.group(1) if ty else None)
    return out


CONV = {"LongTensor": "dhg.datapipe.common.to_long_tensor", "BoolTensor": "dhg.datapipe.common.to_bool_tensor", "Tensor": "dhg.datapipe.common.to_tensor"}


def content_of(I, s, v):
    v = s.cur(v)
    o = s.objs[v.t[1]]
    c = o.fields.get("_content")
    if c is None:
        ds = [x for x in o.fields.values() if s.cur(x).map is not None and s.cur(x).map]
        c = ds[0] if len(ds) == 1 else None
    return o, (s.cur(c) if c is not None else None)


def d02(chk):
    repo = chk.repo
    chk.rule("R1", "every loadable item lists at least one file with a name and a 32-digit md5, and a loader and preprocessors that accept what they are given")
    chk.rule("R2", "two items of one dataset that name the same file agree on its md5; dataset directories are distinct")
    chk.rule("R3", "the items of the table are the documented ones, with the documented sizes and tensor types")
    base = repo.cls("BaseData")
    roots = {}
    for cls in sorted(repo.subclasses(base), key=lambda c: c.qual):
        if cls is base:
            continue
        chk.count("datasets")
        I = SInterp(repo)
        st = state(cls.module)
        try:
            from ..interp import ClsRef
            outs = I.call(V(("cls", cls.qual), py=ClsRef(cls)), [], {}, st, cls.node)
        except Undecided as e:
            chk.und(cls.name, str(e))
            continue
        chk.analysed |= I.inlined
        if len(outs) != 1:
            chk.und(cls.name, f"{len(outs)} construction paths")
            continue
        v, s = outs[0]
        o, c = content_of(I, s, v)
        if c is None or c.map is None or c.base is not None:
            chk.und(cls.name, "the content table is not a literal")
            continue
        nm = o.fields.get("name")
        nm = s.term(nm) if nm is not None else None
        if nm in roots and nm is not None:
            chk.finding("R2", f"{cls.name}/directory", cls.loc, f"shares its directory {tm.show(nm)} with {roots[nm]}")
        roots[nm] = cls.name
        files = {}
        names = {}
        for k, x in c.map:
            if k[0] != "s":
                chk.und(cls.name, "item name is not a constant")
                continue
            names[k[1]] = s.cur(x)
        for name, x in names.items():
            key = f"{cls.name}['{name}']"
            chk.count("items")
            if x.map is None:
                t = s.term(x)
                doc = documented(cls).get(name)
                if doc and doc[0] is not None:
                    if t[0] == "n" and t[1] != doc[0]:
                        chk.finding("R3", f"{key} = {t[1]} where {doc[0]} is documented", cls.loc, "the size in the table contradicts the documentation")
                    else:
                        chk.discharge(f"{key} = {doc[0]}")
                continue
            d = {k[1]: s.cur(y) for k, y in x.map if k[0] == "s"}
            miss = [z for z in ("upon", "loader") if z not in d]
            if miss:
                chk.finding("R1", key, cls.loc, f"has no {' and no '.join(miss)}, so reading it returns the table entry instead of the data")
                continue
            up = d["upon"]
            if up.items is None:
                chk.und(key, "file list is not a literal")
                continue
            if not up.items:
                chk.finding("R1", key, cls.loc, "lists no file")
            bad = False
            for f in up.items:
                f = s.cur(f)
                if f.map is None:
                    chk.finding("R1", key, cls.loc, "a file entry is not a table")
                    bad = True
                    continue
                e = {k[1]: s.term(y) for k, y in f.map if k[0] == "s"}
                fn, md = e.get("filename"), e.get("md5")
                if fn is None or md is None:
                    chk.finding("R1", key, cls.loc, f"a file entry has no {'filename' if fn is None else 'md5'}")
                    bad = True
                    continue
                if fn[0] == "s" and (not fn[1] or fn[1].strip() != fn[1]):
                    chk.finding("R1", key, cls.loc, f"file name {fn[1]!r}")
                    bad = True
                if md[0] == "s" and not re.fullmatch(r"[0-9a-f]{32}", md[1]):
                    chk.finding("R1", key, cls.loc, f"md5 {md[1]!r} of {tm.show(fn)} can never match: a hex digest has 32 lower-case digits")
                    bad = True
                if fn in files and files[fn][0] != md:
                    chk.finding("R2", key, cls.loc, f"file {tm.show(fn)} has a different md5 than in item '{files[fn][1]}'")
                    bad = True
                files.setdefault(fn, (md, name))
            arg = V(("param", "path")) if len(up.items) == 1 else I.lst([V(("param", f"path{i}")) for i in range(len(up.items))])
            r = applies(I, d["loader"], arg, s, cls)
            if r:
                chk.finding("R1", key, cls.loc, "its loader cannot be called with the file: " + r)
                bad = True
            pre = d.get("preprocess")
            pv = None
            if pre is not None and s.term(pre) != NONE:
                if pre.items is None:
                    chk.und(key, "preprocessors are not a literal list")
                else:
                    for i, p in enumerate(pre.items):
                        r = applies(I, s.cur(p), V(("param", "data")), s, cls)
                        if r:
                            chk.finding("R1", key, cls.loc, f"preprocessor {i} cannot be called with the data: {r}")
                            bad = True
                    pv = [fn_qual(s.cur(p)) for p in pre.items]
            doc = documented(cls).get(name)
            if doc and doc[1] in CONV and not bad:
                convs = [q for q in pv or [] if q in CONV.values()]
                if convs and convs[-1] != CONV[doc[1]]:
                    chk.finding("R3", key, cls.loc, f"documented as torch.{doc[1]}, converted with {convs[-1].split('.')[-1]}")
                    bad = True
            if not bad:
                chk.discharge(key + ": complete")
        docs = documented(cls)
        if docs:
            for n in docs:
                if n not in names:
                    chk.finding("R3", f"{cls.name}['{n}']", cls.loc, "documented item is not in the content table")
            for n in names:
                if n not in docs:
                    chk.und(f"{cls.name}['{n}']", "item is not documented")
        for n, x in names.items():
            if x.map is None and s.term(x)[0] == "n" and s.term(x)[1] < 0:
                chk.finding("R3", f"{cls.name}['{n}']", cls.loc, "negative size")
    chk.floor("datasets", 25)
    chk.floor("items", 150)


def fn_qual(v):
    p = v.py
    for _ in range(3):
        f = getattr(p, "func", None)
        if f is None:
            break
        if hasattr(f, "qual"):
            return f.qual
        p = getattr(f, "py", f)
    t = v.t
    if t is not None:
        for z in tm.walk(t):
            if z[0] == "fn":
                return z[1]
    return None


def applies(I, f, arg, s, cls):
    s2 = s.copy()
    n0 = len(s2.events)
    I.sinks.append([])
    try:
        outs = I.call(f, [arg], {}, s2, cls.node)
    except Undecided:
        I.sinks.pop()
        return None
    raised = I.sinks.pop()
    if outs:
        return None
    return "; ".join(sorted({f"raises {n}" for n, _ in raised})) or "no path returns"


# ------------------------------------------------------------------------------------------------------------ D03
PRE = DATA_IMPORTS + """
class Data:
    def __init__(self, src, tag):
        self.src = src
        self.tag = tag
class Log:
    def __init__(self):
        self.calls = []
"""

# history over one dataset -> the result every implementation must give
HISTORIES = [
    ("item read, raw read, read again", """
    def pre(x):
        log.calls.append("pre")
        return Data(x, "pre")
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load, "preprocess": [pre]}
    a, b, e, f = d["x"], d.raw("x"), d["x"], d.raw("x")
    return a is e, b is f, a.tag, a.src is b, b.tag, log.calls
""", '(True, True, "pre", True, "raw", ["load", "pre"])'),
    ("raw read first", """
    def pre(x):
        log.calls.append("pre")
        return Data(x, "pre")
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load, "preprocess": [pre]}
    b, a, f = d.raw("x"), d["x"], d.raw("x")
    return b is f, a.src is b, a.tag, b.tag, log.calls
""", '(True, True, "pre", "raw", ["load", "pre"])'),
    ("three preprocessors", """
    def p(tag):
        def f(x):
            log.calls.append(tag)
            return Data(x, tag)
        return f
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load, "preprocess": [p("p0"), p("p1"), p("p2")]}
    a = d["x"]
    return a.tag, a.src.tag, a.src.src.tag, a.src.src.src.tag, log.calls
""", '("p2", "p1", "p0", "raw", ["load", "p0", "p1", "p2"])'),
    ("no preprocessors", """
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load}
    d._content["y"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load, "preprocess": None}
    d._content["z"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load, "preprocess": []}
    return [d[k] is d.raw(k) and d[k] is d[k] and d[k].tag == "raw" for k in ("x", "y", "z")], log.calls
""", '([True, True, True], ["load", "load", "load"])'),
    ("one file: its path is given to the loader", """
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load}
    return d["x"].src, d.raw("x").src
""", '(Path(root) / "name" / fn0, Path(root) / "name" / fn0)'),
    ("the root may be given as text", """
    g = BaseData("name", "/some/dir")
    g._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load}
    return g["x"].src
""", 'Path("/some/dir") / "name" / fn0'),
    ("two files: the list of their paths in declared order is given to the loader", """
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}, {"filename": fn1, "md5": md1}], "loader": load}
    return d["x"].src, log.calls
""", '([Path(root) / "name" / fn0, Path(root) / "name" / fn1], ["load"])'),
    ("two items are independent", """
    def px(x):
        log.calls.append("px")
        return Data(x, "px")
    def py(x):
        log.calls.append("py")
        return Data(x, "py")
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load, "preprocess": [px]}
    d._content["y"] = {"upon": [{"filename": fn1, "md5": md1}], "loader": load, "preprocess": [py]}
    a, b, c = d["x"], d["y"], d["x"]
    r = d.raw("y")
    return a is c, a.tag, b.tag, b.src is r, a.src is r, r.src, log.calls
""", '(True, "px", "py", True, False, Path(root) / "name" / fn1, ["load", "px", "load", "py"])'),
    ("two items on the same file are independent", """
    def px(x):
        x.tag = "changed in place"
        return x
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load, "preprocess": [px]}
    d._content["y"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load}
    a, b = d["x"], d["y"]
    return a.tag, b.tag, log.calls
""", '("changed in place", "raw", ["load", "load"])'),
    ("empty data is loaded once as well", """
    def empty(path):
        log.calls.append("load")
        return []
    def still(x):
        log.calls.append("pre")
        return x
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": empty, "preprocess": [still]}
    return d["x"], d["x"], d.raw("x"), log.calls
""", '([], [], [], ["load", "pre"])'),
    ("zero is a value", """
    def zero(path):
        log.calls.append("load")
        return 0
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": zero}
    return d["x"], d["x"], d.raw("x"), log.calls
""", '(0, 0, 0, ["load"])'),
    ("constants and tables without loader", """
    t = {"upon": [], "other": 1}
    u = {"loader": load}
    d._content["n"], d._content["t"], d._content["u"], d._content["z"], d._content["s"] = 7, t, u, 0, "text"
    return (d["n"], d["n"], d.raw("n"), d["z"], d.raw("z"), d["s"], d.raw("s"), d["t"]["other"], d["u"]["loader"] is load, len(d.raw("t")), len(d["u"]),
            [d.needs_to_load(k) for k in d.content], log.calls)
""", '(7, 7, 7, 0, 0, "text", "text", 1, True, 2, 1, [False, False, False, False, False], [])'),
    ("which items need loading", """
    d._content["n"] = 3
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load}
    before = [d.needs_to_load("n"), d.needs_to_load("x")]
    d["x"]
    return before, [d.needs_to_load("n"), d.needs_to_load("x")], d.content, log.calls
""", '([False, True], [False, True], ["n", "x"], ["load"])'),
    ("two datasets share nothing", """
    g = BaseData("other", root)
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load}
    g._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load}
    d._content["n"] = 1
    a, b = d["x"], g["x"]
    return a is b, a.src, b.src, g.content, d.content, log.calls
""", '(False, Path(root) / "name" / fn0, Path(root) / "other" / fn0, ["x"], ["x", "n"], ["load", "load"])'),
    ("unknown item read", """
    d._content["n"] = 3
    return d["other"]
""", None),
    ("unknown item, raw", """
    d._content["n"] = 3
    return d.raw("other")
""", None),
    ("unknown item, needs_to_load", """
    d._content["n"] = 3
    return d.needs_to_load("other")
""", None),
    ("a failing loader leaves nothing behind", """
    def flaky(path):
        log.calls.append("load")
        if len(log.calls) == 1:
            raise ValueError("first attempt")
        return Data(path, "raw")
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": flaky}
    try:
        d["x"]
    except ValueError:
        log.calls.append("failed")
    if len(log.calls) < 2:
        return 0
    return d["x"].tag, log.calls
""", '("raw", ["load", "failed", "load"])'),
    ("a failing preprocessor leaves nothing behind", """
    def flaky(x):
        log.calls.append("pre")
        if len(log.calls) == 2:
            raise ValueError("first attempt")
        return Data(x, "pre")
    d._content["x"] = {"upon": [{"filename": fn0, "md5": md0}], "loader": load, "preprocess": [flaky]}
    try:
        d["x"]
    except ValueError:
        log.calls.append("failed")
    if len(log.calls) < 2:
        return 0
    return d["x"].tag, d.raw("x").tag
""", '("pre", "raw")'),
]


def d03(chk):
    repo = chk.repo
    chk.rule("R1", "every history of item reads gives the defined objects: loader once, preprocessors in declared order, same object again, raw data untouched")
    chk.rule("R2", "an unknown item name is rejected")
    chk.rule("R3", "the url a file is fetched from is its own url or the dataset's remote directory followed by the file name, and every file of an item is fetched")
    cls = repo.cls("BaseData")
    q = repo.func(DL + ".download_and_check").qual
    args = ("root", "fn0", "md0", "fn1", "md1")
    given = [(tm.eq(("param", x), NONE), False) for x in args]

    def tweak(I):
        I.intercept[q] = verified
    head = "def ref(%s):\n    log = Log()\n    d = BaseData('name', root)\n    def load(path):\n        log.calls.append('load')\n        return Data(path, 'raw')\n" % ", ".join(args)
    for name, body, want in HISTORIES:
        chk.count("histories")
        C = Comparer(chk)
        C.tweak = tweak
        rule = "R1" if want else "R2"
        if want and "failing" in name:
            # the abstract exception of the guarded call itself carries no information
            ref = f"def ref({', '.join(args)}):\n    return {want}\n"
            src = head + body
            try:
                ri = C.outcomes(ref_func(repo, src, None, extra=PRE), None, {}, given)
                rr = C.outcomes(ref_func(repo, ref, None, extra=PRE), None, {}, given)
            except Undecided as e:
                chk.und(name, str(e))
                continue
            w = observe(rr[0], rr[2][0][2], rr[2][0][1])
            vals = [observe(ri[0], s, v) for k, v, s in ri[2] if k == "ret"]
            full = [v for v in vals if v != N(0)]
            if not full or any(v != w for v in full) or any(k == "raise" and any(e[0] == "applied" for e in s.events) for k, v, s in ri[2]):
                got = "; ".join(tm.show(v, 120) for v in full) or "nothing: the item stays unreadable"
                chk.finding(rule, name, cls.loc, f"gives {got}, expected {tm.show(w, 120)}")
            else:
                chk.discharge(name)
            continue
        ref = f"def ref({', '.join(args)}):\n    " + (f"return {want}\n" if want else "raise KeyError\n")
        try:
            ri = C.outcomes(ref_func(repo, head + body, None, extra=PRE), None, {}, given)
            rr = C.outcomes(ref_func(repo, ref, None, extra=PRE), None, {}, given)
        except (Undecided, RecursionError) as e:
            chk.und(name, str(e))
            continue
        C.match(rule, name, cls.loc, ri, rr)
    # urls
    for i, (entry, want) in enumerate((("{'filename': fn0, 'md5': md0}", "REMOTE_DATASETS_ROOT + 'name' + '/' + fn0"), ("{'filename': fn0, 'md5': md0, 'bk_url': bk0}", "bk0"),
                                       ("{'filename': fn0, 'md5': md0, 'bk_url': None}", "REMOTE_DATASETS_ROOT + 'name' + '/' + fn0"))):
        C = Comparer(chk)
        C.tweak = tweak
        extra = PRE + "from dhg._global import REMOTE_DATASETS_ROOT, DATASETS_ROOT\n"
        src = f"def ref(root, fn0, md0, bk0, fn1, md1):\n    d = BaseData('name', root)\n    d._content['x'] = {{'upon': [{{'filename': fn1, 'md5': md1}}, {entry}], 'loader': len}}\n    d['x']\n    d.raw('x')\n    return 0\n"
        ref = f"def ref(root, fn0, md0, bk0, fn1, md1):\n    p = Path(root) / 'name'\n    return [(p / fn1, md1, REMOTE_DATASETS_ROOT + 'name' + '/' + fn1), (p / fn0, md0, {want})]\n"
        name = "urls of " + entry
        g2 = given + [(tm.eq(("param", "bk0"), NONE), False)]
        try:
            Ii, _, oi = C.outcomes(ref_func(repo, src, None, extra=extra), None, {}, g2)
            Ir, _, orr = C.outcomes(ref_func(repo, ref, None, extra=extra), None, {}, g2)
        except Undecided as e:
            chk.und(name, str(e))
            continue
        w = observe(Ir, orr[0][2], orr[0][1])
        for k, v, s in oi:
            got = ("list",) + tuple(dict.fromkeys(("tup", e[1], e[2], e[3]) for e in s.events if e[0] == "verified"))
            if set(got[1:]) == set(w[1:]):
                chk.discharge(name)
            else:
                a, b = (got, w) if len(got) != len(w) else min_pair(got, w)
                chk.finding("R3", name, cls.loc, f"fetches {tm.show(a, 300)}, expected {tm.show(b, 300)}")
    # default directory
    C = Comparer(chk)
    C.tweak = tweak
    extra = PRE + "from dhg._global import DATASETS_ROOT\n"
    g3 = [g for g in given if g[0] != tm.eq(("param", "root"), NONE)]
    try:
        C.match("R1", "default directory", cls.loc, C.outcomes(ref_func(repo, "def ref(fn0, md0):\n    d = BaseData('name')\n    d._content['x'] = {'upon': [{'filename': fn0, 'md5': md0}], 'loader': str}\n    return d['x']\n", None, extra=extra), None, {}, g3),
                C.outcomes(ref_func(repo, "def ref(fn0, md0):\n    return str(DATASETS_ROOT / 'name' / fn0)\n", None, extra=extra), None, {}, g3))
    except Undecided as e:
        chk.und("default directory", str(e))
    chk.floor("histories", 15)


def min_pair(a, b):
    from ..spec import min_diff
    return min_diff(a, b)




INFO = {
    "D01": {"technique": "path-sensitive typestate analysis of file versions (written, verified, used) with exception edges",
            "explanation": "The download, verification and caching functions are evaluated with a symbolic file world: every operation that can change the target file starts a new version, and on every path (retries, exceptions, mirrors, pre-existing files) the version that is returned or loaded must be the one whose digest was compared with the given checksum.",
            "assumptions": ASSUME, "note": "Two chunks of a download stand for any number; hashlib is trusted."},
    "D02": {"technique": "abstract evaluation of the dataset constructors and resolution of every table entry",
            "explanation": "Every dataset class is constructed symbolically, its content table is read as a value, and each entry must be complete, name existing loaders and preprocessors callable with the loader's arguments, refer to declared files, and agree with the numbers and types documented for it.",
            "assumptions": ASSUME, "note": "Whether the remote files have the stated checksums cannot be seen from source; recorded known findings are numbers whose documentation disagrees with the table."},
    "D03": {"technique": "abstract interpretation of access histories compared with expected values by value numbering",
            "explanation": "Access histories over constant, loaded and preprocessed items run in the abstract interpreter with opaque loaders; the observed values, the files verified, their order and the number of loads must be those of the documented lazy-loading protocol.",
            "assumptions": ASSUME, "note": "Histories are bounded in length; loaders, preprocessors and contents are arbitrary."},
}
