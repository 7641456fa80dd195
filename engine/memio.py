"""Files in memory, for symbolic and plain runs alike.

A symbolic run stores numpy bundles and JSON documents as objects (with the
conversions the formats imply); text is stored as text, symbolic numbers in it
are tokens that parse back to the same number."""

import copy
import io
import json
import os

import numpy as np

from .sym import Sym, Unsupported


class BFile(io.BytesIO):
    payload = None
    fs = None

    def close(self):
        if self.fs is not None and not self.closed:
            self.fs.files[self.path] = (self.getvalue(), self.payload)
        super().close()


class TFile(io.StringIO):
    payload = None
    fs = None

    def close(self):
        if self.fs is not None and not self.closed:
            self.fs.files[self.path] = (self.getvalue().encode("utf-8", "surrogateescape"), self.payload)
        super().close()


class MemIO:
    """Stand-in for opensfm.io.IoFilesystemDefault."""

    def __init__(self):
        self.type = "memory"
        self.files = {}
        self.links = {}
        self.images = {}

    def _p(self, path):
        path = os.path.normpath(path)
        return self.links.get(path, path)

    def exists(self, path):
        return self.isfile(path) or self.isdir(path)

    def isfile(self, path):
        p = self._p(path)
        return p in self.files or p in self.images

    def isdir(self, path):
        p = self._p(path).rstrip("/") + "/"
        return any(f.startswith(p) for f in list(self.files) + list(self.images))

    def ls(self, path):
        p = self._p(path).rstrip("/") + "/"
        return sorted({f[len(p):].split("/")[0] for f in list(self.files) + list(self.images) if f.startswith(p)})

    def rm_if_exist(self, path):
        p = self._p(path)
        for d in (self.files, self.images):
            for f in list(d):
                if f == p or f.startswith(p + "/"):
                    del d[f]
        self.links.pop(os.path.normpath(path), None)

    def symlink(self, src, dst, **kw):
        s = os.path.normpath(os.path.join(os.path.dirname(dst), src))
        self.links[os.path.normpath(dst)] = s

    def mkdir_p(self, path):
        pass

    def _w(self, cls, path, old=b""):
        f = cls()
        f.fs, f.path = self, self._p(path)
        return f

    def _r(self, path):
        p = self._p(path)
        if p not in self.files:
            raise FileNotFoundError(path)
        return self.files[p]

    def open_wb(self, path):
        return self._w(BFile, path)

    def open_wt(self, path):
        return self._w(TFile, path)

    def open_at(self, path):
        f = self._w(TFile, path)
        if self._p(path) in self.files:
            f.write(self._r(path)[0].decode())
        return f

    def open_rb(self, path):
        data, payload = self._r(path)
        f = BFile(data)
        f.payload = payload
        return f

    def open_rt(self, path):
        data, payload = self._r(path)
        f = TFile(data.decode("utf-8", "surrogateescape"))
        f.payload = payload
        return f

    def imread(self, path, grayscale=False, unchanged=False, anydepth=False):
        return self.images[self._p(path)]

    def imwrite(self, path, image):
        self.images[self._p(path)] = image

    def image_size(self, path):
        return self.images[self._p(path)].shape[:2]

    def timestamp(self, path):
        return 0.0


bundles = {}  # what was stored in each numpy bundle written to a real path


def savez(f, *args, **kw):
    from . import npshim
    if args:
        raise Unsupported("positional arrays in a bundle")
    if isinstance(f, (str, os.PathLike)):
        g = f if str(f).endswith(".npz") else str(f) + ".npz"
        bundles[os.path.abspath(str(g))] = ("npz", {k: npshim._array(v) if not isinstance(v, np.ndarray) else v.copy() for k, v in kw.items()})
        open(g, "wb").write(b"npz")
        return
    f.payload = ("npz", {k: npshim._array(v) if not isinstance(v, np.ndarray) else v.copy() for k, v in kw.items()})
    f.write(b"npz")


def load(f, *a, **kw):
    if isinstance(f, (str, os.PathLike)):
        open(f, "rb").close()
        return {k: v.copy() for k, v in bundles[os.path.abspath(str(f))][1].items()}
    if getattr(f, "payload", None) is None:
        raise Unsupported("numpy bundle from a real file")
    return {k: v.copy() for k, v in f.payload[1].items()}


def jsonify(x, default=None):
    """What a document looks like after a JSON write and read."""
    if isinstance(x, Sym) or x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (int, float)):
        return x
    if isinstance(x, dict):
        r = {}
        for k, v in x.items():
            if isinstance(k, Sym):
                k = str(k)
            elif k is None or isinstance(k, bool):
                k = {None: "null", True: "true", False: "false"}[k]
            elif isinstance(k, (int, float)):
                k = repr(k)
            elif not isinstance(k, str):
                raise TypeError("keys must be str, int, float, bool or None")
            r[k] = jsonify(v, default)
        return r
    if isinstance(x, (list, tuple)):
        return [jsonify(v, default) for v in x]
    if default is not None:
        return jsonify(default(x), default)
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


class JsonProxy:
    def __init__(self):
        self.docs = {}

    def __getattr__(self, n):
        return getattr(json, n)

    def dumps(self, obj, default=None, **kw):
        key = "\x01JSON%d\x01" % len(self.docs)
        self.docs[key] = jsonify(obj, default)
        return key

    def dump(self, obj, fp, default=None, **kw):
        fp.write(self.dumps(obj, default))

    def loads(self, s, **kw):
        if isinstance(s, bytes):
            s = s.decode()
        k = s.strip()
        if k in self.docs:
            return copy.deepcopy(self.docs[k])
        return json.loads(s, **kw)

    def load(self, fp, **kw):
        return self.loads(fp.read(), **kw)
