"""A small disk with pictures: stand-ins for PIL and the export process pool.
A stored picture is a Blob saying what it was made from and how."""
import concurrent.futures
from decimal import Decimal

from PIL import Image

from harness import memfs
from vanillaplusjs.build.build_context import BuildContext, JSConstants
from vanillaplusjs.build.html.manips.images.command import ImageCommand
from vanillaplusjs.build.html.manips.images.settings import ImageExport, ImageFormat, ImageSettings


class Blob:
    def __init__(self, source, rect, size, fmt, kwargs, nbytes):
        self.source, self.rect, self.size, self.fmt, self.kwargs, self.nbytes = source, rect, size, fmt, kwargs, nbytes


class Picture:
    def __init__(self, disk, source, width, height, rect=None):
        self.disk, self.source, self.width, self.height = disk, source, width, height
        self.rect = rect or (0, 0, width, height)

    def crop(self, box):
        l, t, r, b = box
        x, y = self.rect[0], self.rect[1]
        return Picture(self.disk, self.source, r - l, b - t, (x + l, y + t, x + r, y + b))

    def resize(self, size, *a, **k):
        return Picture(self.disk, self.source, size[0], size[1], self.rect)

    def save(self, path, format=None, **kwargs):
        d = self.disk
        d.fs.put(d.fs.key(path), Blob(self.source, self.rect, (self.width, self.height), format, kwargs,
                                      d.nbytes(format, kwargs, (self.width, self.height))))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Pool:
    """Runs the exports when they are submitted (they write distinct files)."""

    def __init__(self, *a, **k):
        pass

    def submit(self, fn, *args, **kwargs):
        f = concurrent.futures.Future()
        try:
            f.set_result(fn(*args, **kwargs))
        except Exception as e:
            f.set_exception(e)
        return f

    def shutdown(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Disk:
    """sources: {path: (contents, width, height)}"""

    def __init__(self, s, sources, files=(), folders=(), nbytes=None):
        self.s = s
        self.dims = {}
        self.fs = memfs.FS(s, dict(files), folders)
        for p, (t, w, h) in sources.items():
            self.source(p, t, w, h)
        self._nbytes = nbytes
        s.intercept(Image.open, self.open)
        s.intercept(concurrent.futures.ProcessPoolExecutor, Pool)

    def source(self, path, contents, width, height):
        k = memfs.PROJECT + "/" + path
        self.fs.put(k, contents)
        self.dims[k] = (width, height)

    def open(self, path, *a, **k):
        key = self.fs.key(path)
        if key not in self.fs.files:
            raise FileNotFoundError(key)
        self.fs.reads.append(self.fs.rel(key))
        w, h = self.dims[key]
        return Picture(self, self.fs.files[key], w, h)

    def nbytes(self, fmt, kwargs, size):
        return self._nbytes(fmt, kwargs, size) if self._nbytes else 10


def settings(formats=("jpeg",), step="1", top=1, exports=None, default="jpeg", minimum=0):
    return ImageSettings(
        formats={f: ImageFormat(name=f, exports=exports or {"x": ImageExport(None, None, 1, {})}, minimum_unit_size_bytes=minimum)
                 for f in formats},
        default_format=default, maximum_resolution=top, resolution_step=Decimal(step))


def context(**k):
    ctx = BuildContext(memfs.PROJECT, dev=False, symlinks=k.pop("symlinks", False))
    ctx.js_constants = JSConstants(relpath="src/public/js/constants.js", shared={}, dev={}, prod={})
    ctx.delay_files = []
    ctx.image_settings = settings(**k)
    return ctx


def command(path, width, height, crop=None, lazy=True):
    return ImageCommand(path=path, width=width, height=height, crop_style="cover", crop_arguments=crop or {}, lazy=lazy)
