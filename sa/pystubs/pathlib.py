"""pathlib over os.path, for the interpreter"""
import os


class PurePath:
    def __init__(self, *parts):
        text = os.path.join(*[os.fspath(p) for p in parts]) if parts else "."
        self._text = text

    def __fspath__(self):
        return self._text

    def __str__(self):
        return self._text

    def __eq__(self, other):
        return isinstance(other, PurePath) and self._text == other._text

    def __hash__(self):
        return hash(self._text)

    def __truediv__(self, other):
        return type(self)(self._text, other)

    def __rtruediv__(self, other):
        return type(self)(other, self._text)

    def joinpath(self, *parts):
        return type(self)(self._text, *parts)

    @property
    def name(self):
        return os.path.basename(self._text)

    @property
    def parent(self):
        return type(self)(os.path.dirname(self._text))

    def as_posix(self):
        return self._text


class Path(PurePath):
    def exists(self):
        return os.path.exists(self._text)

    def is_file(self):
        return os.path.isfile(self._text)

    def is_dir(self):
        return os.path.isdir(self._text)

    def absolute(self):
        return type(self)(os.path.abspath(self._text))

    def resolve(self, strict=False):
        return type(self)(os.path.abspath(self._text))

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if exist_ok and os.path.exists(self._text):
            return
        if parents:
            os.makedirs(self._text)
        else:
            os.mkdir(self._text)

    def iterdir(self):
        for name in os.listdir(self._text):
            yield self / name

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        return open(self._text, mode)

    def read_text(self, encoding=None, errors=None):
        with open(self._text, "r") as f:
            return f.read()

    def read_bytes(self):
        with open(self._text, "rb") as f:
            return f.read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        with open(self._text, "w") as f:
            f.write(data)

    def write_bytes(self, data):
        with open(self._text, "wb") as f:
            f.write(data)


PosixPath = Path
PurePosixPath = PurePath
