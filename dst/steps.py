"""A step clock: bounds how many lines of the library one operation may execute."""
import os
import sys

from . import loader


class TooLong(BaseException):
    pass


class Steps:
    """with Steps(limit) as s: ...   raises TooLong inside the operation when the limit is reached."""

    def __init__(self, limit):
        self.limit = limit
        self.n = 0
        self.root = os.path.join(loader.REPO, loader.PKG) + os.sep

    def _call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.root):
            self.n += 1
            if self.n > self.limit:
                raise TooLong("in %s:%d" % (frame.f_code.co_filename[len(self.root):], frame.f_lineno))
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n > self.limit:
                raise TooLong("in %s:%d" % (frame.f_code.co_filename[len(self.root):], frame.f_lineno))
        return self._line

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False
