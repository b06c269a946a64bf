"""Calls into the code under test, with the log records it issued."""
import contextlib
import io
import logging
import sys

import boot  # noqa: F401
import dom
from harness import V

import rsm
import tree_sitter
import tree_sitter_rsm
from rsm import nodes, transformer, translator, tsparser

_records = []
_GRAMMAR = tree_sitter.Parser(tree_sitter.Language(tree_sitter_rsm.language()))


class _Grab(logging.Handler):
    def emit(self, record):
        _records.append(record)


_grab = _Grab(level=1)
_root = logging.getLogger()
_root.addHandler(_grab)
_root.setLevel(logging.WARNING)


@contextlib.contextmanager
def logs():
    """The records that the RSM loggers issue within the block."""
    del _records[:]
    out = []
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        yield out
    finally:
        sys.stderr = err
        out += [r for r in _records if r.name.split(".")[0] == "RSM"]
        del _records[:]


def quiet():
    """For the lower level interfaces, which configure no logging themselves."""
    lg = logging.getLogger("RSM")
    lg.setLevel(logging.WARNING)
    lg.handlers[:] = [logging.NullHandler()]


def render(src, **kw):
    """(html, records) of rsm.render."""
    with logs() as recs:
        h = rsm.render(src, **kw)
    if not isinstance(h, str):
        raise V("no html", f"render returned {type(h).__name__}")
    return h, recs


def tree(src):
    quiet()
    with logs():
        t = tsparser.TSParser().parse(src)
        return transformer.Transformer().transform(t)


def parsed(html, **kw):
    try:
        return dom.parse(html, **kw)
    except dom.MalformedHTML as e:
        raise V("malformed html", e)


def warns(recs):
    return [r.getMessage() for r in recs if r.levelno >= logging.WARNING]


def cst_clean(src):
    """No error or missing node in what the grammar (not part of this repository) makes of src."""
    st = [_GRAMMAR.parse(src.encode("utf-8")).root_node]
    while st:
        n = st.pop()
        if n.type == "ERROR" or n.is_missing:
            return False
        st += n.children
    return True
