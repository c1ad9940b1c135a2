"""Running the real code through its public API and recording what a user sees."""

from reparsec import Insert, ParseError, Skip
from reparsec import lexer as rx
from reparsec import scannerless as rs

from . import refmodel as rm


def op_of(op):
    if op is None:
        return None
    if isinstance(op, Skip):
        return ("skip", op.count)
    if isinstance(op, Insert):
        return ("ins", op.label)
    return ("?", repr(op))


def unwrap(result, recover):
    try:
        return ("val", result.unwrap(recover=recover))
    except ParseError as e:
        return ("perr", tuple(
            (tuple(i.loc), i.loc_str, tuple(i.expected), op_of(i.op))
            for i in e.errors))


def unwrap0(result):
    try:
        return ("val", result.unwrap())
    except ParseError as e:
        return ("perr", tuple(
            (tuple(i.loc), i.loc_str, tuple(i.expected), op_of(i.op))
            for i in e.errors))


def parse_real(parser, stream, recover, ins, runner):
    if runner == "text":
        return rs.parse(parser, stream, recover)
    if runner == "tokens":
        return rx.parse(parser, stream, recover)
    if ins is None:
        return parser.parse(stream, recover)
    return parser.parse(stream, recover, max_insertions=ins)


def observe(parser, stream, recover=False, ins=None, runner="index"):
    """-> ("exc", name) | (unwrap(), unwrap(recover=True))."""
    try:
        r = parse_real(parser, stream, recover, ins, runner)
        return unwrap0(r), unwrap(r, True)
    except Exception as e:
        return ("exc", type(e).__name__)


def edits_of(u):
    """Edit script (kind, arg, pos) of a ("perr", items) observation."""
    return [(i[3][0], i[3][1], i[0][0]) for i in u[1]]


class Stream:
    """A stream with everything the model needs to know about it."""

    def __init__(self, s, runner="index"):
        self.s = s
        self.runner = runner
        loc = {"index": rm.loc_index, "text": rm.loc_text,
               "tokens": rm.loc_tokens}[runner](s)
        self.table = [loc(p) for p in range(len(s) + 1)]

    def loc(self, p):
        return self.table[p]

    def col(self, p):
        return self.table[p][0][2]

    def st(self, ins=None):
        return rm.St(self.s, self.col, 5 if ins is None else ins)
