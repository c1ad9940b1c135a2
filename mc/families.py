"""The bounded spaces of grammars and inputs that the checks enumerate."""

import itertools
import re

from reparsec import lexer as rx

from .grammar import B, Family, U, contains, tuples, words

SYM_A, SYM_B, SYM_C = ("sym", "a"), ("sym", "b"), ("sym", "c")


def bind_ab(g, h):
    return ("bind", g, "a", h, SYM_B)


def bind_ba(g, h):
    return ("bind", g, "b", SYM_A, h)


def bind_none(g, h):
    return ("bind", g, None, h, SYM_B)


# every input-agnostic combinator over single-token terminals
CORE = Family(
    [SYM_A, SYM_B, ("sat", "isa"), ("eof",), ("pure", "p"), ("unexp", "u")],
    [U("fmap", "f"), U("maybe"), U("many"), U("attempt"), U("label", "L"),
     U("recover"), U("rw", "X", None)],
    [B("seq"), B("alt"), bind_ab, B("sep_by")])

# as CORE without attempt
CORE_NOATT = Family(
    CORE.leaves,
    [U("fmap", "f"), U("maybe"), U("many"), U("label", "L"),
     U("recover"), U("rw", "X", None)],
    CORE.binary)

# a smaller menu, for larger terms
SMALL = Family(
    [SYM_A, SYM_B, ("sat", "isa")],
    [U("maybe"), U("many"), U("attempt"), U("label", "L")],
    [B("seq"), B("alt")])

# two-parser combinators and the forms derived from them
DERIVED = Family(
    [SYM_A, SYM_B, ("sat", "notx"), ("eof",), ("purefn", "q")],
    [U("maybe"), U("many"), U("label", "M")],
    [B("seql"), B("seqr"), B("sep_by"), B("chainl1"), B("chainr1"),
     bind_ba, lambda g, h: ("between", g, h, SYM_A),
     lambda g, h: ("between", SYM_A, g, h)])

# everything that steers error recovery
RECOVERY = Family(
    [SYM_A, SYM_B, ("symL", "b", "bee"), ("sat", "isa"), ("eof",)],
    [U("recover"), U("rw", "X", None), U("rw", "Y", "why"),
     U("rwf", "F", None), U("rwf", "G", "gee"), U("attempt"),
     U("maybe"), U("many"), U("label", "L")],
    [B("seq"), B("alt")])

# values and labels that are falsy
FALSY = Family(
    [SYM_A, ("symL", "b", ""), ("sat", "isa"), ("pure", None), ("pure", 0),
     ("unexp", "")],
    [U("rw", None, None), U("rw", 0, ""), U("rwf", None, None),
     U("rwf", "F", ""), U("label", ""), U("fmap", None), U("maybe"),
     U("many"), U("recover")],
    [B("seq"), B("alt"), B("sep_by"), bind_none])

# as RECOVERY, with fewer constructors, for larger terms
RECOVERY_MINI = Family(
    [SYM_A, ("sat", "isb")],
    [U("recover"), U("rw", "X", None), U("attempt")],
    [B("seq"), B("alt")])

# every combinator, over parsers that may need several insertions in a row
AB = ("seq", SYM_A, SYM_B)
BUDGET = Family(
    [SYM_A, AB, ("seq", ("seq", SYM_B, SYM_A), SYM_B), ("eof",)],
    [U("many"), U("maybe"), U("attempt"), U("label", "L"), U("recover"),
     U("rw", "X", None), U("rwf", "F", None), U("fmap", "f"), U("delay"),
     U("block"), U("aligned"), lambda g: ("indented", 0, g),
     lambda g: ("bind", ("sym", "b"), "b", g, SYM_A),
     lambda g: ("bind", g, "a", AB, SYM_B)],
    [B("seq"), B("alt")])

# larger parsers as leaves, for choices between parsers that fail deep inside
MACRO = Family(
    [SYM_A, ("sat", "isb"), AB, ("seq", ("sat", "isa"), ("sat", "isb")),
     ("attempt", AB), ("attempt", ("seq", ("sat", "isa"), ("sat", "isb"))),
     ("seq", ("maybe", SYM_A), SYM_B),
     ("alt", ("label", SYM_A, "A"), ("recover", SYM_C)),
     ("many", AB), ("rw", AB, "X", None), ("rwf", AB, "F", "eff")],
    [U("maybe"), U("many"), U("attempt"), U("label", "L"), U("recover"),
     U("rwf", "G", None)],
    [B("seq"), B("alt")])

# choice between alternatives that need more than one edit
CHOICE = Family(
    [SYM_A, SYM_B, SYM_C, ("sat", "isa")],
    [U("recover"), U("rw", "X", None)],
    [B("seq"), B("alt")])

# terminals for text
TEXT = Family(
    [("lit", "a"), ("lit", "ab"), ("lit", "a\nb"), ("re", r"\s+", 0),
     ("re", r"\s*", 0), ("re", "[ab]+", 0), ("re", "(a)|b", 1),
     ("re", "(?P<v>b)\n?", "v"), ("re", "(?=b)", 0), ("re", "a()", 1), ("sym", "b"),
     ("sat", "any"), ("eof",)],
    [U("many"), U("maybe"), U("attempt"), U("label", "L"),
     U("rw", "X", None)],
    [B("seq"), B("alt")])

# layout combinators over text
WS = ("re", r"\s*", 0)
LAYOUT = Family(
    [("sym", "a"), ("lit", "a\n"), ("re", r"\s+", 0), WS],
    [U("block"), U("aligned"), lambda g: ("indented", 1, g),
     lambda g: ("indented", 2, g), U("many"), U("maybe")],
    [B("seq"), B("alt")])

# layout combinators over lexer tokens
TOK_A, TOK_B = ("tok", "a"), ("tok", "b")
LAYOUT_TOK = Family(
    [TOK_A, ("tokins", "b", "b"), ("tsym", "a", "a", None)],
    [U("block"), U("aligned"), lambda g: ("indented", 1, g),
     lambda g: ("indented", 2, g), U("many"), U("maybe")],
    [B("seq"), B("alt")])

TOKENS = Family(
    [TOK_A, TOK_B, ("tokins", "b", "bb"), ("tsym", "a", "a", "A!"),
     ("tsym", "b", "b", None), ("eof",)],
    [U("many"), U("maybe"), U("label", "L"), U("attempt"),
     U("rw", "X", None), U("recover")],
    [B("seq"), B("alt"), B("sep_by")])

# kinds and values of tokens are any strings
KIND_NAMES = ("num_lit", "ID", "id", "_", "\xe9t\xe9", "a b", "'", "")
KINDS = Family(
    [("tok", k) for k in KIND_NAMES] +
    [("tokins", k, v) for k, v in (("num_lit", "0"), ("ID", ""), ("a b", "'"),
                                   ("", "x"))],
    [U("maybe"), U("many")],
    [B("seq"), B("alt")])


def kind_tokens(tier):
    tokens = [(k, v) for k in KIND_NAMES for v in ("x", "")]
    for n in range(3):
        for ts in itertools.product(tokens if n < 2 else tokens[::3],
                                    repeat=n):
            # equal to the kind asked for, but not the same object
            yield [rx.Token("".join(list(k)), v, rx.Loc(2 * i, 0, 2 * i),
                            rx.Loc(2 * i + 1, 0, 2 * i + 1))
                   for i, (k, v) in enumerate(ts)]


TOKEN_SPEC = re.compile(r"(?P<a>a)|(?P<b>b+)|\s+")


def lex(src):
    return rx.split_tokens(src, TOKEN_SPEC)


def lex_iter(src):
    """The tokens up to the first error, and the error."""
    out = []
    try:
        for t in rx.iter_tokens(src, TOKEN_SPEC):
            out.append(t)
    except rx.LexError as e:
        out.append(rx.Token("error", str(e), e.loc, e.loc))
    return out


# tokens whose value is not their text, which span lines, or are empty
TOKEN_SPEC_2 = re.compile(r"a(?P<a>\n*);?|;(?P<b>[a;]?)\n|[ \n]+|b(?P<b2>)")


def lex2(src):
    return rx.split_tokens(src, TOKEN_SPEC_2)


def strange_tokens(n):
    """Streams of tokens made by the user: any locations are legal."""
    places = (rx.Loc(0, 0, 0), rx.Loc(3, 1, 1), rx.Loc(1, 0, 1),
              rx.Loc(9, 2, 0))
    for k in range(n + 1):
        for kinds in tuples("ab", k):
            if len(kinds) == k:
                for shift in range(len(places)):
                    yield [
                        rx.Token(c, c, places[(i + shift) % 4],
                                 places[(i * 3 + shift + 1) % 4])
                        for i, c in enumerate(kinds)]


# --- realistic grammars ------------------------------------------------------

def seq_all(*gs):
    out = gs[0]
    for g in gs[1:]:
        out = ("seq", out, g)
    return out


def alt_all(*gs):
    out = gs[0]
    for g in gs[1:]:
        out = ("alt", out, g)
    return out


def S(c):
    return ("sym", c)


V = ("ref", "v")

JSON_DICT = ("label", ("between", S("{"), S("}"), ("fmap", ("sep_by", (
    "seq", ("seql", ("rw", S("s"), "s", "'\"s\"'"), S(":")), V), S(",")),
    "dict")), "object")
JSON_LIST = ("label", ("between", S("["), S("]"),
                       ("sep_by", V, S(","))), "list")
JSON = ("seql", ("rec", "v", ("label", alt_all(
    ("rw", ("alt", ("sat", "isnum"), S("s")), "1", None),
    ("recover", JSON_DICT), ("recover", JSON_LIST)), "value")), ("eof",))
JSON_PLAIN_ALT = ("seql", ("rec", "v", ("label", alt_all(
    ("sat", "isnum"), S("s"), JSON_DICT, JSON_LIST), "value")), ("eof",))

EXPR = ("seql", ("rec", "v", ("chainl1", ("chainl1", (
    "alt", ("sat", "isnum"), ("between", S("("), S(")"), V)),
    S("*")), S("+"))), ("eof",))
EXPR_RW = ("seql", ("rec", "v", ("chainr1", ("chainl1", (
    "rw", ("alt", ("label", ("sat", "isnum"), "number"),
           ("between", S("("), S(")"), V)), "0", None),
    S("*")), S("+"))), ("eof",))

NUMBER = ("label", ("seq", ("label", ("sat", "isnum"), "digit"),
                    ("many", ("label", ("sat", "isnum"), "digit"))),
          "number")
SPACES = ("many", ("sat", "isspace"))
TUTORIAL = ("seql", ("seqr", SPACES, ("sep_by", (
    "rw", ("seql", NUMBER, SPACES), "0", None),
    ("seql", S(","), SPACES))), ("eof",))

STMT = ("seql", ("many", ("seql", alt_all(
    ("attempt", ("seq", S("a"), ("seqr", S("="), ("sat", "isnum")))),
    ("seq", S("a"), ("between", S("("), S(")"), ("maybe", V))),
    ("seqr", S("!"), ("label", ("sat", "isnum"), "number"))),
    S(";"))), ("eof",))
STMT = ("rec", "v", STMT[1])  # statements may nest in parentheses
STMT = ("seql", STMT, ("eof",))

NESTED = ("seql", ("rec", "v", ("many", ("between", S("("), S(")"), V))),
          ("eof",))
RIGHT = ("seql", ("rec", "v", ("maybe", ("seq", S("a"), V))), ("eof",))
PALIN = ("seql", ("rec", "v", alt_all(
    seq_all(S("a"), V, S("a")), seq_all(S("b"), V, S("b")), S("c"))),
    ("eof",))
FIELDS = ("seql", ("apply", S("a"), ("maybe", S("b")), ("many", S("c")),
                   ("rw", S("d"), "D", None)), ("eof",))

YAML_PAIR = ("seq", ("seql", ("re", "[ab]", 0), ("re", r" *: *", 0)),
             ("alt",
              ("seql", ("re", "[ab]", 0), ("alt", ("re", r"\n\s*", 0),
                                           ("eof",))),
              ("seqr", ("re", r"\n\s*", 0),
               ("indented", 2, ("seq", V, ("many", ("aligned", V)))))))
YAML = ("seql", ("seqr", WS, ("many", ("aligned", ("rec", "v", YAML_PAIR)))),
        ("eof",))

# (term, runner, alphabet, longest word quick, longest word thorough)
DEEP = {
    "json": (JSON, "index", "{}[],:1s", 4, 5),
    "json-alt": (JSON_PLAIN_ALT, "index", "{}[],:1s", 4, 5),
    "json-list": (JSON, "index", "[],1x", 5, 6),
    "json-dict": (JSON, "index", "{}:,s", 5, 6),
    "expr": (EXPR, "index", "1+*()", 5, 6),
    "expr-rw": (EXPR_RW, "index", "1+*()", 4, 5),
    "tutorial": (TUTORIAL, "index", "1, x", 6, 7),
    "tutorial-text": (TUTORIAL, "text", "1,\n", 7, 8),
    "stmt": (STMT, "index", "a=1();", 5, 6),
    "nested": (NESTED, "index", "()", 8, 11),
    "right": (RIGHT, "index", "ab", 8, 11),
    "palindrome": (PALIN, "index", "abc", 6, 7),
    "fields": (FIELDS, "index", "abcd", 5, 7),
    "yaml": (YAML, "text", "a: \n", 6, 8),
}
