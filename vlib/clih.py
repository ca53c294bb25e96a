"""Small helpers around the public entry points of the code under test."""
import asyncio
import io

from vlib import env  # noqa: F401

from nessaid_readline import key

from nessaid_cli.compiler import compile_grammar  # noqa: F401
from nessaid_cli.interface import CliInterface
from nessaid_cli.cli import NessaidCli
from nessaid_cli.cmd import NessaidCmd
from nessaid_cli.elements import EndOfInpuToken
from nessaid_cli.lex_yacc_common import DollarVariable  # noqa: F401
from nessaid_cli import tokens as T

_loop = None


def loop():
    global _loop
    if _loop is None:
        _loop = asyncio.new_event_loop()
        asyncio.set_event_loop(_loop)
    return _loop


def run(coro):
    return loop().run_until_complete(coro)


class Streams:
    def __init__(self):
        self.out = io.StringIO()
        self.err = io.StringIO()


TOKEN_CLASSES = [T.RangedIntToken, T.RangedDecimalToken, T.StringToken, T.RangedStringToken,
                 T.AlternativeStringsToken, T.BooleanToken, T.PathToken]


def compiled(src):
    return compile_grammar(src) if isinstance(src, str) else src


class Iface(CliInterface):
    """A bare interface that records every external call its grammar makes."""

    def __init__(self, src, streams=None, **kw):
        self.streams = streams or Streams()
        self.calls = []
        self.returns = {}
        super().__init__(loop(), compiled(src), stdin=io.StringIO(), stdout=self.streams.out,
                         stderr=self.streams.err, **kw)

    def get_token_classes(self):
        return TOKEN_CLASSES

    def ext(self, *args):
        self.calls.append(snapshot(list(args)))


def snapshot(v):
    """A copy of a value that later mutation does not reach."""
    if isinstance(v, list):
        return [snapshot(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snapshot(x) for x in v)
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, set):
        return {snapshot(x) for x in v}
    if isinstance(v, str):
        return str(v)
    return v


def iface(src, root="g", cls=Iface, **kw):
    c = cls(src, **kw)
    c.enter_grammar(root)
    return c


def execute(cli, toks, arglist=None):
    """Match as the command loop does when a line is entered."""
    return run(cli.match(list(toks), dry_run=False, last_token_complete=True,
                         arglist=[] if arglist is None else arglist))


def suggest(cli, toks, complete=True):
    """Match as TAB does."""
    return run(cli.match(list(toks), dry_run=True, last_token_complete=complete))


def next_set(res):
    """(set of completion or help texts, end-of-input allowed)"""
    toks = res.next_tokens or []
    return {str(t) for t in toks if t is not EndOfInpuToken}, any(t is EndOfInpuToken for t in toks)


def completions_and_helps(res):
    comps, helps = set(), set()
    for t in res.next_tokens or []:
        if t is EndOfInpuToken:
            continue
        if getattr(t, "completion", None):
            comps.add(t.completion)
        else:
            helps.add(t.helpstring)
    return comps, helps


class Cli(NessaidCli):
    def __init__(self, src, streams=None, **kw):
        self.streams = streams or Streams()
        self.calls = []
        super().__init__(compiled(src), loop=loop(), stdin=io.StringIO(), stdout=self.streams.out,
                         stderr=self.streams.err, **kw)

    def get_token_classes(self):
        return TOKEN_CLASSES

    def ext(self, *args):
        self.calls.append(snapshot(list(args)))

    async def handle_eof(self):
        self.exit_loop()


TAB, CR, EOF, INTERRUPT = "\t", "\r", "\x04", "\x03"
BACKSPACE = key.BACKSPACE


class Stuck(Exception):
    """The loop goes on asking for keys after the terminal was closed."""


class Keys:
    """A keyboard for the real line editor: hands out the given keys, then closes the terminal."""

    def __init__(self, cli, keys, before=None):
        self.cli = cli
        self.keys = list(keys)
        self.at = 0
        self.before = before
        self.closed = 0
        cli.readline.readchar = self.readchar

    async def readchar(self):
        if self.before:
            self.before(self.at, self.cli.readline.get_line_buffer())
        if self.at < len(self.keys):
            self.at += 1
            return self.keys[self.at - 1]
        self.closed += 1
        if self.closed > 40:
            # the line editor would swallow an exception raised here
            self.cli.exit_loop()
            raise Stuck()
        return EOF


def loop_keys(cli, keys, root="g", before=None):
    """Runs the command loop on these keys until the terminal is closed."""
    feed = Keys(cli, keys, before)
    run(asyncio.wait_for(cli.cmdloop(root), 60))
    return feed


__all__ = ["T", "NessaidCmd", "NessaidCli", "CliInterface", "EndOfInpuToken"]
