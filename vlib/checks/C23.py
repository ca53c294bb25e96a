"""C23 - the life of a command loop: started once, left once, startable again."""
import asyncio
import selectors
import time

from hypothesis import strategies as st

from vlib import clih, script
from vlib.checks.C22 import rendered
from vlib.clih import CR, EOF, INTERRUPT
from vlib.core import Sub, ensure, eq

from nessaid_cli.cli import CliAlreadyRunning


class Instant(selectors.SelectSelector):
    """Nothing waits for real: the clock of the loop is moved instead."""

    def __init__(self):
        super().__init__()
        self.now = 0.0
        self.signals = []    # after how many waits CTRL+C arrives from outside
        self.alive = lambda: False

    def select(self, timeout=None):
        # (in the moment in which the loop ends it would hit asyncio instead)
        if self.signals and self.alive():
            self.signals[0] -= 1
            if self.signals[0] <= 0:
                self.signals.pop(0)
                self.arrived += 1
                raise KeyboardInterrupt()
        if timeout and timeout > 0:
            self.now += timeout
        ready = super().select(0)
        if timeout is None and not ready:
            self.now += 1
        return ready


class Loop(asyncio.SelectorEventLoop):
    def __init__(self):
        self._instant = Instant()
        super().__init__(self._instant)

    def time(self):
        return self._instant.now


class Failed(Exception):
    pass


class Life:
    """What the classes below have in common: they note what happens to them."""

    def note(self, *what):
        self.book.append(list(what))

    def say(self, text):
        self.print(text)
        return text

    async def hook(self, name):
        self.note(name, self.running, bool(self.parent and self.parent.running))
        self.print("<%s>" % name)
        if self.plan["slow"]:
            await asyncio.sleep(1)
        if self.plan["raise"] == name and not self.parent:
            raise Failed(name)
        if self.plan.get("early") == [name, bool(self.parent)]:
            self.exit_loop()

    async def preloop(self):
        await self.hook("preloop")

    async def postintro(self):
        await self.hook("postintro")

    async def on_exit(self):
        await self.hook("on_exit")

    async def handle_eof(self):
        self.note("eof", self.running)
        if self.plan["eof"] or self.feed.closed:
            self.exit_loop()

    async def handle_keyboard_interrupt(self):
        self.note("interrupt", self.running)
        if self.plan["interrupt"]:
            self.exit_loop()

    def top(self):
        cli = self
        while cli.parent:
            cli = cli.parent
        return cli

    @property
    def plan(self):
        return self.top().plans[-1]

    @property
    def book(self):
        return self.top().notes

    @property
    def feed(self):
        return self.top().feeds[-1]

    def again(self):
        try:
            self.start()
            self.note("ran twice")
        except CliAlreadyRunning:
            self.note("already", self.running)

    def boom(self):
        self.note("boom")
        raise Failed("boom")

    async def later(self):
        await asyncio.sleep(3)
        self.note("later", self.running)


GRAMMAR = """
token STR StringToken();
g: "say" STR << call note("say", $2); >> | "quit" << call note("quit"); call exit_loop(); >> | "again" << call again(); >> | "boom" << call boom(); >> | "later" << call later(); >>;
other: "hop" << call note("hop"); >> | "quit" << call note("quit"); call exit_loop(); >>;
"""


class Plain(Life, clih.NessaidCli):
    def __init__(self, loop, streams, err):
        self.streams = streams
        super().__init__(clih.compile_grammar(GRAMMAR), loop=loop, prompt="# ", stdout=streams.out, stderr=err)

    def get_token_classes(self):
        return clih.TOKEN_CLASSES

    def start(self, **kw):
        return self.run(self.plan["grammar"], **kw)

    def lines(self, **kw):
        return self.cmdloop(self.plan["grammar"], **kw)


class Command(Life, clih.NessaidCmd):
    """token STR StringToken();"""

    def start(self, **kw):
        return self.run(**kw)

    def lines(self, **kw):
        return self.cmdloop(**kw)

    def do_say(self, word):
        """
        "say" STR << $word = $2; >>
        """
        self.note("say", word)

    def do_quit(self):
        """
        "quit"
        """
        self.note("quit")
        self.exit_loop()

    def do_again(self):
        """
        "again"
        """
        self.again()

    def do_boom(self):
        """
        "boom"
        """
        self.boom()

    async def do_later(self):
        """
        "later"
        """
        await self.later()

    async def do_down(self):
        """
        "down"
        """
        self.note("down")
        await self.enter_context(type(self), prompt="child# ")

    def do_leave(self):
        """
        "leave"
        """
        self.note("leave")
        if self.parent:
            self.parent.exit_loop()
        self.exit_loop()


# ---------------------------------------------------------------- reference

COMMANDS = {
    "g": {"say": ["seq", [["kw", "say"], ["str"]]], "quit": ["kw", "quit"], "again": ["kw", "again"], "boom": ["kw", "boom"], "later": ["kw", "later"]},
    "other": {"hop": ["kw", "hop"], "quit": ["kw", "quit"]},
}
COMMANDS["cmd"] = dict(COMMANDS["g"], down=["kw", "down"], leave=["kw", "leave"])


class Model:
    def __init__(self, plan, cmd):
        self.plan = plan
        self.cmd = cmd
        self.lines = list(plan["lines"])
        self.book = []
        self.screen = ""
        self.raised = None

    def hook(self, name, depth):
        self.book.append([name, True, depth > 0])
        self.screen += "<%s>\n" % name
        if self.plan["raise"] == name and not depth:
            raise Failed(name)

    def error(self):
        if self.book[-1:] != ["error"]:
            self.book.append("error")

    def loop(self, depth=0):
        """Runs one loop; true when the one above is to be left as well."""
        prompt = "child# " if depth else "# "
        commands = COMMANDS.get("cmd" if self.cmd else self.plan["grammar"])
        up = False
        if commands is None:
            raise Failed("unknown grammar")
        try:
            self.hook("preloop", depth)
            if not depth and self.plan["intro"] is not None:
                self.screen += self.plan["intro"] + "\n"
            self.hook("postintro", depth)
            pending = ""
            while self.plan.get("early") not in (["preloop", depth > 0], ["postintro", depth > 0]):
                text, end = self.lines.pop(0) if self.lines else ["", "closed"]
                self.screen += ("" if pending else prompt) + text + "\r\n"
                if end in ("eof", "closed"):
                    self.book.append(["eof", True])
                    if self.plan["eof"] or end == "closed":
                        break
                    continue
                if end == "interrupt":
                    self.book.append(["interrupt", True])
                    if self.plan["interrupt"]:
                        break
                    continue
                text = pending + text
                pending = ""
                if text.rstrip().endswith("\\"):
                    pending = text.rstrip()[:-1]
                    if not pending:
                        raise NotImplementedError
                    continue
                got = script.parse(text, commands)
                if got == "error":
                    self.error()
                elif got is None:
                    pass
                elif got[0] == "say":
                    self.book.append(got)
                elif got[0] == "again":
                    self.book.append(["already", True])
                elif got[0] == "boom":
                    self.book.append(["boom"])
                    self.error()
                elif got[0] == "later":
                    self.book.append(["later", True])
                else:
                    self.book.append(got)
                    if got[0] == "down":
                        if self.loop(depth + 1):
                            break
                    elif got[0] == "leave":
                        up = True
                        break
                    elif got[0] == "quit":
                        break
        finally:
            self.hook("on_exit", depth)
        return up

    def run(self):
        try:
            self.loop()
        except Failed:
            self.raised = True


def run(case, rec):
    loop = Loop()
    before = time.sleep
    asyncio.set_event_loop(loop)
    try:
        live(case, rec, loop)
    finally:
        time.sleep = before
        asyncio.set_event_loop(clih.loop())
        loop.run_until_complete(loop.shutdown_asyncgens())
        loop.close()


def live(case, rec, loop):
    streams = clih.Streams()
    notes = []
    err = script.Err(notes)
    cmd = case["class"] == "cmd"
    if cmd:
        cli = Command(loop=loop, prompt="# ", stdout=streams.out, stderr=err, disable_default_hooks=True)
    else:
        cli = Plain(loop, streams, err)
    cli.notes, cli.plans, cli.feeds = notes, [], []
    loop.set_exception_handler(lambda l, c: None)
    for number, plan in enumerate(case["runs"]):
        plan = dict(plan)
        if cmd and plan["grammar"] != "g":
            plan["grammar"] = "g"
        note = {"class": case["class"], "runs": case["runs"][:number + 1]}
        model = Model(plan, cmd)
        model.run()
        del notes[:]
        start = len(streams.out.getvalue())
        cli.plans.append(plan)
        keys = []
        for text, end in plan["lines"]:
            keys += list(text) + [{"cr": CR, "eof": EOF, "interrupt": INTERRUPT}[end]]
        cli.feeds.append(clih.Keys(cli, keys))
        kw = {} if plan["intro"] is None else {"intro": plan["intro"]}
        eq("running before the loop", cli.running, False, **note)
        raised = None
        if plan["how"] == "loop":
            try:
                loop.run_until_complete(asyncio.wait_for(cli.lines(**kw), 5000))
            except asyncio.TimeoutError:
                ensure(False, "the loop does not end", **note)
            except Exception as e:
                raised = e
            eq("the failure reaches the caller", raised is not None, bool(model.raised), failure=repr(raised), **note)
        elif plan["how"] == "run":
            time.sleep = lambda s: None
            main = asyncio.ensure_future(asyncio.sleep(5000), loop=loop)
            told = []
            cli.readline.handle_external_keyboard_interrupt = lambda: told.append(True)
            loop._instant.signals, loop._instant.arrived = list(plan.get("signals", [])), 0
            loop._instant.alive = lambda: cli.running
            cli.start(**kw)
            loop._instant.signals = []
            eq("interrupts from outside reach the line editor", len(told), loop._instant.arrived, **note)
            if told:
                rec.label("interrupted from outside")
            ensure(not main.done(), "the loop does not end", **note)
            main.cancel()
        elif plan["how"] == "task":
            async def main():
                cli.start(**kw)
                eq("running once started", cli.running, True, **note)
                try:
                    cli.start()
                    ensure(False, "started twice", **note)
                except CliAlreadyRunning:
                    pass
                for _ in range(5000):
                    if not cli.running:
                        return
                    await asyncio.sleep(1)
                ensure(False, "the loop does not end", **note)
            loop.run_until_complete(main())
        else:
            # a loop that is cancelled while it waits
            feed = cli.feeds[-1]

            async def main():
                waiting = asyncio.Event()
                given = feed.readchar

                async def readchar():
                    if feed.at == len(keys):
                        waiting.set()
                        await asyncio.Event().wait()
                    return await given()
                cli.readline.readchar = readchar
                task = asyncio.ensure_future(cli.lines(**kw))
                other = asyncio.ensure_future(waiting.wait())
                await asyncio.wait([task, other], return_when=asyncio.FIRST_COMPLETED, timeout=5000)
                left = not task.done()
                if left:
                    eq("running while it waits", cli.running, True, **note)
                    task.cancel()
                else:
                    other.cancel()
                try:
                    await task
                except (asyncio.CancelledError, Exception):
                    pass
                return left
            if loop.run_until_complete(main()):
                # it was left from outside
                want = [b for b in notes if b[0] == "on_exit"]
                levels = len([b for b in notes if b[0] == "preloop"])
                eq("every loop entered was left once", len(want), levels, **note)
                eq("running after it was cancelled", cli.running, False, **note)
                rec.label("cancelled")
                continue
        eq("running after the loop", cli.running, False, **note)
        eq("grammars left entered", len(cli._grammar_stack) if hasattr(cli, "_grammar_stack") else 0, 0, **note)
        eq("what happened", [list(n) if isinstance(n, list) else n for n in notes], model.book, errors=err.getvalue(), **note)
        eq("screen", rendered(streams.out.getvalue()[start:]), rendered(model.screen), **note)
        rec.label(plan["how"])
        if model.raised:
            rec.label("%s failed" % (plan["raise"] if plan["grammar"] != "nosuch" else "entering the grammar"))
        if plan.get("early"):
            rec.label("asked to end in %s" % plan["early"][0])
        for b in model.book:
            rec.label(b if isinstance(b, str) else b[0])
    if len(case["runs"]) > 1:
        rec.nontriv()


LINE = st.one_of(
    st.tuples(st.sampled_from(["say a", "say bb", "say \"c d\"", "again", "boom", "later", "hop", "down", "down", "leave", "quit", "wrong", "", "  ", "say", '"', "say \\", "say \\", "x\\"]),
              st.just("cr")),
    st.tuples(st.sampled_from(["", "", "say", "quit"]), st.sampled_from(["eof", "interrupt", "interrupt"]))).map(list)


def clean(plan):
    """A continued line is followed by a line or by what ends the loop."""
    out = []
    for text, end in plan["lines"]:
        if out and out[-1][0].endswith("\\") and end != "cr" and not plan[end]:
            continue
        out.append([text, end])
    return dict(plan, lines=out)


def cases():
    plan = st.fixed_dictionaries({
        "how": st.sampled_from(["loop", "loop", "run", "task", "cancel"]),
        "grammar": st.sampled_from(["g"] * 5 + ["other", "other", "nosuch"]),
        "intro": st.sampled_from([None, "Hello", "", "two\nlines"]),
        "raise": st.sampled_from([None] * 5 + ["preloop", "postintro", "on_exit"]),
        "early": st.sampled_from([None] * 6 + [[name, child] for name in ("preloop", "postintro", "on_exit") for child in (False, True)]),
        "signals": st.one_of(st.just([]), st.lists(st.integers(1, 20), max_size=3)),
        "slow": st.booleans(), "eof": st.booleans(), "interrupt": st.integers(0, 2).map(lambda n: n == 0),
        "lines": st.lists(LINE, max_size=7)}).map(clean)
    return st.fixed_dictionaries({"class": st.sampled_from(["cli", "cmd"]), "runs": st.lists(plan, min_size=1, max_size=3)})


SUBS = [
    Sub("lives", cases, run, 150, 6000,
        "interfaces and command classes run up to three times, as a coroutine, by run() with and without a running event loop, or cancelled while waiting, with hooks that are slow or fail, handlers that start it again, "
        "fail or leave, loops asked to end before they read a line, nested contexts, interrupts and ends of input, continued lines cut off by the end of the loop; non-trivial: more than one run"),
]
ASSUMPTIONS = ["time does not pass for real: the clock of the event loop is moved", "what a failure outside a coroutine that somebody awaits does is only that the loop ends"]
