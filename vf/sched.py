"""A controlled scheduler: storage calls of concurrent requests are suspension points released one at a time.

Requests run as asyncio tasks on the real event loop; a storage call blocks on a future until the controller releases
it. The controller acts only when nothing else can run (the loop's ready queue is empty), so an execution is fully
determined by the sequence of choices, which can be enumerated, sampled or replayed."""
import asyncio
import time

from vf import oauth as O


class Injected(Exception):
    """A failure of the application's storage."""


# storages fail with errors of many kinds; none of them is the client's doing
KINDS = [Injected] + [type("Injected" + k.__name__, (Injected, k), {}) for k in (OSError, KeyError, ValueError, TimeoutError, TypeError, RuntimeError, AttributeError, LookupError, ConnectionError, NotImplementedError)]
TURN = [0]


def failure(text):
    TURN[0] += 1
    return KINDS[TURN[0] % len(KINDS)](text)


class Stuck(Exception):
    pass


class Run:
    def __init__(self, store, phases=("enter",), names=None):
        self.stores = store if isinstance(store, list) else [store]
        self.phases, self.names = phases, names
        self.waiting = []       # [tag, phase, name, future]
        self.trace = []         # (tag, phase, name)
        self.faults = {}        # (tag, phase, k-th point of that tag) -> "raise" | "cancel"
        self.points = {}        # tag -> number of points passed
        self.injected = []      # what was injected, with the call it hit
        self.tasks = {}
        self.results = {}

    async def gate(self, phase, name, args):
        if phase not in self.phases or (self.names is not None and name not in self.names):
            return
        tag = O.TAG.get()
        k = self.points.get(tag, 0)
        self.points[tag] = k + 1
        fut = asyncio.get_running_loop().create_future()
        entry = [tag, phase, name, fut]
        self.waiting.append(entry)
        try:
            await fut
        finally:
            if entry in self.waiting:
                self.waiting.remove(entry)
        self.trace.append((tag, phase, name))
        if self.faults.get((tag, k)) == "raise":
            self.injected.append((tag, "raise", phase, name))
            raise failure("storage failure in %s (%s)" % (name, phase))

    async def _drive(self, tag, make):
        O.TAG.set(tag)
        try:
            got = await make()
            self.results[tag] = ("ok", got if isinstance(got, dict) else O.Reply(got))
        except asyncio.CancelledError:
            self.results[tag] = ("cancelled", None)
        except Exception as exc:
            self.results[tag] = ("err", exc)
        finally:
            self.trace.append((tag, "end", None))

    def job(self, tag, make):
        """A job whose start is itself a scheduling choice."""
        async def start():
            await self.gate(self.phases[0], self.names[0] if self.names else "start", ())
            self.trace.append((tag, "start", None))
            return await make()
        return (tag, start)

    async def _settle(self):
        """Until nothing is runnable."""
        loop = asyncio.get_running_loop()
        idle = 0
        t0 = time.monotonic()
        while True:
            await asyncio.sleep(0)
            if not loop._ready:
                idle += 1
                if idle >= 2:
                    # timers or worker threads inside the library: give them real time
                    if not self.waiting and any(not t.done() for t in self.tasks.values()):
                        if time.monotonic() - t0 > 5:
                            raise Stuck
                        await asyncio.sleep(0.01)
                        idle = 0
                        continue
                    return
            else:
                idle = 0

    async def _main(self, jobs, choose):
        for st in self.stores:
            st.gate = self.gate
        try:
            loop = asyncio.get_running_loop()
            self.tasks = {tag: loop.create_task(self._drive(tag, make)) for tag, make in jobs}
            choices = []
            while True:
                await self._settle()
                # cancellations planned for a point just reached
                hit = False
                for e in list(self.waiting):
                    k = self.points[e[0]] - 1
                    if self.faults.get((e[0], k)) == "cancel":
                        self.faults.pop((e[0], k))
                        self.injected.append((e[0], "cancel", e[1], e[2]))
                        self.tasks[e[0]].cancel()
                        hit = True
                if hit:
                    continue
                if not self.waiting:
                    break
                options = sorted(range(len(self.waiting)), key=lambda i: (str(self.waiting[i][0]), i))
                i = choose(len(options), len(choices), [self.waiting[o][0] for o in options]) if len(options) > 1 else 0
                choices.append((i, len(options)))
                e = self.waiting.pop(options[i])
                if not e[3].done():
                    e[3].set_result(None)
            return choices
        finally:
            for st in self.stores:
                st.gate = None
            for t in self.tasks.values():
                if not t.done():
                    t.cancel()
            await asyncio.gather(*self.tasks.values(), return_exceptions=True)

    def go(self, jobs, choose):
        """jobs: [(tag, callable returning the endpoint's awaitable)]. Returns the list of (choice, options)."""
        return O.run(self._main(jobs, choose))


def pct(rng, depth=3, horizon=25):
    """Random priorities with a few changes: reaches orders that uniform choice rarely does."""
    prio = {}
    changes = {rng.randrange(1, horizon) for _ in range(depth)}

    def choose(n, i, tags):
        for t in tags:
            prio.setdefault(t, rng.random())
        best = max(range(n), key=lambda j: prio[tags[j]])
        if i in changes:
            prio[tags[best]] = -rng.random()
            best = max(range(n), key=lambda j: prio[tags[j]])
        return best
    return choose


def enumerate_all(execute, limit):
    """Depth-first over all choice sequences. execute(choose) -> [(choice, options)]. Returns (executions, complete)."""
    prefix = []
    n = 0
    while True:
        seq = execute(lambda k, i, tags: prefix[i] if i < len(prefix) else 0)
        n += 1
        j = len(seq) - 1
        while j >= 0 and seq[j][0] + 1 >= seq[j][1]:
            j -= 1
        if j < 0:
            return n, True
        if n >= limit:
            return n, False
        prefix = [s[0] for s in seq[:j]] + [seq[j][0] + 1]
