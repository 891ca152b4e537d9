"""C28: answers wait for storage; failures and cancellations are neither success nor remembered."""
import asyncio
import copy
import hashlib

from vf import core, keys, sched
from vf import oauth as O
from vf.checks import c25 as W
from vf.pristine import Pristine
from vf.psi import jwk

RULE = ("Requests of every kind (authorization, consent, code redemption with OpenID Connect, refresh, client credentials, revocation; valid and faulty) run alone and in small concurrent groups on one provider whose storage "
        "suspends at the entry and return of every call; a storage failure or a cancellation is injected at every point of every kind, and at several points of groups. Monitors: no storage call of an answered request starts, "
        "runs or ends after its answer; a request whose storage failed is not answered with success or blamed on the client; afterwards probe requests of every kind, also repeating those that failed, get the answers and cause the storage "
        "operations that a provider made in a fresh process on the same stored state gives. The same requests also run on storages whose calls take seconds to hours (of the event loop's time, which jumps over waits) and must get the answers of a fast one. A case is one executed history; distinct ones are counted by event order, faults and probes.")

SERVER = {"server_error", "temporarily_unavailable"}


def success(kind, rep):
    if isinstance(rep, dict):
        return True
    if kind.startswith("authorize") or kind == "consent":
        return any(k == "code" for k, _ in rep.params())
    return rep.status == 200


def error_of(rep):
    if isinstance(rep, dict):
        return None
    if rep.location is not None:
        return dict(rep.params()).get("error")
    return rep.error


def dump(s):
    return (s.codes, s.refresh, s.access, s.revoked, s.n)


def load(s, state):
    s.codes, s.refresh, s.access, s.revoked, s.n = copy.deepcopy(state)


def probe(s, p, probes):
    """Run the probes one after the other and describe what each gave."""
    out = []
    for slot, job in probes:
        del s.log[:]
        run = sched.Run(s)
        tag = "P%d" % slot
        try:
            run.go([(tag, W.launch(job, slot, s, p))], lambda n, i, t: 0)
        except sched.Stuck:
            out.append(("never ends", []))
            continue
        st, rep = run.results[tag]
        out.append((W.norm_reply(s, st, rep), W.norm_events(s, tag)))
    return out


def compute(state, probes):
    s, p = W.world()
    load(s, state)
    return probe(s, p, probes)


class Lab:
    def __init__(self, c, rng, pristine):
        self.c, self.rng, self.pristine = c, rng, pristine
        self.plain = {}

    def job(self, kind, i=None):
        rng = self.rng
        i = rng.randrange(W.N) if i is None else i
        if kind.startswith("refresh") and i == 3 or kind in ("cc", "cc-all", "cc-bad-scope") and i == 2:
            i = 0
        return (kind, i, rng.randrange(W.N), tuple(rng.sample(["openid", "a", "b"], rng.randint(1, 3))))

    def history(self, jobs, faults, choose, phases, probing=True):
        """Run jobs with faults, judge them, then probe. Returns the number of suspension points each job passed."""
        c, rng = self.c, self.rng
        s, p = W.world()
        for slot, j in enumerate(jobs):
            W.prepare(j, slot, s)
        run = sched.Run(s, phases)
        run.faults = dict(faults)
        try:
            run.go([("J%d" % slot, W.launch(j, slot, s, p)) for slot, j in enumerate(jobs)], choose)
        except sched.Stuck:
            c.fail("requests never end: every storage call returned but a request is still waiting", jobs=jobs, faults=faults, trace=run.trace)
            return {}
        detail = dict(jobs=jobs, injected=run.injected, trace=run.trace)
        points = dict(run.points)
        for slot, j in enumerate(jobs):
            tag = "J%d" % slot
            st, rep = run.results[tag]
            mine = [(ph, nm) for t, ph, nm in run.trace if t == tag]
            hit = [x for x in run.injected if x[0] == tag]
            if st == "ok":
                end = mine.index(("end", None))
                c.check(not mine[end + 1:], "storage operations of a request went on after it had been answered", job=j, after=mine[end + 1:], answer=rep, **detail)
                c.count("answers-in-order")
                done = [nm for ph, nm in mine[:end] if ph == "exit"]
                if "exit" in phases and success(j[0], rep):
                    need = {"authorize": "save_authorization_code", "revoke": "revoke_token", "consent": None}.get(j[0].split("-")[0], "create_access_token")
                    c.check(need is None or need in done, "success was answered before the storage had done what it announces", job=j, answer=rep, **detail)
                    c.count("success:" + j[0].split("-")[0])
            raised = [x for x in hit if x[1] == "raise"]
            if raised:
                c.count("failed:" + raised[0][3])
                if st == "ok":
                    usual = self.alone(j, slot)
                    err = error_of(rep)
                    c.check(not success(j[0], rep), "a request whose storage failed was answered with success", job=j, answer=rep, **detail)
                    c.check(err in SERVER or W.norm_reply(s, st, rep) == usual and not usual_success(usual), "a storage failure was reported as the client's fault", job=j, answer=rep, usual=usual, **detail)
                    c.count("failure-answered")
                else:
                    c.count("failure-raised")
            if any(x[1] == "cancel" for x in hit):
                c.count("cancelled:" + hit[0][3])
            if not hit:
                c.check(st == "ok", "a request whose storage worked raised", job=j, got=rep, **detail)
        stray = [e for e in s.log if e.tag is None]
        c.check(not stray, "storage operations outside any request", stray=stray, **detail)
        h = hashlib.blake2b(repr((jobs, run.trace, run.injected)).encode(), digest_size=8).hexdigest()
        c.case("history:%d" % len(jobs), h, sample=(jobs, run.injected, run.trace[:12]))
        if probing:
            self.probes(s, p, jobs, detail)
        return points

    def alone(self, job, slot):
        k = (job, slot)
        if k not in self.plain:
            s, p = W.world()
            W.prepare(job, slot, s)
            self.plain[k] = probe(s, p, [(slot, job)])[0][0]
        return self.plain[k]

    def probes(self, s, p, jobs, detail):
        c, rng = self.c, self.rng
        # the same requests again, then others of every kind on codes and tokens of their own
        probes = [(slot, j) for slot, j in enumerate(jobs) if rng.random() < 0.8]
        for n in range(rng.randint(1, 4)):
            slot = 10 + n
            j = self.job(rng.choice(["code", "code", "refresh", "authorize", "cc", "revoke", "consent", "code-bad-verifier", "refresh-narrow"]))
            W.prepare(j, slot, s)
            probes.append((slot, j))
        rng.shuffle(probes)
        state = dump(s)
        want = self.pristine(copy.deepcopy(state), probes)
        if want is None or want[0] != "ok":
            raise core.Inconclusive("a fresh provider could not be observed: %r" % (want,))
        got = probe(s, p, probes)
        for (slot, j), g, w in zip(probes, got, want[1]):
            c.count("probes")
            if w[0][0] == 200:
                c.count("probes-ok")
            c.check(g[0] == w[0], "after a failure or cancellation a request is answered otherwise than by a new provider on the same storage", probe=j, got=g[0], fresh=w[0], **detail)
            c.check(g[1] == w[1], "after a failure or cancellation a request uses the storage otherwise than with a new provider", probe=j, got=g[1], fresh=w[1], **detail)


def usual_success(norm):
    return norm[0] == 200 or norm[0] == "consent" or len(norm) == 4 and any(k == "code" for k, _ in norm[3])


def run(c):
    rng = c.sub_rng("main")
    k = keys.seeded_oct(rng, 48)
    W.KEY = (jwk(k, kid="k"), k)
    pristine = Pristine(compute)
    try:
        explore(c, rng, Lab(c, rng, pristine))
    finally:
        pristine.close()


def explore(c, rng, lab):
    kinds = list(dict.fromkeys(W.KINDS))
    # every kind, alone, every point, both faults; failures before (enter) and after (exit) the effect
    for kind in kinds:
        for rep in range(c.n(2, 8)):
            j = lab.job(kind)
            if rep == 0 and kind in ("code", "refresh"):
                j = (kind, 0, 1, ("openid", "a"))
            n = lab.history([j], {}, lambda n, i, t: rng.randrange(n), ("enter", "exit"), probing=rep == 0).get("J0", 0)
            for k in range(n):
                for what in ("raise", "cancel"):
                    lab.history([j], {("J0", k): what}, lambda n, i, t: rng.randrange(n), ("enter", "exit"))
            for _ in range(c.n(3, 30)):
                # two faults in one request: the second hits whatever cleaning up the first one does
                a = rng.randrange(max(1, n))
                f = {("J0", a): rng.choice(["raise", "cancel"]), ("J0", a + rng.randint(1, 3)): rng.choice(["raise", "cancel"])}
                lab.history([j], f, lambda n, i, t: rng.randrange(n), ("enter", "exit"))
    # groups, with faults in some
    for i in range(c.n(250, 3500)):
        jobs = [lab.job(rng.choice(W.KINDS)) for _ in range(rng.randint(2, 5))]
        faults = {("J%d" % rng.randrange(len(jobs)), rng.randrange(14)): rng.choice(["raise", "cancel"]) for _ in range(rng.choice([0, 1, 2, 3, 5]))}
        lab.history(jobs, faults, sched.pct(rng, horizon=40) if i % 2 else (lambda n, i, t: rng.randrange(n)), ("enter", "exit"))
    # many failures on one provider: nothing may pile up
    for _ in range(c.n(6, 60)):
        pile(c, rng, lab)
    for kind in kinds:
        for _ in range(c.n(25, 250)):
            slow(c, rng, lab, lab.job(kind))
    c.require("slow-seconds", 100000)
    c.require("probes", 1500)
    c.require("probes-ok", 300)
    c.require("failure-raised", 100)
    for n in ("find_client", "find_user", "get_authorization_code", "delete_authorization_code", "create_access_token", "create_refresh_token", "get_refresh_token", "revoke_token", "save_authorization_code", "get_key_info", "get_userinfo"):
        c.require("failed:" + n, 3)
        c.require("cancelled:" + n, 3)


class SlowLoop(asyncio.SelectorEventLoop):
    """An event loop whose time stands still while there is work and jumps to the next timer when there is none."""
    jump = 0.0

    def time(self):
        return super().time() + self.jump

    def _run_once(self):
        due = [h.when() for h in self._scheduled if not h.cancelled()]
        if not self._ready and due:
            self.jump += max(0.0, min(due) - self.time())
        super()._run_once()


def slow(c, rng, lab, j):
    """One request on a storage whose calls take seconds to hours: the answer is that of a fast storage."""
    s, p = W.world()
    W.prepare(j, 0, s)
    top = rng.choice([0.2, 2, 10, 40, 100, 1000, 20000])
    waits = []

    async def gate(phase, name, args):
        d = rng.random() * top if rng.random() < 0.8 else top
        waits.append((phase, name, round(d, 2)))
        await asyncio.sleep(d)

    async def drive():
        O.TAG.set("P0")
        try:
            return ("ok", await W.launch(j, 0, s, p)())
        except Exception as exc:
            return ("err", exc)

    s.gate = gate
    loop = SlowLoop()
    try:
        st, rep = loop.run_until_complete(drive())
    finally:
        s.gate = None
        loop.close()
    if st == "ok" and not isinstance(rep, dict):
        rep = O.Reply(rep)
    got, want = W.norm_reply(s, st, rep), lab.alone(j, 0)
    c.case("slow", repr((j, waits)), sample=(j, waits[:6]))
    c.check(got == want, "on a slow storage a request gets another answer than on a fast one", job=j, got=got, fast=want, seconds=waits)
    c.count("slow:" + j[0])
    c.count("slow-seconds", int(sum(w[2] for w in waits)))


def pile(c, rng, lab):
    """A long run of failing requests on one provider, then probes."""
    s, p = W.world()
    jobs = []
    for n in range(rng.choice([10, 40, 150])):
        slot = 100 + n
        j = lab.job(rng.choice(["code", "code", "refresh", "authorize", "cc", "revoke"]))
        W.prepare(j, slot, s)
        run = sched.Run(s, ("enter", "exit"))
        tag = "J%d" % slot
        run.faults = {(tag, rng.randrange(10)): rng.choice(["raise", "cancel"])}
        try:
            run.go([(tag, W.launch(j, slot, s, p))], lambda n, i, t: 0)
        except sched.Stuck:
            c.fail("a request never ends after earlier failures", jobs=jobs, job=j, trace=run.trace)
            return
        jobs.append((slot, j, run.injected))
    c.case("pile", repr(jobs), sample=jobs[:3])
    c.count("piled", len(jobs))
    lab.probes(s, p, [], dict(after=jobs))
    # and what failed may be tried again
    again = [(slot, j) for slot, j, _ in rng.sample(jobs, 5)]
    want = lab.pristine(copy.deepcopy(dump(s)), again)
    if want is None or want[0] != "ok":
        raise core.Inconclusive("a fresh provider could not be observed: %r" % (want,))
    got = probe(s, p, again)
    c.check(got == want[1], "after many failures requests are answered otherwise than by a new provider on the same storage", got=got, fresh=want[1], jobs=jobs)
