"""C19: servers and clients in one process do not influence each other."""
import asyncio
import functools
import itertools
import re
from datetime import timedelta

from .. import boot, wire, sign, sec, evspec, vtn
from ..core import Outcome, Product, exc_key
from ..vloop import World
from ..ven import Net, AutoVTN, make_client, LOG_PERIOD, CLEAN_PERIOD
from .c21 import declare, offered

LEVEL = "model_checking"
ASSUMPTIONS = ["signed messages carry nonces of their own: a message that was delivered to one server is not delivered to another server in the process",
               "openleadr.hooks, which hooks into all servers of the process by design, and logging are not used",
               "generated ids are compared up to renaming, signatures by the certificate that verifies them"]
ID = re.compile(r"abc00000-0000-4000-8000-[0-9a-f]{12}")


class Log:
    """what one party of the process shows to the outside, with generated ids renamed in order of appearance"""

    def __init__(self):
        self.ids, self.lines = {}, []

    def __call__(self, *what):
        self.lines[-1][1].append(ID.sub(lambda m: self.ids.setdefault(m.group(), f"id{len(self.ids) + 1}"), " ".join(map(str, what))))

    def step(self, name):
        self.lines.append((name, []))


def plain(body):
    """an XML message without its signature, and who signed it"""
    if not body:
        return "(empty)"
    root = wire.etree.fromstring(body.encode() if isinstance(body, str) else body)
    who = sign.signer(root)
    for s in root.findall(f"{{{sign.DS}}}Signature"):
        root.remove(s)
    return f"[signed by {who}] " + wire.etree.tostring(root).decode()


class Agent:
    """A server or a client with its workload: step() executes the next step."""
    steps = ()

    def __init__(self, cfg, loop):
        self.cfg, self.loop, self.log, self.n = cfg, loop, Log(), 0
        self.gate = self.task = None

    def more(self):
        return self.n < len(self.steps)

    def step(self):
        name = self.steps[self.n]
        self.n += 1
        self.log.step(name)
        try:
            getattr(self, name)()
        except Exception as e:
            self.log("exception", exc_key(e), e)
        return name

    async def wait(self, where):
        """the application's handler takes its time when the current step is one that begins an exchange"""
        if self.gate == "armed":
            self.gate = self.loop.create_future()
            self.log("waiting in", where)
            await self.gate

    def begin(self, coro):
        self.gate = "armed"
        self.task = self.loop.create_task(coro)
        self.loop.settle()

    def end(self):
        if asyncio.isfuture(self.gate):
            self.gate.set_result(None)
        self.gate = None
        self.loop.settle()
        if self.task.done():
            return self.task.result()
        self.log("not finished")


# -- servers -------------------------------------------------------------------------------------------------------------------------------------

# lookup, own handlers, coroutines, signing certificate, verify, TLS, vtn_id, poll frequency, a number that makes the content its own
SERVERS = {
    "plain": dict(no=1),
    "full": dict(no=2, lookup=("ven",), cert="vtn", tls=True, vtn_id="OtherVTN", freq=30, style="async", handlers=True),
    "lookup": dict(no=3, lookup=("ven",), verify=False, tls=True, handlers=True, known=("ven2",)),
    "external": dict(no=4, lookup=("fp",), tls=True, cert="ven2", external=True, style="async", handlers=True, freq=60),
}


class Server(Agent):
    steps = ("create", "query", "register", "offer", "second_ven", "add", "poll_begin", "poll_end", "opt", "data", "strangers", "cancel_event", "request", "nonsense", "leave", "look")

    def c(self, k, default=None):
        return self.cfg.get(k, default)

    def create(self):
        no, kw = self.c("no"), {}
        fps = {v: sign.fingerprint(v) for v in self.c("known", ("ven1", "ven2"))}

        async def ven_lookup(ven_id):
            self.log("ven_lookup", ven_id)
            await self.wait("ven_lookup")
            return {"ven_id": ven_id, "ven_name": ven_id, "fingerprint": fps[ven_id], "registration_id": f"reg{no}"} if ven_id in fps else None

        def fingerprint_lookup(ven_id):
            self.log("fingerprint_lookup", ven_id)
            return fps.get(ven_id)
        if "ven" in self.c("lookup", ()):
            kw["ven_lookup"] = ven_lookup
        if "fp" in self.c("lookup", ()):
            kw["fingerprint_lookup"] = fingerprint_lookup
        if self.c("cert"):
            kw.update(cert=sign.path(self.c("cert")), key=sign.path(self.c("cert"), "key"))
        if self.c("freq"):
            kw["requested_poll_freq"] = timedelta(seconds=self.c("freq"))
        self.server = vtn.make_server(vtn_id=self.c("vtn_id", "TheVTN"), verify_message_signatures=self.c("verify", True), **kw)
        s = self.server
        if not self.c("handlers"):
            s.add_handler("on_update_report", lambda report: self.log("report", report))
            return

        def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            self.log("on_register_report", ven_id, resource_id, measurement, unit, scale)
            return (lambda data: self.log("data", data)), timedelta(seconds=10 * no)

        async def on_create(info):
            self.log("on_create_party_registration", sorted(info.items(), key=str))
            await self.wait("registration")
            return "ven1", f"reg{no}"
        s.add_handler("on_register_report", on_register_report)
        s.add_handler("on_create_party_registration", on_create)
        s.add_handler("on_cancel_party_registration", lambda p: self.log("on_cancel_party_registration", p))
        if self.c("external"):
            async def on_poll(ven_id):
                self.log("on_poll", ven_id)
                await self.wait("poll")

            async def on_created_event(ven_id, event_id, opt_type):
                self.log("on_created_event", ven_id, event_id, opt_type)
            s.add_handler("on_poll", on_poll)
            s.add_handler("on_created_event", on_created_event)
            s.add_handler("on_request_event", lambda ven_id: self.log("on_request_event", ven_id))

    async def send(self, xml, ven="ven1", endpoint=None, bad=False, prefix=vtn.PREFIX):
        kw = {}
        if self.c("tls"):
            kw = dict(secure=True, der=sign.der(ven))
            if self.c("verify", True) and not bad:
                self.sent = getattr(self, "sent", 0) + 1
                xml = sign.sign(xml, ven, nonce=f"nonce-{self.c('no')}-{id(self)}-{self.sent}")
        try:
            r = await vtn.send(self.server, xml, endpoint or vtn.ENDPOINT[vtn.msg_type(xml)], prefix=prefix, **kw)
        except Exception as e:
            self.log("escaped", exc_key(e), e)
            return None
        self.log(r.status, plain(r.body) if r.status == 200 else r.body)
        return r

    def post(self, *a, **kw):
        return self.loop.run(self.send(*a, **kw))

    def query(self):
        self.post(wire.query_registration())

    def register(self):
        self.post(wire.create_party_registration("ven1", "ven1"))

    def offer(self):
        m = ["voltage", "current", "energyReal", "powerReal", "temperature"][self.c("no") % 5]
        desc, units = {"voltage": ("Voltage", "V"), "current": ("Current", "A"), "energyReal": ("RealEnergy", "Wh"), "powerReal": ("RealPower", "W"), "temperature": ("temperature", "celsius")}[m]
        r = self.post(wire.register_report([("spec1", "METADATA_TELEMETRY_USAGE", [wire.report_description("r1", f"dev{self.c('no')}", m, units, desc,
                                                                                                        ns="oadr" if m in ("current", "temperature") else "power")])], "ven1"))
        self.rr = [wire.read_report_request(q)["request_id"] for q in r.node.all("oadrReportRequest")] if r and r.status == 200 and r.body else []

    def second_ven(self):
        self.post(wire.create_party_registration("ven2", "ven2"), ven="ven2")
        self.post(wire.poll("ven2"), ven="ven2")

    def add(self):
        for ven, off in (("ven1", 0), ("ven2", 30)):
            now = boot.CLOCK.now()
            self.server.add_event(ven_id=ven, signal_name="SIMPLE", signal_type="level", event_id="e1", market_context=f"http://ctx/{self.c('no')}",
                                  intervals=[{"dtstart": now + timedelta(minutes=off), "duration": timedelta(minutes=10 * self.c("no")), "signal_payload": self.c("no")}],
                                  callback=lambda ven_id, event_id, opt_type: self.log("callback", ven_id, event_id, opt_type),
                                  delivery_callback=functools.partial(self.log, "delivered", ven))

    def poll_begin(self):
        self.begin(self.send(wire.poll("ven1")))

    def poll_end(self):
        self.end()

    def opt(self):
        self.post(wire.created_event("ven1", [("e1", 0, "optIn" if self.c("no") % 2 else "optOut")]))

    def data(self):
        for rr in self.rr or ["unknown"]:
            self.post(wire.update_report([{"request_id": rr, "specifier_id": "spec1", "intervals": [(boot.CLOCK.now(), "r1", 1.5 + self.c("no"))]}], "ven1"))

    def strangers(self):
        self.post(wire.poll("ven9"))
        self.post(wire.poll("ven1"), ven="stranger")
        self.post(wire.poll("ven1"), bad=True)
        self.post(wire.poll("ven1").replace("<ei:venID>ven1</ei:venID>", ""), bad=True)

    def cancel_event(self):
        self.server.cancel_event("ven1", "e1")

    def request(self):
        self.post(wire.request_event("ven1"))
        self.post(wire.request_event("ven2"), ven="ven2")

    def nonsense(self):
        self.post(wire.poll("ven1"), endpoint="EiEvent")
        self.post("<nothing/>", bad=True, endpoint="OadrPoll")
        self.post(wire.register_report([("spec1", "TELEMETRY_USAGE", [])], "ven1"), endpoint="EiRegisterParty")

    def leave(self):
        self.post(wire.cancel_party_registration(f"reg{self.c('no')}", "ven1"))
        self.post(wire.poll("ven1"))

    def look(self):
        s = self.server
        self.log(s.services["event_service"].vtn_id, s.http_path_prefix, evspec.snapshot(s.events), evspec.snapshot(s.events_updated), sorted(map(str, s.event_callbacks)),
                 sorted(map(str, s.registered_reports)))


# -- clients -------------------------------------------------------------------------------------------------------------------------------------

CLIENTS = {
    "plain": dict(no=5),
    "signed": dict(no=6, cert="ven1", fp=True, choice="optIn", hooks=True, name="ven1", power=(False, 60, 110), scale="k", async_=True),
    "unsigned": dict(no=7, cert="ven2", disable=True, choice="optOut", name="ven1", ven_id="ven7", scale="M", freq="PT1M"),
    "hooked": dict(no=8, hooks=True, choice=None, async_=True, name="ven8", ven_id="ven8", scale="m", obj=True),
}


class Client(Agent):
    steps = ("create", "declare", "start", "event_begin", "event_end", "update", "sample", "send_opt", "ask", "sample", "again", "cancel_opt", "clean", "leave", "look")

    def c(self, k, default=None):
        return self.cfg.get(k, default)

    def create(self):
        no = self.c("no")
        self.vtn = AutoVTN(ven_id=self.c("ven_id", "ven1"), registration_id=f"reg{no}", poll_freq=self.c("freq", "PT10S"))

        def answer(net, rec):
            self.log("sends", rec.url, plain(rec.data))
            a = self.vtn(net, rec)
            if self.c("fp") and isinstance(a, str):
                self.sent = getattr(self, "sent", 0) + 1
                a = sign.sign(a, "vtn", nonce=f"vtn-nonce-{no}-{id(self)}-{self.sent}")
            return a
        self.net = Net(answer)
        kw = {}
        if self.c("cert"):
            kw.update(cert=sign.path(self.c("cert")), key=sign.path(self.c("cert"), "key"), disable_signature=self.c("disable", False))
        if self.c("fp"):
            kw["vtn_fingerprint"] = sign.fingerprint("vtn")
        self.client = make_client(self.net, self.c("name", "ven1"), self.c("ven_id", "ven1"), vtn_url=f"http://vtn{no}/x", **kw)
        choice = self.c("choice")
        if choice:
            for h in ("on_event", "on_update_event"):
                self.client.add_handler(h, self.handler(h, choice))
        if self.c("hooks"):
            for h in self.client.hooks:
                self.client.add_hook(h, functools.partial(self.hook, h))

    def handler(self, name, choice):
        def show(event):
            self.log(name, event["event_descriptor"]["event_id"], event["event_descriptor"]["modification_number"], event["event_descriptor"]["market_context"])

        async def co(event):
            show(event)
            await self.wait(name)
            return choice

        def fn(event):
            show(event)
            return choice
        return co if self.c("async_") else fn

    def hook(self, name, *a):
        self.log("hook", name, plain(a[0]) if len(a) == 1 else sorted(map(str, a[1])))

    def declare(self):
        no, sc = self.c("no"), self.c("scale")
        from openleadr import objects
        m = objects.Measurement(name="frequency", description="Frequency", unit="Hz") if self.c("obj") else "frequency"
        decl = [dict(measurement="real_power", r_id="r1", **({"scale": sc} if sc else {}), **(dict(zip(("power_ac", "power_hertz", "power_voltage"), self.c("power"))) if self.c("power") else {})),
                dict(measurement=m, r_id="r2", **({"scale": sc} if sc else {})), dict(measurement="temperature", r_id="r3", unit="fahrenheit" if no % 2 else None),
                dict(measurement="rainbows", unit=f"rb{no}", r_id="r4", report_specifier_id="spec2", report_name="HISTORY_USAGE")]
        for d in decl:
            def cb(r=d["r_id"]):
                self.log("callback", r)
                return 10.0 * no + int(r[1])
            d = dict({"report_specifier_id": "spec1"}, **d)
            self.log(self.client.add_report(callback=cb, resource_id=f"dev{no}", sampling_rate=timedelta(seconds=no), **d))

    def start(self):
        g = f"PT{self.c('no')}S"
        self.vtn.report_requests = [wire.report_request("rr1", "spec1", ["r1", "r2"], granularity=g, back=g)]
        self.vtn.events = [self.event(0)]
        self.loop.run(self.client.run())
        self.log("registered", self.client.ven_id, self.client.registration_id, self.client.poll_frequency)

    def event(self, mod, id_="e1"):
        return wire.event(id_, mod=mod, ven_id=self.client.ven_id, market_context=f"http://ctx/{self.c('no')}")

    def poll(self, answer):
        self.vtn.polls = [answer]
        return self.job(self.client.poll_frequency.total_seconds()).fire()

    def job(self, seconds):
        """the periodic work with this period"""
        return next(j for j in self.client.scheduler.jobs if j.trigger == "interval" and
                    timedelta(**{k: v for k, v in j.trig_args.items() if k in ("hours", "minutes", "seconds")}).total_seconds() == seconds)

    def event_begin(self):
        self.begin(self.poll(wire.distribute_event([self.event(0), self.event(0, "e2")])))

    def event_end(self):
        self.end()

    def update(self):
        self.loop.run(self.poll(wire.distribute_event([self.event(1), self.event(0, "e2")])))

    def sample(self):
        own = (self.client.poll_frequency.total_seconds(), LOG_PERIOD, CLEAN_PERIOD)
        for j in [j for j in self.client.scheduler.jobs if j.trig_args.get("seconds") not in own]:
            for _ in range(2):
                self.loop.run(j.fire())
        self.loop.settle()

    def ask(self):
        self.loop.run(self.poll(wire.create_report([wire.report_request("rr2", "spec2", ["r4"], granularity=f"PT{self.c('no')}S", back=f"PT{self.c('no')}S")], self.client.ven_id)))

    def again(self):
        self.loop.run(self.poll(wire.request_reregistration(self.client.ven_id)))

    def send_opt(self):
        self.vtn.override["oadrCreateOpt"] = lambda rec: wire.created_opt(rec.node.get("optID"))
        self.vtn.override["oadrCancelOpt"] = lambda rec: wire.canceled_opt(rec.node.get("optID"))
        self.log(self.loop.run(self.client.create_opt("optOut", "economic", [{"ven_id": self.client.ven_id}], opt_id="o1", event_id="e1", modification_number=self.c("no"))))

    def cancel_opt(self):
        self.log(self.loop.run(self.client.cancel_opt("o1")), len(self.client.opts))

    def clean(self):
        self.loop.run(self.job(CLEAN_PERIOD).fire())

    def leave(self):
        self.loop.run(self.client.cancel_party_registration())

    def look(self):
        c = self.client
        self.log(c.ven_id, c.ven_name, c.registration_id, c.poll_frequency, c.vtn_url, evspec.snapshot(c.received_events), evspec.snapshot(c.responded_events),
                 evspec.snapshot(c.reports), evspec.snapshot(c.opts), [(j.trigger, sorted(map(str, j.trig_args.items()))) for j in c.scheduler.jobs])


def make(name, loop):
    kind, cfg = name.split(":")
    return Server(SERVERS[cfg], loop) if kind == "vtn" else Client(CLIENTS[cfg], loop)


@functools.lru_cache(None)
def alone(name):
    with World() as loop:
        a = make(name, loop)
        while a.more():
            a.step()
        assert boot.CLOCK.us == 0
        return a.log.lines


def compare(a, name, solo, how):
    for (step, got), (_, want) in zip(a.log.lines, solo):
        if got != want:
            i = next((i for i, (x, y) in enumerate(itertools.zip_longest(got, want)) if x != y), 0)
            return [(f"{name}/{step}", f"{name} at step {step} {how}: {(got + ['(nothing)'])[min(i, len(got))][:700]}\nalone: {(want + ['(nothing)'])[min(i, len(want))][:700]}")]
    return []


def run_pair(case):
    """case: two agents and the order of their steps (run lengths, alternating, the first agent begins)"""
    (one, two), lengths = case
    solo = alone(one), alone(two)
    with World() as loop:
        agents = [make(one, loop), make(two, loop)]
        for i, n in enumerate(lengths):
            for _ in range(n):
                agents[i % 2].step()
        assert not agents[0].more() and not agents[1].more(), case
        bad = compare(agents[0], one, solo[0], f"next to {two}") + compare(agents[1], two, solo[1], f"next to {one}")
        if loop.errors:
            bad.append(("task", repr(loop.errors[0])[:500]))
    return Outcome(bad, obs=(one, two, len(bad)), steps=sum(lengths))


def orders(n, m, switches):
    """all orders of n and m steps with at most so many switches, the first agent beginning"""
    def parts(total, k):
        """total as a sum of k positive numbers"""
        return [[b - a for a, b in zip((0,) + c, c + (total,))] for c in itertools.combinations(range(1, total), k - 1)]
    for runs in range(2, switches + 2):
        for p in parts(n, (runs + 1) // 2):
            for q in parts(m, runs // 2):
                out = []
                for i in range(runs):
                    out.append((p if i % 2 == 0 else q)[i // 2])
                yield out


NAMES = [f"vtn:{k}" for k in SERVERS] + [f"ven:{k}" for k in CLIENTS]


DEEP = [["vtn:full", "vtn:external"], ["vtn:plain", "vtn:lookup"], ["ven:signed", "ven:unsigned"]]


def pair_cases(tier):
    for one, two in itertools.product(NAMES, NAMES):
        n, m = (len(Server.steps if x.startswith("vtn") else Client.steps) for x in (one, two))
        k = 3 if tier == "thorough" or [one, two] in DEEP else 2
        for o in orders(n, m, k):
            yield [[one, two], o]


# -- creation of servers with differing configurations ---------------------------------------------------------------------------------------------

def configs(tier):
    out = []
    for cert, lookup, verify, tls in itertools.product(("none", "vtn", "ven2"), ("none", "ven", "fp", "ven+fp"), (True, False), (True, False)):
        if tier == "quick" and (cert == "ven2" or not tls and (not verify or lookup == "ven+fp")):
            continue
        i = len(out)
        out.append(dict(no=i, cert=cert, lookup=lookup, verify=verify, tls=tls, vtn_id=("TheVTN", "OtherVTN", "VTN3")[i % 3], freq=10 + i, handlers=i % 2 == 0))
    return out


class Small(Server):
    """creation, then each way of addressing the server once"""
    steps = ("create", "query", "register", "second_ven", "poll_begin", "poll_end", "strangers", "look")

    def create(self):
        c = dict(self.cfg, lookup=self.cfg["lookup"].split("+"), cert=None if self.cfg["cert"] == "none" else self.cfg["cert"])
        self.cfg = c
        super().create()


@functools.lru_cache(None)
def small_alone(tier, i):
    with World() as loop:
        a = Small(configs(tier)[i], loop)
        while a.more():
            a.step()
        return a.log.lines


def run_configs(case):
    tier, ids = case
    cs = configs(tier)
    solo = [small_alone(tier, i) for i in ids]
    with World() as loop:
        agents = [Small(cs[i], loop) for i in ids]
        for a in agents:              # all servers are created first
            a.step()
        while agents[0].more():       # then they take turns
            for a in agents:
                a.step()
        bad = []
        for a, i, s in zip(agents, ids, solo):
            bad += compare(a, "cert={cert} lookup={lookup} verify={verify} tls={tls}".format(**cs[i]), s, f"with servers {[cs[j] for j in ids if j != i]}")
    return Outcome(bad, obs=tuple(ids), steps=sum(len(a.steps) for a in agents))


def config_cases(tier):
    n = len(configs(tier))
    for ids in itertools.product(range(n), repeat=2):
        yield [tier, list(ids)]


# -- declarations of measurements in two clients ----------------------------------------------------------------------------------------------------

PA = {"voltage": 110, "ac": False, "hertz": 60}
DECL = ([{"m": m} for m in ("voltage", "current", "energy_real", "real_energy", "frequency", "temperature", "therm", "currency_per_kw", "real_power", "power_real", "reactive_power", "pulse_count", "VOLTAGE")] +
        [{"m": m, "scale": s} for m in ("voltage", "real_power", "energy_real", "real_energy") for s in ("k", "M", "none")] +
        [{"m": "real_power", "power": [False, 60, 110]}, {"m": "reactive_power", "power": [False, 60, 110], "scale": "k"}, {"m": "power_real", "power": [True, 60, 400]},
         {"m": "temperature", "unit": "fahrenheit"}, {"m": "temperature", "unit": "celsius", "scale": "m"}, {"m": "currency_per_kw", "unit": "USD"}, {"m": "currency_per_kwh", "unit": "EUR"},
         {"m": "rainbows", "unit": "rb"}, {"m": "rainbows", "unit": "xx", "scale": "k"}, {"m": "voltage", "unit": "mV"}] +
        [{"m": {"dict": {"name": "powerReal", "description": "RealPower", "unit": "W", "power_attributes": PA}}}, {"m": {"obj": {"name": "powerReal", "description": "RealPower", "unit": "W", "scale": "k", "power_attributes": PA}}},
         {"m": {"dict": {"name": "voltage", "description": "VOLTAGE", "unit": "V", "scale": "M"}}}, {"m": {"obj": {"name": "voltage", "description": "VOLTAGE", "unit": "V"}}, "scale": "k"},
         {"m": {"obj": {"name": "pulseCount", "description": "pulse count", "unit": "count", "pulse_factor": 5}}}])
SHARED = [i for i, d in enumerate(DECL) if isinstance(d["m"], dict)]


def offer_of(loop, client, net):
    loop.run(client.register_reports(client.reports))
    msg = [r for r in net.log if r.type == "oadrRegisterReport"][-1]
    return repr(offered(msg.node)) if msg.schema_error is None else str(msg.schema_error)


def new_client(i):
    net = Net(AutoVTN())
    c = make_client(net, f"ven{i}", f"ven{i}")
    return c, net


def add(client, d, n):
    r = declare(client, dict(d, spec="s1", rid="r1"), n, [])[0]
    return repr(r)


@functools.lru_cache(None)
def decl_alone(i):
    with World() as loop:
        c, net = new_client(0)
        return add(c, DECL[i], 0), offer_of(loop, c, net)


def run_decl(case):
    i, j, late = case
    want = decl_alone(i), decl_alone(j)
    with World() as loop:
        (a, na), (b, nb) = new_client(1), new_client(2)
        ra = add(a, DECL[i], 0)
        oa = offer_of(loop, a, na) if not late else None
        rb = add(b, DECL[j], 0)
        got = [(ra, oa or offer_of(loop, a, na)), (rb, offer_of(loop, b, nb))]
        # registering once more offers the same
        got2 = [(ra, offer_of(loop, a, na)), (rb, offer_of(loop, b, nb))]
    bad = []
    for g in (got, got2):
        for k, x in enumerate((i, j)):
            if g[k] != want[k]:
                bad.append((f"declaration/{DECL[x]['m'] if isinstance(DECL[x]['m'], str) else 'object'}",
                            f"{DECL[x]} next to {DECL[(j, i)[k]]} of another client: offered {g[k]}, alone {want[k]}"))
    return Outcome(bad[:2], obs=(i, j, len(bad)), steps=6)


def run_given(case):
    """the same Measurement object (or dict) is given to two clients with different settings"""
    from openleadr import objects
    i, sa, sb = case
    (kind, x), = DECL[i]["m"].items()
    x = dict(x)

    def build():
        y = dict(x)
        if kind == "obj" and "power_attributes" in y:
            y["power_attributes"] = objects.PowerAttributes(**y["power_attributes"])
        return objects.Measurement(**y) if kind == "obj" else y

    def offers(shared):
        out = []
        with World() as loop:
            ms = [build()] * 2 if shared else [build(), build()]
            cs = [new_client(k) for k in (1, 2)]
            for (c, net), m, s in zip(cs, ms, (sa, sb)):
                c.add_report(callback=lambda: 1.0, resource_id="dev", measurement=m, report_specifier_id="s1", r_id="r1", scale=s)
            for c, net in cs:
                out.append(offer_of(loop, c, net))
        return out
    a, b = offers(True), offers(False)
    return Outcome([] if a == b else [("declaration/shared object", f"{DECL[i]} given to two clients with scales {sa} and {sb}: {a}; as objects of their own: {b}")], obs=(i, sa, sb), steps=4)


def scenarios(tier):
    return [
        Product("steps", pair_cases, run_pair, chunk=8, note="two of 4 servers and 4 clients with differing configurations (also the same one twice), each with a workload of 15-16 steps that includes a "
                "suspended exchange; every order of the steps with up to 2 switches (three pairs, and thorough: 3); every step compared with the party alone"),
        Product("configurations", config_cases, run_configs, chunk=8, note="all ordered pairs of server configurations (certificate x lookups x verification x TLS x id x frequency), created first, then used in turns"),
        Product("declarations", lambda t: ([i, j, late] for i in range(len(DECL)) for j in range(len(DECL)) for late in (False, True)), run_decl, chunk=16,
                note="all ordered pairs of 40 measurement declarations in two clients, offered before or after the other declaration and once more"),
        Product("objects", lambda t: ([i, a, b] for i in SHARED for a in ("none", "k", "M") for b in ("none", "k", "M")), run_given, note="one measurement object or dict given to two clients"),
    ]
