"""In-memory access to a real OpenADRClient."""
import asyncio

from . import boot, wire


class Job:
    _n = 0

    def __init__(self, sched, func, trigger, args, kwargs, trig_args):
        self.sched, self.func, self.trigger = sched, func, trigger
        self.args, self.kwargs, self.trig_args = tuple(args or ()), dict(kwargs or {}), trig_args
        Job._n += 1
        self.id = trig_args.pop("id", None) or f"job{Job._n}"
        self.removed = False

    def remove(self):
        # like the real one, by id: the job may have been replaced by another one
        self.sched.remove_job(self.id)

    def reschedule(self, trigger, **trig_args):
        self.trigger, self.trig_args = trigger, trig_args
        return self

    def modify(self, **changes):
        for k, v in changes.items():
            setattr(self, k, v)
        return self

    async def fire(self):
        r = self.func(*self.args, **self.kwargs)
        if asyncio.iscoroutine(r):
            r = await r
        return r


class FakeScheduler:
    """Records jobs; the explorer fires them."""
    def __init__(self):
        self.jobs = []
        self.running = False
        self.all_jobs = []

    def add_job(self, func, trigger=None, args=None, kwargs=None, **trig_args):
        replace = trig_args.pop("replace_existing", False)
        for k in ("misfire_grace_time", "coalesce", "max_instances", "name", "next_run_time", "jobstore", "executor"):
            trig_args.pop(k, None)
        job = Job(self, func, trigger, args, kwargs, trig_args)
        earlier = self.get_job(job.id)
        if earlier:
            if not replace:
                from apscheduler.jobstores.base import ConflictingIdError
                raise ConflictingIdError(job.id)
            earlier.remove()
        self.jobs.append(job)
        self.all_jobs.append(job)
        return job

    def remove_all_jobs(self, jobstore=None):
        for j in self.jobs:
            j.removed = True
        self.jobs.clear()

    def remove_job(self, job_id, jobstore=None):
        for j in list(self.jobs):
            if j.id == job_id:
                j.removed = True
                self.jobs.remove(j)
                return
        from apscheduler.jobstores.base import JobLookupError
        raise JobLookupError(job_id)

    def get_job(self, job_id, jobstore=None):
        return next((j for j in self.jobs if j.id == job_id), None)

    def get_jobs(self, jobstore=None, pending=None):
        return list(self.jobs)

    def reschedule_job(self, job_id, jobstore=None, trigger=None, **trig_args):
        return self.get_job(job_id).reschedule(trigger, **trig_args)

    def start(self, paused=False):
        if self.running:
            from apscheduler.schedulers import SchedulerAlreadyRunningError
            raise SchedulerAlreadyRunningError
        self.running = True

    def shutdown(self, wait=True):
        self.running = False


class Net:
    """The VEN's view of the network: every POST is recorded and answered by `answer(net, rec)`.
    An answer is XML (str), (status, body) or an exception to raise."""

    def __init__(self, answer=None):
        self.log = []
        self.answer = answer

    async def transport(self, session, url, data, headers):
        rec = Sent(url, data, headers)
        self.log.append(rec)
        if not (rec.content_type or "").lower().startswith("application/xml"):
            return (400, "The Content-Type header must be application/xml")
        a = self.answer(self, rec)
        if asyncio.iscoroutine(a) or asyncio.isfuture(a):
            a = await a
        rec.answer = a
        if isinstance(a, BaseException):
            raise a
        if isinstance(a, tuple):
            return a
        if isinstance(a, boot.FakeResponse):
            return a
        return (200, a)

    def sent(self, type_=None):
        return [r for r in self.log if type_ is None or r.type == type_]


class Sent:
    def __init__(self, url, data, headers):
        self.url, self.data, self.headers = url, data, headers
        self.service = url.rsplit("/", 1)[-1]
        self.content_type = next((v for k, v in headers.items() if k.lower() == "content-type"), None)
        self.answer = None
        self._parsed = None

    @property
    def parsed(self):
        if self._parsed is None:
            self._parsed = wire.read(self.data)
        return self._parsed

    @property
    def type(self):
        return self.parsed[0]

    @property
    def node(self):
        return self.parsed[1]

    @property
    def schema_error(self):
        return self.parsed[2]


POLL_FREQ = 10.0
LOG_PERIOD = 17.0
CLEAN_PERIOD = 313.0


def make_client(net, ven_name="ven1", ven_id="ven1", registered=True, fake_scheduler=True, vtn_url="http://vtn/OpenADR2/Simple/2.0b",
                **kw):
    from openleadr import OpenADRClient
    kw.setdefault("show_fingerprint", False)
    kw.setdefault("event_status_log_period", LOG_PERIOD)
    kw.setdefault("events_clean_up_period", CLEAN_PERIOD)
    c = OpenADRClient(ven_name=ven_name, vtn_url=vtn_url, ven_id=ven_id, **kw)
    boot.OWNERS.append((c, net.transport))
    if fake_scheduler:
        c.scheduler = FakeScheduler()
    return c


def closed(client):
    """the client has closed its session"""
    return client.client_session is not None and client.client_session.closed


def periodic(client, which):
    """The periodic job the client scheduled for 'poll', 'log' or 'clean' (identified by its period)."""
    want = {"poll": POLL_FREQ, "log": LOG_PERIOD, "clean": CLEAN_PERIOD}[which]
    jobs = []
    for j in client.scheduler.jobs:
        if j.trigger == "interval":
            t = j.trig_args
            secs = t.get("seconds", 0) + 60 * t.get("minutes", 0) + 3600 * t.get("hours", 0)
            if abs(secs - want) < 1e-6:
                jobs.append(j)
    return jobs


class AutoVTN:
    """A minimal scripted VTN: registers the VEN, answers polls from a queue, acknowledges everything else."""

    def __init__(self, ven_id="ven1", registration_id="reg1", vtn_id="TheVTN", poll_freq="PT10S", report_requests=()):
        self.ven_id, self.registration_id, self.vtn_id, self.poll_freq = ven_id, registration_id, vtn_id, poll_freq
        self.polls = []              # queue of XML answers to oadrPoll
        self.events = []             # events to answer oadrRequestEvent with
        self.report_requests = list(report_requests)
        self.override = {}           # message type -> callable(rec) or XML

    def __call__(self, net, rec):
        t = rec.type
        if t in self.override:
            o = self.override[t]
            return o(rec) if callable(o) else o
        rid = rec.node.get("requestID", "rq")
        if t in ("oadrQueryRegistration",):
            return wire.created_party_registration(None, None, self.vtn_id, poll_freq=self.poll_freq, request_id=rid)
        if t == "oadrCreatePartyRegistration":
            return wire.created_party_registration(self.ven_id, self.registration_id, self.vtn_id,
                                                   poll_freq=self.poll_freq, request_id=rid)
        if t == "oadrPoll":
            return self.polls.pop(0) if self.polls else wire.oadr_response(self.ven_id)
        if t == "oadrRequestEvent":
            if self.events:
                return wire.distribute_event(self.events, vtn_id=self.vtn_id)
            return wire.oadr_response(self.ven_id)
        if t == "oadrRegisterReport":
            return wire.registered_report(self.report_requests, self.ven_id, request_id=rid)
        if t == "oadrUpdateReport":
            return wire.updated_report(self.ven_id, request_id=rid)
        if t == "oadrCancelPartyRegistration":
            return wire.canceled_party_registration(self.registration_id, self.ven_id, request_id=rid)
        if t == "oadrResponse" or t == "oadrCanceledPartyRegistration":
            return (200, b"")
        return wire.oadr_response(self.ven_id)


def start(loop, client):
    """Run the client's start-up sequence against a cooperative VTN."""
    loop.run(client.run())
