"""Virtual-time event loop, in-memory HTTP between real backy servers and
clients, and daemons living in scratch directories."""
import asyncio
import concurrent.futures
import json as jsonlib
import os
import selectors
import urllib.parse
from types import SimpleNamespace

import yaml

from . import env


class Deadlock(Exception):
    """Nothing is runnable and no timer is pending."""


class _Selector:
    """Never sleeps: waiting advances the virtual clock."""

    def __init__(self, loop):
        self.real = selectors.DefaultSelector()
        self.loop = loop

    def select(self, timeout=None):
        ev = self.real.select(0)
        if ev or timeout == 0:
            return ev
        if timeout is None:
            raise Deadlock()
        limit = self.loop.horizon
        if limit is not None and env.clock.t + timeout > limit:
            raise Horizon()
        env.clock.t += max(timeout, 1e-6)
        return []

    def __getattr__(self, a):
        return getattr(self.real, a)


class Horizon(Exception):
    """The virtual clock would pass the end of the explored period."""


class InlineExecutor(concurrent.futures.ThreadPoolExecutor):
    def submit(self, fn, *a, **kw):
        f = concurrent.futures.Future()
        try:
            f.set_result(fn(*a, **kw))
        except BaseException as e:
            f.set_exception(e)
        return f


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.horizon = None
        super().__init__(_Selector(self))
        self.set_default_executor(InlineExecutor(1))
        self._clock_resolution = 1e-6

    def time(self):
        return env.clock.t

    def add_signal_handler(self, *a):
        pass


def new_loop():
    loop = VLoop()
    asyncio.set_event_loop(loop)
    return loop


def close_loop(loop):
    try:
        for _ in range(3):
            tasks = asyncio.all_tasks(loop)
            for t in tasks:
                t.cancel()
            loop.horizon = None
            if not tasks:
                break

            async def gather(tasks):
                await asyncio.wait(tasks, timeout=3600)

            try:
                loop.run_until_complete(gather(tasks))
            except (Deadlock, RuntimeError):
                pass
    finally:
        asyncio.set_event_loop(None)
        loop.close()


async def dispatch(app, method, path, headers=None, json=None, raw=None):
    """One request through the real aiohttp application (middlewares, router,
    handlers), without sockets. -> (status, body bytes)"""
    from unittest import mock

    from aiohttp import streams, web
    from aiohttp.test_utils import make_mocked_request
    from multidict import CIMultiDict

    payload = streams.StreamReader(mock.Mock(_reading_paused=False), 2**16, loop=asyncio.get_running_loop())
    h = CIMultiDict(headers or {})
    if json is not None:
        raw = jsonlib.dumps(json).encode()
        h.setdefault("Content-Type", "application/json")
    if raw:
        payload.feed_data(raw)
    payload.feed_eof()
    req = make_mocked_request(method, path, h, app=app, payload=payload, loop=asyncio.get_running_loop())
    try:
        resp = await app._handle(req)
    except web.HTTPException as e:
        return e.status, (e.text or "").encode()
    except asyncio.CancelledError:
        raise
    except Exception as e:
        return 500, repr(e).encode()
    body = resp.body
    if body is None:
        body = b""
    return resp.status, bytes(body)


class Server:
    """A real BackyDaemon plus its API in a scratch directory."""

    def __init__(self, tag, jobs=(), dead=(), schedule=None, tokens=None, peers=None, extra=None, source=None):
        from backy.daemon import BackyDaemon
        from backy.daemon.api import BackyAPI

        self.root = env.fresh_dir(tag)
        self.base = self.root / "base"
        self.base.mkdir()
        self.conf = {
            "global": {"base-dir": str(self.base), **(extra or {})},
            "api": {"tokens": tokens or {"tok": "client"}},
            "schedules": {"s": schedule or {"daily": {"interval": "1d", "keep": 2}}},
            "jobs": {j: {"source": source or {"type": "file", "filename": "/nonexistent"}, "schedule": "s"} for j in jobs},
        }
        if peers:
            self.conf["peers"] = peers
        for d in dead:
            self.make_repo(d, schedule)
        self.write_conf()
        self.loop = new_loop()
        self.daemon = BackyDaemon(self.root / "backy.conf", env.log())
        self.daemon.loop = self.loop
        self.api = BackyAPI(self.daemon, env.log())

    def make_repo(self, name, schedule=None):
        p = self.base / name
        p.mkdir()
        (p / "config").write_text(yaml.safe_dump({
            "path": str(p), "source": {"type": "file", "filename": "/nonexistent"},
            "schedule": schedule or {"daily": {"interval": "1d", "keep": 2}}}))
        return p

    def write_conf(self):
        (self.root / "backy.conf").write_text(yaml.safe_dump(self.conf))

    async def setup(self, start_jobs=False):
        from backy.daemon.scheduler import Job

        self.daemon.loop = asyncio.get_running_loop()
        self.daemon._read_config()
        if start_jobs:
            self.daemon._apply_config()
        else:
            real, Job.start = Job.start, lambda self: None
            try:
                self.daemon._apply_config()
            finally:
                Job.start = real
        await self.api.start()
        await self.api.reconfigure(self.daemon.api_tokens, [], 0)
        return self

    async def arequest(self, method, path, token="tok", headers=None, json=None, raw=None):
        h = dict(headers or {})
        if token is not None:
            h["Authorization"] = "Bearer " + token
        return await dispatch(self.api.app, method, path, h, json, raw)

    def request(self, *a, **kw):
        return self.loop.run_until_complete(self.arequest(*a, **kw))


_servers = {}


def server_env(tag, **kw):
    """One server per worker process, ready for synchronous requests."""
    k = (os.getpid(), tag)
    if k not in _servers:
        s = Server(tag, **kw)
        s.loop.run_until_complete(s.setup())
        _servers[k] = s
    return _servers[k]


# ---------------------------------------------------------------- client side


class Network:
    """Routes the API client's requests to servers by host name. `hook(host,
    method, path, deliver)` decides about every request: it may await
    deliver() -> (status, body), or raise."""

    def __init__(self):
        self.servers = {}
        self.hook = None
        self.log = []

    async def request(self, base, method, path, headers, json, timeout=None):
        import aiohttp

        host = urllib.parse.urlsplit(str(base)).hostname
        self.log.append((host, method, path))

        async def deliver():
            srv = self.servers.get(host)
            if srv is None:
                raise refused(host)
            if callable(srv):
                return await srv(method, path, headers, json)
            body = None if json is None else jsonlib.loads(jsonlib.dumps(json))
            return await dispatch(srv.api.app, method, path, headers, body)

        if self.hook:
            return await self.hook(host, method, path, deliver)
        return await deliver()


network = Network()


def refused(host="peer"):
    import aiohttp

    key = SimpleNamespace(host=host, port=1, ssl=None, is_ssl=False)
    return aiohttp.ClientConnectorError(key, OSError(111, "Connection refused"))


def disconnected():
    import aiohttp

    return aiohttp.ServerDisconnectedError()


class _Resp:
    def __init__(self, status, body, url):
        self.status, self._body, self.url = status, body, url
        self.headers = {}
        self.content_type = "application/json"
        self.ok = status < 400

    async def json(self, **kw):
        return jsonlib.loads(self._body)

    async def text(self, **kw):
        return self._body.decode()

    async def read(self):
        return self._body

    def release(self):
        pass

    def raise_for_status(self):
        if self.status >= 400:
            import aiohttp

            raise aiohttp.ClientResponseError(
                SimpleNamespace(real_url=self.url, url=self.url, method="", headers={}), (), status=self.status,
                message=str(self.status))


class _Req:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()

    async def __aenter__(self):
        return await self.coro

    async def __aexit__(self, *a):
        pass


class FakeSession:
    def __init__(self, base_url=None, headers=None, raise_for_status=False, timeout=None, connector=None,
                 connector_owner=True, **kw):
        self.base, self.headers, self.rfs = base_url, dict(headers or {}), raise_for_status
        self.timeout = timeout
        self.closed = False
        self.connector = connector if connector_owner else None

    def request(self, method, path, *, params=None, json=None, headers=None, **kw):
        return _Req(self._request(method, path, params, json, headers, kw))

    async def _request(self, method, path, params, json, headers, kw):
        for v in (params or {}).values():
            if isinstance(v, bool) or not isinstance(v, (str, int, float)):  # as yarl
                raise TypeError(f"Invalid variable type: value should be str, int or float, got {v!r}")
        if params:
            path = path + "?" + urllib.parse.urlencode(params)
        t = getattr(kw.get("timeout") or self.timeout, "total", None)
        coro = network.request(self.base, method, urllib.parse.quote(path, safe="/?&=%:,+;@"),
                               {**self.headers, **(headers or {})}, json)
        status, body = await (asyncio.wait_for(coro, t) if t else coro)
        r = _Resp(status, body, path)
        if self.rfs:
            r.raise_for_status()
        return r

    def get(self, path, **kw):
        return self.request("GET", path, **kw)

    def post(self, path, **kw):
        return self.request("POST", path, **kw)

    def put(self, path, **kw):
        return self.request("PUT", path, **kw)

    def delete(self, path, **kw):
        return self.request("DELETE", path, **kw)

    async def close(self):
        self.closed = True

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        await self.close()


def install():
    import aiohttp

    aiohttp.ClientSession = FakeSession
