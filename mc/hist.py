"""Writing revision metadata by hand (in the documented on-disk format), so
histories can be enumerated without running backups."""
import datetime
import os

import yaml

from . import env

DAY = 86400.0


def uuid_of(n, prefix="r"):
    return (f"{prefix}{n}" + "a" * 22)[:22].replace("0", "z").replace("1", "y")


def ts(seconds):
    return env.EPOCH + datetime.timedelta(seconds=seconds)


def write_rev(path, uuid, t, tags=(), clean=True, server="", trust="trusted", orig=None, duration=1.5,
              extra_stats=None, parent=""):
    stats = {"bytes_written": 10}
    if clean:
        stats["duration"] = duration
    stats.update(extra_stats or {})
    d = {
        "uuid": uuid, "timestamp": t if isinstance(t, datetime.datetime) else ts(t), "parent": parent,
        "stats": stats, "trust": trust, "tags": sorted(tags), "orig_tags": sorted(orig or ()), "server": server,
    }
    p = os.path.join(str(path), uuid + ".rev")
    if os.path.lexists(p):
        os.unlink(p)
    with open(p, "w") as f:
        yaml.safe_dump(d, f)
    os.chmod(p, 0o640)
    return d


def read_revs(path):
    out = {}
    for e in os.scandir(str(path)):
        if e.name.endswith(".rev") and not e.is_symlink():
            with open(e.path) as f:
                out[e.name[:-4]] = yaml.safe_load(f)
    return out


def clear_revs(path):
    for e in list(os.scandir(str(path))):
        if e.name.endswith(".rev"):
            os.unlink(e.path)


def norm(d):
    """Comparable view of one revision's metadata."""
    return (
        d["uuid"], str(d["timestamp"]), tuple(sorted((d.get("stats") or {}).items(), key=str)),
        d.get("trust"), tuple(sorted(d.get("tags") or ())), tuple(sorted(d.get("orig_tags") or ())),
        d.get("server") or "",
    )


def repository(path, schedule):
    from backy.repository import Repository
    from backy.schedule import Schedule

    s = Schedule()
    s.configure(schedule)
    r = Repository(path, s, env.log())
    r.connect()
    return r
