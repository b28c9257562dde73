"""A disk that may lose power: replays a recorded operation log over a known
state. Directory operations, truncations and modes persist in order; file data
persists only once synced. Enumerates what may be found after a power loss."""
import itertools
import os


class Inode:
    __slots__ = ("durable", "volatile", "mode")

    def __init__(self, content=b"", mode=0o600):
        self.durable = self.volatile = content
        self.mode = mode

    def dirty(self):
        return self.durable != self.volatile


class Disk:
    def __init__(self, base, files):
        """files: relative path -> ("f", content, mode) | ("l", target)"""
        self.base = base
        self.names = {}
        for k, v in files.items():
            if v[0] == "f":
                self.names[k] = Inode(v[1], v[2])
            else:
                self.names[k] = v[1]
        self.unlinked = []

    def rel(self, p):
        assert p.startswith(self.base + "/") or p == self.base, p
        return p[len(self.base) + 1 :]

    def apply(self, rec):
        op, a, b, num, data = rec
        if op in ("call", "mkdir", "rmdir"):
            return
        if op == "sync":
            for i in self.names.values():
                if isinstance(i, Inode):
                    i.durable = i.volatile
            return
        deleted = a.endswith(" (deleted)")
        k = self.rel(a)
        if op == "create":
            self.names[k] = Inode(b"", num & 0o7777 & ~0o022)
        elif op == "symlink":
            self.names[k] = b
        elif op == "rename":
            if k.endswith("/"):
                raise AssertionError(rec)
            if os.path.isdir(a) or k not in self.names:  # a directory
                for n in [n for n in self.names if n.startswith(k + "/")]:
                    self.names[self.rel(b) + n[len(k):]] = self.names.pop(n)
                return
            self.names[self.rel(b)] = self.names.pop(k)
        elif op == "link":
            self.names[self.rel(b)] = self.names[k]
        elif op == "unlink":
            self.names.pop(k, None)
        elif deleted:
            return
        elif op == "chmod":
            if k in self.names:
                self.names[k].mode = num
        elif op == "truncate":
            i = self.names[k]
            i.durable = i.durable[:num].ljust(0, b"\0")
            i.volatile = i.volatile[:num].ljust(num, b"\0")
        elif op == "write":
            i = self.names[k]
            i.volatile = i.volatile[:num].ljust(num, b"\0") + data + i.volatile[num + len(data) :]
        elif op == "fsync":
            i = self.names.get(k)
            if isinstance(i, Inode):
                i.durable = i.volatile
        else:
            raise AssertionError(rec)

    def crash_states(self, full=0):
        """All explored contents after a power loss now, as capture dicts with
        the set of names whose data was not fully there."""
        dirty = [k for k, i in sorted(self.names.items()) if isinstance(i, Inode) and i.dirty()]
        if len(dirty) <= full:
            combos = set(itertools.product("klh", repeat=len(dirty)))
        else:
            n = len(dirty)
            combos = {("k",) * n, ("l",) * n}
            for i in range(n):
                for c in "lh":
                    combos.add(("k",) * i + (c,) + ("k",) * (n - i - 1))
                combos.add(("l",) * i + ("k",) + ("l",) * (n - i - 1))
        for combo in sorted(combos):
            how = dict(zip(dirty, combo))
            st = {}
            for k, i in self.names.items():
                if isinstance(i, Inode):
                    c = how.get(k, "k")
                    if c == "k":
                        d = i.volatile
                    elif c == "l":
                        d = i.durable
                    else:
                        m = len(i.volatile) - max(1, (len(i.volatile) - len(i.durable)) // 2)
                        d = i.volatile[: max(m, 0)]
                    st[k] = ("f", d, i.mode)
                else:
                    st[k] = ("l", i)
            yield st, {k: c for k, c in how.items() if c != "k"}
