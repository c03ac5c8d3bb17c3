"""An in-memory POSIX-like file system with an explicit durability model.

Namespace changes go to an ordered journal; the durable namespace is the
namespace at the last barrier plus a prefix of the journal. File data is
durable only as of the last fsync of that file; whatever was written later may
or may not have reached the disk. `power_loss` materialises one such state.
"""
import errno
import os
import stat as st


def oserr(code, path=None, path2=None):
    if path2 is not None:
        return OSError(code, os.strerror(code), path, None, path2)
    if path is not None:
        return OSError(code, os.strerror(code), path)
    return OSError(code, os.strerror(code))


class Inode:
    __slots__ = ('ino', 'kind', 'mode', 'data', 'synced', 'dirty', 'entries',
                 'target', 'mtime', 'nlink', 'locks', 'dirid')

    def __init__(self, ino, kind, mode, now):
        self.ino = ino
        self.kind = kind          # 'd' | 'f' | 'l'
        self.mode = mode
        self.data = bytearray() if kind == 'f' else None
        self.synced = None        # bytes known to be on disk (files)
        self.dirty = False
        self.entries = {} if kind == 'd' else None
        self.target = None
        self.mtime = now
        self.nlink = 2 if kind == 'd' else 1
        self.locks = []

    @property
    def fmt(self):
        return {'d': st.S_IFDIR, 'f': st.S_IFREG, 'l': st.S_IFLNK}[self.kind]


class SimFS:
    def __init__(self, clock=lambda: 0):
        self.clock = clock
        self.inodes = {}
        self._next = 2
        self.root = self._new('d', 0o755)
        self.base = {self.root.ino: {}}
        self.journal = []         # list of lists of ('set'|'del', dir, name, ino)
        self.capacity = None      # bytes, None = unlimited

    # -- inodes -------------------------------------------------------------
    def _new(self, kind, mode):
        ino = self._next
        self._next += 1
        node = Inode(ino, kind, mode, self.clock())
        self.inodes[ino] = node
        return node

    # -- path walking ---------------------------------------------------------
    def split(self, path):
        assert path.startswith('/'), path
        return [p for p in path.split('/') if p and p != '.']

    def walk(self, path, follow=True, depth=0):
        """Return (parent dir inode, name, inode or None)."""
        if depth > 20:
            raise oserr(errno.ELOOP, path)
        parts = self.split(path)
        node = self.root
        stack = [self.root]
        parent, name = self.root, ''
        i = 0
        while i < len(parts):
            part = parts[i]
            if node.kind != 'd':
                raise oserr(errno.ENOTDIR, path)
            if part == '..':
                if len(stack) > 1:
                    stack.pop()
                node = stack[-1]
                parent, name = node, '.'
                i += 1
                continue
            if len(part.encode()) > 255:
                raise oserr(errno.ENAMETOOLONG, path)
            child = node.entries.get(part)
            last = i == len(parts) - 1
            if child is None:
                if last:
                    return node, part, None
                raise oserr(errno.ENOENT, path)
            child = self.inodes[child]
            if child.kind == 'l' and (follow or not last):
                rest = parts[i + 1:]
                target = child.target
                if not target.startswith('/'):
                    target = self.path_of(stack) + '/' + target
                new = target + ''.join('/' + r for r in rest)
                return self.walk(new, follow, depth + 1)
            parent, name = node, part
            node = child
            stack.append(child)
            i += 1
        return parent, name, node

    def path_of(self, stack):
        out = []
        for parent, child in zip(stack, stack[1:]):
            for name, ino in parent.entries.items():
                if ino == child.ino:
                    out.append(name)
                    break
        return '/' + '/'.join(out)

    def lookup(self, path, follow=True):
        _, _, node = self.walk(path, follow)
        if node is None:
            raise oserr(errno.ENOENT, path)
        if path.endswith('/') and node.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        return node

    # -- journalled namespace changes ------------------------------------------
    def _commit(self, *records):
        for op, d, name, ino in records:
            entries = self.inodes[d].entries
            if op == 'set':
                entries[name] = ino
            else:
                entries.pop(name, None)
            self.inodes[d].mtime = self.clock()
        self.journal.append(list(records))

    def barrier(self):
        for rec in self.journal:
            self._apply(self.base, rec)
        self.journal = []

    @staticmethod
    def _apply(base, rec):
        for op, d, name, ino in rec:
            entries = base.setdefault(d, {})
            if op == 'set':
                entries[name] = ino
                # a new directory must have a (possibly empty) listing
            else:
                entries.pop(name, None)

    def sync_all(self):
        """Make everything durable (used for initial worlds)."""
        self.barrier()
        for node in self.inodes.values():
            if node.kind == 'f':
                node.synced = bytes(node.data)
                node.dirty = False

    def fsync(self, node):
        if node.kind == 'f':
            node.synced = bytes(node.data)
            node.dirty = False
        self.barrier()

    def power_loss(self, cut, choose):
        """Keep the first `cut` journal records; `choose(n)` picks file fates."""
        base = {k: dict(v) for k, v in self.base.items()}
        cut = min(cut, len(self.journal))
        for rec in self.journal[:cut]:
            self._apply(base, rec)
        for node in self.inodes.values():
            if node.kind == 'd':
                node.entries = dict(base.get(node.ino, {}))
        # drop entries to unknown inodes cannot happen; dangling dirs get {}
        fates = []
        for ino in sorted(self.inodes):
            node = self.inodes[ino]
            node.locks = []
            if node.kind == 'f' and node.dirty:
                old = node.synced if node.synced is not None else b''
                new = bytes(node.data)
                fate = choose(4)
                if fate == 0:
                    data = old
                elif fate == 1:
                    data = b''
                elif fate == 2:
                    data = new[:choose(len(new) + 1)]
                else:
                    data = new
                node.data = bytearray(data)
                fates.append(fate)
        self.base = base
        self.journal = []
        self.sync_all()
        return cut, fates

    # -- operations -----------------------------------------------------------
    def mkdir(self, path, mode=0o777):
        parent, name, node = self.walk(path.rstrip('/') or '/', follow=False)
        if node is not None:
            raise oserr(errno.EEXIST, path)
        new = self._new('d', 0o755)
        self._commit(('set', parent.ino, name, new.ino))
        return new

    def create(self, path, mode=0o644):
        parent, name, node = self.walk(path, follow=True)
        if node is not None:
            raise oserr(errno.EEXIST, path)
        new = self._new('f', mode & ~0o022 & 0o777)
        new.dirty = True
        self._commit(('set', parent.ino, name, new.ino))
        return new

    def symlink(self, target, path):
        parent, name, node = self.walk(path, follow=False)
        if node is not None:
            raise oserr(errno.EEXIST, target, path)
        new = self._new('l', 0o777)
        new.target = target
        self._commit(('set', parent.ino, name, new.ino))

    def link(self, src, dst):
        node = self.lookup(src, follow=False)
        if node.kind == 'd':
            raise oserr(errno.EPERM, src, dst)
        parent, name, old = self.walk(dst, follow=False)
        if old is not None:
            raise oserr(errno.EEXIST, src, dst)
        node.nlink += 1
        self._commit(('set', parent.ino, name, node.ino))

    def unlink(self, path):
        parent, name, node = self.walk(path, follow=False)
        if node is None:
            raise oserr(errno.ENOENT, path)
        if node.kind == 'd':
            raise oserr(errno.EISDIR, path)
        node.nlink -= 1
        self._commit(('del', parent.ino, name, node.ino))

    def rmdir(self, path):
        parent, name, node = self.walk(path.rstrip('/') or '/', follow=False)
        if node is None:
            raise oserr(errno.ENOENT, path)
        if node.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        if node.entries:
            raise oserr(errno.ENOTEMPTY, path)
        if name in ('', '.'):
            raise oserr(errno.EINVAL, path)
        self._commit(('del', parent.ino, name, node.ino))

    def rename(self, src, dst):
        sparent, sname, snode = self.walk(src.rstrip('/'), follow=False)
        if snode is None:
            raise oserr(errno.ENOENT, src, dst)
        if sname in ('', '.'):
            raise oserr(errno.EBUSY, src, dst)
        dparent, dname, dnode = self.walk(dst.rstrip('/'), follow=False)
        if dname in ('', '.'):
            raise oserr(errno.EBUSY, src, dst)
        if snode.kind == 'd' and self._inside(dparent, snode):
            raise oserr(errno.EINVAL, src, dst)
        if dnode is not None:
            if dnode is snode:
                return
            if snode.kind == 'd':
                if dnode.kind != 'd':
                    raise oserr(errno.ENOTDIR, src, dst)
                if dnode.entries:
                    raise oserr(errno.ENOTEMPTY, src, dst)
            elif dnode.kind == 'd':
                raise oserr(errno.EISDIR, src, dst)
        self._commit(
            ('del', sparent.ino, sname, snode.ino),
            ('set', dparent.ino, dname, snode.ino),
        )

    def _inside(self, node, ancestor):
        """Is directory `node` equal to or below `ancestor`?"""
        if node is ancestor:
            return True
        todo = [ancestor]
        while todo:
            for ino in todo.pop().entries.values():
                child = self.inodes[ino]
                if child is node:
                    return True
                if child.kind == 'd':
                    todo.append(child)
        return False

    # -- whole-tree helpers -------------------------------------------------------
    def tree(self, path='/'):
        """{path: ('d',) | ('f', bytes) | ('l', target)} below `path`."""
        out = {}
        try:
            node = self.lookup(path, follow=False)
        except OSError:
            return out
        todo = [(path.rstrip('/'), node)]
        while todo:
            p, n = todo.pop()
            if n.kind == 'd':
                out[p or '/'] = ('d',)
                for name in sorted(n.entries):
                    todo.append((p + '/' + name, self.inodes[n.entries[name]]))
            elif n.kind == 'f':
                out[p] = ('f', bytes(n.data))
            else:
                out[p] = ('l', n.target)
        return out

    def put(self, path, data=b'', mode=0o644):
        if isinstance(data, str):
            data = data.encode()
        self.makedirs(os.path.dirname(path))
        parent, name, node = self.walk(path, follow=True)
        if node is None:
            node = self.create(path, mode)
        node.mode = mode
        node.data[:] = data
        node.dirty = True
        return node

    def makedirs(self, path):
        cur = ''
        for part in self.split(path):
            cur += '/' + part
            try:
                self.lookup(cur)
            except FileNotFoundError:
                self.mkdir(cur)

    def remove_tree(self, path):
        parent, name, node = self.walk(path, follow=False)
        if node is not None:
            self._commit(('del', parent.ino, name, node.ino))
