"""Writer of small heap dumps and runner of the tool, used by the demonstration."""
import os, struct, subprocess, sys, tempfile, shutil

OBJ, BOOL, CHAR, FLOAT, DOUBLE, BYTE, SHORT, INT, LONG = 2, 4, 5, 6, 7, 8, 9, 10, 11
SIZE = {BOOL: 1, CHAR: 2, FLOAT: 4, DOUBLE: 8, BYTE: 1, SHORT: 2, INT: 4, LONG: 8}
STRUCT = {BOOL: '>?', CHAR: '>H', FLOAT: '>f', DOUBLE: '>d', BYTE: '>b', SHORT: '>h', INT: '>i', LONG: '>q'}


class Dump:
    """A dump of JVM: java.lang.System.props, threads and arbitrary objects."""

    def __init__(self, idsize=8, time_ms=1700000000000, props=None, start_ms=None):
        self.idsize, self.time_ms = idsize, time_ms
        self.names, self.records, self.roots, self.classdumps = {}, [], [], []
        self.instances, self.objarrays, self.primarrays = [], [], []   # (id, bytes)
        self.classes = {}
        self.serial, self.next = 0, 0x1000
        self.traces = []
        self.object = self.cls('java/lang/Object')
        self.string = self.cls('java/lang/String', fields=[('value', OBJ), ('coder', BYTE), ('hash', INT)])
        self.thread = self.cls('java/lang/Thread', fields=[
            ('name', OBJ), ('priority', INT), ('daemon', BOOL), ('threadStatus', INT), ('tid', LONG)])
        self.node = self.cls('java/util/concurrent/ConcurrentHashMap$Node', fields=[
            ('hash', INT), ('key', OBJ), ('val', OBJ), ('next', OBJ)])
        self.map = self.cls('java/util/concurrent/ConcurrentHashMap', fields=[('table', OBJ)])
        self.properties = self.cls('java/util/Properties', fields=[('map', OBJ)])
        self.nodes = self.cls('[Ljava/util/concurrent/ConcurrentHashMap$Node;')
        self.props_done = props is None
        if props is not None:
            self.set_props(props)
        if start_ms is not None:
            mbean = self.cls('sun/management/RuntimeImpl', fields=[('vmStartupTime', LONG)])
            inst = self.inst(mbean, [(LONG, start_ms)])
            self.cls('sun/management/ManagementFactoryHelper', statics=[('runtimeMBean', OBJ, inst)])

    def ident(self, i):
        return struct.pack('>Q' if self.idsize == 8 else '>I', i)

    def value(self, ty, v):
        return self.ident(v) if ty == OBJ else struct.pack(STRUCT[ty], v)

    def fresh(self):
        self.next += 16
        return self.next

    def record(self, tag, body):
        self.records.append(struct.pack('>BII', tag, 0, len(body)) + body)

    def name(self, s):
        b = s if isinstance(s, bytes) else s.encode()
        if b not in self.names:
            self.names[b] = self.fresh()
            self.record(1, self.ident(self.names[b]) + b)
        return self.names[b]

    def cls(self, name, fields=(), statics=(), sup=None, id=None, size=None, dump=True):
        id = id or self.fresh()
        self.serial += 1
        self.record(2, struct.pack('>I', self.serial) + self.ident(id) + struct.pack('>I', 1) + self.ident(self.name(name)))
        if sup is None and getattr(self, 'object', None):
            sup = self.object
        if size is None:
            size = 16 + sum(self.idsize if t == OBJ else SIZE[t] for _, t in fields)
        b = b'\x20' + self.ident(id) + struct.pack('>I', 1) + self.ident(sup or 0) + self.ident(0) * 5
        b += struct.pack('>i', size) + struct.pack('>H', 0) + struct.pack('>H', len(statics))
        for n, t, v in statics:
            b += self.ident(self.name(n)) + bytes([t]) + self.value(t, v)
        b += struct.pack('>H', len(fields))
        for n, t in fields:
            b += self.ident(self.name(n)) + bytes([t])
        if dump:
            self.classdumps.append(b)
        self.classes[id] = self.serial
        return id

    def inst(self, cls, values=(), id=None):
        id = id or self.fresh()
        data = b''.join(self.value(t, v) for t, v in values)
        self.instances.append((id, b'\x21' + self.ident(id) + struct.pack('>I', 1) + self.ident(cls) + struct.pack('>I', len(data)) + data))
        return id

    def objarray(self, cls, elems, id=None):
        id = id or self.fresh()
        self.objarrays.append((id, b'\x22' + self.ident(id) + struct.pack('>II', 1, len(elems)) + self.ident(cls) + b''.join(map(self.ident, elems))))
        return id

    def primarray(self, ty, data, id=None):
        id = id or self.fresh()
        self.primarrays.append((id, b'\x23' + self.ident(id) + struct.pack('>II', 1, len(data) // SIZE[ty]) + bytes([ty]) + data))
        return id

    def str(self, s):
        try:
            data, coder = s.encode('latin-1'), 0
        except UnicodeEncodeError:
            data, coder = s.encode('utf-16-le'), 1
        return self.inst(self.string, [(OBJ, self.primarray(BYTE, data)), (BYTE, coder), (INT, 0)])

    def set_props(self, props):
        self.props_done = True
        items = list(props.items()) if isinstance(props, dict) else list(props)
        nodes = [self.inst(self.node, [(INT, 0), (OBJ, self.str(k)), (OBJ, self.str(v)), (OBJ, 0)]) for k, v in items]
        table = self.objarray(self.nodes, nodes + [0])
        m = self.inst(self.map, [(OBJ, table)])
        self.cls('java/lang/System', statics=[('props', OBJ, self.inst(self.properties, [(OBJ, m)]))])

    def add_thread(self, name='main', tid=1, prio=5, daemon=False, status=5, frames=(), serial=None, cls=None, extra=()):
        """frames: (class id, method, signature, source or None, line)"""
        obj = self.inst(cls or self.thread, list(extra) + [(OBJ, self.str(name)), (INT, prio), (BOOL, daemon), (INT, status), (LONG, tid)])
        serial = serial or 100 + len(self.traces)
        ids = []
        for c, m, sig, src, line in frames:
            f = self.fresh()
            self.record(4, self.ident(f) + self.ident(self.name(m)) + self.ident(self.name(sig)) +
                        self.ident(self.name(src) if src is not None else 0) + struct.pack('>Ii', self.classes[c], line))
            ids.append(f)
        self.traces.append(serial)
        self.record(5, struct.pack('>III', 1000 + serial, serial, len(ids)) + b''.join(map(self.ident, ids)))
        self.roots.append(b'\x08' + self.ident(obj) + struct.pack('>II', serial, 1000 + serial))
        return serial

    def local(self, obj, serial, frame, jni=False):
        self.roots.append((b'\x02' if jni else b'\x03') + self.ident(obj) + struct.pack('>Ii', serial, frame))

    def header(self):
        return b'JAVA PROFILE 1.0.2\0' + struct.pack('>IQ', self.idsize, self.time_ms)

    def head(self):
        if not self.props_done:
            self.set_props({})
        return self.header() + b''.join(self.records)

    def heap(self):
        return self.roots + self.classdumps + [b for l in (self.instances, self.objarrays, self.primarrays)
                                               for _, b in sorted(l, key=lambda x: x[0])]

    def bytes(self, segments=1, known=True, end=True):
        head, heap = self.head(), self.heap()
        out = [head]
        n = max(1, -(-len(heap) // segments))
        for i in range(0, len(heap), n):
            body = b''.join(heap[i:i + n])
            out.append(struct.pack('>BII', 0x1c, 0, len(body) if known else 0) + body)
        if end:
            out.append(struct.pack('>BII', 0x2c, 0, 0))
        return b''.join(out)


class Tool:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='demo-')
        self.bin = os.path.join(self.dir, 'neojhat')
        subprocess.run(['go', 'build', '-buildvcs=false', '-o', self.bin, './cmd/neojhat'], check=True)

    def path(self, name='heap.hprof'):
        return os.path.join(self.dir, name)

    def write(self, data, name='heap.hprof'):
        shutil.rmtree(self.path(name) + '.db', ignore_errors=True)
        with open(self.path(name), 'wb') as f:
            f.write(data)
        return self.path(name)

    def run(self, cmd, path, *flags, quiet=True, **kw):
        args = [self.bin, cmd, '-hprof', path, '-no-color']
        if quiet:
            args.append('-non-interactive')
        kw.setdefault('timeout', 200)
        p = subprocess.run(args + list(flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')

    def ok(self, cmd, path, *flags, **kw):
        code, out, err = self.run(cmd, path, *flags, **kw)
        check(code == 0, '%s failed: %s %s' % (cmd, out[-500:], err[-500:]))
        return out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Failed(Exception):
    pass


def check(cond, message):
    if not cond:
        raise Failed(message)


def rows(report):
    """Rows of the objects report: name -> [(count, size)]"""
    res = {}
    for line in report.split('\n')[5:]:
        if '|' in line:
            name, count, size = [c.strip() for c in line.split('|')[:3]]
            res.setdefault(name, []).append((count, size))
    return res


def summary(report):
    res = {}
    for line in report.split('\n'):
        if ':' in line:
            k, v = line.split(':', 1)
            res[k] = v.strip()
    return res


def main(demo):
    t = Tool()
    try:
        demo(t)
    except Failed as e:
        print('FAILED:', e)
        sys.exit(1)
    finally:
        t.close()
    print('OK')
