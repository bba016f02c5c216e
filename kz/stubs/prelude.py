"""Models of standard-library pieces the analysed code may use, written in
Python and interpreted by the analyser like the code itself."""


class StringIO(object):
    def __init__(self, initial='', newline=None):
        self._data = initial or ''
        self._pos = 0
        self.closed = False

    def write(self, s):
        if self._pos == len(self._data):
            self._data = self._data + s
        else:
            self._data = self._data[:self._pos] + s + self._data[self._pos + len(s):]
        self._pos = self._pos + len(s)
        return len(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def read(self, n=-1):
        if n is None or n < 0:
            r = self._data[self._pos:]
        else:
            r = self._data[self._pos:self._pos + n]
        self._pos = self._pos + len(r)
        return r

    def getvalue(self):
        return self._data

    def seek(self, pos, whence=0):
        self._pos = pos if whence == 0 else (self._pos if whence == 1 else len(self._data)) + pos
        return self._pos

    def tell(self):
        return self._pos

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class deque(object):
    def __init__(self, items=(), maxlen=None):
        self._items = list(items)

    def append(self, x):
        self._items.append(x)

    def appendleft(self, x):
        self._items.insert(0, x)

    def extend(self, xs):
        self._items.extend(xs)

    def pop(self):
        return self._items.pop()

    def popleft(self):
        return self._items.pop(0)

    def clear(self):
        self._items = []

    def remove(self, x):
        self._items.remove(x)

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(self._items)

    def __getitem__(self, i):
        return self._items[i]

    def __contains__(self, x):
        return x in self._items


class bytearray(object):
    def __init__(self, data='', encoding=None):
        if isinstance(data, int):
            self._data = '\0' * data
        elif isinstance(data, str):
            self._data = data
        elif isinstance(data, bytearray):
            self._data = data._data
        else:
            self._data = ''.join([chr(x) for x in data])

    def append(self, x):
        self._data = self._data + chr(x)

    def extend(self, xs):
        self._data = self._data + self._text(xs)

    def _text(self, xs):
        if isinstance(xs, str):
            return xs
        if isinstance(xs, bytearray):
            return xs._data
        return ''.join([chr(x) for x in xs])

    def __len__(self):
        return len(self._data)

    def __iter__(self):
        return iter([ord(c) for c in self._data])

    def __getitem__(self, i):
        if isinstance(i, int):
            return ord(self._data[i])
        return bytearray(self._data[i])

    def __setitem__(self, i, v):
        if isinstance(i, int):
            if i < 0:
                i = len(self._data) + i
            self._data = self._data[:i] + chr(v) + self._data[i + 1:]
        else:
            KZ.unsupported('slice assignment to a bytearray')

    def __delitem__(self, i):
        if isinstance(i, slice):
            if i.stop is None and i.step is None:
                self._data = self._data[:i.start]
            elif i.start is None and i.step is None:
                self._data = self._data[i.stop:]
            else:
                KZ.unsupported('slice deletion from a bytearray')
        else:
            self._data = self._data[:i] + self._data[i + 1:]

    def __add__(self, o):
        return bytearray(self._data + self._text(o))

    def __iadd__(self, o):
        self._data = self._data + self._text(o)
        return self

    def __eq__(self, o):
        return self._data == (o._data if isinstance(o, bytearray) else o)

    def __ne__(self, o):
        return not self == o

    def __str__(self):
        return self._data

    def decode(self, encoding='utf-8'):
        return self._data

    def reverse(self):
        self._data = self._data[::-1]

    def insert(self, i, x):
        self._data = self._data[:i] + chr(x) + self._data[i:]

    def pop(self, i=-1):
        x = ord(self._data[i])
        if i == -1:
            self._data = self._data[:-1]
        else:
            self._data = self._data[:i] + self._data[i + 1:]
        return x


class ExitStack(object):
    def __init__(self):
        self._todo = []

    def callback(self, f, *a, **k):
        self._todo.append(lambda: f(*a, **k))
        return f

    def enter_context(self, cm):
        v = cm.__enter__()
        self._todo.append(lambda: cm.__exit__(None, None, None))
        return v

    def push(self, cm):
        self._todo.append(lambda: cm.__exit__(None, None, None))
        return cm

    def pop_all(self):
        n = ExitStack()
        n._todo = self._todo
        self._todo = []
        return n

    def close(self):
        while self._todo:
            self._todo.pop()()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def takewhile(pred, xs):
    for x in xs:
        if not pred(x):
            break
        yield x


def dropwhile(pred, xs):
    on = False
    for x in xs:
        if on or not pred(x):
            on = True
            yield x


def islice(xs, *a):
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    else:
        start, stop = a[0], a[1]
        if len(a) == 3:
            step = a[2]
    n = 0
    for x in xs:
        if stop is not None and n >= stop:
            break
        if n >= start and (n - start) % (step or 1) == 0:
            yield x
        n += 1


def count(start=0, step=1):
    n = start
    while True:
        yield n
        n += step


def repeat(x, times=None):
    n = 0
    while times is None or n < times:
        yield x
        n += 1


def starmap(f, xs):
    for x in xs:
        yield f(*x)


def filterfalse(f, xs):
    for x in xs:
        if not (f(x) if f is not None else x):
            yield x


def zip_longest(a, b, fillvalue=None):
    a, b = list(a), list(b)
    for i in range(max(len(a), len(b))):
        yield (a[i] if i < len(a) else fillvalue, b[i] if i < len(b) else fillvalue)


def accumulate(xs):
    t = None
    for x in xs:
        t = x if t is None else t + x
        yield t


def call_until(f, stop):
    while True:
        x = f()
        if x == stop:
            return
        yield x


def fromkeys(ks, value=None):
    d = {}
    for k in ks:
        d[k] = value
    return d


def namedtuple(typename, fields, **opts):
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    names = tuple(fields)
    defaults = tuple(opts.get('defaults') or ())

    class Tuple(object):
        _fields = names

        def __init__(self, *a, **k):
            vals = list(a)
            for i in range(len(a), len(names)):
                if names[i] in k:
                    vals.append(k[names[i]])
                elif i >= len(names) - len(defaults):
                    vals.append(defaults[i - len(names) + len(defaults)])
                else:
                    raise TypeError('missing argument ' + names[i])
            if len(vals) > len(names):
                raise TypeError('too many arguments')
            self._values = tuple(vals)
            for i in range(len(names)):
                setattr(self, names[i], vals[i])

        def __iter__(self):
            return iter(self._values)

        def __len__(self):
            return len(names)

        def __getitem__(self, i):
            return self._values[i]

        def __eq__(self, o):
            return self._values == (o._values if isinstance(o, Tuple) else o)

        def __ne__(self, o):
            return not self == o

        def __hash__(self):
            return hash(self._values)

        def _replace(self, **k):
            return Tuple(*[k.get(n, getattr(self, n)) for n in names])

        def _asdict(self):
            return dict(zip(names, self._values))

        @classmethod
        def _make(cls, xs):
            return cls(*xs)
    return Tuple
