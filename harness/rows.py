"""Stand-ins for the rows and the session of the database (replays use the real ones)."""


class Column:
    """Row.column in a filter"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, v):
        return lambda r: getattr(r, self.name) == v

    def __ne__(self, v):
        return lambda r: not (getattr(r, self.name) == v)

    is_, is_not, isnot, __hash__ = __eq__, __ne__, __ne__, None

    def in_(self, vs):
        return lambda r: any(getattr(r, self.name) == v for v in vs)


class Columns(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Column(name)


class Row(metaclass=Columns):
    def __init__(self, **k):
        self.libraries = []
        self.sources = []
        self.license = None
        for a, v in k.items():
            setattr(self, a, v)


class Query:
    def __init__(self, rows):
        self.rows = rows

    def all(self):
        return list(self.rows)

    def __iter__(self):
        return iter(self.all())

    def filter(self, *xs):
        return Query([r for r in self.rows if all((x(r) if callable(x) else x) for x in xs)])

    where = filter

    def order_by(self, *_):
        return self

    def count(self):
        return len(self.rows)

    def one_or_none(self):
        return self.first()

    def filter_by(self, **k):
        return Query([r for r in self.rows if all(getattr(r, a) == v for a, v in k.items())])

    def first(self):
        return self.rows[0] if self.rows else None


class Session:
    """rows by class; what a row refers to is added with it"""

    def __init__(self):
        self.rows = []

    def add(self, r):
        if not any(r is x for x in self.rows):
            self.rows.append(r)
            for v in list(vars(r).values()):
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, Row):
                        self.add(x)

    def add_all(self, rows):
        for r in rows:
            self.add(r)

    def query(self, cls):
        return Query([r for r in self.rows if type(r) is cls])

    def commit(self):
        pass

    flush = commit
