"""In-memory stand-ins for the drivers of the PostgreSQL, MySQL and MongoDB backends.

The SQL ones are SQLite files behind the DB-API conduct of the real drivers: a transaction is opened by the first statement and
ends with commit() or rollback(), closing without commit loses it, parameters are %s, times come back as they were handed in,
information_schema.tables exists, rows have the type of the cursor class.  A MySQL transaction reads from the snapshot of its
first read.
Anything which dsari may do with a driver and these do not know ends the check without a verdict (core.HarnessError)."""
import copy
import datetime as dt
import json
import os
import pickle
import re
import shutil
import sqlite3
import sys
import types

import core


def unsupported(what):
    raise core.HarnessError("the stand-in driver does not know " + what)


class Strict:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        unsupported("%s.%s" % (type(self).__name__, name))


# ---- SQL ----
class Row(dict):
    """psycopg2's DictRow: like a list and like a dictionary."""
    def __getitem__(self, k):
        return list(self.values())[k] if isinstance(k, (int, slice)) else dict.__getitem__(self, k)

    def __iter__(self):
        return iter(self.values())


class TupleRow(tuple):
    pass


class Cursor(Strict):
    def __init__(self, conn, kind):
        self.conn, self.kind = conn, kind
        self.cur, self.closed, self.rowcount, self.description, self.rows = None, False, -1, None, []

    def execute(self, sql, args=None):
        if self.closed:
            raise RuntimeError("cursor already closed")
        c = self.conn
        if args is not None and not isinstance(args, (list, tuple, dict)):
            raise TypeError("query arguments")
        if isinstance(args, dict):
            unsupported("named parameters")
        if args is not None:
            parts = re.split(r"(%%|%s)", sql)
            if any("%" in p for p in parts[::2]):
                raise ValueError("unsupported format character in " + sql)
            if parts.count("%s") != len(args):
                raise TypeError("not all arguments converted")
            sql = "".join({"%s": "?", "%%": "%"}.get(p, p) for p in parts)
        if "?" in sql and args is None:
            raise c.driver.ProgrammingError("syntax error at or near '?'")
        if re.search(r"\bin\s*\(\s*\)", sql, re.I):
            raise c.driver.ProgrammingError("syntax error at or near ')'")
        c.begin(sql)
        self.cur = c.db.execute(sql, [c.adapt(a) for a in args or ()])
        self.description = self.cur.description
        cols = [x[0] for x in self.description or ()]
        self.rows = []
        for r in self.cur.fetchall() if cols else ():
            self.rows.append(c.row(cols, r, self.kind))
        self.rowcount = len(self.rows) if cols else self.cur.rowcount
        c.after(sql)
        return self.rowcount if c.name == "mysql" else None

    def executemany(self, sql, seq):
        for a in seq:
            self.execute(sql, a)

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchall(self):
        r, self.rows = self.rows, []
        return r if self.conn.name == "postgresql" else tuple(r)

    def fetchmany(self, size=1):
        r, self.rows = self.rows[:size], self.rows[size:]
        return r

    def __iter__(self):
        while self.rows:
            yield self.rows.pop(0)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Connection(Strict):
    cursor_factory = None

    def __init__(self, driver, name, path, cursor_class=None):
        self.driver, self.name, self.path = driver, name, path
        self.cursor_class = cursor_class
        self.snapshot = None
        self.closed = 0
        self.autocommit_ = False
        self.live = self.connect(path)
        self.db = self.live

    def connect(self, path):
        db = sqlite3.connect(path, isolation_level=None, timeout=0.2)
        db.execute("pragma synchronous = off")
        db.execute("attach ':memory:' as information_schema")
        db.execute("create table information_schema.tables(table_catalog, table_schema, table_name)")
        db.create_function("current_database", 0, lambda: "dsari")
        db.create_function("database", 0, lambda: "dsari")
        db.create_function("current_schema", 0, lambda: "public")
        return db

    def refresh(self, db):
        names = [r[0] for r in db.execute("select name from main.sqlite_master where type = 'table' and name not like 'sqlite_%'")]
        have = [r[0] for r in db.execute("select table_name from information_schema.tables")]
        if sorted(names) != sorted(have):
            db.execute("delete from information_schema.tables")
            db.executemany("insert into information_schema.tables values('dsari', ?, ?)", [("public" if self.name == "postgresql" else "dsari", n) for n in names])

    def begin(self, sql):
        if self.closed:
            raise self.driver.InterfaceError("connection already closed")
        read = sql.lstrip()[:6].lower() == "select"
        if self.name == "mysql" and not self.autocommit_ and read and not self.live.in_transaction:
            # REPEATABLE READ: the first read of a transaction fixes what it sees
            if self.snapshot is None:
                self.snapshot = self.connect(":memory:")
                self.live.backup(self.snapshot)
                self.refresh(self.snapshot)
            self.db = self.snapshot
            return
        self.db = self.live
        self.refresh(self.live)
        if not read and not self.live.in_transaction and not self.autocommit_:
            self.live.execute("begin immediate")

    def after(self, sql):
        if self.name == "mysql" and sql.lstrip()[:6].lower() in ("create", "alter ", "drop t"):
            self.commit()      # DDL commits by itself
        self.db = self.live

    def adapt(self, v):
        if isinstance(v, dt.datetime):
            if v.tzinfo is None:
                u = v.astimezone(dt.timezone.utc)
            else:
                u = v.astimezone(dt.timezone.utc)
            off = v.utcoffset()
            return "\x01T%s|%s" % (u.strftime("%Y-%m-%dT%H:%M:%S.%f"), "" if off is None else int(off.total_seconds()))
        if v is None or isinstance(v, (int, float, str, bytes)):
            return v
        raise self.driver.ProgrammingError("can't adapt type %r" % type(v).__name__)

    def row(self, cols, r, kind):
        vals = []
        for c, v in zip(cols, r):
            if isinstance(v, str) and v.startswith("\x01T"):
                s, off = v[2:].split("|")
                v = dt.datetime.strptime(s, "%Y-%m-%dT%H:%M:%S.%f").replace(tzinfo=dt.timezone.utc)
                v = v.astimezone(dt.timezone(dt.timedelta(seconds=int(off)))) if off else v.astimezone().replace(tzinfo=None)
            elif self.name == "postgresql" and c in ("trigger_data", "run_data"):
                v = json.loads(v)
            vals.append(v)
        if kind == "row":
            return Row(zip(cols, vals))
        if kind == "dict":
            return dict(zip(cols, vals))
        return TupleRow(vals)

    def cursor(self, *args, **kw):
        f = kw.get("cursor_factory") or kw.get("cursorclass") or (args[0] if args and isinstance(args[0], type) else None) or self.cursor_factory or self.cursor_class
        kind = getattr(f, "kind", "tuple")
        return Cursor(self, kind)

    def commit(self):
        if self.closed:
            raise self.driver.InterfaceError("connection already closed")
        self.end("commit")

    def rollback(self):
        self.end("rollback")

    def end(self, how):
        if self.snapshot is not None:
            self.snapshot.close()
            self.snapshot = None
        if self.live.in_transaction:
            self.live.execute(how)

    def close(self):
        if not self.closed:
            self.end("rollback")
            self.live.close()
            self.closed = 1

    def __enter__(self):
        return self

    def __exit__(self, et, *a):
        self.rollback() if et else self.commit()

    # the two spellings
    @property
    def autocommit(self):
        return self.autocommit_

    @autocommit.setter
    def autocommit(self, v):
        self.autocommit_ = bool(v)

    def set_session(self, autocommit=None, **kw):
        if kw:
            unsupported("set_session")
        self.autocommit_ = bool(autocommit)

    def ping(self, *a):
        return None


class Factory:
    def __init__(self, kind):
        self.kind = kind


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    return m


class Lax(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        unsupported("%s.%s" % (self.__name__, name))


def errors():
    class Error(Exception):
        pass
    names = {"Error": Error}
    for n in ("InterfaceError", "DatabaseError", "OperationalError", "ProgrammingError", "IntegrityError", "DataError", "InternalError", "NotSupportedError"):
        names[n] = type(n, (Error,), {})
    return names


def kinds(**kw):
    return {k: type(k, (), {"kind": v}) for k, v in kw.items()}


def install(d):
    """Install the drivers; their data are below d.  Returns what they were connected with."""
    seen = []

    def mod(name, **attrs):
        m = Lax(name)
        m.__dict__.update(attrs)
        m.__dict__.setdefault("__path__", [])
        sys.modules[name] = m
        return m

    pg = mod("psycopg2", **errors())
    pg.extras = mod("psycopg2.extras", **kinds(DictCursor="row", RealDictCursor="dict", NamedTupleCursor="tuple"))
    pg.extensions = mod("psycopg2.extensions", **kinds(cursor="tuple"))

    def pg_connect(dsn=None, connection_factory=None, cursor_factory=None, **kw):
        seen.append(["postgresql", dsn, kw])
        c = Connection(pg, "postgresql", "%s/pg-%s" % (d, (dsn or "").replace("/", "_")))
        c.cursor_factory = cursor_factory
        return c
    pg.connect = pg_connect

    my = mod("MySQLdb", **errors())
    my.cursors = mod("MySQLdb.cursors", **kinds(Cursor="tuple", DictCursor="dict", SSCursor="tuple", SSDictCursor="dict"))

    def my_connect(*args, cursorclass=None, **kw):
        if args:
            unsupported("positional arguments of connect")
        seen.append(["mysql", None, kw])
        c = Connection(my, "mysql", "%s/my-%s" % (d, kw.get("db", kw.get("database", ""))), cursorclass)
        if kw.get("autocommit"):
            c.autocommit_ = True
        return c
    my.connect = my.Connect = my.Connection = my_connect

    mongo = mod("pymongo", ASCENDING=1, DESCENDING=-1)
    servers = {}

    class MongoClient(Strict):
        def __init__(self, host=None, port=None, **kw):
            seen.append(["mongodb", host, kw])
            self._server = servers.setdefault(host, {})

        def __getitem__(self, name):
            return MongoDatabase(self._server.setdefault(name, {}), name)

        def __getattr__(self, name):
            if name.startswith("_"):
                raise AttributeError(name)
            if name in ("server_info", "list_databases", "start_session", "get_default_database", "admin"):
                unsupported("MongoClient." + name)
            return self[name]

        def get_database(self, name=None, **kw):
            if name is None:
                unsupported("get_database without a name")
            return self[name]

        def close(self):
            pass
    mongo.MongoClient = MongoClient
    mongo.errors = mod("pymongo.errors", PyMongoError=type("PyMongoError", (Exception,), {}), DuplicateKeyError=type("DuplicateKeyError", (Exception,), {}))
    return seen, servers


class MongoDatabase:
    def __init__(self, data, name):
        self._data, self.name = data, name

    def __getitem__(self, name):
        return Collection(self._data, name)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return self[name]

    def get_collection(self, name, **kw):
        return self[name]

    def list_collection_names(self, *a, **kw):
        return sorted(self._data)

    def create_collection(self, name, **kw):
        if name in self._data:
            raise sys.modules["pymongo.errors"].PyMongoError("collection already exists")
        self._data[name] = []
        return self[name]

    def drop_collection(self, name, **kw):
        self._data.pop(name, None)


def get(doc, path):
    for p in path.split("."):
        if not isinstance(doc, dict) or p not in doc:
            return None
        doc = doc[p]
    return doc


def matches(doc, flt):
    for k, v in (flt or {}).items():
        if k in ("$and", "$or"):
            r = [matches(doc, f) for f in v]
            if not (all(r) if k == "$and" else any(r)):
                return False
            continue
        if k.startswith("$"):
            unsupported("operator " + k)
        x = get(doc, k)
        if isinstance(v, dict) and any(o.startswith("$") for o in v):
            for o, a in v.items():
                if o == "$in" and not isinstance(a, (list, tuple)):
                    raise sys.modules["pymongo.errors"].PyMongoError("$in needs an array")
                ops = {"$in": lambda: x in a, "$nin": lambda: x not in a, "$ne": lambda: x != a, "$eq": lambda: x == a,
                       "$gt": lambda: x is not None and x > a, "$lt": lambda: x is not None and x < a, "$gte": lambda: x is not None and x >= a,
                       "$lte": lambda: x is not None and x <= a, "$exists": lambda: (get(doc, k) is not None) == bool(a)}
                if o not in ops:
                    unsupported("operator " + o)
                if not ops[o]():
                    return False
        elif x != v:
            return False
    return True


class MongoResult(Strict):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Find(Strict):
    def __init__(self, docs, projection=None):
        self._docs, self._proj, self._limit, self._skip, self._sort = docs, projection, 0, 0, None

    def sort(self, key, direction=None):
        self._sort = [(key, direction or 1)] if isinstance(key, str) else list(key.items() if isinstance(key, dict) else key)
        return self

    def limit(self, n):
        self._limit = n
        return self

    def skip(self, n):
        self._skip = n
        return self

    def _result(self):
        r = list(self._docs)
        for key, direction in reversed(self._sort or []):
            r.sort(key=lambda doc: (get(doc, key) is not None, get(doc, key)), reverse=direction < 0)
        r = r[self._skip:]
        if self._limit:
            r = r[:self._limit]
        r = copy.deepcopy(r)
        if self._proj:
            if not isinstance(self._proj, dict):
                self._proj = dict.fromkeys(self._proj, 1)
            inc = [k for k, v in self._proj.items() if v]
            if inc:
                r = [{k: v for k, v in x.items() if k in inc or (k == "_id" and self._proj.get("_id", 1))} for x in r]
            else:
                r = [{k: v for k, v in x.items() if k not in self._proj} for x in r]
        return r

    def __iter__(self):
        self._it = iter(self._result())
        return self

    def __next__(self):
        if "_it" not in self.__dict__:
            self._it = iter(self._result())
        return next(self._it)

    next = __next__

    def __getitem__(self, k):
        if isinstance(k, slice):
            self._docs = self._result()[k]
            self._limit = self._skip = 0
            self._sort = None
            return self
        r = self._result()
        if not -1 < k < len(r):
            raise IndexError("no such item for Cursor instance")
        return r[k]

    def close(self):
        pass

    def to_list(self, length=None):
        return self._result()[:length]


class Collection:
    count = 0

    def __init__(self, data, name):
        self._data, self.name = data, name

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        unsupported("Collection." + name)

    @property
    def docs(self):
        return self._data.get(self.name, [])

    def find(self, filter=None, projection=None, **kw):
        f = Find([x for x in self.docs if matches(x, filter)], projection)
        for k, v in kw.items():
            if k not in ("sort", "limit", "skip"):
                unsupported("find(%s=)" % k)
            if v:
                getattr(f, k)(v)
        return f

    def find_one(self, filter=None, projection=None, **kw):
        return next(iter(self.find(filter, projection, **kw).limit(1)), None)

    def count_documents(self, filter, **kw):
        return len([x for x in self.docs if matches(x, filter)])

    def insert_one(self, doc, **kw):
        if not isinstance(doc, dict):
            raise TypeError("document must be an instance of dict")
        Collection.count += 1
        doc.setdefault("_id", Collection.count)
        x = copy.deepcopy(doc)
        check_bson(x)
        if any(y["_id"] == x["_id"] for y in self.docs):
            raise sys.modules["pymongo.errors"].DuplicateKeyError("_id")
        self._data.setdefault(self.name, []).append(x)
        return MongoResult(inserted_id=x["_id"], acknowledged=True)

    def insert_many(self, docs, **kw):
        return MongoResult(inserted_ids=[self.insert_one(x).inserted_id for x in docs])

    def delete_many(self, filter, **kw):
        gone = [x for x in self.docs if matches(x, filter)]
        if gone:
            self._data[self.name][:] = [x for x in self.docs if not matches(x, filter)]
        return MongoResult(deleted_count=len(gone))

    def delete_one(self, filter, **kw):
        for i, x in enumerate(self.docs):
            if matches(x, filter):
                del self.docs[i]
                return MongoResult(deleted_count=1)
        return MongoResult(deleted_count=0)

    def replace_one(self, filter, doc, upsert=False, **kw):
        for i, x in enumerate(self.docs):
            if matches(x, filter):
                self.docs[i] = dict(copy.deepcopy(doc), _id=x["_id"])
                return MongoResult(matched_count=1, modified_count=1)
        if upsert:
            self.insert_one(dict(doc))
        return MongoResult(matched_count=0, modified_count=0)

    def create_index(self, *a, **kw):
        self._data.setdefault(self.name, [])
        return "index"

    create_indexes = ensure_index = create_index

    def drop(self):
        self._data.pop(self.name, None)


def check_bson(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if not isinstance(k, str):
                raise TypeError("documents must have only string keys, key was %r" % (k,))
            check_bson(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            check_bson(v)
    elif not (x is None or isinstance(x, (str, int, float, bool, bytes, dt.datetime))):
        raise TypeError("cannot encode object: %r, of type: %r" % (x, type(x)))
