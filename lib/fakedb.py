"""A scripted database system: all answers are functions of the arguments and all calls are recorded."""
from __future__ import annotations

from postbound import util
from postbound.db import Database, HintService, OptimizerInterface


class FakeHinting(HintService):
    def __init__(self, db):
        self.db = db
        self.unsupported = set()

    def generate_hints(self, query, plan=None, **kw):
        return self.db.log("hints", query, plan, tuple(sorted(kw.items(), key=lambda kv: kv[0])))

    def format_query(self, query):
        return str(query)

    def supports_hint(self, hint):
        return hint not in self.unsupported


class FakeOptimizer(OptimizerInterface):
    def __init__(self, db):
        self.db = db

    def query_plan(self, query):
        return self.db.log("native plan", query)

    def analyze_plan(self, query, *, timeout=None):
        return self.db.log("analyze", query)

    def parse_plan(self, plan, *, query=None):
        return self.db.log("parse", plan)

    def cardinality_estimate(self, query):
        return self.db.log("card", query)

    def cost_estimate(self, query):
        return self.db.log("cost", query)


class FakeDatabase(Database):
    def __init__(self, name, log):
        self.name = name
        self._log = log
        self._hints, self._opt = FakeHinting(self), FakeOptimizer(self)
        super().__init__("fake", cache_enabled=False)

    def log(self, *event):
        return self._log(self, *event)

    def schema(self):
        return None

    def statistics(self):
        return None

    def hinting(self):
        return self._hints

    def optimizer(self):
        return self._opt

    def execute_query(self, query, *, cache_enabled=None, raw=False, timeout=None):
        return self.log("execute", query)

    def database_name(self):
        return self.name

    def database_system_version(self):
        return util.Version("1.0")

    def describe(self):
        return {"system_name": self.name}

    def reset_connection(self):
        return None

    def cursor(self):
        return None

    def close(self):
        pass
