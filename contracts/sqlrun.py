"""Runs whole statements through the real engine (concrete side of the contracts only)."""
import os
_engine = None

def engine():
    global _engine
    if _engine is None:
        import logging
        logging.disable(logging.CRITICAL)
        from syncanysql import ScriptEngine
        _engine = ScriptEngine(); _engine.setup()
    return _engine

def put(name, rows):
    e = engine()
    e.pop_memory_datas(name)
    if rows: e.push_memory_datas(name, [dict(r) for r in rows])

def query(sql, **tables):
    """rows of a query over in-memory tables"""
    e = engine()
    for n, rows in tables.items(): put(n, rows)
    e.pop_memory_datas("pyvc_res")
    e.execute("insert into `pyvc_res` " + sql)
    rows = e.pop_memory_datas("pyvc_res")
    return [dict(r) for r in rows]

def run(script, **tables):
    e = engine()
    for n, rows in tables.items(): put(n, rows)
    e.execute(script)
    return e

def value(expr):
    """value of a constant expression"""
    rows = query("select %s as v" % expr)
    return rows[0]["v"]
