"""Builds projects and calls the real public API; helpers shared by the checks."""
import contextlib
import copy
import io
import json

from . import boot  # noqa
from . import sx
from .sqlp import SqlSyntax, parse, strip
from .sqls import SqlError

from metrics_layer.core import MetricsLayerConnection
from metrics_layer.core.exceptions import (
    AccessDeniedOrDoesNotExistException,
    JoinError,
    QueryError,
)
from metrics_layer.core.model.project import Project
from metrics_layer.core.sql.query_errors import ArgumentError, ParseError

REFUSALS = (QueryError, JoinError, AccessDeniedOrDoesNotExistException, ParseError, ArgumentError, NotImplementedError)

ALL = ["SNOWFLAKE", "BIGQUERY", "REDSHIFT", "POSTGRES", "DRUID", "SQL_SERVER", "DUCK_DB", "DATABRICKS", "AZURE_SYNAPSE", "TRINO"]
SYMM = ["SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES", "DUCK_DB"]


def dim(name, sql=None, type="string", **k):
    return {"field_type": "dimension", "name": name, "type": type, "sql": sql or "${TABLE}." + name, **k}


def pk(name, **k):
    return dim(name, primary_key=True, hidden=True, **k)


def meas(name, type, sql=None, **k):
    d = {"field_type": "measure", "name": name, "type": type, **k}
    if sql is not None:
        d["sql"] = sql
    return d


def timedim(name, sql=None, timeframes=None, datatype="timestamp", **k):
    return {
        "field_type": "dimension_group", "name": name, "type": "time", "sql": sql or "${TABLE}." + name, "datatype": datatype,
        "timeframes": timeframes or ["raw", "time", "date", "week", "month", "quarter", "year"], **k,
    }


def view(name, fields, identifiers=None, table=None, model="m", **k):
    d = {"type": "view", "name": name, "model_name": model, "sql_table_name": table or f"db.{name}", "fields": fields, **k}
    if identifiers is not None:
        d["identifiers"] = identifiers
    return d


def model(name="m", **k):
    return {"type": "model", "name": name, "connection": "c", **k}


def project(views, models=None, dashboards=None, dialect="SNOWFLAKE", timezone=None, user=None):
    p = Project(
        models=copy.deepcopy(models or [model()]),
        views=copy.deepcopy(views),
        dashboards=copy.deepcopy(dashboards or []),
        connection_lookup={"c": dialect},
    )
    if timezone:
        p.set_timezone(timezone)
    if user is not None:
        p.set_user(user)
    return p


def connection(p, user=None):
    return MetricsLayerConnection(project=p, connections=[], user=user)


class Refused(Exception):
    pass


def query(ctx, p, dialect, may_refuse=False, user=None, what="query", **q):
    """text of the SQL for request q; a refusal is an error unless may_refuse"""
    conn = connection(p, user)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return conn.get_sql_query(query_type=dialect, **q)
    except REFUSALS as e:
        if may_refuse:
            raise Refused(str(e))
        ctx.fail(f"{what} refused: {type(e).__name__}: {e}", {"request": q})
    except sx.EngineError:
        raise
    except Exception as e:
        ctx.fail(f"{what} raised {type(e).__name__}: {e}", {"request": q})


def sem(ctx, fn, sql, info=None):
    """run a semantic evaluation; text that is not meaningful SQL is a violation"""
    try:
        return fn()
    except (SqlSyntax, SqlError) as e:
        ctx.fail(f"generated SQL is not meaningful: {e}", {"sql": sql, **(info or {})})


def parsed(ctx, sql):
    try:
        return parse(sql)
    except SqlSyntax as e:
        ctx.fail(f"generated SQL does not parse: {e}", {"sql": sql})


def core_select(q):
    """the outermost SELECT of a parsed statement"""
    while q.k == "query":
        q = q.body
    return q


def find_col(rel, name):
    ix = [i for i, (_, n) in enumerate(rel.cols) if n.lower() == name.lower()]
    if len(ix) != 1:
        raise SqlError(f"result column {name} occurs {len(ix)} times")
    return ix[0]
