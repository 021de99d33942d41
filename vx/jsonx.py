"""JSON round trips of objects that hold symbolic values.

On symbolic runs the conversion follows json.JSONEncoder step by step (the real JsonizeEncoder.default is executed for everything
that is not a JSON primitive) and keeps symbolic numbers as they are; concrete runs go through the real text."""
import enum
import json

from postbound.util.jsonize import JsonizeEncoder, to_json

from .sym import SymAtom, SymBool, SymFloat, SymInt

_ENC = JsonizeEncoder()


def _walk(o):
    if o is None or isinstance(o, (bool, SymInt, SymFloat, SymBool, SymAtom)):
        return o
    if isinstance(o, str):
        return str.__str__(o)
    if isinstance(o, (int, float)) and not isinstance(o, enum.Enum):
        return o
    if isinstance(o, (list, tuple)):
        return [_walk(x) for x in o]
    if isinstance(o, dict):
        r = {}
        for k, v in o.items():
            if not isinstance(k, (str, int, float)) and k is not None:
                raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")
            r[k if isinstance(k, str) else json.dumps(k)] = _walk(v)
        return r
    return _walk(_ENC.default(o))


def roundtrip(ctx, obj):
    """what json.loads(to_json(obj)) yields"""
    return _walk(obj) if ctx.symbolic else json.loads(to_json(obj))
