"""Specification functions shared by the contracts (CPython text; functions marked SPEC are
interpreted by the prover through uninterpreted functions plus their defining axioms)."""
import datetime, decimal, re

NUMS = (int, float, decimal.Decimal)

def leading(x, is_float):
    """SPEC: the number a text starts with (ASCII digits, with a decimal part when asked for);
    a text that starts with no digit must be a number as a whole, else ValueError"""
    m = re.match(r"[0-9]+(\.[0-9]*)?" if is_float else r"[0-9]+", x)
    if not m: return float(x) if is_float else int(x)
    t = m.group()
    return float(t.rstrip(".")) if "." in t else int(t)

def text_int(s):
    """the integer a text denotes: as a whole, else its leading digits; ValueError when none"""
    try: return int(s)
    except Exception: return leading(s, False)

def text_number(s):
    """the number a text counts as"""
    if s == "": return 0
    if "." in s:
        try: return float(s)
        except Exception: return leading(s, True)
    return text_int(s)

def digits_form(x):
    if isinstance(x, datetime.datetime): return int(x.strftime("%Y%m%d%H%M%S"))
    if isinstance(x, datetime.date): return int(x.strftime("%Y%m%d"))
    return int(x.strftime("%H%M%S"))

def number(x):
    """numeric value of an operand: numbers count as themselves, booleans as 0/1, text as the number
    it starts with, temporal values as their digits; anything else empty counts 0 and otherwise int(x)"""
    if isinstance(x, NUMS): return x
    if x is None: raise ValueError("NULL has no numeric value")
    if isinstance(x, str): return text_number(x)
    if isinstance(x, (datetime.date, datetime.time)): return digits_form(x)
    if not x: return 0
    return int(x)

def integer(x):
    """integer value of an operand"""
    if isinstance(x, int): return x
    if x is None: raise ValueError("NULL has no integer value")
    if isinstance(x, str): return 0 if x == "" else text_int(x)
    if isinstance(x, (datetime.date, datetime.time)): return digits_form(x)
    if not x: return 0
    return int(x)

def text(x):
    """text of an operand"""
    if isinstance(x, str): return x
    if x is None: raise ValueError("NULL has no text")
    if isinstance(x, datetime.datetime): return x.strftime("%Y-%m-%d %H:%M:%S")
    if isinstance(x, datetime.date): return x.strftime("%Y-%m-%d")
    if isinstance(x, datetime.time): return x.strftime("%H:%M:%S")
    if not x: return "0"
    if x is True: return "1"
    if isinstance(x, bytes): return x.decode("utf-8")
    return str(x)
