"""Helpers shared by the TimeFrame checks: build TimeFrames through the public
constructor and observe them through public attributes only."""
import itertools
from values import Ext, AObj, AList, short
from domains import atom, weak_orders, Lin
from interp import AbstractRaise, Undecided

TF = 'nilmtk.timeframe.TimeFrame'


class Unk(Exception):
    pass


def tf_class(ctx, I):
    return ctx.anchor(I, TF)


def mk(I, cls, s, e):
    return I.call(cls, [s, e], {})


def empty_frame(I, cls):
    """An empty frame, made the way users get one: two disjoint frames."""
    sv, I_r = getattr(I, 'ranks', {}), None
    I.ranks = dict(sv)
    I.ranks.update({'@x0': -9, '@x1': -8, '@x2': -7, '@x3': -6})
    f = mk(I, cls, atom('ts', '@x0'), atom('ts', '@x1'))
    g = mk(I, cls, atom('ts', '@x2'), atom('ts', '@x3'))
    return I.call(I.getattr(f, 'intersection'), [g], {})


def obs(I, f, name):
    v = I.getattr(f, name)
    return v


def pt(v):
    """normalise an observed bound: None, atom name, or raise Unk"""
    if v is None:
        return None
    if isinstance(v, Lin) and v.kind == 'ts' and len(v.co) == 1 and \
            not v.const and list(v.co.values()) == [1]:
        return list(v.co)[0]
    raise Unk(short(v))


def boolean(v):
    if isinstance(v, bool):
        return v
    raise Unk(short(v))


def exc_name(exc):
    return exc.cls.name.rsplit('.', 1)[-1] if isinstance(exc, AObj) else '?'
