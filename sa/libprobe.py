"""Run by the interpreter the package is installed for: answers, for the
installed third-party libraries only, which dotted names exist and which
attribute names any of their classes has.  Reads a JSON request from stdin."""
import importlib
import inspect
import json
import sys
import warnings
warnings.simplefilter('ignore')
MISSING = object()


def resolve(d):
    """True / False / None (its package is not installed)"""
    parts = d.split('.')
    try:
        o = importlib.import_module(parts[0])
    except Exception:
        return None
    for i, p in enumerate(parts[1:], 1):
        n = MISSING
        try:
            n = getattr(o, p, MISSING)
        except Exception:
            return None
        if n is MISSING:
            if not inspect.ismodule(o):
                return False
            try:
                n = importlib.import_module('.'.join(parts[:i + 1]))
            except ImportError as e:
                return False if getattr(e, 'name', None) in (
                    None, '.'.join(parts[:i + 1])) else None
            except Exception:
                return None
        o = n
    return True


def signature(d):
    try:
        o = importlib.import_module(d.split('.')[0])
        for p in d.split('.')[1:]:
            o = getattr(o, p)
        s = inspect.signature(o)
    except Exception:
        return None
    out = []
    for p in s.parameters.values():
        out.append([p.name, p.kind.name, p.default is not p.empty])
    return out


def attributes(mods):
    seen = set()
    names = set()
    for m in mods:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    for mod in list(sys.modules.values()):
        try:
            d = vars(mod)
        except TypeError:
            continue
        names.update(d)
        for o in list(d.values()):
            if isinstance(o, type) and o not in seen:
                seen.add(o)
                try:
                    names.update(dir(o))
                    names.update(getattr(o, '__slots__', ()))
                    names.update(getattr(o, '__annotations__', ()))
                except Exception:
                    pass
    return sorted(n for n in names if isinstance(n, str))


def members(d):
    try:
        o = importlib.import_module(d.split('.')[0])
        for p in d.split('.')[1:]:
            o = getattr(o, p)
        return sorted(dir(o)) if isinstance(o, type) else None
    except Exception:
        return None


def methods(d):
    """{public name: signature without self, or None} of a class"""
    try:
        o = importlib.import_module(d.split('.')[0])
        for p in d.split('.')[1:]:
            o = getattr(o, p)
    except Exception:
        return None
    out = {}
    for n in dir(o):
        try:
            f = inspect.getattr_static(o, n)
            if isinstance(f, (classmethod, staticmethod)) or not callable(f):
                out[n] = None
                continue
            out[n] = [[p.name, p.kind.name,
                       p.default is not p.empty]
                      for p in inspect.signature(f).parameters.values()]
        except Exception:
            out[n] = None
    return out


def callables(d):
    try:
        o = importlib.import_module(d.split('.')[0])
        for i, p in enumerate(d.split('.')[1:], 2):
            try:
                o = getattr(o, p)
            except AttributeError:
                o = importlib.import_module('.'.join(d.split('.')[:i]))
    except Exception:
        return None
    return callable(o)


def star(d):
    try:
        o = importlib.import_module(d)
    except Exception:
        return None
    return sorted(getattr(o, '__all__', None) or
                  [n for n in vars(o) if not n.startswith('_')])


def main():
    req = json.load(sys.stdin)
    out = {'resolved': {d: resolve(d) for d in req.get('names', [])},
           'signatures': {d: signature(d) for d in req.get('calls', [])}}
    out['callable'] = {d: callables(d) for d in req.get('calls', [])}
    out['members'] = {d: members(d) for d in req.get('classes', [])}
    out['methods'] = {d: methods(d) for d in req.get('types', [])}
    out['stars'] = {d: star(d) for d in req.get('stars', [])}
    if 'modules' in req:
        out['attributes'] = attributes(req['modules'])
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
