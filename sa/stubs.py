"""Python source of the library functions the package relies on, for the analyser to read."""
BUILTINS = r'''
class object: pass

class BaseException:
    def __init__(self, *args, **kwargs):
        self.args = args
class Exception(BaseException): pass
class ArithmeticError(Exception): pass
class ZeroDivisionError(ArithmeticError): pass
class OverflowError(ArithmeticError): pass
class AssertionError(Exception): pass
class AttributeError(Exception): pass
class FrozenInstanceError(AttributeError): pass
class LookupError(Exception): pass
class IndexError(LookupError): pass
class KeyError(LookupError): pass
class NameError(Exception): pass
class RuntimeError(Exception): pass
class RecursionError(RuntimeError): pass
class NotImplementedError(RuntimeError): pass
class StopIteration(Exception): pass
class TypeError(Exception): pass
class ValueError(Exception): pass
class UnicodeError(ValueError): pass
class OSError(Exception): pass
class ImportError(Exception): pass
class KeyboardInterrupt(BaseException): pass
class SystemExit(BaseException): pass
class Warning(Exception): pass
class GeneratorExit(BaseException): pass

class Enum: pass
class Flag: pass
class IntFlag: pass

class LarkError(Exception): pass
class UnexpectedInput(LarkError):
    pass
class UnexpectedToken(UnexpectedInput): pass
class UnexpectedCharacters(UnexpectedInput): pass
class UnexpectedEOF(UnexpectedInput): pass
class VisitError(LarkError): pass
class Transformer:
    def __init__(self, visit_tokens=True): pass
class Token: pass

def any(iterable):
    for x in iterable:
        if x:
            return True
    return False

def all(iterable):
    for x in iterable:
        if not x:
            return False
    return True

def sum(iterable, start=0):
    total = start
    for x in iterable:
        total = total + x
    return total

def max(*args, key=None, default=NotImplemented):
    iterable = args[0] if len(args) == 1 else args
    none_yet = True
    for x in iterable:
        if none_yet:
            best = x
            none_yet = False
        elif (key(x) if key is not None else x) > (key(best) if key is not None else best):
            best = x
    if none_yet:
        if default is NotImplemented:
            raise ValueError("max() arg is an empty sequence")
        return default
    return best

def min(*args, key=None, default=NotImplemented):
    iterable = args[0] if len(args) == 1 else args
    none_yet = True
    for x in iterable:
        if none_yet:
            best = x
            none_yet = False
        elif (key(x) if key is not None else x) < (key(best) if key is not None else best):
            best = x
    if none_yet:
        if default is NotImplemented:
            raise ValueError("min() arg is an empty sequence")
        return default
    return best

def enumerate(iterable, start=0):
    i = start
    for x in iterable:
        yield (i, x)
        i += 1

def filter(f, iterable):
    for x in iterable:
        if (x if f is None else f(x)):
            yield x

def map(f, iterable):
    for x in iterable:
        yield f(x)

def _chain(*iterables):
    for it in iterables:
        for x in it:
            yield x

def _chain_from(iterables):
    for it in iterables:
        for x in it:
            yield x

def _reduce(f, iterable, initial=NotImplemented):
    acc = initial
    for x in iterable:
        if acc is NotImplemented:
            acc = x
        else:
            acc = f(acc, x)
    return acc

def _takewhile(f, iterable):
    for x in iterable:
        if not f(x):
            break
        yield x

def _sorted(items, key=None, reverse=False):
    out = []
    for x in items:
        k = x if key is None else key(x)
        i = len(out)
        while i > 0 and ((out[i - 1][0] < k) if reverse else (k < out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]

def _position(items, x):
    i = 0
    for y in items:
        if y is x or y == x:
            return i
        i += 1
    raise ValueError()

def _nextfirst(iterable, default):
    for x in iterable:
        return x
    return default

def _nextraise(iterable):
    for x in iterable:
        return x
    raise StopIteration()

class Iterable: pass
class Container: pass
class Sized: pass
class Hashable: pass
class Callable: pass
class Iterator(Iterable): pass
class Generator(Iterator): pass
class Collection(Iterable): pass
class Sequence(Collection):
    def __iter__(self):
        i = 0
        try:
            while True:
                v = self[i]
                yield v
                i += 1
        except IndexError:
            return
    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False
    def __reversed__(self):
        for i in reversed(range(len(self))):
            yield self[i]
    def index(self, value, start=0, stop=None):
        i = start
        while stop is None or i < stop:
            try:
                v = self[i]
            except IndexError:
                break
            if v is value or v == value:
                return i
            i += 1
        raise ValueError()
    def count(self, value):
        return sum(1 for v in self if v is value or v == value)
class MutableSequence(Sequence):
    def append(self, value):
        self.insert(len(self), value)
    def clear(self):
        try:
            while True:
                self.pop()
        except IndexError:
            pass
    def reverse(self):
        n = len(self)
        for i in range(n // 2):
            self[i], self[n - i - 1] = self[n - i - 1], self[i]
    def extend(self, values):
        if values is self:
            values = list(values)
        for v in values:
            self.append(v)
    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v
    def remove(self, value):
        del self[self.index(value)]
    def __iadd__(self, values):
        self.extend(values)
        return self
class Mapping(Collection): pass
class ABC: pass
'''
