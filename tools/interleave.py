"""Runs one call in the middle of another, at every line of the package."""
import sys
import threading


def interleave(first, second, inside=None, step=1, limit=100000, wait=2.0):
    """
    Run first(); at its n-th line (n = 1, 1 + step, ...) run second() in
    another thread.  -> yields (n, answer of first, answer of second)
    """
    n = 1

    while n <= limit:
        seen = [0, None]
        got = []

        def local(frame, event, arg):
            if event == 'line':
                seen[0] += 1
                if seen[0] == n:
                    t = threading.Thread(target=lambda: got.append(
                        answer(second)), daemon=True)
                    sys.settrace(None)
                    t.start()
                    t.join(wait)
                    seen[1] = t
            return local

        def trace(frame, event, arg):
            name = frame.f_code.co_filename.replace('\\', '/')
            if '/badidatetime/' not in name or '/tests/' in name:
                return None
            if seen[0] >= n or inside and \
               not name.endswith(inside):
                return None
            return local

        sys.settrace(trace)
        try:
            a = answer(first)
        finally:
            sys.settrace(None)

        if seen[1] is None:
            return

        seen[1].join(20)
        yield n, a, (got[0] if got else 'never finished')
        n += step


def nest(first, second, inside=None, step=1, limit=100000):
    """
    Run first(); at its n-th line run second() in the same thread, as a
    signal handler would.  -> yields (n, answer of first, answer of second)
    """
    n = 1

    while n <= limit:
        seen = [0]
        got = []

        def local(frame, event, arg):
            if event == 'line':
                seen[0] += 1
                if seen[0] == n:
                    sys.settrace(None)
                    got.append(answer(second))
            return local

        def trace(frame, event, arg):
            name = frame.f_code.co_filename.replace('\\', '/')
            if '/badidatetime/' not in name or '/tests/' in name:
                return None
            if seen[0] >= n or inside and not name.endswith(inside):
                return None
            return local

        sys.settrace(trace)
        try:
            a = answer(first)
        finally:
            sys.settrace(None)

        if not got:
            return

        yield n, a, got[0]
        n += step


def abort(first, exc=KeyboardInterrupt, inside=None, skip=None, step=1,
          limit=100000):
    """
    Run first() and raise exc at its n-th line, n = 1, 1 + step, ...
    -> yields n after each aborted call
    """
    n = 1

    while n <= limit:
        seen = [0]

        def local(frame, event, arg):
            if event == 'line':
                seen[0] += 1
                if seen[0] == n:
                    sys.settrace(None)
                    raise exc('aborted')
            return local

        def trace(frame, event, arg):
            name = frame.f_code.co_filename.replace('\\', '/')
            if '/badidatetime/' not in name or '/tests/' in name:
                return None
            if inside and not name.endswith(inside) or \
               frame.f_code.co_name == skip:
                return None
            return local

        sys.settrace(trace)
        try:
            first()
        except BaseException:
            pass
        finally:
            sys.settrace(None)

        if seen[0] < n:
            return
        yield n
        n += step


def in_time(call, seconds=10):
    """The answer of call() in another thread, or 'never finished'."""
    got = []
    t = threading.Thread(target=lambda: got.append(answer(call)), daemon=True)
    t.start()
    t.join(seconds)
    return got[0] if got else 'never finished'


def answer(call):
    try:
        return call()
    except Exception as e:
        return f'{type(e).__name__}: {e}'
