from __future__ import annotations
from collections.abc import Iterator
from contextlib import contextmanager

@contextmanager
def wrap_exc(error_type: type[Exception], *, prefix: str) -> Iterator[None]:
    try:
        yield
    except error_type as e:
        msg = str(e)
        if getattr(e, 'wrapped', False) and e.__cause__ is not None:
            src = e.__cause__
        else:
            msg = f' - {msg}'
            src = e
        error = error_type(f'{prefix}{msg}')
        error.wrapped = True
        raise error from src
