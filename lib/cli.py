"""Run the command line of the code under test."""
from __future__ import annotations

import contextlib
import io
import logging
import os
import shutil
import sys
from typing import Any, Dict, List, Optional
from unittest import mock

import yaml

from lib import world


class Outcome:
    def __init__(self):
        self.code: Any = 0
        self.stdout = ""
        self.messages: List[str] = []

    @property
    def ok(self):
        return self.code in (0, None)


class _Messages(logging.Handler):
    def __init__(self, out):
        super().__init__(logging.ERROR)
        self.out = out

    def emit(self, record):
        self.out.messages.append(record.getMessage())


@contextlib.contextmanager
def directory():
    """A scratch directory that is the current one."""
    d = world.scratch_dir()
    back = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(back)
        shutil.rmtree(d, ignore_errors=True)
        if d in world.SCRATCH:
            world.SCRATCH.remove(d)


def write(path, data):
    with open(path, "w", encoding="utf-8") as f:
        f.write(data if isinstance(data, str) else yaml.safe_dump(data, sort_keys=False, allow_unicode=False))


def run(argv: List[str], source=None, dest=None, stdin: Optional[str] = None) -> Outcome:
    """subsetter <argv>, with these engines in place of those that would connect to the source and the destination."""
    import subsetter.__main__ as program
    from subsetter.common import DatabaseConfig

    out = Outcome()
    text = io.StringIO()
    handler = _Messages(out)

    def engine(self, env_prefix=None):
        return dest if env_prefix and "DESTINATION" in env_prefix else source

    root = logging.getLogger()
    level = root.level
    disabled = logging.root.manager.disable
    with contextlib.ExitStack() as stack:
        stack.enter_context(mock.patch.object(sys, "argv", ["subsetter", *argv]))
        stack.enter_context(mock.patch.object(sys, "stdout", text))
        stack.enter_context(mock.patch.object(sys, "stderr", io.StringIO()))
        stack.enter_context(mock.patch.object(sys, "stdin", io.StringIO(stdin or "")))
        stack.enter_context(mock.patch.object(logging, "basicConfig", lambda *_, **__: None))
        if source is not None:
            stack.enter_context(mock.patch.object(DatabaseConfig, "database_engine", engine))
        logging.disable(logging.WARNING)
        root.addHandler(handler)
        try:
            program.main()
        except SystemExit as exc:
            out.code = exc.code
        finally:
            root.removeHandler(handler)
            root.setLevel(level)
            logging.disable(disabled)
    out.stdout = text.getvalue()
    return out
