"""Projects on disk, driven through the real command line (in this process, inside a scratch directory)."""
import contextlib
import json
import os
import shutil
import warnings

import sut


class Workspace:
    """a scratch directory that is the working directory while commands run"""

    def __init__(self, files=None):
        self.root = os.path.realpath(sut.scratch())
        for name, content in (files or {}).items():
            self.write(name, content)

    def path(self, name):
        return os.path.join(self.root, name)

    def write(self, name, content):
        path = self.path(name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode("utf-8"))
        return path

    def read(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def snapshot(self, below=""):
        out = {}
        for directory, _, names in os.walk(self.path(below)):
            for n in names:
                p = os.path.join(directory, n)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, self.root)] = f.read()
        return out

    @contextlib.contextmanager
    def inside(self):
        old = os.getcwd()
        os.chdir(self.root)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                yield
        finally:
            os.chdir(old)

    def run(self, *args):
        """(exit code, output, exception that escaped) of `turms <args>`"""
        from click.testing import CliRunner
        from turms.cli.main import cli
        with self.inside():
            result = CliRunner().invoke(cli, list(args))
        escaped = result.exception if result.exception is not None and not isinstance(result.exception, SystemExit) else None
        return result.exit_code, result.output, escaped

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)


PATHS = {"enums": "turms.plugins.enums.EnumsPlugin", "inputs": "turms.plugins.inputs.InputsPlugin", "fragments": "turms.plugins.fragments.FragmentsPlugin",
         "operations": "turms.plugins.operations.OperationsPlugin", "funcs": "turms.plugins.funcs.FuncsPlugin", "input_funcs": "turms.plugins.input_funcs.InputFuncsPlugin",
         "objects": "turms.plugins.objects.ObjectsPlugin", "strawberry": "turms.plugins.strawberry.StrawberryPlugin",
         "default": "turms.stylers.default.DefaultStyler", "capitalize": "turms.stylers.capitalize.CapitalizeStyler", "snake": "turms.stylers.snake_case.SnakeCaseStyler",
         "appender": "turms.stylers.appender.AppenderStyler",
         "black": "turms.processors.black.BlackProcessor", "isort": "turms.processors.isort.IsortProcessor", "ruff": "turms.processors.ruff.RuffProcessor",
         "disclaimer": "turms.processors.disclaimer.DisclaimerProcessor", "command": "turms.processors.command.CommandProcessor", "merge": "turms.processors.merge.MergeProcessor",
         "polyfill": "turms.parsers.polyfill.PolyfillPlugin"}


def proxies(spec):
    """components as a configuration file names them"""
    return [{"type": PATHS[s]} if isinstance(s, str) else {"type": PATHS[s[0]], **s[1]} for s in spec]


def turms_config(plugins=sut.CLIENT, stylers=(), processors=(), parsers=(), **options):
    return {**options, **{k: proxies(v) for k, v in (("plugins", plugins), ("stylers", stylers), ("processors", processors), ("parsers", parsers)) if v}}


def project(schema, documents, turms, **extra):
    out = {"schema": schema, **extra, "extensions": {"turms": turms}}
    return {**out, "documents": documents} if documents is not None else out


def dump(config):
    return json.dumps(config)
