"""Importing this package makes e2cnn be compiled from its current source, never from stale bytecode."""
import sys
from importlib.machinery import PathFinder, SourceFileLoader


class _Loader(SourceFileLoader):
    def path_stats(self, path):      # no stats: the import system then ignores any .pyc file
        raise OSError('bytecode not used')


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'e2cnn' and not name.startswith('e2cnn.'):
            return None
        spec = PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


if not any(getattr(f, '__name__', '') == '_Finder' for f in sys.meta_path):
    sys.meta_path.insert(0, _Finder)
