"""Imports rankeval from the working tree of /repo, with its native extensions taken from the simulated build.
No bytecode cache of /repo is ever read or written."""
import importlib.machinery, importlib.util, os, sys

REPO = os.environ.get('SIM_REPO', '/repo')


class _Source(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        return compile(self.get_data(self.path), self.path, 'exec', dont_inherit=True)


class Finder:
    def __init__(self, ext):
        self.ext = ext

    def find_spec(self, name, path=None, target=None):
        if name in self.ext:
            l = importlib.machinery.ExtensionFileLoader(name, self.ext[name])
            return importlib.util.spec_from_file_location(name, self.ext[name], loader=l)
        if name == 'rankeval' or name.startswith('rankeval.'):
            base = os.path.join(REPO, *name.split('.'))
            init = os.path.join(base, '__init__.py')
            if os.path.isfile(init):
                return importlib.util.spec_from_file_location(name, init, loader=_Source(name, init),
                                                              submodule_search_locations=[base])
            if os.path.isfile(base + '.py'):
                return importlib.util.spec_from_file_location(name, base + '.py', loader=_Source(name, base + '.py'))
        return None


def install(ext):
    sys.meta_path.insert(0, Finder(ext))
