"""imports the real enterprise package from the repository's current source, never from
cached bytecode, so that concrete replays always see the working tree"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from .load import REPO


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "enterprise" and not fullname.startswith("enterprise."):
            return None
        p = os.path.join(REPO, *fullname.split("."))
        if os.path.exists(p + "/__init__.py"):
            return importlib.util.spec_from_file_location(
                fullname, p + "/__init__.py", loader=_Loader(fullname, p + "/__init__.py"), submodule_search_locations=[p])
        if os.path.exists(p + ".py"):
            return importlib.util.spec_from_file_location(fullname, p + ".py", loader=_Loader(fullname, p + ".py"))
        return None


def install():
    sys.meta_path.insert(0, _Finder())
