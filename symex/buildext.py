"""setup.py with one folder of object files per extension: extensions share C++ sources (Mesh.cpp), and a parallel
build would write the same object file from several threads."""
import copy
import os
import sys
import setuptools
from Cython.Distutils import build_ext

plain = build_ext.build_extension


def build_extension(self, ext):
    mine = copy.copy(self)
    mine.build_temp = os.path.join(self.build_temp, ext.name)
    return plain(mine, ext)


build_ext.build_extension = build_extension
sys.argv[0] = 'setup.py'
sys.path.insert(0, os.getcwd())
with open('setup.py') as f:
    code = compile(f.read(), 'setup.py', 'exec')
exec(code, {'__name__': '__main__', '__file__': 'setup.py'})
