"""builds the syntax dumper once; the checks build it themselves where it is missing"""
from . import cxx

if __name__ == '__main__':
    print(cxx.ensure_dumper())
