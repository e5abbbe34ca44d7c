"""runs the behaviour of a replay file and writes the events to stdout, one per line"""
import json
import os
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/../lib')
import vf


def events(f):
    d = json.load(open(f))
    w = tempfile.mkdtemp()
    return d, vf.execute(vf.build_driver(), [d['behaviour']], w)[0]


if __name__ == '__main__':
    for e in events(sys.argv[1])[1]:
        print(json.dumps(e))
