#!/usr/bin/env python3
"""Checks that the tools are there and that the framework builds."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build
for t in ('gcc', 'ld', 'objcopy', 'nm', 'java', 'javac'):
    if not shutil.which(t):
        sys.exit('missing: ' + t)
for j in (build.JAR, build.COMM):
    if not os.path.exists(j):
        sys.exit('missing: ' + j)
d = tempfile.mkdtemp(prefix='verif-setup-', dir='/tmp')
try:
    build.java(d)
    build.driver(d)
finally:
    shutil.rmtree(d)
print('ok')
