#!/usr/bin/env python3
"""checks/run.py PROPERTY [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
prop = sys.argv.pop(1)
import vlib
MODULE = {}
for m, ps in (('graph', 'E01 E02 E03 E05 E06 T01'), ('api', 'E04 E07'), ('geom', 'G01 G02 G03 G04'), ('idf', 'I01 I02 I03'), ('solid', 'G05 I04'), ('files', 'F01 F02 F03 F04 F05 U01 X01')):
    for p in ps.split():
        MODULE[p] = m
mod = __import__(MODULE[prop])
vlib.main(lambda: mod.check(prop))
