#!/usr/bin/env python3
"""builds the extractor and checks that the repository can be analysed"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from po.program import tool, Program
print('extractor:', tool())
p = Program()
print('functions:', len(p.funcs))
