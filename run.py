#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N]: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import vf
from checks import files, maps, conc, hashes, chain, blocks, weddings
REG = {n: getattr(m, n) for m in (files, maps, conc, hashes, chain, blocks, weddings) for n in dir(m) if len(n) == 3 and n[0].isupper() and n[1:].isdigit()}
sys.exit(vf.main(REG))
