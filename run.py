#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   or   run.py setup"""
import sys
import checks
import vlib
sys.exit(vlib.main(checks.SPECS))
