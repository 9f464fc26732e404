#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from e3xsa import run  # pylint: disable=wrong-import-position


def main():
  p = argparse.ArgumentParser()
  p.add_argument('property')
  p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick') or 'quick')
  a = p.parse_args()
  return run.main(a.property.upper(), a.tier)


if __name__ == '__main__':
  sys.exit(main())
