#!/usr/bin/env python3
"""Writes harness/families.go."""
import os
o = '''package main

// Code generated by gen_families.py; many instances of recursive types, so that
// there are types that have not been used before.

var families = []family{
'''
for k in range(240):
    o += f'\tnewFamily[[{k}]byte](),\n'
open(os.path.join(os.path.dirname(__file__), '../harness/families.go'), 'w').write(o + '}\n')
