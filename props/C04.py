"""percent-decoding: well-formed escapes become the byte they name, malformed ones are reported (STRICT) or kept (RELAXED); the text is never read outside its bounds"""
from irv.prop import *
from C03 import prove_decode, inputs_from
NATIVE = [('uri.cpp', ['-fsanitize=address'])]
def prove(c):
    c.module('uri.cpp')
    c.parallel([('decode strict', lambda d: prove_decode(d, True)), ('decode relaxed', lambda d: prove_decode(d, False))])
