#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = ('interprocedural abstract interpretation of the source (gated value '
       'numbering and must-facts on every path); ')
NOTE = ('Decides the property from the current source for all inputs of the '
        'declared types, relative to the library models and to the trusted '
        'declared parameter types listed in the evidence. Sound for the '
        'constructs it models; anything it cannot model becomes an opaque '
        'value, about which nothing is assumed. ')

CHECKS = {
    'C01': ('must-facts at the accepting exit imply the binding condition', ''),
    'C02': ('must-facts at the accepting exit imply the binding condition', ''),
    'C03': ('must-facts at the accepting exit imply the token binding match',
            ''),
    'C04': ('must-facts at the accepting exit, over the raw bytes', ''),
    'C05': ('must-facts at the accepting exit, over the raw flag byte', ''),
    'C06': ('quantified must-facts at the accepting exit', ''),
    'C07': ('must-pass-through of the attestation procedure with exact '
            'argument values, and value flow to the storage callback', ''),
    'C08': ('must-pass-through of the verification with exact argument '
            'values', ''),
    'C09': ('must-facts at the accepting exit', ''),
    'C10': ('must-facts at the accepting exit and value flow to the storage '
            'callback', ''),
    'C11': ('must-facts at the accepting exit and at the rejecting exits', ''),
    'C12': ('typestate and effect analysis of the storage callbacks', ''),
    'C13': ('exception-flow analysis (classes, causes, handlers)', ''),
    'C14': ('must-facts at every raise site contradict the named condition',
            ''),
    'C15': ('must-facts and value at the accepting exit, and every rejecting exit, against a reference function', ''),
    'C16': ('must-facts and value at the accepting exit, and every rejecting exit, against a reference function', ''),
    'C17': ('must-pass-through per statement class; no normal exit for the rest', ''),
    'C18': ('must-pass-through of the library verification with exact argument values', ''),
    'C19': ('value and exits against a reference function', ''),
    'C20': ('must-facts and exits against a reference function; must-pass-through of the gate in the parser', ''),
    'C21': ('the code\'s must-facts, value and exits compared with a reference function analysed the same way (acceptance, result and every rejection)', ''),
    'C22': ('value of the encoded map against a reference function', ''),
    'C23': ('the code\'s must-facts, value and exits compared with a reference function analysed the same way (acceptance, result and every rejection)', ''),
    'C24': ('the code\'s must-facts, value and exits compared with a reference function analysed the same way (acceptance, result and every rejection)', ''),
    'C25': ('the code\'s must-facts, value and exits compared with a reference function analysed the same way (acceptance, result and every rejection)', ''),
    'C26': ('the code\'s must-facts, value and exits compared with a reference function analysed the same way (acceptance, result and every rejection)', ''),
    'C27': ('the code\'s must-facts, value and exits compared with a reference function analysed the same way (acceptance, result and every rejection)', ''),
    'C28': ('the code\'s must-facts, value and exits compared with a reference function analysed the same way (acceptance, result and every rejection)', ''),
    'C29': ('the code\'s must-facts, value and exits compared with a reference function analysed the same way (acceptance, result and every rejection)', ''),
    'C30': ('exception-flow analysis of every public parser', ''),
    'C31': ('values and exits per kind of value compared with reference functions, recursion by co-induction; constant evaluation of the member names', ''),
    'C32': ('the fields and exits of every constructor compared with a reference class analysed the same way', ''),
    'C33': ('the fields and exits of every builder method compared with a reference analysed the same way', ''),
    'C34': ('evaluated module constants compared with the registries; bijectivity of names and values', ''),
    'C35': ('schema extraction from the ASN.1 class declarations and comparison with the registered schemas', ''),
    'C36': ('interprocedural effect analysis of every public function', ''),
    'C37': ('the code\'s must-facts, value and exits compared with a reference function analysed the same way (acceptance, result and every rejection)', ''),
    'C38': ('the code\'s must-facts, value and exits compared with a reference function analysed the same way (acceptance, result and every rejection)', ''),
    'C45': ('contradiction of every exit by exception with the conjunction of the requirements (a reference function analysed the same way)', ''),
    'C46': ('class hierarchy analysis over all pairs of error classes', ''),
    'C47': ('no normal exit of the base operations, interface comparison, and the arguments and fields at every storage call and constructor against a reference', ''),
}
NA = {
    'C39': 'Quantifies over all adversaries and rests on the hardness '
           'assumptions of ECDSA/EdDSA; no fact about the source decides it. '
           'The code side (what is verified, with which key) is C07, C08, '
           'C15, C16 and C18.',
    'C40': 'Execution time is not determined by the source: it depends on '
           'the interpreter and on the C libraries for comparison, decoding '
           'and cryptography. A ban on == would fire on harmless code.',
    'C41': 'Time and memory are spent inside cbor2, json and pyasn1 (nesting, '
           'length prefixes, shared references); their bounds are not '
           'visible in this source and no sound static bound is in reach.',
    'C42': 'The library does not offer it: it hands the trust path to the '
           'storage callback and configures no trust anchors. There is no '
           'code to decide it on.',
    'C43': 'The library neither creates nor stores challenges; freshness and '
           'single use are properties of the caller and of histories outside '
           'this code.',
    'C44': 'Quantifies over every conformant client and authenticator; there '
           'is no specification of that set to compare with statically. The '
           'decidable part (no check rejects what its own specification '
           'accepts) is C11, C14, C15, C21, C23-C29.',
}
PENDING = 'The check for this property is not built yet.'


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(
        HERE, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i]
            cmd = 'python3 check.py --property %s --tier ' % i
            checks.append({
                'property': i,
                'quick_cmd': cmd + 'quick',
                'thorough_cmd': cmd + 'thorough',
                'technique': ABS + t,
                'level': 'other',
                'level_note': NOTE + n,
            })
        else:
            na.append({'property': i, 'reason': NA.get(i, PENDING)})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
                   'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
