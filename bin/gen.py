#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'succinct_neo/src/'
BV, SL, TI, SG = S + 'bit_vec/mod.rs', S + 'bit_vec/slice/mod.rs', S + 'bit_vec/slice/trait_impls.rs', S + 'bit_vec/slice/slicing.rs'
BK, TR, IV = S + 'bit_vec/backing.rs', S + 'bit_vec/traits.rs', S + 'int_vec/mod.rs'
FP, ST, RT = S + 'rank_select/flat_popcount/mod.rs', S + 'rank_select/flat_popcount/strats.rs', S + 'rank_select/traits.rs'


def m(name, where):
    return {'name': name, 'where': where}


AI = 'abstract interpretation of the resolved MIR (relational domain, loop invariants by generalisation), dev and release profiles'
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=AI, level='proof', note='', state=None):
    a = {'files': files, 'mechanism': mech, 'observe_at': ['public API'], 'hook_needed': None}
    if state:
        a['state'] = state
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                   why_tests_cant=why, anchors=a), claim, level, note))


prop('P01', 'A bit write takes effect at its index and nowhere else',
     'After setting a bit to a value, reading that index yields that value; after flipping, it yields the opposite of '
     'what it yielded before. Every other bit of the same container, including bits outside the slice that was used '
     'for the write, is unchanged. This holds for bit vectors, bit slices (nested and mutable ones too), word arrays and '
     'the unsigned primitive types.',
     ['inputs', 'histories'], 'all lengths, contents, indices written, values, and indices read afterwards',
     'tests write fixed patterns into vectors of at most 160 bits and never check the frame for arbitrary contents',
     [BK, TI, BV, SL], [m('bit set/flip on words', BK), m('slice offset arithmetic', TI)])
prop('P02', 'Out-of-range bit access is rejected, in-range access never is',
     'A checked read, write or flip with an index at or beyond the length panics in every build profile before anything is '
     'modified, also when the index is so large that offset arithmetic overflows. With an index below the length the '
     'same call returns normally. For a slice the limit is the length of the slice, not of what it is a view into.',
     ['inputs', 'configurations'], 'all lengths, all 64-bit indices, build profiles with and without overflow checks',
     'tests try one out-of-range index per method in one profile', [BV, TI, BK], [m('index checks', TI), m('index checks', BK)])
prop('P03', 'A new bit vector has the requested length and holds only zeros',
     'Creating a bit vector of any size yields a vector that reports exactly that length, is empty exactly when the size is '
     'zero, and reads 0 at every index.',
     ['inputs'], 'all sizes', 'tests create a handful of sizes', [BV], [m('constructor', BV)])
prop('P04', 'A slice denotes exactly the requested range',
     'For every kind of range (inclusive, exclusive or unbounded on either side) slicing yields a view whose length is the '
     'number of positions in the range and whose bit k is bit start+k of the sliced object, recursively for slices of slices. '
     'A range that ends before it starts or reaches beyond the length is rejected by a panic in every build profile.',
     ['inputs', 'configurations'], 'all lengths, range kinds and bounds, including bounds at the end of the 64-bit range',
     'tests cover a few constant ranges of one 80-bit vector', [SG, SL], [m('range resolution', SG)])
prop('P05', 'Splitting partitions a slice without overlap or loss',
     'Splitting a slice at an index yields two views: the first covers the bits before the index, the second the rest, and '
     'their lengths add up to the length of the original. Writes through one of the mutable halves are visible at the '
     'corresponding position of the original and never change what the other half reads; an out-of-range split index is rejected.',
     ['inputs', 'histories'], 'all slices, split points, contents, written and read positions',
     'one test splits one vector at one index', [SL], [m('split_at / split_at_mut', SL)])
prop('P06', 'Bit iteration yields every bit once, in order, with an exact length',
     'Iterating over a bit vector or slice yields its bits in index order, exactly as many as its length, and then reports '
     'the end from there on. At every point the reported remaining length and size hint equal the number of bits still to come. '
     'Borrowing and consuming iterators agree.',
     ['inputs', 'histories'], 'all lengths, slice bounds, contents and numbers of steps taken',
     'tests iterate over three fixed vectors', [TI, SL, BV], [m('Iterator/ExactSizeIterator for bit iterators', TI)])
prop('P07', 'Bit sequences are equal exactly when they have the same bits',
     'Two slices (of possibly different kinds and offsets) compare equal if and only if they have the same length and the same '
     'bit at every index; the position inside the underlying words and the bits outside the slices do not matter. '
     'Equality is symmetric and inequality is its negation.',
     ['inputs'], 'all pairs of slices: lengths, offsets and contents', 'one test compares two constant slices',
     [TI], [m('PartialEq for slices', TI)])
prop('P08', 'No use of the safe API has undefined behaviour',
     'No call of a safe function of the crate, with any arguments and after any sequence of safe calls, reads or writes outside '
     'the memory it owns or borrows, uses uninitialised or freed memory, or violates the contract of an unsafe operation.',
     ['inputs', 'histories', 'configurations'], 'every call made by the specification programs of all other properties, for arbitrary arguments',
     'an out-of-bounds read usually goes unnoticed by a test', [BK, SL, TI, IV, FP, ST], [m('unsafe blocks', BK), m('unsafe blocks', FP), m('unsafe blocks', IV)],
     note='union of the undefined-behaviour obligations of all specification programs')
prop('P09', 'An integer vector returns what was stored, at every width',
     'For every width from 1 to 64 bits and every history of pushes and sets of values that fit, reading index i yields the value last stored '
     'at i; pushing appends, setting changes that element only, and the number of elements is the number of pushes.',
     ['inputs', 'histories'], 'all widths, numbers of elements, values, indices',
     'tests use widths 4, 7, 8, 12 and 23 with at most 50 values', [IV], [m('packed push/get/set', IV)])
prop('P10', 'An integer vector rejects bad indices, values and widths',
     'Reading or setting at an index at or beyond the number of elements, storing (by push or set) a value that needs more bits than the '
     'width, and creating a vector of width 0 or more than 64 bits panic in every build profile and leave the vector unchanged. Valid calls do not panic.',
     ['inputs', 'configurations'], 'all widths, lengths, indices and values', 'four tests with one bad argument each, one width',
     [IV], [m('checks in push/get/set/with_capacity', IV)])
prop('P11', 'Integer iteration yields every element once, in order, with an exact length',
     'Iterating over an integer vector, by reference or by value, yields the stored elements in index order, exactly as many as were pushed, '
     'then ends for good; the reported remaining length and size hint are exact at every point.',
     ['inputs', 'histories'], 'all widths, lengths, contents, numbers of steps', 'two tests with fixed contents',
     [IV], [m('iterators', IV)])
prop('P12', 'Rank counts the ones (or zeros) before an index, for every bit vector',
     'For every bit vector and every index up to and including its length, rank of ones equals the number of 1 bits strictly before the index, and '
     'rank of zeros the number of 0 bits; the statically and the dynamically selected variants agree.',
     ['inputs'], 'all lengths, contents and indices', 'tests cover two patterns of period at most 4 and lengths up to 50000',
     [FP, RT], [m('index construction', FP), m('rank', FP)])
prop('P13', 'Select finds the k-th one, and reports absence exactly when there is none',
     'For every bit vector and every k, select returns the position p such that bit p is 1 and exactly k ones precede it, if the vector has more than k ones; '
     'otherwise it returns nothing. It neither panics nor fails to return for any k.',
     ['inputs'], 'all lengths, contents, ranks and search strategies', 'the only positive test is a fixed alternating pattern',
     [FP, ST], [m('one sampling', FP), m('select', FP)])
prop('P14', 'All block search strategies give the same answer',
     'For every index entry with non-decreasing cumulative counts and every rank within a block (below 4096), each search strategy (linear, binary, and the vectorised one on targets that have it) '
     'returns the first block whose cumulative count exceeds the rank, together with the count before that block.',
     ['inputs', 'configurations'], 'all entries and ranks', 'tests use three constant entries; the SIMD strategy is not compiled by default',
     [ST], [m('find_l2', ST)])
prop('P15', 'Rank beyond the end is rejected',
     'Asking for the rank at an index greater than the length panics in every build profile, for ones and for zeros and for the dynamic variant; the length and '
     'emptiness reported by the rank structure are those of the bit vector it was built from.',
     ['inputs', 'configurations'], 'all lengths, contents, indices', 'no test queries beyond the end', [FP], [m('rank', FP)])
prop('P16', 'A live view excludes conflicting access to its source',
     'A program that modifies a bit vector or integer vector while a slice, split half, iterator or rank structure derived from it is still in use, or keeps such a view '
     'longer than its source, does not compile; nor does one that obtains two mutable views of the same bits other than by splitting.',
     ['programs'], 'the listed client programs, each with a twin that differs only in the conflict', 'tests only contain programs that compile',
     [SL, SG, TI, BV, IV, FP], [m('lifetimes in signatures', SG), m('lifetimes in signatures', FP)], claim='compile-fail witnesses with compiling twins, decided by the type checker', level='other')
prop('P17', 'Sharing across threads is allowed exactly where it is race free',
     'Bit vectors, integer vectors, rank structures and their views can be sent to and shared with other threads, and no operation through a shared reference modifies anything. '
     'Safe code cannot make two threads modify the same word without synchronisation.',
     ['schedules', 'programs'], 'all types of the public API; every function reachable through a shared reference', 'no test uses threads',
     [SL, BV, IV, FP], [m('auto traits', BV), m('aliasing mutable halves', SL)], claim='type-checked client programs (auto traits, conflicting access) and a store-effect analysis of the MIR by abstract interpretation', level='other')
prop('P18', 'A clone is equal to and independent of its original',
     'A cloned bit vector has the same length and bits as the original; later writes to either one are not visible in the other.',
     ['inputs', 'histories'], 'all lengths, contents, written and read positions', 'tests clone twice and never write afterwards',
     [BV, SL], [m('derived Clone', BV)])
prop('P20', 'Access through references, boxes and smart pointers is transparent',
     'Reading and writing bits through shared and mutable references, boxes and reference-counted pointers to a bit container has the same result, effect and '
     'rejection as the same operation on the container itself, checked and unchecked alike.',
     ['inputs'], 'all containers, indices, values', 'tests use the forwarding implementations only indirectly', [TR], [m('forwarding implementations', TR)])
prop('P21', 'The length of a bit vector never changes',
     'No sequence of safe operations changes the length of an existing bit vector or makes its length disagree with the storage behind it.',
     ['programs', 'histories'], 'all public operations that take a bit vector mutably', 'tests never try', [BV], [m('mutable access to the inner view', BV)],
     claim='abstract interpretation of every mutating operation and type-checked client programs that try to change the length', level='other')
prop('P22', 'The raw words expose the bits in a fixed layout',
     'The words exposed by a bit vector hold bit i at position i mod 64 of word i div 64, there are exactly as many words as needed, and all unused bits of the last word stay 0. '
     'The words exposed by an integer vector of width w hold element i in the w bits from bit position i*w on.',
     ['inputs', 'histories'], 'all lengths, widths, contents', 'one test looks at one word', [BV, IV, BK], [m('raw access', BV), m('raw access', IV)])
prop('P23', 'Unchecked and alias operations agree with the checked ones',
     'Where their precondition holds, every unchecked operation and every alias returns the same result and has the same effect as the corresponding checked operation.',
     ['inputs'], 'all containers, indices below the length, values, ranges', 'a single test uses an unchecked method', [SL, SG, BK, TI, IV], [m('unchecked variants', BK), m('unchecked variants', SG)])

CLAIMED = '''P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P20 P21 P22 P23'''.split()
NA = {}

NOTE = ('All obligations of the specification programs in harness/src are discharged for arbitrary arguments by an over-approximating analysis; '
        'undecided obligations (none on this tree) are counted in the evidence and never reported as violations.')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, *_ in P:
            if p['id'] in CLAIMED or p['id'] in NA:
                f.write(json.dumps(p) + '\n')
    fixes = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
    checks = []
    for p, claim, level, note in P:
        if p['id'] not in CLAIMED:
            continue
        checks.append({
            'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'static analysis: ' + claim,
            'level': level, 'level_note': note + ('; ' if note else '') + NOTE if level == 'proof' else note or claim})
    man = {'version': 1, 'setup_cmd': 'bash bin/setup.sh',
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the compiled public API', 'source_commits': []},
           'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'see DESIGN.md; known findings in known-findings.txt'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
