"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ACC = ('SMT (z3 nlsat) over a real-arithmetic encoding with rounding bounds, symbolically executed from LLVM IR',
       'Every machine number of the stated domain is covered by solver queries that came back unsat (quick tier: the negative side of the '
       'symmetric functions is thinned out beyond the first pieces where noted). Trusts the IR interpreter, the Taylor enclosures and the '
       'rounding-bound computation in /verif/lib, mpmath and z3; encoding and enclosures are compared with the compiled code in every run.')
C = []


def add(prop, cmd, tech, note, thorough=True):
    c = {'property': prop, 'quick_cmd': 'python3-vt ' + cmd, 'technique': tech, 'level': 'other', 'level_note': note}
    if thorough:
        c['thorough_cmd'] = 'VERIF_TIER=thorough python3-vt ' + cmd
    C.append(c)


for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10'):
    add(p, 'checks/accuracy.py ' + p, *ACC)
add('C07', 'checks/atan2.py', *ACC)

BIT = ('SMT (z3, bit-vectors with uninterpreted rounding magnitudes) over a bit-level encoding, symbolically executed from LLVM IR',
       'Every bit pattern of the stated domain is covered by queries that came back unsat; floating-point magnitudes are uninterpreted with '
       'axioms that hold for correctly rounded arithmetic, so a proof does not depend on their values. Trusts the IR interpreter and the axioms in '
       '/verif/lib and z3; the encoding is compared with the compiled code on concrete values in every run.')
DIA = ('SMT (z3, bit-vectors and uninterpreted functions) over paths symbolically executed from LLVM IR of the diagnostic classes',
       'All paths of every scenario are enumerated and each claim is decided by the solver for all values of the unknowns; number of elements, '
       'rows or bytes is bounded as stated in the evidence. Trusts the IR interpreter and the stream model in /verif; both are compared with the '
       'compiled code and the real standard library on concrete values in every run.')
add('C11', 'checks/symmetry.py', *BIT)
add('C12', 'checks/special.py', *BIT)
add('C13', 'checks/arrays.py C13', *BIT)
add('C14', 'checks/arrays.py C14', *BIT)
add('C15', 'checks/combined.py', *BIT)
add('C16', 'checks/traps.py', 'SMT (z3, bit-vectors) with interval execution, symbolically executed from LLVM IR',
    'Every operation that could trap or be undefined is an assertion; interval execution discharges most of them per binade and the solver the '
    'rest. Quick tier: the subset of binades and periods named in the evidence.')
for p in ('C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27', 'C28', 'C29', 'C31'):
    add(p, 'checks/diagnostic.py ' + p, *DIA)
add('C30', 'checks/core.py', *DIA)

NA = []
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': sorted(C, key=lambda c: c['property']), 'not_applicable': NA,
     'notes': 'Undecided intervals are printed and counted in the evidence; a check that leaves more than 2% undecided exits 3.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
