"""Properties -> goals"""
import os, json
import posit_goals as pg
import unpacked_goals as ug
import posit_more as pm
import tab_goals as tg
import anyf_goals as ag
import positf_goals as pf
import f16_goals as fg
import ub_goals as ub
import bits_goals as bg
import simd_goals as sg
import u128_goals as ug128
from vc import VERIF

ASSUME = ['clang 18 translates the harness and /repo headers to LLVM IR correctly (IR built with -O2, x86-64, BMI)', 'z3 (and cvc5 when used) answer correctly', 'the IR encoding in engine/llsym.py, compared with the compiled code on concrete vectors in each run',
          'the reference semantics in engine/oracle.py']

class Prop:
    def __init__(self, fn, cfgs=None, level='model_checking', per=(150, 1500), outside='', bounds=None, assumptions=()):
        self.fn, self.cfgs, self.level, self.per, self.outside, self._b = fn, cfgs, level, per, outside, bounds
        self.assumptions = ASSUME + list(assumptions)
    def configs(self, tier): return pg.QUICK if tier == 'quick' else pg.QUICK + pg.MORE
    def goals(self, tier, d):
        gs = self.fn(self.configs(tier))
        return [g for g in gs if tier != 'quick' or not getattr(g, 'slow', False)]
    def per_goal(self, tier): return self.per[0 if tier == 'quick' else 1]
    def bounds(self, tier):
        return dict(inputs='every bit pattern of every operand', instantiations=[c.describe() for c in self.configs(tier)], loops='unrolled until the solver refutes a further iteration (at most 130)')

class Fixed(Prop):
    """goals that do not range over the Posit instantiations"""
    def goals(self, tier, d): return self.fn(tier, d)
    def bounds(self, tier): return self._b(tier)

OUT = 'template instantiations not in the list'
PROPS = {}
for i, f in enumerate((pg.c01, pg.c02, pg.c03, pg.c04, pg.c05, pg.c06, pg.c07, pg.c08, pg.c09, pg.c10, pg.c11), 1):
    PROPS['C%02d' % i] = Prop(f, outside=OUT)

for i, f in ((12, pm.c12), (13, pm.c13), (21, pm.c21), (23, pm.c23), (24, pm.c24), (26, pm.c26)):
    PROPS['C%02d' % i] = Prop(f, outside=OUT)

ALL = 'every bit pattern of every operand'
def B(insts, **kw): return dict(inputs=ALL, instantiations=insts, loops='unrolled until the solver refutes a further iteration (at most 130)', **kw)
PROPS['C14'] = Fixed(ug.c14, bounds=lambda t: B(ug.describe(t)), outside=OUT)
PROPS['C15'] = Fixed(ug.c15, bounds=lambda t: B(ug.describe(t)), outside=OUT)
PROPS['C16'] = Fixed(ug.c16, bounds=lambda t: B(ug.describe(t)), outside=OUT)
TAB = 'the tables are those the generators of /repo produce when the check runs them'
PROPS['C17'] = Fixed(tg.c17, bounds=lambda t: B(['posit8'], tables=TAB), outside='order against NaN, conversion of NaN to int')
PROPS['C18'] = Fixed(tg.c18, bounds=lambda t: B(['posit10', 'posit12'], tables=TAB, quick='+= and *= of posit10 are related to + and * for arbitrary tables; thorough decides them against the tables too'), outside='order against NaN, conversion to int of NaN and of values beyond int, exp2 outside the range of single precision')
PROPS['C19'] = Fixed(tg.c19, bounds=lambda t: dict(inputs='every index of every table', instantiations=['src/posit8_tbl.cpp', 'src/posit12_tbl.cpp'], tables=TAB), outside='tables that are not kept in the tree (posit10, binary8)')
PROPS['C20'] = Fixed(ag.c20, bounds=lambda t: B([x.cxx for x in ag.TYPES + (ag.MORE if t != 'quick' else [])], hardware='IEEE operations of float and double: common unknowns with congruence, bit by bit where that does not decide'), outside=OUT + '; sign of zero; which NaN')
PROPS['C25'] = Fixed(pf.c25, bounds=lambda t: B([c.describe() for c in pf.QUICK + (pf.MORE if t != 'quick' else [])], hardware='IEEE operations of float and double: common unknowns with congruence, bit by bit where that does not decide'), outside=OUT + '; order against NaN')
PROPS['C27'] = Fixed(tg.c27, bounds=lambda t: B(['binary8tab'], tables=TAB), outside='exp2; conversion to int of infinities and NaN; sign of zero; which NaN')

PROPS['C28'] = Fixed(fg.c28, bounds=lambda t: B(['float16n32 with the conversions of the library', 'float16n32 with the F16C conversions'], hardware='IEEE operations of float (with square root and remainder): common unknowns with congruence, bit by bit where that does not decide'), outside='which NaN')

PROPS['C22'] = Fixed(ub.c22, bounds=lambda t: B(['those of the other properties except C19 and C26'], operations='shift amounts, signed overflow, division, array bounds, conversions out of range, bit scans of zero, loads of bool'), outside=OUT)

PROPS['C29'] = Fixed(bg.c29, bounds=lambda t: B(['bithippop.hpp with BMI', 'bithippop.hpp without BMI', 'floatconst2bits.hpp']), outside='fields outside the word; absolute value of the most negative number; minus zero in float2bits (documented there)')

PROPS['C30'] = Fixed(sg.c30, bounds=lambda t: B(['simd_posit8_32'], tables='any contents: every lane is related to the entry the scalar class reads (C17 is about the contents)'), outside='has_neg_exponent')

PROPS['C31'] = Fixed(ug128.c31, bounds=lambda t: B(['unsigned128 of typehelpers.hpp', 'Unpacked<uint64_t,int32_t> on it']), outside='operations the library does not use')

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]

def match_known(known, v):
    for k in known:
        if k['goal'] in v['goal'] and all(v['inputs'].get(n) in vals for n, vals in k.get('inputs', {}).items()): return k
    return None
