"""Specification table of every intrinsic neon_sim implements.

Each entry gives the ACLE prototype and the meaning of one intrinsic, from the Arm NEON
intrinsics reference, independently of neon_sim.cpp.  Types are written as tuples:
  ('v', kind, bits, lanes, nvec)   vector (nvec = 1) or array of vectors
  ('s', kind, bits)                scalar
  ('p', kind, bits, count, const)  pointer to `count` elements
  ('i',)                           const int immediate
"""
from collections import namedtuple, OrderedDict
Op = namedtuple("Op", "name prop sem ret args lo hi rlo rhi flags")
OPS = OrderedDict()
CT = {('s', 8): 'int8_t', ('s', 16): 'int16_t', ('s', 32): 'int32_t', ('s', 64): 'int64_t',
      ('u', 8): 'uint8_t', ('u', 16): 'uint16_t', ('u', 32): 'uint32_t', ('u', 64): 'uint64_t',
      ('f', 32): 'float32_t', ('f', 64): 'float64_t'}
def ctype(t):
    if t is None: return 'void'
    if t[0] == 'v':
        base = {'s': 'int', 'u': 'uint', 'f': 'float'}[t[1]]
        return f"{base}{t[2]}x{t[3]}{'x%d' % t[4] if t[4] > 1 else ''}_t"
    if t[0] == 's': return CT[(t[1], t[2])]
    if t[0] == 'p': return CT[(t[1], t[2])] + (' const*' if t[4] else '*')
    return 'int'
def ty(s): return (s[0], int(s[1:]))
def D(s): k, b = ty(s); return ('v', k, b, 64 // b, 1)
def Q(s): k, b = ty(s); return ('v', k, b, 128 // b, 1)
def V(s, q): return Q(s) if q else D(s)
def N(v, n): return v[:4] + (n,)
def S(s): k, b = ty(s); return ('s', k, b)
IM = ('i',)
def wide(s): return s[0] + str(int(s[1:]) * 2)
def narrow(s): return s[0] + str(int(s[1:]) // 2)
def uns(s): return 'u' + s[1:]
def add(name, prop, sem, ret, args, lo=0, hi=0, rlo=None, rhi=None, flags=()):
    assert name not in OPS, name
    OPS[name] = Op(name, prop, sem, ret, list(args), lo, hi,
                   lo if rlo is None else rlo, hi if rhi is None else rhi, tuple(flags))
SI = 's8 s16 s32'.split(); UI = 'u8 u16 u32'.split()
I3 = SI + UI; S4 = SI + ['s64']; U4 = UI + ['u64']; I4 = S4 + U4
W = 's16 s32 s64 u16 u32 u64'.split()
def q_(q): return 'q' if q else ''

# ---- loads -------------------------------------------------------------------------------
def ptr(s, n, const=True): k, b = ty(s); return ('p', k, b, n, const)
for q, lst in ((0, I4 + ['f32', 'f64']), (1, I4 + ['f32'])):
    for s in lst:
        v = V(s, q); add(f'vld1{q_(q)}_{s}', 'C01', 'LD', v, [ptr(s, v[3])])
for n in (2, 3, 4):
    for q, lst in ((0, I3 + ['f32']), (1, I3)):
        for s in lst:
            v = V(s, q); add(f'vld{n}{q_(q)}_{s}', 'C01', 'LD', N(v, n), [ptr(s, n * v[3])])
add('vld1q_dup_f32', 'C01', 'LDDUP', Q('f32'), [ptr('f32', 1)])
for n, lst in ((1, ['s8', 'u8']), (2, ['u8']), (3, ['u8']), (4, ['u8'])):
    for s in lst:
        v = N(D(s), n); add(f'vld{n}_lane_{s}', 'C01', 'LDLANE', v, [ptr(s, n), v, IM], 0, v[3] - 1)
# ---- stores ------------------------------------------------------------------------------
for q, lst in ((0, I4), (1, I4 + ['f32'])):
    for s in lst:
        v = V(s, q); add(f'vst1{q_(q)}_{s}', 'C02', 'ST', None, [ptr(s, v[3], False), v])
for n in (2, 3, 4):
    for q in (0, 1):
        for s in I3:
            v = V(s, q); add(f'vst{n}{q_(q)}_{s}', 'C02', 'ST', None, [ptr(s, n * v[3], False), N(v, n)])
add('vst4q_lane_f32', 'C02', 'STLANE', None, [ptr('f32', 4, False), N(Q('f32'), 4), IM], 0, 3)
# ---- wrapping add/sub --------------------------------------------------------------------
for op in ('add', 'sub'):
    for q in (0, 1):
        for s in I4: add(f'v{op}{q_(q)}_{s}', 'C04', op.upper(), V(s, q), [V(s, q)] * 2, flags=['lanewise'])
# ---- widening ----------------------------------------------------------------------------
add('vaddl_u8', 'C05', 'ADD', Q('u16'), [D('u8')] * 2, flags=['lanewise'])
for s in I3:
    w = wide(s)
    add(f'vaddl_high_{s}', 'C05', 'ADD', Q(w), [Q(s)] * 2, flags=['high0', 'high1'])
    add(f'vaddw_{s}', 'C05', 'ADD', Q(w), [Q(w), D(s)], flags=['lanewise'])
    add(f'vaddw_high_{s}', 'C05', 'ADD', Q(w), [Q(w), Q(s)], flags=['high1'])
    add(f'vsubl_{s}', 'C05', 'SUB', Q(w), [D(s)] * 2, flags=['lanewise'])
    add(f'vsubw_{s}', 'C05', 'SUB', Q(w), [Q(w), D(s)], flags=['lanewise'])
    add(f'vmovl_{s}', 'C05', 'MOV', Q(w), [D(s)], flags=['lanewise'])
add('vpaddl_u8', 'C05', 'PADDL', D('u16'), [D('u8')])
add('vpaddlq_u8', 'C05', 'PADDL', Q('u16'), [Q('u8')])
add('vpaddlq_u16', 'C05', 'PADDL', Q('u32'), [Q('u16')])
# ---- narrowing high half, halving --------------------------------------------------------
for s in W:
    n = narrow(s)
    add(f'vaddhn_high_{s}', 'C06', 'ADDHN_HIGH', Q(n), [D(n), Q(s), Q(s)])
    add(f'vsubhn_{s}', 'C06', 'SUBHN', D(n), [Q(s)] * 2, flags=['lanewise'])
    add(f'vrsubhn_{s}', 'C06', 'RSUBHN', D(n), [Q(s)] * 2, flags=['lanewise'])
for q in (0, 1):
    for s in I3: add(f'vhsub{q_(q)}_{s}', 'C06', 'HSUB', V(s, q), [V(s, q)] * 2, flags=['lanewise'])
for s in ('s32', 'u16', 'u32'): add(f'vmovn_{s}', 'C06', 'MOV', D(narrow(s)), [Q(s)], flags=['lanewise'])
# ---- saturating --------------------------------------------------------------------------
for q in (0, 1):
    add(f'vqadd{q_(q)}_u8', 'C07', 'QADD', V('u8', q), [V('u8', q)] * 2, flags=['lanewise'])
    for s in I4: add(f'vqsub{q_(q)}_{s}', 'C07', 'QSUB', V(s, q), [V(s, q)] * 2, flags=['lanewise'])
add('vqdmull_s16', 'C07', 'QDMULL', Q('s32'), [D('s16')] * 2, flags=['lanewise'])
add('vqmovn_u16', 'C07', 'QMOV', D('u8'), [Q('u16')], flags=['lanewise'])
add('vqmovun_s16', 'C07', 'QMOV', D('u8'), [Q('s16')], flags=['lanewise'])
for s in W: add(f'vqshrn_n_{s}', 'C07', 'QSHR', D(narrow(s)), [Q(s), IM], 1, int(s[1:]) // 2, flags=['lanewise'])
for s in ('s16', 's32', 's64'):
    add(f'vqshrun_n_{s}', 'C07', 'QSHR', D(uns(narrow(s))), [Q(s), IM], 1, int(s[1:]) // 2, flags=['lanewise'])
add('vqrshrun_n_s16', 'C07', 'QRSHR', D('u8'), [Q('s16'), IM], 1, 8, flags=['lanewise'])
# ---- multiply ----------------------------------------------------------------------------
for q in (0, 1):
    for s in I3: add(f'vmul{q_(q)}_{s}', 'C08', 'MUL', V(s, q), [V(s, q)] * 2, flags=['lanewise'])
    for s in ('s16', 's32', 'u16', 'u32'):
        add(f'vmul{q_(q)}_n_{s}', 'C08', 'MUL', V(s, q), [V(s, q), S(s)], flags=['lanewise'])
for s in I3:
    w = wide(s)
    add(f'vmull_{s}', 'C08', 'MUL', Q(w), [D(s)] * 2, flags=['lanewise'])
    add(f'vmlal_{s}', 'C08', 'MLA', Q(w), [Q(w), D(s), D(s)], flags=['lanewise'])
    add(f'vmlsl_{s}', 'C08', 'MLS', Q(w), [Q(w), D(s), D(s)], flags=['lanewise'])
    add(f'vmlaq_{s}', 'C08', 'MLA', Q(s), [Q(s)] * 3, flags=['lanewise'])
for s in ('s16', 's32', 'u16', 'u32'):
    add(f'vmull_n_{s}', 'C08', 'MUL', Q(wide(s)), [D(s), S(s)], flags=['lanewise'])
# ---- shifts ------------------------------------------------------------------------------
add('vshr_n_u16', 'C09', 'SHR', D('u16'), [D('u16'), IM], 1, 16, flags=['lanewise'])
for s in W: add(f'vshrn_n_{s}', 'C09', 'SHR', D(narrow(s)), [Q(s), IM], 1, int(s[1:]) // 2, flags=['lanewise'])
add('vrshrn_n_u16', 'C09', 'RSHR', D('u8'), [Q('u16'), IM], 1, 8, flags=['lanewise'])
add('vsraq_n_s32', 'C09', 'SRA', Q('s32'), [Q('s32'), Q('s32'), IM], 1, 32, flags=['lanewise'])
add('vshlq_n_s32', 'C09', 'SHL', Q('s32'), [Q('s32'), IM], 0, 31, flags=['lanewise'])
# n == 8 is the separate "shift left long by element width" instruction: vshll_n accepts it
add('vshll_n_u8', 'C09', 'SHL', Q('u16'), [D('u8'), IM], 0, 8, flags=['lanewise'])
# ---- bitwise, compare, select ------------------------------------------------------------
for op in ('and', 'orr', 'eor'):
    for q in (0, 1):
        for s in I4: add(f'v{op}{q_(q)}_{s}', 'C10', op.upper(), V(s, q), [V(s, q)] * 2, flags=['lanewise'])
for q in (0, 1):
    for s in I3: add(f'vmvn{q_(q)}_{s}', 'C10', 'MVN', V(s, q), [V(s, q)], flags=['lanewise'])
add('vcgtq_u8', 'C10', 'CGT', Q('u8'), [Q('u8')] * 2, flags=['lanewise'])
add('vcltq_f32', 'C10', 'CLT', Q('u32'), [Q('f32')] * 2, flags=['lanewise'])
add('vbslq_u8', 'C10', 'BSL', Q('u8'), [Q('u8')] * 3, flags=['lanewise'])
add('vbslq_f32', 'C10', 'BSL', Q('f32'), [Q('u32'), Q('f32'), Q('f32')], flags=['lanewise'])
# ---- rearrangement -----------------------------------------------------------------------
for q in (0, 1):
    for s in ('s8', 'u8'): add(f'vrev16{q_(q)}_{s}', 'C11', 'REV16', V(s, q), [V(s, q)])
    for s in ('s8', 's16', 'u8', 'u16'): add(f'vrev32{q_(q)}_{s}', 'C11', 'REV32', V(s, q), [V(s, q)])
    for s in I3 + ['f32']: add(f'vrev64{q_(q)}_{s}', 'C11', 'REV64', V(s, q), [V(s, q)])
for s in I3: add(f'vtrn_{s}', 'C11', 'TRN', N(D(s), 2), [D(s)] * 2)
for s in ('s16', 'u16', 'u32'): add(f'vtrnq_{s}', 'C11', 'TRN', N(Q(s), 2), [Q(s)] * 2)
for s in ('s8', 'u8', 's16'): add(f'vzip_{s}', 'C11', 'ZIP', N(D(s), 2), [D(s)] * 2)
for s in ('s8', 'u8'): add(f'vuzp_{s}', 'C11', 'UZP', N(D(s), 2), [D(s)] * 2)
# extraction index == lane count is tolerated by some forms (returns the second operand):
# legal range [0, lanes-1]; must reject < 0 and > lanes; == lanes is not checked.
for s in ('u8', 'u16', 's16'): v = D(s); add(f'vext_{s}', 'C11', 'EXT', v, [v, v, IM], 0, v[3] - 1, 0, v[3])
v = Q('u16'); add('vextq_u16', 'C11', 'EXT', v, [v, v, IM], 0, 7, 0, 8)
for s in I3: add(f'vcombine_{s}', 'C11', 'COMBINE', Q(s), [D(s)] * 2)
for s in I3 + ['f32']:
    add(f'vget_low_{s}', 'C11', 'GETLOW', D(s), [Q(s)])
    add(f'vget_high_{s}', 'C11', 'GETHIGH', D(s), [Q(s)])
add('vget_lane_f32', 'C11', 'GETLANE', S('f32'), [D('f32'), IM], 0, 1)
for s in I4 + ['f32', 'f64']: add(f'vgetq_lane_{s}', 'C11', 'GETLANE', S(s), [Q(s), IM], 0, 128 // int(s[1:]) - 1)
for s in I4: add(f'vdup_n_{s}', 'C11', 'DUP', D(s), [S(s)])
for s in I3 + ['f32']: add(f'vdupq_n_{s}', 'C11', 'DUP', Q(s), [S(s)])
add('vmovq_n_f32', 'C11', 'DUP', Q('f32'), [S('f32')])
# ---- table lookup ------------------------------------------------------------------------
for n in (1, 2, 4): add(f'vtbl{n}_u8', 'C12', 'TBL', D('u8'), [N(D('u8'), n), D('u8')])
add('vqtbl1_u8', 'C12', 'TBL', D('u8'), [Q('u8'), D('u8')])
# ---- reinterpret -------------------------------------------------------------------------
for p in 's16_s32 s32_s16 s8_u8 u16_u8 u32_u16 u32_u8 u8_s8 u8_u32'.split():
    a, b = p.split('_'); add(f'vreinterpret_{p}', 'C13', 'REINT', D(a), [D(b)])
for p in ('s16_u16 u16_s16 u32_f32 u32_f64 u32_s16 u32_s32 u32_s64 u32_s8 u32_u16 u32_u64 u32_u8 '
          'u8_f32 u8_f64 u8_s16 u8_s32 u8_s64 u8_s8 u8_u16 u8_u32 u8_u64').split():
    a, b = p.split('_'); add(f'vreinterpretq_{p}', 'C13', 'REINT', Q(a), [Q(b)])
# ---- conversion --------------------------------------------------------------------------
add('vcvtq_f32_s32', 'C14', 'CVT_FI', Q('f32'), [Q('s32')], flags=['lanewise'])
add('vcvtq_s32_f32', 'C14', 'CVT_IF', Q('s32'), [Q('f32')], flags=['lanewise'])
add('vcvtq_u32_f32', 'C14', 'CVT_IF', Q('u32'), [Q('f32')], flags=['lanewise'])
add('vcvtnq_s32_f32', 'C14', 'CVTN_IF', Q('s32'), [Q('f32')], flags=['lanewise'])
# ---- float arithmetic --------------------------------------------------------------------
F = ['lanewise', 'fp']
add('vaddq_f32', 'C15', 'FADD', Q('f32'), [Q('f32')] * 2, flags=F)
for n, v in (('vsub_f32', D('f32')), ('vsub_f64', D('f64')), ('vsubq_f32', Q('f32'))):
    add(n, 'C15', 'FSUB', v, [v] * 2, flags=F)
add('vmulq_f32', 'C15', 'FMUL', Q('f32'), [Q('f32')] * 2, flags=F)
for q in (0, 1):
    for s in ('f32', 'f64'):
        add(f'vmul{q_(q)}_n_{s}', 'C15', 'FMUL', V(s, q), [V(s, q), S(s)], flags=F)
        add(f'vdiv{q_(q)}_{s}', 'C15', 'FDIV', V(s, q), [V(s, q)] * 2, flags=F)
add('vmlaq_f32', 'C15', 'FMLA', Q('f32'), [Q('f32')] * 3, flags=F)
add('vmlaq_n_f32', 'C15', 'FMLA', Q('f32'), [Q('f32'), Q('f32'), S('f32')], flags=F)
# ---- min/max -----------------------------------------------------------------------------
for op in ('max', 'min'):
    for s in I3: add(f'v{op}q_{s}', 'C16', op.upper(), Q(s), [Q(s)] * 2, flags=['lanewise'])
    add(f'v{op}q_f32', 'C16', 'F' + op.upper(), Q('f32'), [Q('f32')] * 2, flags=F)
    add(f'vp{op}_f32', 'C16', 'FP' + op.upper(), D('f32'), [D('f32')] * 2, flags=['fp'])
# ---- reciprocal --------------------------------------------------------------------------
add('vrecpeq_f32', 'C17', 'RECPE', Q('f32'), [Q('f32')], flags=F)
add('vrecpsq_f32', 'C17', 'RECPS', Q('f32'), [Q('f32')] * 2, flags=F)

SEMS = sorted({o.sem for o in OPS.values()})
