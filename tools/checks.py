"""Which symbolic-execution jobs decide which property, and within which bounds."""
from math import comb
C = ['common/srm_utils.c', 'common/spf_par.c']
TARGETS = {
    'dtrm0': {'harness': 'h_codec.c', 'def': ['CODEC=0', 'DEC_NEEDS_SIGMA'], 'src': ['dtrm/dtrm0.c'] + C},
    'dtrm1': {'harness': 'h_codec.c', 'def': ['CODEC=1', 'DEC_NEEDS_SIGMA'], 'src': ['dtrm/dtrm1.c', 'rm1_ml/rm1_ml.c'] + C},
    'glp': {'harness': 'h_codec.c', 'def': ['CODEC=2', 'DEC_NEEDS_SIGMA', 'DEC_NEEDS_CSNRN'], 'src': ['dtrm_glp/dtrm_glp_main.c', 'dtrm_glp/dtrm_glp_inner.c'] + C},
    'polar': {'harness': 'h_codec.c', 'def': ['CODEC=3', 'DEC_NEEDS_SIGMA'], 'src': ['polar_scl/ca_polar_scl_main.c', 'polar_scl/polar_scl_inner.c', 'common/crc.c'] + C},
}

TARGETS['crc'] = {'harness': 'h_crc.c', 'def': [], 'src': ['common/crc.c']}

SIM = {'harness': 'h_sim.c', 'src': ['simulators/sim_bg.c', 'common/spf_par.c'], 'wrap': ['time', 'clock', 'rand', 'srand']}
TARGETS['sim'] = dict(SIM, **{'def': ['DEC_NEEDS_SIGMA', 'DEC_NEEDS_CSNRN', 'HAVE_CSNRN']})
TARGETS['simw'] = dict(SIM, harness='h_simw.c', src=['common/spf_par.c'], **{'def': ['DEC_NEEDS_SIGMA', 'DEC_NEEDS_CSNRN', 'HAVE_CSNRN']})
TARGETS['simsg'] = dict(SIM, **{'def': ['DEC_NEEDS_SIGMA']})

TARGETS['load'] = dict(SIM, harness='h_load.c', src=['Octave/loadsrf.c', 'simulators/sim_bg.c', 'common/spf_par.c'], **{'def': ['DEC_NEEDS_SIGMA', 'DEC_NEEDS_CSNRN', 'HAVE_CSNRN']})
TARGETS['main'] = {'harness': 'h_main.c', 'def': [], 'src': [], 'wrap': ['time']}
TARGETS['fmt'] = {'harness': 'h_fmt.c', 'def': [], 'src': []}
TARGETS['rm1'] = {'harness': 'h_rm1.c', 'def': [], 'src': ['rm1_ml/rm1_ml.c']}
TARGETS['spf'] = {'harness': 'h_spf.c', 'def': [], 'src': ['common/spf_par.c']}

# C files of the repository when the harnesses were written; any other .c file found beside encoded sources is compiled in
BASE_FILES = ['Octave/loadsrf.c', 'Octave/ui_octave_txt.c', 'common/crc.c', 'common/spf_par.c', 'common/srm_utils.c', 'common/ui_txt.c', 'dtrm/dtrm0.c', 'dtrm/dtrm1.c', 'dtrm_glp/dtrm_glp_inner.c', 'dtrm_glp/dtrm_glp_main.c', 'polar_scl/ca_polar_scl_main.c', 'polar_scl/polar_scl_inner.c', 'rm1_ml/rm1_ml.c', 'simulators/main_txt.c', 'simulators/sim_bg.c', 'tests/test_ca_polar_scl.c', 'tests/test_crc.c', 'tests/test_dtrm0.c']

def J(name, target, time=40, j=1, cover=('end',), tier='quick', **kw):
    opt = {k: kw.pop(k) for k in list(kw) if k in ('samples', 'policy', 'max_instr', 'qtimeout', 'leafcap', 'bounds')}
    job = {'name': name, 'target': target, 'time': time, 'j': j, 'cover': list(cover), 'tier': tier, 'params': kw}
    job.update(opt)
    return job

def T(*a, **k):
    return J(*a, tier='thorough', **k)

ENC, RT, EQV, ML, HARD, SCL, HIST, MEM, PERM, NML = 1, 2, 3, 4, 5, 6, 7, 8, 9, 10
RMS = [(1, 3), (2, 4), (1, 5), (3, 5), (2, 6), (4, 6), (3, 7), (2, 8)]
POLAR16 = '0000000101111111'
POLAR32 = '00000000000101110001011101111111'
POLAR64 = '0' * 31 + '1' + '000101110111111100010111' + '11111111'
CRC8 = '00000111'   # x^8+x^2+x+1

REF = 13
def PRM(m, w):  # information bits of weight w and more
    return ''.join('01'[bin(i).count('1') >= w] for i in range(1 << m))
def C01():
    js = []
    for t in ('dtrm0', 'dtrm1', 'glp'):
        for r, m in [(1, 2), (1, 4), (2, 4), (3, 4), (2, 5), (3, 6), (5, 7), (3, 8)]:
            if t == 'glp' and (r < 2 or r == m): continue
            js.append(J('enc_%s_%d_%d' % (t, r, m), t, mode=ENC, r=r, m=m))
        if t != 'glp': js += [J('enc_%s_%d_%d' % (t, r, m), t, mode=ENC, r=r, m=m) for r, m in [(1, 1), (4, 4), (2, 9)]]
        js += [J('encl_%s_%d_%d' % (t, r, m), t, mode=ENC, r=r, m=m, nsym=24, off=off, step=st, time=60) for r, m, off, st in [(5, 9, 0, 1), (7, 9, 3, 29), (5, 10, 1, 53), (7, 10, 0, 61), (4, 11, 2, 37)]]
        js += [T('enc_%s_%d_%d' % (t, r, m), t, mode=ENC, r=r, m=m, time=200) for r, m in [(2, 3), (2, 6), (4, 6), (3, 7), (4, 8), (6, 8), (3, 9), (5, 9)]]
    return js

def C02():
    js = [J('mask_all_2_3', 'glp', mode=ENC, r=2, m=3, maskall=1), J('mask_all_2_4', 'glp', mode=ENC, r=2, m=4, maskall=1), J('mask_all_3_4', 'glp', mode=ENC, r=3, m=4, maskall=1),
          J('mask_all_3_5', 'glp', mode=ENC, r=3, m=5, maskall=1, j=4), J('mask_all_2_5', 'glp', mode=ENC, r=2, m=5, maskall=1, j=4),           J('mask_dec_all_2_4', 'glp', mode=RT, r=2, m=4, maskall=1, L=2, j=8, time=60), J('mask_dec_all_2_3', 'glp', mode=RT, r=2, m=3, maskall=1, L=4, mag=1)]
    m36 = '01101110010111011110'
    js += [J('maskl_%d_%d' % (r, m), 'glp', mode=ENC, r=r, m=m, mask=('0' + '1' * 7 + '01' * 400)[:comb(m, r)], nsym=24, step=41) for r, m in [(4, 9), (3, 10), (6, 9)]]
    js += [J('mask_3_6', 'glp', mode=ENC, r=3, m=6, mask=m36), J('mask_2_6', 'glp', mode=ENC, r=2, m=6, mask='000110101101111'), J('mask_2_7', 'glp', mode=ENC, r=2, m=7, mask='000010101110010111011'),
           J('mask_varl_2_4', 'glp', mode=RT, r=2, m=4, mask='011011', L=1, varl='1 0 2 0 8 300', mag=0), J('mask_varl_2_5', 'glp', mode=RT, r=2, m=5, mask='0011011011', L=1, varl='1 0 4 0', mag=2, nsym=8), J('mask_varl_3_5', 'glp', mode=RT, r=3, m=5, mask='0111011101', L=2, varl='2 0 4 0', mag=1, nsym=8),
           J('mask_dec_2_6', 'glp', mode=RT, r=2, m=6, mask='000110101101111', L=1)]
    js += [T('mask_all_4_6', 'glp', mode=ENC, r=4, m=6, maskall=1, j=8, time=900), T('mask_all_2_6', 'glp', mode=ENC, r=2, m=6, maskall=1, j=8, time=900), T('mask_dec_all_2_5', 'glp', mode=RT, r=2, m=5, maskall=1, L=2, j=8, time=900)]
    return js

def C03():
    js = [J('mask_all_2', 'polar', mode=ENC, m=2, maskall=1), J('mask_all_3', 'polar', mode=ENC, m=3, maskall=1), J('mask_all_3_crc2', 'polar', mode=ENC, m=3, maskall=1, crc='10', j=2), J('crc_all_3', 'polar', mode=ENC, m=4, mask=POLAR16, crcall=3),
          J('crc_all_5', 'polar', mode=ENC, m=5, mask=POLAR32, crcall=5), J('full_6', 'polar', mode=ENC, m=6), J('p64_crc8', 'polar', mode=ENC, m=6, mask=POLAR64, crc=CRC8),
          J('p64_crc16', 'polar', mode=ENC, m=6, mask=POLAR64, crc='1000000000000101'), J('full_7', 'polar', mode=ENC, m=7), J('full_8_crc24', 'polar', mode=ENC, m=8, crc='100000000001100100001001'),
          J('p1', 'polar', mode=ENC, m=1, maskall=1), J('full_10', 'polar', mode=ENC, m=10, nsym=24, step=71), J('rm_10', 'polar', mode=ENC, m=10, nsym=24, step=47, mask=PRM(10, 5), crc='100000000001100100001001'), J('rm_11', 'polar', mode=ENC, m=11, nsym=16, step=83, mask=PRM(11, 4))]
    js += [T('mask_all_4', 'polar', mode=ENC, m=4, maskall=1, j=8, time=1200), T('full_9', 'polar', mode=ENC, m=9, time=300)]
    return js

def C04():
    js = [J('crc_%d_%d_s%d' % (k, l, s), 'crc', k=k, len=l, slack=s) for k, l, s in [(1, 1, 0), (2, 1, 2), (2, 2, 0), (4, 2, 0), (6, 3, 1), (8, 4, 3), (10, 3, 0), (5, 5, 0), (7, 6, 0), (10, 5, 0)]]
    js += [J('crc_conc_%d_%d_%d_w%d' % (k, l, o + 1, o), 'crc', k=k, len=l, conc=1, seed=o + 1, slack=1, dsym=8, doff=o) for k, l in [(16, 4), (32, 8), (48, 16), (64, 24), (100, 24), (33, 32), (200, 32)] for o in range(0, l, 8)]
    js += [J('burst_%d_%d' % (k, l), 'crc', k=k, len=l, burst=l, cover=('end', 'burst')) for k, l in [(3, 1), (4, 2), (6, 2), (6, 3), (7, 4)]]
    js += [J('burst_conc_24_8', 'crc', k=24, len=8, burst=8, conc=1, seed=3, j=2), T('burst_conc_48_16', 'crc', k=48, len=16, burst=16, conc=1, seed=3, j=4, time=300), T('crc_16_6', 'crc', k=16, len=6, time=600), T('crc_12_8', 'crc', k=12, len=8, time=600)]
    return js

MAGS = [0, 1, 2, 3, 4, 5, 6, 7]
def C05():
    js = []
    for r, m in [(1, 1), (1, 3), (2, 2), (2, 4), (3, 4), (1, 5), (2, 5), (3, 6), (2, 7), (5, 7), (3, 8)]:
        for g in (MAGS if m <= 5 else [0, 2, 4, 5]):
            js.append(J('rt_%d_%d_mag%d' % (r, m, g), 'dtrm0', mode=RT, r=r, m=m, mag=g, sg=100 if g != 2 else 37))
    js += [J('rtl_%d_%d' % (r, m), 'dtrm0', mode=RT, r=r, m=m, mag=g, nsym=24, step=st, off=3, time=60) for r, m, g, st in [(4, 9, 2, 29), (6, 9, 5, 31), (7, 10, 0, 61), (4, 11, 2, 37), (1, 10, 5, 1), (9, 10, 2, 89), (2, 12, 3, 11), (10, 10, 5, 97)]]
    js += [T('rt_%d_%d_mag%d' % (r, m, g), 'dtrm0', mode=RT, r=r, m=m, mag=g, np=3, time=300) for r, m in [(2, 6), (4, 6), (3, 7), (6, 7), (2, 8), (4, 8), (6, 8), (2, 9), (4, 9)] for g in MAGS]
    return js

def C06():
    js = []
    for r, m in [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (1, 4), (2, 4), (3, 4), (2, 5), (3, 5)]:
        for g in (MAGS if m <= 4 else [0, 2, 4, 5]):
            if m <= 4: js.append(J('rt_%d_%d_mag%d' % (r, m, g), 'dtrm1', mode=RT, r=r, m=m, mag=g, sg=100 if g != 2 else 37))
            else:
                for off in (0, 8): js.append(J('rt_%d_%d_mag%d_w%d' % (r, m, g, off), 'dtrm1', mode=RT, r=r, m=m, mag=g, sg=100 if g != 2 else 37, nsym=8, off=off))
                js.append(T('rt_%d_%d_mag%d' % (r, m, g), 'dtrm1', mode=RT, r=r, m=m, mag=g, sg=100 if g != 2 else 37, j=8, time=400))
    js += [J('rtl_%d_%d' % (r, m), 'dtrm1', mode=RT, r=r, m=m, mag=g, nsym=ns, step=st, off=3, time=60) for r, m, g, st, ns in [(1, 7, 2, 3, 5), (5, 8, 0, 61, 2), (2, 9, 2, 37, 4), (1, 10, 5, 3, 4), (7, 9, 0, 3, 2)]]
    for r, m in [(1, 5), (2, 6), (3, 6), (5, 6), (1, 6)]:
        for off in (0, 11): js.append(T('rt_%d_%d_w%d' % (r, m, off), 'dtrm1', mode=RT, r=r, m=m, mag=1, nsym=7, off=off, j=4, time=300))
    return js

def C07():
    js = []
    for r, m, L in [(2, 3, 1), (2, 3, 4), (2, 4, 1), (2, 4, 4), (3, 4, 2), (2, 5, 1), (3, 5, 1)]:
        for g in (MAGS if m <= 4 else [0, 2]):
            js.append(J('rt_%d_%d_L%d_mag%d' % (r, m, L, g), 'glp', mode=RT, r=r, m=m, L=L, mag=g))
    js += [J('rtl_%d_%d_L%d' % (r, m, L), 'glp', mode=RT, r=r, m=m, mag=g, L=L, nsym=14, step=st, off=3, time=60) for r, m, L, g, st in [(2, 7, 4, 2, 3), (3, 8, 2, 5, 31), (6, 8, 1, 0, 61), (5, 9, 1, 2, 37), (7, 10, 1, 5, 71), (4, 9, 8, 2, 19)]]
    js += [J('rt_perm_2_3', 'glp', mode=RT, r=2, m=3, L=4, perms='0 1 2;2 0 1;1 2 0', mag=1), J('rt_perm_2_4', 'glp', mode=RT, r=2, m=4, L=4, perms='3 0 1 2;0 1 2 3;1 3 2 0', mag=2),
           J('rt_perm1_2_4', 'glp', mode=RT, r=2, m=4, L=2, perms='3 0 1 2', mag=2),
           J('rt_varl_2_4', 'glp', mode=RT, r=2, m=4, L=8, varl='2 100 4 200 8 300', mag=2, csnrn=1),
           J('rt_varl0_2_4', 'glp', mode=RT, r=2, m=4, L=2, varl='1 0 3 0 6 0', mag=1), J('rt_varl0m_2_4', 'glp', mode=RT, r=2, m=4, L=1, mask='011011', varl='1 0 4 0 8 300', mag=2), J('rt_varl_3_4', 'glp', mode=RT, r=3, m=4, L=4, varl='1 0 4 0', mag=5)]
    return js

def C08():
    js = []
    for m, mask, L, crc in [(2, '0111', 2, ''), (3, '00010111', 1, ''), (3, '00010111', 4, ''), (3, '00010111', 16, ''), (4, POLAR16, 1, ''), (4, POLAR16, 4, ''), (4, POLAR16, 4, '101'), (5, POLAR32, 1, ''), (5, POLAR32, 2, ''), (5, POLAR32, 2, '10011')]:
        for g in (MAGS if m <= 4 else [0, 2]):
            js.append(J('rt_%d_L%d_c%d_mag%d' % (m, L, len(crc), g), 'polar', mode=RT, m=m, mask=mask, L=L, crc=crc, mag=g))
    js += [J('rtl_%d_L%d_c%d' % (m, L, len(crc)), 'polar', mode=RT, m=m, mask=PRM(m, w), L=L, crc=crc, mag=g, nsym=14, step=st, off=3, time=60) for m, w, L, crc, g, st in [(7, 4, 4, '', 2, 3), (8, 4, 2, CRC8, 5, 31), (9, 5, 1, '', 2, 37), (10, 5, 1, '100000000001100100001001', 5, 71), (9, 3, 8, CRC8, 2, 19)]]
    return js

def C09():
    js = []
    for t, r, m, L in [('dtrm0', 2, 4, 1), ('dtrm0', 3, 6, 1), ('dtrm0', 1, 5, 1), ('dtrm1', 2, 4, 1), ('dtrm1', 2, 5, 1), ('dtrm1', 1, 4, 1), ('glp', 2, 4, 1), ('glp', 2, 4, 8), ('glp', 3, 5, 2), ('glp', 2, 6, 4)]:
        for sg in (50, 80, 150):
            w = {'nsym': 9, 'off': 3} if (t, m) == ('dtrm1', 5) else {'nsym': 10, 'off': 4} if (t, m) == ('glp', 6) else {}
            js.append(J('eqv_%s_%d_%d_L%d_sg%d' % (t, r, m, L, sg), t, mode=EQV, r=r, m=m, L=L, sg=sg, **w))
    for m, mask, L, crc in [(3, '00010111', 4, ''), (4, POLAR16, 1, ''), (4, POLAR16, 4, ''), (4, POLAR16, 4, '101'), (5, POLAR32, 4, '10011'), (6, POLAR64, 4, CRC8)]:
        for sg in (50, 80, 150):
            w = {'nsym': 8, 'off': 4} if m == 6 else {}
            js.append(J('eqv_polar_%d_L%d_c%d_sg%d' % (m, L, len(crc), sg), 'polar', mode=EQV, m=m, mask=mask, L=L, crc=crc, sg=sg, **w))
    for sg, sd in ((60, 1), (45, 2), (80, 3)):
        for t, r, m, L, ns in [('dtrm0', 4, 9, 1, 16), ('dtrm0', 3, 11, 1, 16), ('dtrm0', 3, 8, 1, 16), ('dtrm1', 1, 7, 1, 3), ('dtrm1', 2, 6, 1, 2), ('glp', 2, 7, 2, 4), ('glp', 3, 8, 2, 6), ('glp', 4, 9, 1, 12)]:
            js.append(J('eqvl_%s_%d_%d_L%d_sg%d' % (t, r, m, L, sg), t, mode=EQV, r=r, m=m, L=L, sg=sg, np=1, seed=sd, nsym=ns, step=29, off=2, time=60))
        for m, w, L, crc, ns in [(8, 4, 2, CRC8, 6), (9, 5, 1, '', 12), (7, 3, 8, '', 5)]:
            js.append(J('eqvl_polar_%d_L%d_sg%d' % (m, L, sg), 'polar', mode=EQV, m=m, mask=PRM(m, w), L=L, crc=crc, sg=sg, np=1, seed=sd, nsym=ns, step=29, off=2, time=60))
    return js

def C10():
    js = [J('ml_1_2', 'dtrm1', mode=ML, r=1, m=2, j=4), J('ml_1_1', 'dtrm1', mode=ML, r=1, m=1), J('ml_1_3', 'dtrm1', mode=ML, r=1, m=3, j=8), J('hard_1_3', 'dtrm1', mode=HARD, r=1, m=3, d=4), J('hard_1_4', 'dtrm1', mode=HARD, r=1, m=4, d=8, j=8, time=150)]
    return js

def C11():
    js = [J('ml_polar_2_full', 'polar', mode=ML, m=2, L=16, j=8), J('ml_polar_2_0111', 'polar', mode=ML, m=2, L=8, mask='0111', j=2), J('ml_polar_1', 'polar', mode=ML, m=1, L=4),
          J('ml_polar_3_k2', 'polar', mode=ML, m=3, L=4, mask='00010001'), J('ml_polar_3_k3', 'polar', mode=ML, m=3, L=8, mask='00000111', j=2),
          J('ml_glp_2_3_m', 'glp', mode=ML, r=2, m=3, L=8, mask='0011', j=8)]
    js += [J('nml_polar_3_full', 'polar', mode=NML, m=3, L=256, np=6, sg=80), J('nml_polar_3_k7', 'polar', mode=NML, m=3, L=128, np=6, sg=100, mask='01111111'), J('nml_polar_4_k8', 'polar', mode=NML, m=4, L=256, np=4, sg=90, mask=POLAR16), J('nml_glp_2_4', 'glp', mode=NML, r=2, m=4, L=2048, np=2, sg=80, nsym=8), J('nml_glp_2_4_m', 'glp', mode=NML, r=2, m=4, L=600, mask='011011', np=3, sg=90), J('nml_glp_3_4_m', 'glp', mode=NML, r=3, m=4, L=600, mask='0011', np=3, sg=90)]
    return js

def C12():
    js = [J('scl_1_L1', 'polar', mode=SCL, m=1, L=1), J('scl_1_L2', 'polar', mode=SCL, m=1, L=2), J('scl_2_L1', 'polar', mode=SCL, m=2, L=1), J('scl_2_L2_0111', 'polar', mode=SCL, m=2, L=2, mask='0111', j=8), J('scl_2_L2_full', 'polar', mode=SCL, m=2, L=2, j=8),
          J('scl_3_L1', 'polar', mode=SCL, m=3, L=1, mask='00010111'), J('scl_3_L1_b', 'polar', mode=SCL, m=3, L=1, mask='00110011'), J('scl_3_L2_b', 'polar', mode=SCL, m=3, L=2, mask='00000011'), J('scl_3_L2', 'polar', mode=SCL, m=3, L=2, mask='00000111', j=8), J('scl_3_L3_nc5', 'polar', mode=SCL, m=3, L=3, mask='00000111', nc=5, j=8, time=60)]
    for sg in (60, 100, 160):
        js += [J('noise_3_L%d_sg%d' % (L, sg), 'polar', mode=SCL, m=3, L=L, noise=1, np=20, sg=sg, mask=mk) for L in (1, 2, 3, 4, 8) for mk in ('11111111',)]
        js += [J('noise_3b_L%d_sg%d' % (L, sg), 'polar', mode=SCL, m=3, L=L, noise=1, np=20, sg=sg, mask='01011101') for L in (1, 2, 3, 5, 8)]
        js += [J('noise_4_L%d_sg%d' % (L, sg), 'polar', mode=SCL, m=4, L=L, noise=1, np=20, sg=sg, mask=POLAR16) for L in (1, 2, 4, 5, 8, 16, 32)]
        js += [J('noise_5_L%d_sg%d' % (L, sg), 'polar', mode=SCL, m=5, L=L, noise=1, np=10, sg=sg, mask=POLAR32) for L in (1, 2, 3, 4, 8, 16, 32)]
        js += [J('noise_4f_L%d_sg%d' % (L, sg), 'polar', mode=SCL, m=4, L=L, noise=1, np=10, sg=sg) for L in (1, 2, 4, 7)]
    js += [J('noisel_%d_%d_L%d_sg%d' % (m, w, L, sg), 'polar', mode=SCL, m=m, L=L, noise=1, np=8, sg=sg, mask=PRM(m, w), nsym=5, step=11, time=60, cover=('end', 'any')) for sg in (90, 130) for m, w, L in [(6, 3, 4), (6, 4, 16), (6, 5, 32), (7, 4, 2), (7, 5, 8), (8, 4, 3), (8, 5, 4)] if (m, w, sg) != (6, 5, 90)]
    js += [J('noise_4_L%d' % L, 'polar', mode=SCL, m=4, L=L, noise=1, np=3, sg=120, mask=mk, nsym=6, time=60, cover=('end', 'any')) for L, mk in [(64, POLAR16), (100, '0' + '1' * 15), (128, '0' * 4 + '1' * 12)]]
    js += [T('t_scl_3_L1_full', 'polar', mode=SCL, m=3, L=1, j=8, time=200), T('t_scl_4_L1', 'polar', mode=SCL, m=4, L=1, mask=POLAR16, j=8, time=300), T('t_scl_2_L3', 'polar', mode=SCL, m=2, L=3, j=8, time=900), T('t_scl_3_L2_nc6', 'polar', mode=SCL, m=3, L=2, mask='00010111', nc=6, j=8, time=900), T('t_scl_3_L3', 'polar', mode=SCL, m=3, L=3, mask='00000111', nc=3, j=8, time=900)]
    return js

def C13():
    SE = ('end', 'success', 'erasure')
    js = [J('crc1_2_L2_0111', 'polar', mode=SCL, m=2, L=2, mask='0111', crc='1', j=8, cover=SE), J('crc1_2_L2', 'polar', mode=SCL, m=2, L=2, crc='1', j=8, cover=SE), J('crc11_2_L2', 'polar', mode=SCL, m=2, L=2, crc='11', j=8, cover=SE),
          J('crc1_3_L1', 'polar', mode=SCL, m=3, L=1, mask='00000111', crc='1', cover=SE), J('crc1_3_L2', 'polar', mode=SCL, m=3, L=2, mask='00000011', crc='1'), J('crc1_3_L2b', 'polar', mode=SCL, m=3, L=2, mask='00000111', crc='1', j=8, cover=SE), J('crc11_3_L2', 'polar', mode=SCL, m=3, L=2, mask='00000111', crc='11', j=8, cover=SE)]
    for sg in (60, 100, 160):
        for m, mk, crc, L, np in [(3, '00010111', '1', 4, 20), (3, '11111111', '101', 8, 20), (3, '01111111', '10', 3, 20), (4, POLAR16, '11', 4, 30), (4, POLAR16, '101', 2, 30), (4, POLAR16, '1', 8, 30), (4, POLAR16, '0011', 16, 30), (4, '1' * 16, '0110', 4, 15), (4, POLAR16, '101', 1, 30),
                               (5, POLAR32, '10011', 8, 15), (5, POLAR32, '0101', 3, 15), (5, POLAR32, '11', 16, 15), (5, POLAR32, '00000111', 4, 15), (3, '00010111', '111', 32, 20)]:
            js.append(J('noise_%d_c%s_L%d_sg%d' % (m, crc, L, sg), 'polar', mode=SCL, m=m, L=L, noise=1, np=np, sg=sg, mask=mk, crc=crc))
    js += [J('noisel_%d_%d_L%d_c%s_sg%d' % (m, w, L, crc, sg), 'polar', mode=SCL, m=m, L=L, noise=1, np=8, sg=sg, mask=PRM(m, w), crc=crc, nsym=5, step=11, time=60, cover=('end', 'any')) for sg in (90, 130) for m, w, L, crc in [(6, 3, 4, '101'), (6, 4, 16, CRC8), (6, 4, 32, '11'), (7, 4, 4, CRC8), (7, 5, 8, '1'), (8, 5, 3, '10011')]]
    js += [T('t_crc11_4_L1', 'polar', mode=SCL, m=4, L=1, mask=POLAR16, crc='11', j=8, time=300), T('t_crc1_3_L3', 'polar', mode=SCL, m=3, L=3, mask='00000111', crc='1', nc=3, j=8, time=900), T('t_crc1_3_L4', 'polar', mode=SCL, m=3, L=4, mask='00000111', crc='1', nc=5, j=8, time=900)]
    return js

CODES = [('dtrm0', dict(r=2, m=4), dict(r2=3, m2=6)), ('dtrm0', dict(r=1, m=3), dict(r2=1, m2=5)), ('dtrm0', dict(r=3, m=4), dict(r2=2, m2=4)),
         ('dtrm1', dict(r=2, m=4), dict(r2=1, m2=3)), ('dtrm1', dict(r=1, m=4), dict(r2=2, m2=5)),
         ('glp', dict(r=2, m=4, L=4), dict(r2=2, m2=3, L2=8)), ('glp', dict(r=2, m=3, L=8), dict(r2=3, m2=5, L2=2)), ('glp', dict(r=2, m=4, L=2, mask='011011'), dict(r2=2, m2=5, L2=3)), ('glp', dict(r=2, m=4, L=4, perms='3 0 1 2;0 1 2 3;1 3 2 0'), dict(r2=2, m2=4, L2=2)), ('glp', dict(r=2, m=4, L=8, varl='2 8 4 16 8 300'), dict(r2=2, m2=5, L2=4)), ('glp', dict(r=2, m=4, L=3, varl='2 4 16 8'), dict(r2=2, m2=4, L2=4, varl2='1 2 8 300')), ('glp', dict(r=2, m=4, L=8, varl='1 300 8 300'), dict(r2=2, m2=4, L2=4)),
         ('polar', dict(m=4, mask=POLAR16, L=4, crc='101'), dict(m2=3, mask2='00010111', L2=8)), ('polar', dict(m=3, mask='00010111', L=2), dict(m2=5, mask2=POLAR32, L2=4, crc2='10011')), ('polar', dict(m=4, mask=POLAR16, L=1), dict(m2=4, L2=4)), ('polar', dict(m=4, mask=POLAR16, L=8, crc='11'), dict(m2=4, mask2=POLAR16, L2=2, crc2='1011'))]
def tagof(t, d): return '%s_%s' % (t, '_'.join('%s%s' % (k, str(v).replace(' ', '').replace(';', '-')[:16]) for k, v in sorted(d.items()) if k not in ('nsym', 'off')))
def C14():
    js = []
    for ix, (t, a, b) in enumerate(CODES):
        for sg in (60, 130):
            w = {'nsym': 3} if (t, a.get('m')) == ('dtrm1', 4) else {'nsym': 3, 'j': 2} if 'varl' in a else {}
            js.append(J('hist_%s_sg%d' % (tagof(t, a), sg), t, mode=HIST, hist=2, sg=sg, ab=(ix + (sg == 60)) % 2, encfirst=ix % 2, **a, **b, **w))
        if a.get('varl', '').startswith('1 300'): js += [J('hist_varl_seed%d' % sd, t, mode=HIST, hist=1, sg=100, seed=sd, **a, **b) for sd in range(2, 8)]
        if a['m'] == 3: js.append(J('signs_%s' % tagof(t, a), t, mode=HIST, hist=1, signs=1, j=2, **a, **b))
        js.append(T('hist3_%s' % tagof(t, a), t, mode=HIST, hist=3, sg=90, ab=ix % 2, j=4, time=600, **a, **b))
    return js

def C15():
    js = []
    for ix, (t, a, b) in enumerate(CODES + [('polar', dict(m=2, mask='0111', L=2, crc='11'), {}), ('polar', dict(m=3, mask='00010111', L=32), {}), ('polar', dict(m=3, mask='00010110', L=3, crc='1'), {}), ('polar', dict(m=1, mask='11', L=5), {}), ('polar', dict(m=3, L=16), {}), ('polar', dict(m=3, mask='00000001', L=4), {}),
                                            ('glp', dict(r=2, m=3, L=1), {}), ('glp', dict(r=2, m=5, L=7), {}), ('glp', dict(r=3, m=5, L=16), {}), ('glp', dict(r=2, m=3, L=3, perms='0 1 2;2 0 1;1 2 0;0 2 1;1 0 2'), {}), ('glp', dict(r=2, m=3, L=64, mask='011'), {}), ('glp', dict(r=3, m=4, L=100), {}), ('glp', dict(r=4, m=6, L=5), {}),
                                            ('dtrm0', dict(r=2, m=2), {}), ('dtrm0', dict(r=1, m=1), {}), ('dtrm1', dict(r=3, m=3), {}), ('dtrm1', dict(r=1, m=1), {}), ('dtrm1', dict(r=1, m=3), {}), ('dtrm1', dict(r=2, m=3), {}), ('dtrm1', dict(r=3, m=6), {})]):
        for e in range(6):
            ns = 8 if a['m'] <= 3 else 5 if a['m'] <= 4 else 3
            if t in ('dtrm1',) or e in (1, 2): ns = min(ns, 5)
            js.append(J('mem_%s_e%d' % (tagof(t, a), e), t, mode=MEM, ext=e, nsign=ns, seed=e + 1, **a))
            js.append(T('memt_%s_e%d' % (tagof(t, a), e), t, mode=MEM, ext=e, nsign=min(2 ** a['m'], 9), seed=e + 11, j=4, time=300, np=2, **a))
    for t, a in BIG: js.append(J('membig_%s' % tagof(t, a), t, mode=MEM, ext=0, nsign=2, seed=1, np=1, time=120, **a))
    return js

BIG = [('dtrm0', dict(r=11, m=11)), ('dtrm0', dict(r=1, m=12)), ('dtrm1', dict(r=1, m=13)), ('dtrm1', dict(r=12, m=12)), ('polar', dict(m=12, L=2, mask='0' * 4090 + '010111')), ('polar', dict(m=11, L=2, mask='0' * 2038 + '0100010111', crc='11')), ('glp', dict(r=2, m=9, L=3)), ('glp', dict(r=2, m=12, L=2, mask='0' * 62 + '1110'))]
def C27():
    js = [J('perm_2_3_L%d' % L, 'glp', mode=PERM, r=2, m=3, L=L, np=3, nsym=4, j=2) for L in (1, 2, 8)]
    js += [J('perm_2_4_L%d' % L, 'glp', mode=PERM, r=2, m=4, L=L, np=2, nsym=3, j=2) for L in (1, 4)] + [J('perm_3_4_L2', 'glp', mode=PERM, r=3, m=4, L=2, np=2, nsym=3, j=2)]
    js += [J('ml_perms_2_3', 'glp', mode=NML, r=2, m=3, L=512, np=4, perms='0 1 2;2 0 1;1 2 0', sg=80), J('ml_perms_2_3b', 'glp', mode=NML, r=2, m=3, L=1024, np=4, perms='0 2 1;2 1 0;1 0 2;1 2 0;0 1 2', sg=120), J('ml_perm_2_4', 'glp', mode=NML, r=2, m=4, L=5000, np=1, perms='3 1 0 2;2 3 0 1', sg=80, nsym=6)]
    js += [T('perm_2_5_L%d' % L, 'glp', mode=PERM, r=2, m=5, L=L, np=1, nsym=2, j=8, time=600) for L in (1, 4)]
    return js

INIT, BADINIT = 11, 12
def C16():
    P3, P4 = '0 1 2;2 0 1', '3 0 1 2;1 2 3 0'
    sets = [('dtrm0', dict(r=2, m=4)), ('dtrm0', dict(r=1, m=3)), ('dtrm1', dict(r=2, m=4)), ('dtrm1', dict(r=1, m=3)),
            ('glp', dict(r=2, m=3, L=4)), ('glp', dict(r=2, m=4, L=2, perms=P4)), ('glp', dict(r=2, m=3, L=3, perms=P3, varl='2 4 3 300')), ('polar', dict(m=3, mask='00010111', L=4)), ('polar', dict(m=3, mask='00010111', L=2, crc='11')), ('polar', dict(m=4, mask=POLAR16, L=3, crc='101', perms='0 1 2 3'))]
    js = []
    for t, a in sets:
        big = 'varl' in a
        js.append(J('order_%s' % tagof(t, a), t, mode=INIT, j=4 if big or 'perms' in a else 1, nsym=3, time=80, np=1 if big else 2, **a))
        js.append(J('unknown_%s' % tagof(t, a), t, mode=INIT, orders=0, gap=8, maxu=1 if len(a) > 4 else 2, nsym=3, j=2, time=80, **a))
        js.append(J('unknown_rev_%s' % tagof(t, a), t, mode=INIT, orders=0, rev=1, gap=8, maxu=1, lastsep=0, nsym=3, **a))
        for k in {'dtrm0': (0, 1, 2, 3), 'dtrm1': (0, 1, 2, 3), 'glp': tuple(range(0, 17)), 'polar': tuple(range(0, 13)) + (16,)}[t]:
            if k == 0 and 'perms' in a: continue
            js.append(J('bad%d_%s' % (k, tagof(t, a)), t, mode=BADINIT, kind=k, j=2 if k in (6, 7) and a['m'] > 3 else 1, **a))
    return js

def C28():
    js = [J('hard_dtrm0_1_4', 'dtrm0', mode=HARD, r=1, m=4, d=8, j=4), J('hard_dtrm1_2_4', 'dtrm1', mode=HARD, r=2, m=4, d=4, j=8), J('hard_glp_2_4', 'glp', mode=HARD, r=2, m=4, d=4, L=16, j=8),
          J('hard_polar_3', 'polar', mode=HARD, m=3, d=4, mask='00010111', L=16)]
    return js

COUNT, RESUME, MERGE, BADOLD, NOISE, CTRL = 1, 2, 3, 4, 5, 6
def C17():
    M = ['range', 'mono', 'xor', 'add', 'metric', 'llr', 'addodd', 'chain']
    def F(n, m, **d): return J('fmt_' + n, 'fmt', mode=M.index(m) + 1, leafcap=0, **d)
    return [F(m, m, time=120) for m in M if m != 'llr'] + [F('llr_%d' % k, 'llr', lo=k * 100 + (k == 0), hi=k * 100 + 300, time=120) for k in (0, 3, 6, 9, 12, 15)]

def C18():
    js = [J('count_%s' % n, t, mode=COUNT, **d) for n, t, d in [
        ('zero', 'sim', dict()), ('zero_show', 'sim', dict(show=1, ticks=4, nsnr=2)), ('rnd', 'sim', dict(rndcw=1)), ('rnd_bits', 'sim', dict(rndcw=1, rnd=3, nsnr=1, force=2)), ('rnd_bits_ml', 'sim', dict(rndcw=1, rnd=3, nsnr=1, force=2, ml=1)), ('ml', 'sim', dict(ml=1)), ('ml_rnd', 'sim', dict(ml=1, rndcw=1)),
        ('mlh_noise', 'sim', dict(mlh=1, rndcw=1, rnd=1, snrs='3', force=1, er=0)), ('mlh_noise6', 'sim', dict(mlh=1, k=1, rnd=1, snrs='3', force=1, n=6, er=0)),
        ('mlh', 'sim', dict(mlh=1)), ('mlh_rnd', 'sim', dict(mlh=1, rndcw=1, nsnr=1)), ('ml_mlh', 'sim', dict(ml=1, mlh=1, nsnr=1)), ('k3', 'sim', dict(k=3, n=6, nsnr=1, mintrn=2, minen=1)), ('k1', 'sim', dict(k=1, n=2, mintrn=3, force=5)),
        ('trn3', 'sim', dict(mintrn=3, nsnr=1)), ('en2', 'sim', dict(minen=2, nsnr=1, force=3)), ('sg', 'simsg', dict(ml=1, show=1, ticks=2)), ('k8', 'sim', dict(k=8, n=16, maxbits=3, nsnr=1))]]
    js += [J('decerr_%s' % n, t, mode=10, cover=('end', 'error'), **d) for n, t, d in [('plain', 'sim', dict(force=2)), ('rnd', 'sim', dict(force=2, rndcw=1, er=0, maxbits=1)), ('ml', 'sim', dict(ml=1, force=1, ticks=2)), ('trn3', 'sim', dict(mintrn=3, force=0, nsnr=2, maxerr=6))]]
    js += [J('show_any', 'simw', mode=1), J('show_any_noml', 'simw', mode=1, ml=0), J('show_any_k1', 'simw', mode=1, k=1)]
    return js

def C19():
    js = [J('step_%d_lo' % m, 'simw', mode=2, minen=m, en_lo=0, en_hi=min(m, 20), time=120, j=2) for m in (1, 5, 20)]
    js += [J('step_%d_en%d' % (m, e), 'simw', mode=2, minen=m, en_is=e, time=120, j=2) for m, e in [(25, 21), (100, 50), (100, 99), (1000, 21), (30, 30)]]
    js += [J('count_%s' % n, 'sim', mode=COUNT, **d) for n, d in [
        ('plain', dict()), ('min10', dict(mintrn=10, nsnr=1, force=9, maxbits=1, er=0)), ('listed', dict(svt=1, mintrn=2)), ('en3', dict(minen=3, nsnr=1, force=3)), ('en2_listed', dict(minen=2, svt=1, nsnr=2, force=2)), ('trn5', dict(mintrn=5, nsnr=1, force=6, maxbits=1, er=0)), ('trn24', dict(mintrn=24, minen=2, nsnr=1, force=20, maxbits=1, er=0, **{'from': 14})), ('er', dict(ml=1, mintrn=2))]]
    return js

def C20():
    o = dict(maxbits=1, er=0)
    js = [J('resume_%s' % n, t, mode=RESUME, j=2, cover=('end', 'interrupted'), **d) for n, t, d in [
        ('plain', 'sim', dict(ticks=3, force=1, **o)), ('shows', 'sim', dict(ticks=4, force=0, nsnr=3, **o)), ('nosaves', 'sim', dict(saves=0, ticks=6, force=2, **o)), ('rates', 'sim', dict(rates=1, nsnr=1, ticks=3, force=1)), ('ml', 'sim', dict(ml=1, ticks=3, force=1, nsnr=1)),
        ('listed', 'sim', dict(svt=1, nsnr=2, ticks=4, force=0)), ('en2', 'sim', dict(minen=2, nsnr=1, ticks=4, force=1, **o)), ('rnd', 'sim', dict(rndcw=1, rnd=3, nsnr=1, ticks=2, force=1, maxbits=1)), ('sg', 'simsg', dict(ticks=3, force=1, **o)), ('trn3', 'sim', dict(mintrn=3, nsnr=2, ticks=3, force=0)), ('unsorted', 'sim', dict(snrs='203', ticks=4, force=0))]]
    js += [T('t_resume_%s' % n, t, mode=RESUME, j=8, time=600, cover=('end', 'interrupted'), **d) for n, t, d in [('plain', 'sim', dict()), ('three', 'sim', dict(nsnr=3, ticks=6, force=2, **o)), ('ml', 'sim', dict(ml=1, rndcw=1, ticks=4, force=2))]]
    return js

def C21():
    js = [J('merge_%s' % n, t, mode=MERGE, **d) for n, t, d in [('two', 'sim', dict(force=0)), ('two_sym', 'sim', dict(force=1, lists=3, maxbits=1)), ('pre1', 'sim', dict(pre=1, sessions=1, force=0)), ('pre2', 'sim', dict(pre=2, sessions=1, force=0)), ('pre3', 'sim', dict(pre=3, sessions=1, force=0)), ('pre_sym', 'sim', dict(pre=1, sessions=1, force=1, lists=4)),
        ('ticks', 'sim', dict(force=0, ticks=2, lists=5)), ('digits', 'sim', dict(force=0, l0=10, lists=6)), ('ml', 'sim', dict(ml=1, force=1, lists=2, maxbits=1)), ('ticks_sym', 'sim', dict(sessions=1, force=2, ticks=2, lists=2, maxbits=1)), ('ticks_ml', 'sim', dict(sessions=1, force=1, ticks=2, lists=2, ml=1)), ('ticks_two', 'sim', dict(sessions=2, force=1, ticks=3, lists=1, maxbits=1)), ('three', 'sim', dict(sessions=3, force=0, lists=5)), ('en2', 'sim', dict(minen=2, force=0, lists=4)), ('pre_two', 'sim', dict(pre=2, sessions=2, force=0, lists=4, maxold=1000000))]]
    js += [J('badold', 'sim', mode=BADOLD, force=0, nsnr=1)] + [J('full_%d' % n, 'sim', mode=7, force=0, old=n, cover=('end',) + c) for n, c in [(50, ('full', 'room')), (49, ('room',)), (48, ('room',))]]
    js += [T('t_merge_%s' % n, t, mode=MERGE, j=8, time=900, **d) for n, t, d in [('four', 'sim', dict(sessions=4, force=0, lists=6)), ('three', 'sim', dict(sessions=3, force=0, lists=16)), ('pre', 'sim', dict(pre=3, sessions=2, force=1, lists=10)), ('ticks', 'sim', dict(force=0, ticks=4, lists=10))]]
    return js

def C22():
    ALL, SIX, TXT, GRP = 'x_~%{}`,^', 'a_~%{}', 'a_~%', 'a_{}'
    def W(n, t0, a=SIX, cover=('end',), **d): return J('spf_' + n, 'spf', t0=t0, alpha=a, cover=cover, **d)
    EE = ('end', 'error')
    js = [W('any4', '@@@@', ALL, j=4), W('any5', '@@@@@', SIX, j=4), W('text6', '@@@@@@', TXT, j=4), W('group6', '@@@@@@', GRP, j=4)]
    js += [W('group_in', 'k_{@@@}b~'), W('group_open', 'a_{_@@@'), W('group_end', 'x_{_1_2_@@}@@'), W('group_word', 'k~{@1}@{2@}'), W('comment', 'a%@@@b~c'), W('comment_last', 'a~%@@@'), W('comment_end', 'a@@%@@'), W('layout', 'ab@@cd@@ef', ALL, j=4), W('crlf', 'a@^~@b^~', ALL), W('two_lines', 'aa@~@bb%@~cc')]
    js += [W('inc_end', 'include_f1', t1='@@@'), W('inc_end_sep', 'a_include@f1', t1='b', a=ALL, cover=EE), W('inc_seps', 'a@include@f1@b', 'a_~%`,^', EE, j=4, t1='1@'), W('inc_mid', '@include_f1~@', t1='@@', j=2), W('inc_two', 'include_f1_include_f2@', t1='a@', t2='@b', cover=EE), W('inc_nested', 'a_include_f1_b', t1='@include_f2@', t2='c@', cover=EE, j=2), W('inc_nested_end', 'a_include_f1', t1='b@include_f2', t2='c@'), W('inc_twice', 'include_f1_x_include_f1_y', t1='a@@'), W('inc_same_deep', 'include_f1_x_include_f2_y', t1='a@_include_f2', t2='@b'),
           W('inc_comment', 'a_%_include_f1@b', t1='q'), W('inc_group', 'k_{_include_f1@}@', t1='1@', cover=EE), W('inc_braces', 'k@include_f1@}z', t1='1_2', cover=EE), W('inc_word', 'a_@nclude_f1@', t1='z', cover=EE), W('inc_word2', 'a_includ@_f1', t1='z', cover=('end',)), W('inc_joined', 'a_include@@f1_b', 'a_~%{}`,^', EE, t1='q', j=2), W('inc_cmt_tail', 'include_f1_b@', t1='a%@@'), W('inc_cmt_tail2', 'a_include_f1~b', t1='@%~c@%'), W('inc_three', 'include_f1_include_f2_include_f3_e@', t1='a@', t2='b@', t3='c%')]
    js += [W('missing_inc', '@_include_f3@', cover=('error',)), W('missing_inc_nested', 'a_include_f1', t1='@include_f3', cover=EE), W('empty_inc', 'a@include_f1_b', t1='', cover=EE), W('dangling', 'a@_include', cover=EE), W('dangling_cmt', 'a_include%@~', cover=('error',)), W('only_inc', 'include', cover=('error',)), W('empty', '', cover=('error',)), J('spf_missing', 'spf', cover=('error',)), J('spf_missing_try', 'spf', **{'try': 1}, cover=('error',)), J('spf_try', 'spf', **{'try': 1}, t0='a@@', alpha=SIX)]
    js += [J('spf_big_%s' % n, 'spf', cap=300000, huge=h, alpha=SIX, cover=c, time=80, **t) for n, h, c, t in [('fit', 1, ('end', 'read'), dict(t0='$a60000_@@b')), ('edge', 1, (), dict(t0='$a139980_@b_@')), ('last', 1, (), dict(t0='$a139990_{1}@')), ('over', 2, ('error',), dict(t0='$a140000@')), ('inc', 1, (), dict(t0='include_f1_$a69900_b@', t1='$c70000_@')), ('inc_over', 2, ('error',), dict(t0='include_f1_$a90000', t1='$c70000_@')), ('inc_self', 2, ('error',), dict(t0='$a1000_include_main.txt@'))]]
    js += [J('spf_t_%s' % n, 'spf', t0=t, alpha=a, j=8, time=900, tier='thorough') for n, t, a in [('any5', '@' * 5, ALL), ('any6', '@' * 6, SIX), ('text8', '@' * 8, TXT), ('group8', '@' * 8, GRP)]]
    return js

def C23():
    o = dict(er=0, maxbits=1)
    js = [J('noise_%s' % n, t, mode=NOISE, **d) for n, t, d in [('plain', 'sim', dict(force=3)), ('three', 'sim', dict(force=3, nsnr=3, **o)), ('five', 'sim', dict(snrs='34501', force=2, **o)), ('sg', 'simsg', dict(force=3, snrs='430', **o)), ('sg_fix', 'simsg', dict(force=2, fixR=1, **o)), ('fix', 'sim', dict(force=2, fixR=1, snrs='57', mintrn=2, **o)),
        ('listed', 'sim', dict(svt=1, force=3, nsnr=3, **o)), ('rnd1', 'sim', dict(force=1, rnd=1, nsnr=1)), ('rndcw', 'sim', dict(force=2, rndcw=1, **o)), ('rndcw_bits', 'sim', dict(force=0, rndcw=1, rnd=3, k=3, n=8, mintrn=2, nsnr=1, **o)), ('rndcw_ml', 'sim', dict(force=1, rndcw=1, ml=1, rnd=3, snrs='14', **o)), ('k1', 'sim', dict(k=1, n=2, force=3, **o)), ('n16', 'sim', dict(k=5, n=16, force=2, **o)), ('k8', 'sim', dict(k=8, n=8, force=2, **o))]]
    js += [J('draws_%s' % n, 'sim', mode=NOISE, force=0, rnd=2, rtab=8, rmax=3, **dict(dict(o, nsnr=1), **d)) for n, d in [('two', dict(n=2, k=1)), ('four', dict()), ('four_fix', dict(fixR=1, snrs='3')), ('rndcw', dict(rndcw=1, n=2, k=1))]]
    js += [J('draws4_%s' % n, 'sim', mode=NOISE, force=0, rnd=2, rtab=4, rmax=4, **dict(dict(o, nsnr=1), **d)) for n, d in [('two', dict(n=2, k=1)), ('two_points', dict(nsnr=2)), ('trn2', dict(mintrn=2, n=2, k=1))]]
    js += [T('t_draws_%s' % n, 'sim', mode=NOISE, nsnr=1, force=0, rnd=2, rtab=8, rmax=5, j=8, time=900, **dict(o, **d)) for n, d in [('two', dict(n=2, k=1)), ('four', dict())]]
    return js

def C24():
    js = [J('par_%s' % n, 'sim', mode=8, force=0, er=0, time=60, **d) for n, d in [('num', dict(sym=1, items='rLte', nsnr=2, gaps=0, j=2)), ('num_gap', dict(sym=1, items='rLt', nsnr=1, perm=2, j=2)), ('num_svt', dict(sym=1, items='rLt', svt=1, nsnr=3, gaps=0)), ('num_svt_gap', dict(sym=1, items='Lt', svt=1, nsnr=2, perm=2, j=2)), ('num_svt_nomin', dict(sym=1, items='rL', svt=1, nsnr=3, gaps=0)),
        ('snr', dict(items='rL', nsnr=3, gaps=0, snrsym=1)), ('snr_svt', dict(items='rL', nsnr=2, svt=1, gaps=0, snrsym=1)), ('run', dict(items='rLte', nsnr=1, gaps=0)), ('run_svt', dict(items='rLte', svt=1, nsnr=1, gaps=0, j=2)), ('run_two', dict(items='Ler', svt=1, nsnr=2, gaps=0)), ('run_gap', dict(items='rLe', nsnr=2, perm=2)),
        ('flags', dict(items='rLwmh', nsnr=1, gaps=0, j=2)), ('flags_gap', dict(items='wLmrh', nsnr=1, perm=2, j=2)), ('fix', dict(items='rLf', nsnr=1, gaps=2)), ('codec', dict(items='rLcg', nsnr=2, gaps=0)), ('codec_gap', dict(items='rcLg', nsnr=2, perm=2)), ('all', dict(items='crLtewmhfg', nsnr=1, perm=2, gaps=0, j=2))]]
    js += [J('parbad_%d' % k, 'sim', mode=9, kind=k, force=0) for k in list(range(0, 19)) + [20, 21, 22]]
    return js

def C25():
    js = [J('any_%d' % n, 'simw', mode=3, np=n, cover=('end', 'after_last')) for n in (1, 3)] + [J('any_50_%d' % c, 'simw', mode=3, np=50, cur=c, cover=('end',) + (('after_last',) if c == 50 else ())) for c in (0, 49, 50)]
    js += [J('ctrl_%s' % n, t, mode=CTRL, cover=('end', 'more', 'less', 'next'), **d) for n, t, d in [('plain', 'sim', dict(force=1)), ('late', 'sim', dict(force=0, early=0, ticks=4)), ('three', 'sim', dict(force=0, nsnr=3, cmds=2, ticks=2)), ('listed', 'sim', dict(svt=1, force=0, cmds=2)), ('cmds3', 'sim', dict(cmds=3, nsnr=1, force=0, ticks=2)), ('en2', 'sim', dict(minen=2, force=1, nsnr=1, maxbits=1)), ('trn6', 'sim', dict(mintrn=6, nsnr=2, force=0, cmds=2, ticks=2)), ('sg', 'simsg', dict(force=1, maxbits=1))]]
    js += [T('t_ctrl_%s' % n, t, mode=CTRL, cover=('end', 'more', 'less', 'next'), j=8, time=600, **d) for n, t, d in [('cmds4', 'sim', dict(cmds=4, force=0, ticks=4)), ('plain', 'sim', dict(force=2, cmds=3))]]
    return js

def C26():
    js = [J('load_%s' % n, 'load', mode=1, **d) for n, d in [('two', dict()), ('three', dict(np=3)), ('one', dict(np=1, k=1, n=2)), ('big_k', dict(np=1, k=100000, n=200000)), ('k_max', dict(np=1, k=1000003, n=2000000)), ('no_er', dict(er=0)), ('zero', dict(zero=1, np=1)), ('zero_no_er', dict(zero=1, np=1, er=0)), ('any_order', dict(np=1, free=1, j=2)), ('reversed', dict(np=2, free=-1, nkfirst=0))]]
    js += [J('load_none', 'load', mode=1, np=0)]
    js += [J('load_bad', 'load', mode=2), J('load_noarg', 'load', mode=5)]
    tail = '_en+bit_{_1_}_en+bl_{_1_}_erasures+num_{_0_}_ml+tr+num_{_0_}_enml+bl_{_0_}'
    js += [J('load_text_%s' % n, 'load', mode=3, t=t, cover=c, **d) for n, t, c, d in [('snr', 'code+n_4_code+k_2_SNR@{@0@}_tr+num_{_5_}' + tail, ('end', 'loaded', 'rejected'), dict()), ('trn', 'code+n_4_code+k_2_SNR_{_0_}_tr+num@{@5@}' + tail, ('end', 'loaded', 'rejected'), dict()), ('cut', 'code+n_4_code+k_2_SNR_{_0_}_tr+num_{_5@@@@', ('end', 'rejected'), dict()), ('any', 'code+n@4@code+k@2@', ('end',), dict())]]
    js += [J('load_sim_%s' % n, 'load', mode=4, **d) for n, d in [('plain', dict()), ('ml', dict(ml=1, np=1)), ('three', dict(np=3, force=1)), ('trn2', dict(np=1, mintrn=2))]]
    return js

def C29():
    ALL = ('end', 'init_fails', 'saved_between', 'run_fails', 'save_fails')
    js = [J('main_runs', 'main', nopt=0, runs=4, cover=ALL), J('main_opts', 'main', nopt=2, runs=2, cover=ALL), J('main_opts3', 'main', nopt=3, runs=1, cover=('end', 'init_fails', 'run_fails', 'save_fails')), J('main_noarg', 'main', noarg=1), J('main_state', 'main', nopt=0, runs=2, text=1), J('main_res', 'main', nopt=0, runs=2, text=2)]
    js += [T('t_main_runs', 'main', nopt=1, runs=6, j=8, time=600, cover=ALL), T('t_main_opts', 'main', nopt=4, runs=3, j=8, time=600, cover=ALL)]
    return js

def C30():
    js = []; lv_off = (0, 3, 6)
    def N(lv, np=12, **d):
        sg = ((60, 80, 130) if d['m'] < 5 else (120, 170, 250) if d['m'] < 6 else (160, 220, 300))[lv]
        js.append(J('ref_%s_sg%d' % (tagof('glp', d), sg), 'glp', mode=REF, np=np, sg=sg, cover=('end', 'compared'), **d))
    for sg in (0, 1, 2):
        for r, m, L in [(2, 3, 1), (2, 3, 2), (2, 3, 4), (2, 3, 8), (2, 4, 1), (2, 4, 2), (2, 4, 3), (2, 4, 8), (2, 4, 16), (3, 4, 1), (3, 4, 4), (3, 4, 7), (3, 4, 16), (3, 5, 2), (3, 5, 5), (3, 5, 16), (2, 5, 4), (4, 5, 8), (2, 5, 3), (3, 6, 3), (2, 6, 5)]:
            N(sg, r=r, m=m, L=L, np=6 if r == 4 else 12)
        for r, m, L, mk in [(2, 3, 2, '011'), (2, 3, 3, '101'), (2, 4, 2, '011011'), (2, 4, 3, '001111'), (3, 4, 4, '0111'), (3, 4, 3, '1011'), (3, 5, 4, '0011011111'), (2, 5, 4, '0001011111'), (2, 4, 4, '110110'), (3, 5, 3, '1110111110')]:
            N(sg, r=r, m=m, L=L, mask=mk)
        for r, m, L, pm in [(2, 4, 2, '3 0 1 2'), (2, 4, 4, '3 0 1 2;0 1 2 3;1 3 2 0'), (3, 4, 3, '3 0 1 2;1 2 3 0'), (2, 3, 2, '2 0 1;1 2 0'), (3, 5, 4, '4 0 1 2 3;0 2 1 4 3'), (2, 5, 3, '4 3 2 1 0;1 2 3 4 0;0 1 2 3 4')]:
            N(sg, r=r, m=m, L=L, perms=pm)
        for r, m, vl in [(2, 4, '1 16 2 18 8 300'), (3, 4, '1 9 4 14 16 300'), (2, 5, '1 30 2 33 5 400'), (3, 5, '2 20 4 25 8 30')]:
            N(sg, r=r, m=m, L=4, varl=vl, nsym=4, np=6, off=lv_off[sg])
    for sg in (180, 250, 350):
        for r, m, L, mk, pm in [(2, 7, 3, '', ''), (3, 7, 4, '', ''), (3, 8, 2, '', ''), (5, 7, 2, '', ''), (2, 8, 2, '', '7 6 5 4 3 2 1 0;1 2 3 4 5 6 7 0'), (3, 7, 4, ('0' + '1' * 5 + '01' * 40)[:35], '')]:
            if (m == 8 and pm and sg < 350) or (sg == 180 and (r, m) in ((2, 7), (3, 8))): continue
            js.append(J('refl_%d_%d_L%d_%s_sg%d' % (r, m, L, 'mask' if mk else 'perm' if pm else '', sg), 'glp', mode=REF, np=9, sg=sg, r=r, m=m, L=L, nsym=5, step=11, off=2, time=60, cover=('end', 'compared'), **({'mask': mk} if mk else {}), **({'perms': pm} if pm else {})))
    # draws whose most likely survivor goes through the third or fourth word of a (m,m) node, or through the last path a cut keeps
    for tag, sg, ps, d in [('deep', 200, '6 17 24 0 14 16', dict(r=3, m=4, L=4, mask='0010')), ('deep', 200, '786 1374 1489 348 657 972', dict(r=3, m=4, L=8, mask='0011')), ('deep', 200, '27 28 29 25 164 219 14 32', dict(r=3, m=4, L=8, mask='0110')), ('deep', 200, '34 184 279 304 3 27', dict(r=3, m=4, L=4, mask='1010')),
                            ('deep', 250, '6 73 108 231 484 530 858 1233 1923', dict(r=3, m=5, L=8, mask='0000010011')), ('deep', 250, '70 84 108 79 192 5 14 43', dict(r=3, m=5, L=8, mask='0000010101')), ('deep', 250, '456 1794 1016 339 441', dict(r=3, m=5, L=4, mask='0000001011')), ('deep', 250, '97 174 28 577 390 2793', dict(r=3, m=5, L=8, mask='0010000011')),
                            ('deep', 250, '16 264 330', dict(r=3, m=6, L=8, mask='00000000000000000011')), ('deep', 250, '18 94 117 7 78 92 993', dict(r=4, m=5, L=8, mask='00111')), ('deep', 250, '285 292 234 252 394', dict(r=4, m=5, L=8, mask='01011')),
                            ('last', 130, '9 13 16 18', dict(r=2, m=5, L=2, perms='4 3 2 1 0;1 2 3 4 0;0 1 2 3 4')), ('last', 200, '57 58 63 71', dict(r=3, m=5, L=5)), ('last', 200, '22 25 46 60', dict(r=2, m=5, L=5)), ('last', 200, '4 5 16 23', dict(r=4, m=6, L=6)), ('last', 200, '9 15 21', dict(r=2, m=6, L=5)), ('last', 200, '2 9 10 13 23', dict(r=2, m=4, L=2)), ('last', 200, '70 71 103 149', dict(r=3, m=4, L=3)), ('last', 200, '13 23 46 63', dict(r=2, m=4, L=3))]:
        js.append(J('%s_%s' % (tag, tagof('glp', d)), 'glp', mode=REF, ps=ps, sg=sg, cover=('end', 'compared'), **d))
    for r, m, L, nc in [(2, 3, 1, 3), (2, 3, 2, 7), (2, 3, 4, 7), (2, 4, 1, 14), (3, 4, 1, 15), (3, 4, 4, 15)]:
        js.append(J('any_%d_%d_L%d' % (r, m, L), 'glp', mode=REF, noise=0, r=r, m=m, L=L, nc=nc, j=8, time=80, cover=('end', 'compared')))
    js += [T('t_any_%d_%d_L%d' % (r, m, L), 'glp', mode=REF, noise=0, r=r, m=m, L=L, nc=nc, j=8, time=900, cover=('end', 'compared')) for r, m, L, nc in [(2, 3, 1, 0), (2, 3, 2, 5), (2, 4, 1, 11), (3, 4, 1, 11), (2, 4, 2, 15)]]
    return js

def C31():
    js = []
    def N(t, sg, np=10, **d): js.append(J('ref_%s_sg%d' % (tagof(t, d), sg), t, mode=REF, np=np, sg=sg, cover=('end', 'compared'), **d))
    for sg in (50, 80, 130):
        for r, m in [(1, 3), (2, 3), (2, 4), (3, 4), (2, 5), (3, 5), (3, 6)]:
            N('dtrm0', sg, r=r, m=m)
            N('dtrm1', sg, np=4 if m > 3 else 10, r=r, m=m, **({'nsym': 9, 'off': 3 + (sg == 80) * 5} if m > 4 else {}))
    for sg in (50, 80):
        js += [J('refl_%s_%d_%d_sg%d' % (t, r, m, sg), t, mode=REF, np=4, sg=sg, r=r, m=m, nsym=ns, step=11, off=2, time=60, cover=('end', 'compared')) for t, r, m, ns in [('dtrm0', 3, 8, 12), ('dtrm0', 2, 8, 12), ('dtrm0', 5, 8, 12), ('dtrm0', 4, 7, 12), ('dtrm1', 1, 7, 3), ('dtrm1', 2, 7, 2), ('dtrm1', 4, 7, 2)]]
    for t, r, m, nc in [('dtrm0', 1, 2, 0), ('dtrm0', 1, 3, 0), ('dtrm0', 2, 3, 0), ('dtrm0', 2, 4, 7), ('dtrm0', 1, 4, 0), ('dtrm0', 3, 4, 8), ('dtrm1', 2, 3, 0), ('dtrm1', 1, 2, 0), ('dtrm1', 2, 4, 15)]:
        js.append(J('any_%s_%d_%d' % (t, r, m), t, mode=REF, noise=0, r=r, m=m, nc=nc, j=8, time=80, cover=('end', 'compared')))
    js += [T('t_any_%s_%d_%d' % (t, r, m), t, mode=REF, noise=0, r=r, m=m, nc=nc, j=8, time=900, cover=('end', 'compared')) for t, r, m, nc in [('dtrm0', 2, 4, 0), ('dtrm0', 3, 4, 4), ('dtrm1', 2, 4, 9)]]
    return js

OOM = 14
def C32():
    js = []
    for t, d in [('dtrm0', dict(r=2, m=4)), ('dtrm1', dict(r=2, m=4)), ('dtrm1', dict(r=1, m=3)), ('dtrm1', dict(r=3, m=5)), ('glp', dict(r=2, m=4, L=2, mask='011011')), ('glp', dict(r=2, m=4, L=4, perms='1 0 2 3;2 3 0 1')), ('glp', dict(r=2, m=4, L=1, varl='1 1.5;2 0;4 30')), ('polar', dict(m=4, L=4, mask=POLAR16)), ('polar', dict(m=4, L=4, mask=POLAR16, crc='101')), ('polar', dict(m=3, L=2, perms='1 0 2;2 1 0'))]:
        tag = tagof(t, d)
        def O(what, nat, name, cover, **e): js.append(J('%s_%s' % (name, tag), t, mode=OOM, what=what, nat=nat, cover=('end',) + cover, **dict(d, **e)))
        O(0, 12, 'init', ('struck',), nsym=2); O(1, 4, 'enc', (), nsym=3 if t in ('dtrm1', 'glp') else 16); O(2, 9, 'dec', ('struck',), times=2, nsym=3); O(2, 4, 'decs', (), signs=1, sg=60, nsgn=4)
    js += [J('sim_init_%s' % n, t, mode=11, what=0, nat=8, cover=('end',), **d) for n, t, d in [('plain', 'sim', {}), ('svt', 'simsg', dict(svt=1, force=2))]]
    js += [J('sim_run_%s' % n, t, mode=11, what=1, nat=6, ticks=2, cover=('end',), **d) for n, t, d in [('plain', 'sim', dict(force=2)), ('rnd', 'simsg', dict(force=2, rndcw=1, er=0, maxbits=1))]]
    js += [J('sim_save_%s' % n, t, mode=11, what=2, nat=6, ticks=4, cover=('end',), **d) for n, t, d in [('first', 'sim', dict(force=1, before=1)), ('two', 'sim', dict(force=1, before=1, nsnr=3))]]
    js += [J('sim_enc_%s' % n, t, mode=11, what=3, cover=('end',) + c, **d) for n, t, c, d in [('rnd', 'sim', ('struck',), dict(force=2, rndcw=1, er=0)), ('ml', 'sim', ('struck_ml',), dict(force=2, ml=1, er=0)), ('both', 'sim', ('struck', 'struck_ml'), dict(force=1, ml=1, rndcw=1, er=0, maxerr=5)), ('trn3', 'sim', ('struck', 'struck_ml'), dict(mintrn=3, force=0, mlh=1, rndcw=1, er=0, maxerr=9, ticks=1))]]
    return js

SH, LST, FINP, DOTP = 0, 1, 2, 3
def C33():
    js = []; EC = ('end', 'compared')
    for fn, nm, ls in [(SH, 'sh', 1), (LST, 'lst', 2), (LST, 'lst', 3), (LST, 'lst', 100), (FINP, 'finp', 1), (DOTP, 'dotp', 1)]:
        for m in (1, 2, 3, 4, 5) if ls < 100 else (1, 2, 3, 4):
            for sg in (80, 150): js.append(J('noise_%s%s_%d_sg%d' % (nm, ls if fn == LST else '', m, sg), 'rm1', fn=fn, m=m, lsiz=ls, np=10, sg=sg, cover=EC))
        for st in (3, 40, 2000): js.append(J('strong%d_%s%s' % (st, nm, ls if fn == LST else ''), 'rm1', fn=fn, m=3, lsiz=ls, np=2, strong=st, cover=EC)) if fn != DOTP or st < 40 else None
        js.append(J('oom_%s%s' % (nm, ls if fn == LST else ''), 'rm1', fn=fn, m=3, lsiz=ls, oom=1))
        js += [J('any_%s%s_%d' % (nm, ls if fn == LST else '', m), 'rm1', fn=fn, m=m, lsiz=ls, noise=0, j=4, cover=EC, time=80) for m in (1, 2)]
    js += [J('lst_big', 'rm1', fn=LST, m=3, lsiz=100000, np=4, sg=130, cover=EC), T('t_any_sh_3', 'rm1', fn=SH, m=3, noise=0, j=8, cover=EC, time=900), T('t_any_lst2_3', 'rm1', fn=LST, lsiz=2, m=3, noise=0, j=8, cover=EC, time=900)]
    return js

def jobs(pid, tier):
    js = globals()[pid]()
    return [j for j in js if tier == 'thorough' or j['tier'] == 'quick']

COMMON = ['Bounds are those listed per job under coverage.jobs[].bounds (code parameters, list sizes, histories); other sizes are outside the claim.',
          'The bitcode is clang 18 -O1 without its optimisation passes plus sroa/early-cse/simplifycfg, FP contraction off; the trusted base is the LLVM front end, engine/ and z3.',
          'libc is modelled by lib/libc_model.c and engine/models.inc; allocation does not fail unless a job says so.']
EXTRA = {
    'real': 'Received samples that are symbolic reals are treated as exact reals; clipping and rounding are outside the claim, and comparisons closer than the stated margin are assumed away.',
    'mag': 'Sample magnitudes are concrete patterns (equal, ramps, random, weak, strong, up to 1e300); the message or the signs are symbolic.',
    'noise': 'Noise vectors are concrete pseudo-random draws (VERIF_SEED does not change them), the transmitted codeword is symbolic; exact metric ties are outside the claim.',
    'sim': 'The codec is a stand-in whose wrong bits and erasures are symbolic (concrete after the number of trials named by force); clock readings and operator commands are symbolic choices; the files are those of the modelled file system.',
    'draws': 'Random numbers are symbolic choices from a table of up to 8 values (ends, middle, accepted and rejected points) for the first rmax draws and concrete afterwards; log, sqrt and pow are evaluated concretely.',
    'main': 'The simulation behind the program is a stand-in with symbolic return codes; time passes (symbolically, up to 4095 s per return) only while it runs; saving takes no time. The Windows keyboard and priority code is outside the claim.',
    'load': 'Counters in the loaded file are symbolic over 0..2^31-2; the dimension is one of the listed values; the MEX interface is a stand-in, and err_msg returns.',
    'fmt': 'Every double operation is a real operation with an unknown relative error of at most 2^-53; tanh, log and exp are within 2 ulp of the real function and keep its order. Samples: every |y| from 1e-300 to 1e300, and 0, +-DBL_MIN, +-DBL_MAX and the points around the saturation of tanh; signed zeros are not told apart. The LLR identity covers |y| <= 18, in absolute terms up to 2e-6.',
    'fault': 'Exactly one allocation per call fails, which one is a symbolic choice over more allocations than the call makes; in the other jobs of the check the encoder stand-in fails from a symbolically chosen call on.',
    'rm1': 'Likelihoods are compared as sums of log-likelihood ratios, whose absolute sum stays below 17 (beyond that the reliabilities are clipped), except in the jobs on strong samples, which have the right sign and fix the first word only.',
    'cnt': 'Counters of the current point are symbolic over the int range, with sums within int.',
}
KINDS = {'C33': ['rm1', 'real', 'noise'], 'C32': ['fault', 'noise'], 'C30': ['noise', 'real'], 'C31': ['noise', 'real'], 'C17': ['fmt'], 'C24': ['sim'], 'C26': ['load'], 'C29': ['main'], 'C18': ['sim', 'cnt'], 'C19': ['sim', 'cnt'], 'C20': ['sim'], 'C21': ['sim', 'cnt'], 'C23': ['sim', 'draws'], 'C25': ['sim', 'cnt'], 'C05': ['mag'], 'C06': ['mag'], 'C07': ['mag'], 'C08': ['mag'], 'C09': ['noise'], 'C10': ['real'], 'C11': ['real', 'noise'], 'C12': ['real', 'noise'], 'C13': ['real', 'noise'], 'C14': ['noise'], 'C15': ['mag'], 'C27': ['noise'], 'C28': ['mag']}
def assumptions(pid):
    return COMMON + [EXTRA[k] for k in KINDS.get(pid, [])]
def note(pid):
    return ('Bounded: every value of the symbolic inputs is decided by the solver within the sizes listed in the evidence; nothing is claimed outside them. Counterexamples are replayed on the natively compiled code before they are reported. '
            + ' '.join(EXTRA[k] for k in KINDS.get(pid, [])) + ' Trusts clang, the symbolic executor in engine/, z3 and the libc model.').replace('  ', ' ')
