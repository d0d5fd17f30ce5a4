"""Which harnesses decide which property."""
from .units import Unit

MAGMA = ['magma_common.cpp']


def split(h, name=None, lo=0, hi=0, hooks=True, opts=None, name2=None, lo2=0, hi2=0):
    if name is None:
        return [Unit(h, {}, hooks, opts)]
    if name2 is None:
        return [Unit(h, {name: v}, hooks, opts) for v in range(lo, hi + 1)]
    return [Unit(h, {name: v, name2: w}, hooks, opts) for v in range(lo, hi + 1) for w in range(lo2, hi2 + 1)]


# harness -> how it is divided into units
SPLIT = {
    'h_C09_write': ('pending', 0, 7), 'h_C11_write': ('pending', 0, 7),
    'h_C09_chain': ('first', 0, 9), 'h_C11_chain': ('first', 0, 9),
    'h_C10_read': ('pending', 0, 7), 'h_C12_read': ('pending', 0, 7),
    'h_C10_chain': ('first', 0, 9, 'rest', 0, 7), 'h_C12_chain': ('first', 0, 9, 'rest', 0, 7),
}


def us(hs, hooks=True, opts0=None):
    out = []
    for h in hs:
        s = SPLIT.get(h)
        opts = dict(OPTS.get(h, {}), **(opts0 or {}))
        if s is None:
            out.append(Unit(h, {}, hooks, opts))
        elif len(s) == 3:
            out.extend(split(h, *s, hooks=hooks, opts=opts))
        else:
            out.extend(split(h, s[0], s[1], s[2], hooks, opts, s[3], s[4], s[5]))
    return out


SPLIT.update({
    'h_C05_mdigit': ('p', 0, 63), 'h_C05_kdigit': ('p', 0, 63),
    'h_C18_mstring': ('n', 0, 16), 'h_C18_kstring': ('n', 0, 32),
    'h_C13_rest': ('rest', 1, 7), 'h_C13_again': ('rest', 0, 1), 'h_C15_short': ('n', 0, 15), 'h_C15_long': ('rest', 0, 7),
    'h_C14_mac': ('size', 1, 16),
})

U = {'h_U_' + k: v for k, v in {
    'mcfbw': ('pending', 0, 7), 'gcfbw': ('pending', 0, 7), 'mcfbf': ('pending', 0, 7), 'gcfbf': ('pending', 0, 7),
    'ecbp': ('r', 1, 7), 'mcfbr': ('pending', 0, 7), 'gcfbr': ('pending', 0, 7), 'mcfbt': ('rest', 1, 7), 'gcfbt': ('rest', 1, 7),
    'mmac': ('rest', 0, 7), 'gmac': ('rest', 0, 7), 'gmacs': ('n', 0, 15), 'mstring': ('n', 0, 16), 'kstring': ('n', 0, 32),
    'mtext': ('i', 0, 7),
}.items()}
SPLIT.update(U)

# loops over a fixed number of digits are unrolled
OPTS = {h: {'kmin': 70, 'maxvisits': 100} for h in ('h_C05_mdigit', 'h_C05_kdigit', 'h_C05_mvalid', 'h_C05_kvalid', 'h_C05_mkey',
                                                   'h_C05_mindex', 'h_C01_text', 'h_C18_mstring', 'h_C18_kstring',
                                                   'h_U_mtext', 'h_U_ktext')}


BLOCK = ['h_C02_block', 'h_C02_word']
COMMON = ['magma_common.cpp', 'strings.cpp']


def cfb(p, gost, dec):
    f = ['cfb.cpp', 'magma.cpp'] + COMMON
    pre = 'h_%s_' % p
    st = [pre + x for x in (('init', 'read', 'tail') if dec else ('init', 'write', 'final'))]
    return {
        'attempts': [
            {'name': 'state induction against the contract of block encryption', 'files': f, 'contract': st, 'callees': BLOCK, 'behaviour': False},
            {'name': 'state induction with callee bodies', 'files': f, 'bodies': st, 'behaviour': False},
            {'name': 'three operations in a row against the contract of block encryption', 'files': f, 'defs': ['-DVC_CHAIN_ONLY'],
             'contract': [pre + 'chain'], 'callees': BLOCK, 'behaviour': True, 'limited': 'messages written or read in at most three operations'},
        ],
        'native': [pre + 'chain', pre + 'ops'],
        'native_of': {x: None for x in st},
        'native_files': [(f, ('-DVC_CHAIN_ONLY',))],
    }


def plain(hs, files, **kw):
    d = {'attempts': [{'name': 'function contracts', 'files': files, 'bodies': hs, 'behaviour': True}],
         'native': hs, 'native_files': [(files, ())]}
    d.update(kw)
    return d


MF = ['magma.cpp'] + COMMON
AF = ['mac.cpp', 'magma.cpp'] + COMMON
EF = ['ecb.cpp', 'magma.cpp'] + COMMON
KF = ['kuz.cpp', 'kuzmode.cpp', 'keys.cpp', 'kuz_common.cpp'] + COMMON
KBLOCK = {'contract': ['h_C01_E'], 'bodies': ['h_C01_L', 'h_C01_S']}


def mode(p, hs, bodies=(), callees=True):
    a = {'name': 'function contracts, block encryption by its contract', 'files': KF, 'contractB': hs, 'bodies': list(bodies), 'behaviour': True}
    b = {'name': 'contracts of block encryption', 'files': KF, 'contract': ['h_C01_E'], 'bodies': ['h_C01_L', 'h_C01_S'], 'behaviour': True}
    d = {'attempts': [a], 'native': hs, 'native_files': [(KF, ())]}
    if callees:
        a['contract'] = b['contract']
        a['bodies'] = a['bodies'] + b['bodies']
    return d

CHECKS = {
    'C02': plain(['h_C02_block', 'h_C02_word', 'h_C02_lazy', 'h_C02_native', 'h_C02_whole'], MF),
    'C03': plain(['h_C03_value', 'h_C03_inverse', 'h_C03_lemma'], MF),
    'C04': plain(['h_C04_standard', 'h_C04_default', 'h_C04_nibble', 'h_C04_byte', 'h_C04_column', 'h_C04_twisted'], MF),
    'C01': {'attempts': [{'name': 'function contracts', 'files': KF, 'contract': ['h_C01_E', 'h_C01_text'], 'bodies': ['h_C01_L', 'h_C01_S', 'h_C05_kvalid'], 'behaviour': True}],
            'native': ['h_C01_E', 'h_C01_text', 'h_C01_L', 'h_C01_S'], 'native_files': [(KF, ())]},
    'C05': plain(['h_C05_mvalid', 'h_C05_mkey', 'h_C05_mlength', 'h_C05_mindex', 'h_C05_kvalid', 'h_C05_klength', 'h_C05_mdigit', 'h_C05_kdigit'], KF),
    'C06': plain(['h_C06_key', 'h_C06_keyfail', 'h_C06_keyrange', 'h_C06_block', 'h_C06_blockfail'], MF + ['kuz.cpp', 'kuz_common.cpp']),
    'C07': {'attempts': [
        {'name': 'state induction against the contract of block encryption', 'files': EF, 'contract': ['h_C07_write', 'h_C07_same', 'h_C07_partial'], 'callees': BLOCK, 'behaviour': True},
        {'name': 'two writes in a row', 'files': EF, 'contract': ['h_C07_two', 'h_C07_partial'], 'callees': BLOCK, 'behaviour': True, 'limited': 'messages written in at most two operations'}],
        'native': ['h_C07_write', 'h_C07_partial', 'h_C07_two'], 'native_files': [(EF, ())]},
    'C08': {'attempts': [
        {'name': 'state induction against the contract of block decryption', 'files': EF, 'contract': ['h_C08_read', 'h_C08_same', 'h_C08_end', 'h_C08_short', 'h_C08_container'], 'callees': ['h_C03_value'], 'behaviour': True}],
        'native': ['h_C08_read', 'h_C08_end', 'h_C08_short', 'h_C08_container'], 'native_files': [(EF, ())]},
    'C13': {'attempts': [
        {'name': 'chain induction against the contract of block encryption', 'files': AF, 'contract': ['h_C13_whole', 'h_C13_rest', 'h_C13_empty', 'h_C13_again'], 'callees': BLOCK + ['h_C02_lazy'], 'behaviour': True}],
        'native': ['h_C13_whole', 'h_C13_rest', 'h_C13_empty', 'h_C13_again'], 'native_files': [(AF, ())]},
    'C15': {'attempts': [
        {'name': 'chain induction against the contract of the 16-round transformation', 'files': AF, 'contract': ['h_C15_short', 'h_C15_long'], 'callees': ['h_C15_block'], 'behaviour': True}],
        'native': ['h_C15_short', 'h_C15_long', 'h_C15_block'], 'native_files': [(AF, ())]},
    'C14': mode('C14', ['h_C14_mac', 'h_C14_again', 'h_C14_empty']),
    'C16': mode('C16', ['h_C16_ctr', 'h_C16_jump', 'h_C16_twice'], ['h_C18_kinc']),
    'C17': plain(['h_C17_iterate', 'h_C17_jump', 'h_C17_odd'], KF),
    'C18': plain(['h_C18_mxor', 'h_C18_mshift', 'h_C18_mswap', 'h_C18_mraw', 'h_C18_mstring', 'h_C18_kxor', 'h_C18_kshift', 'h_C18_kinc', 'h_C18_kraw', 'h_C18_kstring'], MF + KF[:-2]),
    'C09': cfb('C09', False, False),
    'C10': cfb('C10', False, True),
    'C11': cfb('C11', True, False),
    'C12': cfb('C12', True, True),
}


# one harness per operation, without values
UF = ['use.cpp', 'kuz_common.cpp'] + COMMON
U1 = ['h_U_' + x for x in 'mcfbw gcfbw mcfbf gcfbf ecbw ecbp ecbf mcfbr gcfbr mcfbt gcfbt ecbr mmac gmac gmacs kkey'.split()]
ULOOP = ['h_U_' + x for x in 'mcfbm gcfbm mcfbm8 gcfbm8 ecbm mcfbn gcfbn mcfbn8 gcfbn8 ecbn'.split()]
UB = ['h_U_' + x for x in 'kmac kmac0 ctr ctrn mem memr memodd'.split()]
U0 = ['h_U_' + x for x in 'ecbc mblocks mraw kblocks keys imited mstring kstring ktext mtext'.split()]

USED = ['h_C19_' + x for x in 'mcfb_sink gcfb_sink ecb_sink mcfb_source gcfb_source ecb_source ctr ctrk memory macs kuz keys tables'.split()]


def using(name, kinds, hs, **kw):
    d = {'attempts': [{'name': name, 'files': UF, 'contract': [h for h in hs if h in U1 + ULOOP], 'contractB': [h for h in hs if h in UB],
                       'bodies': [h for h in hs if h in U0], 'behaviour': False}],
         'kinds': kinds, 'native': hs, 'native_files': [(UF, ())]}
    d.update(kw)
    return d


CHECKS['C19'] = using('frame of every operation', ('frame', 'post', 'safety'), U1 + UB + U0, native=USED, native_files=[(UF + ['again.cpp'], ())])
CHECKS['C20'] = using('no invalid access or arithmetic in any operation', ('safety', 'post'), U1 + ULOOP + UB + U0)
CHECKS['C21'] = using('bounded calls and objects in every operation', ('depth', 'post', 'safety'), [h for h in U1 if h not in ('h_U_gmacs', 'h_U_ecbp', 'h_U_ecbf')] + ULOOP + UB)

# threads: everything an operation accesses and does not own
SF = ['share.cpp', 'kuz_common.cpp'] + COMMON
SPLIT['h_C22_subkeys'] = ('i', 0, 7, 'j', 0, 7)
SPLIT['h_C22_magma'] = ('operation', 0, 3)
THREADS = ['h_C22_threads_caches', 'h_C22_threads_magma', 'h_C22_threads_kuz']
SHARED = {'files': UF, 'defs': ['-DVC_SHARE'], 'opts': {'threads': 1}, 'behaviour': False}
CHECKS['C22'] = {
    'attempts': [
        dict(SHARED, name='locks of the operations on a shared key', extra=True, contract=U1, contractB=UB, bodies=U0),
        {'name': 'locks and values of shared keys', 'files': SF, 'opts': {'threads': 1}, 'behaviour': True,
         'contract': ['h_C22_subkeys', 'h_C22_block', 'h_C22_kuz'], 'bodies': ['h_C22_magma']}],
    'kinds': ('race', 'post', 'safety'), 'native': THREADS, 'native_files': [(SF, ('-DVC_TSAN',))], 'san': 'thread',
    'technique': 'contract-based deductive verification: ownership contract (what threads share is only accessed under a common lock or atomically) and value contracts of the caches at every point where a lock is released, proved on the compiled code of /repo; ThreadSanitizer runs of the real code only to confirm a violation'}

# runs with long messages in the search for a failing input
for p, l in {
    'C07': [('h_C07_write', {'blocks': 70001}), ('h_C07_two', {'blocks': 70001})],
    'C09': [('h_C09_chain', {'blocks': 70001})], 'C10': [('h_C10_chain', {'blocks': 70001}), ('h_C10_chain', {'blocks': 70001, 'second': 300005})],
    'C11': [('h_C11_chain', {'blocks': 70001})], 'C12': [('h_C12_chain', {'blocks': 70001}), ('h_C12_chain', {'blocks': 70001, 'second': 300005})],
    'C08': [('h_C08_read', {'size': 300005})],
    'C13': [('h_C13_whole', {'blocks': 70001})], 'C15': [('h_C15_long', {'blocks': 70001})],
    'C14': [('h_C14_mac', {'blocks': 1500})],
    'C16': [('h_C16_jump', {'at': 70001}), ('h_C16_ctr', {'blocks': 1000})],
    'C21': [('h_U_' + h, d) for h, d in [
        ('mcfbw', {'n': 300005}), ('gcfbw', {'n': 300005}), ('ecbw', {'n': 40001}),
        ('mcfbr', {'blocks': 40001, 'size': 300005}), ('gcfbr', {'blocks': 40001, 'size': 300005}), ('ecbr', {'len': 320008, 'size': 320008}),
        ('mcfbm', {'writes': 40001}), ('gcfbm', {'writes': 40001}), ('ecbm', {'writes': 30001}), ('mcfbm8', {'writes': 30001}), ('gcfbm8', {'writes': 30001}),
        ('mcfbn', {'reads': 40001}), ('gcfbn', {'reads': 40001}), ('ecbn', {'reads': 40001}), ('mcfbn8', {'reads': 30001}), ('gcfbn8', {'reads': 30001}),
        ('mmac', {'blocks': 40001}), ('gmac', {'blocks': 40001}), ('kmac', {'blocks': 40001}), ('ctr', {'blocks': 20000}), ('ctrn', {'blocks': 40001}),
        ('mem', {'blocks': 40001}), ('memr', {'blocks': 40001})]],
    'C17': [('h_C17_iterate', {'blocks': 70001}), ('h_C17_jump', {'at': 70001}), ('h_C17_odd', {'blocks': 70001})],
}.items():
    CHECKS[p]['long'] = l


def attempts(cfg, tier):
    out = []
    for a in cfg['attempts']:
        if a.get('tier', tier) != tier:
            continue
        d = dict(a)
        d['units'] = us(a.get('contract', []), True, a.get('opts')) + us(a.get('contractB', []), 'B', a.get('opts')) + us(a.get('bodies', []), False, a.get('opts')) \
            + us(a.get('callees', []), False, a.get('opts'))
        out.append(d)
    return out


def native_sets(cfg):
    return cfg['native_files']
