"""The parts of every check."""
import os

from vf import Part, IPT

PKT = ['pt_config', 'pt_packet', 'pt_packet_decoder', 'pt_sync', 'pt_cpu']

HERE = os.path.dirname(os.path.abspath(__file__))

CHECKS = {}

CHECKS['C01'] = [
    Part('next', 'pkt', defs={'ERRATA': 1, 'N': 20}, unwind=22,
         loops={'pt_pkt_.*': 66},
         what='pt_pkt_next from any position of a 20-byte buffer, all errata, '
              'any unknown-packet callback result',
         bounds='20 trace bytes (largest packet: 16), one packet'),
]
CHECKS['C02'] = [
    Part('spec', 'pkt', defs={'SPEC': 1, 'N': 17}, unwind=66, mem=False,
         what='pt_pkt_next against the packet formats',
         bounds='17 trace bytes, every position, one packet'),
]
CHECKS['C03'] = [
    Part('roundtrip', 'enc', defs={'N': 19, 'POS': 1, 'DECODE': 1}, unwind=20,
         loops={'pt_pkt_.*': 66}, mem=False,
         what='pt_enc_next of any packet, decoded again',
         bounds='one packet of any type and payload at a fixed position with '
                'room for the largest packet'),
    Part('space', 'enc', defs={'N': 18}, unwind=20, mem=True,
         what='pt_enc_next of any packet at any position: writes, position '
              'and errors',
         bounds='18-byte buffer, one packet of any type and payload'),
]

_SY = ['pt_config', 'pt_packet', 'pt_packet_decoder', 'pt_sync', 'pt_cpu']


def _sync(name, mode, what, n, extra=None, thorough=None, tiers=None):
    d = {mode: 1, 'N': n}
    d.update(extra or {})
    lp = {'harness|reference|first.*|last.*': 80, 'pt_find_psb': n // 2 + 1,
          'pt_pkt_.*': 18, 'pt_sync_.*': n // 8 + 2}
    return Part(
        name, 'sync', defs=d, ipt=_SY, mem=False, unwind=18, loops=lp,
        # (keeps CBMC's points-to analysis precise for align(p, sizeof(..)))
        fdefs={'pt_sync': {'sizeof(x)': '(sizeof(x)+0ul)'}}, what=what,
        weight=n, timeout=600, tiers=tiers or ('quick', 'thorough'),
        bounds='buffer of up to %d bytes, each 00, 02, 80 or 82; every '
        'content%s and position' % (
            n, '' if extra else ', size, alignment'))


CHECKS['C04'] = [
    _sync('forward', 'FORWARD', 'pt_sync_forward', 20),
    _sync('backward', 'BACKWARD', 'pt_sync_backward', 20),
    _sync('pktforward', 'PKTFWD',
          'pt_pkt_sync_forward from every decoder position', 20),
    _sync('pktbackward', 'PKTBWD',
          'pt_pkt_sync_backward from every decoder position', 20),
    _sync('set', 'SET', 'pt_pkt_sync_set, pt_sync_set, offsets', 40),
    _sync('twobackward', 'BACKWARD', 'pt_sync_backward, two PSB', 33,
          {'OFF': 0, 'SIZE': 33}),
] + [
    _sync('two%s%d' % (m.lower(), off), m, m.lower() + ', two PSB', 34,
          {'OFF': off, 'SIZE': 34}, tiers=('thorough',))
    for m in ('FORWARD', 'PKTFWD', 'PKTBWD', 'BACKWARD') for off in (1, 3, 6)
]

CHECKS['C05'] = [
    Part('step', 'lastip', defs={'STEPS': 2}, ipt=['pt_last_ip'], unwind=66,
         what='pt_last_ip_update_ip/query against a bit-level reference',
         bounds='arbitrary previous state, two packets'),
]
CHECKS['C06'] = [
    Part('tnt', 'branch', defs={'TNT': 1}, ipt=['pt_tnt_cache'], unwind=66,
         what='indicator cache: one operation from an arbitrary state',
         bounds='inductive step; payload size below 64'),
    Part('retstack', 'branch', defs={'RETSTACK': 1}, ipt=['pt_retstack'],
         unwind=66, fs=70,
         what='return stack: one operation from an arbitrary state',
         bounds='inductive step over all fill levels and wrap-arounds'),
]


def _evq(name, tiers=('quick', 'thorough'), timeout=600, **d):
    return Part(name, 'evq', ipt=['pt_event_queue'], unwind=18, mem=False,
                defs=d, tiers=tiers, timeout=timeout,
                what='empty, pending, peek, find' if 'LOOK' in d else
                'enqueue, dequeue, requeue, clear, standalone',
                bounds='inductive step (one operation, compared with a list) '
                'from begin index %d, %d to %d queued events with symbolic '
                'fields' % (d['BEGIN'], d['NMIN'], d['NMAX']))


_T = ('thorough',)
CHECKS['C07'] = [
    _evq('small0', BEGIN=0, NMIN=0, NMAX=3),
    _evq('small14', BEGIN=14, NMIN=0, NMAX=4),
    _evq('full9', BEGIN=9, NMIN=13, NMAX=13, FSTEP=6),
    _evq('full3', BEGIN=3, NMIN=14, NMAX=14, FSTEP=13),
    _evq('full0', BEGIN=0, NMIN=14, NMAX=14, FSTEP=14),
    _evq('look9', BEGIN=9, NMIN=0, NMAX=14, LOOK=1),
    _evq('look0', BEGIN=0, NMIN=0, NMAX=14, LOOK=1),
] + [
    _evq('step%d.%d' % (b, n), tiers=_T, BEGIN=b, NMIN=n, NMAX=n)
    for b in range(16) for n in range(15)
]



def _time(r, freq, fcrs, tiers=('quick', 'thorough')):
    return Part(
        'time%d.%d' % (r, freq), 'time', tiers=tiers,
        defs={'TIME': 1, 'RATIO': r, 'FREQ': freq, 'FCRS': fcrs},
        ipt=['pt_time'], unwind=8, mem=False, flags=['--object-bits', '10'],
        weight=2,
        what='pt_time_update_*: any packet in any state against a model of the '
             'estimation; afterwards the state and what the queries return',
        bounds='inductive step over 64-bit states; CPUID 15H ratio %d of 5, MTC '
               'frequency %d, calibration ratios %s' % (r, freq, fcrs))


def _cal(r, freq, cycs, first, last, tiers=('quick', 'thorough')):
    return Part(
        'cal%d.%d.%d' % (first, r, freq), 'time', tiers=tiers,
        defs={'CAL': 1, 'FCRBITS': 10, 'RATIO': r, 'FREQ': freq, 'CYCS': cycs,
              'OP_FIRST': first, 'OP_LAST': last},
        ipt=['pt_time'], unwind=12, mem=False, flags=['--object-bits', '10'],
        what='pt_tcal_*: any update in any state against a model',
        bounds='inductive step; accumulated cycle counts %s, ratios below 1024, '
               'CPUID 15H ratio %d of 5, MTC frequency %d' % (cycs, r, freq))


CHECKS['C08'] = [
    _time(0, 3, '0,384'), _time(1, 3, '384'), _time(2, 3, '0,384'),
    _time(3, 3, '384'), _time(4, 3, '384'), _time(2, 12, '0,21504'),
    _time(2, 15, '256'),
    _cal(0, 3, '0,3,4096', 0, 0), _cal(0, 3, '0,3,64', 1, 1),
    _cal(2, 9, '5,4095', 1, 1), _cal(2, 10, '5', 1, 1), _cal(1, 3, '5', 1, 1),
    _cal(3, 3, '5', 1, 1), _cal(0, 3, '5', 2, 11),
] + [
    _time(r, f, '0,1,256,384,21504', ('thorough',))
    for r in (0, 2, 4) for f in (0, 7, 8, 9, 14)
] + [
    _cal(r, f, '1,7,500,65535', o, o, ('thorough',))
    for r in (0, 2, 4) for f in (0, 8, 14) for o in (0, 1)
]

CHECKS['C09'] = [
    Part('config', 'config', defs={'CONFIG': 1, 'SIZES': '0,23,24,40,44,48,'
         '112,120,121,122,124,144,152,280,304'},
         ipt=['pt_config', 'pt_cpu'], unwind=20, mem=False,
         flags=['--object-bits', '10'],
         what='pt_config_from_user: user configurations of many sizes',
         bounds='15 sizes (field boundaries) up to beyond the structure; every '
                'content of the public fields'),
    Part('configmem', 'config', defs={'CONFIG': 1, 'EXACT': 1, 'SIZES':
         '0,8,16,23,24,25,100,279,280,281,400'},
         ipt=['pt_config', 'pt_cpu'], unwind=20,
         flags=['--object-bits', '10'],
         what='pt_config_from_user: accesses',
         bounds='11 sizes up to beyond the structure'),
    Part('filter', 'config', defs={'FILTER': 1}, smt=True,
         ipt=['pt_config', 'pt_cpu'],
         unwind=17, what='pt_filter_addr_*: every filter, every address',
         bounds='complete (four filters)'),
    Part('errata', 'config', defs={'ERRATA': 1}, ipt=['pt_config', 'pt_cpu'],
         unwind=70, what='pt_cpu_errata for every cpu',
         bounds='complete'),
]
CHECKS['C10'] = [
    Part('asid', 'config', defs={'ASID': 1}, ipt=['pt_asid'], unwind=50,
         what='pt_asid_match/from_user/to_user',
         bounds='complete values; user sizes 0 to 40'),
]

PEV = ['pevent/src/pevent.c']
_PT = {'MMAP': 1, 'LOST': 2, 'COMM': 3, 'EXIT': 4, 'THROTTLE': 5,
       'UNTHROTTLE': 6, 'FORK': 7, 'SAMPLE': 9, 'MMAP2': 10, 'AUX': 11,
       'ITRACE_START': 12, 'LOST_SAMPLES': 13, 'SWITCH': 14,
       'SWITCH_CPU_WIDE': 15}

_FX = {1: 32, 10: 64}
_PN = {t: n.lower() for n, t in _PT.items()}
_PN[77] = 'unknown'


def _pread(t, n, tiers=('quick', 'thorough')):
    d = {'READ': 1, 'TYPE': t, 'N': n}
    if t in (9, 77):
        d['UNKNOWN'] = 1
    return Part('read%d-%s' % (n, _PN[t]), 'pev', defs=d, ipt=[], extra=PEV,
                unwind=n + 2, timeout=400, tiers=tiers,
                what='pev_read of arbitrary bytes, record type ' + _PN[t],
                bounds='buffers of up to %d bytes, all header sizes and sample '
                'types, one time scale' % n)


def _pwrite(name, types, combos, slen, mismatch=None,
            tiers=('quick', 'thorough')):
    d = {'WRITE': 1, 'TYPES': ','.join(map(str, types)), 'SLEN': slen,
         'COMBOS': ','.join(map(str, combos))}
    if mismatch:
        d['MISMATCH'] = mismatch
    return Part('write-' + name, 'pev', defs=d, ipt=[], extra=PEV, unwind=155,
                mem=False, timeout=400, tiers=tiers,
                fs=200, flags=['--object-bits', '12'],
                what='pev_write, then pev_read: the same record; a buffer one '
                'byte too small%s' % ('; another sample type configured'
                                      if mismatch else ''),
                bounds='record types %s, sample sets %s, strings of %d '
                'characters, all field values' % (
                    ', '.join(_PN[t] for t in types), combos, slen))


_WT = [1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15]
CHECKS['C25'] = [
    _pread(t, 72 if t == 1 else 96 if t == 10 else 60)
    for t in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 77)
] + [
    Part('ident%d' % n, 'pev', defs={'IDENTS': 1, 'SLOTS': n}, ipt=[],
         extra=PEV, unwind=20,
         what='pev_read with per-identifier sample types',
         bounds='two sample types, any identifiers, %d sample fields' % n)
    for n in (1, 2, 3)
] + [
    _pwrite('mmap', [1, 3], [0, 63, 34], 7),
    _pwrite('mmap2', [10], [63, 5], 9),
    _pwrite('fixed', [2, 4, 5], [63, 18], 0),
    _pwrite('fixed2', [6, 7, 11, 12], [63, 9], 0),
    _pwrite('fixed3', [13, 14, 15], [63, 33, 16], 0),
]
CHECKS['C26'] = [
    Part(n, 'pev', smt=n == 'to', defs=dict({'TIME': 1, 'MULTS': '1,2,65536,0x80000000',
                              'SHIFTS': '0,1,10,31,32'}, **d),
         ipt=[], extra=PEV, unwind=10, mem=False, what=w,
         bounds='any 64-bit value whose result fits; multipliers 1, 2, 2^16, '
         '2^31, shifts 0, 1, 10, 31, 32')
    for n, d, w in (('to', {'TO': 1}, 'pev_time_to_tsc is the exact quotient'),
                    ('from', {}, 'pev_time_from_tsc is the exact product'))
] + [
    Part('narrow', 'pev', defs={'TIME': 1, 'NARROW': 5},
         thorough={'defs': {'NARROW': 6}, 'timeout': 1500}, ipt=[], extra=PEV,
         unwind=10, mem=False,
         what='both directions: exact, inverse within the rounding, monotonic',
         bounds='every multiplier and value below 32 (64), shift below 8, any '
         'time offset'),
    Part('config', 'pev', defs={'CONFIG': 1}, ipt=[], extra=PEV,
         unwind=10, mem=False,
         what='unusable parameters are refused, nothing undefined',
         bounds='every time, shift and size; multipliers 0 to 3'),
]
CHECKS['C27'] = [
    Part('load', 'sbfile', ipt=[], extra=['sideband/src/pt_sb_file.c'],
         fdefs={'pt_sb_file': {f: 'vf_' + f for f in (
             'fopen', 'fclose', 'fseek', 'ftell', 'fread', 'malloc', 'calloc', 'free')}},
         unwind=8, stubs=['stdio and malloc are modelled: any call may fail'],
         what='pt_sb_file_load: every range, every failure of a file operation '
         'or allocation', bounds='files of up to 6 bytes; any begin and end'),
]


def _img(name, ops, nsec=2, win=6, tiers=('quick', 'thorough'), timeout=200,
         **d):
    d.update({'OPS': '"%s"' % ops, 'NSEC': nsec, 'WIN': win})
    return Part(name, 'image', defs=d, ipt=['pt_image', 'pt_asid'] +
                ['pt_msec_cache'] * ('MSEC' in d),
                without=[], unwind=max(win, 7) + 1, mem='FAULTS' in d,
                fdefs={'pt_image': {'malloc': 'vf_malloc',
                                   'calloc': 'vf_calloc'}}, tiers=tiers,
                timeout=timeout, loops={'pt_section_list.*|pt_image.*': 2 * nsec},
                what='sequence %s (A add, n/s/x remove by name, address space, '
                'section, C copy, r/c/R read, f find and validate), every '
                'argument' % ops if 'MSEC' not in d else 'sequence %s (A add, '
                'q look up through the cache, w switch address space, n/s '
                'remove, C copy, Q look up in the copy), every argument' % ops,
                bounds='%d sections within %d bytes, address spaces none, 1, 2'
                % (nsec, win),
                stubs=['section layer: symbolic contents, counted references'])


CHECKS['C18'] = [
    _img('read', 'AAr'),
    _img('callback', 'AAc'),
    _img('copy', 'AACR', SAMEASID=1),
    _img('find', 'AAf'),
    _img('byname', 'AAnr'),
    _img('byasid', 'AAsr'),
    _img('remove', 'AAxr'),
    _img('faults', 'AAr', win=5, SAMEASID=1, FAULTS=1),
    _img('top', 'AAr', win=5, SAMEASID=1, BASE='0xfffffffffffffff0ull'),
    _img('nested', 'AAAr', 3, 6, SAMEASID=1, NESTED=1),
    _img('three', 'AAAr', 3, 5, ('thorough',)),
    _img('three-copy', 'AAACR', 3, 5, ('thorough',), 2000, SAMEASID=1,
         NESTED=1),
    _img('mixed', 'AxAnAr', 3, 4, ('thorough',), SAMEASID=1),
    _img('vmcs', 'AAr', 2, 4, ('thorough',), VMCS=1),
    _img('vmcs-remove', 'AAsr', 2, 4, ('thorough',), VMCS=1),
]

_SECREN = {f: 'vf_' + f for f in (
    'stat', 'fstat', 'open', 'close', 'mmap', 'munmap', 'sysconf', 'fdopen',
    'fclose', 'fseek', 'ftell', 'fread', 'malloc', 'calloc', 'free', 'mtx_init',
    'mtx_lock', 'mtx_unlock', 'mtx_destroy', 'strnlen')}


def _sec(name, what, **d):
    return Part(name, 'section', defs=d, threads=True,
                ipt=['pt_section', 'posix/pt_section_posix',
                     'pt_section_file'],
                fdefs={f: _SECREN for f in (
                    'pt_section', 'pt_section_posix', 'pt_section_file')},
                unwind=10, what=what,
                stubs=['system calls, stdio, malloc, locks, block and section '
                       'cache: modelled, any may fail'],
                bounds='files of up to 8 bytes, page size 1 or 2, any counts, '
                'offsets and sizes')


CHECKS['C19'] = [
    _sec('create', 'pt_mk_section, any failure', CREATE=1),
    _sec('step', 'one operation from any state (inductive step)'),
]


def _isc(name, ops, tiers=('quick', 'thorough'), **d):
    d.update({'OPS': '"%s"' % ops})
    return Part(name, 'iscache', defs=d, threads=True, tiers=tiers,
                ipt=['pt_image_section_cache'], unwind=6, mem=False,
                timeout=400 if 'quick' in tiers else 2500,
                fdefs={'pt_image_section_cache': {f: 'vf_' + f for f in (
                    'malloc', 'calloc', 'free', 'realloc', 'strdup', 'mtx_init',
                    'mtx_lock', 'mtx_unlock', 'mtx_destroy')}},
                what='sequence %s (A add file, l lookup, f find, m map, u '
                'unmap, z block cache, L limit, C clear, r read), every '
                'argument%s' % (ops, ', every failure'
                                if 'FAULTS' in d else ''),
                stubs=['sections: counted users, maps and attaches'],
                bounds='%d sections of two files' % d.get('NSEC', 3))


CHECKS['C20'] = [
    _isc('ids', 'AAlf', NSEC=2),
    _isc('clear', 'AmuCAl', NSEC=2),
    _isc('faults', 'Am', FAULTS=2, NSEC=1),
    _isc('faults2', 'AA', FAULTS=1, NSEC=2, ONEFILE=1),
    _isc('lru', 'AALmmL', NSEC=2),
    _isc('resize', 'LAmzL', NSEC=1),
    _isc('read', 'AAr', NSEC=2),
    _isc('ids3', 'AAAlf', ('thorough',)),
    _isc('faults3', 'AAmz', ('thorough',), FAULTS=4),
    _isc('lru3', 'AAALmmmL', ('thorough',)),
    _isc('resize2', 'AALmzmzL', ('thorough',), NSEC=2),
]


CHECKS['C21'] = [
    _img('same', 'AAqq', MSEC=1, win=5, SAMEASID=1),
    _img('change', 'AqAq', MSEC=1, win=5, SAMEASID=1),
    _img('switch', 'AAqwq', MSEC=1, win=4),
    _img('remove', 'AAqnq', MSEC=1, win=4),
    _img('copied', 'ACqQ', 1, MSEC=1, win=4),
    _img('faults', 'AqAq', MSEC=1, win=4, SAMEASID=1, FAULTS=1),
    _img('long', 'AAqAqwq', 3, 5, ('thorough',), 2000, MSEC=1, SAMEASID=1),
    _img('any', 'AAqwqsq', 2, 5, ('thorough',), 2000, MSEC=1),
]


def _toks():
    """The kinds of packets in harness/evt.h, in order."""
    txt = open(os.path.join(HERE, '..', 'harness', 'evt.h')).read()
    txt = txt[txt.index('enum tok {') + 10:]
    return [t.strip() for t in txt[:txt.index('}')].split(',') if t.strip()]


def _evt(name, what, pre='', t1='PAD', t2='PAD', tail='',
         header='FUP, EXEC,', tiers=('quick', 'thorough'), mem=False,
         cases=24, **d):
    """Sequences header, pre, one of t1, one of t2, tail.

    Split into parts of at most @cases sequences.
    """
    d['HEADER'] = header
    for k, v in (('PRE', pre), ('TAIL', tail)):
        if v:
            d[k] = v
    toks = _toks()
    sets = []
    for v in (t1, t2):
        if isinstance(v, tuple):
            v = toks[toks.index(v[0]):toks.index(v[1])]
        else:
            v = [t.strip() for t in v.split(',')]
        sets.append(v)
    s1, s2 = sets
    if 'SYNC' in d:
        split = [(s1, s2)]
    else:
        n2 = min(len(s2), cases)
        n1 = max(1, cases // n2)
        # even sizes
        n1 = -(-len(s1) // -(-len(s1) // n1))
        n2 = -(-len(s2) // -(-len(s2) // n2))
        split = [(s1[i:i + n1], s2[j:j + n2])
                 for i in range(0, len(s1), n1)
                 for j in range(0, len(s2), n2)]
    parts = []
    for n, (a, b) in enumerate(split):
        e = dict(d, T1SET=', '.join(a), T2SET=', '.join(b))
        if 'SYNC' in d:
            e = dict(d)
        parts.append(Part(
            name if len(split) == 1 else '%s-%d' % (name, n), 'evt', defs=e,
            mem=mem, tiers=tiers,
            ipt=['pt_event_decoder', 'pt_event_queue', 'pt_last_ip',
                 'pt_config'],
            unwind=90, maxunwind=130, flags=['--object-bits', '12'], fs=16,
            flat=('pt_packet', 'pt_packet_mode'),
            weight=60 if 'SYNC' in d else len(a) * len(b),
            timeout=300 if 'quick' in tiers else 3000, what=what,
            stubs=['packet decoder: one symbolic packet per byte',
                   'time and calibration: counters',
                   'the members of the union in struct pt_packet do not '
                   'overlap'],
            bounds='sequences of up to %d packets, kinds as stated, any '
            'payload' % d.get('MAXP', 10)))
    return parts


_EXECS = 'PAD, EXEC, EXEC1, EXECI'
_ANY = ('PAD', 'NTOK')
# one of each group of packets that are treated alike
_SOME = ('PAD, UNK, TNT8, TIP, TIP0, FUP, FUP0, PGE, PGD, TSC, CBR, EXEC1, '
         'TSX, PIP, VMCS, MNT, PSB, PSBEND, OVF, STOP, EXSI, MWT, PWRX, PTWI, '
         'C_INTR, C_UNK, I_INTR, I_UNK, E_CR2, TRIGI')


CHECKS['C13'] = [
    *_evt('skd010-fup', 'OVF, any packet, FUP, TIP with erratum SKD010',
          'OVF', _SOME, 'TSC', 'FUP, TIP', ERRATUM='skd010'),
    *_evt('skd010-psb', 'OVF, MODE.TSX or CBR, any packet, PSB+, with SKD010',
          'OVF, CBR', 'TSX', 'PAD, TNT8, FUP, PGE, PSB, OVF, PIP',
          'PSB, FUP, PSBEND', MAXP=11, ERRATUM='skd010'),
    *_evt('apl', 'OVF, any packet, TIP.PGD with APL11 and SKD010',
          'OVF', 'CYC', 'PAD, PGD, FUP, PSB, OVF', 'PGD, TSC',
          ERRATUM='apl11', ERRATUM2='skd010', KEEPTCAL=1),
    *_evt('apl11', 'OVF, any packet, TIP.PGD with APL11', 'OVF',
          'CBR', _SOME, 'PGD, MTC', ERRATUM='apl11'),
    *_evt('apl12', 'OVF, any packet, FUP, any packet with APL12', 'OVF, TSC',
          'FUP', _SOME, 'STOP', ERRATUM='apl12'),
    *_evt('apl12-psb', 'OVF, FUP, any packet, PSB+ with APL12', 'OVF, UNK, FUP',
          'FUP', 'PAD, FUP, TIP, PGE, PGD, PSBEND, TSC',
          'PSB, CBR, PSBEND', MAXP=12, ERRATUM='apl12'),
    *_evt('bdm70', 'PSB+ with FUP, any packet, TIP.PGE with BDM70', 'PSB, FUP',
          'PAD, TIP, FUP, PGE, CBR, OVF, STOP', 'PSBEND', 'PGE',
          ERRATUM='bdm70', header='EXEC,'),
    *_evt('pending', 'a packet that binds, any packet, PSB+', '',
          'FUP, MWT, E_CR2, TSX, TRIGI, EXEC1', 'PAD, EXSI, TIP',
          'PSB, PSBEND'),
    *_evt('twice', 'two packets that bind, TIP', 'FUP',
          'FUP, MWT, E_CR2, TSX, I_UNK, OVF',
          'FUP, E_VMXQ, EXEC1, PIP', 'TIP'),
    *_evt('error', 'any two packets that look ahead, then a decode error', '',
          'OVF, PSB, FUP, PGE, MWT', 'OVF, FUP, TSC, PSB, PGE', '',
          ENDSTATUS='-pte_bad_opc', ERRATUM='apl12'),
    *_evt('disabled', 'branch packets while tracing is disabled', '',
          'TNT8, TNT64, TIP, TIP0, FUP, PGD, STOP',
          'TNT8, TIP, PGE', 'TIP', header='EXEC,'),
    *_evt('sync', 'synchronization forward, backward and onto an offset',
          SYNC=1, SYNCTAIL='PSBEND, PIP', BADTAIL=0, MAXP=16),
    *_evt('sync-error', 'synchronization with an error in the last PSB+',
          SYNC=1, SYNCTAIL='TIP, TNT8', BADTAIL=1, MAXP=16),
    *_evt('memory', 'pointer and bounds checks', 'OVF',
          'FUP, PGE, PSB', 'EXEC1, FUP, E_VMXQ', 'TIP', mem=True, cases=3),
]
CHECKS['C13'] += [
    p for e, t in (('skd010', 'FUP, TIP'), ('skd010', 'PGD'),
                   ('apl11', 'PGD'), ('apl12', 'PSB, PSBEND'))
    for p in _evt('any-%s-%s' % (e, t.split(',')[0]), 'any packet after OVF '
                  'with erratum %s' % e, 'OVF', _ANY, _SOME, t, cases=300,
                  tiers=('thorough',), ERRATUM=e)
] + [
    p for n, h in enumerate(('FUP, EXEC,', 'EXEC,'))
    for p in _evt('any-error-%d' % n, 'any two packets, then a decode error',
                  '', _ANY, _SOME, '', tiers=('thorough',), cases=300,
                  ENDSTATUS='-pte_bad_opc', header=h)
]


CHECKS['C14'] = [
    *_evt('tracing', 'any packet, FUP, TIP', '', _ANY, 'PAD', 'FUP, TIP'),
    *_evt('tip', 'any packet, TIP, TNT', '', _SOME, 'FUPU', 'TIP0, TNT8'),
    *_evt('paused', 'any packet while tracing is disabled, TIP.PGE', '',
          _SOME, 'PAD', 'PGE, TIP', header='EXEC,', IFLAGS=1),
    *_evt('disable', 'packets that bind to TIP.PGD', '', _EXECS + ', FUP',
          _EXECS + ', PIP, FUP', 'PGD, TNT8', IFLAGS=1),
    *_evt('enable', 'packets that bind to TIP.PGE', '', _EXECS,
          _EXECS + ', FUP', 'PGE, TIP', header='EXEC,', IFLAGS=1),
    *_evt('async', 'packets between FUP and TIP', 'FUP',
          'PIP, VMCS, EXEC1', 'PIP, VMCS, EXECI, TSC', 'TIP', IFLAGS=1),
    *_evt('evd', 'EVD, CFE, FUP while tracing', '',
          'E_CR2, E_VMXQ, E_VMXR, E_UNK', 'C_INTR, C_VMEX, C_VMEXI, I_INTR, '
          'I_VMEX, I_VMEXI, C_UNK', 'FUP'),
    *_evt('evd2', 'two EVD, CFE while tracing', '', 'E_VMXQ, E_VMXR',
          'E_VMXR, E_VMXQ, E_CR2', 'I_VMEXI, FUP', EVDCONST=1),
    *_evt('evd3', 'EVD, CFE while tracing is disabled', '',
          'E_CR2, E_VMXQ, E_VMXR', 'C_INTR, C_VMEX, C_VMEXI',
          'PGE', header='EXEC,'),
    *_evt('power', 'MWAIT, EXSTOP, FUP', '', 'MWT, EXS, EXSI, PWRE, PWRX',
          'EXS, EXSI, FUP', 'FUP, TIP'),
    *_evt('trig', 'TRIG, any event, FUP', '',
          'TRIG, TRIGV, TRIGC, TRIGI, TRIGIX, TRIGIC', 'PTWI, TRIGI',
          'FUP0, TIP'),
    *_evt('ovf', 'OVF, any packet, FUP, TIP', 'OVF, CYC', _SOME, 'CYC',
          'FUP, TIP', KEEPTCAL=1),
    *_evt('psb', 'any packet inside PSB+', 'PSB', ('PAD', 'PWRE'), 'CBR',
          'PSBEND, TNT8', IFLAGS=1),
    *_evt('psb-ovf', 'any packet inside PSB+ that ends with OVF', 'PSB',
          'PAD, FUP, FUP0, MNT, TSX, PIP, VMCS, EXECI', 'CBR', 'OVF, PGE'),
    *_evt('bound', 'two packets that bind to one FUP', '',
          'PTWI, EXSI, TSXA, C_INTR, I_UNK, EXEC1', 'PTWI, TSX, I_INIT, EXECI',
          'FUP, TIP'),
]
CHECKS['C14'] += [
    p for n, (t, h) in enumerate((('FUP, TIP', 'FUP, EXEC,'),
                                  ('PGD', 'FUP, EXEC,'), ('PGE', 'EXEC,')))
    for p in _evt('any-%d' % n, 'any two packets, then %s' % t, '', _ANY,
                  _ANY, t, tiers=('thorough',), header=h, cases=360)
]


def _qry(name, nev, nops, maxtnt, tiers=('quick', 'thorough'), **d):
    return Part(name, 'qry', mem=d.pop('mem', False), sat='cadical',
                tiers=tiers, weight=30,
                defs=dict(d, NEV=nev, NOPS=nops, MAXTNT=maxtnt),
                ipt=['pt_query_decoder', 'pt_tnt_cache', 'pt_time'],
                unwind=8, timeout=300 if 'quick' in tiers else 3000,
                what='queries in any order over any events, against a '
                     'reference',
                bounds='%d events of any type and payload, up to %d branches '
                'each, %d queries' % (nev, maxtnt, nops),
                stubs=['event decoder: a list of arbitrary events'])


def _qrys(name, lo, hi, tiers=('quick', 'thorough'), **d):
    return Part(name, 'qrys', mem=False, tiers=tiers, weight=40,
                defs=dict(d, MAXP=18, FROMLO=lo, FROMHI=hi),
                ipt=['pt_query_decoder', 'pt_tnt_cache', 'pt_event_decoder',
                     'pt_event_queue', 'pt_last_ip', 'pt_config'],
                fdefs={'pt_event_decoder': {'memcpy': 'vf_memcpy'},
                       'pt_query_decoder': {'memcpy': 'vf_memcpy'}},
                unwind=90, flags=['--object-bits', '12'], fs=20,
                flat=('pt_packet', 'pt_packet_mode'),
                timeout=300 if 'quick' in tiers else 3000,
                what='synchronization forward, backward and onto an offset',
                bounds='a trace of 15 packets with four PSB, any payload, '
                'after up to three queries',
                stubs=['packet decoder: one symbolic packet per byte',
                       'time and calibration: counters',
                       'the members of the union in struct pt_packet do not '
                       'overlap'])


CHECKS['C15'] = [
    _qry('cond', 3, 4, 3, FIRST=0),
    _qry('indirect', 3, 4, 3, FIRST=1),
    _qry('event', 3, 4, 3, FIRST=2),
    _qry('wide-cond', 2, 3, 47, FIRST=0),
    _qry('wide-indirect', 2, 3, 47, FIRST=1),
    _qry('memory', 2, 2, 2, mem=True),
    _qrys('sync-0', 0, 2, STEPS=3),
    _qrys('sync-1', 2, 3, STEPS=2),
    _qrys('sync-2', 3, 4, STEPS=2),
    _qrys('sync-3', 4, 5, STEPS=2),
    _qrys('sync-bad-0', 0, 3, STEPS=1, BADEND=1),
    _qrys('sync-bad-1', 3, 5, STEPS=1, BADEND=1),
    _qry('long', 4, 6, 3, ('thorough',)),
    _qry('long-wide', 3, 5, 47, ('thorough',)),
]


_ILDLOOPS = {'harness': 20, 'one': 20, 'load': 20, 'check_class': 20}


def _ild(prop, mode, string, tiers=('quick', 'thorough'), ni=False):
    n = len(string)
    bits = {1: 16, 2: 32, 3: 64}[mode]
    name = '%d%s%s' % (bits, '-' if n else '', '.'.join(
        '%02x' % b for b in string)) + ('-ni' if ni else '')
    s = '{' + ','.join(['%d' % n] + ['0x%02x' % b for b in string]) + '}'
    d = {prop: 1, 'MODE': mode, 'OP_LO': 0, 'OP_HI': 255, 'STRINGS': s}
    if ni:
        d['NI'] = 1
    return Part(
        name, 'ild', d, ['pt_ild', 'pt_insn'], unwind=n + 1,
        loops=_ILDLOOPS, tiers=tiers, timeout=600, nobody=('pt_image_read',),
        mem=prop == 'C11' and not ni, weight=3 if ni else 2 if mode < 3 else 1,
        what='pt_ild_decode%s on %d-bit instructions with the prefixes [%s]: '
        'all bytes after the prefixes and the number of given bytes symbolic'
        % ('' if prop == 'C11' else ' and the pt_insn predicates', bits,
           ' '.join('%02x' % b for b in string)),
        bounds='prefixes concrete (one string per part), any opcode that is '
        'not itself a legacy or REX prefix, any other bytes; 0..15 bytes')


def _ilds(prop):
    out = []
    pri = {1: ((), (0x66,)) if prop == 'C11' else ((), (0x67,)),
           2: ((), (0x67,)) if prop == 'C11' else ((), (0x66,)),
           3: ((), (0x66,), (0x67,), (0xf3,), (0x48,), (0x66, 0x48), (0x44,))}
    one = [(b,) for b in (0x66, 0x67, 0xf0, 0xf2, 0xf3, 0x2e, 0x65)]
    two = [(0x66, 0x67), (0x66, 0xf3), (0xf3, 0x66), (0xf2, 0xf3),
           (0x67, 0xf3)]
    for m in (1, 2, 3):
        every = [()] + one + two
        if m == 3:
            every += [(0x40,), (0x44,), (0x48,), (0x4f,), (0x66, 0x48),
                      (0x48, 0x66), (0xf3, 0x48), (0x67, 0x48)]
        for s in every:
            t = ('quick', 'thorough') if s in pri[m] else ('thorough',)
            out.append(_ild(prop, m, s, t))
    return out


CHECKS['C11'] = _ilds('C11') + [
    _ild('C11', 3, (), ni=True),
    _ild('C11', 2, (), ('thorough',), ni=True),
    _ild('C11', 3, (0x66,), ('thorough',), ni=True),
    Part('read', 'insnrd', {}, ['pt_insn'], unwind=5, mem=True,
         loops={'harness': 18, 'pt_image_read': 18, 'pt_ild_decode': 18},
         what='pt_insn_decode over an image that hands out the bytes in '
         'chunks and ends anywhere: bytes, section, truncation, errors',
         bounds='up to three section boundaries and an end anywhere within '
         '15 bytes',
         stubs='pt_image_read, pt_ild_decode (knows the length)'),
]
CHECKS['C12'] = _ilds('C12')
