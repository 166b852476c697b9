"""property -> where its contracts live, which replay driver exercises it."""
import importlib

REAL = 'floating point: doubles are modelled as exact reals plus +inf, -inf and NaN (no rounding); overflow to infinity is ' \
       'modelled in the any-parameters-and-overflow units only'
LOG = 'log, log2, ... are uninterpreted functions with the axioms of a logarithm (monotone, log of a power), real powers via rpow'

DIG = 'md5 is a function of the bytes fed in, free of collisions on the keys compared (C08); the std::map / std::set order of the ' \
      'keys is a function of the key set alone'

LRU = 'the aggregators are verified against the contract of the LRU cache (a lookup returns nothing or a pinned entry of that key; ' \
      'removed entries go to the deleter exactly once); the cache code itself is C21..C24'

CACHE = ['the ghost sums over the entries held (total, pinned and deferred size and count) are adjusted at every event that changes a '
         'term; that a sum of non-negative numbers bounds its parts, is zero when empty, and counts along a walk that visits every '
         'entry once (the walk itself is proved to) are mathematical facts taken as axioms',
         'the obligations are discharged by pattern-based quantifier instantiation: z3 5.3 in process, then the z3 4.8.12 binary on the same query']
CACHEA = ['the removal hook does not call back into the cache; values are distinct and not null while held; Release matches a Lookup or '
          'InsertPinned with the same options; Clear is called with nothing pinned (all documented by the header)',
          'the clock does not run backwards and stays below the year 2096; total size below 2^62, single sizes below 2^60, pin counts below 2^31',
          'lru / age mode is not switched while entries are pinned; verified on an instantiation with integer keys and opaque values '
          '(/verif/tus/lru.cc): other key types differ only in hashing and equality']

CLIENT = ['the aggregators are used through event contracts (an operation returns some status, with a response when it is OK, and may run '
          'the flush callback any number of times); what they do themselves is C12..C20',
          'std::shared_ptr counts, std::promise / std::future and std::function behave as the standard documents']
CLIENTA = ['default transports are supplied unless the unit says otherwise (asynchronous calls without any transport are covered)',
           'a transport completes each request exactly once: before it returns, later, or after the client was destroyed; the transport of a '
           'flushed request reads it only during the call',
           'transports and completion callbacks do not destroy the client or block during the call',
           'PeriodicTimer vtable order: destructors, Stop']

# property: (spec modules, driver or None, sanitize, level)
PROPS = {
    'C01': dict(specs=['money'], driver='money'),
    'C02': dict(specs=['money'], driver='money'),
    'C03': dict(specs=['distribution'], driver='distribution', sanitize=True, trust=[REAL]),
    'C04': dict(specs=['distribution'], driver='distribution', sanitize=True, trust=[REAL, LOG]),
    'C05': dict(specs=['distribution'], driver='distribution', sanitize=True, trust=[REAL]),
    'C06': dict(specs=['distribution'], driver='distribution', sanitize=True),
    'C07': dict(specs=['signature'], driver='signature', trust=[DIG]),
    'C08': dict(specs=['signature'], driver='signature', trust=[DIG, 'texts are NUL-free']),
    'C09': dict(specs=['opagg'], driver='opagg', trust=[DIG]),
    'C10': dict(specs=['opagg'], driver='opagg', trust=[REAL, DIG]),
    'C11': dict(specs=['opagg'], driver='opagg', assume=['every quota metric value set has exactly one value (the code GOOGLE_DCHECKs it)']),
    'C12': dict(specs=['aggregators'], driver='aggr', trust=[LRU]),
    'C13': dict(specs=['aggregators'], driver='aggr', sanitize=True, trust=[LRU]),
    'C14': dict(specs=['aggregators'], driver='aggr', trust=[LRU]),
    'C15': dict(specs=['aggregators'], driver='aggr', trust=[LRU]),
    'C16': dict(specs=['aggregators'], driver='aggr', trust=[LRU]),
    'C17': dict(specs=['aggregators'], driver='aggr', sanitize=True, trust=[LRU]),
    'C18': dict(specs=['aggregators'], driver='aggr', trust=[LRU]),
    'C19': dict(specs=['aggregators'], driver='aggr', trust=[LRU]),
    'C20': dict(specs=['aggregators'], driver='aggr', sanitize=True, trust=[LRU]),
    'C21': dict(specs=['lru'], driver='lru', sanitize=True, srcs=[], trust=CACHE, assume=CACHEA),
    'C22': dict(specs=['lru'], driver='lru', sanitize=True, srcs=[], trust=CACHE, assume=CACHEA),
    'C23': dict(specs=['lru'], driver='lru', sanitize=True, srcs=[], trust=CACHE, assume=CACHEA),
    'C24': dict(specs=['lru'], driver='lru', sanitize=True, srcs=[], trust=CACHE, assume=CACHEA + ['SetMaxIdleSeconds / SetAgeBasedEviction are not given NaN']),
    'C25': dict(specs=['client'], driver='client', sanitize=True, trust=CLIENT, assume=CLIENTA),
    'C26': dict(specs=['client'], driver='client', sanitize=True, trust=CLIENT, assume=CLIENTA),
    'C27': dict(specs=['client'], driver='client', sanitize=True, trust=CLIENT, assume=CLIENTA),
    'C28': dict(specs=['client'], driver='client', sanitize=True, leaks=1, trust=CLIENT, assume=CLIENTA),
    'C29': dict(specs=['aggregators'], driver='aggr', flags=['-fsanitize=thread', '-U__SANITIZE_THREAD__', '-D_GLIBCXX_TSAN=1', '-DVERIF_TSAN'], trust=[LRU]),
    'C30': dict(specs=['client', 'aggregators'], driver='client', sanitize=True, trust=CLIENT, assume=CLIENTA),
    'C31': dict(specs=['md5'], driver='md5', trust=['OpenSSL MD5_Init/Update/Final compute MD5 of the concatenated updates']),
}

BASE_TRUST = [
    'clang 18 front end: the IR it emits at -O0 for /repo sources is what runs (the check reads that IR, compiled from '
    '/repo on every run with -fno-exceptions, so exception edges are dropped)',
    'the verification-condition generator /verif/dv (symbolic execution of the IR, loop cut points, memory model)',
    'z3 4.15+ python API 5.3.2 (cvc5 cross-check in the thorough tier)',
    'assumed contracts of the C++ standard library and protobuf runtime (dv/lib.py); the ones used are listed under '
    'library_contracts_used',
]
BASE_ASSUME = [
    'library code (libstdc++, protobuf, OpenSSL) meets the assumed contracts; allocation never fails; no exceptions',
    'termination is not proved (partial correctness); the replay driver guards against hangs',
]


NA = {}


def units_for(pid):
    out = []
    for s in PROPS[pid]['specs']:
        m = importlib.import_module('specs.' + s)
        out += [u for u in m.UNITS if pid in u.props]
    return out
