"""Which properties an obligation decides.

An obligation is identified by the operation it belongs to and by the piece of
observable behaviour it is about. Each property is the conjunction of the
obligations mapped to it here.
"""

ALL = ['C%02d' % i for i in range(1, 24)]

LOOK = {'find', 'contains', 'lookup', 'operator[]'}
EXP = {'has_expired', 'is_valid', 'throw_if_invalid', 'all_expired', 'clear_expired'}
QUERY = {'size', 'is_empty', 'is_full', 'space_left'}
MON = {'monitor', 'stop_monitoring', 'stats', 'shared_stats', 'is_monitoring'}
CB = {'hit_callback', 'miss_callback', 'access_callback', 'hit_callbacks', 'miss_callbacks', 'access_callbacks',
      'clear_hit_callbacks', 'clear_miss_callbacks', 'clear_access_callbacks', 'clear_all_callbacks'}

BASE = {
    'size': 'C01', 'pres': 'C01 C02', 'val': 'C02', 'key': 'C02 C23', 'pos': 'C04', 'time': 'C16', 'ident': 'C09 C18', 'cap': 'C01',
    'ttl': 'C16', 'functors': 'C23', 'cbset': 'C15', 'statptr': 'C13', 'stats': 'C13 C14', 'kstats': 'C13 C14', 'slaw': 'C14',
    'calls': 'C15', 'frame': 'C09', 'indep': 'C09 C10', 'error': 'C19', 'ret': '', 'found': 'C02 C08 C16 C23', 'expiry': 'C16 C17', 'valid': 'C17 C18',
    'monitor': 'C13', 'inv-link': 'C04 C09', 'inv-size': 'C01 C09', 'inv-bound': 'C01', 'inv-last': 'C08 C09', 'inv-lastpos': 'C08 C04',
    'inv-eq': 'C08 C23', 'inv-other': 'C09', 'safety': 'C09', 'noexcept': 'C19', 'iter': 'C18', 'equal': 'C22', 'wrap': 'C20', 'hash': 'C21',
}
CONTENT = {'size', 'pres', 'val', 'key', 'pos', 'time', 'cap', 'ret', 'inv-link', 'inv-size', 'inv-bound', 'inv-last', 'inv-lastpos', 'inv-eq', 'ident', 'error', 'frame'}


def group(unit):
    """Extra tags: {piece or '*': tags}."""
    n = unit.group
    if n == 'look':
        return {'pos': 'C03 C08', 'found': 'C13 C15 C19', 'ret': 'C02 C08 C09 C18 C23', 'pres': 'C08 C19', 'val': 'C08', 'size': 'C08', 'time': 'C08',
                'cap': 'C19', 'calls': 'C08', 'stats': 'C08', 'kstats': 'C08', 'expiry': 'C08 C13 C15 C19', 'inv-link': 'C03',
                'error': 'C02 C08 C16 C23', 'cbset': 'C19', 'statptr': 'C19', 'frame': 'C02'}
    if n == 'insert':
        d = {p: 'C02 C03 C06' for p in CONTENT}
        d.update({'pos': 'C03 C06', 'time': 'C06', 'ret': 'C02 C06 C18 C23', 'pres': 'C03 C06 C23 C08 C16', 'val': 'C03 C06 C08 C23', 'cap': 'C05 C06', 'calls': 'C06', 'stats': 'C06'})
        return d
    if n == 'bulk':
        d = {p: 'C06 C12' for p in CONTENT}
        d.update({'fold': 'C02 C03 C06 C12', 'calls': 'C06', 'ret': 'C06'})
        return d
    if n == 'erase':
        d = {p: 'C07 C08' for p in CONTENT}
        d.update({'ret': 'C07 C08 C23 C02', 'pres': 'C07 C08 C23', 'error': 'C07 C18', 'stats': 'C07', 'cbset': 'C07', 'statptr': 'C07'})
        return d
    if n == 'resize':
        d = {p: 'C05' for p in CONTENT}
        d.update({'calls': 'C05', 'stats': 'C05', 'statptr': 'C05', 'cbset': 'C05', 'inv-last': 'C05 C08'})
        return d
    if n == 'expiry':
        d = {p: 'C17' for p in CONTENT}
        d.update({'expiry': 'C16 C23 C18', 'valid': 'C18', 'error': 'C17 C18', 'pos': 'C17 C04', 'found': 'C17'})
        return d
    if n == 'query':
        return {p: 'C01' for p in CONTENT}
    if n == 'ends':
        d = {p: 'C04 C19' for p in CONTENT}
        return d
    if n == 'functors':
        return {p: 'C23' for p in CONTENT}
    if n == 'mon':
        d = {p: 'C13' for p in CONTENT}
        d.update({'kstats': 'C13 C14', 'error': 'C13'})
        return d
    if n == 'cb':
        return {p: 'C15' for p in CONTENT}
    if n == 'copy':
        return {'*': 'C10', 'equal': 'C10'}
    if n == 'move':
        return {'*': 'C11'}
    if n == 'ctor':
        return {'*': 'C12'}
    if n == 'assign':
        return {'*': 'C12'}
    if n == 'iter':
        return {'*': 'C18'}
    if n == 'insres':
        return {'*': 'C06 C18'}
    if n == 'stat':
        return {'*': 'C14'}
    if n == 'eq':
        return {'*': 'C22'}
    if n == 'wrap':
        return {'*': 'C20'}
    if n == 'hash':
        return {'*': 'C21'}
    return {}


def groupof(unit):
    n = unit.name.split('(')[0]
    args = unit.name[len(n):]
    if unit.extra.get('group'):
        return unit.extra['group']
    if unit.name == 'operator=(vec)':
        return 'assign'
    if n in LOOK:
        return 'look'
    if n in ('insert', 'emplace'):
        return 'insert' if args in ('(K,V)', '(unit,tuple,tuple)') else 'bulk'
    if n in ('erase', 'clear'):
        return 'erase'
    if n == 'shrink' or (n == 'capacity' and args == '(int)'):
        return 'resize'
    if n in EXP:
        return 'expiry'
    if n in QUERY or n == 'capacity':
        return 'query'
    if n in ('front', 'back'):
        return 'ends'
    if n in ('hash_function', 'key_equal'):
        return 'functors'
    if n in MON:
        return 'mon'
    if n in CB:
        return 'cb'
    if n.split('_')[-1] in ('begin', 'cbegin', 'end', 'cend'):
        return 'iter'
    return ''


def tags(unit, piece):
    if not hasattr(unit, 'group'):
        unit.group = groupof(unit)
    if piece == 'via':
        return unit_tags(unit)
    g = group(unit)
    t = set(BASE.get(piece, '').split())
    t |= set(g.get(piece, '').split())
    t |= set(g.get('*', '').split())
    return t


def unit_tags(unit):
    """Every property some obligation of this unit may bear on."""
    if not hasattr(unit, 'group'):
        unit.group = groupof(unit)
    t = set()
    for p in set(BASE) | CONTENT | {'fold'}:
        t |= tags(unit, p)
    only = unit.extra.get('pieces')
    if only is not None:
        t = set()
        for p in only:
            t |= tags(unit, p)
    # pieces this kind of operation never has
    g = unit.group
    drop = set()
    if g not in ('eq',):
        drop.add('C22')
    if g != 'wrap':
        drop.add('C20')
    if g != 'hash':
        drop.add('C21')
    if g not in ('expiry', 'copy', 'move', 'assign', 'eq') and unit.cls == 'Cache':
        drop |= {'C16', 'C17'}
    return t - drop


def main_tags(unit):
    """The properties an aborted path of this unit leaves open: those of the
    unit's group and of its contents."""
    if not hasattr(unit, 'group'):
        unit.group = groupof(unit)
    g = group(unit)
    t = set()
    for p, v in g.items():
        t |= set(v.split())
    for p in ('pres', 'val', 'size', 'pos'):
        t |= tags(unit, p)
    if unit.group == 'look':
        t |= {'C13', 'C15'}
        if unit.cls != 'Cache':
            t.add('C16')
    return t
