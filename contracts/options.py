"""Options: each option changes exactly the setting it names."""
from .base import *
from .token import handle_ok
from .cache import *
from .cache import SC, CacheView
from .spell import HD
from .gc import *

HY = 'libvoikko::hyphenator::Hyphenator'
SG = 'libvoikko::spellchecker::suggestion::SuggestionGenerator'
FIELD = {0: 'ignore_dot', 1: 'ignore_numbers', 3: 'ignore_uppercase', 6: 'accept_first_uppercase', 7: 'accept_all_uppercase', 10: 'ignore_nonwords', 11: 'accept_extra_hyphens', 12: 'accept_missing_hyphens',
         13: 'accept_titles_in_gc', 14: 'accept_unfinished_paragraphs_in_gc', 16: 'accept_bulleted_lists_in_gc'}
NO_UGLY, OCR, UNKNOWN, MIN_LENGTH, CACHE_SIZE = 4, 8, 15, 9, 17
HYPHEN_OPTS, GC_OPTS = (11, 12), (13, 14, 16)
BOOLS = sorted(list(FIELD) + [NO_UGLY, OCR, UNKNOWN])
SETTER = {0: 'setIgnoreDot(bool)', NO_UGLY: 'setUglyHyphenation(bool)', UNKNOWN: 'setHyphenateUnknown(bool)'}

for _m in list(SETTER.values()) + ['setMinHyphenatedWordLength(int)']:
    contract('virtual %s::%s' % (HY, _m), trusted=True, elem={0: 8}, requires=lambda c: [('hyphenator', c.enc.isalive(c.pre, c.base(0)))], assigns=[('arg', 0)])
contract('virtual %s::terminate()' % SG, trusted=True, elem={0: 8}, requires=lambda c: [('generator', c.enc.isalive(c.pre, c.base(0)))], assigns=[('arg', 0)])


def del_post(c):
    b = z3.Int('bq')
    g = c.base(0)
    return [('the object and what it owns is released', z3.ForAll([b], z3.Select(c.post.alive, b) == z3.And(z3.Select(c.pre.alive, b), b != g, OWNER(b) != g), patterns=[z3.Select(c.post.alive, b)]))]


contract('virtual %s::~SuggestionGenerator()' % SG, trusted=True, elem={0: 8}, requires=lambda c: [('generator', c.enc.isalive(c.pre, c.base(0)))], frees=True, ensures=del_post)
contract('libvoikko::spellchecker::suggestion::SuggestionGeneratorFactory::getSuggestionGenerator(VoikkoHandle*, libvoikko::spellchecker::suggestion::SuggestionType)', trusted=True, elem={0: 8}, ret_elem=8,
         requires=lambda c: handle_ok(c, 0), allocates=True, noleak=False, ensures=lambda c: [('a new object', z3.And(c.ret.base >= c.pre.next, c.enc.isalive(c.post, c.ret.base), c.ret.off.z() == 0))])


def comp(c, st, name):
    return c.enc.load_ptr_field(st, c.p(0), HD, name)


COMPS = ['grammarChecker', 'hyphenator', 'suggestionGenerator', 'spellerCache']


def set_req(c):
    e, h = c.enc, c.base(0)
    gcp, hy, sg, cp = [comp(c, c.pre, x) for x in COMPS]
    v = CacheView(c, ptr=cp)
    bases = [h, gcp.base, hy.base, sg.base]
    cb = [cp.base, v.words.base, v.results.base]
    gp = Gc(c, gcp, c.pre).p
    l = List(c, gp, c.pre)
    par = fptr(c, c.pre, gp, at(c, GCC, 'paragraph'))
    mine = bases + cb
    return handle_ok(c, 0) + [('settings are 0 or 1', z3.And(*[isin(e.load_field(c.pre, c.p(0), HD, f), (0, 1)) for f in FIELD.values()])),
        ('components', z3.And(z3.Distinct(*bases), gcp.off.z() % 8 == 0, checker_obj(c, c.pre, gcp), e.isalive(c.pre, hy.base), e.isalive(c.pre, sg.base), hy.off.z() == 0, sg.off.z() == 0, *[OWNER(b) == 0 for b in bases])),
        ('no speller cache, or one of its own', z3.Implies(cp.base != 0, z3.And(v.ok(), cp.off.z() == 0, hk(cp.base) == 2, hk(v.words.base) == 1, hk(v.results.base) == 1, *[x != b for x in cb for b in bases], *[OWNER(b) == 0 for b in cb]))),
        ('the grammar checker owns its errors', z3.And(owned_ok(c, c.pre, gp), *[z3.And(par.base != b, z3.Not(inchain(l, b))) for b in bases]))]


def set_post(c):
    e, o, val = c.enc, c.i(1), c.i(2)
    out = [('known options are accepted, others are refused', c.r == z3.If(isin(o, BOOLS), z3.IntVal(1), z3.IntVal(0)))]
    want = lambda f, k: z3.If(o == k, z3.If(val != 0, z3.IntVal(1), z3.IntVal(0)), e.load_field(c.pre, c.p(0), HD, f))
    for k, f in FIELD.items():
        out.append(('%s changes with its own option only' % f, e.load_field(c.post, c.p(0), HD, f) == want(f, k)))
    for f in ('grammarChecker', 'morAnalyzer', 'speller', 'hyphenator'):
        a, b = comp(c, c.pre, f), comp(c, c.post, f)
        out.append(('%s stays' % f, z3.And(a.base == b.base, a.off.z() == b.off.z())))
    a, b = comp(c, c.pre, 'suggestionGenerator'), comp(c, c.post, 'suggestionGenerator')
    out.append(('the suggestion generator changes with its own option only', z3.If(o == OCR, z3.And(b.base >= c.pre.next, e.isalive(c.post, b.base)), z3.And(a.base == b.base, a.off.z() == b.off.z()))))
    changed = lambda opts: z3.Or(*[z3.And(o == k, e.load_field(c.pre, c.p(0), HD, FIELD[k]) != z3.If(val != 0, z3.IntVal(1), z3.IntVal(0))) for k in opts])
    a, b = comp(c, c.pre, 'spellerCache'), comp(c, c.post, 'spellerCache')
    out.append(('the speller cache is replaced when the answers may change', z3.If(z3.And(changed(HYPHEN_OPTS), a.base != 0), new_cache(c, b, e.load_field(c.pre, a, SC, 'sizeParam')), z3.And(a.base == b.base, a.off.z() == b.off.z()))))
    gp = Gc(c, comp(c, c.pre, 'grammarChecker'), c.pre).p
    out.append(('the error cache is emptied when the answers may change', z3.Implies(changed(GC_OPTS), fptr(c, c.post, gp, at(c, GCC, 'paragraph')).base == 0)))
    if c.isdef:
        for k, m in SETTER.items():
            cs = e.calls.get('virtual %s::%s' % (HY, m), [])
            flag = lambda q: q.args[1] if not isinstance(q.args[1], IV) else q.args[1].e != 0
            good = lambda q: z3.And(q.pc, q.base(0) == comp(c, c.pre, 'hyphenator').base, flag(q) == ((val == 0) if k == NO_UGLY else (val != 0)))
            out.append(('the hyphenator is told (%s)' % m, z3.If(o == k, z3.Or(*[good(q) for q in cs]), z3.Not(z3.Or(*[q.pc for q in cs]))) if cs else o != k))
    return out


def new_cache(c, b, s):
    e = c.enc
    W = e.load_ptr_field(c.post, b, SC, 'words')
    A = c.post.obj('4', W.base)
    m = z3.Int('mq')
    return z3.And(b.base >= c.pre.next, e.isalive(c.post, b.base), e.load_field(c.post, b, SC, 'sizeParam') == s, W.base >= c.pre.next, e.isalive(c.post, W.base), z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < 6544 * P2(s)), A[m] == 0), patterns=[A[m]]))


def own_new(c):
    b = comp(c, c.post, 'spellerCache')
    return [b.base, c.enc.load_ptr_field(c.post, b, SC, 'words').base, c.enc.load_ptr_field(c.post, b, SC, 'spellResults').base, comp(c, c.post, 'suggestionGenerator').base]


def base_of(name, st_off=0):
    return lambda enc, args, st: enc.load_ptr_field(st, args[0], HD, name).base


contract('voikkoSetBooleanOption', props=['C15'], elem={0: 8}, ret=(0, 1), requires=set_req, ensures=set_post, allocates=True, frees=True, noleak=False,
         assigns=[('arg', 0)] + [('fn', base_of(x), KINDS) for x in ('hyphenator', 'suggestionGenerator', 'grammarChecker')])


def int_req(c):
    return [x for x in set_req(c) if x[0] != 'settings are 0 or 1'] + [('cache size in range', z3.Or(c.i(1) != CACHE_SIZE, c.i(2) <= MAXSIZE)), ('powers of two', z3.And(P2(c.i(2)) >= 1, *[P2(j + c.i(2)) == (1 << j) * P2(c.i(2)) for j in sorted(set(ORD))]))]


def int_post(c):
    e, o, val = c.enc, c.i(1), c.i(2)
    out = [('known options are accepted, others are refused', c.r == z3.If(isin(o, (MIN_LENGTH, CACHE_SIZE)), z3.IntVal(1), z3.IntVal(0)))]
    for f in FIELD.values():
        out.append(('%s stays' % f, e.load_field(c.post, c.p(0), HD, f) == e.load_field(c.pre, c.p(0), HD, f)))
    for f in ('grammarChecker', 'morAnalyzer', 'speller', 'hyphenator', 'suggestionGenerator'):
        a, b = comp(c, c.pre, f), comp(c, c.post, f)
        out.append(('%s stays' % f, z3.And(a.base == b.base, a.off.z() == b.off.z())))
    a, b = comp(c, c.pre, 'spellerCache'), comp(c, c.post, 'spellerCache')
    cur = z3.If(a.base == 0, z3.IntVal(-1), e.load_field(c.pre, a, SC, 'sizeParam'))
    out.append(('the cache has the size asked for, none for a negative size', z3.If(o != CACHE_SIZE, z3.And(a.base == b.base, a.off.z() == b.off.z()),
                                                                               z3.If(val < 0, b.base == 0, z3.If(cur == val, a.base == b.base, new_cache(c, b, val))))))
    if c.isdef:
        cs = e.calls.get('virtual %s::setMinHyphenatedWordLength(int)' % HY, [])
        good = lambda q: z3.And(q.pc, q.base(0) == comp(c, c.pre, 'hyphenator').base, q.i(1) == val)
        out.append(('the hyphenator is told', z3.If(o == MIN_LENGTH, z3.Or(*[good(q) for q in cs]), z3.Not(z3.Or(*[q.pc for q in cs]))) if cs else o != MIN_LENGTH))
    return out


def own_cache(c):
    b = comp(c, c.post, 'spellerCache')
    return [b.base, c.enc.load_ptr_field(c.post, b, SC, 'words').base, c.enc.load_ptr_field(c.post, b, SC, 'spellResults').base]


contract('voikkoSetIntegerOption', props=['C15'], elem={0: 8}, ret=(0, 1), requires=int_req, ensures=int_post, allocates=True, frees=True, owned=own_cache,
         assigns=[('arg', 0), ('fn', base_of('hyphenator'), KINDS)])

# ---- the settings of the hyphenators
for _cls in ('AnalyzerToFinnishHyphenatorAdapter',):
    _C = 'libvoikko::hyphenator::' + _cls
    _F = [('uglyHyphenation', 'setUglyHyphenation(bool)'), ('hyphenateUnknown', 'setHyphenateUnknown(bool)'), ('ignoreDot', 'setIgnoreDot(bool)'), ('minHyphenatedWordLength', 'setMinHyphenatedWordLength(int)')]

    def _post(c, C=_C, F=_F, f=None):
        out = []
        for g, _ in F:
            if g not in c.structs[C]['fields']:
                continue
            a, b = c.enc.load_field(c.pre, c.p(0), C, g), c.enc.load_field(c.post, c.p(0), C, g)
            x = c.args[1]
            x = x.e if isinstance(x, IV) else z3.If(x, z3.IntVal(1), z3.IntVal(0))
            out.append(('%s is set' % g, b == x) if g == f else ('%s stays' % g, b == a))
        return out
    for _f, _m in _F:
        contract('%s::%s' % (_C, _m), props=['C15'], elem={0: 8}, requires=lambda c, C=_C: self_ok(c, C), assigns=[('arg', 0, ('1', '4', '8'))], ensures=lambda c, f=_f, post=_post: post(c, f=f))
