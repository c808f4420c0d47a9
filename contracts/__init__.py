from . import base, chars, case, token, norm, cache, spell, utf, iface, sentence, gc, options, hyph, analyses, cap, sugg
ALL = base.REG
LEMMAS = base.LEMMAS
ASSUMPTIONS = base.ASSUMPTIONS


def setup_lib(lib):
    pass
