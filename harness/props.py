"""Which cases decide which property."""
import gen_scalar
import gen_props as gp
import gen_ser
import gen_rt
import gen_lazy
import gen_hist
import gen_inter
import gen_time

NOT_APPLICABLE = {}
PROPS = {
    'P01': {'gen': gen_scalar.p01},
    'P02': {'gen': gen_scalar.p02},
}
for _p in ('03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 24 25 26 27 29 31').split():
    PROPS['P' + _p] = {'gen': getattr(gp, 'p' + _p)}
for _p in ('20 21 22 28 33').split():
    PROPS['P' + _p] = {'gen': getattr(gen_ser, 'p' + _p)}
PROPS['P12']['menus'] = [(gen_hist.m12, 'Explore')]
PROPS['P18'] = {'gen': gen_lazy.p18, 'menus': [(gen_hist.m18, 'Explore')]}
PROPS['P19'] = {'gen': gen_inter.p19, 'menus': [(gen_inter.m19, 'Explore'), (lambda rng, tier: gen_inter.pairs(rng, 120 if tier == 'quick' else 800), 'Weave')]}
PROPS['P30'] = {'gen': gen_time.p30}
PROPS['P23'] = {'gen': gen_rt.p23}
PROPS = dict(sorted(PROPS.items()))
