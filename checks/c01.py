from . import errprop
from sa.engine import AnalysisError

from .common import NONNEG
# internal helpers analysed on their own (when they exist under these names) instead of inside each caller
ANCHORS = {'attrset_set_attr', 'attrset_write_attr_set_v2'}
EXCLUDE = {'big_file_list', '_big_file_open_a_file', 'big_file_dtype_parse'}


def check(ctx):
    ctx.explanation = ('Interprocedural failure-propagation analysis (typestate over LLVM IR): in every storage function each fallible call '
                       '(C library or own) is forked into success and failure; after the first failure every return must be provably a failure value.')
    prog = ctx.program(drop={'_big_file_open_a_file'}, mpi=False, extra=ANCHORS)
    m = prog[0]
    fall = errprop.fallible(m)
    names = sorted((fall | {'big_file_close'}) - EXCLUDE)
    missing = [n for n in errprop.FALLIBLE_INT if n not in m.funcs]
    if missing:
        raise AnalysisError('storage functions not found: %s' % missing)
    fall -= EXCLUDE

    def one(ctx, n):
        mon = errprop.ErrProp(ctx, fall)
        ctx.engine(prog, n, mon, nonneg_tags=NONNEG)
        ctx.functions.append(n)
        ctx.cov['fallible_call_sites'] = len(mon.sites)
        errprop.report(ctx, m, mon, n)
        for s, (nm, x) in sorted(mon.sites.items())[:2]:
            ctx.sample({'function': n, 'fallible_call': nm, 'where': errprop.short(m.loc(x)), 'propagates': s not in mon.bad})
    ctx.pmap(one, names)
    ctx.assumptions = ['memory allocation succeeds', 'the C library reports its failures through its documented return values',
                       'updating a directory time stamp is best effort', 'listing the blocks of a file is best effort']
