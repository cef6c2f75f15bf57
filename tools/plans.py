"""What each check explores: histories (focus, length, number), configurations
(environment of the process), build variants.  All foci are defined in
spec/GenFocus.tla."""


def env(**k):
    return {'DUMA_' + a: str(v) for a, v in k.items()}


D = env()
BELOW = env(PROTECT_BELOW=1)
AL16 = env(ALIGNMENT=16)
BEL8 = env(PROTECT_BELOW=1, ALIGNMENT=8)
PF0 = env(PROTECT_FREE=0)
PF0B = env(PROTECT_FREE=0, PROTECT_BELOW=1)
PF100 = env(PROTECT_FREE=100)
PF40A = env(PROTECT_FREE=40, ALIGNMENT=8)
MAX = env(MAX_ALLOC=1500)
PFMAX = env(PROTECT_FREE=60, MAX_ALLOC=2500)
CHK = env(CHECK_FREQ=3, SLACKFILL=85)
ODD = env(FILL=0, SLACKFILL=0, ALIGNMENT=32, PROTECT_FREE=200)
NOEX = env(MALLOC_FAILEXIT=0)
Z0, Z1, Z2 = (env(MALLOC_0_STRATEGY=i, NEW_0_STRATEGY=2 + i % 2) for i in range(3))
Z3 = env(MALLOC_0_STRATEGY=3, NEW_0_STRATEGY=2)

GEN = [D, BELOW, AL16, PF0, PF100, BEL8, CHK, ODD]


class H:
    """histories of one focus under several configurations
    n: histories per configuration (quick); exhaustive foci (sim=False): at most n of all"""

    def __init__(self, focus, depth, n, envs, variants=('static',), sim=True, cfg=None, deep=None, repeat=1):
        self.focus, self.depth, self.n, self.envs, self.variants = focus, depth, n, envs, variants
        self.sim, self.cfg, self.deep, self.repeat = sim, cfg or {}, deep or depth, repeat


def X(focus, depth, n, envs, variants=('static',), **k):
    return H(focus, depth, n, envs, variants, sim=False, **k)


ALLV = ('static', 'nold', 'getenv', 'atexit', 'noglobal', 'nothread', 'explicit', 'shared')

PLANS = {
    'C01': [H('mix', 60, 24, GEN), H('mixany', 60, 24, GEN), H('mixlarge', 40, 24, [D, BELOW, PF0, PF100]),
            H('many', 500, 2, [D, PF0]), H('realloc', 50, 16, [D, BELOW, PF0]), H('churn', 150, 8, [D, PF40A, MAX, PFMAX]),
            H('churnbig', 60, 10, [D, PF0, env(MAX_ALLOC=4000)]), X('small', 5, 800, [D, PF0, BELOW]),
            H('oom', 40, 20, [NOEX, env(MALLOC_FAILEXIT=0, PROTECT_FREE=0)]),
            H('zeromix', 50, 10, [D, PF0]), H('mix', 60, 10, [D], ('shared', 'nold'))],
    'C02': [H('guard', 60, 50, [D, AL16, PF0, PF100, CHK, ODD, env(ALIGNMENT=8), env(ALIGNMENT=4096)]), H('mixany', 60, 30, [D, BELOW, PF0, PF100]),
            H('align', 60, 25, [D, AL16, PF0]), H('realloc', 50, 16, [D, PF0]), X('small', 5, 700, [D, PF0]),
            H('churn', 150, 8, [D, PF0, PF40A, MAX]), H('mixlarge', 40, 12, [D, PF0, PF100]), H('many', 400, 1, [D, PF0]),
            H('zeromix', 50, 10, [D])],
    'C03': [H('guard', 60, 50, [BELOW, BEL8, PF0B, env(PROTECT_BELOW=1, PROTECT_FREE=100), env(PROTECT_BELOW=1, ALIGNMENT=64), env(PROTECT_BELOW=1, CHECK_FREQ=2)]),
            H('mixany', 60, 30, [BELOW, D, PF0B, BEL8]), H('align', 60, 25, [BELOW, PF0B, BEL8]), X('small', 5, 800, [BELOW, PF0B]),
            H('realloc', 50, 16, [BELOW, PF0B]), H('churn', 150, 8, [BELOW, PF0B, env(PROTECT_BELOW=1, PROTECT_FREE=40)]),
            H('mixlarge', 40, 12, [BELOW, PF0B]), H('many', 400, 1, [BELOW, PF0B])],
    'C04': [H('align', 60, 50, [D, BELOW, AL16, PF0, PF100, env(ALIGNMENT=4096), env(ALIGNMENT=2), env(PROTECT_BELOW=1, ALIGNMENT=128)]),
            X('badalign', 2, 600, [D, BELOW, env(MALLOC_FAILEXIT=0)]), H('mixany', 60, 30, [D, BELOW, PF0, PF100]), H('realloc', 50, 16, [AL16, env(ALIGNMENT=64)]),
            H('mix', 60, 16, [AL16, BEL8]), H('align', 50, 20, [D], ('nold', 'shared')), H('churn', 120, 8, [D, PF0])],
    'C05': [H('freed', 60, 40, [D, BELOW, AL16, PF0, PF100, PF40A, MAX, CHK]), X('freedx', 4, 1500, [D, PF0, BELOW]),
            H('churn', 200, 12, [D, BELOW, MAX, PFMAX]), H('churnbig', 60, 12, [D, env(MAX_ALLOC=4000), env(PROTECT_FREE=2000)]),
            H('mix', 60, 20, [D, BELOW, AL16, PF100]), H('many', 400, 2, [D]), H('oom', 50, 20, [NOEX, env(MALLOC_FAILEXIT=0, MAX_ALLOC=3000)]),
            H('mixlarge', 40, 12, [D, PF0]), H('zeromix', 60, 16, [D, PF0]), H('realloc', 50, 12, [D, PF0])],
    'C06': [H('churn', 200, 10, [env(PROTECT_FREE=p) for p in (8, 40, 100, 200, 1000)] + [env(MAX_ALLOC=m) for m in (1100, 1500, 2500)] + [PFMAX]),
            H('churnbig', 60, 14, [env(PROTECT_FREE=p) for p in (40, 200, 1000, 2000, 5000)] + [env(MAX_ALLOC=m) for m in (2000, 3000, 4000, 6000)]),
            H('mix', 60, 20, [PF40A, PF100, MAX, PFMAX]), X('small', 5, 700, [env(PROTECT_FREE=16), env(PROTECT_FREE=24), env(MAX_ALLOC=1050)]),
            H('mixlarge', 40, 14, [env(PROTECT_FREE=300), env(PROTECT_FREE=4000), env(MAX_ALLOC=6000)]), H('realloc', 60, 14, [PF40A, PF100]),
            H('many', 400, 1, [PF100, MAX]), H('mixlarge', 60, 10, [env(MAX_ALLOC=3000, PROTECT_BELOW=1)]), H('zeromix', 60, 10, [PF40A])],
    'C07': [H('churn', 200, 14, [PF0, PF0B, env(PROTECT_FREE=0, ALIGNMENT=16), env(PROTECT_FREE=40)]), X('small', 5, 1200, [PF0, PF0B]),
            H('mix', 60, 24, [PF0, PF0B]), H('churnbig', 60, 14, [PF0, PF0B, env(PROTECT_FREE=1000)]), H('mixlarge', 40, 14, [PF0]),
            H('freed', 60, 20, [PF0]), H('many', 400, 2, [PF0]), H('realloc', 60, 12, [PF0]), H('zeromix', 60, 12, [PF0]),
            X('cycle', 4, 60, [PF0, PF0B, env(PROTECT_FREE=40), env(PROTECT_FREE=200)], repeat=120, cfg=dict(steady=264)),
            X('cycle', 4, 4, [PF0, env(PROTECT_FREE=40), env(PROTECT_FREE=200)], repeat=1000, cfg=dict(half=1))],
    'C08': [H('nmlmany', 60, 60, [D, AL16, env(PROTECT_BELOW=1, ALIGNMENT=16), PF0, PF40A]), H('nmlfar', 40, 60, [D, BELOW, CHK, AL16, PF0]), H('nml', 40, 60, [D, AL16, BELOW, CHK, env(CHECK_FREQ=1), env(CHECK_FREQ=5, ALIGNMENT=64), env(SLACKFILL=0), env(SLACKFILL=255, PROTECT_BELOW=1, ALIGNMENT=8), PF0]),
            X('nmlx', 5, 1300, [D, AL16, env(CHECK_FREQ=2, PROTECT_BELOW=1), env(CHECK_FREQ=1)]), H('mix', 60, 16, [CHK, env(CHECK_FREQ=1), AL16, BEL8]),
            H('align', 60, 14, [env(CHECK_FREQ=2), AL16, BEL8]), H('realloc', 50, 12, [env(CHECK_FREQ=2), AL16]), H('nml', 40, 30, [AL16], ('nold', 'shared', 'nothread')),
            H('churn', 100, 8, [env(CHECK_FREQ=1, ALIGNMENT=16), env(CHECK_FREQ=4, PROTECT_FREE=40)]), H('zeromix', 60, 8, [env(CHECK_FREQ=1)])],
    'C09': [X('bad', 4, 1500, [D, PF0, BELOW]), H('badall', 30, 40, [D, BELOW, PF0, PF40A, AL16, CHK]), H('badmany', 70, 90, [D, BELOW, PF0, PF40A]), H('badreduced', 40, 60, [PF100, PF40A, MAX, env(PROTECT_FREE=60)]),
            H('mix', 60, 20, GEN), H('zeromix', 60, 20, [D, PF0, Z2]), X('family', 3, 400, [D]),
            H('churn', 150, 8, [D, PF0, PF100]), H('many', 400, 2, [D]), H('badmany', 40, 40, [D], ('nold', 'shared', 'nothread')), H('realloc', 50, 12, [D, PF0])],
    'C10': [X('family', 3, 1100, [D, PF0, BELOW, AL16]), X('familyz', 2, 900, [D, PF0, Z1, Z2]), X('family', 3, 500, [D], ('nold', 'shared', 'nothread', 'noglobal')),
            H('badfam', 60, 120, [D, PF0, BELOW, CHK]), H('mix', 60, 24, [D, BELOW, PF0, PF100])],
    'C11': [H('content', 60, 40, [D, env(FILL=-1), env(FILL=-1, PROTECT_FREE=0), env(FILL=0), env(FILL=0, PROTECT_FREE=0), env(FILL=85, PROTECT_BELOW=1), env(FILL=-1, PROTECT_FREE=40), env(FILL=300)]),
            H('mix', 60, 20, [D, PF0, env(FILL=1, PROTECT_FREE=0), PF100]), H('mixlarge', 40, 16, [D, PF0, env(FILL=-1, PROTECT_FREE=0)]),
            H('churn', 150, 8, [PF0, env(FILL=-1, PROTECT_FREE=0), env(FILL=-1, MAX_ALLOC=1200)]), H('realloc', 50, 14, [D, PF0, env(FILL=-1, PROTECT_FREE=0)]),
            X('small', 5, 600, [PF0, env(FILL=-1, PROTECT_FREE=0)]), H('content', 60, 20, [D], ('nold', 'shared'))],
    'C12': [H('realloc', 60, 50, [D, PF0, BELOW, AL16, PF40A, CHK, env(FILL=-1, PROTECT_FREE=0), env(FILL=0)]), X('reallocx', 4, 1200, [D, PF0, env(MALLOC_0_STRATEGY=1, MALLOC_FAILEXIT=0), Z2, BELOW]),
            H('oom', 50, 40, [NOEX, env(MALLOC_FAILEXIT=0, PROTECT_FREE=0), env(MALLOC_FAILEXIT=0, PROTECT_FREE=1000)]), H('mixlarge', 40, 16, [D, PF0]),
            H('mix', 60, 16, [D, PF0, BELOW]), H('zeromix', 60, 14, [D, PF0]), H('realloc', 60, 20, [D], ('nold', 'shared')), H('churn', 150, 6, [D, PF0, MAX])],
    'C13': [X('zero', 4, 2000, [Z0, Z1, Z2, Z3]), H('zeromix', 60, 40, [D, PF0, BELOW, Z1, Z2, Z3, CHK, PF40A]), X('familyz', 2, 600, [D, Z1, Z2]),
            X('zero', 4, 800, [env(MALLOC_0_STRATEGY=3, NEW_0_STRATEGY=3, PROTECT_FREE=0)]), H('zeromix', 60, 14, [D], ('nold', 'shared')), H('many0', 300, 2, [D, PF0])],
    'C14': [H('leak', 50, 50, [D, env(REPORT_ALL_LEAKS=1), PF0, BELOW, env(REPORT_ALL_LEAKS=1, PROTECT_FREE=0), env(SHOW_ALLOC=1), PF40A, Z2]),
            X('leakx', 4, 1500, [D, env(REPORT_ALL_LEAKS=1), PF0]), H('many', 400, 3, [D, env(REPORT_ALL_LEAKS=1), PF0]), H('mix', 60, 16, [D, env(REPORT_ALL_LEAKS=1)]),
            H('leak', 50, 30, [D, env(REPORT_ALL_LEAKS=1)], ('shared', 'atexit', 'nothread')), H('zeromix', 60, 16, [D, env(REPORT_ALL_LEAKS=1)]),
            H('oom', 40, 16, [env(MALLOC_FAILEXIT=0, REPORT_ALL_LEAKS=1)]), H('churn', 100, 6, [D, PF0]),
            H('leak', 50, 8, [env(OUTPUT_FILE='log.txt'), env(OUTPUT_FILE='log.txt', REPORT_ALL_LEAKS=1), env(OUTPUT_STACKTRACE=1, OUTPUT_STACKTRACE_MAPFILE='map', REPORT_ALL_LEAKS=1)], ('static', 'getenv', 'shared')),
            H('leak', 50, 10, [D, env(REPORT_ALL_LEAKS=1)], ('noglobal', 'explicit'))],
    'C15': [X('oomx', 4, 1000, [D, NOEX, PF0, env(MALLOC_FAILEXIT=0, PROTECT_FREE=0), env(MALLOC_FAILEXIT=0, PROTECT_FREE=2000)]),
            H('oom', 50, 60, [D, PF0, NOEX, env(MALLOC_FAILEXIT=0, PROTECT_FREE=0), env(MALLOC_FAILEXIT=0, PROTECT_FREE=2000), env(MALLOC_FAILEXIT=0, PROTECT_BELOW=1), env(MALLOC_FAILEXIT=0, MAX_ALLOC=4000)]),
            X('huge', 2, 1100, [D, NOEX, BELOW, AL16, env(MALLOC_FAILEXIT=0, PROTECT_FREE=0)]), X('badalign', 2, 300, [D]), H('oomslots', 300, 4, [NOEX, env(MALLOC_FAILEXIT=0, PROTECT_FREE=0)]),
            H('handlersim', 40, 20, [D]), H('oom', 50, 20, [NOEX], ('nold', 'shared'))],
    'C17': [H('mix', 60, 16, GEN), H('mixany', 60, 16, GEN), H('mixlarge', 40, 12, [D, BELOW, PF0, PF100]), H('many', 500, 2, [D, PF0]),
            H('oom', 50, 30, [NOEX, env(MALLOC_FAILEXIT=0, PROTECT_FREE=0)]), H('zeromix', 60, 16, [D, Z1, Z2]), H('churn', 150, 8, [D, PF0, PF40A, MAX]),
            X('small', 5, 700, [D, PF0, BELOW]), X('zero', 4, 500, [Z1, Z2]), H('handlersim', 40, 20, [D]), H('guard', 40, 16, [D, BELOW]), H('churnbig', 60, 10, [D, PF0]), H('leak', 50, 16, [D]), H('mixall', 40, 10, [D, PF0, BELOW], ('noglobal', 'explicit', 'sonold'))],
    'C19': [X('handler', 4, 2500, [D, PF0, BELOW]), H('handlersim', 40, 60, [D, PF0, PF100, NOEX, BELOW]), X('huge', 2, 400, [D]), H('handlersim', 40, 24, [D], ('nold', 'shared', 'nothread')),
            H('oom', 40, 20, [NOEX])],
    'C20': [H('badreduced', 40, 40, [PF100, PF40A, MAX]), H('badall', 30, 40, [D, BELOW, PF40A, AL16, PF0]), H('badmany', 70, 90, [D, BELOW, PF40A, PF0]), X('bad', 4, 900, [D, BELOW]), X('family', 3, 700, [D, PF0]),
            H('nml', 40, 40, [D, AL16, BELOW, CHK]), X('zero', 4, 600, [Z0]), X('badalign', 2, 300, [D]), H('leak', 50, 24, [D, env(REPORT_ALL_LEAKS=1)]),
            H('badfam', 60, 60, [D, PF0]), H('badmany', 60, 40, [D], ('shared', 'nothread')), H('late', 200, 12, [D, PF0, PF40A])],
    'C21': [H('mix', 60, 20, [env(SHOW_ALLOC=1), env(SHOW_ALLOC=1, PROTECT_FREE=0), env(SHOW_ALLOC=1, PROTECT_BELOW=1), env(SHOW_ALLOC=1, PROTECT_FREE=40)]),
            H('leak', 50, 40, [env(SHOW_ALLOC=1), env(SHOW_ALLOC=1, REPORT_ALL_LEAKS=1), D]), H('zeromix', 60, 20, [env(SHOW_ALLOC=1), env(SHOW_ALLOC=1, MALLOC_0_STRATEGY=1, NEW_0_STRATEGY=2), env(SHOW_ALLOC=1, MALLOC_0_STRATEGY=2)]),
            H('many', 400, 2, [env(SHOW_ALLOC=1)]), H('realloc', 60, 20, [env(SHOW_ALLOC=1), env(SHOW_ALLOC=1, PROTECT_FREE=0)]), X('leakx', 4, 700, [env(SHOW_ALLOC=1)]),
            X('reallocx', 4, 500, [env(SHOW_ALLOC=1)]), X('family', 3, 300, [env(SHOW_ALLOC=1)]), H('oom', 40, 16, [env(SHOW_ALLOC=1, MALLOC_FAILEXIT=0)]), H('churn', 150, 6, [env(SHOW_ALLOC=1), D]),
            H('leak', 50, 16, [env(SHOW_ALLOC=1)], ('shared', 'nothread', 'atexit'))],
    'C22': [H('mixall', 40, 8, [D, env(ALIGNMENT=64), env(PROTECT_BELOW=1), env(FILL=7), env(SLACKFILL=9), env(CHECK_FREQ=2), env(PROTECT_FREE=0), env(PROTECT_FREE=50), env(MAX_ALLOC=1300),
                             env(MALLOC_0_STRATEGY=1), env(NEW_0_STRATEGY=2), env(SHOW_ALLOC=1), env(REPORT_ALL_LEAKS=1), NOEX,
                             env(ALIGNMENT=16, PROTECT_BELOW=1, FILL=0, SLACKFILL=1, CHECK_FREQ=4, PROTECT_FREE=90, MALLOC_0_STRATEGY=2, NEW_0_STRATEGY=2, SHOW_ALLOC=1, REPORT_ALL_LEAKS=1)]),
            H('mixall', 40, 8, [env(ALIGNMENT=32, FILL=3), env(PROTECT_FREE=0, SHOW_ALLOC=1)], ('getenv', 'shared', 'nothread'))],
    'C23': [H('mix', 40, 10, [D, BELOW, PF0], ALLV)],
    'C16': [H('mix', 60, 16, [D, PF0], ('tsan',)), H('mixany', 60, 16, [D, BELOW, PF0, PF100], ('tsan',)), H('realloc', 50, 10, [D, PF0], ('tsan',)),
            H('churn', 100, 4, [PF40A, MAX], ('tsan',)), H('many', 300, 1, [D, PF0], ('tsan',)), H('leak', 50, 10, [D], ('tsan',)), H('zeromix', 50, 10, [D, Z2], ('tsan',)),
            H('oom', 40, 16, [NOEX, env(MALLOC_FAILEXIT=0, PROTECT_FREE=500)], ('tsan',)), H('nml', 40, 16, [D, CHK], ('tsan',))],
    'C24': [H('mix', 60, 16, [D, PF0]), H('mixany', 60, 16, GEN), H('realloc', 50, 20, [D, PF0]), X('reallocx', 4, 800, [D, env(MALLOC_0_STRATEGY=1, MALLOC_FAILEXIT=0), Z2]),
            X('handler', 4, 2500, [D, PF0]), H('handlersim', 40, 60, [D, PF0, PF100, NOEX]), H('oom', 50, 40, [NOEX, env(MALLOC_FAILEXIT=0, PROTECT_FREE=0), env(MALLOC_FAILEXIT=0, PROTECT_FREE=1000)]),
            X('oomx', 4, 1000, [NOEX]), X('zero', 4, 800, [Z1, Z2, Z3]), H('zeromix', 60, 20, [D, Z1, Z2]), H('leak', 50, 16, [D]), H('many', 300, 1, [D]), X('huge', 2, 500, [D, NOEX]),
            X('badalign', 2, 300, [D]), H('churn', 100, 6, [PF40A, MAX]), H('nml', 40, 20, [D, CHK]), H('mixall', 50, 20, [D, PF0], ('nold', 'shared')), H('handlersim', 40, 16, [D], ('nold',))],
}
