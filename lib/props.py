"""The registered properties: harness, build, budgets."""
ALL = ['eni_crypto', 'eni_scrypt', 'eni_reverse', 'eni_json', 'eni']
OWN = [('ownops.so', 'ownops.cpp', c, ['eni'], 'c++17', '-DTAG=%d' % i) for i, c in enumerate(('gcc2', 'gcc0', 'clang2'))]
PROPS = {
    'C01': dict(src='json_text.cpp', defs=['PROP_C01'], twins=['gcc2', 'gcc0'], quick=dict(cases=160000, secs=18), thorough=dict(cases=4000000, secs=420, rounds=8),
                fuzz=dict(quick=(160000, 12), thorough=(8000000, 240))),
    'C02': dict(src='json_text.cpp', defs=['PROP_C02'], twins=['gcc2', 'gcc0'], quick=dict(cases=240000, secs=18), thorough=dict(cases=6000000, secs=420, rounds=8),
                fuzz=dict(quick=(240000, 15), thorough=(12000000, 300))),
    'C03': dict(src='json_text.cpp', defs=['PROP_C03'], twins=['gcc2', 'gcc0'], quick=dict(cases=100000, secs=25), thorough=dict(cases=3000000, secs=420, rounds=8),
                fuzz=dict(thorough=(4000000, 240))),
    'C05': dict(src='vector_hist.cpp', quick=dict(cases=120000, secs=15), thorough=dict(cases=6000000, secs=400, rounds=8),
                fuzz=dict(quick=(80000, 8), thorough=(4000000, 240))),
    'C23': dict(src='vector_hist.cpp', defs=['PROP_C23'], quick=dict(cases=60000, secs=15), thorough=dict(cases=4000000, secs=400, rounds=8),
                fuzz=dict(quick=(40000, 8), thorough=(3000000, 240))),
    'C06': dict(src='hash_hist.cpp', defs=['PROP_C06'], twins=['gcc0'], quick=dict(cases=60000, secs=18), thorough=dict(cases=4000000, secs=400, rounds=8),
                fuzz=dict(quick=(60000, 8), thorough=(4000000, 240))),
    'C08': dict(src='hash_hist.cpp', defs=['PROP_C08'], quick=dict(cases=80000, secs=15), thorough=dict(cases=4000000, secs=400, rounds=8),
                fuzz=dict(quick=(60000, 8), thorough=(4000000, 240))),
    'C07': dict(src='strmap_hist.cpp', defs=['PROP_C07'], twins=['gcc0'], quick=dict(cases=40000, secs=12), thorough=dict(cases=3000000, secs=400, rounds=8),
                fuzz=dict(quick=(40000, 8), thorough=(3000000, 200))),
    'C21': dict(src='strmap_hist.cpp', defs=['PROP_C21'], twins=['gcc0'], quick=dict(cases=400000, secs=8), thorough=dict(cases=20000000, secs=200, rounds=8),
                fuzz=dict(quick=(200000, 5), thorough=(8000000, 100))),
    'C22': dict(src='ptr_iter.cpp', quick=dict(cases=200000, secs=10), thorough=dict(cases=8000000, secs=300, rounds=8),
                fuzz=dict(quick=(100000, 6), thorough=(4000000, 120))),
    'C04': dict(src='value_hist.cpp', twins=['gcc2', 'gcc0'], quick=dict(cases=60000, secs=15), thorough=dict(cases=4000000, secs=400, rounds=8),
                fuzz=dict(quick=(40000, 8), thorough=(3000000, 240))),
    'C20': dict(src='types.cpp', quick=dict(cases=200000, secs=8), thorough=dict(cases=20000000, secs=200, rounds=8),
                fuzz=dict(quick=(100000, 5), thorough=(8000000, 100))),
    'C09': dict(src='eni_hist.cpp', twins=['gcc2', 'gcc0'], quick=dict(cases=120000, secs=12), thorough=dict(cases=8000000, secs=400, rounds=8),
                fuzz=dict(quick=(60000, 8), thorough=(4000000, 200))),
    'C13': dict(src='rsa.cpp', defs=['PROP_C13'], twins=['gcc0'], mods=['eni_crypto', 'eni'], quick=dict(cases=60000, secs=14), thorough=dict(cases=4000000, secs=500, rounds=8),
                fuzz=dict(thorough=(400000, 240))),
    'C14': dict(src='rsa.cpp', defs=['PROP_C14'], twins=['gcc0'], mods=['eni_crypto', 'eni'], quick=dict(cases=400000, secs=8), thorough=dict(cases=20000000, secs=200, rounds=8),
                fuzz=dict(quick=(200000, 5), thorough=(8000000, 100))),
    'C15': dict(src='scrypt.cpp', twins=['gcc0'], mods=['eni_scrypt', 'eni'], quick=dict(cases=100000, secs=14), thorough=dict(cases=4000000, secs=500, rounds=8),
                fuzz=dict(thorough=(1000000, 200))),
    'C16': dict(src='reverse.cpp', twins=['gcc0'], mods=['eni_reverse', 'eni'], quick=dict(cases=200000, secs=10), thorough=dict(cases=8000000, secs=300, rounds=8),
                fuzz=dict(quick=(100000, 6), thorough=(4000000, 120))),
    'C17': dict(src='nav.cpp', twins=['gcc0'], mods=['eni_json', 'eni'], quick=dict(cases=100000, secs=14), thorough=dict(cases=8000000, secs=400, rounds=8),
                fuzz=dict(quick=(60000, 8), thorough=(4000000, 200))),
    'C10': dict(src='ops.cpp', defs=['PROP_C10'], twins=['gcc0'], mods=ALL, quick=dict(cases=100000, secs=16), thorough=dict(cases=8000000, secs=500, rounds=8),
                fuzz=dict(quick=(40000, 8), thorough=(3000000, 300))),
    'C18': dict(src='ops.cpp', defs=['PROP_C18'], twins=['gcc0'], mods=ALL, quick=dict(cases=60000, secs=14), thorough=dict(cases=4000000, secs=300, rounds=8),
                fuzz=dict(thorough=(800000, 200))),
    'C24': dict(src='leaks.cpp', mods=ALL, quick=dict(cases=60000, secs=16), thorough=dict(cases=4000000, secs=400, rounds=8),
                fuzz=dict(thorough=(800000, 200))),
    'C19': dict(src='cli.cpp', mods=ALL, targets=ALL + ['eni_run', 'eni_gas'], helpers={'testops.so': 'testops.cpp'},
                quick=dict(cases=16000, secs=18), thorough=dict(cases=600000, secs=500, rounds=8)),
    'C12': dict(src='threads.cpp', cfg='tsan', mods=ALL, jobs=4, flaky_confirm=True, confirm_need=1, quick=dict(cases=8000, secs=20), thorough=dict(cases=400000, secs=500, rounds=8)),
    'C25': dict(src='shared.cpp', cfg='tsan', jobs=4, flaky_confirm=True, confirm_need=1, quick=dict(cases=8000, secs=15), thorough=dict(cases=400000, secs=400, rounds=8)),
    'C26': dict(src='nomem.cpp', mods=ALL, quick=dict(cases=60000, secs=15), thorough=dict(cases=4000000, secs=400, rounds=8)),
    'C27': dict(src='diag.cpp', quick=dict(cases=60000, secs=12), thorough=dict(cases=4000000, secs=300, rounds=8)),
    'C28': dict(src='cost.cpp', cfg='gcc2', mods=ALL, jobs=6, quick=dict(cases=20000, secs=20), thorough=dict(cases=400000, secs=400, rounds=8)),
    'C11': dict(src='everywhere.cpp', cfg='gcc2', extra_cfgs=['gcc0', 'clang2'], mods=[], targets=ALL, programs=OWN, helpers={'worker': 'worker.cpp', 'timeshift.so': 'timeshift.cpp'},
                quick=dict(cases=12000, secs=20), thorough=dict(cases=600000, secs=500, rounds=8)),
    'C29': dict(src='together.cpp', cfg='gcc2', extra_cfgs=['gcc0', 'clang2'], mods=ALL, targets=ALL,
                programs=[('dlhost', 'dlhost.cpp', c) for c in ('gcc2', 'gcc0', 'clang2')] +
                         [('dlhost-linked', 'dlhost.cpp', c, ['eni'], 'c++17', '-DLINKED') for c in ('gcc2', 'gcc0', 'clang2')] +
                         OWN +
                         [('ownops-14.so', 'ownops.cpp', 'gcc2', ['eni'], 'c++14', '-DTAG=3 -fvisibility-inlines-hidden -fno-gnu-unique'),
                          ('ownops-20.so', 'ownops.cpp', 'clang2', ['eni'], 'c++20', '-DTAG=4 -O0'),
                          ('ownops-3.so', 'ownops.cpp', 'gcc2', ['eni'], 'c++17', '-DTAG=5 -O3 -DNDEBUG -D_GLIBCXX_ASSERTIONS -fno-plt')],
                quick=dict(cases=16000, secs=20), thorough=dict(cases=600000, secs=400, rounds=8)),
    'C30': dict(src='hashes.cpp', twins=['gcc2', 'gcc0'], quick=dict(cases=200000, secs=8), thorough=dict(cases=8000000, secs=200, rounds=8),
                fuzz=dict(quick=(60000, 5), thorough=(4000000, 100))),
    'C31': dict(src='alloc.cpp', twins=['gcc2'], quick=dict(cases=60000, secs=8), thorough=dict(cases=4000000, secs=200, rounds=8),
                fuzz=dict(quick=(40000, 5), thorough=(2000000, 100))),
    'C32': dict(src='traces.cpp', mods=ALL, twins=['gcc2'], quick=dict(cases=40000, secs=14), thorough=dict(cases=3000000, secs=300, rounds=8),
                fuzz=dict(thorough=(400000, 150))),
}
