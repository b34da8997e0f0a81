"""Which harness decides which property.  HARNESSES: how to build; CHECKS: property -> harnesses."""
LOG = ['sm_logging/src/*.cpp']
BT = ['boost_thread', 'boost_system']
PYB = ['sm_python/src/*.cpp', 'sm_kinematics/src/*.cpp', 'sm_random/src/*.cpp', 'sm_eigen/src/*.cpp', 'sm_property_tree/src/*.cpp', 'sm_value_store/src/*.cpp', 'sm_timing/src/*.cpp', 'sm_logging/src/*.cpp', 'sm_matrix_archive/src/[!l]*.cpp', 'sm_common/src/*.cpp']
PYL = ['boost_python312', 'python3.12', 'boost_serialization', 'boost_thread', 'boost_date_time', 'boost_filesystem', 'boost_system']
PYC = '-DREPO_DIR={REPO} -O0 -g0 -include boost/bind.hpp -DBOOST_BIND_GLOBAL_PLACEHOLDERS -I{VERIF}/stubs -I{REPO}/sm_python/include -I/usr/include/python3.12'
HARNESSES = {
    'jobqueue': dict(kind='sched', src=['jobqueue.cpp'], repo=['sm_boost/src/*.cpp'], libs=BT),
    'log_sched': dict(kind='sched', src=['log_sched.cpp'], repo=LOG, libs=BT),
    'log_filter': dict(kind='seq', src=['log_filter.cpp'], repo=LOG, libs=BT, san=' '),
    'log_severity': dict(kind='seq', src=['log_severity.cpp'] + ['log_severity_%s.cpp' % k for k in list(range(12)) + ['p0', 'p7']], repo=LOG, libs=BT, san=' ', cflags='-O0'),
    'log_content': dict(kind='seq', src=['log_content.cpp'], repo=LOG, libs=BT),
    'log_assert': dict(kind='seq', src=['log_assert.cpp'], repo=LOG, libs=BT, san=' '),
    'timing_sched': dict(kind='sched', src=['timing_sched.cpp'], repo=['sm_timing/src/*.cpp'], libs=BT + ['boost_date_time']),
    'timing_seq': dict(kind='seq', src=['timing_seq.cpp'], repo=['sm_timing/src/*.cpp'], libs=BT + ['boost_date_time']),
    'timing_nsec': dict(kind='seq', src=['timing_nsec.cpp'], repo=['sm_timing/src/NsecTimeUtilities.cpp']),
    'matrix_archive': dict(kind='seq', src=['matrix_archive.cpp'], repo=['sm_matrix_archive/src/[!l]*.cpp'], libs=['boost_filesystem', 'boost_system'], asan='max_allocation_size_mb=6000'),
    'lsma': dict(kind='seq', src=['lsma_tool.cpp'], repo=['sm_matrix_archive/src/[!l]*.cpp'], libs=['boost_filesystem', 'boost_system'], cflags='-I{REPO}/sm_matrix_archive/src'),
    'property_tree': dict(kind='seq', src=['property_tree.cpp'], repo=['sm_property_tree/src/*.cpp', 'sm_common/src/*.cpp'], libs=['boost_filesystem', 'boost_system'], cflags='-include boost/bind.hpp -DBOOST_BIND_GLOBAL_PLACEHOLDERS'),
    'value_store': dict(kind='seq', src=['value_store.cpp'], repo=['sm_value_store/src/*.cpp', 'sm_property_tree/src/*.cpp', 'sm_common/src/*.cpp'], libs=['boost_filesystem', 'boost_system'], cflags='-include boost/bind.hpp -DBOOST_BIND_GLOBAL_PLACEHOLDERS'),
    'common_assert': dict(kind='seq', src=['common_assert_dbg.cpp', 'common_assert_ndebug.cpp', 'common_assert_always.cpp'], san=' ', cflags='-O0'),
    'common_ids': dict(kind='seq', src=['common_ids.cpp'], repo=['sm_common/src/*.cpp'], libs=['boost_serialization'], san='-fsanitize=address'),
    'common_text': dict(kind='seq', src=['common_text.cpp'], san='-fsanitize=address,undefined -fno-sanitize-recover=all'),
    'common_num': dict(kind='seq', src=['common_num.cpp'], san=' '),
    'common_misc': dict(kind='seq', src=['common_misc.cpp'], repo=['sm_common/src/progress_info.cpp'], san='-fsanitize=address,undefined -fno-sanitize-recover=all'),
    'common_same': dict(kind='seq', src=['common_same.cpp'], san=' ', cflags='-O0'),
    'ids_sched': dict(kind='sched', src=['ids_sched.cpp'], repo=['sm_common/src/*.cpp']),
    'boost_files': dict(kind='seq', src=['boost_files.cpp'], libs=['boost_serialization', 'boost_filesystem', 'boost_system'], san='-fsanitize=address'),
    'random': dict(kind='seq', src=['random.cpp'], repo=['sm_random/src/*.cpp', 'sm_eigen/src/*.cpp'], san='-fsanitize=undefined -fno-sanitize-recover=all'),
    'eigen_archive': dict(kind='seq', src=['eigen_archive.cpp'], libs=['boost_serialization'], san=' ', cflags='-O0'),
    'kin_trans': dict(kind='seq', src=['kin_trans.cpp'], repo=['sm_kinematics/src/*.cpp','sm_random/src/*.cpp','sm_property_tree/src/*.cpp'], libs=['boost_serialization','boost_filesystem','boost_system'], san=' ', cflags='-include boost/bind.hpp -DBOOST_BIND_GLOBAL_PLACEHOLDERS'),
    'kin_rot': dict(kind='seq', src=['kin_rot.cpp'], repo=['sm_kinematics/src/*.cpp','sm_random/src/*.cpp'], san=' '),
    'eigen_gtest': dict(kind='seq', src=['eigen_gtest.cpp'], libs=['gtest'], san='-fsanitize=address,undefined -fno-sanitize-recover=all'),
    'eigen_math': dict(kind='seq', src=['eigen_math.cpp'], libs=['boost_serialization'], san=' '),
    'opencv_mat': dict(kind='seq', src=['opencv_mat.cpp'], libs=['boost_serialization'], cflags='-I{VERIF}/stubs -I{REPO}/sm_opencv/include'),
    'matlab_engine': dict(kind='seq', src=['matlab_engine.cpp'], repo=['sm_matlab/src/Engine.cpp'], san='-fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=all', cflags='-I{VERIF}/stubs -I{REPO}/sm_matlab/include'),
    'pyb': dict(kind='seq', src=['pyb_kin.cpp', 'pyb_store.cpp', 'pyb_misc.cpp'], repo=PYB, libs=PYL, san='-fsanitize=address --param asan-use-after-return=0', cflags=PYC),
    'py_sm': dict(kind='py', src=['py_sm.py']),
}
CHECKS = {
    'Y03': dict(harness=['pyb']),
    'Y04': dict(harness=['pyb']),
    'Y05': dict(harness=['pyb']),
    'J01': dict(harness=['jobqueue']),
    'J02': dict(harness=['jobqueue']),
    'J03': dict(harness=['jobqueue']),
    'L01': dict(harness=['log_sched']),
    'L02': dict(harness=['log_filter', 'log_severity']),
    'L03': dict(harness=['log_content'], level='exploration', rule='every message length class, macro, format string, level name, stream name and clock value of the stated alphabets once; non-trivial = something is to be delivered or expanded'),
    'L05': dict(harness=['log_assert'], level='exploration', rule='8 condition shapes x 36 operand pairs x 3 macros; non-trivial = the condition is false'),
    'L04': dict(harness=['log_sched', 'log_filter']),
    'T01': dict(harness=['timing_sched']),
    'T02': dict(harness=['timing_seq']),
    'T03': dict(harness=['timing_nsec'], level='exploration', rule='every power of two and of ten in the int64 range with neighbours, once; non-trivial = not zero'),
    'T04': dict(harness=['timing_seq']),
    'M01': dict(harness=['matrix_archive']),
    'M02': dict(harness=['matrix_archive']),
    'M03': dict(harness=['matrix_archive'], level='fault_enumeration', rule='every prefix length, failing byte offset and single-byte replacement of a reference file once; non-trivial = the fault takes effect'),
    'M04': dict(harness=['lsma']),
    'P01': dict(harness=['property_tree']),
    'P02': dict(harness=['property_tree']),
    'P03': dict(harness=['property_tree']),
    'P04': dict(harness=['property_tree']),
    'V01': dict(harness=['value_store']),
    'V02': dict(harness=['value_store']),
    'V03': dict(harness=['value_store']),
    'C03': dict(harness=['common_assert'], level='exploration', rule='every macro with every operand tuple, shape and build mode once; non-trivial = the assertion is to fire'),
    'C01': dict(harness=['ids_sched', 'common_ids']),
    'C02': dict(harness=['common_text'], level='exploration', rule='every string, number, width and precision of the stated alphabets once; non-trivial = the routine changes or pads something'),
    'C04': dict(harness=['common_num'], level='exploration', rule='every coefficient triple, number and pair of the stated grids once; non-trivial = real roots, a fractional part or unequal numbers'),
    'C05': dict(harness=['common_same'], level='exploration', rule='every kind of type, pair of values, verbosity and form of expression once; non-trivial = the values differ'),
    'C06': dict(harness=['common_misc']),
    'B01': dict(harness=['boost_files'], level='fault_enumeration', rule='every object, format, failing byte offset and prefix length once; non-trivial = the fault takes effect'),
    'T05': dict(harness=['boost_files'], level='exploration', rule='every time of the stated grid once; non-trivial = not the epoch'),
    'R01': dict(harness=['random']),
    'E03': dict(harness=['eigen_gtest'], level='exploration', rule='every pair of sizes, set of differing elements, pair of values and tolerance of the stated grids once; non-trivial = sizes or elements differ'),
    'E01': dict(harness=['eigen_archive']),
    'K01': dict(harness=['kin_rot']),
    'K02': dict(harness=['kin_rot']),
    'K03': dict(harness=['kin_trans']),
    'K04': dict(harness=['kin_trans']),
    'K05': dict(harness=['kin_trans']),
    'K06': dict(harness=['kin_trans']),

    'E02': dict(harness=['eigen_math']),
    'Y01': dict(harness=['py_sm']),
    'Y02': dict(harness=['py_sm']),
    'A01': dict(harness=['matlab_engine']),
    'O01': dict(harness=['opencv_mat']),
}
