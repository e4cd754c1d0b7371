"""Which harness decides which property."""
CHECKS = {
    'C01': dict(src=['c01_script.cpp']),
    'C02': dict(src=['c02_include.cpp']),
    'C03': dict(src=['c03_tree.cpp']),
    'C04': dict(src=['c04_setting.cpp']),
    'C05': dict(src=['c05_typed.cpp']),
    'S01': dict(src=['s01_roundtrip.cpp']),
    'S02': dict(src=['s02_reads.cpp']),
    'S03': dict(src=['s03_open.cpp']),
    'S04': dict(src=['s04_mat.cpp']),
    'S05': dict(src=['s05_foreign.cpp']),
    'M01': dict(src=['m01_wall.cpp']),
    'M02': dict(src=['m02_extent.cpp']),
    'M03': dict(src=['m03_numeric.cpp']),
    'M04': dict(src=['m04_saveload.cpp']),
    'M05': dict(src=['m05_analytical.cpp']),
    'M06': dict(src=['m06_luke.cpp']),
    'I01': dict(src=['i01_integrator.cpp']),
    'I02': dict(src=['i02_peaked.cpp']),
    'D01': dict(src=['d01_momentum.cpp']),
    'D02': dict(src=['d02_radial.cpp']),
    'D03': dict(src=['d03_code.cpp']),
    'D04': dict(src=['d04_loaders.cpp']),
    'D05': dict(src=['d05_analytical.cpp']),
    'K01': dict(src=['k01_clones.cpp'], parts=[dict(), dict(variant='hooks', cflags=['-DK01_RACES'], ldflags=['-Wl,--wrap=malloc'])],
        technique='explicit-state exploration of all clone/evaluate/destroy histories, plus partial-order schedule exploration: the access footprints of every pair of concurrent evaluations are recorded on the real code (compiler-inserted access hooks) and must be independent, so that one execution stands for all interleavings',
        note='Exhaustive over the histories and pairs of operations in the evidence; accesses inside GSL are represented by the work spaces passed to it.'),
    'G01': dict(src=['g01_image.cpp']),
    'G02': dict(src=['g02_timer.cpp']),
    'G03': dict(src=['g03_progress.cpp'], variant='plain',
        objs=[('@REPO@/src/General/ProgressTracker.cpp', ['-O1', '-g1', '-fsanitize=thread']), ('@REPO@/src/General/Timer.cpp', ['-O1', '-g1', '-fsanitize=thread'])],
        technique='stateless model checking under a controlled scheduler: every thread interleaving of the real code at memory-access granularity up to a preemption bound (compiler-inserted access hooks, intercepted locks and output), plus exhaustive sequential histories',
        note='Exhaustive within the preemption and thread bounds in the evidence; sequentially consistent interleavings only (no weak-memory effects).'),
    'G04': dict(src=['g04_algebra.cpp']),
    'G05': dict(src=['g05_exception.cpp']),
}
TITLES = {}
NOT_APPLICABLE = {}
