"""The checks: property id -> harnesses (source, packages of /repo compiled with it, flags), bounds, assumptions."""


def H(name, pkgs=(), **kw):
    return dict(name=name, src=kw.pop('src', name + ('.py' if kw.get('kind') == 'py' else '.cpp')), pkgs=list(pkgs), **kw)


def IFACE(name, pkgs, program, **kw):
    return H('m06_' + name, pkgs, src='m06_iface.cpp', helper=True, fast=True, flags=['-O0', '-g0', '-DPROGRAM="%s"' % program] + kw.pop('flags', []), **kw)


EKF = ['lib', 'rotationlib', 'kalman_filter', 'ekf_localizer']

CHECKS = {
    'X01': dict(harnesses=[H('x01_rings', ['extraction'])]),
    'X04': dict(harnesses=[H('x04_labels', ['extraction', 'lib'])]),
    'X05': dict(harnesses=[H('x05_marks', ['extraction', 'lib'])]),
    'X06': dict(harnesses=[H('x06_node', ['extraction', 'lib'])]),
    'X07': dict(harnesses=[H('x07_geometry', ['extraction', 'lib'])]),
    'X02': dict(harnesses=[H('x02_curvature', ['extraction'])]),
    'X03': dict(harnesses=[H('x03_blocks', ['extraction'], fast=True)]),
    'L01': dict(harnesses=[H('l01_stats', ['lib', 'localization'])]),
    'L02': dict(harnesses=[H('l02_conversions', ['lib'])]),
    'L03': dict(harnesses=[H('l03_selection', ['lib', 'extraction'])]),
    'R01': dict(harnesses=[H('r01_quaternion', ['lib', 'rotationlib', 'localization'])]),
    'R02': dict(harnesses=[H('r02_derivative', ['lib', 'rotationlib', 'localization'])]),
    'O01': dict(harnesses=[H('o01_loop', ['lib', 'rotationlib', 'localization'])]),
    'O02': dict(harnesses=[H('o02_update', ['lib', 'rotationlib', 'localization'])]),
    'O03': dict(harnesses=[H('o03_residuals', ['lib', 'rotationlib', 'localization'])]),
    'O04': dict(harnesses=[H('o04_registration', ['lib', 'rotationlib', 'localization'], fast=True)]),
    'N01': dict(harnesses=[H('n01_kdtree', ['lib', 'rotationlib', 'localization'])]),
    'N02': dict(harnesses=[H('n02_store', [])]),
    'N03': dict(harnesses=[H('n03_concurrent', [], sched=True)]),
    'N04': dict(harnesses=[H('n04_node', ['lib', 'rotationlib', 'localization']), H('n04_program', ['lib', 'rotationlib', 'localization'], fast=True)]),
    'N05': dict(harnesses=[H('n05_odometry', ['lib', 'rotationlib', 'localization'])]),
    'N06': dict(harnesses=[H('n06_callbacks', ['lib', 'rotationlib', 'localization'], sched=True)]),
    'M01': dict(harnesses=[H('m01_map', ['lib']), H('m01_program', ['lib'])]),
    'M02': dict(harnesses=[H('m02_path', ['lib'])]),
    'M03': dict(harnesses=[H('m03_viewer', ['lib'])]),
    'M04': dict(harnesses=[H('m04_convert', kind='py')]),
    'M05': dict(harnesses=[H('m05_saving', ['lib'])]),
    'M06': dict(harnesses=[
        IFACE('extraction', ['extraction', 'lib'], 'extraction/app/feature_extraction.cpp'),
        IFACE('localization', ['lib', 'rotationlib', 'localization'], 'localization/app/localization.cpp'),
        IFACE('mapping', ['lib'], 'mapping/src/mapping.cpp'),
        IFACE('path', ['lib'], 'path_generator/src/node.cpp'),
        IFACE('ekf', EKF, 'ekf_localizer/src/ekf_localizer_node.cpp'),
        IFACE('loader', ['lib'], 'map_loader/src/map_loader.cpp', flags=['-DCOMPONENT']),
        IFACE('viewer', ['lib'], 'map_tf_generator/src/map_tf_generator_node.cpp', flags=['-DCOMPONENT']),
        H('m06_launch', kind='py')]),
    'K01': dict(harnesses=[H('k01_kalman', ['kalman_filter'], fast=True)], linkable='(?:TimeDelay)?KalmanFilter::'),
    'K03': dict(harnesses=[H('k03_motion', EKF), H('k03_variance', EKF)]),
    'K07': dict(harnesses=[H('k07_interval', EKF)]),
    'K08': dict(harnesses=[H('k08_fields', EKF), H('k08_parts', EKF)]),
    'K04': dict(harnesses=[H('k04_smoothing', EKF)]),
    'K05': dict(harnesses=[H('k05_gating', EKF)]),
    'K06': dict(harnesses=[H('k06_node', EKF)]),
    'K02': dict(harnesses=[H('k02_rejected', ['kalman_filter'])]),
    'S01': dict(harnesses=[H('s01_system', ['extraction'] + [p for p in EKF if p != 'ekf_localizer'] + ['localization', 'ekf_localizer'], fast=True,
                             more=['s01_%s.cpp' % x for x in ('extraction', 'localization', 'ekf', 'mapping')], flags=['-Wl,-z,muldefs'])]),
}

NOT_APPLICABLE = {}

import bounds                                                                # noqa: E402
for _id, _spec in CHECKS.items():
    _spec.setdefault('bounds', bounds.BOUNDS.get(_id, ''))
    _spec.setdefault('assumptions', bounds.ASSUMPTIONS.get(_id, []))
